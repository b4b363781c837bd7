//! The search engine: drives a [`Prop`]'s generator over fixed numbers of cases in parallel shards,
//! judges every case with the property's oracle, shrinks the first failure of a shard and writes the
//! replay file and the statistics of the run.

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{self, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::Instant;

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};

/// What one evaluation of the oracle observed about its case.
#[derive(Default)]
pub struct Stats {
    nontrivial: bool,
    labels: Vec<&'static str>,
}

impl Stats {
    /// Marks the case as non-trivial by the property's rule.
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l);
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub trait Prop: 'static {
    const ID: &'static str;
    /// How cases are made and what makes one non-trivial.
    const RULE: &'static str;
    type Case: Serialize + DeserializeOwned + Debug + Clone + Send + 'static;

    fn strategy(tier: Tier) -> BoxedStrategy<Self::Case>;

    /// Systematic cases evaluated in addition to the random ones.
    fn fixed(_tier: Tier) -> Vec<Self::Case> {
        Vec::new()
    }

    /// Number of random cases of the quick tier.
    const CASES: u32;
    /// How many times more cases the thorough tier runs.
    const THOROUGH: u32 = 30;
    /// How long a failure is shrunk, at most.
    const SHRINK_SECS: u64 = 150;
    /// Upper bound on shards (threads).
    const SHARDS: u32 = 8;

    fn check(case: &Self::Case, st: &mut Stats) -> Result<(), String>;
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

pub fn install_hook() {
    let prev = panic::take_hook();
    panic::set_hook(Box::new(move |info| {
        let msg = payload_str(info.payload());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {}: {}", loc, msg)));
        if !QUIET.with(|q| q.get()) {
            prev(info);
        }
    }));
}

fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string panic>".into()
    }
}

/// Runs `f`, turning a panic into `Err(message)`.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let q = QUIET.with(|q| q.replace(true));
    let r = panic::catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|x| x.set(q));
    r.map_err(|_| {
        LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())
    })
}

fn judge<P: Prop>(case: &P::Case) -> (Result<(), String>, Stats) {
    let mut st = Stats::default();
    let r = catch(|| P::check(case, &mut st));
    let r = match r {
        Ok(r) => r,
        Err(p) => Err(format!("unexpected {}", p)),
    };
    (r, st)
}

fn hash_case(s: &str) -> u64 {
    let mut h = DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub fixed: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<Value>,
    pub failure: Option<Failure>,
}

pub struct Failure {
    pub message: String,
    pub case: Value,
    pub original: Value,
    pub shrink_steps: u32,
}

fn shorten(v: Value) -> Value {
    // Keeps the evidence files readable: very long strings are abbreviated in samples only.
    match v {
        Value::String(s) if s.chars().count() > 120 => {
            let head: String = s.chars().take(100).collect();
            Value::String(format!("{}… ({} chars)", head, s.chars().count()))
        }
        Value::Array(a) => {
            let n = a.len();
            let mut a: Vec<_> = a.into_iter().take(12).map(shorten).collect();
            if n > 12 {
                a.push(Value::String(format!("… ({} items)", n)));
            }
            Value::Array(a)
        }
        Value::Object(o) => Value::Object(o.into_iter().map(|(k, v)| (k, shorten(v))).collect()),
        v => v,
    }
}

pub fn seed_bytes(seed: u64, id: &str, shard: u32, purpose: u32) -> [u8; 32] {
    let mut out = [0; 32];
    let mut x = seed ^ 0x9E37_79B9_7F4A_7C15;
    for b in id.bytes() {
        x = (x ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01B3);
    }
    x ^= (u64::from(shard) << 32) | u64::from(purpose);
    for c in out.chunks_mut(8) {
        // splitmix64
        x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^= z >> 31;
        c.copy_from_slice(&z.to_le_bytes());
    }
    out
}

pub fn runner(seed: u64, id: &str, shard: u32) -> TestRunner {
    let config = Config {
        failure_persistence: None,
        ..Config::default()
    };
    // Each build of the library gets cases of its own.
    let purpose = u32::from(!debug_build());
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, id, shard, purpose));
    TestRunner::new_with_rng(config, rng)
}

struct Journal(Option<PathBuf>);

impl Journal {
    fn write<C: Serialize>(&self, c: &C) {
        if let Some(ref p) = self.0 {
            let _ = std::fs::write(p, serde_json::to_string(c).unwrap());
        }
    }
}

/// Shrinks a failing value tree, keeping the simplest value that still fails.
pub fn shrink<T: ValueTree>(
    tree: &mut T,
    max: u32,
    secs: u64,
    mut fails: impl FnMut(&T::Value) -> Option<String>,
) -> (Option<(T::Value, String)>, u32) {
    let mut best = None;
    let mut steps = 0;
    let until = Instant::now() + std::time::Duration::from_secs(secs);
    if !tree.simplify() {
        return (None, 0);
    }
    loop {
        steps += 1;
        if steps > max || Instant::now() > until {
            break;
        }
        let v = tree.current();
        if let Some(m) = fails(&v) {
            best = Some((v, m));
            if !tree.simplify() {
                break;
            }
        } else if !tree.complicate() {
            break;
        }
    }
    (best, steps)
}

fn run_shard<P: Prop>(
    seed: u64,
    shard: u32,
    cases: u32,
    fixed: &[P::Case],
    tier: Tier,
    stop: &AtomicBool,
    journal: &Journal,
) -> Report {
    let mut rep = Report::default();
    let mut runner = runner(seed, P::ID, shard);
    let strat = P::strategy(tier);

    fn record<P: Prop>(rep: &mut Report, case: &P::Case, st: &Stats, every: u64) {
        rep.evaluations += 1;
        for &l in &st.labels {
            *rep.labels.entry(l).or_insert(0) += 1;
        }
        if st.nontrivial {
            rep.nontrivial += 1;
            let text = serde_json::to_string(case).unwrap();
            rep.distinct.insert(hash_case(&text));
            if rep.nontrivial % every == 1 && rep.samples.len() < 2 {
                rep.samples
                    .push(shorten(serde_json::to_value(case).unwrap()));
            }
        }
    }

    let every = u64::from(cases / 2).max(2);
    for case in fixed {
        if stop.load(Ordering::Relaxed) {
            return rep;
        }
        journal.write(case);
        let (r, st) = judge::<P>(case);
        record::<P>(&mut rep, case, &st, every);
        rep.fixed += 1;
        if let Err(message) = r {
            let v = serde_json::to_value(case).unwrap();
            rep.failure = Some(Failure {
                message,
                case: v.clone(),
                original: v,
                shrink_steps: 0,
            });
            stop.store(true, Ordering::Relaxed);
            return rep;
        }
    }

    for _ in 0..cases {
        if stop.load(Ordering::Relaxed) {
            return rep;
        }
        let mut tree = match strat.new_tree(&mut runner) {
            Ok(t) => t,
            Err(e) => panic!("generator failure: {}", e),
        };
        let case = tree.current();
        journal.write(&case);
        let (r, st) = judge::<P>(&case);
        record::<P>(&mut rep, &case, &st, every);
        if let Err(message) = r {
            stop.store(true, Ordering::Relaxed);
            let original = serde_json::to_value(&case).unwrap();
            let (best, steps) = shrink(&mut tree, 4000, P::SHRINK_SECS, |v| {
                journal.write(v);
                judge::<P>(v).0.err()
            });
            let (case, message) = best.unwrap_or((case, message));
            rep.failure = Some(Failure {
                message,
                case: serde_json::to_value(&case).unwrap(),
                original,
                shrink_steps: steps,
            });
            return rep;
        }
    }
    rep
}

/// Entry point of a property binary.
///
/// `cNN run <out.json>`: explores; exit 0 nothing found, 1 failure (described in `out.json`).
/// `cNN replay <replay.json>`: re-judges one case; exit 0 holds, 1 fails.
pub fn main<P: Prop>() {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| &**s) {
        Some("run") => {
            let out = args.get(2).expect("output path");
            std::process::exit(run::<P>(out));
        }
        Some("replay") => {
            let text = std::fs::read_to_string(&args[2]).expect("read replay");
            let v: Value = serde_json::from_str(&text).expect("parse replay");
            let case: P::Case = serde_json::from_value(v["case"].clone()).expect("decode case");
            match judge::<P>(&case).0 {
                Ok(()) => {
                    println!("replay: property {} holds on this case", P::ID);
                    std::process::exit(0);
                }
                Err(m) => {
                    println!("replay: property {} FAILS on this case\n{}", P::ID, m);
                    std::process::exit(1);
                }
            }
        }
        _ => {
            eprintln!("usage: (run OUT | replay FILE)");
            std::process::exit(2);
        }
    }
}

pub fn env_seed() -> u64 {
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse().ok())
        .unwrap_or(1)
}

/// Whether the library was built with debug assertions (the driver says so).
pub fn debug_build() -> bool {
    std::env::var("VH_DA").map_or(true, |v| v != "0")
}

pub fn env_tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn run<P: Prop>(out: &str) -> i32 {
    let start = Instant::now();
    let seed = env_seed();
    let tier = env_tier();
    let mut total = match tier {
        Tier::Quick => P::CASES,
        Tier::Thorough => P::CASES.saturating_mul(P::THOROUGH),
    };
    if let Some(n) = std::env::var("VH_CASES").ok().and_then(|s| s.parse().ok()) {
        total = n;
    }
    let journal_path = std::env::var_os("VH_JOURNAL").map(PathBuf::from);
    let shards = P::SHARDS;
    let fixed = P::fixed(tier);
    let chunk = (fixed.len() + shards as usize - 1) / shards as usize;
    let stop = AtomicBool::new(false);
    let sequential = journal_path.is_some();
    let journal = Journal(journal_path);

    let work = |i: u32| {
        let lo = (i as usize * chunk).min(fixed.len());
        let hi = ((i as usize + 1) * chunk).min(fixed.len());
        let n = total / shards + u32::from(i < total % shards);
        (lo, hi, n)
    };

    let mut reports = Vec::new();
    if sequential {
        for i in 0..shards {
            let (lo, hi, n) = work(i);
            reports.push(run_shard::<P>(seed, i, n, &fixed[lo..hi], tier, &stop, &journal));
        }
    } else {
        std::thread::scope(|s| {
            let mut hs = Vec::new();
            for i in 0..shards {
                let (lo, hi, n) = work(i);
                // Each thread gets its own copy of its part: `Case` need not be `Sync`.
                let part: Vec<P::Case> = fixed[lo..hi].to_vec();
                let (stop, journal) = (&stop, &journal);
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(8 << 20)
                        .spawn_scoped(s, move || {
                            run_shard::<P>(seed, i, n, &part, tier, stop, journal)
                        })
                        .unwrap(),
                );
            }
            for h in hs {
                reports.push(h.join().expect("shard thread died"));
            }
        });
    }

    let mut distinct = HashSet::new();
    let mut labels: BTreeMap<&str, u64> = BTreeMap::new();
    let mut samples = Vec::new();
    let (mut evals, mut nfixed, mut nontrivial) = (0, 0, 0);
    let mut failure = None;
    for r in reports {
        evals += r.evaluations;
        nfixed += r.fixed;
        nontrivial += r.nontrivial;
        distinct.extend(r.distinct);
        for (k, v) in r.labels {
            *labels.entry(k).or_insert(0) += v;
        }
        if samples.len() < 6 {
            samples.extend(r.samples);
        }
        if failure.is_none() {
            failure = r.failure;
        }
    }
    // Cases that an earlier run (of another build) counted already are not counted again.
    if let Some(prev) = std::env::var_os("VH_PREV") {
        for c in std::fs::read(prev).expect("earlier hashes").chunks_exact(8) {
            distinct.remove(&u64::from_le_bytes(c.try_into().unwrap()));
        }
    }
    let hashes: Vec<u8> = distinct.iter().flat_map(|h: &u64| h.to_le_bytes()).collect();
    std::fs::write(format!("{}.hashes", out), hashes).expect("write hashes");

    let failed = failure.is_some();
    let doc = json!({
        "property": P::ID,
        "seed": seed,
        "evaluations": evals,
        "fixed_cases": nfixed,
        "nontrivial": nontrivial,
        "distinct_nontrivial": distinct.len(),
        "rule": P::RULE,
        "labels": labels,
        "samples": samples,
        "wall_s": start.elapsed().as_secs_f64(),
        "failure": failure.map(|f| json!({
            "message": f.message,
            "case": f.case,
            "original": f.original,
            "shrink_steps": f.shrink_steps,
        })),
    });
    std::fs::write(out, serde_json::to_string_pretty(&doc).unwrap()).expect("write report");
    i32::from(failed)
}

/// `assert_eq!`-like helper producing an `Err` with context.
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($ctx:tt)+) => {{
        let (a, b) = (&$a, &$b);
        if *a != *b {
            return Err(format!("{}\n  actual:   {:?}\n  expected: {:?}", format!($($ctx)+), a, b));
        }
    }};
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($ctx:tt)+) => {
        if !$c {
            return Err(format!($($ctx)+));
        }
    };
}
