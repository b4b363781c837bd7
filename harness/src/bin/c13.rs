use std::collections::HashSet;
use std::num::NonZeroU64;
use std::process::{Command, Stdio};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

use oauth::signature_method::SignatureMethod;
use oauth::{Builder, Credentials, Token};
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::engine::{main as run, Prop, Stats, Tier};
use vh::gen::*;
use vh::share::Share;
use vh::{ensure, ensure_eq, rfc};

struct C13;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Via {
    Header,
    Form,
    Query,
    /// A clone of the builder, consumed.
    Clone,
    /// The low-level serializer.
    Low,
    /// The free function (which has no options).
    Free,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Nonce(Option<String>),
    Timestamp(Option<u64>),
    Sign(Via),
    Sleep(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Case {
    /// A history of settings and signing calls on one builder.
    History { c: Box<SignCase>, plaintext: bool, ops: Vec<Op> },
    /// Many automatic nonces from many threads, each with a builder of its own or one shared.
    Bulk { threads: u32, per_thread: u32, shared: bool, plaintext: bool },
    /// Automatic nonces of several processes started one after the other.
    Processes { n: u32 },
    /// Automatic nonces of a process and its forked children.
    Fork { before: u32, children: u32, after: u32 },
}

fn now() -> u64 {
    SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs()
}

/// The decoded nonce and the timestamp of a signed request.
fn read(via: Via, out: &str, uri: &str) -> Result<(String, u64), String> {
    let items = match via {
        Via::Header | Via::Clone | Via::Low | Via::Free => rfc::parse_header(out)?,
        Via::Form => rfc::split_form(out)?,
        Via::Query => {
            let q = out.strip_prefix(uri).and_then(|q| q.strip_prefix('?'));
            rfc::split_form(q.ok_or_else(|| format!("query {:?}", out))?)?
        }
    };
    let get = |k: &str| -> Result<String, String> {
        let v: Vec<_> = items.iter().filter(|i| i.0 == k).collect();
        ensure!(v.len() == 1, "{} times {} in {:?}", v.len(), k, out);
        rfc::dec(&v[0].1)
    };
    let t = get("oauth_timestamp")?;
    let n: u64 = t.parse().map_err(|_| format!("timestamp {:?}", t))?;
    ensure_eq!(n.to_string(), t, "form of the timestamp");
    Ok((get("oauth_nonce")?, n))
}

fn history<SM: SignatureMethod + Clone>(c: &SignCase, sm: SM, ops: &[Op], st: &mut Stats) -> Result<(), String> {
    let mut b = c.builder(sm.clone());
    let req = c.req.build();
    let (mut nonce, mut ts) = (c.opts.nonce.clone(), c.opts.timestamp);
    let mut seen = HashSet::new();
    let mut automatic = 0;
    for (i, op) in ops.iter().enumerate() {
        match op {
            Op::Nonce(n) => {
                nonce = n.clone();
                b.nonce(n.as_deref());
            }
            Op::Timestamp(t) => {
                ts = *t;
                b.timestamp(t.and_then(NonZeroU64::new));
            }
            Op::Sleep(ms) => std::thread::sleep(Duration::from_millis(u64::from(*ms))),
            Op::Sign(via) => {
                let mut want = (nonce.clone(), ts);
                let t0 = now();
                let out = match via {
                    Via::Header => b.authorize(&c.method, &c.uri, &req),
                    Via::Form => b.to_form(&c.method, &c.uri, &req),
                    Via::Query => b.to_query(&c.method, c.uri.s.clone(), &req),
                    Via::Clone => b.clone().into_authorization(&c.method, &c.uri, &req),
                    Via::Low => {
                        let mut o = oauth::serializer::auth::Options::new();
                        o.nonce(nonce.as_deref()).timestamp(ts.and_then(NonZeroU64::new));
                        let a = oauth::serializer::auth::Authorizer::authorization(
                            &c.method,
                            &c.uri,
                            c.client(),
                            c.token(),
                            &o,
                            sm.clone(),
                        );
                        oauth::Request::serialize(&req, a)
                    }
                    Via::Free => {
                        want = (None, None);
                        let t = Token::from_parts("c", "s", "t", "u");
                        oauth::authorize(&c.method, &c.uri, &req, &t, sm.clone())
                    }
                };
                let t1 = now();
                let (n, t) = read(*via, &out, &c.uri.s).map_err(|e| format!("call {}: {}", i, e))?;
                match want.0 {
                    Some(w) => ensure_eq!(n, w, "call {}: a set nonce", i),
                    None => {
                        automatic += 1;
                        ensure!(
                            !n.is_empty() && n.bytes().all(rfc::is_unreserved),
                            "call {}: automatic nonce {:?} is not URI-safe",
                            i,
                            n
                        );
                        ensure!(seen.insert(n.clone()), "call {}: automatic nonce {:?} repeats", i, n);
                    }
                }
                match want.1 {
                    Some(w) => ensure_eq!(t, w, "call {}: a set timestamp", i),
                    None => ensure!(
                        t0 <= t && t <= t1,
                        "call {}: automatic timestamp {} outside of {}..={}",
                        i,
                        t,
                        t0,
                        t1
                    ),
                }
            }
        }
    }
    if automatic > 1 {
        st.nontrivial();
    }
    st.label("history");
    Ok(())
}

fn draw<SM: SignatureMethod + Clone>(b: &Builder<'_, SM, &str, &str>, n: u32) -> Result<Vec<String>, String> {
    (0..n)
        .map(|_| {
            let h = b.authorize("GET", "http://example.com/", &());
            read(Via::Header, &h, "").map(|r| r.0)
        })
        .collect()
}

fn bulk<SM: SignatureMethod + Clone>(threads: u32, n: u32, shared: bool, sm: SM) -> Result<Vec<Vec<String>>, String> {
    let mk = || Builder::<SM, &str, &str>::new(Credentials::new("c", "s"), sm.clone());
    let one = mk();
    let mut out = Vec::new();
    let mut left = threads;
    while left > 0 {
        let k = left.min(16);
        left -= k;
        let part: Vec<Result<Vec<String>, String>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..k)
                .map(|_| {
                    let (one, mk) = (Share::new(&one), Share::new(&mk));
                    s.spawn(move || if shared { draw(one.get(), n) } else { draw(&mk.get()(), n) })
                })
                .collect();
            hs.into_iter().map(|h| h.join().map_err(|_| "a signing thread panicked".to_string())?).collect()
        });
        for p in part {
            out.push(p?);
        }
    }
    Ok(out)
}

fn unique(all: &[Vec<String>], what: &str) -> Result<(), String> {
    let mut seen = HashSet::new();
    for n in all.iter().flatten() {
        ensure!(
            !n.is_empty() && n.bytes().all(rfc::is_unreserved),
            "{}: automatic nonce {:?} is not URI-safe",
            what,
            n
        );
        ensure!(seen.insert(&**n), "{}: automatic nonce {:?} repeats", what, n);
    }
    Ok(())
}

/// The text's bytes aligned to the right in `w` places.
fn align(s: &[u8], w: usize) -> Vec<u8> {
    let mut v = vec![0; w - s.len()];
    v.extend_from_slice(s);
    v
}

fn shannon(counts: &[u32], n: f64) -> f64 {
    let mut h = 0.0;
    let mut k = 0.0;
    for &c in counts.iter().filter(|&&c| c > 0) {
        let p = f64::from(c) / n;
        h -= p * p.log2();
        k += 1.0;
    }
    // Miller-Madow correction: keeps the estimate an upper bound in practice.
    h + (k - 1.0) / (2.0 * n * std::f64::consts::LN_2)
}

/// An upper bound on the Shannon entropy, in bits, of the distribution the rows were drawn from: the
/// positions' own entropies less the mutual information along a maximum spanning tree of positions.
fn entropy_bound(rows: &[Vec<u8>]) -> f64 {
    let w = rows[0].len();
    let n = rows.len() as f64;
    let mut map = vec![vec![0usize; 256]; w];
    let mut k = vec![0usize; w];
    let mut h = vec![0.0; w];
    for i in 0..w {
        let mut c = [0u32; 256];
        rows.iter().for_each(|r| c[r[i] as usize] += 1);
        h[i] = shannon(&c, n);
        for b in 0..256 {
            if c[b] > 0 {
                map[i][b] = k[i];
                k[i] += 1;
            }
        }
    }
    let mut mi = vec![vec![0.0; w]; w];
    for i in 0..w {
        for j in i + 1..w {
            let mut c = vec![0u32; k[i] * k[j]];
            for r in rows {
                c[map[i][r[i] as usize] * k[j] + map[j][r[j] as usize]] += 1;
            }
            let m = (h[i] + h[j] - shannon(&c, n)).max(0.0);
            mi[i][j] = m;
            mi[j][i] = m;
        }
    }
    // Prim's algorithm.
    let mut best: Vec<f64> = mi[0].clone();
    let mut used = vec![false; w];
    used[0] = true;
    let mut tree = 0.0;
    for _ in 1..w {
        let i = (0..w).filter(|&i| !used[i]).max_by(|&a, &b| best[a].total_cmp(&best[b])).unwrap();
        used[i] = true;
        tree += best[i];
        for j in 0..w {
            best[j] = best[j].max(mi[i][j]);
        }
    }
    h.iter().sum::<f64>() - tree
}

/// The dimension over GF(2) of the affine span of the rows: no more than 2^rank values are possible.
fn affine_rank(rows: &[Vec<u8>]) -> usize {
    let w = rows[0].len() * 8;
    let mut pivots: Vec<Option<Vec<u8>>> = vec![None; w];
    let mut rank = 0;
    for r in rows.iter().skip(1).take(4000) {
        let mut v: Vec<u8> = r.iter().zip(&rows[0]).map(|(a, b)| a ^ b).collect();
        for i in 0..w {
            if v[i / 8] >> (i % 8) & 1 == 1 {
                match &pivots[i] {
                    Some(p) => v.iter_mut().zip(p).for_each(|(a, b)| *a ^= b),
                    None => {
                        pivots[i] = Some(v.clone());
                        rank += 1;
                        break;
                    }
                }
            }
        }
    }
    rank
}

fn random(all: &[Vec<String>]) -> Result<(), String> {
    let w = all.iter().flatten().map(|s| s.len()).max().unwrap_or(0);
    let rows: Vec<Vec<Vec<u8>>> =
        all.iter().map(|t| t.iter().map(|s| align(s.as_bytes(), w)).collect()).collect();
    let xor = |a: &Vec<u8>, b: &Vec<u8>| -> Vec<u8> { a.iter().zip(b).map(|(a, b)| a ^ b).collect() };
    let flat: Vec<Vec<u8>> = rows.iter().flatten().cloned().collect();
    let steps: Vec<Vec<u8>> = rows.iter().flat_map(|t| t.windows(2).map(|p| xor(&p[0], &p[1]))).collect();
    let across: Vec<Vec<u8>> = rows
        .windows(2)
        .flat_map(|p| p[0].iter().zip(&p[1]).map(|(a, b)| xor(a, b)).collect::<Vec<_>>())
        .collect();
    for (what, rows) in [
        ("nonces", &flat),
        ("differences between one call's nonce and the next", &steps),
        ("differences between the nonces of two threads", &across),
    ] {
        if rows.len() < 20_000 {
            continue;
        }
        let r = affine_rank(rows);
        ensure!(r >= 64, "{} span {} bits at most", what, r);
        let h = entropy_bound(rows);
        ensure!(h >= 64.0, "{} have {:.2} bits of entropy at most", what, h);
    }
    Ok(())
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
}

/// A process of its own: draws, forks children that draw, draws again, and prints all nonces.
fn child(before: u32, children: u32, after: u32) {
    let b = Builder::<_, &str, &str>::new(Credentials::new("c", "s"), oauth::HMAC_SHA1);
    let mut mine = draw(&b, before).unwrap();
    for _ in 0..children {
        // The process has one thread and the child exits below without running anything else.
        let pid = unsafe { fork() };
        if pid == 0 {
            println!("{}", draw(&b, after).unwrap().join("\n"));
            std::process::exit(0);
        }
        assert!(pid > 0, "fork failed");
        let mut status = 0;
        assert_eq!(unsafe { waitpid(pid, &mut status, 0) }, pid);
        assert_eq!(status, 0);
    }
    mine.extend(draw(&b, after).unwrap());
    println!("{}", mine.join("\n"));
}

fn spawn(args: [u32; 3]) -> Result<Vec<String>, String> {
    let out = Command::new(std::env::current_exe().unwrap())
        .arg("child")
        .args(args.iter().map(|a| a.to_string()))
        .stdin(Stdio::null())
        .output()
        .map_err(|e| format!("cannot start a process: {}", e))?;
    ensure!(out.status.success(), "a child process failed: {}", String::from_utf8_lossy(&out.stderr));
    Ok(String::from_utf8(out.stdout).unwrap().lines().map(|l| l.to_string()).collect())
}

impl Prop for C13 {
    const ID: &'static str = "C13";
    const RULE: &'static str = "Histories of setting and clearing nonce and timestamp between signing calls through every entry point; up \
        to a million automatic nonces drawn by one to 600 threads with shared and separate builders (uniqueness, alphabet, and \
        upper bounds on their entropy: affine rank and tree-corrected position entropies of the nonces, of successive differences \
        and of differences between threads); nonces of separate and of forked processes; non-trivial = at least two automatic \
        nonces were compared.";
    type Case = Case;
    const CASES: u32 = 40_000;

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let via = || {
            prop_oneof![
                Just(Via::Header),
                Just(Via::Form),
                Just(Via::Query),
                Just(Via::Clone),
                Just(Via::Low),
                Just(Via::Free)
            ]
        };
        let op = prop_oneof![
            1 => option::of(text()).prop_map(Op::Nonce),
            1 => option::of(timestamp()).prop_map(Op::Timestamp),
            4 => via().prop_map(Op::Sign),
        ];
        prop_oneof![
            400 => (sign_case(), any::<bool>(), vec(op, 1..14)).prop_map(|(c, plaintext, ops)| Case::History {
                c: Box::new(c), plaintext, ops
            }),
            20 => (1u32..7, 1u32..200, any::<bool>(), any::<bool>())
                .prop_map(|(threads, per_thread, shared, plaintext)| Case::Bulk { threads, per_thread, shared, plaintext }),
            1 => (1u32..5).prop_map(|n| Case::Processes { n }),
            1 => (0u32..40, 1u32..4, 1u32..40).prop_map(|(before, children, after)| Case::Fork { before, children, after }),
        ]
        .boxed()
    }

    fn fixed(tier: Tier) -> Vec<Case> {
        let k = if tier == Tier::Quick { 1 } else { 8 };
        let c = |t| {
            Box::new(SignCase {
                method: "GET".into(),
                uri: Val::new("http://example.com/"),
                client: ("c".into(), "s".into()),
                token: t,
                opts: Opts { callback: None, verifier: None, nonce: None, timestamp: None, version: false },
                req: ReqSpec { kind: Kind::Unit, params: vec![] },
            })
        };
        let later = |plaintext| Case::History {
            c: c(None),
            plaintext,
            ops: [Via::Header, Via::Form, Via::Query, Via::Clone, Via::Low, Via::Free]
                .into_iter()
                .flat_map(|v| [Op::Sign(v), Op::Sleep(1100), Op::Sign(v)])
                .collect(),
        };
        vec![
            Case::Bulk { threads: 8, per_thread: 60_000 * k, shared: false, plaintext: false },
            Case::Bulk { threads: 8, per_thread: 60_000 * k, shared: true, plaintext: true },
            Case::Bulk { threads: 1, per_thread: 200_000 * k, shared: true, plaintext: false },
            Case::Bulk { threads: 1, per_thread: 200_000 * k, shared: true, plaintext: true },
            Case::Bulk { threads: 600 * k, per_thread: 60, shared: false, plaintext: false },
            Case::Processes { n: 24 * k },
            Case::Fork { before: 0, children: 3, after: 60 },
            Case::Fork { before: 7, children: 3, after: 60 },
            later(false),
            later(true),
        ]
    }

    fn check(case: &Case, st: &mut Stats) -> Result<(), String> {
        match case {
            Case::History { c, plaintext: false, ops } => history(c, oauth::HMAC_SHA1, ops, st),
            Case::History { c, plaintext: true, ops } => history(c, oauth::PLAINTEXT, ops, st),
            &Case::Bulk { threads, per_thread, shared, plaintext } => {
                let all = if plaintext {
                    bulk(threads, per_thread, shared, oauth::PLAINTEXT)?
                } else {
                    bulk(threads, per_thread, shared, oauth::HMAC_SHA1)?
                };
                if threads * per_thread > 1 {
                    st.nontrivial();
                }
                st.label_if(threads > 1, "several threads");
                unique(&all, "threads")?;
                if threads * per_thread >= 20_000 {
                    st.label("entropy bounded");
                    random(&all)?;
                }
                Ok(())
            }
            &Case::Processes { n } => {
                let all = (0..n).map(|_| spawn([0, 0, 20])).collect::<Result<Vec<_>, _>>()?;
                if n > 1 {
                    st.nontrivial();
                }
                st.label("processes");
                ensure!(all.iter().all(|a| a.len() == 20), "not every process printed its nonces");
                unique(&all, "processes")
            }
            &Case::Fork { before, children, after } => {
                let all = spawn([before, children, after])?;
                st.nontrivial();
                st.label("forked processes");
                ensure_eq!(all.len() as u32, before + (children + 1) * after, "number of nonces");
                unique(&[all], "forked processes")
            }
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| &**s) == Some("child") {
        let n = |i: usize| args[i].parse().unwrap();
        child(n(2), n(3), n(4));
    } else {
        run::<C13>()
    }
}
