use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{BufReader, Read, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::OnceLock;

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::engine::{main as run, Prop, Stats, Tier};
use vh::gen::*;
use vh::{ensure, ensure_eq, keys, rfc};

struct C21;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    c: SignCase,
    before: String,
    /// How the values write themselves.
    styles: u8,
    rsa: usize,
    text: String,
    number: Option<u64>,
    plain: String,
    flag: bool,
}

// ---------------------------------------------------------------------------------------------
// The builds

/// Feature sets, none including the default ones; those with RSA are built apart from the others.
const SETS: &[&str] = &[
    "",
    "alloc",
    "derive",
    "alloc,derive,serde,test,js",
    "hmac-sha1",
    "hmac-sha1,derive,either",
    "alloc,hmac-sha1",
    "std",
    "std,derive,hmac-sha1",
    "rsa-sha1-06",
    "rsa-sha1-09,hmac-sha1",
    "alloc,test,either,std,derive,hmac-sha1,rsa-sha1-06,rsa-sha1-09,serde,js",
];

struct Probe {
    name: String,
    path: PathBuf,
    features: Vec<&'static str>,
}

impl Probe {
    fn has(&self, f: &str) -> bool {
        self.features.contains(&f)
    }
    fn allocs(&self) -> bool {
        self.has("alloc") || self.has("std")
    }
    /// What must be answered.
    fn tags(&self) -> String {
        let mut t = String::from("fqabcBpstnDwk");
        if !self.allocs() {
            t.push('Z');
        }
        if self.has("hmac-sha1") {
            t.push_str("hij");
        }
        if self.has("derive") {
            t.push_str("de");
        }
        if self.has("rsa-sha1-06") || self.has("rsa-sha1-09") {
            t.push_str("rxy");
        }
        t
    }
}

fn build_group(release: bool, rsa: bool) -> Vec<Probe> {
    let root = PathBuf::from(std::env::var_os("VH_ROOT").expect("VH_ROOT"));
    let build = PathBuf::from(std::env::var_os("VH_BUILD").expect("VH_BUILD"));
    let profile = if release { "release" } else { "debug" };
    let target = build.join(format!("probe-{}-{}", profile, if rsa { "rsa" } else { "plain" }));
    let mut out = Vec::new();
    for (i, set) in SETS.iter().enumerate().filter(|s| s.1.contains("rsa") == rsa) {
        let mut cmd = Command::new("cargo");
        cmd.args(["build", "--offline", "--locked", "-q", "--features", set, "--manifest-path"])
            .arg(root.join("probe/Cargo.toml"))
            .env("CARGO_TARGET_DIR", &target)
            .env("CARGO_BUILD_JOBS", "4")
            .stdin(Stdio::null());
        if release {
            cmd.arg("--release");
        }
        let r = cmd.output().expect("run cargo");
        if !r.status.success() {
            eprintln!("building the probe with features {:?} failed\n{}", set, String::from_utf8_lossy(&r.stderr));
            std::process::exit(2);
        }
        let path = build.join(format!("probe-{}-{}", profile, i));
        std::fs::copy(target.join(profile).join("probe"), &path).expect("copy the probe");
        out.push(Probe {
            name: format!("{} [{}]", profile, set),
            path,
            features: set.split(',').collect(),
        });
    }
    out
}

fn probes() -> &'static [Probe] {
    static PROBES: OnceLock<Vec<Probe>> = OnceLock::new();
    PROBES.get_or_init(|| {
        let groups: Vec<_> = [(false, true), (true, true), (false, false), (true, false)]
            .into_iter()
            .map(|(release, rsa)| std::thread::spawn(move || build_group(release, rsa)))
            .collect();
        groups.into_iter().flat_map(|g| g.join().expect("build")).collect()
    })
}

// ---------------------------------------------------------------------------------------------
// Asking one

struct Running {
    child: Child,
    input: ChildStdin,
    output: BufReader<ChildStdout>,
}

impl Running {
    fn start(p: &Probe) -> Running {
        let mut child = Command::new(&p.path)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .expect("start the probe");
        Running {
            input: child.stdin.take().unwrap(),
            output: BufReader::with_capacity(1 << 16, child.stdout.take().unwrap()),
            child,
        }
    }

    fn ask(&mut self, frame: &[u8]) -> std::io::Result<Vec<(u8, String)>> {
        self.input.write_all(frame)?;
        let mut answers = Vec::new();
        loop {
            let mut b = [0; 1];
            self.output.read_exact(&mut b)?;
            if b[0] == 0 {
                return Ok(answers);
            }
            let mut n = [0; 4];
            self.output.read_exact(&mut n)?;
            let mut s = vec![0; u32::from_le_bytes(n) as usize];
            self.output.read_exact(&mut s)?;
            answers.push((b[0], String::from_utf8(s).expect("UTF-8")));
        }
    }

    fn last_words(mut self) -> String {
        drop(self.input);
        let mut s = String::new();
        let _ = self.child.stderr.take().unwrap().read_to_string(&mut s);
        let status = self.child.wait().expect("wait");
        format!("{}, after {:?}", status, s)
    }
}

thread_local!(static RUNNING: RefCell<BTreeMap<usize, Running>> = const { RefCell::new(BTreeMap::new()) });

#[derive(Default)]
struct Frame(Vec<u8>);
impl Frame {
    fn num(&mut self, n: usize) {
        self.0.extend((n as u32).to_le_bytes());
    }
    fn long(&mut self, n: u64) {
        self.0.extend(n.to_le_bytes());
    }
    fn flag(&mut self, f: bool) {
        self.0.push(f as u8);
    }
    fn bytes(&mut self, b: &[u8]) {
        self.num(b.len());
        self.0.extend(b);
    }
    fn str(&mut self, s: &str) {
        self.bytes(s.as_bytes());
    }
    fn opt(&mut self, s: Option<&str>) {
        self.flag(s.is_some());
        if let Some(s) = s {
            self.str(s);
        }
    }
}

fn frame(case: &Case) -> Vec<u8> {
    let c = &case.c;
    let mut f = Frame::default();
    f.num(0);
    f.str(&c.method);
    f.str(&c.uri.s);
    f.0.push(case.styles);
    f.str(&c.client.0);
    f.str(&c.client.1);
    f.flag(c.token.is_some());
    if let Some((i, s)) = &c.token {
        f.str(i);
        f.str(s);
    }
    f.opt(c.opts.callback.as_deref());
    f.opt(c.opts.verifier.as_deref());
    f.str(c.opts.nonce.as_deref().unwrap());
    f.long(c.opts.timestamp.unwrap());
    f.flag(c.opts.version);
    f.str(&case.before);
    f.num(c.req.params.len());
    for (i, p) in c.req.params.iter().enumerate() {
        f.str(&p.k);
        f.str(&p.v.s);
        f.str(&p.encoded());
        f.0.push(case.styles.wrapping_mul(2 * i as u8 + 1));
        f.flag(p.e);
    }
    let mut order: Vec<usize> = (0..c.req.params.len()).collect();
    order.sort_by_key(|&i| (&c.req.params[i].k, c.req.params[i].encoded()));
    order.iter().for_each(|&i| f.num(i));
    f.bytes(&key(case).pkcs8);
    f.str(&case.text);
    f.flag(case.number.is_some());
    if let Some(n) = case.number {
        f.long(n);
    }
    f.str(&rfc::enc(&case.plain));
    f.flag(case.flag);
    let n = f.0.len() as u32 - 4;
    f.0[..4].copy_from_slice(&n.to_le_bytes());
    f.0
}

fn key(case: &Case) -> &'static keys::Key {
    &keys::all()[case.rsa % keys::all().len()]
}

// ---------------------------------------------------------------------------------------------
// Expectations

fn join(p: &[(String, String)]) -> String {
    p.iter().map(|(k, v)| format!("{}={}", k, v)).collect::<Vec<_>>().join("&")
}

fn expected(case: &Case) -> Result<BTreeMap<u8, String>, String> {
    let c = &case.c;
    let mut out = BTreeMap::new();
    let mut put = |t: u8, s: String| {
        out.insert(t, s);
    };
    let before = |s: &str| format!("{}{}", case.before, s);
    let form = join(&c.req.expected().into_iter().map(|(k, v)| (k, rfc::enc(&v))).collect::<Vec<_>>());
    put(b'f', before(&form));
    put(b'q', if form.is_empty() { c.uri.s.clone() } else { format!("{}?{}", c.uri.s, form) });
    let rsa = {
        let h = c.builder(&key(case).k09).authorize(&c.method, &c.uri, &c.req.build());
        let sig = rfc::parse_header(&h)?.pop().ok_or("no signature")?.1;
        let sig = rfc::dec(&sig)?;
        key(case).verify(&rfc::unbase64(&sig)?, c.base_string("RSA-SHA1").as_bytes())?;
        sig
    };
    let plain = rfc::signing_key(&c.client.1, c.token_secret());
    for (tags, name, signature) in [
        (b"abc", "BASE-1", "s/1".to_string()),
        (b"pst", "PLAINTEXT", plain.clone()),
        (b"hij", "HMAC-SHA1", c.reference_hmac()),
        (b"rxy", "RSA-SHA1", rsa),
    ] {
        put(tags[0], before(&c.header_of(name, &signature)));
        put(tags[1], before(&c.form_of(name, &signature)));
        put(tags[2], format!("{}?{}", c.uri.s, c.form_of(name, &signature)));
    }
    put(b'B', format!("{:?} {:?} {} end", c.client.1, c.token_secret(), c.base_string("BASE-1")));

    let mut fields = vec![
        ("encoded".to_string(), rfc::enc(&case.plain)),
        ("oauth_t".to_string(), rfc::enc(&format!("[{}]", case.text))),
        ("z-z".to_string(), rfc::enc(&case.text)),
    ];
    fields.extend(case.flag.then(|| ("flag".to_string(), "true".to_string())));
    fields.extend(case.number.map(|n| ("optional".to_string(), n.to_string())));
    fields.sort();
    put(b'd', before(&join(&fields)));
    let protocol = c.protocol_with("PLAINTEXT", Some("n"), c.opts.timestamp);
    fields.extend(protocol.into_iter().map(|(k, v)| (k, rfc::enc(&v))));
    fields.sort();
    fields.push(("oauth_signature".to_string(), rfc::enc(&plain)));
    put(b'e', before(&join(&fields)));

    put(b'D', match c.token {
        Some(ref t) => format!("{:?}", oauth::Token::from_parts(&*c.client.0, &*c.client.1, &*t.0, &*t.1)),
        None => format!("{:?}", c.client()),
    });
    put(b'Z', "0".to_string());
    let bare = c.protocol_with("BARE", None, None).into_iter().map(|(k, v)| format!("{}=\"{}\",", k, rfc::enc(&v)));
    put(b'w', format!("OAuth {}oauth_signature=\"s%2F1\"", bare.collect::<String>()));
    Ok(out)
}

fn what(tag: u8) -> &'static str {
    match tag {
        b'f' => "the unsigned form",
        b'q' => "the unsigned query",
        b'a' => "the header of a custom method",
        b'b' => "the form of a custom method",
        b'c' => "the query of a custom method",
        b'B' => "what a custom method is given",
        b'p' => "the PLAINTEXT header",
        b's' => "the PLAINTEXT form",
        b't' => "the PLAINTEXT query",
        b'h' => "the HMAC-SHA1 header",
        b'i' => "the HMAC-SHA1 form",
        b'j' => "the HMAC-SHA1 query",
        b'r' => "the RSA-SHA1 header",
        b'x' => "the RSA-SHA1 form",
        b'y' => "the RSA-SHA1 query",
        b'd' => "the unsigned form of a derived request",
        b'e' => "the PLAINTEXT form of a derived request",
        b'D' => "the credentials' debug output",
        b'w' => "the header of a method without nonce and timestamp",
        b'k' => "the header with an automatic timestamp",
        b'Z' => "the number of allocations",
        _ => "an unexpected answer",
    }
}

/// A header that is right but for its automatic nonce, which is returned.
fn nonce(c: &SignCase, header: &str) -> Result<String, String> {
    let items = rfc::parse_header(header)?;
    let n = items.iter().find(|i| i.0 == "oauth_nonce").ok_or("no nonce")?.1.clone();
    ensure!(
        (8..=64).contains(&n.len()) && n.bytes().all(rfc::is_unreserved),
        "automatic nonce {:?}",
        n
    );
    let mut c = c.clone();
    c.opts.nonce = Some(n.clone());
    let signature = rfc::signing_key(&c.client.1, c.token_secret());
    ensure_eq!(header, c.header_of("PLAINTEXT", &signature), "the header with an automatic nonce");
    Ok(n)
}

/// A header with an automatic timestamp, where there is a clock: elsewhere, no header at all.
fn clock(probe: &Probe, c: &SignCase, header: &str) -> Result<(), String> {
    if !probe.has("std") {
        ensure_eq!(header, "panicked", "a timestamp was made up without a clock");
        return Ok(());
    }
    let items = rfc::parse_header(header)?;
    let t: u64 = items.iter().find(|i| i.0 == "oauth_timestamp").and_then(|i| i.1.parse().ok()).ok_or("no timestamp")?;
    let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();
    ensure!(t <= now && now - t < 600, "automatic timestamp {} at {}", t, now);
    let mut c = c.clone();
    c.opts.timestamp = Some(t);
    ensure_eq!(header, c.header_of("PLAINTEXT", &rfc::signing_key(&c.client.1, c.token_secret())), "the header with an automatic timestamp");
    Ok(())
}

fn judge(probe: &Probe, c: &SignCase, answers: &[(u8, String)], expected: &BTreeMap<u8, String>) -> Result<(), String> {
    let mut nonces = Vec::new();
    for (tag, s) in answers {
        if *tag == b'n' {
            nonces.push(nonce(c, s)?);
            continue;
        }
        if *tag == b'k' {
            clock(probe, c, s)?;
            continue;
        }
        if *tag == b'B' && rfc::enc(&c.method) != c.method {
            // Custom methods encode the request method themselves.
            continue;
        }
        match expected.get(tag) {
            Some(e) => ensure_eq!(s, e, "{}", what(*tag)),
            None => return Err(format!("unexpected answer {:?}", s)),
        }
    }
    for t in probe.tags().bytes() {
        ensure!(answers.iter().any(|a| a.0 == t), "no answer for {}", what(t));
    }
    nonces.sort();
    ensure!(nonces.windows(2).all(|w| w[0] != w[1]), "equal automatic nonces: {:?}", nonces);
    Ok(())
}

// ---------------------------------------------------------------------------------------------

fn cut(s: &mut String, max: usize) {
    if s.len() > max {
        let mut n = max;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
    }
}

impl Prop for C21 {
    const ID: &'static str = "C21";
    const RULE: &'static str = "Random pinned requests answered by a probe program built 24 times, with 12 feature sets (from none at all to all) \
        and both profiles: unsigned and signed with a custom method, PLAINTEXT, HMAC-SHA1, RSA-SHA1 and through Either, into fixed buffers, with automatic nonces and timestamps, \
        and (where there is an allocator) strings, from hand-written, listed, sorted and derived requests; every answer equals the \
        reference, and without an allocator nothing is allocated; non-trivial = the request has parameters.";
    type Case = Case;
    const CASES: u32 = 1_600;
    const THOROUGH: u32 = 60;

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        (
            pinned_case(),
            short_text(),
            any::<u8>(),
            0usize..9,
            text(),
            proptest::option::of(any::<u64>()),
            text(),
            any::<bool>(),
        )
            .prop_map(|(mut c, before, styles, rsa, mut text, number, mut plain, flag)| {
                c.req.params.truncate(24);
                for p in &mut c.req.params {
                    cut(&mut p.k, 300);
                    cut(&mut p.v.s, 700);
                }
                for s in [&mut c.client.0, &mut c.client.1, &mut c.uri.s, &mut text, &mut plain] {
                    cut(s, 1200);
                }
                if let Some(ref mut t) = c.token {
                    cut(&mut t.0, 1200);
                    cut(&mut t.1, 1200);
                }
                for s in [&mut c.opts.callback, &mut c.opts.verifier, &mut c.opts.nonce].into_iter().flatten() {
                    cut(s, 1200);
                }
                Case { c, before, styles, rsa, text, number, plain, flag }
            })
            .boxed()
    }

    fn check(case: &Case, st: &mut Stats) -> Result<(), String> {
        let frame = frame(case);
        let expected = expected(case)?;
        for (i, p) in probes().iter().enumerate() {
            RUNNING.with(|r| {
                let r = &mut *r.borrow_mut();
                let running = r.entry(i).or_insert_with(|| Running::start(p));
                match running.ask(&frame) {
                    Ok(a) => judge(p, &case.c, &a, &expected),
                    Err(_) => Err(format!("the program ended: {}", r.remove(&i).unwrap().last_words())),
                }
            })
            .map_err(|e| format!("built as {}: {}", p.name, e))?;
        }
        if !case.c.req.params.is_empty() {
            st.nontrivial();
        }
        st.label_if(case.c.req.params.iter().any(|p| p.e), "with encoded values");
        st.label_if(case.c.token.is_none(), "no token");
        st.label_if(case.c.client.1.len() > 64, "hashed key");
        Ok(())
    }
}

fn main() {
    if matches!(std::env::args().nth(1).as_deref(), Some("run" | "replay")) {
        probes();
    }
    vh::gen::no_huge();
    run::<C21>()
}
