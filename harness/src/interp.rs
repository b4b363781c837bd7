//! The library under the Miri interpreter, as a co-process (see ../../interp).

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{BufReader, Read, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::{Mutex, OnceLock};

use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::gen::*;
use crate::{ensure, ensure_eq, keys, rfc};

#[path = "../../interp/src/lib.rs"]
pub mod program;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub c: SignCase,
    /// The order in which the parameters are put into lists.
    pub order: Vec<u16>,
    /// Which parameters the hand-written request gives as encoded.
    pub mask: u32,
    /// No RSA key, a key, a key that signs.
    pub rsa: u8,
    pub hmac: bool,
    /// Which answers are asked for (flags of the program).
    pub parts: u8,
    /// The nonce and the timestamp are left to the library.
    pub auto: bool,
    /// Whether (and, if there are several, on which platforms) the case is interpreted too.
    pub interpreted: bool,
}

pub type Answers = Vec<(u8, String)>;

// ---------------------------------------------------------------------------------------------
// Generation

fn shorten(s: &mut String, max: usize) {
    if s.len() > max {
        let at = (0..=max).rev().find(|&i| s.is_char_boundary(i)).unwrap();
        s.truncate(at);
    }
}

/// A case; one in `every` is interpreted, and is then kept small.
pub fn case(every: u32) -> BoxedStrategy<Case> {
    (
        pinned_case(),
        proptest::collection::vec(any::<u16>(), 0..6),
        any::<u32>(),
        (prop_oneof![4 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)], any::<u8>(), any::<u8>()),
        proptest::bool::weighted(0.05),
        (0..every).prop_map(|n| n == 0),
    )
        .prop_map(|(mut c, order, mask, (rsa, hmac, part), auto, interpreted)| {
            c.req.kind = Kind::List;
            if interpreted {
                c.req.params.truncate(5);
                for p in &mut c.req.params {
                    shorten(&mut p.k, 20);
                    shorten(&mut p.v.s, 40);
                }
                let SignCase { uri, client, token, opts, .. } = &mut c;
                shorten(&mut uri.s, 40);
                let o = [&mut opts.callback, &mut opts.verifier, &mut opts.nonce];
                for s in o.into_iter().flatten().chain(token.iter_mut().flat_map(|t| [&mut t.0, &mut t.1])) {
                    shorten(s, 40);
                }
                shorten(&mut client.0, 40);
                shorten(&mut client.1, 70);
            }
            // An interpreter takes half a minute for an RSA signature, and some seconds for everything else.
            let (rsa, hmac, parts) = if interpreted {
                const PARTS: [u8; 9] = [
                    program::LIES,
                    program::UNSIGNED,
                    program::UNSIGNED | program::DERIVED,
                    program::PLAIN,
                    program::PLAIN | program::DERIVED,
                    program::BASE,
                    program::BASE,
                    program::DERIVED,
                    program::DERIVED | program::UNSIGNED,
                ];
                ((rsa == 1 && hmac < 64) as u8, hmac % 4 == 1, PARTS[part as usize % 9])
            } else {
                (rsa, hmac % 2 == 0, if part % 2 == 0 { program::ALL } else { program::ALL | program::LIES })
            };
            Case { c, order, mask, rsa, hmac, parts, auto, interpreted }
        })
        .boxed()
}

// ---------------------------------------------------------------------------------------------
// Frames

#[derive(Default)]
struct Frame(Vec<u8>);

impl Frame {
    fn num(&mut self, n: usize) {
        self.0.extend((n as u32).to_le_bytes());
    }
    fn bytes(&mut self, b: &[u8]) {
        self.num(b.len());
        self.0.extend(b);
    }
    fn opt(&mut self, s: Option<&str>) {
        self.0.push(s.is_some() as u8);
        s.iter().for_each(|s| self.bytes(s.as_bytes()));
    }
    fn text(&mut self, v: &Val) {
        let p = v.pieces();
        self.0.push(v.style);
        self.num(p.len());
        p.iter().for_each(|p| self.bytes(p.as_bytes()));
    }
}

impl Case {
    fn flags(&self) -> u8 {
        let rsa = if self.rsa == 2 { program::SIGN_RSA } else { 0 };
        let hmac = if self.hmac { program::HMAC } else { 0 };
        self.parts | rsa | hmac | if self.auto { program::AUTOMATIC } else { 0 }
    }

    fn frame(&self) -> Vec<u8> {
        let c = &self.c;
        let mut f = Frame::default();
        f.0.push(self.flags());
        f.bytes(c.method.as_bytes());
        f.text(&c.uri);
        f.bytes(c.client.0.as_bytes());
        f.bytes(c.client.1.as_bytes());
        f.0.push(c.token.is_some() as u8);
        if let Some((i, s)) = &c.token {
            f.bytes(i.as_bytes());
            f.bytes(s.as_bytes());
        }
        f.opt(c.opts.callback.as_deref());
        f.opt(c.opts.verifier.as_deref());
        f.opt(c.opts.nonce.as_deref());
        f.0.extend(c.opts.timestamp.unwrap().to_le_bytes());
        f.0.push(c.opts.version as u8);
        let sorted = c.req.sorted();
        f.num(sorted.len());
        for (i, p) in sorted.iter().enumerate() {
            let e = self.mask >> (i % 32) & 1 == 1;
            f.bytes(p.k.as_bytes());
            f.text(&if e { Val { s: rfc::enc(&p.v.s), ..p.v.clone() } } else { p.v.clone() });
            f.0.push(e as u8);
        }
        let mut order: Vec<usize> = (0..sorted.len()).collect();
        if !self.order.is_empty() {
            order.sort_by_key(|i| self.order[i % self.order.len()]);
        }
        f.num(order.len());
        for i in order {
            f.bytes(sorted[i].k.as_bytes());
            f.text(&sorted[i].v);
        }
        f.bytes(if self.rsa == 0 { b"" } else { &keys::small().pkcs8 });
        f.0
    }

    /// The answers of the native build.
    pub fn native(&self) -> Answers {
        thread_local!(static KEYS: RefCell<Option<program::Keys>> = const { RefCell::new(None) });
        let mut out = Vec::new();
        KEYS.with(|k| program::answer(&self.frame(), &mut k.borrow_mut(), &mut |t, s| out.push((t, s.to_string()))));
        out
    }

    fn reference(&self) -> BTreeMap<u8, String> {
        let c = &self.c;
        let mut out = BTreeMap::new();
        let form: Vec<String> = c.req.expected().iter().map(|(k, v)| format!("{}={}", k, rfc::enc(v))).collect();
        let form = form.join("&");
        out.insert(b'q', if form.is_empty() { c.uri.s.clone() } else { format!("{}?{}", c.uri.s, form) });
        out.insert(b'f', form);
        out.insert(b'l', c.req.expected().iter().map(|(k, v)| format!("{}={},", k, v)).collect());
        let plain = rfc::signing_key(&c.client.1, c.token_secret());
        for (tags, name, signature) in
            [(b"hij", "HMAC-SHA1", c.reference_hmac()), (b"pst", "PLAINTEXT", plain), (b"abc", "BASE-1", "s/1".into())]
        {
            out.insert(tags[0], c.header_of(name, &signature));
            out.insert(tags[1], c.form_of(name, &signature));
            out.insert(tags[2], format!("{}?{}", c.uri.s, c.form_of(name, &signature)));
        }
        if rfc::enc(&c.method) == c.method {
            // Custom methods encode the request method themselves.
            let secrets = format!("{:?}", (&c.client.1, c.token_secret()));
            out.insert(b'B', format!("{}{}", c.base_string("BASE-1"), secrets));
        }
        let t = c.opts.timestamp.unwrap();
        let mut fields = vec![
            format!("oauth_t={:x}", t.rotate_left(9)),
            format!("timestamp={}", t),
            format!("z-z={}", rfc::enc(&c.uri.s)),
        ];
        if t ^ 0x0102_0304_0506_0708 != 0 {
            fields.insert(0, format!("number={}", t ^ 0x0102_0304_0506_0708));
        }
        out.insert(b'd', fields.join("&"));
        out
    }

    /// Compares answers with the reference.
    pub fn judge(&self, answers: &Answers) -> Result<(), String> {
        self.judge_at(answers, None)
    }

    /// The same, where the clock (in seconds) is known.
    pub fn judge_at(&self, answers: &Answers, clock: Option<u64>) -> Result<(), String> {
        let want = self.reference();
        for (t, s) in answers {
            if *t == b'n' {
                self.automatic(s, clock)?;
            } else if *t == b'r' {
                self.rsa(s)?;
            } else if let Some(w) = want.get(t) {
                ensure_eq!(s, w, "answer {:?}", char::from(*t));
            }
        }
        let tags: [(bool, &[u8]); 5] = [
            (self.parts & program::UNSIGNED != 0, b"fqlD"),
            (!self.auto && self.parts & program::PLAIN != 0, b"pst"),
            (!self.auto && self.parts & program::BASE != 0, b"abcB"),
            (self.parts & program::DERIVED != 0, b"d"),
            (self.auto, b"n"),
        ];
        for t in tags.into_iter().filter(|t| t.0).flat_map(|t| t.1) {
            ensure!(answers.iter().any(|a| a.0 == *t), "no answer {:?}", char::from(*t));
        }
        ensure!(self.auto || !self.hmac || answers.iter().any(|a| a.0 == b'i'), "no answer 'i'");
        ensure!(self.auto || self.rsa < 2 || answers.iter().filter(|a| a.0 == b'r').count() == 2, "no answer 'r'");
        Ok(())
    }

    fn rsa(&self, form: &str) -> Result<(), String> {
        let sig = rfc::split_form(form)?.pop().ok_or("no signature")?.1;
        let sig = rfc::dec(&sig)?;
        ensure_eq!(form, self.c.form_of("RSA-SHA1", &sig), "the form signed with RSA-SHA1");
        keys::small().verify(&rfc::unbase64(&sig)?, self.c.base_string("RSA-SHA1").as_bytes())
    }

    fn automatic(&self, header: &str, clock: Option<u64>) -> Result<(), String> {
        let items = rfc::parse_header(header)?;
        let read = |k: &str| items.iter().find(|i| i.0 == k).map(|i| i.1.clone()).ok_or(format!("no {}", k));
        let mut c = self.c.clone();
        let n = read("oauth_nonce")?;
        ensure!((8..=64).contains(&n.len()) && n.bytes().all(rfc::is_unreserved), "automatic nonce {:?}", n);
        let t: u64 = read("oauth_timestamp")?.parse().map_err(|e| format!("timestamp: {}", e))?;
        let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();
        match clock {
            Some(0) => {} // Not after the epoch.
            Some(clock) => ensure_eq!(t, clock, "automatic timestamp"),
            None => ensure!(t <= now && now - t < 900, "automatic timestamp {} at {}", t, now),
        }
        c.opts.nonce = Some(n);
        c.opts.timestamp = Some(t);
        let signature = rfc::signing_key(&c.client.1, c.token_secret());
        ensure_eq!(header, c.header_of("PLAINTEXT", &signature), "the header with an automatic nonce");
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// Interpreters

struct Running {
    child: Child,
    input: ChildStdin,
    output: BufReader<ChildStdout>,
}

/// The program built with AddressSanitizer, in place of a platform's name.
pub const ASAN: &str = "AddressSanitizer";

/// The platform of JavaScript hosts, compiled to WebAssembly and run by Node.js rather than interpreted.
pub const WASM: &str = "wasm32-unknown-unknown";

fn command(target: &str) -> Command {
    if target == WASM {
        let root = PathBuf::from(std::env::var_os("VH_ROOT").expect("VH_ROOT"));
        let build = PathBuf::from(std::env::var_os("VH_BUILD").expect("VH_BUILD"));
        let mut cmd = Command::new("node");
        cmd.arg(root.join("wasm/run.js")).arg(build.join("wasm").join(WASM).join("debug/wasm.wasm"));
        return cmd;
    }
    if target == ASAN {
        let build = PathBuf::from(std::env::var_os("VH_BUILD").expect("VH_BUILD"));
        let mut cmd = Command::new(build.join("asan").join(HOST).join("debug/interp"));
        cmd.env("ASAN_OPTIONS", "detect_leaks=0");
        return cmd;
    }
    let root = PathBuf::from(std::env::var_os("VH_ROOT").expect("VH_ROOT"));
    let build = PathBuf::from(std::env::var_os("VH_BUILD").expect("VH_BUILD"));
    let mut cmd = Command::new("cargo");
    cmd.args(["+nightly", "miri", "run", "-q", "--offline", "--locked", "--target", target, "--manifest-path"])
        .arg(root.join("interp/Cargo.toml"))
        .env("CARGO_TARGET_DIR", build.join("miri"))
        .env("MIRIFLAGS", "-Zmiri-disable-isolation")
        .env_remove("RUSTUP_TOOLCHAIN");
    if target != HOST {
        cmd.env("MIRI_SYSROOT", build.join("miri-sysroot").join(target));
    }
    cmd
}

pub const HOST: &str = "x86_64-unknown-linux-gnu";

/// What the compiler said for platforms the library does not compile for.
static REFUSED: Mutex<BTreeMap<&str, String>> = Mutex::new(BTreeMap::new());

/// Builds what interpreting for these platforms takes. Ends the process if that fails.
pub fn prepare(targets: &[&'static str]) {
    let fail = |what: &str, o: &std::process::Output| {
        eprintln!("{} failed\n{}", what, String::from_utf8_lossy(&o.stderr));
        std::process::exit(2);
    };
    std::thread::scope(|s| {
        for t in targets {
            s.spawn(move || {
                if *t == WASM {
                    if let Err(e) = wasm() {
                        REFUSED.lock().unwrap().insert(t, e);
                        return;
                    }
                } else if *t == ASAN {
                    let root = PathBuf::from(std::env::var_os("VH_ROOT").expect("VH_ROOT"));
                    let build = PathBuf::from(std::env::var_os("VH_BUILD").expect("VH_BUILD"));
                    let o = Command::new("cargo")
                        .args(["+nightly", "build", "-q", "--offline", "--locked", "--target", HOST, "--manifest-path"])
                        .arg(root.join("interp/Cargo.toml"))
                        .env("CARGO_TARGET_DIR", build.join("asan"))
                        .env("RUSTFLAGS", "-Zsanitizer=address")
                        .env_remove("RUSTUP_TOOLCHAIN")
                        .output()
                        .expect("run cargo");
                    if !o.status.success() {
                        fail("building with AddressSanitizer", &o);
                    }
                } else if *t != HOST {
                    let build = PathBuf::from(std::env::var_os("VH_BUILD").expect("VH_BUILD"));
                    let o = Command::new("cargo")
                        .args(["+nightly", "miri", "setup", "--target", t])
                        .env("MIRI_SYSROOT", build.join("miri-sysroot").join(t))
                        .env_remove("RUSTUP_TOOLCHAIN")
                        .env_remove("CARGO_TARGET_DIR")
                        .output()
                        .expect("run cargo");
                    if !o.status.success() {
                        fail("cargo miri setup", &o);
                    }
                }
                let o = command(t).stdin(Stdio::null()).output().expect("run cargo");
                let err = String::from_utf8_lossy(&o.stderr);
                if !o.status.success() && err.contains("could not compile `oauth") && *t != HOST && *t != ASAN {
                    // It did compile natively: the harness contains it.
                    let msg = format!("does not compile for {}: {}", t, err.lines().take(20).collect::<Vec<_>>().join("\n"));
                    REFUSED.lock().unwrap().insert(t, msg);
                } else if !o.status.success() {
                    fail("interpreting the program on no input", &o);
                }
            });
        }
    });
}

/// Builds the program for WebAssembly, and a standard library for it (the toolchain has its source only).
/// The error is what the compiler says about /repo's crates.
fn wasm() -> Result<(), String> {
    let root = PathBuf::from(std::env::var_os("VH_ROOT").expect("VH_ROOT"));
    let build = PathBuf::from(std::env::var_os("VH_BUILD").expect("VH_BUILD"));
    let cargo = |cmd: &mut Command| -> Result<(), String> {
        let cmd = cmd.env_remove("RUSTUP_TOOLCHAIN").env("CARGO_INCREMENTAL", "0");
        let o = cmd.output().expect("run");
        if o.status.success() {
            return Ok(());
        }
        let err = String::from_utf8_lossy(&o.stderr);
        if err.contains("could not compile `oauth") {
            // It did compile natively: the harness contains it.
            return Err(format!("does not compile for {}: {}", WASM, err.lines().take(20).collect::<Vec<_>>().join("\n")));
        }
        eprintln!("building for {} failed\n{}", WASM, err);
        std::process::exit(2);
    };
    let o = Command::new("rustc").args(["+nightly", "--print", "sysroot"]).env_remove("RUSTUP_TOOLCHAIN").output().expect("run rustc");
    let toolchain = PathBuf::from(String::from_utf8_lossy(&o.stdout).trim());
    let dir = build.join("wasm-std");
    let lib = dir.join("sysroot/lib/rustlib").join(WASM).join("lib");
    if !dir.join("done").exists() {
        std::fs::create_dir_all(&lib).expect("create a directory");
        let source = dir.join("library");
        let _ = std::fs::remove_dir_all(&source);
        let copied = Command::new("cp")
            .arg("-r")
            .arg(toolchain.join("lib/rustlib/src/rust/library"))
            .arg(&source)
            .status();
        assert!(copied.expect("run cp").success(), "copy the standard library's source");
        // Its directory has a configuration that makes cargo use the sources next to it.
        cargo(
            Command::new("cargo")
                .args(["+nightly", "build", "--release", "-q", "--offline", "--locked", "--target", WASM])
                .current_dir(source.join("sysroot"))
                .env("CARGO_TARGET_DIR", dir.join("target"))
                .env("RUSTC_BOOTSTRAP", "1")
                .env("__CARGO_DEFAULT_LIB_METADATA", "vh")
                .env("RUSTFLAGS", "-Zforce-unstable-if-unmarked -Cpanic=unwind -Awarnings"),
        )?;
        let copied = Command::new("find")
            .arg(dir.join("target").join(WASM))
            .args(["(", "-name", "*.rlib", "-o", "-name", "*.rmeta", ")", "-exec", "cp", "-t"])
            .arg(&lib)
            .args(["{}", "+"])
            .status();
        assert!(copied.expect("run find").success(), "copy the standard library");
        std::fs::write(dir.join("done"), "").expect("write a file");
    }
    let lld = toolchain.join("lib/rustlib").join(HOST).join("bin/rust-lld");
    cargo(
        Command::new("cargo")
            .args(["+nightly", "build", "-q", "--offline", "--locked", "--target", WASM, "--manifest-path"])
            .arg(root.join("wasm/Cargo.toml"))
            .env("CARGO_TARGET_DIR", build.join("wasm"))
            .env("RUSTFLAGS", format!("--sysroot {} -Cpanic=unwind -Clinker={}", dir.join("sysroot").display(), lld.display())),
    )
}

impl Running {
    fn start(target: &str) -> Running {
        let mut child = command(target)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .expect("start the interpreter");
        Running {
            input: child.stdin.take().unwrap(),
            output: BufReader::new(child.stdout.take().unwrap()),
            child,
        }
    }

    fn ask(&mut self, frame: &[u8]) -> std::io::Result<Answers> {
        self.input.write_all(&(frame.len() as u32).to_le_bytes())?;
        self.input.write_all(frame)?;
        let mut answers = Vec::new();
        loop {
            let mut b = [0; 1];
            self.output.read_exact(&mut b)?;
            if b[0] == 0 {
                return Ok(answers);
            }
            let mut n = [0; 4];
            self.output.read_exact(&mut n)?;
            let mut s = vec![0; u32::from_le_bytes(n) as usize];
            self.output.read_exact(&mut s)?;
            let s = String::from_utf8(s).unwrap_or_else(|e| format!("<not UTF-8: {}>", e));
            answers.push((b[0], s));
        }
    }

    fn last_words(mut self) -> String {
        drop(self.input);
        let mut s = String::new();
        let _ = self.child.stderr.take().unwrap().read_to_string(&mut s);
        let status = self.child.wait().expect("wait");
        if s.contains("unsupported operation") || !["Undefined Behavior", "panicked at", "AddressSanitizer", "SIG"].iter().any(|w| s.contains(w) || status.to_string().contains(w))
        {
            // The interpreter cannot tell.
            eprintln!("the interpreter gave up: {}\n{}", status, s);
            std::process::exit(2);
        }
        let lines: Vec<&str> = s.lines().filter(|l| !l.trim().is_empty()).take(14).collect();
        lines.join("\n")
    }
}

/// The answers of the program interpreted for a platform.
pub fn ask(target: &'static str, case: &Case) -> Result<Answers, String> {
    ask_frame(target, &case.frame())
}

/// The answers of the program compiled for WebAssembly, when the clock shows some time (in milliseconds).
pub fn ask_wasm(case: &Case, clock: f64, entropy: bool) -> Result<Answers, String> {
    let mut frame = clock.to_le_bytes().to_vec();
    frame.push(entropy as u8);
    frame.extend(case.frame());
    ask_frame(WASM, &frame)
}

fn ask_frame(target: &'static str, frame: &[u8]) -> Result<Answers, String> {
    thread_local!(static RUNNING: RefCell<BTreeMap<&'static str, Running>> = const { RefCell::new(BTreeMap::new()) });
    static START: OnceLock<Mutex<()>> = OnceLock::new();
    if let Some(e) = REFUSED.lock().unwrap().get(target) {
        return Err(e.clone());
    }
    RUNNING.with(|r| {
        let r = &mut *r.borrow_mut();
        let running = r.entry(target).or_insert_with(|| {
            let _one = START.get_or_init(Default::default).lock().unwrap();
            Running::start(target)
        });
        match running.ask(frame) {
            Ok(a) => Ok(a),
            Err(_) => Err(format!("running for {}: {}", target, r.remove(target).unwrap().last_words())),
        }
    })
}
