//! The programs of /repo/examples: built from the current sources, run over the loopback network.

use std::cell::Cell;
use std::ffi::{c_int, c_ulong};
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpStream};
use std::os::unix::process::CommandExt;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

extern "C" {
    fn unshare(flags: c_int) -> c_int;
    fn prctl(option: c_int, a: c_ulong, b: c_ulong, c: c_ulong, d: c_ulong) -> c_int;
}
const CLONE_NEWNET: c_int = 0x4000_0000;
const PR_SET_PDEATHSIG: c_int = 1;

/// The address the examples are written for.
pub const AUTHORITY: &str = "127.0.0.1:8080";

pub fn address() -> SocketAddr {
    AUTHORITY.parse().unwrap()
}

fn build_dir() -> PathBuf {
    std::env::var_os("VH_BUILD").expect("VH_BUILD").into()
}

static BUILT: OnceLock<PathBuf> = OnceLock::new();

/// Builds the examples as they are in /repo now; nothing is written there.
pub fn build() {
    let root = PathBuf::from(std::env::var_os("VH_ROOT").expect("VH_ROOT"));
    let repo = root.parent().unwrap().join("repo");
    let dir = build_dir().join("examples");
    std::fs::create_dir_all(&dir).expect("create the directory");
    let manifest = std::fs::read_to_string(repo.join("examples/Cargo.toml")).expect("the examples' manifest");
    let manifest = manifest
        .replace("\"../", &format!("\"{}/", repo.display()))
        .replace("path = \"src/", &format!("path = \"{}/examples/src/", repo.display()));
    write_new(&dir.join("Cargo.toml"), &manifest);
    let lock = std::fs::read_to_string(root.join("examples/Cargo.lock")).expect("the lock");
    write_new(&dir.join("Cargo.lock"), &lock);
    let target = build_dir().join("examples-target");
    let out = Command::new("cargo")
        .args(["build", "--offline", "-q", "--bins"])
        .current_dir(&dir)
        .env("CARGO_TARGET_DIR", &target)
        .env("CARGO_PROFILE_DEV_DEBUG", "false")
        .env("CARGO_INCREMENTAL", "0")
        .output()
        .expect("run cargo");
    if !out.status.success() {
        let e = String::from_utf8_lossy(&out.stderr);
        println!("check error: building the examples failed\n{}", &e[e.len().saturating_sub(4000)..]);
        std::process::exit(2);
    }
    BUILT.set(target.join("debug")).expect("built once");
}

fn write_new(path: &std::path::Path, text: &str) {
    if std::fs::read_to_string(path).ok().as_deref() != Some(text) {
        std::fs::write(path, text).expect("write");
    }
}

pub fn program(name: &str) -> PathBuf {
    BUILT.get().expect("built").join(name)
}

/// Continues in a network of its own, where the examples' port is free; in the given one if there are no namespaces.
pub fn own_network() {
    if std::env::var_os("VH_NET").is_some() {
        loopback_up();
        return;
    }
    let ok = Command::new("unshare")
        .args(["-Urn", "ip", "link", "set", "lo", "up"])
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .is_ok_and(|s| s.success());
    if ok {
        let e = Command::new("unshare").arg("-Urn").args(std::env::args_os()).env("VH_NET", "1").exec();
        println!("note: no network of its own: {}", e);
    }
}

fn loopback_up() {
    let s = Command::new("ip").args(["link", "set", "lo", "up"]).status();
    assert!(s.is_ok_and(|s| s.success()), "the loopback device cannot be used");
}

/// Gives the calling thread a network of its own; false if there is no such thing.
pub fn thread_network() -> bool {
    if std::env::var_os("VH_NET").is_none() {
        return false;
    }
    // SAFETY: affects the calling thread only.
    if unsafe { unshare(CLONE_NEWNET) } != 0 {
        return false;
    }
    loopback_up();
    true
}

/// A command that dies with the calling thread.
pub fn command(name: &str) -> Command {
    let mut c = Command::new(program(name));
    c.stdin(Stdio::null()).stderr(Stdio::null()).env_remove("RUST_LOG").env("RUST_BACKTRACE", "0");
    // SAFETY: a system call, as is allowed between fork and exec.
    unsafe {
        c.pre_exec(|| {
            prctl(PR_SET_PDEATHSIG, 9, 0, 0, 0);
            Ok(())
        });
    }
    c
}

/// Starts the server and waits for it.
pub fn start_server() {
    let mut child = command("server").stdout(Stdio::null()).spawn().expect("start the server");
    let t0 = Instant::now();
    while TcpStream::connect(address()).is_err() {
        if let Some(s) = child.try_wait().expect("wait") {
            println!("check error: the example server ended at once: {}", s);
            std::process::exit(2);
        }
        if t0.elapsed() > Duration::from_secs(60) {
            println!("check error: the example server does not listen");
            std::process::exit(2);
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

#[derive(Debug, Clone)]
pub struct Response {
    pub status: u16,
    pub body: Vec<u8>,
}

thread_local! {
    static CONNECTION: Cell<Option<TcpStream>> = const { Cell::new(None) };
}

/// Sends a request and reads the answer, over the thread's connection.
pub fn exchange(request: &[u8]) -> Result<Response, String> {
    let kept = CONNECTION.take();
    if let Some(mut c) = kept {
        // A kept connection may have been closed in between.
        if let Ok((r, keep)) = attempt(&mut c, request) {
            if keep {
                CONNECTION.set(Some(c));
            }
            return Ok(r);
        }
    }
    let mut c = TcpStream::connect(address()).map_err(|e| format!("the server does not accept connections: {}", e))?;
    c.set_nodelay(true).unwrap();
    c.set_read_timeout(Some(Duration::from_secs(60))).unwrap();
    c.set_write_timeout(Some(Duration::from_secs(60))).unwrap();
    let (r, keep) = attempt(&mut c, request)?;
    if keep {
        CONNECTION.set(Some(c));
    }
    Ok(r)
}

fn attempt(c: &mut TcpStream, request: &[u8]) -> Result<(Response, bool), String> {
    // A refusal may come, and the connection be closed, before all is written.
    let written = c.write_all(request);
    let mut data = Vec::new();
    let mut buf = [0; 16384];
    let mut more = |data: &mut Vec<u8>| -> Result<(), String> {
        match c.read(&mut buf) {
            Ok(0) => Err(format!(
                "the server closed the connection after {} bytes of an answer (writing: {:?})",
                data.len(),
                written
            )),
            Ok(n) => {
                data.extend_from_slice(&buf[..n]);
                Ok(())
            }
            Err(e) => Err(format!("no answer: {} (writing: {:?})", e, written)),
        }
    };
    let head = loop {
        if let Some(i) = data.windows(4).position(|w| w == b"\r\n\r\n") {
            break i;
        }
        more(&mut data)?;
    };
    let text = String::from_utf8_lossy(&data[..head]).into_owned();
    let mut lines = text.split("\r\n");
    let status = lines.next().unwrap_or("");
    let code = status.split(' ').nth(1).and_then(|s| s.parse().ok()).ok_or_else(|| format!("status line {:?}", status))?;
    let (mut length, mut keep) = (None, true);
    for l in lines {
        let (k, v) = l.split_once(':').ok_or_else(|| format!("header {:?}", l))?;
        if k.eq_ignore_ascii_case("content-length") {
            length = v.trim().parse::<usize>().ok();
        }
        if k.eq_ignore_ascii_case("connection") && v.trim().eq_ignore_ascii_case("close") {
            keep = false;
        }
    }
    let length = length.ok_or_else(|| format!("no length in {:?}", text))?;
    while data.len() < head + 4 + length {
        more(&mut data)?;
    }
    Ok((Response { status: code, body: data[head + 4..].to_vec() }, keep))
}
