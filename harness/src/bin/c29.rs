//! The example client against a server of ours that knows RFC 5849 only, and hands out any credentials.

use std::cell::RefCell;
use std::collections::HashSet;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::process::Stdio;
use std::sync::{Mutex, MutexGuard};
use std::time::{Duration, Instant};

use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::engine::{main as run, Prop, Stats, Tier};
use vh::example;
use vh::gen::*;
use vh::{ensure, ensure_eq, rfc};

struct C29;

/// How the server answers with credentials.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Issue {
    id: String,
    secret: String,
    extra: Vec<(String, String)>,
    order: u8,
    /// Spaces as `+`, escapes in lower case, unreserved characters escaped, ...
    style: u8,
    /// What is wrong with it, if anything.
    fault: Option<u8>,
}

/// How answers are sent.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Manner {
    chunked: bool,
    close: bool,
    pieces: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    temporary: Issue,
    token: Issue,
    manner: Vec<Manner>,
    /// What the two last requests are answered with.
    bodies: (String, String),
}

fn escape(s: &str, style: u8) -> String {
    let mut out = String::new();
    for &b in s.as_bytes() {
        match b {
            b' ' if style & 1 != 0 => out.push('+'),
            b'*' if style & 2 != 0 => out.push('*'),
            b'a'..=b'f' if style & 12 == 12 => out.push_str(&format!("%{:02X}", b)),
            _ if rfc::is_unreserved(b) => out.push(b as char),
            _ if style & 16 != 0 => out.push_str(&format!("%{:02x}", b)),
            _ => out.push_str(&format!("%{:02X}", b)),
        }
    }
    out
}

impl Issue {
    fn body(&self) -> String {
        let mut fields: Vec<_> = self.extra.iter().filter(|f| !f.0.starts_with("oauth_token")).cloned().collect();
        let n = fields.len() + 1;
        fields.insert(usize::from(self.order) % n, ("oauth_token".into(), self.id.clone()));
        fields.insert(usize::from(self.order / 16) % (n + 1), ("oauth_token_secret".into(), self.secret.clone()));
        match self.fault.map(|f| f % 6) {
            None => {}
            Some(0) => fields.retain(|f| f.0 != "oauth_token"),
            Some(1) => fields.retain(|f| f.0 != "oauth_token_secret"),
            Some(2) => fields.insert(usize::from(self.style) % (n + 2), ("oauth_token".into(), self.secret.clone())),
            Some(3) => fields.insert(usize::from(self.style) % (n + 2), ("oauth_token_secret".into(), self.id.clone())),
            Some(4) => fields.clear(),
            Some(_) => return "{\"oauth_token\":\"a\",\"oauth_token_secret\":\"b\"}".into(),
        }
        fields.iter().map(|(k, v)| format!("{}={}", escape(k, self.style & !12), escape(v, self.style))).collect::<Vec<_>>().join("&")
    }
}

// ---------------------------------------------------------------------------------------------
// The server

#[derive(Default)]
struct Seen {
    /// The requests so far, by name.
    heard: Vec<&'static str>,
    nonces: HashSet<String>,
    error: Option<String>,
}

struct Request {
    method: String,
    path: String,
    query: Option<String>,
    authorization: Vec<String>,
    content_type: Option<String>,
    body: String,
}

fn read_request(c: &mut TcpStream, data: &mut Vec<u8>) -> Result<Option<Request>, String> {
    let mut buf = [0; 16384];
    let mut more = |data: &mut Vec<u8>| -> Result<bool, String> {
        match c.read(&mut buf) {
            Ok(0) => Ok(false),
            Ok(n) => {
                data.extend_from_slice(&buf[..n]);
                Ok(true)
            }
            // The client is gone.
            Err(_) => Ok(false),
        }
    };
    let head = loop {
        if let Some(i) = data.windows(4).position(|w| w == b"\r\n\r\n") {
            break i;
        }
        if !more(data)? {
            return if data.is_empty() { Ok(None) } else { Err(format!("half a request: {:?}", String::from_utf8_lossy(data))) };
        }
    };
    let text = String::from_utf8(data[..head].to_vec()).map_err(|e| format!("a request's head: {}", e))?;
    let mut lines = text.split("\r\n");
    let first: Vec<&str> = lines.next().unwrap().split(' ').collect();
    ensure!(first.len() == 3 && first[2] == "HTTP/1.1", "request line {:?}", first);
    let (path, query) = match first[1].split_once('?') {
        Some((p, q)) => (p, Some(q.to_string())),
        None => (first[1], None),
    };
    let mut r = Request {
        method: first[0].into(),
        path: path.into(),
        query,
        authorization: vec![],
        content_type: None,
        body: String::new(),
    };
    let mut length = 0;
    for l in lines {
        let (k, v) = l.split_once(':').ok_or_else(|| format!("header {:?}", l))?;
        let v = v.trim();
        match &*k.to_ascii_lowercase() {
            "authorization" => r.authorization.push(v.into()),
            "content-type" => r.content_type = Some(v.into()),
            "content-length" => length = v.parse().map_err(|_| format!("header {:?}", l))?,
            "transfer-encoding" => return Err(format!("header {:?}", l)),
            _ => {}
        }
    }
    while data.len() < head + 4 + length {
        if !more(data)? {
            return Err("half a body".into());
        }
    }
    r.body = String::from_utf8(data[head + 4..head + 4 + length].to_vec()).map_err(|e| format!("a request's body: {}", e))?;
    data.drain(..head + 4 + length);
    Ok(Some(r))
}

/// Judges a request; the answer to it.
fn hear(case: &Case, seen: &Mutex<Seen>, r: &Request) -> Result<(String, usize), String> {
    ensure!(r.authorization.len() == 1, "{} `Authorization` headers", r.authorization.len());
    let mut all = Vec::new();
    for (k, v) in rfc::parse_header(&r.authorization[0])? {
        all.push((rfc::dec(&k)?, rfc::dec(&v)?));
    }
    if let Some(q) = &r.query {
        all.extend(rfc::parse_form(q)?);
    }
    if r.content_type.as_deref() == Some("application/x-www-form-urlencoded") {
        all.extend(rfc::parse_form(&r.body)?);
    } else {
        ensure!(r.body.is_empty(), "a body without a type: {:?}", r.body);
    }
    let (name, token, answer, nth): (_, Option<&Issue>, _, _) = match (&*r.method, &*r.path) {
        ("POST", "/request_temp_credentials") => ("temporary", None, case.temporary.body(), 0),
        ("POST", "/request_token") => ("token", Some(&case.temporary), case.token.body(), 1),
        ("GET", "/echo") => ("get", Some(&case.token), case.bodies.0.clone(), 2),
        ("POST", "/echo") => ("post", Some(&case.token), case.bodies.1.clone(), 3),
        other => return Err(format!("a request for {:?}", other)),
    };
    let view = rfc::ServerView::new(all)?;
    view.verify(&r.method, &format!("http://{}{}", example::AUTHORITY, r.path), "client_secret", token.map(|t| &*t.secret))?;
    let mut want: Vec<(&str, &str)> = vec![("oauth_consumer_key", "client"), ("oauth_signature_method", "HMAC-SHA1")];
    if let Some(t) = token {
        want.push(("oauth_token", &t.id));
    }
    match name {
        "temporary" => want.push(("oauth_callback", "oob")),
        "token" => want.push(("oauth_verifier", "verifier")),
        "get" => want.push(("foo", "GET")),
        _ => want.extend([("bar", "POST"), ("baz", "ＰＯＳＴ")]),
    }
    want.sort();
    let one = |k: &str| {
        let v: Vec<_> = view.params.iter().filter(|p| p.0 == k).map(|p| &*p.1).collect();
        if v.len() == 1 { Ok(v[0]) } else { Err(format!("{} occurs {} times in {:?}", k, v.len(), view.params)) }
    };
    let (nonce, stamp) = (one("oauth_nonce")?, one("oauth_timestamp")?);
    let mut got: Vec<(&str, &str)> = view
        .params
        .iter()
        .map(|p| (&*p.0, &*p.1))
        .filter(|p| p.0 != "oauth_nonce" && p.0 != "oauth_timestamp" && *p != ("oauth_version", "1.0"))
        .collect();
    got.sort();
    ensure_eq!(got, want, "what the client tells ({})", name);
    let t: u64 = stamp.parse().map_err(|_| format!("timestamp {:?}", stamp))?;
    let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();
    ensure!(t <= now && now - t < 120, "timestamp {} at {}", t, now);
    let mut seen = seen.lock().unwrap();
    ensure!(seen.nonces.insert(nonce.into()), "the nonce {:?} comes again", nonce);
    let before: &[&str] = match name {
        "temporary" => &[],
        "token" => &["temporary"],
        _ => &["temporary", "token"],
    };
    ensure!(seen.heard.starts_with(before) && !seen.heard.contains(&name), "{:?} after {:?}", name, seen.heard);
    seen.heard.push(name);
    Ok((answer, nth))
}

fn serve(case: &Case, seen: &Mutex<Seen>, mut c: TcpStream) {
    let _ = c.set_nodelay(true);
    let _ = c.set_read_timeout(Some(Duration::from_secs(60)));
    let mut data = Vec::new();
    loop {
        let r = read_request(&mut c, &mut data).and_then(|r| r.map(|r| hear(case, seen, &r)).transpose());
        let (body, nth) = match r {
            Ok(Some(x)) => x,
            Ok(None) => return,
            Err(e) => {
                seen.lock().unwrap().error.get_or_insert(e);
                let _ = c.write_all(b"HTTP/1.1 400 Bad Request\r\nContent-Length: 0\r\n\r\n");
                return;
            }
        };
        let m = &case.manner[nth % case.manner.len()];
        let mut out = b"HTTP/1.1 200 OK\r\nContent-Type: application/x-www-form-urlencoded\r\n".to_vec();
        if m.close {
            out.extend_from_slice(b"Connection: close\r\n");
        }
        if m.chunked {
            out.extend_from_slice(b"Transfer-Encoding: chunked\r\n\r\n");
            let n = usize::from(m.pieces) + 1;
            for p in body.as_bytes().chunks(n) {
                out.extend_from_slice(format!("{:x}\r\n", p.len()).as_bytes());
                out.extend_from_slice(p);
                out.extend_from_slice(b"\r\n");
            }
            out.extend_from_slice(b"0\r\n\r\n");
        } else {
            out.extend_from_slice(format!("Content-Length: {}\r\n\r\n", body.len()).as_bytes());
            out.extend_from_slice(body.as_bytes());
        }
        let n = out.len().div_ceil(1 + usize::from(m.pieces) % 3);
        for p in out.chunks(n) {
            if c.write_all(p).is_err() {
                return;
            }
        }
        if m.close {
            return;
        }
    }
}

// ---------------------------------------------------------------------------------------------

/// Where there is but one network, one case at a time.
static SHARED: Mutex<()> = Mutex::new(());

thread_local! {
    /// The listener, and whether the network is this thread's own.
    static NETWORK: RefCell<Option<(Option<TcpListener>, bool)>> = const { RefCell::new(None) };
}

fn with_listener<T>(f: impl FnOnce(&TcpListener) -> T) -> T {
    NETWORK.with(|n| {
        let mut n = n.borrow_mut();
        let (listener, own) = n.get_or_insert_with(|| (None, example::thread_network()));
        let _one: Option<MutexGuard<()>> = (!*own).then(|| SHARED.lock().unwrap_or_else(|e| e.into_inner()));
        if *own {
            f(listener.get_or_insert_with(|| TcpListener::bind(example::address()).expect("listen")))
        } else {
            let t0 = Instant::now();
            let l = loop {
                match TcpListener::bind(example::address()) {
                    Ok(l) => break l,
                    Err(e) if t0.elapsed() > Duration::from_secs(60) => panic!("cannot listen: {}", e),
                    Err(_) => std::thread::sleep(Duration::from_millis(20)),
                }
            };
            f(&l)
        }
    })
}

fn play(case: &Case, st: &mut Stats) -> Result<(), String> {
    let seen = Mutex::new(Seen::default());
    let output = with_listener(|listener| {
        let mut child = example::command("client").stdout(Stdio::piped()).spawn().expect("start the client");
        std::thread::scope(|s| {
            let seen = &seen;
            s.spawn(move || loop {
                let Ok((mut c, _)) = listener.accept() else { return };
                // Our own sign that it is over.
                let mut first = [0];
                c.set_read_timeout(Some(Duration::from_secs(60))).unwrap();
                match c.peek(&mut first) {
                    Ok(1) if first[0] == 0 => {
                        let _ = c.read(&mut first);
                        return;
                    }
                    Ok(1..) => drop(s.spawn(move || serve(case, seen, c))),
                    _ => {}
                }
            });
            let mut text = Vec::new();
            let mut out = child.stdout.take().unwrap();
            let killer = Mutex::new(Some(child));
            let done = Mutex::new(false);
            let status = std::thread::scope(|k| {
                k.spawn(|| {
                    let t0 = Instant::now();
                    while !*done.lock().unwrap() {
                        if t0.elapsed() > Duration::from_secs(60) {
                            if let Some(c) = &mut *killer.lock().unwrap() {
                                let _ = c.kill();
                            }
                            return;
                        }
                        std::thread::sleep(Duration::from_millis(2));
                    }
                });
                let _ = out.read_to_end(&mut text);
                *done.lock().unwrap() = true;
                killer.lock().unwrap().take().unwrap().wait()
            });
            if let Ok(mut c) = TcpStream::connect(example::address()) {
                let _ = c.write_all(&[0]);
            }
            (status, text)
        })
    });
    let seen = seen.into_inner().unwrap();
    if let Some(e) = seen.error {
        return Err(format!("after {:?}: {}", seen.heard, e));
    }
    let (status, text) = (output.0.map_err(|e| e.to_string())?, String::from_utf8_lossy(&output.1).into_owned());
    let faulty = if case.temporary.fault.is_some() {
        Some(1)
    } else if case.token.fault.is_some() {
        Some(2)
    } else {
        None
    };
    match faulty {
        None => {
            ensure_eq!(seen.heard.len(), 4, "requests ({:?}; {}, {:?})", seen.heard, status, text);
            ensure!(status.success(), "the client ended with {} ({:?})", status, text);
            ensure_eq!(text, format!("{}\n{}\n", case.bodies.0, case.bodies.1), "the output");
            st.nontrivial();
            st.label("completed");
        }
        Some(n) => {
            ensure_eq!(seen.heard.len(), n, "requests ({:?}) in spite of a faulty answer", seen.heard);
            ensure!(!status.success(), "the client took a faulty answer for success ({:?})", text);
            st.label("faulty answer");
        }
    }
    Ok(())
}

fn issue() -> BoxedStrategy<Issue> {
    let extra = vec((prop_oneof!["[a-z_]{1,8}", Just("oauth_callback_confirmed".to_string())], text()), 0..3);
    (text(), secret(), extra, any::<u8>(), any::<u8>(), proptest::option::weighted(0.06, any::<u8>()))
        .prop_map(|(id, secret, extra, order, style, fault)| Issue { id, secret, extra, order, style, fault })
        .boxed()
}

impl Prop for C29 {
    const ID: &'static str = "C29";
    const RULE: &'static str = "The example client is run against a strict RFC 5849 server that hands out random temporary and token \
        credentials (any text, several spellings of forms, other fields around, now and then a faulty answer), over the loopback network, \
        in one or many pieces, chunked or not, keeping connections or closing them; non-trivial = the client went through to the end.";
    type Case = Case;
    const CASES: u32 = 20_000;

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        no_huge();
        let manner = (any::<bool>(), proptest::bool::weighted(0.3), any::<u8>())
            .prop_map(|(chunked, close, pieces)| Manner { chunked, close, pieces });
        (issue(), issue(), vec(manner, 4), (text(), text()))
            .prop_map(|(temporary, token, manner, bodies)| Case { temporary, token, manner, bodies })
            .boxed()
    }

    fn check(case: &Case, st: &mut Stats) -> Result<(), String> {
        play(case, st)
    }
}

fn main() {
    if matches!(std::env::args().nth(1).as_deref(), Some("run" | "replay")) {
        example::own_network();
        example::build();
    }
    run::<C29>()
}
