//! The whole exchange: client applications made of the library's parts against a server that knows RFC 5849 only.

use std::collections::{HashMap, HashSet};

use either::Either;
use oauth::signature_method::SignatureMethod;
use oauth::{Builder, Credentials, Token};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::engine::{main as run, Prop, Stats, Tier};
use vh::gen::*;
use vh::{ensure, ensure_eq, keys, rfc};

struct C27;

/// How a request is sent.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Send {
    carrier: u8,
    via: u8,
    method: String,
    req: ReqSpec,
}

/// How the server answers with credentials.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Issue {
    id: String,
    secret: String,
    json: bool,
    /// Position of the two fields among the others.
    order: u8,
    extra: Vec<(String, String)>,
    /// Token credentials that keep the identifier of the temporary ones.
    keep: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    /// A client asks for temporary credentials, with a builder of its own or with a used one.
    Begin { client: u8, reuse: Option<u8>, callback: String, send: Send, issue: Issue },
    /// The user lets the client in, and gives it the verifier.
    Authorize { session: u8, verifier: String, again: bool },
    /// The client changes temporary credentials for a token.
    Exchange { session: u8, wrong: bool, send: Send, issue: Issue },
    /// The client uses its token (or no token at all).
    Call { session: u8, tokenless: bool, send: Send },
    /// The client's credentials are stored, the application restarts.
    Restart { session: u8, how: u8 },
    /// The server issues another secret for the same token.
    Renew { session: u8, secret: String },
    /// Someone repeats a message on the wire.
    Replay { message: u8 },
    /// Someone with a wrong secret asks.
    Impostor { session: u8, which: bool, secret: String, send: Send },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Client {
    id: String,
    secret: String,
    method: u8,
    version: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    clients: Vec<Client>,
    steps: Vec<Step>,
}

// ---------------------------------------------------------------------------------------------
// The server

/// What is on the wire.
#[derive(Clone, Debug)]
struct Wire {
    method: String,
    uri: String,
    query: Option<String>,
    header: Option<String>,
    body: Option<String>,
}

struct Grant {
    client: usize,
    secret: String,
    /// For temporary credentials: the callback and, once authorized, the verifier.
    temporary: Option<(String, Option<String>)>,
}

struct Server<'a> {
    clients: &'a [Client],
    grants: HashMap<String, Grant>,
    seen: HashSet<(usize, String, String, String)>,
    issued: u32,
}

#[derive(Debug, PartialEq)]
enum Refused {
    /// Not OAuth at all, or with a wrong signature.
    Invalid(String),
    Replayed,
    /// Well signed, but nothing is granted for it.
    Denied(&'static str),
}

#[derive(Debug)]
struct Heard {
    client: usize,
    token: Option<String>,
    callback: Option<String>,
    verifier: Option<String>,
    version: Option<String>,
    params: Vec<(String, String)>,
}

const PROTOCOL: [&str; 8] = [
    "oauth_callback",
    "oauth_consumer_key",
    "oauth_nonce",
    "oauth_signature_method",
    "oauth_timestamp",
    "oauth_token",
    "oauth_verifier",
    "oauth_version",
];

fn method_name(m: u8) -> &'static str {
    match m % 16 {
        0..=8 => "HMAC-SHA1",
        9..=13 => "PLAINTEXT",
        _ => "RSA-SHA1",
    }
}

impl Server<'_> {
    /// RFC 5849 section 3.2.
    fn hear(&mut self, w: &Wire) -> Result<Heard, Refused> {
        let bad = Refused::Invalid;
        let mut all = Vec::new();
        if let Some(h) = &w.header {
            for (k, v) in rfc::parse_header(h).map_err(bad)? {
                all.push((rfc::dec(&k).map_err(bad)?, rfc::dec(&v).map_err(bad)?));
            }
        }
        for s in [&w.query, &w.body].into_iter().flatten() {
            all.extend(rfc::parse_form(s).map_err(bad)?);
        }
        let view = rfc::ServerView::new(all).map_err(bad)?;
        let one = |k: &str| -> Result<Option<String>, Refused> {
            let v: Vec<_> = view.params.iter().filter(|p| p.0 == k).map(|p| p.1.clone()).collect();
            if v.len() > 1 {
                return Err(bad(format!("{} occurs {} times", k, v.len())));
            }
            Ok(v.into_iter().next())
        };
        let need = |k: &str| one(k)?.ok_or_else(|| bad(format!("no {}", k)));
        let id = need("oauth_consumer_key")?;
        let client = self.clients.iter().position(|c| c.id == id).ok_or_else(|| bad(format!("no client {:?}", id)))?;
        let token = one("oauth_token")?;
        let secret = match &token {
            Some(t) => {
                let g = self.grants.get(t).filter(|g| g.client == client);
                Some(g.ok_or(Refused::Denied("no such token"))?.secret.clone())
            }
            None => None,
        };
        if view.method_name != method_name(self.clients[client].method) {
            return Err(bad(format!("signature method {:?}", view.method_name)));
        }
        let c = &self.clients[client];
        if view.method_name == "RSA-SHA1" {
            let sig = rfc::unbase64(&view.signature).map_err(bad)?;
            keys::small().verify(&sig, view.base_string(&w.method, &w.uri).as_bytes()).map_err(bad)?;
        } else {
            view.verify(&w.method, &w.uri, &c.secret, secret.as_deref()).map_err(bad)?;
        }
        let (nonce, timestamp) = (need("oauth_nonce")?, need("oauth_timestamp")?);
        let t: u64 = timestamp.parse().map_err(|e| bad(format!("timestamp {:?}: {}", timestamp, e)))?;
        let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();
        if t > now || now - t > 600 {
            return Err(bad(format!("timestamp {} at {}", t, now)));
        }
        if !self.seen.insert((client, token.clone().unwrap_or_default(), timestamp, nonce)) {
            return Err(Refused::Replayed);
        }
        Ok(Heard {
            client,
            token,
            callback: one("oauth_callback")?,
            verifier: one("oauth_verifier")?,
            version: one("oauth_version")?,
            params: view.params.iter().filter(|p| !PROTOCOL.contains(&&*p.0)).cloned().collect(),
        })
    }

    fn issue(&mut self, client: usize, temporary: Option<(String, Option<String>)>, i: &Issue, kept: Option<String>) -> String {
        self.issued += 1;
        // Server-issued identifiers are unique.
        let id = kept.unwrap_or_else(|| format!("{}{}", i.id, self.issued));
        self.grants.insert(id.clone(), Grant { client, secret: i.secret.clone(), temporary });
        let mut fields = i.extra.clone();
        fields.retain(|f| !f.0.starts_with("oauth_token"));
        let n = fields.len() + 1;
        fields.insert(usize::from(i.order) % n, ("oauth_token".into(), id));
        fields.insert(usize::from(i.order / 16) % (n + 1), ("oauth_token_secret".into(), i.secret.clone()));
        if i.json {
            let fields: serde_json::Map<String, serde_json::Value> = fields.into_iter().map(|(k, v)| (k, v.into())).collect();
            serde_json::Value::Object(fields).to_string()
        } else {
            fields.iter().map(|(k, v)| format!("{}={}", rfc::enc(k), rfc::enc(v))).collect::<Vec<_>>().join("&")
        }
    }

    fn temporary(&mut self, w: &Wire, i: &Issue) -> Result<(Heard, String), Refused> {
        let h = self.hear(w)?;
        let callback = h.callback.clone().ok_or(Refused::Denied("no callback"))?;
        if h.token.is_some() || h.verifier.is_some() {
            return Err(Refused::Denied("a token or a verifier where none is expected"));
        }
        let r = self.issue(h.client, Some((callback, None)), i, None);
        Ok((h, r))
    }

    fn token(&mut self, w: &Wire, i: &Issue) -> Result<(Heard, String), Refused> {
        let h = self.hear(w)?;
        let id = h.token.clone().ok_or(Refused::Denied("no token"))?;
        match self.grants[&id].temporary {
            Some((_, Some(ref v))) if Some(v) == h.verifier.as_ref() => {}
            Some(_) => return Err(Refused::Denied("not authorized")),
            None => return Err(Refused::Denied("not temporary")),
        }
        if h.callback.is_some() {
            return Err(Refused::Denied("a callback where none is expected"));
        }
        self.grants.remove(&id);
        let r = self.issue(h.client, None, i, i.keep.then_some(id));
        Ok((h, r))
    }

    fn resource(&mut self, w: &Wire) -> Result<Heard, Refused> {
        let h = self.hear(w)?;
        if let Some(t) = &h.token {
            if self.grants[t].temporary.is_some() {
                return Err(Refused::Denied("temporary credentials"));
            }
        }
        if h.callback.is_some() || h.verifier.is_some() {
            return Err(Refused::Denied("a callback or a verifier where none is expected"));
        }
        Ok(h)
    }
}

// ---------------------------------------------------------------------------------------------
// The clients

type Method = Either<oauth::HmacSha1, Either<oauth::Plaintext, Either<&'static oauth::RsaSha1, oauth::Rsa09Sha1>>>;

fn signature_method(m: u8) -> Method {
    let k = keys::small();
    match m % 16 {
        0..=8 => Either::Left(oauth::HMAC_SHA1),
        9..=13 => Either::Right(Either::Left(oauth::PLAINTEXT)),
        14 => Either::Right(Either::Right(Either::Left(&k.k06))),
        _ => Either::Right(Either::Right(Either::Right(k.k09.clone()))),
    }
}

enum Stage {
    /// With temporary credentials.
    Temporary { id: String, verifier: Option<String> },
    Done { id: String },
    /// Refused by the server.
    Stuck,
}

struct App<'a> {
    client: usize,
    b: Builder<'a, Method, String>,
    stage: Stage,
    /// As the application keeps them.
    kept: Option<Credentials<String>>,
}

fn send<SM>(b: &Builder<'_, SM, String>, uri: &str, s: &Send) -> Result<Wire, String>
where
    SM: SignatureMethod + Clone,
{
    let (m, r) = (&*s.method, &s.req.build());
    let mut w = Wire { method: m.into(), uri: uri.into(), query: None, header: None, body: None };
    let split = |q: String| match q.strip_prefix(uri) {
        Some("") => Ok(None),
        Some(r) if r.starts_with('?') => Ok(Some(r[1..].to_string())),
        _ => Err(format!("{:?} is not a query on {:?}", q, uri)),
    };
    let again = || b.clone();
    match (s.carrier % 4, s.via % 4) {
        (c @ 0..=1, via) => {
            w.header = Some(match via {
                0 => b.authorize(m, uri, r),
                1 => again().into_authorization(m, uri, r),
                2 => b.authorize_with_buf(String::new(), m, uri, r),
                _ => match m {
                    "GET" => b.get(uri, r),
                    "PUT" => b.put(uri, r),
                    "POST" => b.post(uri, r),
                    "DELETE" => b.delete(uri, r),
                    "OPTIONS" => b.options(uri, r),
                    "HEAD" => b.head(uri, r),
                    "CONNECT" => b.connect(uri, r),
                    "PATCH" => b.patch(uri, r),
                    "TRACE" => b.trace(uri, r),
                    _ => again().into_authorization_with_buf(String::new(), m, uri, r),
                },
            });
            // The request's own parameters travel by themselves.
            if c == 0 {
                w.body = Some(oauth::to_form(r));
            } else {
                w.query = split(oauth::to_query(uri.to_string(), r))?;
            }
        }
        (2, via) => {
            w.body = Some(match via {
                0 => b.to_form(m, uri, r),
                1 => again().into_form(m, uri, r),
                2 => b.to_form_with_buf(String::new(), m, uri, r),
                _ => match m {
                    "PUT" => b.put_form(uri, r),
                    "POST" => b.post_form(uri, r),
                    "OPTIONS" => b.options_form(uri, r),
                    "PATCH" => b.patch_form(uri, r),
                    _ => again().into_form_with_buf(String::new(), m, uri, r),
                },
            });
        }
        (_, via) => {
            let u = uri.to_string();
            w.query = split(match via {
                0 | 1 => b.to_query(m, u, r),
                2 => again().into_query(m, u, r),
                _ => match m {
                    "GET" => b.get_query(u, r),
                    "PUT" => b.put_query(u, r),
                    "POST" => b.post_query(u, r),
                    "DELETE" => b.delete_query(u, r),
                    "OPTIONS" => b.options_query(u, r),
                    "HEAD" => b.head_query(u, r),
                    "CONNECT" => b.connect_query(u, r),
                    "PATCH" => b.patch_query(u, r),
                    "TRACE" => b.trace_query(u, r),
                    _ => b.to_query(m, u, r),
                },
            })?;
        }
    }
    Ok(w)
}

fn read(i: &Issue, response: &str) -> Result<Credentials<String>, String> {
    if i.json {
        serde_json::from_str(response).map_err(|e| format!("{} in {}", e, response))
    } else {
        serde_urlencoded::from_str(response).map_err(|e| format!("{} in {}", e, response))
    }
}

const TEMPORARY: &str = "https://server.example/initiate";
const TOKEN: &str = "https://server.example/token";
const RESOURCE: &str = "http://photos.example/~a/b%20c";

/// What the server must have been told.
fn told(h: &Heard, app: &App, clients: &[Client], s: &Send, token: Option<&str>, callback: Option<&str>, verifier: Option<&str>) -> Result<(), String> {
    ensure_eq!(h.client, app.client, "the client");
    ensure_eq!(h.token.as_deref(), token, "the token");
    ensure_eq!(h.callback.as_deref(), callback, "the callback");
    ensure_eq!(h.verifier.as_deref(), verifier, "the verifier");
    ensure_eq!(h.version.as_deref(), clients[app.client].version.then_some("1.0"), "the version");
    let (mut got, mut want) = (h.params.clone(), s.req.expected());
    got.sort();
    want.sort();
    ensure_eq!(got, want, "the request's parameters");
    Ok(())
}

fn refused<T>(r: Result<T, Refused>, expected: Refused, what: &str) -> Result<(), String> {
    match r {
        Err(e) if e == expected => Ok(()),
        Err(e) => Err(format!("{}: refused with {:?} instead of {:?}", what, e, expected)),
        Ok(_) => Err(format!("{}: accepted instead of {:?}", what, expected)),
    }
}

fn play(case: &Case, st: &mut Stats) -> Result<(), String> {
    let clients = &case.clients;
    let mut server = Server { clients, grants: HashMap::new(), seen: HashSet::new(), issued: 0 };
    let mut apps: Vec<App> = Vec::new();
    let mut wires: Vec<Wire> = Vec::new();
    let fresh = |client: usize, token: Option<Credentials<String>>| -> Builder<'_, Method, String> {
        let c = &clients[client];
        let creds = Credentials::new(c.id.clone(), c.secret.clone());
        let sm = signature_method(c.method);
        let mut b = match token {
            Some(t) => Builder::with_token(Token::new(creds, t), sm),
            None => Builder::new(creds, sm),
        };
        b.version(c.version);
        b
    };
    for (n, step) in case.steps.iter().enumerate() {
        let err = |e: String| format!("step {} ({:?}): {}", n, step, e);
        // Mostly the last one.
        let nth = |i: u8, len: usize| if i < 160 { len - 1 } else { usize::from(i) % len };
        match step {
            Step::Begin { client, reuse, callback, send: s, issue } => {
                let mut client = usize::from(*client) % clients.len();
                let b = match reuse {
                    Some(i) if !apps.is_empty() => {
                        // Another of the application's builders, put back to the start.
                        let from = &apps[nth(*i, apps.len())];
                        client = from.client;
                        let mut b = from.b.clone();
                        b.token(None).verifier(None);
                        st.label("reused builder");
                        b
                    }
                    _ => fresh(client, None),
                };
                let mut app = App { client, b, stage: Stage::Stuck, kept: None };
                app.b.callback(&**callback);
                let w = send(&app.b, TEMPORARY, s).map_err(err)?;
                let (h, response) = server.temporary(&w, issue).map_err(|e| err(format!("{:?}\n  sent: {:?}", e, w)))?;
                told(&h, &app, clients, s, None, Some(callback), None).map_err(err)?;
                wires.push(w);
                let temporary = read(issue, &response).map_err(err)?;
                ensure_eq!(temporary.secret, issue.secret, "the temporary secret of {:?}", response);
                let id = temporary.identifier.clone();
                ensure!(server.grants.contains_key(&id), "step {}: the temporary identifier {:?} is not the issued one", n, id);
                app.b.callback(None).token(temporary.clone());
                app.kept = Some(temporary);
                app.stage = Stage::Temporary { id, verifier: None };
                apps.push(app);
            }
            _ if apps.is_empty() => {}
            Step::Authorize { session, verifier, again } => {
                let i = nth(*session, apps.len());
                let app = &mut apps[i];
                if let Stage::Temporary { id, verifier: v } = &mut app.stage {
                    let g = server.grants.get_mut(id).expect("granted");
                    g.temporary.as_mut().expect("temporary").1 = Some(verifier.clone());
                    app.b.verifier(&**verifier);
                    if *again {
                        app.b.token(app.kept.clone());
                    }
                    *v = Some(verifier.clone());
                }
            }
            Step::Exchange { session, wrong, send: s, issue } => {
                let i = nth(*session, apps.len());
                let app = &mut apps[i];
                let Stage::Temporary { id, verifier } = &app.stage else { continue };
                let (id, verifier) = (id.clone(), verifier.clone());
                if *wrong || verifier.is_none() {
                    // Not yet: no verifier, or another one.
                    let text = format!("{}x", verifier.as_deref().unwrap_or(""));
                    let mut early = app.b.clone();
                    early.verifier(wrong.then_some(&*text));
                    let w = send(&early, TOKEN, s).map_err(err)?;
                    refused(server.token(&w, issue), Refused::Denied("not authorized"), "early exchange").map_err(err)?;
                    wires.push(w);
                    st.label("early exchange");
                    continue;
                }
                let w = send(&app.b, TOKEN, s).map_err(err)?;
                let (h, response) = server.token(&w, issue).map_err(|e| err(format!("{:?}\n  sent: {:?}", e, w)))?;
                told(&h, app, clients, s, Some(&id), None, verifier.as_deref()).map_err(err)?;
                // Temporary credentials work once.
                let w2 = send(&app.b, TOKEN, s).map_err(err)?;
                match server.token(&w2, issue) {
                    Err(Refused::Denied("no such token")) if !issue.keep => {}
                    Err(Refused::Denied("not temporary") | Refused::Invalid(_)) if issue.keep => {}
                    r => return Err(err(format!("second exchange: {:?}", r))),
                }
                wires.push(w);
                let token = read(issue, &response).map_err(err)?;
                ensure_eq!(token.secret, issue.secret, "the token secret of {:?}", response);
                let id = token.identifier.clone();
                ensure!(server.grants.contains_key(&id), "step {}: the token identifier {:?} is not the issued one", n, id);
                app.b.verifier(None).token(token.clone());
                app.kept = Some(token);
                app.stage = Stage::Done { id };
                st.nontrivial();
                st.label("exchanged");
            }
            Step::Call { session, tokenless, send: s } => {
                let i = nth(*session, apps.len());
                let app = &apps[i];
                let mut b = app.b.clone();
                let mut token = match &app.stage {
                    Stage::Done { id } => Some(&**id),
                    Stage::Temporary { id, .. } => {
                        if !tokenless {
                            let w = send(b.verifier(None), RESOURCE, s).map_err(err)?;
                            refused(server.resource(&w), Refused::Denied("temporary credentials"), "call").map_err(err)?;
                            wires.push(w);
                            continue;
                        }
                        Some(&**id)
                    }
                    Stage::Stuck => continue,
                };
                if *tokenless {
                    b.token(None).verifier(None);
                    token = None;
                }
                let w = send(&b, RESOURCE, s).map_err(err)?;
                let h = server.resource(&w).map_err(|e| err(format!("{:?}\n  sent: {:?}", e, w)))?;
                told(&h, app, clients, s, token, None, None).map_err(err)?;
                wires.push(w);
                st.label_if(token.is_some(), "call with a token");
            }
            Step::Restart { session, how } => {
                let i = nth(*session, apps.len());
                let app = &mut apps[i];
                let Some(kept) = &app.kept else { continue };
                // Stored and read again in one of several ways.
                let kept: Credentials<String> = match how % 4 {
                    0 => serde_json::from_str(&serde_json::to_string(kept).map_err(|e| err(e.to_string()))?)
                        .map_err(|e| err(e.to_string()))?,
                    1 => serde_urlencoded::from_str(&serde_urlencoded::to_string(kept).map_err(|e| err(e.to_string()))?)
                        .map_err(|e| err(e.to_string()))?,
                    2 => kept.as_ref().map(Box::<str>::from).map(String::from),
                    _ => {
                        let c = &clients[app.client];
                        let t = Token::new(Credentials::new(&*c.id, &*c.secret), kept.as_ref());
                        let t = t.map_token(String::from);
                        Credentials::new(t.token().identifier().to_string(), t.token.secret)
                    }
                };
                app.b = fresh(app.client, Some(kept.clone()));
                if let Stage::Temporary { verifier: Some(v), .. } = &app.stage {
                    // The verifier lives in the case.
                    let v = case.steps.iter().find_map(|s| match s {
                        Step::Authorize { verifier, .. } if verifier == v => Some(&**verifier),
                        _ => None,
                    });
                    app.b.verifier(v);
                }
                app.kept = Some(kept);
                st.label("restart");
            }
            Step::Renew { session, secret } => {
                let i = nth(*session, apps.len());
                let app = &mut apps[i];
                let Stage::Done { id } = &app.stage else { continue };
                server.grants.get_mut(id).expect("granted").secret = secret.clone();
                let renewed = Credentials::new(id.clone(), secret.clone());
                app.b.token(renewed.clone());
                app.kept = Some(renewed);
                st.label("renewed");
            }
            Step::Replay { message } => {
                if wires.is_empty() {
                    continue;
                }
                let w = wires[usize::from(*message) % wires.len()].clone();
                match server.hear(&w) {
                    Err(_) => {}
                    r => return Err(err(format!("a message was accepted twice: {:?}", r))),
                }
                st.label("replay");
            }
            Step::Impostor { session, which, secret, send: s } => {
                let app = &apps[nth(*session, apps.len())];
                let c = &clients[app.client];
                let Stage::Done { id } = &app.stage else { continue };
                if method_name(c.method) == "RSA-SHA1" {
                    continue;
                }
                let g = &server.grants[id];
                let (cs, ts) = if *which { (&**secret, &*g.secret) } else { (&*c.secret, &**secret) };
                if cs == c.secret && ts == g.secret {
                    continue;
                }
                let b = Builder::with_token(
                    Token::from_parts(c.id.clone(), cs.to_string(), id.clone(), ts.to_string()),
                    signature_method(c.method),
                );
                let w = send(&b, RESOURCE, s).map_err(err)?;
                // HMAC keys are padded with zeros, which no encoded secret holds: other secrets, other keys.
                match server.resource(&w) {
                    Err(Refused::Invalid(_)) => {}
                    r => return Err(err(format!("a wrong secret was accepted: {:?}", r))),
                }
                st.label("impostor");
            }
        }
    }
    Ok(())
}

fn sends() -> BoxedStrategy<Send> {
    let m = prop_oneof![3 => Just("GET".to_string()), 3 => Just("POST".to_string()), 3 => method()];
    let r = (kind(), params_of(0..5, val_of(text()))).prop_map(|(kind, params)| ReqSpec { kind, params });
    (any::<u8>(), any::<u8>(), m, r).prop_map(|(carrier, via, method, req)| Send { carrier, via, method, req }).boxed()
}

fn issues() -> BoxedStrategy<Issue> {
    let extra = vec(("[a-z_]{1,8}", text()), 0..3).prop_map(|mut v| {
        // Names of a JSON object occur once.
        v.sort();
        v.dedup_by(|a, b| a.0 == b.0);
        v
    });
    (text(), secret(), any::<bool>(), any::<u8>(), extra, proptest::bool::weighted(0.2))
        .prop_map(|(id, secret, json, order, extra, keep)| Issue { id, secret, json, order, extra, keep })
        .boxed()
}

impl Prop for C27 {
    const ID: &'static str = "C27";
    const RULE: &'static str = "Random histories of up to three clients and many sessions going through temporary credentials, authorization, \
        exchange, calls, renewals, restarts and reuse of builders, over all carriers and signature methods, with replays, early exchanges and \
        impostors, against a stateful RFC 5849 server that sees the wire only and answers with forms or JSON; \
        non-trivial = an exchange succeeded.";
    type Case = Case;
    const CASES: u32 = 100_000;

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let client = (text(), secret(), any::<u8>(), any::<bool>())
            .prop_map(|(id, secret, method, version)| Client { id, secret, method, version });
        let clients = vec(client, 1..4).prop_map(|mut v| {
            for (i, c) in v.iter_mut().enumerate().skip(1) {
                c.id.push_str(&i.to_string());
            }
            if v.len() > 1 && v[1..].iter().any(|c| c.id == v[0].id) {
                v.truncate(1);
            }
            v
        });
        let s = any::<u8>;
        let step = prop_oneof![
            3 => (s(), proptest::option::of(s()), text(), sends(), issues())
                .prop_map(|(client, reuse, callback, send, issue)| Step::Begin { client, reuse, callback, send, issue }),
            5 => (s(), text(), any::<bool>())
                .prop_map(|(session, verifier, again)| Step::Authorize { session, verifier, again }),
            6 => (s(), proptest::bool::weighted(0.1), sends(), issues())
                .prop_map(|(session, wrong, send, issue)| Step::Exchange { session, wrong, send, issue }),
            5 => (s(), proptest::bool::weighted(0.2), sends())
                .prop_map(|(session, tokenless, send)| Step::Call { session, tokenless, send }),
            2 => (s(), s()).prop_map(|(session, how)| Step::Restart { session, how }),
            1 => (s(), secret()).prop_map(|(session, secret)| Step::Renew { session, secret }),
            1 => s().prop_map(|message| Step::Replay { message }),
            2 => (s(), any::<bool>(), secret(), sends())
                .prop_map(|(session, which, secret, send)| Step::Impostor { session, which, secret, send }),
        ];
        let first = (s(), text(), sends(), issues())
            .prop_map(|(client, callback, send, issue)| Step::Begin { client, reuse: None, callback, send, issue });
        let through = (text(), any::<bool>(), sends(), issues()).prop_map(|(verifier, again, send, issue)| {
            [
                Step::Authorize { session: 0, verifier, again },
                Step::Exchange { session: 0, wrong: false, send, issue },
            ]
        });
        (clients, first, vec(step, 1..14), proptest::option::weighted(0.7, (any::<proptest::sample::Index>(), through)))
            .prop_map(|(clients, first, mut steps, through)| {
                if let Some((at, through)) = through {
                    let at = at.index(steps.len().min(4));
                    steps.splice(at..at, through);
                }
                steps.insert(0, first);
                Case { clients, steps }
            })
            .boxed()
    }

    fn check(case: &Case, st: &mut Stats) -> Result<(), String> {
        play(case, st)
    }
}

fn main() {
    run::<C27>()
}
