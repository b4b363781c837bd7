use std::num::NonZeroU64;

use either::Either;
use oauth::serializer::auth::{Authorizer, Options};
use oauth::signature_method::SignatureMethod;
use oauth::{Builder, Credentials, Request, Token};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::engine::{main as run, Prop, Stats, Tier};
use vh::gen::*;
use vh::{ensure, ensure_eq, rfc};

struct C11;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Callback(Option<String>),
    Verifier(Option<String>),
    Nonce(Option<String>),
    Timestamp(Option<u64>),
    Version(bool),
    Token(Option<(String, String)>),
    /// Signs with the current builder.
    Sign(u8, String, Val, ReqSpec),
    /// Copies the current builder and makes the copy or another builder current.
    Clone(u8),
    /// Makes another builder current.
    Switch(u8),
    /// Replaces the current builder by a fresh one.
    Fresh(bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    method: u8,
    client: (String, String),
    token: Option<(String, String)>,
    ops: Vec<Op>,
}

#[derive(Clone)]
struct Model {
    token: Option<(String, String)>,
    opts: Opts,
}

const BLANK: Opts = Opts {
    callback: None,
    verifier: None,
    nonce: None,
    timestamp: None,
    version: false,
};

fn now() -> u64 {
    std::time::SystemTime::now()
        .duration_since(std::time::UNIX_EPOCH)
        .unwrap()
        .as_secs()
}

fn cred(c: &(String, String)) -> Credentials<&str> {
    Credentials::new(&*c.0, &*c.1)
}

struct State<'a, SM> {
    builder: Builder<'a, SM, &'a str, &'a str>,
    options: Options<'a>,
    model: Model,
}

impl<'a, SM: Clone> Clone for State<'a, SM> {
    fn clone(&self) -> Self {
        State {
            builder: self.builder.clone(),
            options: self.options.clone(),
            model: self.model.clone(),
        }
    }
}

fn fresh<'a, SM: SignatureMethod>(c: &'a Case, sm: SM, with_token: bool) -> State<'a, SM> {
    match c.token {
        Some(ref t) if with_token => State {
            builder: Builder::with_token(Token::new(cred(&c.client), cred(t)), sm),
            options: Options::new(),
            model: Model { token: Some(t.clone()), opts: BLANK },
        },
        _ => State {
            builder: Builder::new(cred(&c.client), sm),
            options: Options::default(),
            model: Model { token: None, opts: BLANK },
        },
    }
}

fn go<SM: SignatureMethod + Clone>(c: &Case, sm: SM, name: &'static str, st: &mut Stats) -> Result<(), String> {
    let mut states = vec![fresh(c, sm.clone(), true)];
    let mut cur = 0;
    let mut auto: Vec<String> = Vec::new();
    let (mut settings, mut signed, mut changed_after) = (0, 0, false);
    for (i, op) in c.ops.iter().enumerate() {
        let n = states.len();
        let State { builder, options, model } = &mut states[cur];
        if !matches!(op, Op::Sign(..)) {
            settings += 1;
            changed_after |= signed > 0;
        }
        match op {
            // Both ways of passing an optional argument.
            Op::Callback(v) => {
                match v {
                    Some(v) if i % 2 == 0 => builder.callback(&**v),
                    v => builder.callback(v.as_deref()),
                };
                options.callback(v.as_deref());
                model.opts.callback = v.clone();
            }
            Op::Verifier(v) => {
                match v {
                    Some(v) if i % 2 == 0 => builder.verifier(&**v),
                    v => builder.verifier(v.as_deref()),
                };
                options.verifier(v.as_deref());
                model.opts.verifier = v.clone();
            }
            Op::Nonce(v) => {
                match v {
                    Some(v) if i % 2 == 0 => builder.nonce(&**v),
                    v => builder.nonce(v.as_deref()),
                };
                options.nonce(v.as_deref());
                model.opts.nonce = v.clone();
            }
            Op::Timestamp(v) => {
                match v.and_then(NonZeroU64::new) {
                    Some(v) if i % 2 == 0 => builder.timestamp(v),
                    v => builder.timestamp(v),
                };
                options.timestamp(v.and_then(NonZeroU64::new));
                model.opts.timestamp = *v;
            }
            Op::Version(v) => {
                builder.version(*v);
                options.version(*v);
                model.opts.version = *v;
            }
            Op::Token(v) => {
                match v {
                    Some(v) if i % 2 == 0 => builder.token(cred(v)),
                    v => builder.token(v.as_ref().map(cred)),
                };
                model.token = v.clone();
            }
            Op::Clone(to) => {
                if n < 4 {
                    let s = states[cur].clone();
                    states.push(s);
                }
                cur = *to as usize % states.len();
            }
            Op::Switch(to) => cur = *to as usize % n,
            Op::Fresh(t) => states[cur] = fresh(c, sm.clone(), *t),
            Op::Sign(how, method, uri, req) => {
                signed += 1;
                let r = req.build();
                let t0 = now();
                let b = &*builder;
                let out = match how % 9 {
                    0 => b.authorize(method, uri, &r),
                    1 => b.to_form(method, uri, &r),
                    2 => b.to_query(method, uri.s.clone(), &r),
                    3 => b.authorize_with_buf(String::new(), method, uri, &r),
                    4 => b.to_form_with_buf(String::new(), method, uri, &r),
                    5 => b.clone().into_authorization(method, uri, &r),
                    6 => b.clone().into_form(method, uri, &r),
                    7 => b.clone().into_query(method, uri.s.clone(), &r),
                    _ => r.serialize(Authorizer::authorization(
                        method,
                        uri,
                        cred(&c.client),
                        model.token.as_ref().map(cred),
                        options,
                        sm.clone(),
                    )),
                };
                let t1 = now();
                let carrier = [0, 1, 2, 0, 1, 0, 1, 2, 0][*how as usize % 9];
                let pairs = match carrier {
                    0 => rfc::parse_header(&out)?,
                    1 => rfc::split_form(&out)?,
                    _ => rfc::split_form(
                        out.strip_prefix(&*uri.s)
                            .and_then(|q| q.strip_prefix('?'))
                            .ok_or_else(|| format!("query {:?}", out))?,
                    )?,
                };
                let read = |k: &str| {
                    pairs
                        .iter()
                        .find(|p| p.0 == k)
                        .ok_or_else(|| format!("step {}: no {} in {:?}", i, k, out))
                        .and_then(|p| rfc::dec(&p.1))
                };
                let mut opts = model.opts.clone();
                if opts.nonce.is_none() {
                    let n = read("oauth_nonce")?;
                    ensure!(!auto.contains(&n), "step {}: automatic nonce {:?} was used before", i, n);
                    auto.push(n.clone());
                    opts.nonce = Some(n);
                }
                if opts.timestamp.is_none() {
                    let t = read("oauth_timestamp")?;
                    let t: u64 = t.parse().map_err(|_| format!("timestamp {:?}", t))?;
                    ensure!(
                        t0 <= t && t <= t1,
                        "step {}: automatic timestamp {} outside {}..={}",
                        i,
                        t,
                        t0,
                        t1
                    );
                    opts.timestamp = Some(t);
                }
                let want = SignCase {
                    method: method.clone(),
                    uri: uri.clone(),
                    client: c.client.clone(),
                    token: model.token.clone(),
                    opts,
                    req: req.clone(),
                };
                let sig = if name == "HMAC-SHA1" {
                    want.reference_hmac()
                } else {
                    rfc::signing_key(&want.client.1, want.token_secret())
                };
                let mut expected = match carrier {
                    0 => rfc::parse_header(&want.header_of(name, &sig))?,
                    _ => rfc::split_form(&want.form_of(name, &sig))?,
                };
                let mut got = pairs;
                expected.sort();
                got.sort();
                ensure_eq!(got, expected, "step {}: output {:?} against the latest settings", i, out);
                if model.opts.nonce.is_some() && model.opts.timestamp.is_some() {
                    let again = match carrier {
                        0 => builder.authorize(method, uri, &req.build()),
                        1 => builder.to_form(method, uri, &req.build()),
                        _ => builder.to_query(method, uri.s.clone(), &req.build()),
                    };
                    ensure_eq!(again, out, "step {}: the call repeated", i);
                }
            }
        }
    }
    if settings > 1 && signed > 1 && changed_after {
        st.nontrivial();
    }
    st.label(name);
    st.label_if(states.len() > 1, "clones");
    st.label_if(!auto.is_empty(), "automatic nonce");
    Ok(())
}

fn op() -> impl Strategy<Value = Op> {
    let t = || proptest::option::weighted(0.7, short_text());
    prop_oneof![
        1 => t().prop_map(Op::Callback),
        1 => t().prop_map(Op::Verifier),
        2 => t().prop_map(Op::Nonce),
        2 => proptest::option::weighted(0.7, timestamp()).prop_map(Op::Timestamp),
        1 => any::<bool>().prop_map(Op::Version),
        2 => proptest::option::weighted(0.7, (short_text(), short_text())).prop_map(Op::Token),
        1 => any::<u8>().prop_map(Op::Clone),
        1 => any::<u8>().prop_map(Op::Switch),
        1 => any::<bool>().prop_map(Op::Fresh),
        5 => (0u8..9, method(), uri(), kind(), params_of(0..3, val_of(short_text())))
            .prop_map(|(h, m, u, kind, params)| Op::Sign(h, m, u, ReqSpec { kind, params })),
    ]
}

impl Prop for C11 {
    const ID: &'static str = "C11";
    const RULE: &'static str = "Random histories of up to 24 setter, signing, clone, switch and reset steps on up to four builders \
        (HMAC-SHA1, PLAINTEXT, run-time choice), each signing output compared with a reference computed from a model of the latest \
        settings; non-trivial = at least two signings, with a setting changed after the first.";
    type Case = Case;
    const CASES: u32 = 40_000;

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        (
            0u8..4,
            (short_text(), short_text()),
            proptest::option::of((short_text(), short_text())),
            proptest::collection::vec(op(), 1..25),
        )
            .prop_map(|(method, client, token, ops)| Case { method, client, token, ops })
            .boxed()
    }

    fn fixed(_: Tier) -> Vec<Case> {
        // Every pair of settings set and then cleared, in either order, signing in between.
        let s = |x: &str| Some(x.to_string());
        let set: Vec<[Op; 2]> = vec![
            [Op::Callback(s("")), Op::Callback(None)],
            [Op::Callback(s("c")), Op::Callback(s("d"))],
            [Op::Verifier(s("")), Op::Verifier(None)],
            [Op::Verifier(s("v")), Op::Verifier(s("w"))],
            [Op::Nonce(s("")), Op::Nonce(None)],
            [Op::Nonce(s("n")), Op::Nonce(s("o"))],
            [Op::Timestamp(Some(1)), Op::Timestamp(None)],
            [Op::Timestamp(Some(u64::MAX)), Op::Timestamp(Some(2))],
            [Op::Version(true), Op::Version(false)],
            [Op::Version(true), Op::Version(true)],
            [Op::Token(Some(("a".into(), "b".into()))), Op::Token(None)],
            [Op::Token(Some(("".into(), "".into()))), Op::Token(Some(("c".into(), "d".into())))],
        ];
        let mut v = Vec::new();
        for a in &set {
            for b in &set {
                for how in 0..9 {
                    let sign = || {
                        Op::Sign(
                            how,
                            "POST".into(),
                            Val::new("http://e/"),
                            ReqSpec { kind: Kind::List, params: vec![Param::new("a", "b")] },
                        )
                    };
                    v.push(Case {
                        method: 0,
                        client: ("ck".into(), "cs".into()),
                        token: (how % 2 == 0).then(|| ("tk".into(), "ts".into())),
                        ops: vec![
                            a[0].clone(), sign(), b[0].clone(), sign(), Op::Clone(1), a[1].clone(), sign(), Op::Switch(0), sign(),
                            b[1].clone(), sign(), Op::Switch(1), sign(),
                        ],
                    });
                }
            }
        }
        v
    }

    fn check(c: &Case, st: &mut Stats) -> Result<(), String> {
        match c.method {
            0 => go(c, oauth::HMAC_SHA1, "HMAC-SHA1", st),
            1 => go(c, oauth::PLAINTEXT, "PLAINTEXT", st),
            2 => go::<Either<oauth::HmacSha1, oauth::Plaintext>>(c, Either::Left(oauth::HMAC_SHA1), "HMAC-SHA1", st),
            _ => go::<Either<oauth::HmacSha1, oauth::Plaintext>>(c, Either::Right(oauth::PLAINTEXT), "PLAINTEXT", st),
        }
    }
}

fn main() {
    run::<C11>()
}
