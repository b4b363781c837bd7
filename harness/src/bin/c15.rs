use either::Either;
use oauth::serializer::auth::Authorizer;
use oauth::signature_method::{Sign, SignatureMethod};
use oauth::Request;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::engine::{main as run, Prop, Stats, Tier};
use vh::gen::*;
use vh::signs::*;
use vh::{ensure_eq, keys, rfc};

struct C15;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Call {
    Method(String),
    Uri(Val),
    Param(String, Val),
    Delimiter,
    Callback(Val),
    ConsumerKey(Val),
    Nonce(Val),
    SignatureMethod,
    Timestamp(u64),
    Token(Val),
    Verifier(Val),
    Version,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    c: SignCase,
    /// The chosen method and the other one.
    selected: u8,
    other: u8,
    config: Config,
    /// Calls made directly on the algorithm.
    calls: Vec<Call>,
}

/// A signature method made from a configuration, and the log of its calls if it records them.
trait Made: SignatureMethod + Clone {
    fn made(c: &Config) -> (Self, Option<Log>);
}
macro_rules! recording {
    ($($T:ident)*) => {$(
        impl Made for $T {
            fn made(c: &Config) -> (Self, Option<Log>) {
                let m = $T::new(c);
                let l = m.log.clone();
                (m, Some(l))
            }
        }
    )*};
}
recording! { Full Bare Odd Even }
impl Made for oauth::HmacSha1 {
    fn made(_: &Config) -> (Self, Option<Log>) {
        (oauth::HMAC_SHA1, None)
    }
}
impl Made for oauth::signature_method::Plaintext {
    fn made(_: &Config) -> (Self, Option<Log>) {
        (oauth::PLAINTEXT, None)
    }
}
impl Made for &'static oauth::RsaSha1 {
    fn made(c: &Config) -> (Self, Option<Log>) {
        (&keys::all()[c.name as usize % 4].k06, None)
    }
}
impl Made for oauth::Rsa09Sha1 {
    fn made(c: &Config) -> (Self, Option<Log>) {
        (keys::all()[c.name as usize % 4].k09.clone(), None)
    }
}

type Seen = (Vec<String>, Vec<Event>);

/// All carriers' outputs with the method `make` gives, and the calls on it.
fn sign<SM: SignatureMethod + Clone>(c: &SignCase, make: impl Fn() -> (SM, Option<Log>)) -> Seen {
    let req = CustomReq(c.req.sorted());
    let o = c.opts.auth();
    let mut out = Vec::new();
    let mut events = Vec::new();
    for how in 0..5 {
        let (sm, log) = make();
        let (m, u) = (&*c.method, &c.uri);
        out.push(match how {
            0 => c.builder(sm).authorize(m, u, &req),
            1 => c.builder(sm).to_form(m, u, &req),
            2 => c.builder(sm).to_query(m, u.s.clone(), &req),
            3 => c.builder(sm).into_authorization(m, u, &req),
            _ => req.serialize(Authorizer::form(m, u, c.client(), c.token(), &o, sm)),
        });
        if let Some(l) = log {
            events.extend(l.borrow().iter().cloned());
        }
    }
    (out, events)
}

/// As [`sign`], for one carrier.
fn sign_once<SM: SignatureMethod + Clone>(c: &SignCase, make: impl Fn() -> (SM, Option<Log>)) -> Seen {
    let (sm, log) = make();
    let s = c.builder(sm).to_form(&c.method, &c.uri, &CustomReq(c.req.sorted()));
    (vec![s], log.map_or(vec![], |l| l.borrow().clone()))
}

/// Makes the calls on the algorithm itself.
fn drive<SM: SignatureMethod>(c: &SignCase, calls: &[Call], (sm, log): (SM, Option<Log>)) -> Seen {
    let mut s = sm.sign_with(&c.client.1, c.token_secret());
    for call in calls {
        match call {
            Call::Method(m) => s.request_method(m),
            Call::Uri(u) => s.uri(u),
            Call::Param(k, v) => s.parameter(k, v),
            Call::Delimiter => s.delimiter(),
            Call::Callback(v) => s.callback(v),
            Call::ConsumerKey(v) => s.consumer_key(v),
            Call::Nonce(v) => s.nonce(v),
            Call::SignatureMethod => s.signature_method(),
            Call::Timestamp(t) => s.timestamp(*t),
            Call::Token(v) => s.token(v),
            Call::Verifier(v) => s.verifier(v),
            Call::Version => s.version(),
        }
    }
    let mut out = vec![
        s.get_signature_method_name().to_string(),
        s.use_nonce().to_string(),
        s.use_timestamp().to_string(),
    ];
    out.push(s.end().to_string());
    (out, log.map_or(vec![], |l| l.borrow().clone()))
}

type E<X, Y> = Either<X, Y>;

macro_rules! judge {
    ($A:ident, $B:ident, $case:ident, $sign:ident: $($name:literal $T:ty, $x:ident => $e:expr;)*) => {{
        let c = &$case.c;
        let a = || $A::made(&$case.config);
        let wanted = $sign(c, a);
        let driven = drive(c, &$case.calls, a());
        $(
            let make = || {
                let ($x, log) = a();
                let e: $T = $e;
                (e, log)
            };
            let got = $sign(c, make);
            ensure_eq!(got.0, wanted.0, "outputs through {}", $name);
            ensure_eq!(got.1, wanted.1, "calls through {}", $name);
            let got = drive(c, &$case.calls, make());
            ensure_eq!(got.0, driven.0, "name, nonce, timestamp and signature through {}", $name);
            ensure_eq!(got.1, driven.1, "direct calls through {}", $name);
        )*
    }};
}

fn go<A: Made, B: Made>(case: &Case) -> Result<(), String> {
    judge! { A, B, case, sign:
        "Left" E<A, B>, x => Either::Left(x);
        "Right" E<B, A>, x => Either::Right(x);
    }
    Ok(())
}

fn deep<A: Made, B: Made>(case: &Case) -> Result<(), String> {
    judge! { A, B, case, sign_once:
        "Left(Right)" E<E<B, A>, B>, x => Either::Left(Either::Right(x));
        "Right(Left)" E<B, E<A, B>>, x => Either::Right(Either::Left(x));
        "Right(Right(Left))" E<B, E<B, E<A, B>>>, x => Either::Right(Either::Right(Either::Left(x)));
        "Left of equal types" E<A, A>, x => Either::Left(x);
        "Right of equal types" E<A, A>, x => Either::Right(x);
    }
    Ok(())
}

fn pick<A: Made>(case: &Case) -> Result<(), String> {
    deep::<A, Full>(case)?;
    match case.other % 4 {
        0 => go::<A, Full>(case),
        1 => go::<A, Bare>(case),
        2 => go::<A, oauth::HmacSha1>(case),
        _ => go::<A, oauth::signature_method::Plaintext>(case),
    }
}

fn call() -> impl Strategy<Value = Call> {
    let v = || val_of(short_text());
    prop_oneof![
        "[A-Z]{1,5}".prop_map(Call::Method),
        v().prop_map(Call::Uri),
        (key(), v()).prop_map(|(k, v)| Call::Param(k, v)),
        Just(Call::Delimiter),
        v().prop_map(Call::Callback),
        v().prop_map(Call::ConsumerKey),
        v().prop_map(Call::Nonce),
        Just(Call::SignatureMethod),
        timestamp().prop_map(Call::Timestamp),
        v().prop_map(Call::Token),
        v().prop_map(Call::Verifier),
        Just(Call::Version),
    ]
}

const KINDS: [&str; 8] = [
    "all callbacks",
    "no callback",
    "odd callbacks",
    "even callbacks",
    "HMAC-SHA1",
    "PLAINTEXT",
    "RSA-SHA1 (0.6)",
    "RSA-SHA1 (0.9)",
];

impl Prop for C15 {
    const ID: &'static str = "C15";
    const RULE: &'static str = "Random request signed in five ways by one of eight signature methods (four recording user-defined kinds, \
        HMAC-SHA1, PLAINTEXT, both RSA backends) directly and through seven shapes of nested two-way choices against another \
        method, plus random direct call sequences on the algorithms; outputs and recorded calls are compared; non-trivial = the \
        chosen method is user-defined or the request has parameters.";
    type Case = Case;
    const CASES: u32 = 40_000;

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let cf = || config(short_text().prop_map(|s| rfc::enc(&s)).boxed());
        let selected = prop_oneof![12 => 0u8..4, 3 => 4u8..6, 1 => 6u8..8];
        (pinned_case(), selected, 0u8..4, cf(), vec(call(), 0..14))
            .prop_map(|(c, selected, other, config, calls)| Case {
                c,
                selected,
                other,
                config,
                calls,
            })
            .boxed()
    }

    fn check(case: &Case, st: &mut Stats) -> Result<(), String> {
        match case.selected % 8 {
            0 => pick::<Full>(case)?,
            1 => pick::<Bare>(case)?,
            2 => pick::<Odd>(case)?,
            3 => pick::<Even>(case)?,
            4 => pick::<oauth::HmacSha1>(case)?,
            5 => pick::<oauth::signature_method::Plaintext>(case)?,
            6 => pick::<&'static oauth::RsaSha1>(case)?,
            _ => pick::<oauth::Rsa09Sha1>(case)?,
        }
        if case.selected % 8 < 4 || !case.c.req.params.is_empty() {
            st.nontrivial();
        }
        st.label(KINDS[case.selected as usize % 8]);
        Ok(())
    }
}

fn main() {
    run::<C15>()
}
