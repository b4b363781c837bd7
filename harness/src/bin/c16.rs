use std::borrow::Cow;
use std::fmt::{self, Debug, Formatter};

use either::Either;
use oauth::serializer::auth::{Authorizer, Options};
use oauth::serializer::Serializer;
use oauth::signature_method::{Sign, SignatureMethod};
use oauth::{Builder, Credentials, Token};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::engine::{main as run, Prop, Stats, Tier};
use vh::gen::*;
use vh::keys;
use vh::{ensure, ensure_eq};

struct C16;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    client: (String, String),
    token: Option<(String, String)>,
    opts: Opts,
    /// The string type that holds the parts.
    ty: u8,
    method: u8,
    /// The RSA key, of RSA methods.
    key: u8,
    /// How far the other secrets' characters are from these ones'.
    turn: u8,
}

/// Another text of the same length, in characters and in bytes, with every character changed.
fn rotate(s: &str, by: u8) -> String {
    let by = u32::from(by % 23) + 1;
    s.chars()
        .map(|c| {
            let (lo, n) = match c.len_utf8() {
                1 => (0, 0x80),
                2 => (0x80, 0x780),
                // The range is cut short of the surrogates.
                3 => (0x800, 0xd000),
                _ => (0x10000, 0x100000),
            };
            let x = c as u32;
            if x >= lo + n {
                return '\u{3042}';
            }
            char::from_u32(lo + (x - lo + by) % n).unwrap()
        })
        .collect()
}

/// A string type of the user's.
#[derive(Clone)]
struct Mine(String);
impl AsRef<str> for Mine {
    fn as_ref(&self) -> &str {
        &self.0
    }
}
impl Debug for Mine {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        write!(f, "Mine({:?})", self.0)
    }
}

fn all_flags<D: Debug>(d: &D) -> Vec<String> {
    vec![
        format!("{:?}", d),
        format!("{:#?}", d),
        format!("{:x?}", d),
        format!("{:X?}", d),
        format!("{:#x?}", d),
        format!("{:02X?}", d),
        format!("{:#06x?}", d),
        format!("{:30?}", d),
        format!("{:<5.1?}", d),
        format!("{:^+300.200?}", d),
        format!("{:*>#9?}", d),
        format!("{:08?}", d),
        format!("{:-?}", d),
    ]
}

/// Everything the property speaks of, formatted, with identifiers and secrets as given.
fn outputs<T, SM>(
    case: &Case,
    secrets: (&str, &str),
    make: impl Fn(&str) -> T,
    sm: SM,
) -> Vec<(&'static str, Vec<String>, usize)>
where
    T: AsRef<str> + Debug + Clone,
    SM: SignatureMethod + Clone + Debug,
    SM::Sign: Debug,
{
    let client = || Credentials::new(make(&case.client.0), make(secrets.0));
    let mut out = vec![
        ("client credentials", all_flags(&client()), 1),
        ("borrowed credentials", all_flags(&client().as_ref()), 1),
        ("a reference to credentials", all_flags(&&client()), 1),
        ("optional credentials", all_flags(&Some(client())), 1),
        ("mapped credentials", all_flags(&client().map(|s| Mine(s.as_ref().to_string()))), 1),
        ("bytes as credentials", {
            let c = client();
            all_flags(&Credentials {
                identifier: c.identifier().as_bytes().to_vec(),
                secret: c.secret().as_bytes().to_vec(),
            })
        }, 0),
    ];
    let mut b = Builder::<SM, T, T>::new(client(), sm.clone());
    out.push(("new builder", all_flags(&b), 1));
    b.callback(case.opts.callback.as_deref())
        .verifier(case.opts.verifier.as_deref())
        .nonce(case.opts.nonce.as_deref())
        .timestamp(case.opts.timestamp.and_then(std::num::NonZeroU64::new))
        .version(case.opts.version);
    out.push(("builder without a token", all_flags(&b), 1));
    if let Some(ref t) = case.token {
        let token = Token::new(client(), Credentials::new(make(&t.0), make(secrets.1)));
        out.push(("token", all_flags(&token), 2));
        out.push(("borrowed token", all_flags(&token.as_ref()), 2));
        out.push(("list of tokens", all_flags(&vec![token.clone(), token.clone()]), 2));
        out.push(("token with a mapped half", all_flags(&token.clone().map_client(|s| Mine(s.as_ref().into()))), 2));
        out.push(("token's own credentials", all_flags(&token.token()), 3));
        b.token(token.token.clone());
        out.push(("builder with a token", all_flags(&b), 2));
        out.push(("builder made from a token", all_flags(&Builder::with_token(token, sm.clone())), 2));
        out.push(("cloned builder", all_flags(&b.clone()), 2));
        let _ = b.authorize("GET", "http://example.com/", &());
        out.push(("used builder", all_flags(&b), 2));
        b.token(None);
        out.push(("builder with its token removed", all_flags(&b), 1));
    }
    // What is halfway through a request.
    let client = client();
    let token = case.token.as_ref().map(|t| Credentials::new(make(&t.0), make(secrets.1)));
    let token = token.as_ref().map(|t| t.as_ref());
    let mut o = Options::new();
    o.callback(case.opts.callback.as_deref())
        .verifier(case.opts.verifier.as_deref())
        .nonce(Some(case.opts.nonce.as_deref().unwrap_or("n")))
        .timestamp(std::num::NonZeroU64::new(case.opts.timestamp.unwrap_or(1).max(1)))
        .version(case.opts.version);
    let mut sign = sm.clone().sign_with(client.secret(), token.map(|t| t.secret));
    out.push(("a signer", all_flags(&sign), 0));
    sign.request_method("GET");
    sign.uri("http%3A%2F%2Fexample.com%2F");
    sign.parameter("a", "b");
    out.push(("a used signer", all_flags(&sign), 0));
    let uri = "http://example.com/";
    for (fresh, used, mut a) in [
        ("an authorizer", "a used authorizer", Authorizer::authorization("GET", uri, client.as_ref(), token, &o, sm.clone())),
        ("a form's authorizer", "a used form's authorizer", Authorizer::form("POST", uri, client.as_ref(), token, &o, sm.clone())),
        ("a query's authorizer", "a used query's authorizer", Authorizer::query("GET", uri.to_string(), client.as_ref(), token, &o, sm)),
    ] {
        out.push((fresh, all_flags(&a), 0));
        a.serialize_parameter("a", "b");
        a.serialize_oauth_consumer_key();
        a.serialize_oauth_token();
        out.push((used, all_flags(&a), 0));
    }
    out
}

fn go<T, SM>(case: &Case, make: impl Fn(&str) -> T, sm: SM) -> Result<(), String>
where
    T: AsRef<str> + Debug + Clone,
    SM: SignatureMethod + Clone + Debug,
    SM::Sign: Debug,
{
    let ts = case.token.as_ref().map_or("", |t| &t.1);
    let shown = outputs(case, (&case.client.1, ts), &make, sm.clone());
    let (a, b) = (rotate(&case.client.1, case.turn), rotate(ts, case.turn));
    let other = outputs(case, (&a, &b), &make, sm);
    for ((what, x, ids), (_, y, _)) in shown.iter().zip(&other) {
        ensure_eq!(
            x,
            y,
            "{}: the debug output depends on the secrets ({:?}, {:?} against {:?}, {:?})",
            what,
            case.client.1,
            ts,
            a,
            b
        );
        let has = |id: &str| x[..2].iter().all(|s| s.contains(&format!("{:?}", id)));
        ensure!(!matches!(ids, 1 | 2) || has(&case.client.0), "{}: client identifier not shown in {:?}", what, x);
        if let Some(ref t) = case.token {
            ensure!(!matches!(ids, 2 | 3) || has(&t.0), "{}: token identifier not shown in {:?}", what, x);
        }
    }
    Ok(())
}

/// Formats everything with an RSA method: nothing may show the private key.
fn rsa<T, SM>(case: &Case, make: impl Fn(&str) -> T, sm: SM) -> Result<(), String>
where
    T: AsRef<str> + Debug + Clone,
    SM: SignatureMethod + Clone + Debug,
    SM::Sign: Debug,
{
    let key = key(case);
    let texts = key.private_texts();
    let mut shown = outputs(case, (&case.client.1, case.token.as_ref().map_or("", |t| &t.1)), &make, sm.clone());
    shown.push(("the signature method", all_flags(&sm), 0));
    for (what, x, _) in shown {
        for x in &x {
            if let Some(t) = texts.iter().find(|t| x.contains(&***t)) {
                return Err(format!("{}: the debug output has {} of the private key {}: {:.600}", what, t, key.name, x));
            }
        }
    }
    Ok(())
}

/// A key; the small ones more often.
fn key(case: &Case) -> &'static keys::Key {
    let all = keys::all();
    &all[case.key as usize % if case.key % 4 == 0 { all.len() } else { 7 }]
}

fn with_type<SM: SignatureMethod + Clone + Debug>(case: &Case, sm: SM) -> Result<(), String>
where
    SM::Sign: Debug,
{
    match case.ty % 5 {
        0 => go(case, |s| s.to_string(), sm),
        1 => go(case, |s| -> Box<str> { s.into() }, sm),
        2 => go(case, |s| -> Cow<'static, str> { s.to_string().into() }, sm),
        3 => go(case, |s| Mine(s.into()), sm),
        _ => go(case, |s| -> std::rc::Rc<str> { s.into() }, sm),
    }
}

impl Prop for C16 {
    const ID: &'static str = "C16";
    const RULE: &'static str = "Random identifiers, secrets, options, string types and signature method; credentials, tokens, builders, authorizers and \
        signers in 24 states are formatted with 13 sets of debug flags, once with these secrets and once with others of equal length that \
        differ in every character: the outputs must be identical and show the identifiers, and with an RSA key no number of the private key, \
        nor a 64-bit digit of one, may occur; non-trivial = a secret is not empty.";
    type Case = Case;
    const CASES: u32 = 30_000;

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        (
            (text(), secret()),
            proptest::option::weighted(0.8, (text(), secret())),
            opts(),
            0u8..5,
            (0u8..17, any::<u8>()),
            any::<u8>(),
        )
            .prop_map(|(client, token, opts, ty, (method, key), turn)| Case { client, token, opts, ty, method, key, turn })
            .boxed()
    }

    fn check(case: &Case, st: &mut Stats) -> Result<(), String> {
        let k = key(case);
        match case.method {
            0..=3 => with_type(case, oauth::HMAC_SHA1)?,
            4..=7 => with_type(case, oauth::PLAINTEXT)?,
            8 => with_type(case, Either::<oauth::HmacSha1, oauth::Plaintext>::Right(oauth::PLAINTEXT))?,
            9 => with_type(case, Either::<oauth::HmacSha1, oauth::Plaintext>::Left(oauth::HMAC_SHA1))?,
            10 => with_type(case, k.k06.clone())?,
            11 => with_type(case, &k.k09)?,
            12 => rsa(case, |s| s.to_string(), k.k06.clone())?,
            13 => rsa(case, |s| s.to_string(), k.k09.clone())?,
            14 => rsa(case, |s| s.to_string(), &k.k06)?,
            15 => rsa(case, |s| s.to_string(), &k.k09)?,
            _ => rsa(case, |s| s.to_string(), Either::<oauth::HmacSha1, _>::Right(k.k09.clone()))?,
        }
        if !case.client.1.is_empty() || case.token.as_ref().map_or(false, |t| !t.1.is_empty()) {
            st.nontrivial();
        }
        st.label_if(case.token.is_some(), "with a token");
        st.label(match case.method {
            0..=3 => "HMAC-SHA1",
            4..=7 => "PLAINTEXT",
            8 | 9 => "either method",
            10 | 11 => "RSA-SHA1 with secrets",
            _ => "RSA-SHA1 private key",
        });
        Ok(())
    }
}

fn main() {
    run::<C16>()
}
