use std::fmt::{self, Display, Formatter, Write};

use oauth::request::AssertSorted;
use oauth::serializer::auth::Authorizer;
use oauth::serializer::{Serializer, SerializerExt, Urlencoder};
use oauth::signature_method::SignatureMethod;
use oauth::{Request, Token};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::engine::{catch, debug_build, main as run, Prop, Stats, Tier};
use vh::gen::*;
use vh::signs::{Bare, Config, Full};
use vh::{ensure, keys};

struct C19;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Call {
    Plain(String, Val),
    Encoded(String, Val),
    Hook(u8),
    Hooks,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Case {
    /// Signs and encodes a valid request in every way.
    Valid { c: Box<SignCase>, sm: u8, before: String },
    /// A URI with a query part, through one entry point.
    Question { c: Box<SignCase>, sm: u8, entry: u8 },
    /// Calls fed to the signer itself.
    Calls { c: Box<SignCase>, sm: u8, carrier: u8, calls: Vec<Call> },
    /// An iterator that is claimed to be sorted.
    Claimed { c: Box<SignCase>, sm: u8, carrier: u8, names: Vec<String> },
}

/// A URI buffer of the user's that writes itself in pieces.
struct UriBuf(Val, String);
impl Display for UriBuf {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        write!(f, "{}{}", self.0, self.1)
    }
}
impl Write for UriBuf {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.1.push_str(s);
        Ok(())
    }
}

macro_rules! with_method {
    ($n:expr, $sm:ident => $e:expr) => {{
        let config = || Config { name: 0, signature: Val::new("s"), use_nonce: true, use_timestamp: true };
        let _ = &config;
        match $n % 6 {
            0 => { let $sm = oauth::HMAC_SHA1; $e }
            1 => { let $sm = oauth::PLAINTEXT; $e }
            2 => { let $sm = &keys::small().k06; $e }
            3 => { let $sm = keys::small().k09.clone(); $e }
            4 => { let $sm = Full::new(&config()); $e }
            _ => { let $sm = Bare::new(&config()); $e }
        }
    }};
}

const ENTRIES: u8 = 17;

fn enter<SM: SignatureMethod + Clone>(c: &SignCase, sm: SM, entry: u8) -> String {
    let (m, u, r) = (&*c.method, &c.uri, &c.req.build());
    let b = c.builder(sm.clone());
    let o = &c.opts.auth();
    let us = || c.uri.s.clone();
    let ub = || UriBuf(c.uri.clone(), String::new());
    let t = c.token.clone().unwrap_or_default();
    let t = Token::from_parts(&*c.client.0, &*c.client.1, &*t.0, &*t.1);
    match entry % ENTRIES {
        0 => b.authorize(m, u, r),
        1 => b.to_form(m, u, r),
        2 => b.to_query(m, us(), r),
        3 => b.to_query(m, ub(), r).to_string(),
        4 => b.authorize_with_buf(String::new(), m, u, r),
        5 => b.to_form_with_buf(String::new(), m, u, r),
        6 => b.into_authorization(m, u, r),
        7 => b.into_form(m, u, r),
        8 => b.into_query(m, ub(), r).to_string(),
        9 => b.into_authorization_with_buf(String::new(), m, u, r),
        10 => b.into_form_with_buf(String::new(), m, u, r),
        11 => r.serialize(Authorizer::authorization(m, u, c.client(), c.token(), o, sm)),
        12 => r.serialize(Authorizer::form_with_buf(String::new(), m, u, c.client(), c.token(), o, sm)),
        13 => r.serialize(Authorizer::query(m, us(), c.client(), c.token(), o, sm)),
        14 => b.get(u, r),
        15 => oauth::post(u, r, &t, sm),
        _ => oauth::authorize(m, u, r, &t, sm),
    }
}

fn valid<SM: SignatureMethod + Clone>(c: &SignCase, sm: SM, before: &str) {
    for e in 0..ENTRIES {
        enter(c, sm.clone(), e);
    }
    let r = &c.req.build();
    oauth::to_form(r);
    oauth::to_query(c.uri.s.clone(), r);
    r.serialize(Urlencoder::form_with_buf(before.to_string()));
    r.serialize(Urlencoder::query(UriBuf(c.uri.clone(), String::new())));
    let b = c.builder(sm);
    b.authorize_with_buf(before.to_string(), &c.method, &c.uri, r);
    let _ = (r.serialize(oauth::serializer::Recorder::new()), b.clone());
}

fn authorizer<'a, SM: SignatureMethod>(
    c: &'a SignCase,
    o: &'a oauth::serializer::auth::Options<'a>,
    sm: SM,
    carrier: u8,
) -> Authorizer<'a, SM> {
    let m = &*c.method;
    match carrier % 3 {
        0 => Authorizer::authorization(m, &c.uri, c.client(), c.token(), o, sm),
        1 => Authorizer::form(m, &c.uri, c.client(), c.token(), o, sm),
        _ => Authorizer::query(m, c.uri.s.clone(), c.client(), c.token(), o, sm),
    }
}

fn feed<SM: SignatureMethod>(c: &SignCase, sm: SM, carrier: u8, calls: &[Call]) -> String {
    let o = c.opts.auth();
    let mut a = authorizer(c, &o, sm, carrier);
    for call in calls {
        match call {
            Call::Plain(k, v) => a.serialize_parameter(k, v),
            Call::Encoded(k, v) => a.serialize_parameter_encoded(k, v),
            Call::Hook(h) => call_hook(&mut a, *h as usize % 8),
            Call::Hooks => a.serialize_oauth_parameters(),
        }
    }
    a.end()
}

/// The names that a hook puts out.
fn emitted(c: &SignCase, h: usize) -> Option<&'static str> {
    let there = match h {
        0 => c.opts.callback.is_some(),
        5 => c.token.is_some(),
        6 => c.opts.verifier.is_some(),
        7 => c.opts.version,
        _ => true,
    };
    there.then_some(PROTOCOL[h])
}

fn descends<'a>(names: impl IntoIterator<Item = &'a str>) -> bool {
    let v: Vec<&str> = names.into_iter().collect();
    v.windows(2).any(|w| w[0] > w[1])
}

impl Prop for C19 {
    const ID: &'static str = "C19";
    const RULE: &'static str = "Valid random requests through 22 entry points with six signature methods (nothing may panic); URIs with a \
        question mark anywhere in their pieces through 17 entry points, random call sequences on the signer, and unsorted \
        iterators claimed to be sorted (with debug assertions, a question mark or a descent of request parameter names must panic, \
        a sequence without any descent must not); non-trivial = not a valid request without parameters.";
    type Case = Case;
    const CASES: u32 = 50_000;

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let sm = || prop_oneof![6 => 0u8..2, 1 => 2u8..4, 3 => 4u8..6];
        let any_method = prop_oneof![3 => method(), 1 => text()];
        let with_method = (sign_case(), any_method).prop_map(|(mut c, m)| {
            c.method = m;
            Box::new(c)
        });
        // Values and lists well beyond the usual sizes.
        let large = (with_method.clone(), any::<u16>(), 0u8..4, key()).prop_map(|(mut c, n, what, k)| {
            let n = n as usize;
            match what {
                0 => c.req.params.push(Param::new(&k, &"%\u{3042}a".repeat(n / 2))),
                1 => c.req.params.extend((0..n / 64).map(|i| Param::new(&format!("{}{}", k, i), "v"))),
                2 => c.client.1 = "s\u{e9}".repeat(n),
                _ => c.uri.s.push_str(&"/x y".repeat(n / 2)),
            }
            c
        });
        let name = || {
            prop_oneof![
                3 => key(),
                1 => "[a-c]{1,2}",
                1 => "[n-q][a-c]?",
            ]
        };
        let call = prop_oneof![
            5 => (name(), val_of(short_text())).prop_map(|(k, v)| Call::Plain(k, v)),
            3 => (name(), val_of("[a-z0-9]{0,3}(%[0-9A-F]{2})?".boxed())).prop_map(|(k, v)| Call::Encoded(k, v)),
            2 => (0u8..8).prop_map(Call::Hook),
            1 => Just(Call::Hooks),
        ];
        // Sequences that are sorted, nearly sorted, or in any order.
        let calls = (vec(call, 0..9), 0u8..4, any::<u8>(), any::<u8>()).prop_map(|(mut v, how, i, j)| {
            if how > 0 {
                v.sort_by_key(|c| match c {
                    Call::Plain(k, _) | Call::Encoded(k, _) => k.clone(),
                    Call::Hook(h) => PROTOCOL[*h as usize].to_string(),
                    Call::Hooks => PROTOCOL[0].to_string(),
                });
                if how == 3 && !v.is_empty() {
                    let n = v.len();
                    v.swap(i as usize % n, j as usize % n);
                }
            }
            v
        });
        let names = (vec(name(), 0..7), any::<bool>(), any::<u8>(), any::<u8>()).prop_map(|(mut v, sorted, i, j)| {
            v.sort();
            if !sorted && !v.is_empty() {
                let n = v.len();
                v.swap(i as usize % n, j as usize % n);
            }
            v
        });
        let question = (sign_case(), any::<u16>(), 1usize..3).prop_map(|(mut c, at, n)| {
            let bounds: Vec<usize> = c.uri.s.char_indices().map(|(i, _)| i).chain(Some(c.uri.s.len())).collect();
            c.uri.s.insert_str(bounds[at as usize % bounds.len()], &"?".repeat(n));
            Box::new(c)
        });
        prop_oneof![
            6 => (with_method, sm(), short_text()).prop_map(|(c, sm, before)| Case::Valid { c, sm, before }),
            1 => (large, 0u8..2).prop_map(|(c, sm)| Case::Valid { c, sm, before: String::new() }),
            12 => (question, sm(), 0..ENTRIES).prop_map(|(c, sm, entry)| Case::Question { c, sm, entry }),
            30 => (sign_case(), sm(), 0u8..3, calls).prop_map(|(mut c, sm, carrier, calls)| {
                c.req.params.clear();
                Case::Calls { c: Box::new(c), sm, carrier, calls }
            }),
            12 => (sign_case(), sm(), 0u8..3, names).prop_map(|(mut c, sm, carrier, names)| {
                c.req.params.clear();
                Case::Claimed { c: Box::new(c), sm, carrier, names }
            }),
        ]
        .boxed()
    }

    fn check(case: &Case, st: &mut Stats) -> Result<(), String> {
        match case {
            Case::Valid { c, sm, before } => {
                with_method!(sm, sm => catch(|| valid(c, sm, before)))?;
                if !c.req.params.is_empty() {
                    st.nontrivial();
                }
                st.label("valid request");
            }
            Case::Question { c, sm, entry } => {
                let r = with_method!(sm, sm => catch(|| enter(c, sm, *entry)));
                st.nontrivial();
                st.label("question mark");
                ensure!(
                    r.is_err() || !debug_build(),
                    "a URI with a question mark went through entry point {} unnoticed: {:?}",
                    entry,
                    r
                );
            }
            Case::Calls { c, sm, carrier, calls } => {
                let r = with_method!(sm, sm => catch(|| feed(c, sm, *carrier, calls)));
                let request = calls.iter().filter_map(|c| match c {
                    Call::Plain(k, _) | Call::Encoded(k, _) => Some(&**k),
                    _ => None,
                });
                let all = calls.iter().flat_map(|call| match call {
                    Call::Plain(k, _) | Call::Encoded(k, _) => vec![&**k],
                    Call::Hook(h) => emitted(c, *h as usize).into_iter().collect(),
                    Call::Hooks => (0..8).filter_map(|h| emitted(c, h)).collect(),
                });
                if calls.len() > 1 {
                    st.nontrivial();
                }
                if descends(request) {
                    st.label("descending calls");
                    ensure!(
                        r.is_err() || !debug_build(),
                        "request parameters in descending order were signed unnoticed: {:?}",
                        r
                    );
                } else if !descends(all) {
                    st.label("ascending calls");
                    ensure!(r.is_ok(), "calls in ascending order are refused: {:?}", r);
                }
            }
            Case::Claimed { c, sm, carrier, names } => {
                let o = c.opts.auth();
                let claimed = || AssertSorted::new(names.iter().map(|n| (n, "v")));
                let r = with_method!(sm, sm => catch(|| claimed().serialize(authorizer(c, &o, sm, *carrier))));
                if names.len() > 1 {
                    st.nontrivial();
                }
                if descends(names.iter().map(|n| &**n)) {
                    st.label("unsorted iterator");
                    ensure!(
                        r.is_err() || !debug_build(),
                        "an iterator with names in descending order was signed unnoticed: {:?}",
                        r
                    );
                } else {
                    st.label("sorted iterator");
                    ensure!(r.is_ok(), "a sorted iterator is refused: {:?}", r);
                }
            }
        }
        Ok(())
    }
}

fn main() {
    run::<C19>()
}
