use std::fmt::Display;
use std::sync::Barrier;

use oauth::serializer::auth::Authorizer;
use oauth::serializer::{Serializer, SerializerExt, Urlencoder};
use oauth::signature_method::{Sign, SignatureMethod};
use oauth::Builder;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::engine::{main as run, Prop, Stats, Tier};
use vh::gen::*;
use vh::share::Share;
use vh::{ensure, ensure_eq, keys, rfc, shared as may_be_shared};

struct C23;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Call {
    Plain(String, Val),
    Encoded(String, Val),
    Hook(u8),
    Hooks,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    /// Feeds the copy its next call, after skipping some.
    Feed { copy: u8, skip: u8 },
    Clone { copy: u8 },
    /// Clones into an existing copy, replacing it.
    CloneFrom { copy: u8, into: u8 },
    Finish { copy: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Case {
    Copies { c: Box<SignCase>, sm: u8, carrier: u8, calls: Vec<Call>, steps: Vec<Step> },
    /// One builder, several threads, several requests each.
    /// With `auto`, the nonce and the timestamp are left to the library.
    Threads { c: Box<SignCase>, sm: u8, reqs: Vec<(ReqSpec, Val, u8)>, threads: u8, rounds: u8, auto: bool },
}

/// A signature method whose signature is the base string it was fed.
#[derive(Clone, Debug)]
struct Echo;
#[derive(Clone, Debug)]
struct EchoSign(String);
impl SignatureMethod for Echo {
    type Sign = EchoSign;
    fn sign_with(self, c: &str, t: Option<&str>) -> EchoSign {
        EchoSign(format!("{:?}", (c, t)))
    }
}
impl Sign for EchoSign {
    type Signature = String;
    fn get_signature_method_name(&self) -> &'static str {
        "ECHO"
    }
    fn request_method(&mut self, m: &str) {
        self.0 += m;
    }
    fn uri<T: Display>(&mut self, u: T) {
        self.0 += &format!("&{}&", u);
    }
    fn parameter<V: Display>(&mut self, k: &str, v: V) {
        self.0 += &format!("{}%3D{}", k, v);
    }
    fn delimiter(&mut self) {
        self.0 += "%26";
    }
    fn end(self) -> String {
        rfc::enc(&self.0)
    }
}

fn feed<S: Serializer>(s: &mut S, call: &Call) {
    match call {
        Call::Plain(k, v) => s.serialize_parameter(k, v),
        Call::Encoded(k, v) => s.serialize_parameter_encoded(k, v),
        Call::Hook(h) => call_hook(s, *h as usize % 8),
        Call::Hooks => s.serialize_oauth_parameters(),
    }
}

/// Takes copies of serializers through the steps, and compares each with one fed its calls alone.
fn copies<S: Serializer<Output = String> + Clone>(
    make: impl Fn() -> S,
    calls: &[Call],
    steps: &[Step],
    st: &mut Stats,
) -> Result<(), String> {
    // A copy, the calls it was fed, and where it is in the list of calls.
    let mut pool: Vec<Option<(S, Vec<usize>, usize)>> = vec![Some((make(), vec![], 0))];
    let mut clones = 0;
    let finish = |(s, fed, _): (S, Vec<usize>, usize)| -> Result<(), String> {
        let mut alone = make();
        fed.iter().for_each(|&i| feed(&mut alone, &calls[i]));
        let fed: Vec<_> = fed.iter().map(|&i| &calls[i]).collect();
        ensure_eq!(s.end(), alone.end(), "a copy against a serializer fed the same calls alone: {:?}", fed);
        Ok(())
    };
    for step in steps {
        let n = pool.len();
        match step {
            Step::Feed { copy, skip } => {
                if let Some((s, fed, at)) = &mut pool[*copy as usize % n] {
                    let i = *at + *skip as usize % 3;
                    if i < calls.len() {
                        feed(s, &calls[i]);
                        fed.push(i);
                        *at = i + 1;
                    }
                }
            }
            Step::Clone { copy } => {
                let p = &pool[*copy as usize % n];
                if p.is_some() {
                    clones += 1;
                    let p = p.clone();
                    pool.push(p);
                }
            }
            Step::CloneFrom { copy, into } => {
                let (a, b) = (*copy as usize % n, *into as usize % n);
                if a != b {
                    if let (Some(from), Some(_)) = (pool[a].clone(), &pool[b]) {
                        clones += 1;
                        let to = pool[b].as_mut().unwrap();
                        to.0.clone_from(&pool_ref(&from));
                        to.1 = from.1;
                        to.2 = from.2;
                    }
                }
            }
            Step::Finish { copy } => {
                if let Some(p) = pool[*copy as usize % n].take() {
                    finish(p)?;
                }
            }
        }
    }
    for p in pool.into_iter().flatten() {
        finish(p)?;
    }
    if clones > 0 {
        st.nontrivial();
        st.label("cloned");
    }
    Ok(())
}

fn pool_ref<S: Clone>(p: &(S, Vec<usize>, usize)) -> S {
    p.0.clone()
}

fn signers<SM: SignatureMethod + Clone>(
    c: &SignCase,
    sm: SM,
    carrier: u8,
    calls: &[Call],
    steps: &[Step],
    st: &mut Stats,
) -> Result<(), String>
where
    SM::Sign: Clone,
{
    let o = &c.opts.auth();
    let m = &*c.method;
    match carrier % 3 {
        0 => copies(|| Authorizer::authorization(m, &c.uri, c.client(), c.token(), o, sm.clone()), calls, steps, st),
        1 => copies(|| Authorizer::form(m, &c.uri, c.client(), c.token(), o, sm.clone()), calls, steps, st),
        _ => copies(|| Authorizer::query(m, c.uri.s.clone(), c.client(), c.token(), o, sm.clone()), calls, steps, st),
    }
}

fn one<SM: SignatureMethod + Clone>(b: &Builder<'_, SM, &str, &str>, m: &str, r: &(ReqSpec, Val, u8)) -> String {
    let req = r.0.build();
    match r.2 % 3 {
        0 => b.authorize(m, &r.1, &req),
        1 => b.to_form(m, &r.1, &req),
        _ => b.to_query(m, r.1.s.clone(), &req),
    }
}

/// The value of a protocol parameter in an output; the requests' own names never hold `"`.
fn read(out: &str, uri: &str, carrier: u8, k: &str) -> Result<String, String> {
    let pairs = match carrier % 3 {
        0 => rfc::parse_header(out)?,
        1 => rfc::split_form(out)?,
        _ => rfc::split_form(out.strip_prefix(uri).and_then(|q| q.strip_prefix('?')).ok_or("no query")?)?,
    };
    let v = pairs.iter().find(|p| p.0 == k).ok_or_else(|| format!("no {} in {:?}", k, out))?;
    rfc::dec(&v.1)
}

fn shared_auto<SM>(c: &SignCase, sm: SM, reqs: &[(ReqSpec, Val, u8)], threads: u8, rounds: u8) -> Result<(), String>
where
    SM: SignatureMethod + Clone,
{
    let mut c = c.clone();
    c.opts.nonce = None;
    c.opts.timestamp = None;
    let c = &c;
    let m = &*c.method;
    let b = c.builder(sm.clone());
    let b = Share::new(&b);
    let gate = &Barrier::new(threads.into());
    let outs: Vec<Vec<(usize, String)>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..usize::from(threads))
            .map(|t| {
                s.spawn(move || {
                    gate.wait();
                    (0..usize::from(rounds) * reqs.len())
                        .map(|i| {
                            let i = (i + t) % reqs.len();
                            (i, one(b.get(), m, &reqs[i]))
                        })
                        .collect()
                })
            })
            .collect();
        hs.into_iter()
            .map(|h| h.join().map_err(|_| "a thread sharing the builder panicked".to_string()))
            .collect::<Result<_, _>>()
    })?;
    let mut nonces = std::collections::HashSet::new();
    for (i, out) in outs.iter().flatten() {
        let (_, uri, carrier) = &reqs[*i];
        let nonce = read(out, &uri.s, *carrier, "oauth_nonce")?;
        let t = read(out, &uri.s, *carrier, "oauth_timestamp")?;
        let mut alone = c.clone();
        alone.opts.timestamp = Some(t.parse().map_err(|_| format!("timestamp {:?}", t))?);
        alone.opts.nonce = Some(nonce.clone());
        ensure_eq!(*out, one(&alone.builder(sm.clone()), m, &reqs[*i]), "request {} from a shared builder", i);
        ensure!(nonces.insert(nonce), "one nonce in two results of a shared builder: {:?}", out);
    }
    Ok(())
}

fn shared<SM>(c: &SignCase, sm: SM, reqs: &[(ReqSpec, Val, u8)], threads: u8, rounds: u8) -> Result<(), String>
where
    SM: SignatureMethod + Clone,
{
    let m = &*c.method;
    // Alone: a builder per request.
    let want: Vec<String> = reqs.iter().map(|r| one(&c.builder(sm.clone()), m, r)).collect();
    let b = c.builder(sm);
    let b = Share::new(&b);
    let gate = &Barrier::new(threads.into());
    let want = &want;
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..usize::from(threads))
            .map(|t| {
                s.spawn(move || -> Result<(), String> {
                    gate.wait();
                    for round in 0..usize::from(rounds) {
                        for i in 0..reqs.len() {
                            let i = (i + t + round) % reqs.len();
                            ensure_eq!(one(b.get(), m, &reqs[i]), want[i], "thread {}, request {}", t, i);
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().try_for_each(|h| h.join().map_err(|_| "a thread sharing the builder panicked".to_string())?)
    })
}

/// What is shared, or moved, below must be `Send` and `Sync`.
fn may_share() -> Result<(), String> {
    type B<'a, SM> = Builder<'a, SM, &'a str, &'a str>;
    let all = [
        ("Builder with HMAC-SHA1", may_be_shared!(B<'static, oauth::HmacSha1>)),
        ("Builder with PLAINTEXT", may_be_shared!(B<'static, oauth::Plaintext>)),
        ("Builder with RSA-SHA1", may_be_shared!(B<'static, oauth::RsaSha1>)),
        ("Builder with RSA-SHA1", may_be_shared!(B<'static, &'static oauth::Rsa09Sha1>)),
        ("Builder with owned credentials", may_be_shared!(Builder<'static, oauth::HmacSha1, String, Box<str>>)),
        ("ParameterList", may_be_shared!(oauth::ParameterList<String, String>)),
        ("Token", may_be_shared!(oauth::Token<String, String>)),
    ];
    for (what, allowed) in all {
        ensure!(allowed, "{} cannot be shared by threads", what);
    }
    Ok(())
}

impl Prop for C23 {
    const ID: &'static str = "C23";
    const RULE: &'static str = "Random pools of signers (HMAC-SHA1, PLAINTEXT, both RSA backends, user-defined; header, form, query) and \
        encoders that are fed, cloned part-way, overwritten by clone_from and finished in any order, each compared with a fresh one \
        fed the same calls; one builder shared by 2 to 6 threads that sign different requests at once, compared with a builder per \
        request (with nonces and timestamps set or left to the library); non-trivial = something was cloned or shared.";
    type Case = Case;
    const CASES: u32 = 60_000;

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let call = prop_oneof![
            5 => (key(), val_of(text())).prop_map(|(k, v)| Call::Plain(k, v)),
            2 => (key(), val_of(text())).prop_map(|(k, v)| Call::Encoded(k, Val { s: rfc::enc(&v.s), ..v })),
            4 => (0u8..8).prop_map(Call::Hook),
            1 => Just(Call::Hooks),
        ];
        let calls = vec(call, 0..12).prop_map(|mut v| {
            let first = |c: &Call| match c {
                Call::Plain(k, _) | Call::Encoded(k, _) => k.clone(),
                Call::Hook(h) => PROTOCOL[*h as usize].to_string(),
                Call::Hooks => PROTOCOL[0].to_string(),
            };
            v.sort_by_key(first);
            // Nothing between the hooks when all are called at once.
            if let Some(i) = v.iter().position(|c| *c == Call::Hooks) {
                let at = v[i].clone();
                v.retain(|c| match c {
                    Call::Hook(_) | Call::Hooks => false,
                    c => first(c).as_str() < PROTOCOL[0] || first(c).as_str() > PROTOCOL[7],
                });
                let i = v.iter().position(|c| first(c).as_str() > PROTOCOL[7]).unwrap_or(v.len());
                v.insert(i, at);
            }
            v
        });
        let step = prop_oneof![
            6 => (any::<u8>(), prop_oneof![5 => Just(0u8), 1 => 1u8..3]).prop_map(|(copy, skip)| Step::Feed { copy, skip }),
            2 => any::<u8>().prop_map(|copy| Step::Clone { copy }),
            1 => (any::<u8>(), any::<u8>()).prop_map(|(copy, into)| Step::CloneFrom { copy, into }),
            1 => any::<u8>().prop_map(|copy| Step::Finish { copy }),
        ];
        prop_oneof![
            30 => (pinned_case(), 0u8..16, 0u8..3, calls, vec(step, 1..40)).prop_map(|(mut c, sm, carrier, calls, steps)| {
                c.req.params.clear();
                Case::Copies { c: Box::new(c), sm, carrier, calls, steps }
            }),
            1 => (pinned_case(), 0u8..16, vec((req(), uri(), 0u8..3), 1..6), 2u8..7, 1u8..12, any::<bool>())
                .prop_map(|(mut c, sm, reqs, threads, rounds, auto)| {
                    c.req.params.clear();
                    Case::Threads { c: Box::new(c), sm, reqs, threads, rounds, auto }
                }),
        ]
        .boxed()
    }

    fn check(case: &Case, st: &mut Stats) -> Result<(), String> {
        match case {
            Case::Copies { c, sm, carrier, calls, steps } => match sm % 16 {
                0..=6 => signers(c, oauth::HMAC_SHA1, *carrier, calls, steps, st),
                7 => signers(c, oauth::PLAINTEXT, *carrier, calls, steps, st),
                8 => signers(c, &keys::small().k06, *carrier, calls, steps, st),
                9 => signers(c, keys::small().k09.clone(), *carrier, calls, steps, st),
                10..=13 => signers(c, Echo, *carrier, calls, steps, st),
                14 => copies(Urlencoder::form, calls, steps, st),
                _ => copies(|| Urlencoder::query(c.uri.s.clone()), calls, steps, st),
            },
            Case::Threads { c, sm, reqs, threads, rounds, auto } => {
                st.nontrivial();
                st.label("shared by threads");
                may_share()?;
                st.label_if(*auto, "automatic nonces");
                if *auto {
                    return match sm % 16 {
                        0..=9 => shared_auto(c, oauth::HMAC_SHA1, reqs, *threads, *rounds),
                        10..=11 => shared_auto(c, keys::small().k09.clone(), reqs, *threads, 1),
                        _ => shared_auto(c, Echo, reqs, *threads, *rounds),
                    };
                }
                match sm % 16 {
                    0..=7 => shared(c, oauth::HMAC_SHA1, reqs, *threads, *rounds),
                    8..=9 => shared(c, oauth::PLAINTEXT, reqs, *threads, *rounds),
                    10 => shared(c, &keys::small().k06, reqs, *threads, 1),
                    11 => shared(c, keys::small().k09.clone(), reqs, *threads, 1),
                    _ => shared(c, Echo, reqs, *threads, *rounds),
                }
            }
        }
    }
}

fn main() {
    run::<C23>()
}
