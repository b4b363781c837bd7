use either::Either;
use oauth::signature_method::{rsa_sha1_06, rsa_sha1_09, SignatureMethod};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::engine::{main as run, Prop, Stats, Tier};
use vh::gen::*;
use vh::{ensure, ensure_eq, keys, rfc};

struct C03;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    c: SignCase,
    key: String,
    /// Other secrets for the same request.
    secrets: (String, Option<String>),
}

/// A 2048-bit signature costs milliseconds: smaller keys are drawn more often.
fn key_name() -> impl Strategy<Value = String> {
    let n = keys::NAMES.len();
    prop_oneof![
        6 => 0usize..7,
        2 => 7..n - 2,
        1 => (n - 2)..n,
    ]
    .prop_map(|i| keys::NAMES[i].to_string())
}

fn signature(pairs: Vec<(String, String)>, what: &str) -> Result<Vec<u8>, String> {
    let s: Vec<_> = pairs.iter().filter(|p| p.0 == "oauth_signature").collect();
    ensure!(s.len() == 1, "{}: {} signatures", what, s.len());
    ensure!(rfc::is_canonical(&s[0].1), "{}: signature {:?} is not percent-encoded", what, s[0].1);
    let m = pairs.iter().find(|p| p.0 == "oauth_signature_method");
    ensure_eq!(m.map(|m| &*m.1), Some("RSA-SHA1"), "{}: signature method", what);
    rfc::unbase64(&rfc::dec(&s[0].1)?)
}

fn header<SM: SignatureMethod>(c: &SignCase, sm: SM, what: &str) -> Result<Vec<u8>, String> {
    let h = c.builder(sm).into_authorization(&c.method, &c.uri, &c.req.build());
    signature(rfc::parse_header(&h)?, what)
}

fn form<SM: SignatureMethod>(c: &SignCase, sm: SM, what: &str) -> Result<Vec<u8>, String> {
    let h = c.builder(sm).into_form(&c.method, &c.uri, &c.req.build());
    signature(rfc::split_form(&h)?, what)
}

fn query<SM: SignatureMethod>(c: &SignCase, sm: SM, what: &str) -> Result<Vec<u8>, String> {
    let h = c.builder(sm).into_query(&c.method, c.uri.s.clone(), &c.req.build());
    let q = h
        .strip_prefix(&*c.uri.s)
        .and_then(|q| q.strip_prefix('?'))
        .ok_or_else(|| format!("query {:?}", h))?;
    signature(rfc::split_form(q)?, what)
}

type Dyn<'a> = Either<oauth::HmacSha1, Either<&'a oauth::RsaSha1, oauth::Rsa09Sha1>>;

impl Prop for C03 {
    const ID: &'static str = "C03";
    const RULE: &'static str = "Random request and one of 20 RSA key pairs (512 to 2048 bits, byte-aligned and not, exponents 3, 17 and \
        65537) signed in every way (rsa 0.6 and 0.9; owned, borrowed, From and AsRef conversions, run-time choice; header, form, \
        query) and once more with other secrets; every signature is verified by modular exponentiation under the public key; \
        non-trivial = the request has parameters.";
    type Case = Case;
    const CASES: u32 = 8_000;

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        (pinned_case(), key_name(), (secret(), proptest::option::of(secret())))
            .prop_map(|(c, key, secrets)| Case { c, key, secrets })
            .boxed()
    }

    fn fixed(_: Tier) -> Vec<Case> {
        let mut v = Vec::new();
        for key in keys::NAMES {
            for i in 0..6 {
                v.push(Case {
                    key: key.to_string(),
                    secrets: (String::new(), Some("x".into())),
                    c: SignCase {
                        method: "GET".into(),
                        uri: Val::new("http://photos.example.net/photos"),
                        client: ("dpf43f3p2l4k3l03".into(), "s".into()),
                        token: (i % 2 == 0).then(|| ("t".into(), "u".into())),
                        opts: Opts {
                            callback: None,
                            verifier: None,
                            nonce: Some(format!("n{}", i)),
                            timestamp: Some(1196666512 + i),
                            version: true,
                        },
                        req: ReqSpec {
                            kind: Kind::List,
                            params: vec![Param::new("file", "vacaction.jpg"), Param::new("size", "é")],
                        },
                    },
                });
            }
        }
        v
    }

    fn check(case: &Case, st: &mut Stats) -> Result<(), String> {
        let c = &case.c;
        let key = keys::all()
            .iter()
            .find(|k| k.name == case.key)
            .ok_or("no such key")?;
        let base = c.base_string("RSA-SHA1");
        let first = header(c, &key.k06, "rsa 0.6, borrowed, header")?;
        key.verify(&first, base.as_bytes())
            .map_err(|e| format!("{}\n  base string: {:?}", e, base))?;
        let as06: &oauth::RsaSha1 = key.p06.as_ref();
        let as09: &oauth::Rsa09Sha1 = key.p09.as_ref();
        let d06: Dyn<'_> = Either::Right(Either::Left(&key.k06));
        let d09: Dyn<'_> = Either::Right(Either::Right(key.k09.clone()));
        let mut other = c.clone();
        other.client.1 = case.secrets.0.clone();
        match (&mut other.token, &case.secrets.1) {
            (Some(t), Some(s)) => t.1 = s.clone(),
            (Some(t), None) => t.1.clear(),
            (None, _) => {}
        }
        // The bigger keys take their turns only.
        let pick = base.len() as u64;
        let ways: Vec<(&str, Box<dyn Fn(&str) -> Result<Vec<u8>, String> + '_>)> = vec![
            ("rsa 0.6, owned, form", Box::new(|w| form(c, key.k06.clone(), w))),
            ("rsa 0.9, borrowed, header", Box::new(|w| header(c, &key.k09, w))),
            ("rsa 0.9, owned, query", Box::new(|w| query(c, key.k09.clone(), w))),
            ("rsa 0.6, AsRef, query", Box::new(|w| query(c, as06, w))),
            ("rsa 0.9, AsRef, form", Box::new(|w| form(c, as09, w))),
            (
                "rsa 0.6, From, header",
                Box::new(|w| header(c, rsa_sha1_06::RsaSha1::from(key.p06.clone()), w)),
            ),
            (
                "rsa 0.9, From, header",
                Box::new(|w| header(c, rsa_sha1_09::RsaSha1::from(key.p09.clone()), w)),
            ),
            ("rsa 0.6, chosen at run time, header", Box::new(move |w| header(c, d06.clone(), w))),
            ("rsa 0.9, chosen at run time, header", Box::new(move |w| header(c, d09.clone(), w))),
            ("rsa 0.6, other secrets, header", Box::new(|w| header(&other, &key.k06, w))),
            ("rsa 0.9, other secrets, header", Box::new(|w| header(&other, &key.k09, w))),
        ];
        for (i, (what, f)) in ways.iter().enumerate() {
            if key.bits > 768 && (i as u64 + pick) % 4 != 0 {
                continue;
            }
            let sig = f(what)?;
            ensure_eq!(sig, first, "{} differs from rsa 0.6, borrowed, header", what);
        }
        if !c.req.params.is_empty() {
            st.nontrivial();
        }
        st.label(match key.bits {
            0..=768 => "512..=768 bits",
            769..=1033 => "1016..=1033 bits",
            _ => "2048 bits",
        });
        st.label_if(first[0] == 0, "leading zero byte");
        st.label_if(c.token.is_none(), "no token");
        Ok(())
    }
}

fn main() {
    run::<C03>()
}
