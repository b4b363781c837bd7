use oauth::signature_method::SignatureMethod;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::engine::{main as run, Prop, Stats, Tier};
use vh::gen::*;
use vh::{ensure, ensure_eq, keys, rfc};

struct C05;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    c: SignCase,
    /// 0 HMAC-SHA1, 1 PLAINTEXT, 2 RSA-SHA1
    method: u8,
}

/// The signed form and the signed query.
fn sign<SM: SignatureMethod + Clone>(c: &SignCase, sm: SM) -> (String, String) {
    let b = c.builder(sm);
    (
        b.to_form(&c.method, &c.uri, &c.req.build()),
        b.to_query(&c.method, c.uri.s.clone(), &c.req.build()),
    )
}

impl Prop for C05 {
    const ID: &'static str = "C05";
    const RULE: &'static str = "Random request signed into a form and into a query with HMAC-SHA1, PLAINTEXT or RSA-SHA1; the \
        string alone is decoded, compared as a multiset with request + protocol parameters, and verified by the RFC 5849 server; \
        non-trivial = the request has parameters.";
    type Case = Case;
    const CASES: u32 = 110_000;

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        (
            sign_case(),
            prop_oneof![20 => Just(0u8), 6 => Just(1u8), 1 => Just(2u8)],
        )
            .prop_map(|(c, method)| Case { c, method })
            .boxed()
    }

    fn fixed(_: Tier) -> Vec<Case> {
        let mut v = Vec::new();
        let base = |ps: Vec<Param>, kind| Case {
            method: 0,
            c: SignCase {
                method: "POST".into(),
                uri: Val::new("https://example.com/a"),
                client: ("ck".into(), "c&s".into()),
                token: Some(("tk".into(), "t=s".into())),
                opts: Opts {
                    callback: Some("oob".into()),
                    verifier: None,
                    nonce: Some("n".into()),
                    timestamp: Some(1),
                    version: true,
                },
                req: ReqSpec { kind, params: ps },
            },
        };
        for kind in KINDS {
            for m in 0..3 {
                for t in TOKENS {
                    let mut p = vec![Param::new("a", t), Param::new("oauth_n", t), Param::new("z", t)];
                    p[1].e = true;
                    let mut c = base(p, kind);
                    c.method = m;
                    v.push(c);
                }
                let mut c = base(vec![], kind);
                c.method = m;
                v.push(c);
            }
        }
        v
    }

    fn check(case: &Case, st: &mut Stats) -> Result<(), String> {
        let c = &case.c;
        let key = keys::small();
        let (name, (form, query)) = match case.method {
            0 => ("HMAC-SHA1", sign(c, oauth::HMAC_SHA1)),
            1 => ("PLAINTEXT", sign(c, oauth::PLAINTEXT)),
            _ => ("RSA-SHA1", sign(c, &key.k06)),
        };
        let q = query
            .strip_prefix(&*c.uri.s)
            .and_then(|q| q.strip_prefix('?'))
            .ok_or_else(|| format!("query {:?} is not {:?} + '?' + …", query, c.uri.s))?;
        for (carrier, s) in [("form", &*form), ("query", q)] {
            for (k, v) in rfc::split_form(s)? {
                ensure!(
                    rfc::is_canonical(&k) && rfc::is_canonical(&v),
                    "{}: pair {:?}={:?} is not URI-safe",
                    carrier,
                    k,
                    v
                );
            }
            let all = rfc::parse_form(s)?;
            let view = rfc::ServerView::new(all.clone()).map_err(|e| format!("{} {:?}: {}", carrier, s, e))?;
            let get = |k: &str| {
                all.iter()
                    .find(|p| p.0 == k)
                    .map(|p| p.1.clone())
                    .ok_or_else(|| format!("{} {:?}: no {}", carrier, s, k))
            };
            let nonce = match c.opts.nonce {
                Some(ref n) => n.clone(),
                None => get("oauth_nonce")?,
            };
            let timestamp = match c.opts.timestamp {
                Some(t) => t,
                None => get("oauth_timestamp")?
                    .parse()
                    .map_err(|e| format!("timestamp: {}", e))?,
            };
            let mut expected = c.protocol_with(name, Some(&nonce), Some(timestamp));
            expected.extend(c.req.params.iter().map(|p| (p.k.clone(), p.v.s.clone())));
            expected.sort();
            let mut got = view.params.clone();
            got.sort();
            ensure_eq!(got, expected, "parameters carried by the {} {:?}", carrier, s);
            if case.method == 2 {
                key.verify(
                    &rfc::unbase64(&view.signature)?,
                    view.base_string(&c.method, &c.uri.s).as_bytes(),
                )
                .map_err(|e| format!("{} {:?}: {}", carrier, s, e))?;
            } else {
                view.verify(&c.method, &c.uri.s, &c.client.1, c.token_secret())
                    .map_err(|e| format!("{} {:?}: {}", carrier, s, e))?;
            }
        }
        if !c.req.params.is_empty() {
            st.nontrivial();
        }
        st.label(name);
        st.label_if(
            c.req.kind == Kind::Custom && c.req.params.iter().any(|p| p.e),
            "already encoded parameter",
        );
        st.label_if(c.opts.nonce.is_none(), "automatic nonce");
        st.label_if(
            c.req.params.iter().any(|p| &*p.k > "oauth_version"),
            "name after protocol parameters",
        );
        Ok(())
    }
}

fn main() {
    run::<C05>()
}
