use std::fmt::{self, Display, Formatter, Write};

use oauth::serializer::{Serializer, Urlencoder};
use oauth::Request;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::engine::{main as run, Prop, Stats, Tier};
use vh::gen::*;
use vh::{ensure, ensure_eq, rfc};

struct C06;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    uri: String,
    req: ReqSpec,
    /// What a caller-supplied buffer already holds.
    before: String,
    /// A request written by hand: (name, text, given as already encoded). Sorted by `fix`.
    raw: Vec<(String, Val, bool)>,
}

/// A buffer that is not a `String`.
struct Pieces(Vec<String>);
impl Write for Pieces {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.push(s.to_string());
        Ok(())
    }
}
impl Display for Pieces {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        self.0.iter().try_for_each(|s| f.write_str(s))
    }
}

/// Feeds texts, some of which are given as already encoded, whatever they are.
struct Raw<'a>(&'a [(String, Val, bool)]);
impl Request for Raw<'_> {
    fn serialize<S: Serializer>(&self, mut s: S) -> S::Output {
        let mut hook = 0;
        for (k, v, e) in self.0 {
            while hook < 8 && PROTOCOL[hook] < &**k {
                call_hook(&mut s, hook);
                hook += 1;
            }
            if *e {
                s.serialize_parameter_encoded(k, v);
            } else {
                s.serialize_parameter(k, v);
            }
        }
        (hook..8).for_each(|h| call_hook(&mut s, h));
        s.end()
    }
}

fn strip<'a>(s: &'a str, uri: &str, empty: bool) -> Result<&'a str, String> {
    let rest = s
        .strip_prefix(uri)
        .ok_or_else(|| format!("query {:?} does not start with the URI {:?}", s, uri))?;
    if empty {
        ensure!(rest.is_empty(), "query {:?} of a request without parameters", s);
        return Ok("");
    }
    rest.strip_prefix('?')
        .ok_or_else(|| format!("query {:?} lacks the question mark after {:?}", s, uri))
}

impl Prop for C06 {
    const ID: &'static str = "C06";
    const RULE: &'static str = "Random request (8 ways of building one) and random hand-written request mixing plain values with \
        texts given as already encoded, encoded without signing into a form and a query through every unsigned entry point; \
        non-trivial = at least one value needs percent-encoding.";
    type Case = Case;
    const CASES: u32 = 100_000;

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        (
            uri(),
            req(),
            short_text(),
            proptest::collection::vec((key(), val_of(short_text()), any::<bool>()), 0..5),
        )
            .prop_map(|(uri, req, before, mut raw)| {
                raw.sort_by(|a, b| a.0.cmp(&b.0));
                Case {
                    uri: uri.s,
                    req,
                    before,
                    raw,
                }
            })
            .boxed()
    }

    fn fixed(_: Tier) -> Vec<Case> {
        let mut v = Vec::new();
        for kind in KINDS {
            v.push(Case {
                uri: "http://e/".into(),
                req: ReqSpec { kind, params: vec![] },
                before: "x".into(),
                raw: vec![],
            });
            for t in TOKENS {
                v.push(Case {
                    uri: "http://e/".into(),
                    req: ReqSpec {
                        kind,
                        params: vec![
                            Param::new("a", t),
                            Param { e: true, ..Param::new("b", t) },
                            Param::new("oauth_n", t),
                            Param::new("z", t),
                        ],
                    },
                    before: t.to_string(),
                    raw: vec![
                        ("a".into(), Val::new(*t), true),
                        ("b".into(), Val::new(*t), false),
                        ("oauth_nonce_".into(), Val::new(*t), true),
                        ("z".into(), Val::new(""), true),
                    ],
                });
            }
        }
        v
    }

    fn check(c: &Case, st: &mut Stats) -> Result<(), String> {
        let r = c.req.build();
        let expected = c.req.expected();
        let form = oauth::to_form(&r);
        for (k, v) in rfc::split_form(&form)? {
            ensure!(
                rfc::is_canonical(&k) && rfc::is_canonical(&v),
                "pair {:?}={:?} of the form {:?} is not URI-safe",
                k,
                v,
                form
            );
        }
        ensure_eq!(rfc::parse_form(&form)?, expected, "decoded form {:?}", form);
        let empty = expected.is_empty();
        let query = oauth::to_query(c.uri.clone(), &c.req.build());
        ensure_eq!(strip(&query, &c.uri, empty)?, form, "query against form");

        let low = c.req.build().serialize(Urlencoder::form());
        ensure_eq!(low, form, "Urlencoder::form against to_form");
        let low = (&&r).serialize(Urlencoder::query(c.uri.clone()));
        ensure_eq!(low, query, "Urlencoder::query against to_query");
        let buf = r.serialize(Urlencoder::form_with_buf(c.before.clone()));
        ensure_eq!(buf, format!("{}{}", c.before, form), "form appended to a buffer");
        let buf = r.serialize(Urlencoder::form_with_buf(Pieces(vec![c.before.clone()])));
        ensure_eq!(
            buf.to_string(),
            format!("{}{}", c.before, form),
            "form appended to a buffer of another type"
        );
        let buf = r.serialize(Urlencoder::query(Pieces(vec![c.uri.clone()])));
        ensure_eq!(buf.to_string(), query, "query in a buffer of another type");

        // Already encoded texts are copied as they are.
        let verbatim = c
            .raw
            .iter()
            .map(|(k, v, e)| format!("{}={}", k, if *e { v.s.clone() } else { rfc::enc(&v.s) }))
            .collect::<Vec<_>>()
            .join("&");
        ensure_eq!(oauth::to_form(&Raw(&c.raw)), verbatim, "form with encoded texts");
        let q = oauth::to_query(c.uri.clone(), &Raw(&c.raw));
        ensure_eq!(strip(&q, &c.uri, c.raw.is_empty())?, verbatim, "query with encoded texts");

        if expected.iter().any(|(_, v)| rfc::enc(v) != *v) {
            st.nontrivial();
        }
        st.label_if(empty, "no parameters");
        st.label_if(expected.iter().any(|(_, v)| v.is_empty()), "empty value");
        st.label_if(expected.iter().any(|(_, v)| !v.is_ascii()), "non-ASCII value");
        st.label_if(c.raw.iter().any(|r| r.2), "already encoded text");
        st.label_if(
            expected.iter().any(|(k, _)| k.starts_with("oauth_")),
            "name starting with oauth_",
        );
        Ok(())
    }
}

fn main() {
    run::<C06>()
}
