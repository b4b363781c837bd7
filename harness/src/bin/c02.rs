use std::fmt::{self, Display, Formatter, Write};

use oauth::signature_method::Plaintext;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::engine::{main as run, Prop, Stats, Tier};
use vh::gen::*;
use vh::{ensure, ensure_eq, rfc};

struct C02;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    a: SignCase,
    /// Another request signed with the same two secrets.
    b: SignCase,
}

/// A caller-supplied signature buffer that is not a `String`.
#[derive(Clone, Default, Debug)]
struct Chars(Vec<char>);
impl Write for Chars {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.extend(s.chars());
        Ok(())
    }
}
impl Display for Chars {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        self.0.iter().try_for_each(|c| f.write_char(*c))
    }
}

fn raw_sig(pairs: &[(String, String)], what: &str) -> Result<String, String> {
    let s: Vec<_> = pairs.iter().filter(|p| p.0 == "oauth_signature").collect();
    ensure!(
        s.len() == 1,
        "{}: {} oauth_signature parameters in {:?}",
        what,
        s.len(),
        pairs
    );
    Ok(s[0].1.clone())
}

/// Signatures (raw) found in the header, the form and the query.
fn sigs<W: Default + Display + Write + 'static>(
    c: &SignCase,
    sm: Plaintext<W>,
) -> Result<[String; 3], String> {
    let b = c.builder(sm);
    let r = c.req.build();
    let header = b.authorize(&c.method, &c.uri, &r);
    let h = rfc::parse_header(&header)?;
    let n = c.protocol("PLAINTEXT").len();
    ensure_eq!(h.len(), n + 1, "number of header items in {:?}", header);
    let form = b.to_form(&c.method, &c.uri, &c.req.build());
    let f = rfc::split_form(&form)?;
    ensure_eq!(
        f.len(),
        n + 1 + c.req.params.len(),
        "number of pairs in the form {:?}",
        form
    );
    let query = b.to_query(&c.method, c.uri.s.clone(), &c.req.build());
    let q = query
        .strip_prefix(&*c.uri.s)
        .and_then(|q| q.strip_prefix('?'))
        .ok_or_else(|| format!("query {:?} does not extend {:?}", query, c.uri.s))?;
    let q = rfc::split_form(q)?;
    ensure_eq!(
        q.len(),
        n + 1 + c.req.params.len(),
        "number of pairs in the query {:?}",
        query
    );
    Ok([raw_sig(&h, "header")?, raw_sig(&f, "form")?, raw_sig(&q, "query")?])
}

impl Prop for C02 {
    const ID: &'static str = "C02";
    const RULE: &'static str = "Two random requests sharing the client and token secrets, signed with PLAINTEXT (String and \
        caller-defined signature buffers) into header, form and query; non-trivial = a secret contains a character that needs \
        percent-encoding, or is empty.";
    type Case = Case;
    const CASES: u32 = 30_000;

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        (pinned_case(), pinned_case())
            .prop_map(|(a, mut b)| {
                b.client.1 = a.client.1.clone();
                b.token = match (&a.token, b.token) {
                    (Some(t), Some(u)) => Some((u.0, t.1.clone())),
                    (Some(t), None) if !t.1.is_empty() => Some(("x".into(), t.1.clone())),
                    (Some(_), None) => None,
                    (None, Some(u)) => Some((u.0, String::new())),
                    (None, None) => None,
                };
                Case { a, b }
            })
            .boxed()
    }

    fn fixed(_: Tier) -> Vec<Case> {
        let mut v = Vec::new();
        let mk = |cs: &str, ts: Option<&str>| {
            let c = |m: &str, p: Vec<Param>| SignCase {
                method: m.into(),
                uri: Val::new("http://e/"),
                client: ("ck".into(), cs.into()),
                token: ts.map(|t| ("tk".into(), t.into())),
                opts: Opts {
                    callback: None,
                    verifier: None,
                    nonce: Some("n".into()),
                    timestamp: Some(1),
                    version: false,
                },
                req: ReqSpec {
                    kind: Kind::List,
                    params: p,
                },
            };
            Case {
                a: c("GET", vec![]),
                b: c("POST", vec![Param::new("a", "&b=c")]),
            }
        };
        for t in TOKENS {
            v.push(mk(t, None));
            v.push(mk(t, Some("")));
            v.push(mk("", Some(t)));
            v.push(mk(t, Some(t)));
        }
        for b in 0..0x80u8 {
            v.push(mk(&(b as char).to_string(), Some(&(b as char).to_string())));
        }
        v
    }

    fn check(c: &Case, st: &mut Stats) -> Result<(), String> {
        let expected = rfc::signing_key(&c.a.client.1, c.a.token_secret());
        for (name, case) in [("first", &c.a), ("second", &c.b)] {
            let std = sigs(case, oauth::PLAINTEXT)?;
            let buf = sigs(case, Plaintext::<Chars>::with_buf())?;
            ensure_eq!(std, buf, "String and custom buffers disagree ({} request)", name);
            for (s, carrier) in std.iter().zip(["header", "form", "query"]) {
                ensure!(
                    rfc::is_canonical(s),
                    "the {}'s signature {:?} is not percent-encoded",
                    carrier,
                    s
                );
                ensure_eq!(
                    rfc::dec(s)?,
                    expected,
                    "decoded PLAINTEXT signature in the {} of the {} request",
                    carrier,
                    name
                );
            }
        }
        let special = |s: &str| s.is_empty() || rfc::enc(s) != s;
        if special(&c.a.client.1) || c.a.token_secret().map_or(true, special) {
            st.nontrivial();
        }
        st.label_if(c.a.token.is_none(), "no token");
        st.label_if(c.a.client.1.contains('&'), "ampersand in secret");
        st.label_if(c.a.client.1.contains('%'), "percent in secret");
        st.label_if(!c.a.client.1.is_ascii(), "non-ASCII secret");
        Ok(())
    }
}

fn main() {
    run::<C02>()
}
