use proptest::prelude::*;
use vh::engine::{main as run, Prop, Stats, Tier};
use vh::gen::*;
use vh::{ensure, rfc};

struct C01;

fn base_case() -> SignCase {
    SignCase {
        method: "GET".into(),
        uri: Val::new("https://example.com/"),
        client: ("ck".into(), "cs".into()),
        token: Some(("tk".into(), "ts".into())),
        opts: Opts {
            callback: None,
            verifier: None,
            nonce: Some("n".into()),
            timestamp: Some(1),
            version: false,
        },
        req: ReqSpec {
            kind: Kind::List,
            params: vec![],
        },
    }
}

impl Prop for C01 {
    const ID: &'static str = "C01";
    const RULE: &'static str = "Random method, URI, credentials, options and request (8 ways of building one) signed into an \
        Authorization header with HMAC-SHA1, plus systematic sweeps over secret lengths, code points, value lengths, value pairs \
        and method characters; non-trivial = the request has parameters and the header's signature was recomputed by the \
        independent RFC 5849 server from the header's own protocol parameters.";
    type Case = SignCase;
    const CASES: u32 = 160_000;

    fn strategy(_: Tier) -> BoxedStrategy<SignCase> {
        sign_case()
    }

    fn fixed(_: Tier) -> Vec<SignCase> {
        let mut v = Vec::new();
        // Secret lengths around the HMAC block and digest sizes, in several alphabets.
        for n in (0..=70).chain(120..=135) {
            for (i, t) in ["k", "é", "%", "&", "日"].iter().enumerate() {
                let mut c = base_case();
                c.client.1 = t.repeat(n);
                match i % 3 {
                    0 => c.token = None,
                    1 => c.token.as_mut().unwrap().1 = String::new(),
                    _ => {}
                }
                c.req.params = vec![Param::new("a", "1")];
                v.push(c.clone());
                let mut d = base_case();
                d.token.as_mut().unwrap().1 = t.repeat(n);
                d.req.params = vec![Param::new("z", "1")];
                v.push(d);
            }
        }
        // Every ASCII character, and the first and last characters of each UTF-8 length, in every
        // text position of a request.
        let edges = [
            0x80, 0xff, 0x7ff, 0x800, 0xfff, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x3ffff, 0x10ffff,
        ];
        for cp in (0..0x80).chain(edges) {
            let ch = char::from_u32(cp).unwrap().to_string();
            for wrap in 0..2 {
                let t = if wrap == 0 { ch.clone() } else { format!("x{}y", ch) };
                let mut c = base_case();
                c.client = (t.clone(), t.clone());
                c.token = Some((t.clone(), t.clone()));
                c.opts.callback = Some(t.clone());
                c.opts.verifier = Some(t.clone());
                c.opts.nonce = Some(t.clone());
                c.uri = Val::new(t.replace(['?', '#'], "/"));
                c.req.params = vec![Param::new("a", &t), Param::new("z", &t)];
                v.push(c);
            }
        }
        // Pairs of values of one name: the order is that of the encoded values.
        let vals = [
            "", "-", "~", ".", "_", "%", "%2", "%25", ":", "0", "9", "A", "Z", "a", "z", " ", "+",
            "!", "é", "ÿ", "日", "🦀", "\0", "\u{7f}", "a-", "a:", "aé", "a~",
        ];
        for a in vals {
            for b in vals {
                let mut c = base_case();
                c.req.params = vec![Param::new("p", a), Param::new("p", b)];
                v.push(c);
            }
        }
        // Presence of every optional parameter.
        for bits in 0..32u32 {
            let mut c = base_case();
            let on = |i: u32| bits >> i & 1 == 1;
            c.opts.callback = on(0).then(|| "cb".to_string());
            c.opts.verifier = on(1).then(String::new);
            c.opts.version = on(2);
            if on(3) {
                c.token = None;
            }
            if on(4) {
                c.opts.nonce = None;
                c.opts.timestamp = None;
            }
            c.req.params = vec![Param::new("oauth_n", "1"), Param::new("oauth_u", "2")];
            v.push(c);
        }
        for i in 0..64 {
            for t in [u64::MAX >> i, (u64::MAX >> i).wrapping_add(1).max(1)] {
                let mut c = base_case();
                c.opts.timestamp = Some(t);
                c.req.params = vec![Param::new("a", "1")];
                v.push(c);
            }
        }
        for m in STD_METHODS.iter().map(|m| m.to_string()).chain(
            "!#$%&'*+-.^_`|~09AZ"
                .chars()
                .map(|c| format!("M{}M", c)),
        ) {
            let mut c = base_case();
            c.method = m;
            c.req.params = vec![Param::new("a", "1")];
            v.push(c);
        }
        // Lengths of values and lists.
        for n in [1, 63, 64, 65, 127, 128, 511, 512, 513, 1023, 1024, 4096, 70_000] {
            for t in ["a", " ", "é"] {
                let mut c = base_case();
                c.req.params = vec![Param::new("a", &t.repeat(n)), Param::new("z", "1")];
                v.push(c);
            }
        }
        for n in [19, 20, 21, 22, 50, 51, 300] {
            let mut c = base_case();
            c.req.params = (0..n)
                .map(|i| Param::new(["a", "oauth_p", "z"][i % 3], &format!("{}", i * 7919 % n)))
                .collect();
            v.push(c);
        }
        v
    }

    fn check(c: &SignCase, st: &mut Stats) -> Result<(), String> {
        let b = c.builder(oauth::HMAC_SHA1);
        let header = b.authorize(&c.method, &c.uri, &c.req.build());
        let protocol: Vec<(String, String)> = rfc::parse_header(&header)?
            .into_iter()
            .map(|(k, v)| Ok((k, rfc::dec(&v)?)))
            .collect::<Result<_, String>>()?;
        for (k, _) in &protocol {
            ensure!(
                is_protocol_name(k),
                "unexpected name {:?} in {:?}",
                k,
                header
            );
        }
        let mut all = protocol;
        all.extend(c.req.params.iter().map(|p| (p.k.clone(), p.v.s.clone())));
        let view = rfc::ServerView::new(all)?;
        ensure!(
            view.method_name == "HMAC-SHA1",
            "signature method {:?}",
            view.method_name
        );
        view.verify(&c.method, &c.uri.s, &c.client.1, c.token_secret())
            .map_err(|e| format!("{}\n  header: {}", e, header))?;
        if !c.req.params.is_empty() {
            st.nontrivial();
        }
        let mut ks: Vec<_> = c.req.params.iter().map(|p| &p.k).collect();
        ks.sort();
        st.label_if(ks.windows(2).any(|w| w[0] == w[1]), "repeated name");
        st.label_if(c.token.is_none(), "no token");
        let kl = rfc::signing_key(&c.client.1, c.token_secret()).len();
        st.label(match kl {
            0..=63 => "key < 64",
            64 => "key = 64",
            _ => "key > 64",
        });
        st.label_if(c.opts.nonce.is_none(), "automatic nonce");
        st.label_if(c.req.params.len() > 20, "more than 20 parameters");
        st.label_if(
            c.req
                .params
                .iter()
                .any(|p| &*p.k > "oauth_callback" && &*p.k < "oauth_version"),
            "name between protocol parameters",
        );
        st.label_if(c.req.params.iter().any(|p| !p.v.s.is_ascii()), "non-ASCII value");
        Ok(())
    }
}

fn main() {
    run::<C01>()
}
