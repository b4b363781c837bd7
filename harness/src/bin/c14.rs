use oauth::serializer::auth::Authorizer;
use oauth::Request;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::engine::{main as run, Prop, Stats, Tier};
use vh::gen::*;
use vh::signs::*;
use vh::{ensure, ensure_eq, rfc};

struct C14;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    c: SignCase,
    /// Which of the recording types.
    ty: u8,
    config: Config,
}

fn go<SM: Recording>(case: &Case) -> Result<(), String> {
    let c = &case.c;
    let cf = &case.config;
    let req = c.req.build();
    let o = c.opts.auth();
    for how in ["header", "form", "query", "consumed header", "low-level form"] {
        let sm = SM::make(cf);
        let log = sm.log().clone();
        let (m, u) = (&*c.method, &c.uri);
        let out = match how {
            "header" => c.builder(sm).authorize(m, u, &req),
            "form" => c.builder(sm).to_form(m, u, &req),
            "query" => c.builder(sm).to_query(m, u.s.clone(), &req),
            "consumed header" => c.builder(sm).into_authorization(m, u, &req),
            _ => req.serialize(Authorizer::form(m, u, c.client(), c.token(), &o, sm)),
        };
        let log = log.borrow();
        ensure_eq!(
            log[0],
            Event::SignWith(c.client.1.clone(), c.token.as_ref().map(|t| t.1.clone())),
            "{}: secrets",
            how
        );
        let base = base_of(&log, cf, SM::OVERRIDDEN).map_err(|e| format!("{}: {}\n{:?}", how, e, log))?;

        // Automatic values are read back from the output.
        let header = how.ends_with("header");
        let items = if header {
            rfc::parse_header(&out)?
        } else if how == "query" {
            let q = out.strip_prefix(&*c.uri.s).and_then(|q| q.strip_prefix('?'));
            rfc::split_form(q.ok_or_else(|| format!("query {:?}", out))?)?
        } else {
            rfc::split_form(&out)?
        };
        let find = |k: &str| items.iter().find(|i| i.0 == k).map(|i| rfc::dec(&i.1)).transpose();
        let nonce = match (cf.use_nonce, &c.opts.nonce) {
            (false, _) => None,
            (true, Some(n)) => Some(n.clone()),
            (true, None) => Some(find("oauth_nonce")?.ok_or("no automatic nonce")?),
        };
        let ts = match (cf.use_timestamp, c.opts.timestamp) {
            (false, _) => None,
            (true, Some(t)) => Some(t),
            (true, None) => {
                let t = find("oauth_timestamp")?.ok_or("no automatic timestamp")?;
                Some(t.parse().map_err(|_| format!("timestamp {:?}", t))?)
            }
        };
        let protocol = c.protocol_with(cf.name(), nonce.as_deref(), ts);
        let mut all = protocol.clone();
        all.extend(c.req.expected());
        ensure_eq!(base, rfc::base_string(m, &c.uri.s, &all), "{}: base string of {:?}", how, log);

        let expected = if header {
            let mut h = String::from("OAuth ");
            for (k, v) in protocol {
                h.push_str(&format!("{}=\"{}\",", k, rfc::enc(&v)));
            }
            h + &format!("oauth_signature=\"{}\"", cf.signature.s)
        } else {
            all.sort_by(|a, b| (&a.0, rfc::enc(&a.1)).cmp(&(&b.0, rfc::enc(&b.1))));
            let mut f: Vec<_> = all.iter().map(|(k, v)| format!("{}={}", k, rfc::enc(v))).collect();
            f.push(format!("oauth_signature={}", cf.signature.s));
            let f = f.join("&");
            if how == "query" {
                format!("{}?{}", c.uri.s, f)
            } else {
                f
            }
        };
        ensure_eq!(out, expected, "{}", how);
        ensure!(
            !header || (find("oauth_nonce")?.is_some() == cf.use_nonce),
            "{}: the nonce's presence is not the method's choice",
            how
        );
    }
    Ok(())
}

impl Prop for C14 {
    const ID: &'static str = "C14";
    const RULE: &'static str = "Random request signed with user-defined recording signature methods (overriding all, none or half of the \
        per-parameter callbacks, declining nonce and timestamp, any name and signature text) into headers, forms and queries; the \
        recorded pieces are joined and compared with the reference base string, and outputs with the reference ones; non-trivial = \
        the method declines something or the request has parameters.";
    type Case = Case;
    const CASES: u32 = 60_000;

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let method = prop_oneof![
            3 => (0usize..9).prop_map(|i| STD_METHODS[i].to_string()),
            1 => "[A-Z0-9._~-]{1,10}",
        ];
        (
            sign_case(),
            method,
            0u8..4,
            config(text().prop_map(|s| rfc::enc(&s)).boxed()),
        )
            .prop_map(|(mut c, method, ty, config)| {
                c.method = method;
                Case { c, ty, config }
            })
            .boxed()
    }

    fn check(c: &Case, st: &mut Stats) -> Result<(), String> {
        match c.ty % 4 {
            0 => go::<Full>(c)?,
            1 => go::<Bare>(c)?,
            2 => go::<Odd>(c)?,
            _ => go::<Even>(c)?,
        }
        if !c.config.use_nonce || !c.config.use_timestamp || !c.c.req.params.is_empty() {
            st.nontrivial();
        }
        st.label(["all callbacks", "no callback", "odd callbacks", "even callbacks"][c.ty as usize % 4]);
        st.label_if(!c.config.use_nonce, "nonce declined");
        st.label_if(!c.config.use_timestamp, "timestamp declined");
        Ok(())
    }
}

fn main() {
    run::<C14>()
}
