use either::Either;
use oauth::signature_method::{Sign, SignatureMethod};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::engine::{main as run, Prop, Stats, Tier};
use vh::gen::*;
use vh::{ensure, ensure_eq, rfc};

struct C04;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    c: SignCase,
    /// 0 HMAC-SHA1, 1 PLAINTEXT, 2 a run-time choice, 3.. a user-defined method
    method: u8,
    use_nonce: bool,
    use_timestamp: bool,
}

#[derive(Clone)]
struct Own(bool, bool);
struct OwnSign(bool, bool);
impl SignatureMethod for Own {
    type Sign = OwnSign;
    fn sign_with(self, _: &str, _: Option<&str>) -> OwnSign {
        OwnSign(self.0, self.1)
    }
}
impl Sign for OwnSign {
    type Signature = &'static str;
    fn get_signature_method_name(&self) -> &'static str {
        "OWN-1.0_x~"
    }
    fn request_method(&mut self, _: &str) {}
    fn uri<T: std::fmt::Display>(&mut self, _: T) {}
    fn parameter<V: std::fmt::Display>(&mut self, _: &str, _: V) {}
    fn delimiter(&mut self) {}
    fn end(self) -> &'static str {
        "own%2Fsig"
    }
    fn use_nonce(&self) -> bool {
        self.0
    }
    fn use_timestamp(&self) -> bool {
        self.1
    }
}

fn now() -> u64 {
    std::time::SystemTime::now()
        .duration_since(std::time::UNIX_EPOCH)
        .unwrap()
        .as_secs()
}

fn header<SM: SignatureMethod + Clone>(c: &SignCase, sm: SM) -> String {
    c.builder(sm).authorize(&c.method, &c.uri, &c.req.build())
}

impl Prop for C04 {
    const ID: &'static str = "C04";
    const RULE: &'static str = "Random credentials, options (each present, empty or absent), request and signature method \
        (HMAC-SHA1, PLAINTEXT, run-time choice, user-defined declining nonce/timestamp); the header is parsed with a strict grammar \
        and compared item by item; non-trivial = some protocol value needs percent-encoding or is empty, or the request has parameters.";
    type Case = Case;
    const CASES: u32 = 160_000;

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        (sign_case(), 0u8..4, any::<bool>(), any::<bool>())
            .prop_map(|(c, method, use_nonce, use_timestamp)| Case {
                c,
                method,
                use_nonce,
                use_timestamp,
            })
            .boxed()
    }

    fn check(case: &Case, st: &mut Stats) -> Result<(), String> {
        let c = &case.c;
        let t0 = now();
        let (h, name, un, ut) = match case.method {
            0 => (header(c, oauth::HMAC_SHA1), "HMAC-SHA1", true, true),
            1 => (header(c, oauth::PLAINTEXT), "PLAINTEXT", true, true),
            2 if case.use_nonce => (
                header::<Either<oauth::HmacSha1, oauth::Plaintext>>(c, Either::Left(oauth::HMAC_SHA1)),
                "HMAC-SHA1",
                true,
                true,
            ),
            2 => (
                header::<Either<oauth::HmacSha1, oauth::Plaintext>>(c, Either::Right(oauth::PLAINTEXT)),
                "PLAINTEXT",
                true,
                true,
            ),
            _ => (
                header(c, Own(case.use_nonce, case.use_timestamp)),
                "OWN-1.0_x~",
                case.use_nonce,
                case.use_timestamp,
            ),
        };
        let t1 = now();
        let items = rfc::parse_header(&h)?;
        let get = |k: &str| items.iter().find(|i| i.0 == k).map(|i| &*i.1);

        // An automatic nonce or timestamp is read back from the header and judged by its form.
        let nonce = match (un, &c.opts.nonce) {
            (false, _) => None,
            (true, Some(n)) => Some(n.clone()),
            (true, None) => {
                let n = get("oauth_nonce").ok_or_else(|| format!("no nonce in {:?}", h))?;
                ensure!(
                    !n.is_empty() && n.bytes().all(rfc::is_unreserved),
                    "automatic nonce {:?}",
                    n
                );
                Some(n.to_string())
            }
        };
        let timestamp = match (ut, c.opts.timestamp) {
            (false, _) => None,
            (true, Some(t)) => Some(t),
            (true, None) => {
                let t = get("oauth_timestamp").ok_or_else(|| format!("no timestamp in {:?}", h))?;
                let t: u64 = t.parse().map_err(|_| format!("timestamp {:?}", t))?;
                ensure!(
                    t0 <= t && t <= t1,
                    "automatic timestamp {} outside {}..={}",
                    t,
                    t0,
                    t1
                );
                Some(t)
            }
        };
        let mut expected: Vec<(String, String)> =
            c.protocol_with(name, nonce.as_deref(), timestamp);
        let (last, rest) = items.split_last().ok_or("empty header")?;
        ensure_eq!(last.0, "oauth_signature", "last item of {:?}", h);
        ensure!(
            rest.iter().all(|i| i.0 != "oauth_signature"),
            "several signatures in {:?}",
            h
        );
        let mut decoded: Vec<(String, String)> = rest
            .iter()
            .map(|(k, v)| Ok((k.clone(), rfc::dec(v)?)))
            .collect::<Result<_, String>>()?;
        // The order of the items before the signature carries no meaning.
        decoded.sort();
        expected.sort();
        ensure_eq!(decoded, expected, "protocol parameters of {:?}", h);
        // The canonical encoding of each value is unique.
        for (k, v) in rest {
            ensure_eq!(rfc::enc(&rfc::dec(v)?), *v, "encoding of {} in {:?}", k, h);
        }
        let sig = rfc::dec(&last.1)?;
        match name {
            "HMAC-SHA1" => {
                let raw = rfc::unbase64(&sig)?;
                ensure_eq!(raw.len(), 20, "HMAC-SHA1 signature length in {:?}", h);
            }
            "PLAINTEXT" => ensure_eq!(
                sig,
                rfc::signing_key(&c.client.1, c.token_secret()),
                "signature"
            ),
            _ => ensure_eq!(last.1, "own%2Fsig", "signature text given by the method"),
        }
        if !c.req.params.is_empty() || decoded.iter().any(|(_, v)| v.is_empty() || rfc::enc(v) != *v)
        {
            st.nontrivial();
        }
        st.label(name);
        st.label_if(c.token.is_none(), "no token");
        st.label_if(decoded.iter().any(|(_, v)| v.is_empty()), "empty protocol value");
        st.label_if(c.opts.nonce.is_none() && un, "automatic nonce");
        st.label_if(!un, "declined nonce");
        st.label_if(!ut, "declined timestamp");
        Ok(())
    }
}

fn main() {
    run::<C04>()
}
