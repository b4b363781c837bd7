use std::borrow::Cow;
use std::fmt::{self, Display, Formatter, Write};
use std::num::NonZeroU64;

use either::Either;
use oauth::serializer::auth::Authorizer;
use oauth::signature_method::SignatureMethod;
use oauth::{Builder, Credentials, Request, Token};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::engine::{main as run, Prop, Stats, Tier};
use vh::gen::*;
use vh::{ensure_eq, rfc};

struct C12;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    c: SignCase,
    plaintext: bool,
    /// How the signature method is made.
    #[serde(default)]
    how: u8,
    before: String,
}

/// A buffer that is not a `String`.
#[derive(Clone)]
struct Pieces(Vec<String>);
impl Write for Pieces {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.push(s.to_string());
        Ok(())
    }
}
impl Display for Pieces {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        self.0.iter().try_for_each(|s| f.write_str(s))
    }
}

fn go<SM: SignatureMethod + Clone>(case: &Case, sm: SM) -> Result<(), String> {
    let c = &case.c;
    let b = c.builder(sm.clone());
    let u = &c.uri;
    let us = || c.uri.s.clone();
    let r = &c.req.build();
    let before = &*case.before;

    macro_rules! same {
        ($expected:expr; $($name:expr => $e:expr;)*) => {{
            let expected: &str = &$expected;
            $( ensure_eq!($e, expected, "{} against the generic call", $name); )*
        }};
    }

    // Per-method shorthands.
    macro_rules! shorthands {
        ($($call:ident $generic:ident $method:literal $uri:expr;)*) => {$(
            same!(b.$generic($method, $uri, r); stringify!($call) => b.$call($uri, r););
        )*};
    }
    shorthands! {
        get authorize "GET" u;
        put authorize "PUT" u;
        post authorize "POST" u;
        delete authorize "DELETE" u;
        options authorize "OPTIONS" u;
        head authorize "HEAD" u;
        connect authorize "CONNECT" u;
        patch authorize "PATCH" u;
        trace authorize "TRACE" u;
        put_form to_form "PUT" u;
        post_form to_form "POST" u;
        options_form to_form "OPTIONS" u;
        patch_form to_form "PATCH" u;
        get_query to_query "GET" us();
        put_query to_query "PUT" us();
        post_query to_query "POST" us();
        delete_query to_query "DELETE" us();
        options_query to_query "OPTIONS" us();
        head_query to_query "HEAD" us();
        connect_query to_query "CONNECT" us();
        patch_query to_query "PATCH" us();
        trace_query to_query "TRACE" us();
    }

    // Consuming, buffered and low-level variants of the generic call.
    let m = &*c.method;
    let o = &c.opts.auth();
    let (client, token) = (c.client(), c.token());
    let header = b.authorize(m, u, r);
    let form = b.to_form(m, u, r);
    let query = b.to_query(m, us(), r);
    let buf = || before.to_string();
    let pieces = || Pieces(vec![before.to_string()]);
    same! { header;
        "into_authorization" => b.clone().into_authorization(m, u, r);
        "authorize with a borrowed URI" => b.authorize(m, &*c.uri.s, r);
        "Authorizer::authorization" =>
            r.serialize(Authorizer::authorization(m, us(), client, token, o, sm.clone()));
    }
    same! { form;
        "into_form" => b.clone().into_form(m, u, r);
        "to_form with an owned URI" => b.to_form(m, us(), r);
        "Authorizer::form" => r.serialize(Authorizer::form(m, u, client, token, o, sm.clone()));
    }
    same! { query;
        "into_query" => b.clone().into_query(m, us(), r);
        "Authorizer::query" => r.serialize(Authorizer::query(m, us(), client, token, o, sm.clone()));
        "to_query with another buffer type" => b.to_query(m, Pieces(vec![us()]), r).to_string();
        "into_query with another buffer type" => b.clone().into_query(m, Pieces(vec![us()]), r).to_string();
    }
    same! { format!("{}{}", before, header);
        "authorize_with_buf" => b.authorize_with_buf(buf(), m, u, r);
        "authorize_with_buf with another buffer type" => b.authorize_with_buf(pieces(), m, u, r).to_string();
        "into_authorization_with_buf" => b.clone().into_authorization_with_buf(buf(), m, u, r);
        "into_authorization_with_buf with another buffer type" =>
            b.clone().into_authorization_with_buf(pieces(), m, u, r).to_string();
        "Authorizer::authorization_with_buf" =>
            r.serialize(Authorizer::authorization_with_buf(buf(), m, u, client, token, o, sm.clone()));
    }
    {
        let mut by_ref = buf();
        b.authorize_with_buf(&mut by_ref, m, u, r);
        same! { format!("{}{}", before, header); "authorize_with_buf by reference" => by_ref; }
        let mut by_ref = buf();
        b.to_form_with_buf(&mut by_ref, m, u, r);
        same! { format!("{}{}", before, form); "to_form_with_buf by reference" => by_ref; }
    }
    same! { format!("{}{}", before, form);
        "to_form_with_buf" => b.to_form_with_buf(buf(), m, u, r);
        "to_form_with_buf with another buffer type" => b.to_form_with_buf(pieces(), m, u, r).to_string();
        "into_form_with_buf" => b.clone().into_form_with_buf(buf(), m, u, r);
        "into_form_with_buf with another buffer type" =>
            b.clone().into_form_with_buf(pieces(), m, u, r).to_string();
        "Authorizer::form_with_buf" =>
            r.serialize(Authorizer::form_with_buf(buf(), m, u, client, token, o, sm.clone()));
    }

    // Owned credentials of other types.
    let owned = Credentials::new(c.client.0.clone(), c.client.1.clone());
    let set = |b: &mut dyn FnMut(&Opts)| b(&c.opts);
    let mut ob: Builder<'_, SM, String, Cow<'_, str>> = Builder::new(owned, sm.clone());
    if let Some(ref t) = c.token {
        ob.token(Credentials::new(Cow::Borrowed(&*t.0), Cow::Owned(t.1.clone())));
    }
    set(&mut |_| {
        ob.callback(c.opts.callback.as_deref())
            .verifier(c.opts.verifier.as_deref())
            .nonce(c.opts.nonce.as_deref())
            .timestamp(c.opts.timestamp.and_then(NonZeroU64::new))
            .version(c.opts.version);
    });
    same! { header; "authorize with owned credentials" => ob.authorize(m, u, r); }
    same! { form; "to_form with owned credentials" => ob.to_form(m, u, r); }
    same! { query; "to_query with owned credentials" => ob.to_query(m, us(), r); }

    // The free functions take no options: their automatic nonce and timestamp are read back and
    // pinned for the builder.
    if let Some(ref t) = c.token {
        let token = Token::from_parts(&*c.client.0, &*c.client.1, &*t.0, &*t.1);
        let owned = Token::from_parts(c.client.0.clone(), c.client.1.clone(), t.0.clone(), t.1.clone());
        let pinned = |h: &str, m: &str| -> Result<String, String> {
            let items = rfc::parse_header(h)?;
            let get = |k: &str| {
                items
                    .iter()
                    .find(|i| i.0 == k)
                    .ok_or_else(|| format!("no {} in {:?}", k, h))
                    .and_then(|i| rfc::dec(&i.1))
            };
            let (n, t) = (get("oauth_nonce")?, get("oauth_timestamp")?);
            let t = t.parse().map_err(|_| format!("timestamp {:?}", t))?;
            let mut b = Builder::with_token(token.clone(), sm.clone());
            b.nonce(&*n).timestamp(NonZeroU64::new(t));
            Ok(b.authorize(m, u, r))
        };
        macro_rules! free {
            ($($f:ident $method:literal;)*) => {$(
                let h = oauth::$f(u, r, &token, sm.clone());
                ensure_eq!(h, pinned(&h, $method)?, "free function {}", stringify!($f));
            )*};
        }
        free! {
            get "GET"; put "PUT"; post "POST"; delete "DELETE"; options "OPTIONS"; head "HEAD"; connect "CONNECT";
            patch "PATCH"; trace "TRACE";
        }
        let h = oauth::authorize(m, us(), r, &owned, sm.clone());
        ensure_eq!(h, pinned(&h, m)?, "free function authorize");
    }
    Ok(())
}

impl Prop for C12 {
    const ID: &'static str = "C12";
    const RULE: &'static str = "Random request, credentials, pinned options and method signed through all 22 per-method shorthands, 10 free \
        functions, and every generic, consuming, buffered and low-level entry point (60 calls per case), compared with the generic \
        call; non-trivial = the request has parameters.";
    type Case = Case;
    const CASES: u32 = 12_000;

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        (pinned_case(), proptest::bool::weighted(0.2), 0u8..6, short_text())
            .prop_map(|(c, plaintext, how, before)| Case { c, plaintext, how, before })
            .boxed()
    }

    fn check(c: &Case, st: &mut Stats) -> Result<(), String> {
        type Any = Either<oauth::HmacSha1, oauth::Plaintext>;
        match (c.plaintext, c.how) {
            (true, 0) => go(c, oauth::PLAINTEXT)?,
            (true, 1) => go(c, oauth::Plaintext::new())?,
            (true, 2) => go::<oauth::Plaintext>(c, Default::default())?,
            (true, 3) => go(c, oauth::Plaintext::<String>::with_buf())?,
            (true, _) => go::<Any>(c, Either::Right(oauth::PLAINTEXT))?,
            (false, 0 | 1) => go(c, oauth::HMAC_SHA1)?,
            (false, 2) => go(c, oauth::HmacSha1::new())?,
            (false, 3) => go(c, oauth::HmacSha1::default())?,
            (false, _) => go::<Any>(c, Either::Left(oauth::HMAC_SHA1))?,
        }
        if !c.c.req.params.is_empty() {
            st.nontrivial();
        }
        st.label_if(c.c.token.is_some(), "free functions");
        st.label_if(!c.before.is_empty(), "buffer with contents");
        st.label(if c.plaintext { "PLAINTEXT" } else { "HMAC-SHA1" });
        Ok(())
    }
}

fn main() {
    run::<C12>()
}
