use oauth::serializer::Serializer;
use oauth::signature_method::SignatureMethod;
use oauth::Request;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::engine::{main as run, Prop, Stats, Tier};
use vh::gen::*;
use vh::signs::{base_of, Bare, Config, Full, Recording};
use vh::{ensure, ensure_eq, keys, rfc};

struct C24;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    c: SignCase,
    /// Which of the (sorted) parameters are given as already encoded.
    masks: Vec<u64>,
    /// 0 HMAC-SHA1, 1 PLAINTEXT, 2 and 3 RSA-SHA1, 4 and 5 user-defined
    method: u8,
    /// Encoded by hand in other ways than the library's.
    own: Vec<(String, Val, bool)>,
    /// The fields of a derived request.
    fields: (Val, Val, Option<Val>, Option<Val>, Val),
}

/// Pairs in order, some given as already encoded.
struct Mixed<'a>(&'a [(String, Val, bool)]);
impl Request for Mixed<'_> {
    fn serialize<S: Serializer>(&self, mut s: S) -> S::Output {
        let mut hook = 0;
        for (k, v, e) in self.0 {
            while hook < 8 && PROTOCOL[hook] < &**k {
                call_hook(&mut s, hook);
                hook += 1;
            }
            if *e {
                s.serialize_parameter_encoded(k, v);
            } else {
                s.serialize_parameter(k, v);
            }
        }
        (hook..8).for_each(|h| call_hook(&mut s, h));
        s.end()
    }
}

fn encode(v: &Val) -> Val {
    Val {
        s: rfc::enc(&v.s),
        ..v.clone()
    }
}

fn debug_fmt(v: &Val, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    write!(f, "{}{}", v, v)
}

macro_rules! derived {
    ($Name:ident, [$($a:tt)*], [$($b:tt)*], [$($c:tt)*], [$($d:tt)*], [$($e:tt)*]) => {
        #[derive(oauth::Request)]
        struct $Name<'a> {
            z: &'a Val,
            #[oauth1(fmt = debug_fmt $($b)*)]
            oauth_t: Val,
            $($c)*
            a: Option<Val>,
            #[oauth1(option = true, rename = "oauth_token_" $($d)*)]
            d: Maybe,
            #[oauth1(rename = "zz" $($e)*)]
            b: Box<Val>,
            #[oauth1(skip $($a)*)]
            _s: (),
        }
        impl $Name<'_> {
            fn new<'a>(z: &'a Val, f: &(Val, Val, Option<Val>, Option<Val>, Val)) -> $Name<'a> {
                $Name { z, oauth_t: f.1.clone(), a: f.2.clone(), d: f.3.clone(), b: Box::new(f.4.clone()), _s: () }
            }
        }
    };
}
type Maybe = Option<Val>;

derived!(Plain, [], [], [], [], []);
derived!(AllEncoded, [, encoded], [, encoded], [#[oauth1(encoded)]], [, encoded], [, encoded]);
derived!(Some1, [], [, encoded], [], [], [, encoded]);
derived!(Some2, [], [], [#[oauth1(encoded)]], [, encoded], []);

fn is_blank(v: &Val) -> bool {
    v.s.is_empty() || v.s == "-"
}
fn is_blank_text(v: &impl std::fmt::Display) -> bool {
    v.to_string() == "x"
}

// Every kind of field type with every set of attributes that shapes a value, on either side of the
// protocol parameters and between them; the odd fields and the even ones take `encoded` apart.
macro_rules! combinations {
    ($Name:ident, [$($x:tt)*], [$($y:tt)*]) => {
        #[derive(oauth::Request)]
        struct $Name<'a> {
            #[oauth1($($x)*)]
            a: Val,
            #[oauth1(fmt = debug_fmt, $($y)*)]
            b: Val,
            #[oauth1(skip_if = is_blank, $($x)*)]
            c: Val,
            #[oauth1(fmt = debug_fmt, $($y)*)]
            #[oauth1(skip_if = is_blank)]
            d: &'a Val,
            #[oauth1($($x)*)]
            oauth_d: Option<Val>,
            #[oauth1(fmt = debug_fmt, $($y)*)]
            oauth_o: Option<Val>,
            #[oauth1(skip_if = is_blank_text, $($x)*)]
            oauth_t: Option<&'a Val>,
            #[oauth1(skip_if = is_blank, fmt = debug_fmt, $($y)*)]
            oauth_u: Option<Val>,
            #[oauth1(option = true, $($x)*)]
            p: Maybe,
            #[oauth1(option = true, fmt = debug_fmt, $($y)*)]
            q: Maybe,
            #[oauth1($($x)*)]
            #[oauth1(option = true, skip_if = is_blank)]
            r: Maybe,
            #[oauth1(option = true, fmt = debug_fmt, skip_if = is_blank, $($y)*)]
            s: Maybe,
            #[oauth1(skip_if = is_blank_text, $($x)*)]
            #[oauth1(option = false)]
            t: Option2,
            #[oauth1($($y)*)]
            #[oauth1(rename = "~")]
            u: Option2,
        }
        impl $Name<'_> {
            /// The fields from `x` and from `y`, in turns.
            fn new<'a>(x: &'a [Option<Val>; 3], y: &'a [Option<Val>; 3]) -> $Name<'a> {
                let (x1, y1) = (x[0].as_ref().unwrap(), y[0].as_ref().unwrap());
                $Name {
                    a: x1.clone(),
                    b: y1.clone(),
                    c: x1.clone(),
                    d: y1,
                    oauth_d: x[1].clone(),
                    oauth_o: y[1].clone(),
                    oauth_t: x[1].as_ref(),
                    oauth_u: y[1].clone(),
                    p: x[2].clone(),
                    q: y[2].clone(),
                    r: x[2].clone(),
                    s: y[2].clone(),
                    t: Option2(x1.clone()),
                    u: Option2(y1.clone()),
                }
            }
        }
    };
}
/// A type whose name is like `Option`'s.
struct Option2(Val);
impl std::fmt::Display for Option2 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
combinations!(Neither, [], []);
combinations!(Odd, [encoded], []);
combinations!(Even, [], [encoded]);
combinations!(Both, [encoded], [encoded]);

/// Header, form, query of one request, and the base strings the method saw (if it tells).
fn sign<SM: SignatureMethod + Clone, R: Request>(c: &SignCase, sm: SM, r: &R) -> [String; 3] {
    let b = c.builder(sm);
    [
        b.authorize(&c.method, &c.uri, r),
        b.to_form(&c.method, &c.uri, r),
        b.to_query(&c.method, c.uri.s.clone(), r),
    ]
}

fn recorded<M: Recording, R: Request>(c: &SignCase, r: &R) -> Result<([String; 3], Vec<String>), String> {
    let config = Config {
        name: 0,
        signature: Val::new("sig&"),
        use_nonce: true,
        use_timestamp: true,
    };
    let mut bases = Vec::new();
    let out: Vec<String> = (0..3)
        .map(|i| {
            let m = M::make(&config);
            let log = m.log().clone();
            let b = c.builder(m);
            let s = match i {
                0 => b.authorize(&c.method, &c.uri, r),
                1 => b.to_form(&c.method, &c.uri, r),
                _ => b.to_query(&c.method, c.uri.s.clone(), r),
            };
            let base = base_of(&log.borrow(), &config, M::OVERRIDDEN);
            bases.push(base);
            s
        })
        .collect();
    let bases = bases.into_iter().collect::<Result<_, _>>()?;
    Ok((out.try_into().unwrap(), bases))
}

fn outputs<R: Request>(c: &SignCase, method: u8, r: &R) -> Result<([String; 3], Vec<String>), String> {
    let key = keys::small();
    Ok(match method {
        0 => (sign(c, oauth::HMAC_SHA1, r), vec![]),
        1 => (sign(c, oauth::PLAINTEXT, r), vec![]),
        2 => (sign(c, &key.k06, r), vec![]),
        3 => (sign(c, &key.k09, r), vec![]),
        4 => recorded::<Full, _>(c, r)?,
        _ => recorded::<Bare, _>(c, r)?,
    })
}

/// Texts that are valid as encoded values though the library would write them otherwise.
fn own_encoding() -> BoxedStrategy<String> {
    proptest::collection::vec(
        prop_oneof![
            3 => "[a-zA-Z0-9._~-]{1,6}",
            2 => "%[0-9A-F]{2}",
            1 => "%[0-9a-f]{2}",
            1 => "[!*'(),:;@/$+ ]",
            1 => "%[46][1-9]",
            1 => "[é🦀あ]",
        ],
        0..6,
    )
    .prop_map(|v| v.concat())
    .boxed()
}

impl Prop for C24 {
    const ID: &'static str = "C24";
    const RULE: &'static str = "One request fed with different mixtures of plain and already encoded values (random masks, derived structs \
        with `encoded` on none, some or all fields) must give the same header, form, query and unsigned encoding with every \
        signature method; values encoded in a way of the user's own must appear verbatim and be signed as they are; \
        non-trivial = some value given as encoded differs from its unencoded text.";
    type Case = Case;
    const CASES: u32 = 34_000;

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let v = || val_of(short_text());
        (
            pinned_case(),
            proptest::collection::vec(any::<u64>(), 1..3),
            prop_oneof![12 => Just(0u8), 4 => Just(1u8), 1 => 2u8..4, 6 => 4u8..6],
            proptest::collection::vec(
                (
                    key(),
                    prop_oneof![val_of(own_encoding()), v()],
                    any::<bool>(),
                ),
                0..5,
            ),
            (
                v(),
                v(),
                proptest::option::of(v()),
                proptest::option::of(v()),
                v(),
            ),
        )
            .prop_map(|(c, masks, method, mut own, fields)| {
                own.sort_by(|a, b| a.0.cmp(&b.0));
                Case {
                    c,
                    masks,
                    method,
                    own,
                    fields,
                }
            })
            .boxed()
    }

    fn fixed(_: Tier) -> Vec<Case> {
        let mut v = Vec::new();
        for method in 0..6 {
            for t in TOKENS {
                let p = |k: &str| Param::new(k, t);
                let val = Val::new(*t);
                v.push(Case {
                    c: SignCase {
                        method: "GET".into(),
                        uri: Val::new("http://e/"),
                        client: ("c".into(), "s".into()),
                        token: Some(("t".into(), "u".into())),
                        opts: Opts {
                            callback: None,
                            verifier: None,
                            nonce: Some("n".into()),
                            timestamp: Some(1),
                            version: false,
                        },
                        req: ReqSpec {
                            kind: Kind::List,
                            params: vec![p("a"), p("a"), p("oauth_u"), p("z")],
                        },
                    },
                    masks: vec![1, 2, 4, 8, 15],
                    method,
                    own: vec![("a".into(), val.clone(), true), ("b".into(), val.clone(), false)],
                    fields: (val.clone(), val.clone(), Some(val.clone()), Some(val.clone()), val),
                });
            }
        }
        v
    }

    fn check(case: &Case, st: &mut Stats) -> Result<(), String> {
        let c = &case.c;
        let sorted = c.req.sorted();
        let mixed = |mask: u64| -> Vec<(String, Val, bool)> {
            sorted
                .iter()
                .enumerate()
                .map(|(i, p)| {
                    let e = mask >> (i % 64) & 1 == 1;
                    (p.k.clone(), if e { encode(&p.v) } else { p.v.clone() }, e)
                })
                .collect()
        };
        let plain = mixed(0);
        let plain_out = outputs(c, case.method, &Mixed(&plain))?;
        let plain_form = oauth::to_form(&Mixed(&plain));
        // Requests built by the library's own types say the same as the hand-written plain one.
        ensure_eq!(outputs(c, case.method, &c.req.build())?, plain_out, "library request type against hand-written");
        ensure_eq!(oauth::to_form(&c.req.build()), plain_form, "library request type, unsigned");
        for &m in case.masks.iter().chain(&[u64::MAX]) {
            let x = mixed(m);
            ensure_eq!(outputs(c, case.method, &Mixed(&x))?, plain_out, "values encoded by mask {:b}", m);
            ensure_eq!(oauth::to_form(&Mixed(&x)), plain_form, "values encoded by mask {:b}, unsigned", m);
            ensure_eq!(
                oauth::to_query(c.uri.s.clone(), &Mixed(&x)),
                oauth::to_query(c.uri.s.clone(), &Mixed(&plain)),
                "values encoded by mask {:b}, unsigned query",
                m
            );
        }

        // Derived requests.
        let f = &case.fields;
        // `debug_fmt` writes the field's text twice, so the encoded text twice.
        let e = (
            f.0.clone(),
            encode(&f.1),
            f.2.as_ref().map(encode),
            f.3.as_ref().map(encode),
            encode(&f.4),
        );
        let d0 = Plain::new(&f.0, f);
        let d1 = AllEncoded::new(&f.0, &e);
        let d2 = Some1::new(&f.0, &(f.0.clone(), e.1.clone(), f.2.clone(), f.3.clone(), e.4.clone()));
        let d3 = Some2::new(&f.0, &(f.0.clone(), f.1.clone(), e.2.clone(), e.3.clone(), f.4.clone()));
        let derived = outputs(c, case.method, &d0)?;
        ensure_eq!(outputs(c, case.method, &d1)?, derived, "derived request with encoded fields");
        ensure_eq!(outputs(c, case.method, &d2)?, derived, "derived request with two encoded fields");
        ensure_eq!(outputs(c, case.method, &d3)?, derived, "derived request with two other encoded fields");
        let form = oauth::to_form(&d0);
        for o in [oauth::to_form(&d1), oauth::to_form(&d2), oauth::to_form(&d3)] {
            ensure_eq!(o, form, "unsigned derived request with encoded fields");
        }

        // Every set of attributes.
        let x = [Some(f.1.clone()), f.2.clone(), f.3.clone()];
        let y = x.clone().map(|v| v.as_ref().map(encode));
        let neither = outputs(c, case.method, &Neither::new(&x, &x))?;
        ensure_eq!(outputs(c, case.method, &Odd::new(&y, &x))?, neither, "derived request, odd fields encoded");
        ensure_eq!(outputs(c, case.method, &Even::new(&x, &y))?, neither, "derived request, even fields encoded");
        ensure_eq!(outputs(c, case.method, &Both::new(&y, &y))?, neither, "derived request, all fields encoded");
        let form = oauth::to_form(&Neither::new(&x, &x));
        for o in [oauth::to_form(&Odd::new(&y, &x)), oauth::to_form(&Even::new(&x, &y)), oauth::to_form(&Both::new(&y, &y))] {
            ensure_eq!(o, form, "unsigned derived request, some fields encoded");
        }

        // Values the user encoded some other way are taken as they are.
        let own = Mixed(&case.own);
        let texts: Vec<(String, String)> = case
            .own
            .iter()
            .map(|(k, v, e)| (k.clone(), if *e { v.s.clone() } else { rfc::enc(&v.s) }))
            .collect();
        let join = |p: &[(String, String)]| {
            p.iter().map(|(k, v)| format!("{}={}", k, v)).collect::<Vec<_>>().join("&")
        };
        ensure_eq!(oauth::to_form(&own), join(&texts), "unsigned form of values encoded by the user");
        let name = ["HMAC-SHA1", "PLAINTEXT", "RSA-SHA1", "RSA-SHA1", "X", "X"][case.method as usize];
        let mut all: Vec<(String, String)> = c
            .protocol(name)
            .into_iter()
            .map(|(k, v)| (k, rfc::enc(&v)))
            .chain(texts)
            .collect();
        // Equal names keep the order the user gave them in.
        all.sort_by(|a, b| a.0.cmp(&b.0));
        let joined = join(&all);
        let base = format!(
            "{}&{}&{}",
            rfc::enc(&c.method),
            rfc::enc(&c.uri.s),
            rfc::enc(&joined)
        );
        let ([header, form, query], bases) = outputs(c, case.method, &own)?;
        let signature = form
            .strip_prefix(&*joined)
            .and_then(|s| s.strip_prefix("&oauth_signature="))
            .ok_or_else(|| format!("form {:?} is not {:?} and a signature", form, joined))?;
        ensure_eq!(query, format!("{}?{}", c.uri.s, form), "query of values encoded by the user");
        ensure!(
            header.ends_with(&format!("oauth_signature=\"{}\"", signature)),
            "header {:?} has not the signature of the form {:?}",
            header,
            form
        );
        let text = rfc::dec(signature)?;
        match case.method {
            0 => ensure_eq!(
                text,
                rfc::hmac_signature(&base, &c.client.1, c.token_secret()),
                "signature over values encoded by the user, base string {:?}",
                base
            ),
            1 => {}
            2 | 3 => keys::small()
                .verify(&rfc::unbase64(&text)?, base.as_bytes())
                .map_err(|e| format!("base string {:?}: {}", base, e))?,
            _ => {
                // User-defined methods receive the request method as it is.
                let base = format!("{}&{}&{}", c.method, rfc::enc(&c.uri.s), rfc::enc(&joined));
                for b in bases {
                    ensure_eq!(b, base, "base string over values encoded by the user");
                }
            }
        }

        let differs = |v: &Val| rfc::enc(&v.s) != v.s;
        if sorted.iter().any(|p| differs(&p.v)) {
            st.nontrivial();
        }
        st.label_if(case.own.iter().any(|o| o.2), "encoded by the user");
        st.label_if(
            case.own.iter().any(|o| o.2 && rfc::enc(&rfc::dec(&o.1.s).unwrap_or_default()) != o.1.s),
            "encoded otherwise than by the library",
        );
        st.label_if(sorted.windows(2).any(|w| w[0].k == w[1].k), "repeated name");
        st.label(name);
        Ok(())
    }
}

fn main() {
    run::<C24>()
}
