use std::borrow::Cow;
use std::fmt::{self, Display, Formatter};
use std::rc::Rc;

use oauth::{ParameterList, Request};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::engine::{main as run, Prop, Stats, Tier};
use vh::gen::*;
use vh::signs::{self, Bare, Config};
use vh::{ensure, ensure_eq, rfc};

struct C22;

/// A value of some type.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Src {
    Text(Val),
    U64(u64),
    I64(i64),
    I128(String),
    F64(String),
    Bool(bool),
    Char(char),
    Ip(String),
}

impl Src {
    fn text(&self) -> String {
        match self {
            Src::Text(v) => v.s.clone(),
            Src::U64(n) => n.to_string(),
            Src::I64(n) => n.to_string(),
            Src::I128(n) => n.parse::<i128>().unwrap().to_string(),
            Src::F64(n) => n.parse::<f64>().unwrap().to_string(),
            Src::Bool(b) => b.to_string(),
            Src::Char(c) => c.to_string(),
            Src::Ip(s) => s.parse::<std::net::IpAddr>().unwrap().to_string(),
        }
    }
}

/// The same text held by different types.
#[derive(Clone, Debug)]
enum Held {
    Val(Val),
    String(String),
    Str(&'static str),
    Boxed(Box<str>),
    Cow(Cow<'static, str>),
    Rc(Rc<String>),
    Chars(Vec<char>),
    Nested(Box<Held>, Box<Held>),
    U64(u64),
    I64(i64),
    I128(i128),
    F64(f64),
    Bool(bool),
    Char(char),
    Ip(std::net::IpAddr),
}

impl Display for Held {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        match self {
            Held::Val(v) => v.fmt(f),
            Held::String(v) => v.fmt(f),
            Held::Str(v) => v.fmt(f),
            Held::Boxed(v) => v.fmt(f),
            Held::Cow(v) => v.fmt(f),
            Held::Rc(v) => v.fmt(f),
            Held::Chars(v) => v.iter().try_for_each(|c| c.fmt(f)),
            Held::Nested(a, b) => write!(f, "{}{}{}", a, "", b),
            Held::U64(v) => v.fmt(f),
            Held::I64(v) => v.fmt(f),
            Held::I128(v) => v.fmt(f),
            Held::F64(v) => v.fmt(f),
            Held::Bool(v) => v.fmt(f),
            Held::Char(v) => v.fmt(f),
            Held::Ip(v) => v.fmt(f),
        }
    }
}

fn hold(s: &Src, how: u8) -> Held {
    match s {
        Src::U64(n) if how < 128 => Held::U64(*n),
        Src::I64(n) if how < 128 => Held::I64(*n),
        Src::I128(n) if how < 128 => Held::I128(n.parse().unwrap()),
        Src::F64(n) if how < 128 => Held::F64(n.parse().unwrap()),
        Src::Bool(b) if how < 128 => Held::Bool(*b),
        Src::Char(c) if how < 128 => Held::Char(*c),
        Src::Ip(n) if how < 128 => Held::Ip(n.parse().unwrap()),
        Src::Text(v) if how < 128 => Held::Val(v.clone()),
        s => {
            let t = s.text();
            match how % 8 {
                0 => Held::String(t),
                1 => match &*t {
                    "" => Held::Str(""),
                    "a" => Held::Str("a"),
                    _ => Held::Boxed(t.into()),
                },
                2 => Held::Cow(t.into()),
                3 => Held::Rc(Rc::new(t)),
                4 => Held::Chars(t.chars().collect()),
                5 => {
                    let n = t.chars().count() / 2;
                    let a: String = t.chars().take(n).collect();
                    let b: String = t.chars().skip(n).collect();
                    Held::Nested(Box::new(Held::Chars(a.chars().collect())), Box::new(Held::String(b)))
                }
                6 => Held::Cow(Cow::Owned(t)),
                _ => Held::Val(Val { s: t, cuts: vec![how.into(), 3, 3, 77, 500], style: how % 5 }),
            }
        }
    }
}

/// Sorted values, of which those that need no encoding are given as encoded.
struct Mixed(Vec<(String, Held)>);
impl Request for Mixed {
    fn serialize<S: oauth::serializer::Serializer>(&self, mut s: S) -> S::Output {
        let mut hooks = 0;
        for (k, v) in &self.0 {
            while hooks < 8 && PROTOCOL[hooks] < &**k {
                call_hook(&mut s, hooks);
                hooks += 1;
            }
            let t = v.to_string();
            if rfc::enc(&t) == t {
                s.serialize_parameter_encoded(k, v);
            } else {
                s.serialize_parameter(k, v);
            }
        }
        for i in hooks..8 {
            call_hook(&mut s, i);
        }
        s.end()
    }
}

/// A name type of the user's.
#[derive(Clone)]
struct Name(Rc<str>);
impl AsRef<str> for Name {
    fn as_ref(&self) -> &str {
        &self.0
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Case {
    Request {
        c: Box<SignCase>,
        values: Vec<(String, Src, u8)>,
        uri: u8,
        container: u8,
    },
    /// The scalar values of one block of 256.
    Block(u32),
}

/// Everything that comes out of a request, with the recorded base string.
fn outputs<R: Request, U: Display>(c: &SignCase, r: &R, u: &U) -> Result<Vec<String>, String> {
    let b = c.builder(oauth::HMAC_SHA1);
    let m = &*c.method;
    let cf = Config { name: 0, signature: Val::new("s"), use_nonce: true, use_timestamp: true };
    let rec = Bare::new(&cf);
    let log = rec.log.clone();
    let f = c.builder(rec).to_form(m, u, r);
    let base = signs::base_of(&log.borrow(), &cf, Bare::OVERRIDDEN)?;
    let all = vec![
        oauth::to_form(r),
        oauth::to_query(u.to_string(), r),
        b.authorize(m, u, r),
        b.to_form(m, u, r),
        b.to_query(m, u.to_string(), r),
        f,
        base,
    ];
    for s in &all {
        ensure!(std::str::from_utf8(s.as_bytes()).is_ok(), "an output is not UTF-8: {:?}", s.as_bytes());
    }
    Ok(all)
}

fn request(c: &SignCase, values: &[(String, Src, u8)], uri: u8, container: u8) -> Result<(), String> {
    // The plainest form: sorted by the reference, strings only.
    let mut plain: Vec<(String, String)> = values.iter().map(|v| (v.0.clone(), v.1.text())).collect();
    plain.sort_by(|a, b| (&a.0, rfc::enc(&a.1)).cmp(&(&b.0, rfc::enc(&b.1))));
    let sorted = oauth::request::AssertSorted::new(plain.iter().map(|(k, v)| (&**k, &**v)));
    let want = outputs(c, &sorted, &&*c.uri.s)?;
    let form: Vec<_> = plain.iter().map(|(k, v)| format!("{}={}", k, rfc::enc(v))).collect();
    ensure_eq!(want[0], form.join("&"), "form of plain strings");

    let u = hold(&Src::Text(c.uri.clone()), uri);
    let held = || values.iter().map(|(k, v, h)| (k.clone(), hold(v, *h)));
    let vec: Vec<(String, Held)> = held().collect();
    let got = match container % 9 {
        0 => outputs(c, &ParameterList::new(vec), &u),
        1 => outputs(c, &vec.into_iter().collect::<ParameterList<_, _>>(), &u),
        2 => {
            let mut v: Vec<(Name, Held)> = vec.into_iter().map(|(k, v)| (Name(k.into()), v)).collect();
            outputs(c, &ParameterList::<Name, Held, _, _>::new(&mut v[..]), &u)
        }
        3 => {
            let v: Vec<&(String, Held)> = vec.iter().collect();
            outputs(c, &ParameterList::<String, Held, _, _>::new(v), &u)
        }
        4 => {
            let v: Box<[(Box<str>, Held)]> = vec.into_iter().map(|(k, v)| (k.into(), v)).collect();
            outputs(c, &ParameterList::new(v), &u)
        }
        5 => {
            let v: Vec<Rc<(Cow<'_, str>, Held)>> = vec.into_iter().map(|(k, v)| Rc::new((k.into(), v))).collect();
            outputs(c, &ParameterList::<Cow<'_, str>, Held, _, _>::new(v), &u)
        }
        6 => {
            let mut l = ParameterList::<String, Held>::default();
            let n = vec.len() / 2;
            let mut it = vec.into_iter();
            l.extend(it.by_ref().take(n));
            l.extend(it);
            outputs(c, &l, &u)
        }
        k => {
            // Sorted values, boxed and borrowed.
            let mut v = vec;
            v.sort_by(|a, b| (&a.0, rfc::enc(&a.1.to_string())).cmp(&(&b.0, rfc::enc(&b.1.to_string()))));
            if k == 8 {
                outputs(c, &Mixed(v), &u)
            } else {
            let dynamic: Vec<(&str, Box<dyn Display>)> =
                v.iter().map(|(k, v)| (&**k, Box::new(v.clone()) as Box<dyn Display>)).collect();
            outputs(c, &oauth::request::AssertSorted::new(dynamic.iter().map(|(k, v)| (k, v))), &u)
            }
        }
    }?;
    for (i, what) in ["unsigned form", "unsigned query", "header", "form", "query", "custom form", "base string"]
        .iter()
        .enumerate()
    {
        ensure_eq!(got[i], want[i], "{} against that of plain strings", what);
    }
    Ok(())
}

fn block(n: u32) -> Result<(), String> {
    let all: Vec<char> = (n * 256..(n + 1) * 256).filter_map(char::from_u32).collect();
    let whole: String = all.iter().collect();
    let cf = Config { name: 0, signature: Val::new("s"), use_nonce: false, use_timestamp: false };
    let check = |v: &dyn Display, text: &str| -> Result<(), String> {
        let r = [("k", v)];
        let r = ParameterList::<&str, &dyn Display, _, _>::new(r);
        let want = format!("k={}", rfc::enc(text));
        ensure_eq!(oauth::to_form(&r), want, "form of {:?}", text);
        // In a signature base string values are encoded twice, URIs once.
        let rec = Bare::new(&cf);
        let log = rec.log.clone();
        let uri = text.replace('?', "/");
        let b = oauth::Builder::<_, &str, &str>::new(oauth::Credentials::new(text, ""), rec);
        let h = b.authorize("GET", &uri, &r);
        let base = signs::base_of(&log.borrow(), &cf, Bare::OVERRIDDEN)?;
        let all = [("k", text), ("oauth_consumer_key", text), ("oauth_signature_method", cf.name())];
        let all: Vec<(String, String)> = all.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
        ensure_eq!(base, rfc::base_string("GET", &uri, &all), "base string of {:?}", text);
        ensure_eq!(
            h,
            format!("OAuth oauth_consumer_key=\"{}\",oauth_signature_method=\"X\",oauth_signature=\"s\"", rfc::enc(text)),
            "header of {:?}",
            text
        );
        Ok(())
    };
    check(&whole, &whole)?;
    check(&Held::Chars(all.clone()), &whole)?;
    for c in all {
        check(&c, &c.to_string())?;
        let t = format!("a{}b", c);
        check(&Val { s: t.clone(), cuts: vec![1, 2], style: 0 }, &t)?;
    }
    Ok(())
}

fn src() -> BoxedStrategy<Src> {
    prop_oneof![
        8 => val_of(text()).prop_map(Src::Text),
        2 => val_of(short_text()).prop_map(Src::Text),
        1 => prop_oneof![any::<u64>(), 0u64..300].prop_map(Src::U64),
        1 => prop_oneof![any::<i64>(), -30i64..30].prop_map(Src::I64),
        1 => any::<i128>().prop_map(|n| Src::I128(n.to_string())),
        1 => prop_oneof![any::<f64>(), (-300i32..300).prop_map(|n| f64::from(n) / 8.0)].prop_map(|n| Src::F64(n.to_string())),
        1 => any::<bool>().prop_map(Src::Bool),
        1 => any::<char>().prop_map(Src::Char),
        1 => prop_oneof![
            any::<[u8; 4]>().prop_map(|a| Src::Ip(std::net::IpAddr::from(a).to_string())),
            any::<[u16; 8]>().prop_map(|a| Src::Ip(std::net::IpAddr::from(a).to_string())),
        ],
    ]
    .boxed()
}

impl Prop for C22 {
    const ID: &'static str = "C22";
    const RULE: &'static str = "Random requests whose values are texts in pieces, numbers, booleans, characters and addresses, held by 15 types \
        in 8 kinds of containers with 4 types of names and a URI in pieces, compared in 7 outputs with the same request made of plain \
        sorted strings and with the reference; every Unicode scalar value alone, in a whole block and between others through the \
        single and the double encoder; non-trivial = a value or a block.";
    type Case = Case;
    const CASES: u32 = 60_000;

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let values = vec((key(), src(), any::<u8>(), any::<u8>(), any::<u8>()), 0..7).prop_map(|raw| {
            let mut out: Vec<(String, Src, u8)> = vec![];
            for (mut k, mut s, h, a, b) in raw {
                if let Some(p) = out.get(a as usize % 14) {
                    k = p.0.clone();
                }
                if let Some(p) = out.get(b as usize % 14) {
                    s = p.1.clone();
                }
                out.push((k, s, h));
            }
            out
        });
        (pinned_case(), values, any::<u8>(), any::<u8>())
            .prop_map(|(mut c, values, uri, container)| {
                c.req.params.clear();
                // The recorder is given request methods as they are.
                c.method.retain(|c| rfc::is_unreserved(c as u8));
                Case::Request { c: Box::new(c), values, uri, container }
            })
            .boxed()
    }

    fn fixed(_: Tier) -> Vec<Case> {
        (0..0x1100).map(Case::Block).collect()
    }

    fn check(case: &Case, st: &mut Stats) -> Result<(), String> {
        match case {
            Case::Request { c, values, uri, container } => {
                if !values.is_empty() {
                    st.nontrivial();
                }
                st.label("request");
                request(c, values, *uri, *container)
            }
            Case::Block(n) => {
                st.nontrivial();
                st.label("block of scalar values");
                block(*n)
            }
        }
    }
}

fn main() {
    run::<C22>()
}
