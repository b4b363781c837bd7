use std::borrow::Cow;
use std::fmt::{self, Display};

use oauth::Credentials;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::de::value::MapDeserializer;
use serde::de::{self, DeserializeSeed, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Impossible, SerializeStruct};
use serde::{forward_to_deserialize_any, Deserialize, Serialize};
use serde_json::Value;
use vh::engine::{main as run, Prop, Stats, Tier};
use vh::gen::*;
use vh::{ensure, ensure_eq, rfc};

struct C17;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Name {
    Token,
    Secret,
    Other(String),
}

impl Name {
    fn text(&self) -> &str {
        match self {
            Name::Token => "oauth_token",
            Name::Secret => "oauth_token_secret",
            Name::Other(s) => s,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    /// The response's fields in order.
    fields: Vec<(Name, Value)>,
    /// How the self-made format presents names and strings.
    keys: u8,
    strings: u8,
    /// How the JSON text is written.
    escape: bool,
}

// ---------------------------------------------------------------------------------------------
// A self-describing format of our own.

#[derive(Debug)]
struct Failed(String);
impl Display for Failed {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Failed {}
impl de::Error for Failed {
    fn custom<T: Display>(m: T) -> Failed {
        Failed(m.to_string())
    }
}
impl ser::Error for Failed {
    fn custom<T: Display>(m: T) -> Failed {
        Failed(m.to_string())
    }
}

struct Doc<'a> {
    fields: &'a [(Name, Value)],
    keys: u8,
    strings: u8,
    /// Whether the number of fields is announced.
    sized: bool,
    at: usize,
}

struct Key<'a>(&'a str, u8);
struct Text<'a>(&'a Value, u8);

impl<'de> Deserializer<'de> for Key<'de> {
    type Error = Failed;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Failed> {
        match self.1 % 6 {
            0 => v.visit_str(&self.0.to_string()),
            1 => v.visit_borrowed_str(self.0),
            2 => v.visit_string(self.0.into()),
            3 => v.visit_bytes(&self.0.to_string().into_bytes()),
            4 => v.visit_borrowed_bytes(self.0.as_bytes()),
            _ => v.visit_byte_buf(self.0.into()),
        }
    }
    forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

struct Items<'a>(std::slice::Iter<'a, Value>, u8);
impl<'de> SeqAccess<'de> for Items<'de> {
    type Error = Failed;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Failed> {
        self.0.next().map(|v| seed.deserialize(Text(v, self.1))).transpose()
    }
}
struct Entries<'a>(serde_json::map::Iter<'a>, Option<&'a Value>, u8);
impl<'de> MapAccess<'de> for Entries<'de> {
    type Error = Failed;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Failed> {
        match self.0.next() {
            None => Ok(None),
            Some((k, v)) => {
                self.1 = Some(v);
                seed.deserialize(Key(k, self.2)).map(Some)
            }
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, Failed> {
        seed.deserialize(Text(self.1.take().expect("a value is asked for twice"), self.2))
    }
}

impl<'de> Deserializer<'de> for Text<'de> {
    type Error = Failed;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Failed> {
        match self.0 {
            Value::Null => v.visit_unit(),
            Value::Bool(b) => v.visit_bool(*b),
            Value::Number(n) => match n.as_u64() {
                Some(n) => v.visit_u64(n),
                None => v.visit_f64(n.as_f64().unwrap()),
            },
            Value::String(s) => match self.1 % 3 {
                0 => v.visit_str(&s.clone()),
                1 => v.visit_borrowed_str(s),
                _ => v.visit_string(s.clone()),
            },
            Value::Array(a) => v.visit_seq(Items(a.iter(), self.1)),
            Value::Object(o) => v.visit_map(Entries(o.iter(), None, self.1)),
        }
    }
    forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

impl<'de> MapAccess<'de> for &mut Doc<'de> {
    type Error = Failed;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Failed> {
        match self.fields.get(self.at) {
            None => Ok(None),
            Some(f) => seed.deserialize(Key(f.0.text(), self.keys)).map(Some),
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, Failed> {
        self.at += 1;
        seed.deserialize(Text(&self.fields[self.at - 1].1, self.strings))
    }
    fn size_hint(&self) -> Option<usize> {
        if self.sized {
            Some(self.fields.len() - self.at)
        } else {
            None
        }
    }
}

impl<'de> Deserializer<'de> for &mut Doc<'de> {
    type Error = Failed;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Failed> {
        v.visit_map(self)
    }
    forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

/// A format that, like MessagePack or CBOR, writes the announced number of fields first.
struct Counted;
struct Fields {
    announced: usize,
    fields: Vec<(String, String)>,
}
struct Str;

macro_rules! refuse {
    ($Ok:ty, $SerStruct:ty; $($f:ident($($t:ty),*);)*) => {
        type Ok = $Ok;
        type Error = Failed;
        type SerializeSeq = Impossible<$Ok, Failed>;
        type SerializeTuple = Impossible<$Ok, Failed>;
        type SerializeTupleStruct = Impossible<$Ok, Failed>;
        type SerializeTupleVariant = Impossible<$Ok, Failed>;
        type SerializeStructVariant = Impossible<$Ok, Failed>;
        $( fn $f(self, $(_: $t),*) -> Result<$Ok, Failed> { Err(Failed(stringify!($f).into())) } )*
        fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<$Ok, Failed> { Err(Failed("some".into())) }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<$Ok, Failed> {
            Err(Failed("newtype struct".into()))
        }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(
            self, _: &'static str, _: u32, _: &'static str, _: &T,
        ) -> Result<$Ok, Failed> {
            Err(Failed("newtype variant".into()))
        }
        fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Failed> { Err(Failed("seq".into())) }
        fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Failed> { Err(Failed("tuple".into())) }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Failed> {
            Err(Failed("tuple struct".into()))
        }
        fn serialize_tuple_variant(
            self, _: &'static str, _: u32, _: &'static str, _: usize,
        ) -> Result<Self::SerializeTupleVariant, Failed> {
            Err(Failed("tuple variant".into()))
        }
        fn serialize_struct_variant(
            self, _: &'static str, _: u32, _: &'static str, _: usize,
        ) -> Result<Self::SerializeStructVariant, Failed> {
            Err(Failed("struct variant".into()))
        }
    };
}

impl ser::Serializer for Str {
    refuse! { String, Impossible<String, Failed>;
        serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64); serialize_u8(u8);
        serialize_u16(u16); serialize_u32(u32); serialize_u64(u64); serialize_f32(f32); serialize_f64(f64);
        serialize_char(char); serialize_bytes(&[u8]); serialize_none(); serialize_unit();
        serialize_unit_struct(&'static str); serialize_unit_variant(&'static str, u32, &'static str);
    }
    type SerializeMap = Impossible<String, Failed>;
    type SerializeStruct = Impossible<String, Failed>;
    fn serialize_str(self, s: &str) -> Result<String, Failed> {
        Ok(s.into())
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Failed> {
        Err(Failed("map".into()))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Failed> {
        Err(Failed("struct".into()))
    }
}

impl SerializeStruct for Fields {
    type Ok = Fields;
    type Error = Failed;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Failed> {
        self.fields.push((k.into(), v.serialize(Str)?));
        Ok(())
    }
    fn end(self) -> Result<Fields, Failed> {
        Ok(self)
    }
}
impl ser::SerializeMap for Fields {
    type Ok = Fields;
    type Error = Failed;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), Failed> {
        self.fields.push((k.serialize(Str)?, String::new()));
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Failed> {
        self.fields.last_mut().unwrap().1 = v.serialize(Str)?;
        Ok(())
    }
    fn end(self) -> Result<Fields, Failed> {
        Ok(self)
    }
}

impl ser::Serializer for Counted {
    refuse! { Fields, Fields;
        serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64); serialize_u8(u8);
        serialize_u16(u16); serialize_u32(u32); serialize_u64(u64); serialize_f32(f32); serialize_f64(f64);
        serialize_char(char); serialize_bytes(&[u8]); serialize_none(); serialize_unit();
        serialize_unit_struct(&'static str); serialize_unit_variant(&'static str, u32, &'static str);
        serialize_str(&str);
    }
    type SerializeMap = Fields;
    type SerializeStruct = Fields;
    fn serialize_map(self, n: Option<usize>) -> Result<Fields, Failed> {
        Ok(Fields { announced: n.ok_or(Failed("the number of fields is not announced".into()))?, fields: vec![] })
    }
    fn serialize_struct(self, _: &'static str, n: usize) -> Result<Fields, Failed> {
        Ok(Fields { announced: n, fields: vec![] })
    }
}

// ---------------------------------------------------------------------------------------------

fn json_string(s: &str, escape: bool) -> String {
    if !escape {
        return serde_json::to_string(s).unwrap();
    }
    let mut out = String::from("\"");
    for u in s.encode_utf16() {
        out.push_str(&format!("\\u{:04x}", u));
    }
    out + "\""
}

fn json(fields: &[(Name, Value)], escape: bool) -> String {
    let items: Vec<String> = fields
        .iter()
        .map(|(k, v)| {
            let v = match v {
                Value::String(s) => json_string(s, escape),
                v => v.to_string(),
            };
            format!("{} :{}", json_string(k.text(), escape), v)
        })
        .collect();
    format!("{{{}}}", items.join(" ,\n"))
}

type Parts = (String, String);

fn parts<T: AsRef<str>>(c: Credentials<T>) -> Parts {
    (c.identifier().to_string(), c.secret().to_string())
}

fn judge<E: Display>(what: &str, got: Result<Parts, E>, want: &Result<Parts, String>) -> Result<(), String> {
    match (got, want) {
        (Ok(g), Ok(w)) => {
            ensure_eq!(g, *w, "{}", what);
            Ok(())
        }
        (Err(_), Err(_)) => Ok(()),
        (Ok(g), Err(why)) => Err(format!("{}: {:?} was made of a response in which {}", what, g, why)),
        (Err(e), Ok(w)) => Err(format!("{}: {:?} was refused: {}", what, w, e)),
    }
}

/// What the fields amount to.
fn meaning(fields: &[(Name, Value)], any_value: bool) -> Result<Parts, String> {
    let one = |n: Name| -> Result<String, String> {
        let v: Vec<_> = fields.iter().filter(|f| f.0.text() == n.text()).collect();
        ensure!(v.len() == 1, "{} is given {} times", n.text(), v.len());
        match &v[0].1 {
            Value::String(s) => Ok(s.clone()),
            v if any_value => Ok(v.to_string()),
            v => Err(format!("{} is {}", n.text(), v)),
        }
    };
    Ok((one(Name::Token)?, one(Name::Secret)?))
}

#[derive(Deserialize, Serialize)]
struct Flat<T> {
    #[serde(flatten)]
    credentials: Credentials<T>,
    oauth_callback_confirmed: bool,
}

fn check_de(case: &Case) -> Result<(), String> {
    let f = &case.fields;
    let want = meaning(f, false);
    let text = json(f, case.escape);
    judge("JSON text", serde_json::from_str::<Credentials>(&text).map(parts), &want)?;
    judge("JSON bytes", serde_json::from_slice::<Credentials<Box<str>>>(text.as_bytes()).map(parts), &want)?;
    judge("JSON reader", serde_json::from_reader::<_, Credentials<Cow<'_, str>>>(text.as_bytes()).map(parts), &want)?;
    judge(
        "JSON list",
        serde_json::from_str::<Vec<Credentials>>(&format!("[{}]", text)).map(|v| parts(v.into_iter().next().unwrap())),
        &want,
    )?;
    // A JSON value tree keeps one of several fields of the same name.
    let mut names: Vec<_> = f.iter().map(|f| f.0.text()).collect();
    names.sort();
    names.dedup();
    if names.len() == f.len() {
        let tree: Value = serde_json::from_str(&text).map_err(|e| format!("harness: {}", e))?;
        judge("JSON tree", serde_json::from_value::<Credentials>(tree.clone()).map(parts), &want)?;
        judge("borrowed JSON tree", Credentials::<&str>::deserialize(&tree).map(parts), &want)?;
    }

    for sized in [false, true] {
        let mut d = Doc { fields: f, keys: case.keys, strings: case.strings, sized, at: 0 };
        judge("another format", Credentials::<String>::deserialize(&mut d).map(parts), &want)?;
        if want.is_ok() {
            ensure_eq!(d.at, f.len(), "fields read of another format");
        }
    }

    // urlencoded responses hold nothing but text.
    let string = |v: &Value| match v {
        Value::String(s) => s.clone(),
        v => v.to_string(),
    };
    let want = meaning(f, true);
    let pairs: Vec<(String, String)> = f.iter().map(|(k, v)| (k.text().to_string(), string(v))).collect();
    let form = pairs
        .iter()
        .map(|(k, v)| {
            let mut v = rfc::enc(v);
            if case.escape {
                v = v.replace("%20", "+");
            }
            format!("{}={}", rfc::enc(k), v)
        })
        .collect::<Vec<_>>()
        .join("&");
    judge("urlencoded text", serde_urlencoded::from_str::<Credentials>(&form).map(parts), &want)?;
    judge("urlencoded bytes", serde_urlencoded::from_bytes::<Credentials<Cow<'_, str>>>(form.as_bytes()).map(parts), &want)?;
    judge(
        "pairs",
        Credentials::<String>::deserialize(MapDeserializer::<_, de::value::Error>::new(
            pairs.iter().map(|(k, v)| (&**k, &**v)),
        ))
        .map(parts),
        &want,
    )?;
    Ok(())
}

fn check_ser(t: &str, s: &str) -> Result<(), String> {
    let c = Credentials::new(t, s);
    let owned = Credentials::new(t.to_string(), s.to_string());
    let want = vec![("oauth_token".to_string(), t.to_string()), ("oauth_token_secret".to_string(), s.to_string())];
    let sorted = |mut v: Vec<(String, String)>| {
        v.sort();
        v
    };
    let r = c.serialize(Counted).map_err(|e| format!("serialization failed: {}", e))?;
    ensure_eq!(sorted(r.fields), want, "serialized fields");
    ensure_eq!(r.announced, 2, "announced number of fields");

    let text = serde_json::to_string(&owned).map_err(|e| format!("to JSON: {}", e))?;
    let tree: Value = serde_json::from_str(&text).map_err(|e| format!("its JSON: {}", e))?;
    ensure_eq!(
        tree,
        serde_json::json!({"oauth_token": t, "oauth_token_secret": s}),
        "its JSON"
    );
    judge("JSON round trip", serde_json::from_str::<Credentials>(&text).map(parts), &Ok((t.into(), s.into())))?;
    let tree = serde_json::to_value(c).map_err(|e| format!("to a JSON tree: {}", e))?;
    judge("JSON tree round trip", serde_json::from_value::<Credentials>(tree).map(parts), &Ok((t.into(), s.into())))?;
    let form = serde_urlencoded::to_string(c).map_err(|e| format!("to a form: {}", e))?;
    judge("form round trip", serde_urlencoded::from_str::<Credentials>(&form).map(parts), &Ok((t.into(), s.into())))?;
    let flat = Flat { credentials: owned, oauth_callback_confirmed: true };
    let text = serde_json::to_string(&flat).map_err(|e| format!("flattened to JSON: {}", e))?;
    judge(
        "flattened round trip",
        serde_json::from_str::<Flat<String>>(&text).map(|f| parts(f.credentials)),
        &Ok((t.into(), s.into())),
    )?;
    let form = serde_urlencoded::to_string(&flat).map_err(|e| format!("flattened to a form: {}", e))?;
    let (mut pairs, mut expected) = (rfc::parse_form(&form.replace('+', "%20"))?, want.clone());
    expected.push(("oauth_callback_confirmed".into(), "true".into()));
    pairs.sort();
    expected.sort();
    ensure_eq!(pairs, expected, "flattened into a form");
    // Any serializable parts.
    let n = serde_json::to_value(Credentials { identifier: 1, secret: 2 }).map_err(|e| e.to_string())?;
    ensure_eq!(n, serde_json::json!({"oauth_token": 1, "oauth_token_secret": 2}), "numbers as parts");
    Ok(())
}

const NEAR: [&str; 16] = [
    "oauth_callback_confirmed", "oauth_tokens", "oauth_toke", "oauth_token_", "oauth_token_secre", "oauth_token_secret_", "OAUTH_TOKEN",
    "oauth-token", "identifier", "secret", "", "token", "oauth_token ", "oauth_Token_secret", "oauth_token[]", "screen_name",
];

/// A text close to a field's name: something added before, within or behind, taken away or exchanged.
fn near(secret: bool, at: usize, what: u8, with: String, times: usize) -> String {
    let name = if secret { "oauth_token_secret" } else { "oauth_token" };
    let (i, n) = (at % name.len(), name.len());
    let (a, b) = name.split_at(i);
    let s = match what {
        0 => format!("{}{}", with, name),
        1 => format!("{}{}", name, with),
        2 => format!("{}{}{}", a, with, b),
        3 => format!("{}{}{}", a, with, &b[1..]),
        4 => format!("{}{}", a, &b[1..]),
        5 => a.to_string(),
        6 => b.to_string(),
        7 => format!("{}{}{}", a, b[..1].to_uppercase(), &b[1..]),
        8 => name.repeat(times),
        9 => format!("{}{}", name, with.repeat(times)),
        10 => format!("{}{}", with.repeat(times), name),
        // As long as the name modulo 256.
        11 => format!("{}{}", name, "a".repeat(256)),
        // Two letters in each other's places.
        _ => {
            let mut v: Vec<char> = name.chars().collect();
            v.swap(i, (i + 1) % n);
            v.into_iter().collect()
        }
    };
    if s == "oauth_token" || s == "oauth_token_secret" {
        format!("{}_", s)
    } else {
        s
    }
}

impl Prop for C17 {
    const ID: &'static str = "C17";
    const RULE: &'static str = "Random responses (both fields once, missing or repeated, as text or of another type, in any order among \
        unrelated and similarly named fields) read from JSON (text, bytes, reader, tree, list), urlencoded text, pairs and a format \
        of our own that presents names in six ways; random credentials serialized to four formats and read back; non-trivial = the \
        response has other fields, repeats or lacks one or holds a value of another type.";
    type Case = Case;
    const CASES: u32 = 250_000;

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let wrong = prop_oneof![
            Just(Value::Null),
            any::<bool>().prop_map(Value::Bool),
            any::<u32>().prop_map(|n| n.into()),
            Just(serde_json::json!([])),
            Just(serde_json::json!({})),
            text().prop_map(|s| serde_json::json!([s])),
            text().prop_map(|s| serde_json::json!([1, {"oauth_token": s}, null])),
            text().prop_map(|s| serde_json::json!({"oauth_token": s, "oauth_token_secret": "x"})),
        ];
        let value = prop_oneof![20 => text().prop_map(Value::String), 1 => wrong.clone()];
        let other = (
            prop_oneof![
                3 => (0usize..16).prop_map(|i| NEAR[i].to_string()),
                3 => (
                    any::<bool>(),
                    0usize..64,
                    0u8..13,
                    prop_oneof![
                        "[\\x00-\\x20\"'%+&=.,;:\\[\\](){}/\\\\_~-]{1,2}",
                        proptest::sample::select(vec!["\u{feff}", "\u{a0}", "\u{200b}", "\u{0}", "%00", "[0]", "_", "\u{17f}", "\u{212a}", "?"]).prop_map(String::from),
                        any::<char>().prop_map(String::from),
                    ],
                    2usize..40,
                )
                    .prop_map(|(secret, at, what, with, times)| near(secret, at, what, with, times)),
                1 => short_text().prop_map(|s| if s.starts_with("oauth_token") { format!("_{}", s) } else { s }),
            ],
            prop_oneof![text().prop_map(Value::String), wrong],
        )
            .prop_map(|(k, v)| (Name::Other(k), v));
        let n = |name: Name| {
            (prop_oneof![30 => Just(1usize), 1 => Just(0), 2 => 2usize..4], vec(value.clone(), 3))
                .prop_map(move |(n, v)| v.into_iter().take(n).map(|v| (name.clone(), v)).collect::<Vec<_>>())
        };
        (
            n(Name::Token),
            n(Name::Secret),
            vec(other, 0..5),
            vec(any::<u32>(), 12),
            any::<u8>(),
            any::<u8>(),
            any::<bool>(),
        )
            .prop_map(|(t, s, o, order, keys, strings, escape)| {
                let mut all: Vec<_> = t.into_iter().chain(s).chain(o).zip(order).collect();
                all.sort_by_key(|x| x.1);
                Case { fields: all.into_iter().map(|x| x.0).collect(), keys, strings, escape }
            })
            .boxed()
    }

    fn check(case: &Case, st: &mut Stats) -> Result<(), String> {
        check_de(case)?;
        let m = meaning(&case.fields, false);
        if let Ok((t, s)) = &m {
            check_ser(t, s)?;
        }
        if m.is_err() || case.fields.len() > 2 {
            st.nontrivial();
        }
        st.label(if m.is_ok() { "accepted" } else { "refused" });
        Ok(())
    }
}

fn main() {
    run::<C17>()
}
