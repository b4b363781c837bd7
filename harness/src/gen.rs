//! Generators shared by the properties.

use std::fmt::{self, Display, Formatter, Write};
use std::num::NonZeroU64;
use std::path::Path;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::OnceLock;

use oauth::serializer::{Serializer, SerializerExt};
use oauth::{Credentials, Request};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::rfc::enc;

// ---------------------------------------------------------------------------------------------
// Text

/// Building blocks of texts, simplest first (generated integers index this table and shrink to 0).
pub const TOKENS: &[&str] = &[
    "a", "b", "0", "Z", "z", "9", "A", "-", ".", "_", "~", " ", "+", "&", "=", "%", "/", "?", "#",
    ":", ";", ",", "\"", "'", "\\", "!", "*", "(", ")", "@", "$", "<", ">", "[", "]", "^", "`",
    "{", "|", "}", "\t", "\n", "\r", "\0", "\u{1}", "\u{7}", "\u{1b}", "\u{1f}", "\u{7f}",
    "%20", "%25", "%41", "%61", "%2B", "%2b", "%zz", "%E3%81%82", "%00", "%2", "%%", "%26", "%3D",
    "\u{80}", "\u{a0}", "\u{ad}", "é", "e\u{301}", "ß", "ÿ", "\u{7ff}", "\u{800}", "あ", "日本",
    "\u{d7ff}", "\u{e000}", "\u{feff}", "\u{fffd}", "\u{ffff}", "\u{10000}", "🦀", "👩\u{200d}👧",
    "\u{10ffff}", "\u{2028}", "\u{202e}", "aa", "ab", "ba", "&a=b", "oauth_token", "oauth_signature=",
    "\",\"", "\", oauth_nonce=\"x", "%26oauth_token%3D", "--", "__", "~~", "..", "zz", "00",
];

pub fn token(i: u32) -> String {
    match TOKENS.get(i as usize) {
        Some(t) => t.to_string(),
        None => {
            // Spread the remaining range over all scalar values.
            let x = (i - TOKENS.len() as u32).wrapping_mul(0x9E37_79B1) % 0x11_0000;
            char::from_u32(x).unwrap_or('\u{fffd}').to_string()
        }
    }
}

const TOKEN_RANGE: u32 = 200;

fn toks(n: std::ops::Range<usize>) -> impl Strategy<Value = String> {
    vec(0..TOKEN_RANGE, n).prop_map(|v| v.into_iter().map(token).collect())
}

static SMALL: AtomicBool = AtomicBool::new(false);

/// Keeps the generators from making huge things (where sinks are small or checks are interpreted).
pub fn no_huge() {
    SMALL.store(true, Ordering::Relaxed);
}

/// Texts and numbers that an implementation may take for something special: words of OAuth, and (as a fuzzer's
/// dictionary) the literals found in the library's sources. They only steer generation; no oracle knows them.
pub struct Dictionary {
    pub words: Vec<String>,
    pub numbers: Vec<u32>,
}

const WORDS: &[&str] = &[
    "oob", "none", "null", "true", "false", "1.0", "2.0", "1.0a", "HMAC-SHA1", "PLAINTEXT", "RSA-SHA1", "HMAC-SHA256", "OAuth", "OAuth ", "Bearer ",
    "Basic ", "realm", "oauth_body_hash", "oauth_callback_confirmed", "oauth_token_secret", "oauth_problem", "oauth_session_handle",
    "oauth_signature", "oauth_consumer_secret", "xoauth_requestor_id", "x_auth_username", "x_auth_password", "x_auth_mode", "client_auth",
    "callback", "consumer", "token", "status", "media", "file", "image", "screen_name", "include_entities", "user", "id", "q", "key", "secret",
    "localhost", "127.0.0.1", "http://", "https://", "http://localhost/", "https://example.com/callback", "https://example.com:443/", "://",
    ":80", ":443", "text/plain", "application/x-www-form-urlencoded", "multipart/form-data", "GET&", "POST&", "&&", "Some(", "None", "()",
    "\r\n", "\r\nX: y", "\u{feff}oauth", "../", "0x", "-1", "+1", "1e5", "NaN", "inf", "18446744073709551615", "4294967296", "İ", "ı", "ſ", "K", "ﬁ",
];

/// The texts and integers a piece of Rust writes out, comments aside.
fn literals(src: &str, d: &mut Dictionary) {
    let b: Vec<char> = src.chars().collect();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            '/' if b.get(i + 1) == Some(&'/') => {
                while i < b.len() && b[i] != '\n' {
                    i += 1;
                }
            }
            '"' => {
                let mut t = String::new();
                i += 1;
                while i < b.len() && b[i] != '"' {
                    if b[i] == '\\' {
                        i += 1;
                        match b.get(i) {
                            Some('n') => t.push('\n'),
                            Some('t') => t.push('\t'),
                            Some('r') => t.push('\r'),
                            Some('0') => t.push('\0'),
                            Some(&c) => t.push(c),
                            None => {}
                        }
                    } else {
                        t.push(b[i]);
                    }
                    i += 1;
                }
                if (1..=64).contains(&t.chars().count()) {
                    d.words.push(t);
                }
            }
            '\'' if b.get(i + 2) == Some(&'\'') && b[i + 1] != '\\' => {
                d.words.push(b[i + 1].to_string());
                i += 2;
            }
            c if c.is_ascii_digit() && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_')) => {
                let from = i;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_') {
                    i += 1;
                }
                let t: String = b[from..i].iter().filter(|&&c| c != '_').collect();
                let n = match t.strip_prefix("0x") {
                    Some(x) => u32::from_str_radix(x, 16).ok(),
                    None => t.trim_end_matches(|c: char| !c.is_ascii_digit()).parse().ok(),
                };
                d.numbers.extend(n.filter(|n| (2..=5000).contains(n)));
                continue;
            }
            _ => {}
        }
        i += 1;
    }
}

fn scan(dir: &Path, d: &mut Dictionary) {
    let Ok(entries) = std::fs::read_dir(dir) else { return };
    let mut paths: Vec<_> = entries.flatten().map(|e| e.path()).collect();
    paths.sort();
    for p in paths {
        if p.is_dir() {
            scan(&p, d);
        } else if p.extension().is_some_and(|e| e == "rs") {
            let src = std::fs::read_to_string(&p).unwrap_or_default();
            let end = src.find("#[cfg(test)]\nmod ").unwrap_or(src.len());
            literals(&src[..end], d);
        }
    }
}

pub fn dictionary() -> &'static Dictionary {
    static D: OnceLock<Dictionary> = OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dictionary {
            words: WORDS.iter().map(|w| w.to_string()).collect(),
            numbers: vec![8, 16, 32, 64, 100, 128, 255, 256],
        };
        let root = Path::new(concat!(env!("CARGO_MANIFEST_DIR"), "/../../repo"));
        for krate in ["oauth1-request/src", "oauth-credentials/src"] {
            scan(&root.join(krate), &mut d);
        }
        d.words.sort();
        d.words.dedup();
        d.numbers.sort_unstable();
        d.numbers.dedup();
        d
    })
}

/// A word of the dictionary, perhaps in company or altered, or a text whose length is one of its numbers.
pub fn word() -> BoxedStrategy<String> {
    (any::<u16>(), 0u8..16, 0..TOKEN_RANGE)
        .prop_map(|(i, op, t)| {
            let d = dictionary();
            let w = &d.words[i as usize % d.words.len()];
            let n = d.numbers[i as usize % d.numbers.len()];
            match op {
                0..=5 => w.clone(),
                6 | 7 => format!("{}{}", w, token(t)),
                8 | 9 => format!("{}{}", token(t), w),
                10 => w.chars().skip(1).collect(),
                11 => w.to_uppercase(),
                12 => w.to_lowercase(),
                13 => n.to_string(),
                op => {
                    // A length in characters of one kind, give or take one.
                    let n = (n as usize + usize::from(op == 15)).saturating_sub(usize::from(t % 3 == 0));
                    token(t).chars().cycle().take(n).collect()
                }
            }
        })
        .boxed()
}

/// One token repeated to a length (in bytes) next to a power of two, up to 128 KiB.
fn huge() -> BoxedStrategy<String> {
    (0..TOKEN_RANGE, 8u32..=17, 0usize..4)
        .prop_map(|(t, k, d)| {
            let t = token(t);
            let n = (1usize << k) + d - 2;
            t.repeat(n / t.len()) + &"x".repeat(n % t.len())
        })
        .boxed()
}

/// Any text: empty, short, medium, long, a word of the dictionary, or a single token repeated up to a few kilobytes; rarely a huge one.
pub fn text() -> BoxedStrategy<String> {
    let usual = prop_oneof![
        6 => toks(1..6),
        2 => Just(String::new()),
        4 => "[a-zA-Z0-9_.~-]{1,12}",
        3 => toks(6..24),
        1 => toks(24..90),
        1 => (0..TOKEN_RANGE, 1usize..700).prop_map(|(t, n)| token(t).repeat(n)),
        1 => word(),
    ];
    if SMALL.load(Ordering::Relaxed) {
        usual.boxed()
    } else {
        prop_oneof![1500 => usual, 1 => huge()].boxed()
    }
}

/// Shorter texts, for things of which a case holds many.
pub fn short_text() -> BoxedStrategy<String> {
    prop_oneof![
        6 => toks(1..5),
        2 => Just(String::new()),
        2 => "[a-z0-9]{1,4}",
        1 => toks(5..16),
        1 => word(),
    ]
    .boxed()
}

/// Shared secrets: lengths crowd around the 64-byte HMAC block, counted after encoding.
pub fn secret() -> BoxedStrategy<String> {
    prop_oneof![
        4 => text(),
        3 => "[a-zA-Z0-9]{20,70}",
        2 => (0..TOKEN_RANGE, 1usize..25, "[a-z]{0,12}")
            .prop_map(|(t, n, s)| token(t).repeat(n) + &s),
        1 => (55usize..70).prop_map(|n| "k".repeat(n)),
    ]
    .boxed()
}

/// A text together with the way its `Display` implementation writes it.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Val {
    pub s: String,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub cuts: Vec<u16>,
    #[serde(default, skip_serializing_if = "is_zero")]
    pub style: u8,
}

fn is_zero(x: &u8) -> bool {
    *x == 0
}

impl Val {
    pub fn new(s: impl Into<String>) -> Val {
        Val {
            s: s.into(),
            cuts: vec![],
            style: 0,
        }
    }

    /// The pieces the text is written in.
    pub fn pieces(&self) -> Vec<&str> {
        let bounds: Vec<usize> = self
            .s
            .char_indices()
            .map(|(i, _)| i)
            .chain(Some(self.s.len()))
            .collect();
        let mut at: Vec<usize> = self
            .cuts
            .iter()
            .map(|&c| bounds[c as usize % bounds.len()])
            .collect();
        at.sort_unstable();
        at.push(self.s.len());
        let mut prev = 0;
        at.into_iter()
            .map(|i| {
                let p = &self.s[prev..i];
                prev = i;
                p
            })
            .collect()
    }
}

impl Display for Val {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        if f.alternate()
            || f.width().is_some()
            || f.precision().is_some()
            || f.sign_plus()
            || f.sign_aware_zero_pad()
        {
            // The text of a value is what `{}` prints.
            f.write_str("<formatted with unexpected flags>")?;
        }
        for (i, p) in self.pieces().into_iter().enumerate() {
            match (self.style, i % 3) {
                (0, _) => f.write_str(p)?,
                (1, _) => p.chars().try_for_each(|c| f.write_char(c))?,
                (2, _) => write!(f, "{}", p)?,
                (3, _) => f.pad(p)?,
                (4, 1) => write!(f, "{}{}", "", format_args!("{}", p))?,
                (4, 2) => p.chars().try_for_each(|c| write!(f, "{:}", c))?,
                (_, _) => Display::fmt(p, f)?,
            }
        }
        Ok(())
    }
}

pub fn val_of(t: BoxedStrategy<String>) -> BoxedStrategy<Val> {
    (
        t,
        prop_oneof![2 => Just(vec![]), 1 => vec(any::<u16>(), 1..5)],
        0u8..5,
    )
        .prop_map(|(s, cuts, style)| Val { s, cuts, style })
        .boxed()
}

// ---------------------------------------------------------------------------------------------
// Parameter names

pub const PROTOCOL: [&str; 8] = [
    "oauth_callback",
    "oauth_consumer_key",
    "oauth_nonce",
    "oauth_signature_method",
    "oauth_timestamp",
    "oauth_token",
    "oauth_verifier",
    "oauth_version",
];

const UNRESERVED: &[u8] = b"a0Zz9A-._~bcdefghijklmnopqrstuvwxyBCDEFGHIJKLMNOPQRSTUVWXY12345678";

pub fn is_protocol_name(k: &str) -> bool {
    PROTOCOL.contains(&k) || k == "oauth_signature"
}

/// Neighbours of the protocol parameter names in the byte order, and other names.
fn near_protocol(i: u8, op: u8, pos: u8, c: u8) -> String {
    let base = match PROTOCOL.get(i as usize) {
        Some(b) => *b,
        None => ["oauth_signature", "oauth", "oauth_"][i as usize % 3],
    };
    let ch = UNRESERVED[c as usize % UNRESERVED.len()] as char;
    let p = pos as usize % (base.len() + 1);
    match op % 6 {
        // prefix
        0 => base[..p].to_string(),
        // extension
        1 => format!("{}{}", base, ch),
        // replaced character
        2 if p < base.len() => format!("{}{}{}", &base[..p], ch, &base[p + 1..]),
        // prefix and another character
        3 => format!("{}{}", &base[..p], ch),
        // the next or previous last character
        4 => {
            let mut b = base.as_bytes().to_vec();
            let l = b.len() - 1;
            let d = if pos % 2 == 0 { b[l] + 1 } else { b[l] - 1 };
            b[l] = if crate::rfc::is_unreserved(d) { d } else { b'~' };
            String::from_utf8(b).unwrap()
        }
        // other case
        _ => base.to_ascii_uppercase(),
    }
}

pub fn key() -> BoxedStrategy<String> {
    prop_oneof![
        4 => "[a-c]{1,2}",
        5 => (0u8..11, 0u8..6, any::<u8>(), any::<u8>())
            .prop_map(|(i, o, p, c)| near_protocol(i, o, p, c)),
        4 => "[a-zA-Z0-9._~-]{1,12}",
        1 => "[n-pz~][a-z~-]{0,3}",
        1 => Just(String::new()),
        1 => ("[a-z~]", prop_oneof![60 => 1usize..120, 1 => 250usize..260, 1 => 1020usize..1030])
            .prop_map(|(s, n)| s.repeat(n)),
        1 => word().prop_map(|w| w.chars().filter(|c| c.is_ascii() && crate::rfc::is_unreserved(*c as u8)).take(260).collect()),
    ]
    .prop_map(|k: String| if is_protocol_name(&k) { k + "_" } else { k })
    .boxed()
}

// ---------------------------------------------------------------------------------------------
// Requests

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Param {
    pub k: String,
    pub v: Val,
    /// Given to the serializer as already encoded (only for hand-written requests).
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub e: bool,
}

impl Param {
    pub fn new(k: &str, v: &str) -> Param {
        Param {
            k: k.into(),
            v: Val::new(v),
            e: false,
        }
    }
    /// The value as it appears in a form.
    pub fn encoded(&self) -> String {
        enc(&self.v.s)
    }
}

/// Parameter sequences with plenty of equal names and of equal or neighbouring values.
pub fn params_of(
    n: impl Into<proptest::collection::SizeRange>,
    v: BoxedStrategy<Val>,
) -> BoxedStrategy<Vec<Param>> {
    vec((key(), v, any::<u8>(), any::<u8>(), any::<bool>()), n)
        .prop_map(|raw| {
            let mut out: Vec<Param> = Vec::with_capacity(raw.len());
            for (k, mut v, ks, vs, e) in raw {
                let n = out.len();
                let mut key = k;
                if n > 0 {
                    let prev = &out[ks as usize % n];
                    if ks >= 150 {
                        key = prev.k.clone();
                    }
                    if vs >= 160 {
                        // Equal to, extending or differing in one place from another value.
                        v.s = match vs % 4 {
                            0 => prev.v.s.clone(),
                            1 => format!("{}{}", prev.v.s, v.s),
                            2 => {
                                let mut t = prev.v.s.clone();
                                t.pop();
                                t + &v.s
                            }
                            _ => {
                                let h = prev.v.s.chars().count() / 2;
                                let t: String = prev.v.s.chars().take(h).collect();
                                t + &v.s
                            }
                        };
                        if v.s.len() > 6000 {
                            v.s.clear();
                        }
                    }
                }
                out.push(Param { k: key, v, e });
            }
            out
        })
        .boxed()
}

pub fn params() -> BoxedStrategy<Vec<Param>> {
    let usual = prop_oneof![
        10 => params_of(0..7, val_of(text())),
        3 => params_of(1..4, val_of(short_text())),
        1 => params_of(7..45, val_of(short_text())),
    ];
    if SMALL.load(Ordering::Relaxed) {
        usual.boxed()
    } else {
        prop_oneof![600 => usual, 1 => params_of(250..270, val_of(short_text()))].boxed()
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Kind {
    /// `ParameterList` over a `Vec`, built with `new` from the unsorted pairs.
    List,
    /// `AssertSorted` over the sorted pairs.
    Sorted,
    /// A hand-written `Request` mixing plain and encoded parameters.
    Custom,
    /// `Some` of a `ParameterList` built by `collect`.
    OptList,
    /// A reference to a list of borrowed pairs built by `from_sorted`.
    RefList,
    /// A list grown by `extend`.
    Extended,
    /// `()` if there are no parameters, else as `List`.
    Unit,
    /// `None` if there are no parameters, else as `Custom` through `&mut`.
    None,
}

pub const KINDS: [Kind; 8] = [
    Kind::List,
    Kind::Sorted,
    Kind::Custom,
    Kind::OptList,
    Kind::RefList,
    Kind::Extended,
    Kind::Unit,
    Kind::None,
];

pub fn kind() -> BoxedStrategy<Kind> {
    (0usize..8).prop_map(|i| KINDS[i]).boxed()
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct ReqSpec {
    pub kind: Kind,
    pub params: Vec<Param>,
}

pub fn req() -> BoxedStrategy<ReqSpec> {
    (kind(), params())
        .prop_map(|(kind, params)| ReqSpec { kind, params })
        .boxed()
}

/// A hand-written request: feeds its (sorted) parameters around the protocol hooks.
pub struct CustomReq(pub Vec<Param>);

impl Request for CustomReq {
    fn serialize<S: Serializer>(&self, mut s: S) -> S::Output {
        let mut hook = 0;
        for p in &self.0 {
            while hook < 8 && PROTOCOL[hook] < &*p.k {
                call_hook(&mut s, hook);
                hook += 1;
            }
            if p.e {
                // An already encoded value writes itself in the same manner as the plain one.
                let v = Val {
                    s: p.encoded(),
                    cuts: p.v.cuts.clone(),
                    style: p.v.style,
                };
                s.serialize_parameter_encoded(&p.k, v);
            } else {
                s.serialize_parameter(&p.k, &p.v);
            }
        }
        if hook == 0 {
            s.serialize_oauth_parameters();
        } else {
            for h in hook..8 {
                call_hook(&mut s, h);
            }
        }
        s.end()
    }
}

pub fn call_hook<S: Serializer>(s: &mut S, i: usize) {
    match i {
        0 => s.serialize_oauth_callback(),
        1 => s.serialize_oauth_consumer_key(),
        2 => s.serialize_oauth_nonce(),
        3 => s.serialize_oauth_signature_method(),
        4 => s.serialize_oauth_timestamp(),
        5 => s.serialize_oauth_token(),
        6 => s.serialize_oauth_verifier(),
        7 => s.serialize_oauth_version(),
        _ => unreachable!(),
    }
}

type Pair = (String, Val);

/// A request built from a [`ReqSpec`] through the library's public constructors.
pub enum DynReq {
    List(oauth::ParameterList<String, Val>),
    Sorted(oauth::request::AssertSorted<std::vec::IntoIter<Pair>>),
    Custom(CustomReq),
    OptList(Option<oauth::ParameterList<String, Val>>),
    RefList(Vec<Pair>),
    Unit,
    None,
    MutCustom(CustomReq),
}

impl ReqSpec {
    /// The parameters in the order RFC 5849 prescribes.
    pub fn sorted(&self) -> Vec<Param> {
        let mut p = self.params.clone();
        p.sort_by(|a, b| (&a.k, a.encoded()).cmp(&(&b.k, b.encoded())));
        p
    }

    fn pairs(p: &[Param]) -> Vec<Pair> {
        p.iter().map(|p| (p.k.clone(), p.v.clone())).collect()
    }

    pub fn build(&self) -> DynReq {
        match self.kind {
            Kind::Unit if self.params.is_empty() => DynReq::Unit,
            Kind::None if self.params.is_empty() => DynReq::None,
            Kind::List | Kind::Unit => {
                DynReq::List(oauth::ParameterList::new(Self::pairs(&self.params)))
            }
            Kind::Sorted => DynReq::Sorted(oauth::request::AssertSorted::new(Self::pairs(
                &self.sorted(),
            ))),
            Kind::Custom => DynReq::Custom(CustomReq(self.sorted())),
            Kind::None => DynReq::MutCustom(CustomReq(self.sorted())),
            Kind::OptList => DynReq::OptList(Some(Self::pairs(&self.params).into_iter().collect())),
            Kind::RefList => DynReq::RefList(Self::pairs(&self.sorted())),
            Kind::Extended => {
                let pairs = Self::pairs(&self.params);
                let mut it = pairs.into_iter();
                let mut l: oauth::ParameterList<String, Val> =
                    it.by_ref().take(self.params.len() / 2).collect();
                l.extend(it);
                DynReq::List(l)
            }
        }
    }

    /// The request's parameters, decoded, in RFC order.
    pub fn expected(&self) -> Vec<(String, String)> {
        self.sorted().into_iter().map(|p| (p.k, p.v.s)).collect()
    }
}

impl Request for DynReq {
    fn serialize<S: Serializer>(&self, s: S) -> S::Output {
        match self {
            DynReq::List(l) => l.serialize(s),
            DynReq::Sorted(l) => l.serialize(s),
            DynReq::Custom(l) => l.serialize(s),
            DynReq::OptList(l) => l.serialize(s),
            DynReq::RefList(l) => {
                let refs: Vec<&Pair> = l.iter().collect();
                let list = oauth::ParameterList::<String, Val, _, _>::from_sorted(&refs[..])
                    .expect("a list sorted by name and encoded value was refused");
                (&list).serialize(s)
            }
            DynReq::Unit => Request::serialize(&(), s),
            DynReq::None => None::<CustomReq>.serialize(s),
            DynReq::MutCustom(l) => {
                let mut c = CustomReq(l.0.clone());
                (&mut c).serialize(s)
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Signing inputs

pub const STD_METHODS: [&str; 9] = [
    "GET", "PUT", "POST", "DELETE", "OPTIONS", "HEAD", "CONNECT", "PATCH", "TRACE",
];

const OTHER_METHODS: [&str; 12] = [
    "PROPFIND", "MKCOL", "QUERY", "LINK", "M-SEARCH", "PURGE", "get", "Post", "GETS", "GE", "PUTT", "HEADER",
];

/// Standard methods, and custom upper-case HTTP tokens.
pub fn method() -> BoxedStrategy<String> {
    prop_oneof![
        4 => (0usize..9).prop_map(|i| STD_METHODS[i].to_string()),
        1 => "[A-Z]{1,9}",
        1 => "[a-zA-Z]{1,7}",
        1 => "[A-Z0-9!#$%&'*+.^_`|~-]{1,10}",
        1 => (0usize..OTHER_METHODS.len()).prop_map(|i| OTHER_METHODS[i].to_string()),
    ]
    .boxed()
}

const URIS: [&str; 22] = [
    "http://example.com", "http://example.com/", "https://example.com", "https://example.com/", "http://example.com:80/", "https://example.com:443/",
    "https://example.com:80/", "http://example.com:443/", "http://EXAMPLE.COM:80/r%20v/X", "HTTP://example.com/", "https://www.example.net:8080/",
    "http://localhost/", "http://127.0.0.1:3000/a", "http://[::1]:8080/", "https://user:pw@example.com/", "https://example.com//a/../b/./c",
    "http://example.com/%7euser", "http://example.com/~user", "https://例え.jp/あ", "urn:oauth", "/relative", "",
];

pub fn uri() -> BoxedStrategy<Val> {
    let realistic = (
        prop_oneof![Just("http"), Just("https")],
        "[a-z][a-z0-9.-]{0,15}",
        prop_oneof![2 => Just(String::new()), 1 => "(:[0-9]{1,5})"],
        "(/[a-zA-Z0-9._~!$&'()*+,;=:@%-]{0,8}){0,4}",
    )
        .prop_map(|(s, h, p, q)| format!("{}://{}{}{}", s, h, p, q));
    let any = text().prop_map(|s| s.replace(['?', '#'], "/"));
    let special = (0usize..URIS.len(), 0..TOKEN_RANGE, 0u8..4).prop_map(|(i, t, op)| match op {
        0 => format!("{}{}", URIS[i], token(t).replace(['?', '#'], "/")),
        1 => URIS[i].to_ascii_uppercase(),
        _ => URIS[i].to_string(),
    });
    val_of(prop_oneof![6 => realistic, 4 => any, 1 => special].boxed())
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Opts {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub callback: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub verifier: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub nonce: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub timestamp: Option<u64>,
    pub version: bool,
}

pub fn timestamp() -> BoxedStrategy<u64> {
    prop_oneof![
        2 => Just(1u64),
        3 => 1u64..2_000_000_000,
        2 => (0u32..64).prop_map(|s| (u64::MAX >> s).max(1)),
        2 => (0u32..20).prop_map(|e| 10u64.pow(e)),
        1 => (1u32..20).prop_map(|e| 10u64.pow(e) - 1),
        1 => any::<u64>().prop_map(|x| x.max(1)),
    ]
    .boxed()
}

pub fn opts() -> BoxedStrategy<Opts> {
    (
        proptest::option::of(text()),
        proptest::option::of(text()),
        proptest::option::weighted(0.8, text()),
        proptest::option::weighted(0.8, timestamp()),
        any::<bool>(),
    )
        .prop_map(|(callback, verifier, nonce, timestamp, version)| Opts {
            callback,
            verifier,
            nonce,
            timestamp,
            version,
        })
        .boxed()
}

/// Options with pinned nonce and timestamp.
pub fn pinned_opts() -> BoxedStrategy<Opts> {
    (opts(), text(), timestamp())
        .prop_map(|(mut o, n, t)| {
            o.nonce.get_or_insert(n);
            o.timestamp.get_or_insert(t);
            o
        })
        .boxed()
}

impl Opts {
    pub fn auth(&self) -> oauth::serializer::auth::Options<'_> {
        let mut o = oauth::serializer::auth::Options::new();
        o.callback(self.callback.as_deref())
            .verifier(self.verifier.as_deref())
            .nonce(self.nonce.as_deref())
            .timestamp(self.timestamp.and_then(NonZeroU64::new))
            .version(self.version);
        o
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct SignCase {
    pub method: String,
    pub uri: Val,
    pub client: (String, String),
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub token: Option<(String, String)>,
    pub opts: Opts,
    pub req: ReqSpec,
}

pub fn sign_case_with(o: BoxedStrategy<Opts>) -> BoxedStrategy<SignCase> {
    (
        method(),
        uri(),
        (text(), secret()),
        proptest::option::weighted(0.75, (text(), secret())),
        o,
        req(),
        prop_oneof![4 => Just(vec![]), 1 => vec((any::<u8>(), any::<u8>(), 0u8..8), 1..4)],
    )
        .prop_map(|(method, uri, client, token, opts, req, related)| {
            let mut c = SignCase {
                method,
                uri,
                client,
                token,
                opts,
                req,
            };
            for r in related {
                c.relate(r);
            }
            c
        })
        .boxed()
}

impl SignCase {
    /// Copies one text of the case (as it is or altered) over another.
    fn relate(&mut self, (from, to, op): (u8, u8, u8)) {
        let texts = {
            let mut t: Vec<String> = vec![self.client.0.clone(), self.client.1.clone(), self.method.clone(), self.uri.s.clone()];
            t.extend(self.token.iter().flat_map(|t| [t.0.clone(), t.1.clone()]));
            t.extend([&self.opts.callback, &self.opts.verifier, &self.opts.nonce].into_iter().flatten().cloned());
            t.extend(self.opts.timestamp.map(|t| t.to_string()));
            t.extend(self.req.params.iter().take(3).flat_map(|p| [p.v.s.clone(), p.k.clone()]));
            t
        };
        let mut t = texts[from as usize % texts.len()].clone();
        match op {
            5 => {
                t.pop();
            }
            6 => t.push('a'),
            7 => t = t.to_uppercase(),
            _ => {}
        }
        if t.len() > 6000 {
            return;
        }
        let bare = t.replace(['?', '#'], "/");
        let mut places: Vec<&mut String> = vec![&mut self.client.0, &mut self.client.1, &mut self.uri.s];
        places.extend(self.token.iter_mut().flat_map(|t| [&mut t.0, &mut t.1]));
        places.extend([&mut self.opts.callback, &mut self.opts.verifier, &mut self.opts.nonce].into_iter().flatten());
        places.extend(self.req.params.iter_mut().take(3).map(|p| &mut p.v.s));
        let n = places.len();
        let to = to as usize % n;
        *places[to] = if to == 2 { bare } else { t };
    }
}

pub fn sign_case() -> BoxedStrategy<SignCase> {
    sign_case_with(opts())
}

pub fn pinned_case() -> BoxedStrategy<SignCase> {
    sign_case_with(pinned_opts())
}

impl SignCase {
    pub fn client(&self) -> Credentials<&str> {
        Credentials::new(&*self.client.0, &*self.client.1)
    }
    pub fn token(&self) -> Option<Credentials<&str>> {
        self.token.as_ref().map(|t| Credentials::new(&*t.0, &*t.1))
    }
    pub fn token_secret(&self) -> Option<&str> {
        self.token.as_ref().map(|t| &*t.1)
    }

    pub fn builder<SM: oauth::signature_method::SignatureMethod>(
        &self,
        sm: SM,
    ) -> oauth::Builder<'_, SM, &str, &str> {
        let mut b = match self.token() {
            Some(t) => oauth::Builder::with_token(oauth::Token::new(self.client(), t), sm),
            None => oauth::Builder::new(self.client(), sm),
        };
        b.callback(self.opts.callback.as_deref())
            .verifier(self.opts.verifier.as_deref())
            .nonce(self.opts.nonce.as_deref())
            .timestamp(self.opts.timestamp.and_then(NonZeroU64::new))
            .version(self.opts.version);
        b
    }

    /// The protocol parameters (without the signature) that must be sent, in order, when nonce and
    /// timestamp are the given ones (`None`: the method does not use them).
    pub fn protocol_with(
        &self,
        method_name: &str,
        nonce: Option<&str>,
        timestamp: Option<u64>,
    ) -> Vec<(String, String)> {
        let mut out = Vec::new();
        let mut push = |k: &str, v: &str| out.push((k.to_string(), v.to_string()));
        if let Some(ref c) = self.opts.callback {
            push("oauth_callback", c);
        }
        push("oauth_consumer_key", &self.client.0);
        if let Some(n) = nonce {
            push("oauth_nonce", n);
        }
        push("oauth_signature_method", method_name);
        if let Some(t) = timestamp {
            push("oauth_timestamp", &t.to_string());
        }
        if let Some(ref t) = self.token {
            push("oauth_token", &t.0);
        }
        if let Some(ref v) = self.opts.verifier {
            push("oauth_verifier", v);
        }
        if self.opts.version {
            push("oauth_version", "1.0");
        }
        out
    }

    /// As [`protocol_with`](Self::protocol_with) with the case's pinned nonce and timestamp.
    pub fn protocol(&self, method_name: &str) -> Vec<(String, String)> {
        self.protocol_with(
            method_name,
            Some(self.opts.nonce.as_deref().expect("pinned nonce")),
            Some(self.opts.timestamp.expect("pinned timestamp")),
        )
    }

    /// The reference signature base string of a pinned case.
    pub fn base_string(&self, method_name: &str) -> String {
        let mut all = self.protocol(method_name);
        all.extend(self.req.expected());
        crate::rfc::base_string(&self.method, &self.uri.s, &all)
    }

    /// The whole reference header of a pinned case signed with HMAC-SHA1.
    pub fn reference_hmac(&self) -> String {
        crate::rfc::hmac_signature(
            &self.base_string("HMAC-SHA1"),
            &self.client.1,
            self.token_secret(),
        )
    }

    pub fn header_of(&self, method_name: &str, signature: &str) -> String {
        let mut h = String::from("OAuth ");
        for (k, v) in self.protocol(method_name) {
            h.push_str(&format!("{}=\"{}\",", k, enc(&v)));
        }
        h + &format!("oauth_signature=\"{}\"", enc(signature))
    }

    /// The reference urlencoded string (in serialization order) of a pinned case.
    pub fn form_of(&self, method_name: &str, signature: &str) -> String {
        let mut all = self.protocol(method_name);
        all.extend(self.req.expected());
        all.sort_by(|a, b| (&a.0, enc(&a.1)).cmp(&(&b.0, enc(&b.1))));
        all.push(("oauth_signature".into(), signature.into()));
        all.iter()
            .map(|(k, v)| format!("{}={}", k, enc(v)))
            .collect::<Vec<_>>()
            .join("&")
    }
}
