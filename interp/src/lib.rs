//! Answers cases with what the library makes of them, through sinks and signature methods that look at
//! every piece of text they are handed. Run natively (the harness includes this file) and, as a program
//! of its own, by the Miri interpreter, for several platforms.

use std::cell::{Cell, RefCell};
use std::fmt::{self, Display, Formatter, Write};
use std::num::NonZeroU64;
use std::panic::{catch_unwind, AssertUnwindSafe};

use either::Either;
use oauth::serializer::auth::{Authorizer, Options};
use oauth::serializer::recorder::Recorder;
use oauth::serializer::{Serializer, SerializerExt, Urlencoder};
use oauth::signature_method::{rsa_sha1_06, rsa_sha1_09, Sign, SignatureMethod};
use oauth::{Builder, Credentials, ParameterList, Request, Token};

struct In<'a>(&'a [u8]);

impl<'a> In<'a> {
    fn take(&mut self, n: usize) -> &'a [u8] {
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    fn u8(&mut self) -> u8 {
        self.take(1)[0]
    }
    fn u32(&mut self) -> usize {
        let a = self.take(4);
        u32::from_le_bytes([a[0], a[1], a[2], a[3]]) as usize
    }
    fn u64(&mut self) -> u64 {
        let a = self.take(8);
        u64::from_le_bytes([a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]])
    }
    fn bytes(&mut self) -> &'a [u8] {
        let n = self.u32();
        self.take(n)
    }
    fn str(&mut self) -> &'a str {
        std::str::from_utf8(self.bytes()).unwrap()
    }
    fn opt(&mut self) -> Option<&'a str> {
        (self.u8() == 1).then(|| self.str())
    }
    fn text(&mut self) -> Text<'a> {
        let style = self.u8();
        let n = self.u32();
        Text { style, pieces: (0..n).map(|_| self.str()).collect() }
    }
}

/// A text that writes itself in the given pieces.
#[derive(Clone, Default)]
struct Text<'a> {
    style: u8,
    pieces: Vec<&'a str>,
}

impl Display for Text<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        for (i, p) in self.pieces.iter().enumerate() {
            match (self.style, i % 3) {
                (0, _) => f.write_str(p)?,
                (1, _) => p.chars().try_for_each(|c| f.write_char(c))?,
                (2, _) => write!(f, "{}", p)?,
                (3, _) => f.pad(p)?,
                (_, 1) => write!(f, "{}{}", "", format_args!("{}", p))?,
                (_, _) => Display::fmt(p, f)?,
            }
        }
        Ok(())
    }
}

impl Display for Strict {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}

/// A buffer that looks at what it is given.
#[derive(Clone, Default)]
struct Strict(String);

thread_local! {
    static BAD: RefCell<Option<String>> = const { RefCell::new(None) };
    /// Set while panics are expected.
    pub static QUIET: Cell<bool> = const { Cell::new(false) };
}

fn look(s: &str) -> &str {
    match std::str::from_utf8(std::hint::black_box(s.as_bytes())) {
        Ok(s) => s,
        Err(e) => {
            let msg = format!("a piece of text that is not UTF-8 was handed out: {:?}: {}", s.as_bytes(), e);
            BAD.with(|b| *b.borrow_mut() = Some(msg.clone()));
            panic!("{}", msg)
        }
    }
}

/// A value that writes another text each time, may fail and may panic.
struct Liar<'a> {
    text: &'a Text<'a>,
    calls: Cell<usize>,
    seed: usize,
}

impl Display for Liar<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        let n = self.calls.get();
        self.calls.set(n + 1);
        let p = &self.text.pieces;
        for i in 0..p.len() {
            f.write_str(p[(i * 3 + n) % p.len()])?;
            match (self.seed >> (3 * n % 25)).wrapping_add(i) % 29 {
                7 => return Err(fmt::Error),
                13 => panic!("a value panics"),
                _ => {}
            }
        }
        Ok(())
    }
}

/// A sink that fails or panics at some write.
struct Moody {
    inner: Strict,
    left: usize,
    panics: bool,
}

impl Display for Moody {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        f.write_str("http://")?;
        f.write_str(&self.inner.0)?;
        if self.left % 8 == 7 { Err(fmt::Error) } else { Ok(()) }
    }
}

impl Write for Moody {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        look(s);
        if self.left == 0 {
            assert!(!self.panics, "a sink panics");
            return Err(fmt::Error);
        }
        self.left -= 1;
        self.inner.write_str(s)
    }
}

/// Values that lie, sinks that fail, and panics midway: the result does not matter, but nothing that is not
/// text may be handed out and no memory may be touched that is not the library's.
fn lies(
    seed: usize,
    method: &str,
    uri: &Text<'_>,
    client: Credentials<&str>,
    token: Option<Credentials<&str>>,
    o: &Options<'_>,
    params: &[Param<'_>],
) {
    let liars = || -> Vec<(&str, Liar)> {
        let params = params.iter().enumerate();
        params.map(|(i, p)| (p.k, Liar { text: &p.v, calls: Cell::new(i), seed: seed.rotate_right(i as u32) })).collect()
    };
    let sink = |i: usize| Moody { inner: Strict::default(), left: (seed >> i) % 40, panics: seed >> (i + 7) & 1 == 1 };
    let liar = Liar { text: uri, calls: Cell::new(0), seed };
    let quietly = |f: &mut dyn FnMut()| {
        QUIET.with(|q| q.set(true));
        let _ = catch_unwind(AssertUnwindSafe(f));
        QUIET.with(|q| q.set(false));
        if let Some(b) = BAD.with(|b| b.borrow_mut().take()) {
            panic!("{}", b);
        }
    };
    let r = Custom(params);
    quietly(&mut || {
        let l = ParameterList::new(liars());
        l.serialize(Urlencoder::form_with_buf(sink(1)));
    });
    quietly(&mut || {
        let mut l = ParameterList::from(Vec::new());
        l.extend(liars());
        drop(oauth::to_query(liar.text.to_string(), &l));
    });
    quietly(&mut || {
        let l = ParameterList::new(liars());
        look(&Builder::<_, &str, &str>::new(client, oauth::PLAINTEXT).authorize(method, &liar, &l));
    });
    quietly(&mut || {
        drop(r.serialize(Authorizer::authorization_with_buf(sink(2), method, &liar, client, token, o, oauth::PLAINTEXT)));
    });
    let base = RefCell::new(Strict::default());
    quietly(&mut || {
        let l = ParameterList::new(liars());
        drop(l.serialize(Authorizer::form_with_buf(sink(3), method, &liar, client, token, o, Base(&base))));
    });
    // Names and encoded values that are not what they should be.
    let mut names: Vec<String> = params.iter().map(|p| format!("{}z{}", p.k, p.v)).collect();
    names.sort();
    let odd: Vec<Param> = names.iter().zip(params).map(|(k, p)| Param { k, v: p.v.clone(), e: true }).collect();
    quietly(&mut || drop(Custom(&odd).serialize(Urlencoder::form_with_buf(Strict::default()))));
    quietly(&mut || {
        let a = Authorizer::authorization_with_buf(Strict::default(), method, uri, client, token, o, Base(&base));
        drop(Custom(&odd).serialize(a));
    });
    quietly(&mut || {
        let l = ParameterList::new(names.iter().map(|k| (k, k)).collect::<Vec<_>>());
        drop(l.serialize(Authorizer::form_with_buf(Strict::default(), method, uri, client, token, o, oauth::PLAINTEXT)));
    });
    quietly(&mut || {
        drop(r.serialize(Authorizer::query(method, sink(4), client, token, o, oauth::PLAINTEXT)));
    });
}

impl Write for Strict {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.push_str(look(s));
        Ok(())
    }
}

#[derive(Clone)]
struct Base<'a>(&'a RefCell<Strict>);
#[derive(Clone)]
struct BaseSign<'a>(&'a RefCell<Strict>, String);

impl<'a> SignatureMethod for Base<'a> {
    type Sign = BaseSign<'a>;
    fn sign_with(self, client: &str, token: Option<&str>) -> BaseSign<'a> {
        self.0.borrow_mut().0.clear();
        BaseSign(self.0, format!("{:?}", (look(client), token.map(look))))
    }
}

impl Sign for BaseSign<'_> {
    type Signature = String;
    fn get_signature_method_name(&self) -> &'static str {
        "BASE-1"
    }
    fn request_method(&mut self, m: &str) {
        write!(self.0.borrow_mut(), "{}&", m).unwrap();
    }
    fn uri<T: Display>(&mut self, u: T) {
        write!(self.0.borrow_mut(), "{}&", u).unwrap();
    }
    fn parameter<V: Display>(&mut self, k: &str, v: V) {
        write!(self.0.borrow_mut(), "{}%3D{}", k, v).unwrap();
    }
    fn delimiter(&mut self) {
        self.0.borrow_mut().write_str("%26").unwrap();
    }
    fn end(self) -> String {
        self.0.borrow_mut().write_str(&self.1).unwrap();
        "s%2F1".into()
    }
}

struct Param<'a> {
    k: &'a str,
    v: Text<'a>,
    /// Given as already encoded.
    e: bool,
}

/// A hand-written request over parameters in order.
struct Custom<'a>(&'a [Param<'a>]);

const PROTOCOL: [&str; 8] = [
    "oauth_callback",
    "oauth_consumer_key",
    "oauth_nonce",
    "oauth_signature_method",
    "oauth_timestamp",
    "oauth_token",
    "oauth_verifier",
    "oauth_version",
];

fn hook<S: Serializer>(s: &mut S, i: usize) {
    match i {
        0 => s.serialize_oauth_callback(),
        1 => s.serialize_oauth_consumer_key(),
        2 => s.serialize_oauth_nonce(),
        3 => s.serialize_oauth_signature_method(),
        4 => s.serialize_oauth_timestamp(),
        5 => s.serialize_oauth_token(),
        6 => s.serialize_oauth_verifier(),
        _ => s.serialize_oauth_version(),
    }
}

impl Custom<'_> {
    fn feed<S: Serializer>(&self, s: &mut S, hooks: &mut usize) {
        for p in self.0 {
            while *hooks < 8 && PROTOCOL[*hooks] < p.k {
                hook(s, *hooks);
                *hooks += 1;
            }
            if p.e {
                s.serialize_parameter_encoded(p.k, &p.v);
            } else {
                s.serialize_parameter(p.k, &p.v);
            }
        }
    }
}

impl Request for Custom<'_> {
    fn serialize<S: Serializer>(&self, mut s: S) -> S::Output {
        let mut h = 0;
        self.feed(&mut s, &mut h);
        if h == 0 {
            s.serialize_oauth_parameters();
        } else {
            (h..8).for_each(|h| hook(&mut s, h));
        }
        s.end()
    }
}

#[derive(oauth::Request)]
struct Derived<'a> {
    #[oauth1(rename = "z-z")]
    text: &'a Text<'a>,
    #[oauth1(skip_if = is_zero)]
    number: u64,
    timestamp: Option<NonZeroU64>,
    #[oauth1(fmt = hex)]
    oauth_t: u64,
}

fn is_zero(n: &u64) -> bool {
    *n == 0
}
fn hex(n: &u64, f: &mut Formatter<'_>) -> fmt::Result {
    write!(f, "{:x}", n)
}

/// The keys of the last frame that had one: parsing takes an interpreter long.
pub struct Keys {
    der: Vec<u8>,
    k06: Box<rsa_sha1_06::RsaPrivateKey>,
    k09: Box<rsa_sha1_09::RsaPrivateKey>,
}

pub const SIGN_RSA: u8 = 1;
pub const AUTOMATIC: u8 = 2;
pub const HMAC: u8 = 4;
// What is asked for.
pub const UNSIGNED: u8 = 8;
pub const PLAIN: u8 = 16;
pub const BASE: u8 = 32;
pub const DERIVED: u8 = 64;
pub const LIES: u8 = 128;
pub const ALL: u8 = UNSIGNED | PLAIN | BASE | DERIVED;

struct Given<'a> {
    callback: Option<&'a str>,
    verifier: Option<&'a str>,
    nonce: Option<&'a str>,
    timestamp: Option<NonZeroU64>,
    version: bool,
}

/// Answers a frame; the answers are made of a tag and a text.
pub fn answer(frame: &[u8], keys: &mut Option<Keys>, emit: &mut dyn FnMut(u8, &str)) {
    let i = &mut In(frame);
    let flags = i.u8();
    let method = i.str();
    let uri = i.text();
    let (client, client_secret) = (i.str(), i.str());
    let token = (i.u8() == 1).then(|| Credentials::new(i.str(), i.str()));
    let mut given = Given {
        callback: i.opt(),
        verifier: i.opt(),
        nonce: i.opt(),
        timestamp: NonZeroU64::new(i.u64()),
        version: i.u8() == 1,
    };
    let timestamp = given.timestamp;
    let mut o = Options::new();
    o.callback(given.callback).verifier(given.verifier).nonce(given.nonce).timestamp(timestamp).version(given.version);
    let n = i.u32();
    let params: Vec<Param> = (0..n).map(|_| Param { k: i.str(), v: i.text(), e: i.u8() == 1 }).collect();
    // The parameters in another order, all unencoded.
    let n = i.u32();
    let shuffled: Vec<(&str, Text)> = (0..n).map(|_| (i.str(), i.text())).collect();
    let der = i.bytes();
    assert!(i.0.is_empty());

    let client = Credentials::new(client, client_secret);
    let r = &Custom(&params);
    let list = &ParameterList::new(shuffled.clone());

    // Unsigned.
    if flags & UNSIGNED != 0 {
        emit(b'f', &r.serialize(Urlencoder::form_with_buf(Strict::default())).0);
        emit(b'f', &oauth::to_form(list));
        emit(b'q', &r.serialize(Urlencoder::query(Strict(uri.to_string()))).0);
        let mut grown = ParameterList::from(Vec::new());
        for part in shuffled.chunks(3) {
            grown.extend(part.iter().cloned());
        }
        emit(b'q', &oauth::to_query(uri.to_string(), &grown));
        drop(grown.into_inner());
        let mut names = String::new();
        for (k, v) in list.iter() {
            write!(names, "{}={},", k, v).unwrap();
        }
        emit(b'l', &names);
        let recorder = Recorder::new();
        let recorder = r.serialize(recorder);
        let again = recorder.clone();
        assert!(again == recorder);
        drop(again);

        // Credentials.
        let owned = token.map(|t| Token::new(client.map(String::from), t.map(Box::<str>::from)));
        match &owned {
            Some(t) => {
                let t = t.clone().map_token(String::from).map_client(Box::<str>::from);
                let t = t.as_ref();
                emit(b'D', &format!("{:?}", t));
                assert!(t.client().secret() == client.secret && t.token().secret() == token.unwrap().secret);
            }
            None => emit(b'D', &format!("{:?}", client.as_ref())),
        }
    }

    // Signed.
    let base = RefCell::new(Strict::default());
    if flags & AUTOMATIC == 0 {
        if flags & HMAC != 0 {
            emit(b'i', &builder(client, token, &given, oauth::HMAC_SHA1).to_form(method, &uri, r));
        }
        if flags & PLAIN != 0 {
            signed(method, &uri, client, token, &o, oauth::PLAINTEXT, list, b"pst", emit);
        }
        if flags & BASE != 0 {
            let either: Either<oauth::HmacSha1, _> = Either::Right(Base(&base));
            signed(method, &uri, client, token, &o, either, r, b"abc", emit);
            emit(b'B', &base.borrow().0);
        }
    } else {
        given.nonce = None;
        given.timestamp = None;
        let h = builder(client, token, &given, oauth::PLAINTEXT).authorize(method, &uri, list);
        emit(b'n', look(&h));
    }

    if flags & DERIVED != 0 {
        let x = Derived {
            text: &uri,
            number: timestamp.map_or(0, |t| t.get() ^ 0x0102_0304_0506_0708),
            timestamp,
            oauth_t: timestamp.map_or(7, |t| t.get().rotate_left(9)),
        };
        emit(b'd', &x.serialize(Urlencoder::form_with_buf(Strict::default())).0);
    }

    if flags & LIES != 0 {
        let seed = (frame.len().wrapping_mul(0x9e37_79b1) ^ timestamp.map_or(0, |t| t.get() as usize)) & 0x7fff_ffff;
        lies(seed, method, &uri, client, token, &o, &params);
    }

    // RSA keys and the methods they are seen as.
    if !der.is_empty() {
        if keys.as_ref().map_or(true, |k| k.der != der) {
            use rsa_sha1_06::DecodePrivateKey as _;
            use rsa_sha1_09::DecodePrivateKey as _;
            *keys = Some(Keys {
                der: der.to_vec(),
                k06: Box::new(rsa_sha1_06::RsaPrivateKey::from_pkcs8_der(der).expect("key")),
                k09: Box::new(rsa_sha1_09::RsaPrivateKey::from_pkcs8_der(der).expect("key")),
            });
        }
        let k = keys.as_ref().unwrap();
        let (r06, r09): (&oauth::RsaSha1, &oauth::Rsa09Sha1) = ((*k.k06).as_ref(), (*k.k09).as_ref());
        drop(r06.clone());
        drop(r09.clone());
        drop(oauth::RsaSha1::from((*k.k06).clone()));
        // Every byte of the keys is read through the views of them.
        drop((format!("{:?}", r06), format!("{:?}", r09)));
        // Signers begun and given up.
        let mut a = Authorizer::form(method, &uri, client, token, &o, r06);
        let mut h = 0;
        r.feed(&mut a, &mut h);
        drop(a.clone());
        drop(a);
        let mut a = Authorizer::authorization(method, &uri, client, token, &o, r09.clone());
        let mut h = 0;
        r.feed(&mut a, &mut h);
        drop(a);
        if flags & SIGN_RSA != 0 && flags & AUTOMATIC == 0 {
            emit(b'r', &builder(client, token, &given, r06).to_form(method, &uri, r));
            emit(b'r', &builder(client, token, &given, r09).to_form(method, &uri, r));
        }
    }
}

fn builder<'a, SM: SignatureMethod>(
    client: Credentials<&'a str>,
    token: Option<Credentials<&'a str>>,
    o: &Given<'a>,
    sm: SM,
) -> Builder<'a, SM, &'a str, &'a str> {
    let mut b = Builder::new(client, sm);
    b.token(token).callback(o.callback).verifier(o.verifier).nonce(o.nonce).timestamp(o.timestamp).version(o.version);
    b
}

#[allow(clippy::too_many_arguments)]
fn signed<SM: SignatureMethod + Clone>(
    method: &str,
    uri: &Text<'_>,
    client: Credentials<&str>,
    token: Option<Credentials<&str>>,
    o: &Options<'_>,
    sm: SM,
    r: &impl Request,
    tags: &[u8; 3],
    emit: &mut dyn FnMut(u8, &str),
) where
    SM::Sign: Clone,
{
    let buf = Strict::default();
    emit(tags[0], &r.serialize(Authorizer::authorization_with_buf(buf, method, uri, client, token, o, sm.clone())).0);
    let a = Authorizer::form_with_buf(Strict::default(), method, uri, client, token, o, sm.clone());
    emit(tags[1], &r.serialize(a.clone()).0);
    drop(a);
    let buf = Strict(uri.to_string());
    emit(tags[2], &r.serialize(Authorizer::query(method, buf, client, token, o, sm)).0);
}
