//! Answers signing cases on its standard input with everything the library produces for them, under
//! whatever features it was built with. All of it is computed in buffers of fixed size, and allocations
//! are counted.

use core::cell::RefCell;
use core::fmt::{self, Display, Formatter, Write};
use core::num::NonZeroU64;

use oauth::request::AssertSorted;
use oauth::serializer::auth::{Authorizer, Options};
use oauth::serializer::{Serializer, SerializerExt, Urlencoder};
use oauth::signature_method::{Plaintext, Sign, SignatureMethod};
use oauth::{Builder, Credentials, ParameterList, Request, Token};

// ---------------------------------------------------------------------------------------------
// Platform

fn fd(n: i32) -> std::mem::ManuallyDrop<std::fs::File> {
    use std::os::fd::FromRawFd;
    std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(n) })
}

fn read_exact(buf: &mut [u8]) -> bool {
    std::io::Read::read_exact(&mut *fd(0), buf).is_ok()
}

fn write_all(buf: &[u8]) {
    static mut OUT: (usize, [u8; 1 << 20]) = (0, [0; 1 << 20]);
    let (len, out) = unsafe { &mut *(&raw mut OUT) };
    if buf.is_empty() || *len + buf.len() > out.len() {
        std::io::Write::write_all(&mut *fd(1), &out[..*len]).expect("write");
        *len = 0;
    }
    out[*len..*len + buf.len()].copy_from_slice(buf);
    *len += buf.len();
}

/// Counts the allocations of programs that have an allocator although the library was built for none.
mod counting {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicU64, Ordering};

    pub static COUNT: AtomicU64 = AtomicU64::new(0);
    pub struct Counting;
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            COUNT.fetch_add(1, Ordering::Relaxed);
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            System.dealloc(p, l)
        }
    }
    #[global_allocator]
    static ALLOC: Counting = Counting;
}

fn main() {
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !QUIET.with(|q| q.get()) {
            hook(i);
        }
    }));
    serve();
}

fn allocations() -> u64 {
    counting::COUNT.load(std::sync::atomic::Ordering::Relaxed)
}

// ---------------------------------------------------------------------------------------------
// Buffers of fixed size

struct Fixed<const N: usize> {
    len: usize,
    buf: [u8; N],
}

impl<const N: usize> Fixed<N> {
    const fn new() -> Self {
        Fixed { len: 0, buf: [0; N] }
    }
    fn as_str(&self) -> &str {
        core::str::from_utf8(&self.buf[..self.len]).expect("UTF-8")
    }
    fn set(&mut self, s: &str) -> &mut Self {
        self.len = 0;
        self.write_str(s).unwrap();
        self
    }
}
impl<const N: usize> Default for Fixed<N> {
    fn default() -> Self {
        Self::new()
    }
}
impl<const N: usize> Write for Fixed<N> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let b = s.as_bytes();
        if b.len() > N - self.len {
            return Err(fmt::Error);
        }
        self.buf[self.len..self.len + b.len()].copy_from_slice(b);
        self.len += b.len();
        Ok(())
    }
}
impl<const N: usize> Display for Fixed<N> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        f.write_str(self.as_str())
    }
}

type Big = Fixed<{ 1 << 19 }>;
type Key = Fixed<{ 1 << 15 }>;

// ---------------------------------------------------------------------------------------------
// Cases

struct In<'a>(&'a [u8]);

impl<'a> In<'a> {
    fn u8(&mut self) -> u8 {
        let (a, b) = self.0.split_at(1);
        self.0 = b;
        a[0]
    }
    fn u32(&mut self) -> usize {
        let (a, b) = self.0.split_at(4);
        self.0 = b;
        u32::from_le_bytes([a[0], a[1], a[2], a[3]]) as usize
    }
    fn u64(&mut self) -> u64 {
        self.u32() as u64 | (self.u32() as u64) << 32
    }
    fn bytes(&mut self) -> &'a [u8] {
        let n = self.u32();
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    fn str(&mut self) -> &'a str {
        core::str::from_utf8(self.bytes()).unwrap()
    }
    fn opt(&mut self) -> Option<&'a str> {
        if self.u8() == 1 {
            Some(self.str())
        } else {
            None
        }
    }
}

/// A text that writes itself in one of several ways.
#[derive(Clone, Copy)]
struct Val<'a>(&'a str, u8);

impl<'a> Display for Val<'a> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        match self.1 {
            0 => f.write_str(self.0),
            1 => self.0.chars().try_for_each(|c| f.write_char(c)),
            n => {
                let mut at = self.0.len() * (n as usize) / 256;
                while !self.0.is_char_boundary(at) {
                    at -= 1;
                }
                write!(f, "{}{}", &self.0[..at], &self.0[at..])
            }
        }
    }
}

#[derive(Clone, Copy)]
struct Param<'a> {
    k: &'a str,
    v: Val<'a>,
    /// The value after encoding, for requests that give it so.
    enc: Val<'a>,
    e: bool,
}

const MAX: usize = 24;

struct Case<'a> {
    method: &'a str,
    uri: Val<'a>,
    client: (&'a str, &'a str),
    token: Option<(&'a str, &'a str)>,
    callback: Option<&'a str>,
    verifier: Option<&'a str>,
    nonce: &'a str,
    timestamp: u64,
    version: bool,
    before: &'a str,
    n: usize,
    /// In the case's order and in the order of RFC 5849.
    given: [Param<'a>; MAX],
    sorted: [Param<'a>; MAX],
    #[allow(dead_code)]
    rsa: &'a [u8],
    #[allow(dead_code)]
    derived: (&'a str, Option<u64>, &'a str, bool),
}

fn parse(b: &[u8]) -> Case<'_> {
    let i = &mut In(b);
    let none = Param { k: "", v: Val("", 0), enc: Val("", 0), e: false };
    let mut c = Case {
        method: i.str(),
        uri: Val(i.str(), i.u8()),
        client: (i.str(), i.str()),
        token: if i.u8() == 1 { Some((i.str(), i.str())) } else { None },
        callback: i.opt(),
        verifier: i.opt(),
        nonce: i.str(),
        timestamp: i.u64(),
        version: i.u8() == 1,
        before: i.str(),
        n: i.u32(),
        given: [none; MAX],
        sorted: [none; MAX],
        rsa: &[],
        derived: ("", None, "", false),
    };
    for p in &mut c.given[..c.n] {
        let (k, v, enc, style, e) = (i.str(), i.str(), i.str(), i.u8(), i.u8());
        *p = Param { k, v: Val(v, style), enc: Val(enc, style), e: e == 1 };
    }
    for j in 0..c.n {
        c.sorted[j] = c.given[i.u32()];
    }
    c.rsa = i.bytes();
    let s = i.str();
    let x = if i.u8() == 1 { Some(i.u64()) } else { None };
    c.derived = (s, x, i.str(), i.u8() == 1);
    assert!(i.0.is_empty());
    c
}

// ---------------------------------------------------------------------------------------------
// Requests

/// A hand-written request.
struct Custom<'a>(&'a [Param<'a>]);

const PROTOCOL: [&str; 8] = [
    "oauth_callback",
    "oauth_consumer_key",
    "oauth_nonce",
    "oauth_signature_method",
    "oauth_timestamp",
    "oauth_token",
    "oauth_verifier",
    "oauth_version",
];

fn hook<S: Serializer>(s: &mut S, i: usize) {
    match i {
        0 => s.serialize_oauth_callback(),
        1 => s.serialize_oauth_consumer_key(),
        2 => s.serialize_oauth_nonce(),
        3 => s.serialize_oauth_signature_method(),
        4 => s.serialize_oauth_timestamp(),
        5 => s.serialize_oauth_token(),
        6 => s.serialize_oauth_verifier(),
        _ => s.serialize_oauth_version(),
    }
}

impl<'a> Request for Custom<'a> {
    fn serialize<S: Serializer>(&self, mut s: S) -> S::Output {
        let mut h = 0;
        for p in self.0 {
            while h < 8 && PROTOCOL[h] < p.k {
                hook(&mut s, h);
                h += 1;
            }
            if p.e {
                s.serialize_parameter_encoded(p.k, p.enc);
            } else {
                s.serialize_parameter(p.k, p.v);
            }
        }
        if h == 0 {
            s.serialize_oauth_parameters();
        } else {
            (h..8).for_each(|h| hook(&mut s, h));
        }
        s.end()
    }
}

#[cfg(feature = "derive")]
mod derived {
    use core::fmt::{self, Display, Formatter};

    #[derive(oauth::Request)]
    pub struct Derived<'a, T: Display> {
        #[oauth1(rename = "z-z")]
        pub text: &'a str,
        #[oauth1(skip_if = is_false)]
        pub flag: bool,
        pub optional: Option<u64>,
        #[oauth1(encoded)]
        pub encoded: T,
        #[oauth1(fmt = brackets)]
        pub oauth_t: &'a str,
        #[oauth1(skip)]
        pub _skipped: (),
    }

    fn is_false(b: &bool) -> bool {
        !*b
    }
    fn brackets(s: &&str, f: &mut Formatter<'_>) -> fmt::Result {
        write!(f, "[{}]", s)
    }
}

// ---------------------------------------------------------------------------------------------
// A signature method that only hands out the base string

#[derive(Clone)]
struct Base<'a>(&'a RefCell<&'a mut Big>);
struct BaseSign<'a>(&'a RefCell<&'a mut Big>);

impl<'a> SignatureMethod for Base<'a> {
    type Sign = BaseSign<'a>;
    fn sign_with(self, client_secret: &str, token_secret: Option<&str>) -> BaseSign<'a> {
        let b = &mut **self.0.borrow_mut();
        write!(b.set(""), "{:?} {:?} ", client_secret, token_secret).unwrap();
        BaseSign(self.0)
    }
}

impl<'a> Sign for BaseSign<'a> {
    type Signature = &'static str;
    fn get_signature_method_name(&self) -> &'static str {
        "BASE-1"
    }
    fn request_method(&mut self, method: &str) {
        write!(self.0.borrow_mut(), "{}&", method).unwrap();
    }
    fn uri<T: Display>(&mut self, uri: T) {
        write!(self.0.borrow_mut(), "{}&", uri).unwrap();
    }
    fn parameter<V: Display>(&mut self, key: &str, value: V) {
        write!(self.0.borrow_mut(), "{}%3D{}", key, value).unwrap();
    }
    fn delimiter(&mut self) {
        self.0.borrow_mut().write_str("%26").unwrap();
    }
    fn end(self) -> &'static str {
        self.0.borrow_mut().write_str(" end").unwrap();
        "s%2F1"
    }
}

/// The same, but it uses neither nonces nor timestamps.
#[derive(Clone)]
struct Bare;

impl SignatureMethod for Bare {
    type Sign = Bare;
    fn sign_with(self, _: &str, _: Option<&str>) -> Bare {
        Bare
    }
}

impl Sign for Bare {
    type Signature = &'static str;
    fn get_signature_method_name(&self) -> &'static str {
        "BARE"
    }
    fn request_method(&mut self, _: &str) {}
    fn uri<T: Display>(&mut self, _: T) {}
    fn parameter<V: Display>(&mut self, _: &str, _: V) {}
    fn delimiter(&mut self) {}
    fn use_nonce(&self) -> bool {
        false
    }
    fn use_timestamp(&self) -> bool {
        false
    }
    fn end(self) -> &'static str {
        "s%2F1"
    }
}

// ---------------------------------------------------------------------------------------------
// Answers

fn emit(tag: u8, s: &str) {
    write_all(&[tag]);
    write_all(&(s.len() as u32).to_le_bytes());
    if !s.is_empty() {
        write_all(s.as_bytes());
    }
}

fn builder<'a, SM: SignatureMethod>(c: &Case<'a>, sm: SM) -> Builder<'a, SM, &'a str, &'a str> {
    let client = Credentials::new(c.client.0, c.client.1);
    let mut b = match c.token {
        Some(t) => Builder::with_token(Token::new(client, Credentials::new(t.0, t.1)), sm),
        None => Builder::new(client, sm),
    };
    b.callback(c.callback).verifier(c.verifier).nonce(c.nonce).timestamp(NonZeroU64::new(c.timestamp)).version(c.version);
    b
}

/// Header, form and query under one signature method.
fn method<SM: SignatureMethod + Clone>(c: &Case<'_>, tags: &[u8; 3], sm: SM, r: &impl Request, buf: &mut Big, mut between: impl FnMut(u8)) {
    let b = builder(c, sm.clone());
    b.authorize_with_buf(&mut *buf.set(c.before), c.method, c.uri, r);
    emit(tags[0], buf.as_str());
    between(b'1');

    let mut o = Options::new();
    o.callback(c.callback).verifier(c.verifier).nonce(c.nonce).timestamp(NonZeroU64::new(c.timestamp)).version(c.version);
    let token = c.token.map(|t| Credentials::new(t.0, t.1));
    let client = Credentials::new(c.client.0, c.client.1);
    r.serialize(Authorizer::form_with_buf(&mut *buf.set(c.before), c.method, c.uri, client, token, &o, sm.clone()));
    emit(tags[1], buf.as_str());
    between(b'2');

    b.to_query(c.method, &mut *buf.set(c.uri.0), r);
    emit(tags[2], buf.as_str());
    between(b'3');

    // The same through the consuming calls.
    b.into_query(c.method, &mut *buf.set(c.uri.0), r);
    emit(tags[2], buf.as_str());
    builder(c, sm.clone()).into_form_with_buf(&mut *buf.set(c.before), c.method, c.uri, r);
    emit(tags[1], buf.as_str());
    builder(c, sm.clone()).into_authorization_with_buf(&mut *buf.set(c.before), c.method, c.uri, r);
    emit(tags[0], buf.as_str());

    #[cfg(any(feature = "alloc", feature = "std"))]
    strings(c, tags, sm, r, buf);
}

/// The same again through the calls that return strings.
#[cfg(any(feature = "alloc", feature = "std"))]
fn strings<SM: SignatureMethod + Clone>(c: &Case<'_>, tags: &[u8; 3], sm: SM, r: &impl Request, buf: &mut Big) {
    let b = builder(c, sm);
    let mut say = |tag, before: &str, s: String| {
        buf.set(before).write_str(&s).unwrap();
        emit(tag, buf.as_str());
    };
    say(tags[0], c.before, b.authorize(c.method, c.uri, r));
    say(tags[1], c.before, b.to_form(c.method, c.uri, r));
    say(tags[2], "", b.to_query(c.method, String::from(c.uri.0), r));
    say(tags[1], "", b.to_form_with_buf(String::from(c.before), c.method, c.uri, r));
    say(tags[0], c.before, b.clone().into_authorization(c.method, c.uri, r));
    say(tags[1], c.before, b.into_form(c.method, c.uri, r));
}

fn answer(c: &Case<'_>, buf: &mut Big, buf2: &mut Big) {
    let start = allocations();
    let r = &Custom(&c.sorted[..c.n]);

    // Unsigned, the parameters being given in every way there is.
    r.serialize(Urlencoder::form_with_buf(&mut *buf.set(c.before)));
    emit(b'f', buf.as_str());
    r.serialize(Urlencoder::query(&mut *buf.set(c.uri.0)));
    emit(b'q', buf.as_str());
    let mut pairs = [("", Val("", 0)); MAX];
    for (p, q) in pairs.iter_mut().zip(&c.given[..c.n]) {
        *p = (q.k, q.v);
    }
    let list = ParameterList::new(&mut pairs[..c.n]);
    list.serialize(Urlencoder::form_with_buf(&mut *buf.set(c.before)));
    emit(b'f', buf.as_str());
    let pairs = list.into_inner();
    match ParameterList::from_sorted(&*pairs) {
        Some(l) => Some(l).serialize(Urlencoder::query(&mut *buf.set(c.uri.0))),
        None => panic!("a sorted list was refused"),
    };
    emit(b'q', buf.as_str());
    AssertSorted::new(pairs.iter().copied()).serialize(Urlencoder::form_with_buf(&mut *buf.set(c.before)));
    emit(b'f', buf.as_str());
    if c.n == 0 {
        ().serialize(Urlencoder::form_with_buf(&mut *buf.set(c.before)));
        emit(b'f', buf.as_str());
    }

    {
        let cell = RefCell::new(buf2);
        let cell: &RefCell<&mut Big> = unsafe { &*(&cell as *const RefCell<&mut Big>).cast() };
        method(c, b"abc", Base(cell), r, buf, |_| emit(b'B', cell.borrow().as_str()));
        // And with a list.
        builder(c, Base(cell)).authorize_with_buf(&mut *buf.set(c.before), c.method, c.uri, &ParameterList::from_sorted(&*pairs).unwrap());
        emit(b'a', buf.as_str());
        emit(b'B', cell.borrow().as_str());
    }
    method(c, b"pst", Plaintext::<Key>::with_buf(), r, buf, |_| ());
    #[cfg(feature = "hmac-sha1")]
    method(c, b"hij", oauth::HMAC_SHA1, r, buf, |_| ());
    #[cfg(any(feature = "alloc", feature = "std"))]
    method(c, b"pst", oauth::PLAINTEXT, r, buf, |_| ());
    #[cfg(feature = "either")]
    {
        type E<A, B> = either::Either<A, B>;
        let p: E<Plaintext<Key>, oauth::HmacSha1> = E::Left(Plaintext::with_buf());
        method(c, b"pst", p, r, buf, |_| ());
        let h: E<Plaintext<Key>, oauth::HmacSha1> = E::Right(oauth::HMAC_SHA1);
        method(c, b"hij", h, r, buf, |_| ());
    }
    #[cfg(feature = "derive")]
    {
        let d = derived::Derived {
            text: c.derived.0,
            flag: c.derived.3,
            optional: c.derived.1,
            encoded: c.derived.2,
            oauth_t: c.derived.0,
            _skipped: (),
        };
        d.serialize(Urlencoder::form_with_buf(&mut *buf.set(c.before)));
        emit(b'd', buf.as_str());
        let mut b = builder(c, Plaintext::<Key>::with_buf());
        b.nonce("n");
        b.into_form_with_buf(&mut *buf.set(c.before), c.method, c.uri, &d);
        emit(b'e', buf.as_str());
    }

    // Automatic nonces.
    for _ in 0..2 {
        let mut b = builder(c, Plaintext::<Key>::with_buf());
        b.nonce(None);
        b.authorize_with_buf(&mut *buf.set(""), c.method, c.uri, r);
        emit(b'n', buf.as_str());
    }

    // Neither nonce nor timestamp: nothing to be made.
    let mut b = builder(c, Bare);
    b.nonce(None).timestamp(None);
    b.authorize_with_buf(&mut *buf.set(""), c.method, c.uri, r);
    emit(b'w', buf.as_str());

    // Credentials show the same.
    let client = Credentials::new(c.client.0, c.client.1);
    match c.token {
        Some(t) => write!(buf.set(""), "{:?}", Token::new(client, Credentials::new(t.0, t.1))).unwrap(),
        None => write!(buf.set(""), "{:?}", client).unwrap(),
    }
    emit(b'D', buf.as_str());

    if !cfg!(any(feature = "alloc", feature = "std")) {
        write!(buf.set(""), "{}", allocations() - start).unwrap();
        emit(b'Z', buf.as_str());
    }

    // Automatic timestamps.
    let mut b = builder(c, Plaintext::<Key>::with_buf());
    b.timestamp(None);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        QUIET.with(|q| q.set(true));
        b.authorize_with_buf(&mut *buf.set(""), c.method, c.uri, r);
    }));
    QUIET.with(|q| q.set(false));
    emit(b'k', if r.is_ok() { buf.as_str() } else { "panicked" });

    #[cfg(any(feature = "rsa-sha1-06", feature = "rsa-sha1-09"))]
    rsa(c, &Custom(&c.sorted[..c.n]), buf);
}

thread_local!(static QUIET: core::cell::Cell<bool> = const { core::cell::Cell::new(false) });

#[cfg(any(feature = "rsa-sha1-06", feature = "rsa-sha1-09"))]
fn rsa(c: &Case<'_>, r: &impl Request, buf: &mut Big) {
    use std::collections::HashMap;
    macro_rules! with {
        ($m:ident $T:ty) => {{
            use oauth::signature_method::$m::*;
            thread_local!(static KEYS: RefCell<HashMap<Vec<u8>, $T>> = RefCell::new(HashMap::new()));
            KEYS.with(|keys| {
                let keys = &mut *keys.borrow_mut();
                let k = keys
                    .entry(c.rsa.to_vec())
                    .or_insert_with(|| RsaPrivateKey::from_pkcs8_der(c.rsa).expect("RSA key").into());
                method(c, b"rxy", &*k, r, buf, |_| ());
            });
        }};
    }
    #[cfg(feature = "rsa-sha1-06")]
    with!(rsa_sha1_06 oauth::RsaSha1);
    #[cfg(feature = "rsa-sha1-09")]
    with!(rsa_sha1_09 oauth::Rsa09Sha1);
}

fn serve() {
    static mut INPUT: [u8; 1 << 20] = [0; 1 << 20];
    static mut A: Big = Big::new();
    static mut B: Big = Big::new();
    let (input, a, b) = unsafe { (&mut *(&raw mut INPUT), &mut *(&raw mut A), &mut *(&raw mut B)) };
    let mut len = [0; 4];
    while read_exact(&mut len) {
        let n = u32::from_le_bytes(len) as usize;
        if !read_exact(&mut input[..n]) {
            return;
        }
        answer(&parse(&input[..n]), a, b);
        write_all(&[0]);
        write_all(&[]);
    }
}
