//! Requests that grow in one respect take more time and memory in proportion.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::fmt::{self, Display, Formatter, Write};
use std::num::NonZeroU64;

use oauth::serializer::auth::{Authorizer, Options};
use oauth::serializer::recorder::Recorder;
use oauth::signature_method::SignatureMethod;
use oauth::{Builder, Credentials, ParameterList, Request};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::engine::{main as run, Prop, Stats, Tier};
use vh::ensure;

struct Counting;

thread_local! {
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static WRITES: Cell<u64> = const { Cell::new(0) };
    static READS: Cell<u64> = const { Cell::new(0) };
}

fn took(n: usize) {
    TOTAL.with(|t| t.set(t.get() + n as u64));
    LIVE.with(|l| {
        l.set(l.get() + n as i64);
        PEAK.with(|p| p.set(p.get().max(l.get())));
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        took(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.with(|v| v.set(v.get() - l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        took(n);
        LIVE.with(|v| v.set(v.get() - l.size() as i64));
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static ALLOC: Counting = Counting;

/// The time this thread has run, in nanoseconds.
fn cpu() -> u64 {
    #[repr(C)]
    struct Timespec {
        s: i64,
        ns: i64,
    }
    extern "C" {
        fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
    }
    const CLOCK_THREAD_CPUTIME_ID: i32 = 3;
    let mut t = Timespec { s: 0, ns: 0 };
    assert_eq!(unsafe { clock_gettime(CLOCK_THREAD_CPUTIME_ID, &mut t) }, 0);
    t.s as u64 * 1_000_000_000 + t.ns as u64
}

/// What grows.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Growing {
    Value,
    Name,
    Uri,
    ClientId,
    ClientSecret,
    TokenId,
    TokenSecret,
    Callback,
    Verifier,
    Nonce,
    Method,
    /// Parameters with names of their own, or with one of a few names.
    Parameters,
    SameNames,
    /// What the caller's buffer holds already.
    Buffer,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    growing: Vec<Growing>,
    /// The size they grow from.
    size: u16,
    /// What the texts are made of.
    unit: String,
    /// What they end in, from which eighth on.
    tail: String,
    from: u8,
    /// How values and URIs write themselves: at once, or in pieces of so many characters.
    piece: u8,
    plaintext: bool,
    entry: u8,
    /// How lists are made.
    list: u8,
    shuffle: u64,
}

/// A text that writes itself in pieces, and counts how often it is asked to.
#[derive(Clone)]
struct Text {
    s: String,
    piece: usize,
}

impl Display for Text {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        CALLS.with(|c| c.set(c.get() + 1));
        if self.piece == 0 {
            return f.write_str(&self.s);
        }
        let mut rest = &*self.s;
        while !rest.is_empty() {
            let at = rest.char_indices().nth(self.piece).map_or(rest.len(), |c| c.0);
            f.write_str(&rest[..at])?;
            rest = &rest[at..];
        }
        Ok(())
    }
}

/// A name that counts how often it is read.
struct Key(String);

impl AsRef<str> for Key {
    fn as_ref(&self) -> &str {
        READS.with(|r| r.set(r.get() + 1));
        &self.0
    }
}

/// A buffer of the caller's that counts writes.
struct Buf(String);

impl Write for Buf {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        WRITES.with(|w| w.set(w.get() + 1));
        self.0.push_str(s);
        Ok(())
    }
}

impl Display for Buf {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}

#[derive(Clone, Copy, Debug, Default)]
struct Cost {
    /// Bytes asked of the allocator, and the most that were held.
    total: u64,
    peak: u64,
    /// How often values were asked to write themselves, and how often the caller's buffer was written to.
    calls: u64,
    writes: u64,
    /// How often names were read.
    reads: u64,
    ns: u64,
    out: u64,
}

impl Case {
    fn entry(&self) -> u8 {
        if self.grows(Growing::Buffer) {
            4 + self.entry % 3
        } else {
            self.entry % 14
        }
    }

    fn grows(&self, g: Growing) -> bool {
        self.growing.contains(&g)
    }

    fn text(&self, g: Growing, size: usize) -> String {
        let n = if self.grows(g) { size } else { 5 };
        let head = n * self.from as usize / 8;
        let fill = |unit: &str, n: usize| -> String { unit.chars().cycle().take(n).collect() };
        fill(&self.unit, head) + &fill(&self.tail, n - head)
    }

    fn measure(&self, size: usize) -> Cost {
        use Growing::*;
        let fit = |s: String| -> String { s.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { 'q' }).collect() };
        let t = |g| self.text(g, size);
        let shown = |s: String| Text { s, piece: self.piece as usize };
        let n = if self.grows(Parameters) || self.grows(SameNames) { size / 16 } else { 3 };
        let names = if self.grows(SameNames) { 7 } else { u64::MAX };
        // An order that has nothing to do with the names'.
        let mut x = self.shuffle | 1;
        let mut pairs: Vec<(Key, Text)> = (0..n)
            .map(|i| {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                let number = match self.list / 4 % 3 {
                    0 => x >> 20,
                    1 => i as u64,
                    _ => (n - i) as u64,
                };
                // The long value has a name of its own: comparing values of equal names is `fmt-cmp`'s.
                let name = match i {
                    0 => fit(t(Name)),
                    1 => "q".into(),
                    _ => "p".into(),
                };
                let name = format!("{}{:013}", name, number % names);
                let value = if i == 1 { t(Value) } else { format!("{}{}", self.unit, i % 10) };
                (Key(name), shown(value))
            })
            .collect();
        let sorted = self.list % 4 == 3 && !self.grows(SameNames);
        if sorted {
            pairs.sort_by(|a, b| (a.0).0.cmp(&(b.0).0));
        }
        let uri = shown(format!("http://example.com/{}", fit(t(Uri))));
        let method = fit(t(Method));
        let (id, secret, tid, ts) = (t(ClientId), t(ClientSecret), t(TokenId), t(TokenSecret));
        let (callback, verifier, nonce) = (t(Callback), t(Verifier), t(Nonce));
        // The buffer of `Authorizer::query` is the URI.
        let held = Buf(if self.entry() == 6 { format!("http://a/{}", fit(t(Buffer))) } else { t(Buffer) });
        let mut o = Options::new();
        o.callback(&*callback).verifier(&*verifier).nonce(&*nonce).timestamp(NonZeroU64::new(7)).version(true);
        let client = Credentials::new(&*id, &*secret);
        let token = Credentials::new(&*tid, &*ts);

        for c in [&TOTAL, &CALLS, &WRITES, &READS] {
            c.with(|c| c.set(0));
        }
        LIVE.with(|l| l.set(0));
        PEAK.with(|l| l.set(0));
        let t0 = cpu();
        let list = match self.list % 4 {
            0 => ParameterList::new(pairs),
            1 => pairs.into_iter().collect(),
            3 if sorted => ParameterList::from_sorted(pairs).unwrap(),
            _ => {
                let mut it = pairs.into_iter();
                let mut l: ParameterList<Key, Text> = it.by_ref().take(n / 2).collect();
                l.extend(it);
                l
            }
        };
        let r = Req { method: &method, uri: &uri, client, token, o: &o, callback: &callback, verifier: &verifier, nonce: &nonce };
        let out = if self.plaintext {
            self.go(oauth::PLAINTEXT, r, &list, held)
        } else {
            self.go(oauth::HMAC_SHA1, r, &list, held)
        };
        let ns = cpu() - t0;
        Cost {
            total: TOTAL.with(Cell::get),
            peak: PEAK.with(Cell::get) as u64,
            calls: CALLS.with(Cell::get),
            writes: WRITES.with(Cell::get),
            reads: READS.with(Cell::get),
            ns,
            out: out as u64,
        }
    }

    fn go<SM: SignatureMethod + Clone>(&self, sm: SM, r: Req<'_>, list: &ParameterList<Key, Text>, buf: Buf) -> usize {
        let Req { method, uri, client, token, o, .. } = r;
        let b = || {
            let mut b = Builder::new(client, sm.clone());
            b.token(token).callback(r.callback).verifier(r.verifier).nonce(r.nonce);
            b.timestamp(NonZeroU64::new(7)).version(true);
            b
        };
        let token = Some(token);
        match self.entry() {
            0 => b().authorize(method, uri, list).len(),
            1 => b().to_form(method, uri, list).len(),
            2 => b().to_query(method, uri.to_string(), list).len(),
            3 => b().into_authorization(method, uri, list).len(),
            4 => list.serialize(Authorizer::authorization_with_buf(buf, method, uri, client, token, o, sm)).0.len(),
            5 => list.serialize(Authorizer::form_with_buf(buf, method, uri, client, token, o, sm)).0.len(),
            6 => list.serialize(Authorizer::query(method, buf, client, token, o, sm)).0.len(),
            7 => oauth::to_form(list).len(),
            8 => oauth::to_query(uri.to_string(), list).len(),
            9 => b().into_form(method, uri, list).len(),
            10 => b().authorize_with_buf(buf, method, uri, list).0.len(),
            11 => b().to_form_with_buf(buf, method, uri, list).0.len(),
            12 => list.serialize(Recorder::new()).len(),
            _ => b().into_query(method, uri.to_string(), list).len(),
        }
    }

    fn compare(&self, st: &mut Stats) -> Result<(), String> {
        let n = self.size as usize;
        // From smaller requests first, so that what takes far too long is noticed before it takes minutes.
        let mut last = (n / TIMES, self.measure(n / TIMES));
        for n in [n, n * TIMES] {
            let next = (n, self.measure(n));
            self.judge(last, next, st)?;
            last = next;
        }
        for (_, label) in GROWING.iter().filter(|g| self.grows(g.0)) {
            st.label(label);
        }
        st.label_if(self.growing.len() > 1, "several parts grow");
        Ok(())
    }

    fn judge(&self, (n, small): (usize, Cost), (m, big): (usize, Cost), st: &mut Stats) -> Result<(), String> {
        for (what, a, b, slack) in [
            // What is handed in may be copied once, whatever else happens (a full buffer that is appended to).
            ("bytes allocated", small.total + 4 * n as u64, big.total, 1 << 14),
            ("bytes held at once", small.peak + 4 * n as u64, big.peak, 1 << 14),
            ("times a value was formatted", small.calls, big.calls, 1 << 14),
            ("times a name was read", small.reads, big.reads, 1 << 14),
            ("writes to the caller's buffer", small.writes, big.writes, 64),
        ] {
            ensure!(
                b <= LIMIT * a + slack,
                "{:?} growing from {} to {} characters ({} times), the {} grew from {} to {} ({:.1} times)",
                self.growing,
                n,
                m,
                TIMES,
                what,
                a,
                b,
                b as f64 / a.max(1) as f64
            );
        }
        let late = |a: &Cost, b: &Cost| b.ns > 100_000_000 && b.ns > LIMIT * a.ns;
        if late(&small, &big) {
            // Measured again, to rule out that the machine was slow.
            let least = |n| (0..3).map(|_| self.measure(n)).min_by_key(|c| c.ns).unwrap();
            let (a, b) = (least(n), least(m));
            ensure!(
                !late(&a, &b),
                "{:?} growing from {} to {} characters ({} times), the processor time grew from {} us to {} us",
                self.growing,
                n,
                m,
                TIMES,
                a.ns / 1000,
                b.ns / 1000
            );
        }
        if big.out > small.out || big.total > small.total || big.calls > small.calls {
            st.nontrivial();
        }
        Ok(())
    }
}

/// How much larger the larger request is, and how much dearer it may be.
const TIMES: usize = 8;
const LIMIT: u64 = 30;

const GROWING: [(Growing, &str); 14] = [
    (Growing::Value, "a value grows"),
    (Growing::Name, "a name grows"),
    (Growing::Uri, "the URI grows"),
    (Growing::ClientId, "the client's identifier grows"),
    (Growing::ClientSecret, "the client's secret grows"),
    (Growing::TokenId, "the token grows"),
    (Growing::TokenSecret, "the token's secret grows"),
    (Growing::Callback, "the callback grows"),
    (Growing::Verifier, "the verifier grows"),
    (Growing::Nonce, "the nonce grows"),
    (Growing::Method, "the method grows"),
    (Growing::Parameters, "the number of parameters grows"),
    (Growing::SameNames, "the number of parameters of few names grows"),
    (Growing::Buffer, "the buffer handed in grows"),
];

#[derive(Clone, Copy)]
struct Req<'a> {
    method: &'a str,
    uri: &'a Text,
    client: Credentials<&'a str>,
    token: Credentials<&'a str>,
    o: &'a Options<'a>,
    callback: &'a str,
    verifier: &'a str,
    nonce: &'a str,
}

pub struct C31;

impl Prop for C31 {
    const ID: &'static str = "C31";
    const RULE: &'static str = "One to three parts of a request (a value, a name, the URI, a credential, an option, the method, the number of parameters, the         buffer handed in) of 512 to 2,048 characters, made of random units in two stretches and written in random pieces, and the same with that part 8 times         as large, through 14 entry points and both signature methods: bytes allocated, bytes held at once, times values are formatted and names read, and writes         to the caller's buffer must not grow more than 30 times from one to the next, nor the thread's processor time (four measurements, and only above 100 ms);         non-trivial = the larger request makes a larger output or takes more allocation or formatting.";
    type Case = Case;
    const CASES: u32 = 3_000;
    const THOROUGH: u32 = 20;
    const SHRINK_SECS: u64 = 40;

    fn strategy(tier: Tier) -> BoxedStrategy<Case> {
        let size = if tier == Tier::Quick { 4096u16..16384 } else { 4096..65535 };
        let unit = prop_oneof![
            2 => "[a-z]{1,4}",
            2 => "[ %&=+\"',~._-]{1,4}",
            1 => "[0-9A-F%]{1,6}",
            2 => proptest::collection::vec(any::<char>(), 1..5).prop_map(|v| v.into_iter().collect::<String>()),
            1 => Just("\u{1f600}".to_string()),
        ]
        .boxed();
        (
            (proptest::sample::subsequence(GROWING.map(|g| g.0).to_vec(), 1..4), size, (unit.clone(), unit, 0u8..9), prop_oneof![2 => Just(0u8), 1 => Just(1u8), 2 => 1u8..60]),
            (any::<bool>(), any::<u8>(), any::<u8>(), any::<u64>()),
        )
            .prop_map(|((growing, size, (unit, tail, from), piece), (plaintext, entry, list, shuffle))| Case {
                growing,
                size,
                unit,
                tail,
                from,
                piece,
                plaintext,
                entry,
                list,
                shuffle,
            })
            .boxed()
    }

    fn check(case: &Case, st: &mut Stats) -> Result<(), String> {
        case.compare(st)
    }
}

fn main() {
    run::<C31>()
}
