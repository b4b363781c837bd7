use std::cell::{Cell, RefCell};
use std::fmt::{self, Display, Formatter, Write};
use std::rc::Rc;

use oauth::serializer::auth::Authorizer;
use oauth::serializer::{Serializer, Urlencoder};
use oauth::signature_method::{Plaintext, SignatureMethod};
use oauth::{ParameterList, Request};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::engine::{catch, main as run, Prop, Stats, Tier};
use vh::gen::*;
use vh::{ensure, ensure_eq, keys};

struct C20;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Fault {
    None,
    /// The buffer fails once it would hold more than so many bytes.
    Full { budget: u16, partial: bool },
    /// The buffer fails at its n-th write.
    Write { nth: u16 },
    /// A value fails when it is formatted for the n-th time, after some of its pieces.
    Value { which: u8, nth: u8, pieces: u8 },
    Uri { nth: u8, pieces: u8 },
    /// The buffer that holds a PLAINTEXT signature fails to be written, or to be read.
    KeyWrite { nth: u8 },
    KeyRead { nth: u8, pieces: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    c: SignCase,
    sm: u8,
    how: u8,
    /// How the request is held.
    req: u8,
    fault: Fault,
    /// Whether what failed once goes on failing.
    sticky: bool,
    before: String,
}

/// Counts down to a failure.
#[derive(Debug)]
struct Trap {
    armed: Cell<bool>,
    left: Cell<u32>,
    sticky: bool,
    fired: Cell<bool>,
}

impl Trap {
    fn new(nth: u32, sticky: bool) -> Rc<Trap> {
        Rc::new(Trap { armed: Cell::new(false), left: Cell::new(nth), sticky, fired: Cell::new(false) })
    }
    /// Whether this is the time to fail.
    fn spring(&self) -> bool {
        if !self.armed.get() {
            return false;
        }
        if self.fired.get() {
            return self.sticky;
        }
        if self.left.get() == 0 {
            self.fired.set(true);
            return true;
        }
        self.left.set(self.left.get() - 1);
        false
    }
}

/// A text that fails to be formatted when its trap springs.
#[derive(Clone, Debug)]
struct Text {
    v: Val,
    trap: Option<(Rc<Trap>, u8)>,
}

impl Display for Text {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        if let Some((ref t, pieces)) = self.trap {
            if t.spring() {
                let p = self.v.pieces();
                for p in &p[..usize::from(pieces) % (p.len() + 1)] {
                    f.write_str(p)?;
                }
                return Err(fmt::Error);
            }
        }
        self.v.fmt(f)
    }
}

/// A buffer that fails when its trap springs, and a URI whose writing may fail.
#[derive(Debug)]
struct Sink {
    uri: Option<Text>,
    text: String,
    fault: Fault,
    trap: Rc<Trap>,
    /// What the buffer held when it first failed.
    at_failure: Option<usize>,
}

impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let fail = match self.fault {
            Fault::Full { budget, partial } => {
                let room = usize::from(budget).saturating_sub(self.text.len());
                let over = s.len() > room || (self.trap.fired.get() && self.trap.sticky);
                if over && (!self.trap.fired.get() || self.trap.sticky) {
                    if partial && !self.trap.fired.get() {
                        let n = (0..=room.min(s.len())).rev().find(|&i| s.is_char_boundary(i)).unwrap();
                        self.text.push_str(&s[..n]);
                    }
                    self.trap.fired.set(true);
                    true
                } else {
                    false
                }
            }
            Fault::Write { .. } => self.trap.spring(),
            _ => false,
        };
        if fail {
            self.at_failure.get_or_insert(self.text.len());
            return Err(fmt::Error);
        }
        self.text.push_str(s);
        Ok(())
    }
}

impl Display for Sink {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        if let Some(ref u) = self.uri {
            u.fmt(f)?;
        }
        f.write_str(&self.text)
    }
}

thread_local! {
    static KEY: RefCell<Option<(Rc<Trap>, Option<u8>)>> = const { RefCell::new(None) };
}

/// The buffer in which a PLAINTEXT signature is made.
struct KeyBuf {
    text: String,
    trap: Option<(Rc<Trap>, Option<u8>)>,
}
impl Default for KeyBuf {
    fn default() -> KeyBuf {
        KeyBuf { text: String::new(), trap: KEY.with(|k| k.borrow().clone()) }
    }
}
impl Write for KeyBuf {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if let Some((ref t, None)) = self.trap {
            if t.spring() {
                return Err(fmt::Error);
            }
        }
        self.text.push_str(s);
        Ok(())
    }
}
impl Display for KeyBuf {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        match self.trap {
            Some((ref t, Some(pieces))) => Text { v: Val::new(&*self.text), trap: Some((t.clone(), pieces)) }.fmt(f),
            _ => f.write_str(&self.text),
        }
    }
}

struct Hand(Vec<(String, Text, bool)>);
impl Request for Hand {
    fn serialize<S: Serializer>(&self, mut s: S) -> S::Output {
        let mut hook = 0;
        for (k, v, encoded) in &self.0 {
            while hook < 8 && PROTOCOL[hook] < &**k {
                call_hook(&mut s, hook);
                hook += 1;
            }
            if *encoded {
                s.serialize_parameter_encoded(k, v);
            } else {
                s.serialize_parameter(k, v);
            }
        }
        (hook..8).for_each(|h| call_hook(&mut s, h));
        s.end()
    }
}

enum Held {
    List(ParameterList<String, Text>),
    Sorted(Vec<(String, Text)>),
    Hand(Hand),
}
impl Request for Held {
    fn serialize<S: Serializer>(&self, s: S) -> S::Output {
        match self {
            Held::List(l) => l.serialize(s),
            Held::Sorted(v) => oauth::request::AssertSorted::new(v.iter().map(|(k, v)| (k, v))).serialize(s),
            Held::Hand(h) => h.serialize(s),
        }
    }
}

const HOWS: u8 = 13;

/// Runs one call; gives the result (`None` if it panicked) and what the buffer held.
fn act<SM: SignatureMethod + Clone>(case: &Case, sm: SM, fault: Fault, trap: &Rc<Trap>) -> (Option<String>, Sink) {
    let c = &case.c;
    let sorted = c.req.sorted();
    let mut items: Vec<(String, Text, bool)> = sorted
        .iter()
        .map(|p| {
            let encoded = case.req % 3 == 2 && p.e;
            let mut v = p.v.clone();
            if encoded {
                v.s = p.encoded();
            }
            (p.k.clone(), Text { v, trap: None }, encoded)
        })
        .collect();
    if let Fault::Value { which, pieces, .. } = fault {
        if !items.is_empty() {
            let i = usize::from(which) % items.len();
            items[i].1.trap = Some((trap.clone(), pieces));
        }
    }
    let pairs = |i: Vec<(String, Text, bool)>| i.into_iter().map(|(k, v, _)| (k, v)).collect::<Vec<_>>();
    let req = &match case.req % 3 {
        0 => Held::List(ParameterList::new(pairs(items))),
        1 => Held::Sorted(pairs(items)),
        _ => Held::Hand(Hand(items)),
    };
    let uri = &Text {
        v: c.uri.clone(),
        trap: match fault {
            Fault::Uri { pieces, .. } => Some((trap.clone(), pieces)),
            _ => None,
        },
    };
    let query = matches!(case.how % HOWS, 2 | 5 | 8 | 10);
    let mut sink = Sink {
        uri: query.then(|| uri.clone()),
        text: if query { String::new() } else { case.before.clone() },
        fault,
        trap: trap.clone(),
        at_failure: None,
    };
    KEY.with(|k| {
        *k.borrow_mut() = match fault {
            Fault::KeyWrite { .. } => Some((trap.clone(), None)),
            Fault::KeyRead { pieces, .. } => Some((trap.clone(), Some(pieces))),
            _ => None,
        }
    });
    let m = &*c.method;
    let o = &c.opts.auth();
    let b = c.builder(sm.clone());
    let s = &mut sink;
    trap.armed.set(true);
    // The outputs that go into a string of the library's own are returned, others are in the sink.
    let r = catch(|| match case.how % HOWS {
        0 => drop(b.authorize_with_buf(s, m, uri, req)),
        1 => drop(b.to_form_with_buf(s, m, uri, req)),
        2 => drop(b.to_query(m, s, req)),
        3 => drop(b.into_authorization_with_buf(s, m, uri, req)),
        4 => drop(b.into_form_with_buf(s, m, uri, req)),
        5 => drop(b.into_query(m, s, req)),
        6 => drop(req.serialize(Authorizer::authorization_with_buf(s, m, uri, c.client(), c.token(), o, sm))),
        7 => drop(req.serialize(Authorizer::form_with_buf(s, m, uri, c.client(), c.token(), o, sm))),
        8 => drop(req.serialize(Authorizer::query(m, s, c.client(), c.token(), o, sm))),
        9 => drop(req.serialize(Urlencoder::form_with_buf(s))),
        10 => drop(req.serialize(Urlencoder::query(s))),
        11 => {
            let r = b.authorize(m, uri, req);
            s.text.push_str(&r)
        }
        _ => {
            let r = oauth::to_form(req);
            s.text.push_str(&r)
        }
    });
    trap.armed.set(false);
    (r.ok().map(|()| sink.text.clone()), sink)
}

fn go<SM: SignatureMethod + Clone>(case: &Case, sm: SM, st: &mut Stats) -> Result<(), String> {
    let idle = Trap::new(0, false);
    let (complete, _) = act(case, sm.clone(), Fault::None, &idle);
    let complete = complete.ok_or("the call panics although nothing fails")?;
    let nth = match case.fault {
        Fault::Write { nth } => nth.into(),
        Fault::Value { nth, .. } | Fault::Uri { nth, .. } | Fault::KeyWrite { nth } | Fault::KeyRead { nth, .. } => nth.into(),
        _ => 0,
    };
    let trap = Trap::new(nth, case.sticky);
    let (r, sink) = act(case, sm, case.fault, &trap);
    if trap.fired.get() {
        st.nontrivial();
        st.label(match case.fault {
            Fault::None => "",
            Fault::Full { .. } => "full buffer",
            Fault::Write { .. } => "failing write",
            Fault::Value { .. } => "failing value",
            Fault::Uri { .. } => "failing URI",
            Fault::KeyWrite { .. } => "failing signature buffer",
            Fault::KeyRead { .. } => "failing signature",
        });
        ensure!(
            r.is_none(),
            "{:?} failed but the call returned normally, giving {:?} in place of {:?}",
            case.fault,
            r,
            complete
        );
        let written = &sink.text[..sink.at_failure.unwrap_or(sink.text.len())];
        ensure!(
            complete.starts_with(written),
            "{:?} failed after {:?} was written, which is not the beginning of {:?}",
            case.fault,
            written,
            complete
        );
    } else {
        st.label("nothing failed");
        ensure_eq!(r, Some(complete), "the result when nothing fails ({:?})", case.fault);
    }
    Ok(())
}

impl Prop for C20 {
    const ID: &'static str = "C20";
    const RULE: &'static str = "Random requests signed and encoded through 13 calls while one thing fails: the buffer (out of room, or at its \
        n-th write), a value or the URI (the n-th time it is formatted, after any of its pieces), or the buffer of a PLAINTEXT \
        signature; for good or only once. If it did fail the call must not return normally and the buffer must hold a prefix of \
        the faultless result, else the result must be that one; non-trivial = the fault did occur.";
    type Case = Case;
    const CASES: u32 = 150_000;

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let small = || prop_oneof![4 => 0u8..3, 1 => 0u8..12];
        let fault = prop_oneof![
            1 => Just(Fault::None),
            6 => (0u16..900, any::<bool>()).prop_map(|(budget, partial)| Fault::Full { budget, partial }),
            6 => prop_oneof![0u16..12, 0u16..120].prop_map(|nth| Fault::Write { nth }),
            8 => (any::<u8>(), small(), any::<u8>()).prop_map(|(which, nth, pieces)| Fault::Value { which, nth, pieces }),
            4 => (small(), any::<u8>()).prop_map(|(nth, pieces)| Fault::Uri { nth, pieces }),
            1 => (0u8..9).prop_map(|nth| Fault::KeyWrite { nth }),
            1 => (0u8..2, any::<u8>()).prop_map(|(nth, pieces)| Fault::KeyRead { nth, pieces }),
        ];
        (pinned_case(), 0u8..8, 0..HOWS, 0u8..3, fault, any::<bool>(), short_text())
            .prop_map(|(c, sm, how, req, fault, sticky, before)| {
                let sm = if matches!(fault, Fault::KeyWrite { .. } | Fault::KeyRead { .. }) { 7 } else { sm };
                Case { c, sm, how, req, fault, sticky, before }
            })
            .boxed()
    }

    fn check(case: &Case, st: &mut Stats) -> Result<(), String> {
        match case.sm {
            0..=3 => go(case, oauth::HMAC_SHA1, st),
            4 => go(case, oauth::PLAINTEXT, st),
            5 => go(case, &keys::small().k06, st),
            6 => go(case, keys::small().k09.clone(), st),
            _ => go(case, Plaintext::<KeyBuf>::with_buf(), st),
        }
    }
}

fn main() {
    run::<C20>()
}
