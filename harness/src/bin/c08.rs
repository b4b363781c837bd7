use std::fmt::Display;

use oauth::serializer::recorder::Record;
use oauth::serializer::{Recorder, Serializer, SerializerExt};
use oauth::Request;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::engine::{main as run, Prop, Stats, Tier};
use vh::gen::*;
use vh::{ensure, ensure_eq, rfc};

struct C08;

/// One call on a serializer.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Call {
    P(String, Val),
    E(String, Val),
    Hook(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    req: ReqSpec,
    form: u8,
    derived: (Val, Option<Val>, Option<u16>, bool),
    /// Which fields of the `Gaps` requests are present.
    #[serde(default)]
    gaps: u32,
    /// Calls made directly on the recorder, in any order.
    calls: Vec<Call>,
    /// Another text for comparing records.
    other: Val,
}

/// A serializer that writes down its calls.
#[derive(Default)]
struct Trace(Vec<Call>);

impl Serializer for Trace {
    type Output = Vec<Call>;
    fn serialize_parameter<V: Display>(&mut self, k: &str, v: V) {
        self.0.push(Call::P(k.into(), Val::new(v.to_string())));
    }
    fn serialize_parameter_encoded<V: Display>(&mut self, k: &str, v: V) {
        self.0.push(Call::E(k.into(), Val::new(v.to_string())));
    }
    fn serialize_oauth_callback(&mut self) {
        self.0.push(Call::Hook(0));
    }
    fn serialize_oauth_consumer_key(&mut self) {
        self.0.push(Call::Hook(1));
    }
    fn serialize_oauth_nonce(&mut self) {
        self.0.push(Call::Hook(2));
    }
    fn serialize_oauth_signature_method(&mut self) {
        self.0.push(Call::Hook(3));
    }
    fn serialize_oauth_timestamp(&mut self) {
        self.0.push(Call::Hook(4));
    }
    fn serialize_oauth_token(&mut self) {
        self.0.push(Call::Hook(5));
    }
    fn serialize_oauth_verifier(&mut self) {
        self.0.push(Call::Hook(6));
    }
    fn serialize_oauth_version(&mut self) {
        self.0.push(Call::Hook(7));
    }
    fn end(self) -> Vec<Call> {
        self.0
    }
}

fn trace<R: Request + ?Sized>(r: &R) -> Vec<Call> {
    r.serialize(Trace::default())
}

fn record(c: &Call) -> Record {
    match c {
        Call::P(k, v) => Record::Parameter(k.clone(), v.s.clone()),
        Call::E(k, v) => Record::ParameterEncoded(k.clone(), v.s.clone()),
        Call::Hook(i) => [
            Record::Callback,
            Record::ConsumerKey,
            Record::Nonce,
            Record::SignatureMethod,
            Record::Timestamp,
            Record::Token,
            Record::Verifier,
            Record::Version,
        ][*i as usize]
            .clone(),
    }
}

/// Equality of records decided without the library.
fn same(r: &Record, c: &Call) -> bool {
    match (r, c) {
        (Record::Parameter(k, v), Call::P(l, w)) | (Record::ParameterEncoded(k, v), Call::E(l, w)) => {
            k == l && *v == w.s
        }
        (r, Call::Hook(i)) => {
            let names = [
                "Callback", "ConsumerKey", "Nonce", "SignatureMethod", "Timestamp", "Token", "Verifier", "Version",
            ];
            format!("{:?}", r) == names[*i as usize]
        }
        _ => false,
    }
}

fn feed<S: Serializer>(s: &mut S, c: &Call) {
    match c {
        Call::P(k, v) => s.serialize_parameter(k, v),
        Call::E(k, v) => s.serialize_parameter_encoded(k, v),
        Call::Hook(i) => call_hook(s, *i as usize),
    }
}

/// Judges one request: its own trace, repetition and the recorder.
fn judge<R: Request + ?Sized>(r: &R, mut expected: Vec<Call>, what: &str) -> Result<(), String> {
    let t = trace(r);
    let mut hooks = [0; 8];
    let mut names = Vec::new();
    let mut params = Vec::new();
    for c in &t {
        match c {
            Call::Hook(i) => {
                hooks[*i as usize] += 1;
                names.push(PROTOCOL[*i as usize]);
            }
            Call::P(k, _) | Call::E(k, _) => {
                names.push(k);
                params.push(c.clone());
            }
        }
    }
    ensure_eq!(hooks, [1; 8], "{}: calls of each hook in {:?}", what, t);
    ensure!(
        names.windows(2).all(|w| w[0] <= w[1]),
        "{}: names out of order: {:?}",
        what,
        names
    );
    let key = |c: &Call| format!("{:?}", c);
    params.sort_by_key(key);
    expected.sort_by_key(key);
    ensure_eq!(params, expected, "{}: parameters", what);
    ensure_eq!(trace(r), t, "{}: serialized again", what);
    ensure_eq!(trace(&r), t, "{}: through a reference", what);
    ensure_eq!(trace(&&&r), t, "{}: through three references", what);
    ensure_eq!(trace(&Some(r)), t, "{}: through Some of a reference", what);
    ensure_eq!(trace(&Some(&Some(&r))), t, "{}: through nested Some", what);
    let records = r.serialize(Recorder::new());
    ensure!(
        records.len() == t.len() && records.iter().zip(&t).all(|(r, c)| same(r, c)),
        "{}: recorder reported {:?} for {:?}",
        what,
        records,
        t
    );
    Ok(())
}

#[derive(oauth::Request)]
struct Derived<'a, T> {
    z: &'a Val,
    oauth_u: Option<T>,
    #[oauth1(rename = "oauth_b")]
    first: Option<u16>,
    #[oauth1(encoded)]
    oauth_timestamp_: bool,
    #[oauth1(rename = "oauth_versio")]
    v: &'static str,
}

/// A value that is there or is to be skipped.
struct Cond(bool);

impl Cond {
    fn absent(&self) -> bool {
        !self.0
    }
}

impl Display for Cond {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("v v")
    }
}

/// Derived requests with one field in every gap between the protocol parameters, each of which
/// may be absent at run time, and each kind of field in each of the gaps.
macro_rules! gaps {
    ($($S:ident { $($field:ident: $kind:ident,)* })*) => {$(
        gaps! { @def [$S] [] $($field: $kind,)* }
        impl $S {
            fn at(bits: u32) -> ($S, Vec<Call>) {
                let mut i = 0;
                let mut e = Vec::new();
                $(
                    let there = bits >> i & 1 == 1;
                    i += 1;
                    let $field = gaps!(@val $kind there);
                    gaps!(@expect $kind there e $field);
                )*
                let _ = i;
                ($S { $($field,)* }, e)
            }
        }
    )*};
    (@def [$S:ident] [$($out:tt)*]) => {
        #[derive(oauth::Request)]
        struct $S { $($out)* }
    };
    (@def [$S:ident] [$($out:tt)*] $f:ident: opt, $($rest:tt)*) => {
        gaps! { @def [$S] [$($out)* $f: Option<u8>,] $($rest)* }
    };
    (@def [$S:ident] [$($out:tt)*] $f:ident: cond, $($rest:tt)*) => {
        gaps! { @def [$S] [$($out)* #[oauth1(skip_if = Cond::absent)] $f: Cond,] $($rest)* }
    };
    (@def [$S:ident] [$($out:tt)*] $f:ident: both, $($rest:tt)*) => {
        gaps! { @def [$S] [$($out)* #[oauth1(skip_if = Cond::absent, encoded)] $f: Option<Cond>,] $($rest)* }
    };
    (@def [$S:ident] [$($out:tt)*] $f:ident: skip, $($rest:tt)*) => {
        gaps! { @def [$S] [$($out)* #[oauth1(skip)] #[allow(dead_code)] $f: u8,] $($rest)* }
    };
    (@val opt $there:ident) => { if $there { Some(7) } else { None } };
    (@val cond $there:ident) => { Cond($there) };
    (@val both $there:ident) => { if $there { Some(Cond(true)) } else { Some(Cond(false)) } };
    (@val skip $there:ident) => { u8::from($there) };
    (@expect opt $there:ident $e:ident $f:ident) => {
        if $there { $e.push(Call::P(stringify!($f).into(), Val::new("7"))); }
    };
    (@expect cond $there:ident $e:ident $f:ident) => {
        if $there { $e.push(Call::P(stringify!($f).into(), Val::new("v v"))); }
    };
    (@expect both $there:ident $e:ident $f:ident) => {
        if $there { $e.push(Call::E(stringify!($f).into(), Val::new("v v"))); }
    };
    (@expect skip $there:ident $e:ident $f:ident) => { let _ = $there; };
}

gaps! {
    Gaps0 {
        oauth_a: opt, oauth_callback_: cond, oauth_consumer_key_: both, oauth_nonce_: skip, oauth_signature_method_: opt,
        oauth_timestamp_: cond, oauth_token_: both, oauth_verifier_: skip, oauth_version_: opt, z: cond,
    }
    Gaps1 {
        oauth_a: cond, oauth_callback_: both, oauth_consumer_key_: skip, oauth_nonce_: opt, oauth_signature_method_: cond,
        oauth_timestamp_: both, oauth_token_: skip, oauth_verifier_: opt, oauth_version_: cond, z: both,
    }
    Gaps2 {
        oauth_a: both, oauth_callback_: skip, oauth_consumer_key_: opt, oauth_nonce_: cond, oauth_signature_method_: both,
        oauth_timestamp_: skip, oauth_token_: opt, oauth_verifier_: cond, oauth_version_: both, z: skip,
    }
    Gaps3 {
        oauth_a: skip, oauth_callback_: opt, oauth_consumer_key_: cond, oauth_nonce_: both, oauth_signature_method_: skip,
        oauth_timestamp_: opt, oauth_token_: cond, oauth_verifier_: both, oauth_version_: skip, z: opt,
    }
    Late { z_a: cond, z_b: opt, z_c: skip, z_d: both, }
    Late2 { z_a: opt, z_b: both, z_c: cond, }
}

fn plain(p: &[(&str, &str)]) -> Vec<Call> {
    p.iter().map(|(k, v)| Call::P(k.to_string(), Val::new(*v))).collect()
}

impl Prop for C08 {
    const ID: &'static str = "C08";
    const RULE: &'static str = "Random request (8 ways of building one, and a derived one) serialized into an independent call recorder, \
        repeatedly and through references and Some, and random call sequences made on the bundled recorder; non-trivial = a \
        parameter name falls strictly between two protocol names.";
    type Case = Case;
    const CASES: u32 = 80_000;

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let call = (0u8..20, key(), val_of(short_text())).prop_map(|(i, k, v)| match i {
            0..=5 => Call::P(k, v),
            6..=11 => Call::E(k, v),
            i => Call::Hook(i - 12),
        });
        (
            req(),
            0u8..4,
            (
                val_of(short_text()),
                proptest::option::of(val_of(short_text())),
                any::<Option<u16>>(),
                any::<bool>(),
            ),
            proptest::collection::vec(call, 0..12),
            val_of(short_text()),
            any::<u32>(),
        )
            .prop_map(|(req, form, derived, calls, other, gaps)| Case { req, form, derived, gaps, calls, other })
            .boxed()
    }

    fn fixed(_: Tier) -> Vec<Case> {
        // Every pair of neighbouring names around each protocol name, in every kind of request.
        let mut v = Vec::new();
        let mut names: Vec<String> = vec!["".into(), "a".into(), "o".into(), "oauth_".into(), "z".into(), "~".into()];
        for p in PROTOCOL {
            let shorter = p[..p.len() - 1].to_string();
            names.extend([shorter.clone() + "A", shorter.clone() + "z", shorter, p.to_string() + "_", p.to_string() + "-"]);
        }
        for kind in KINDS {
            for (i, a) in names.iter().enumerate() {
                for b in &names[i..] {
                    v.push(Case {
                        req: ReqSpec { kind, params: vec![Param::new(b, "1"), Param::new(a, "")] },
                        form: 0,
                        derived: (Val::new(""), None, None, false),
                        gaps: v.len() as u32,
                        calls: vec![],
                        other: Val::new(""),
                    });
                }
            }
        }
        v
    }

    fn check(c: &Case, st: &mut Stats) -> Result<(), String> {
        let custom = matches!(c.req.kind, Kind::Custom) || (c.req.kind == Kind::None && !c.req.params.is_empty());
        let expected: Vec<Call> = c
            .req
            .sorted()
            .into_iter()
            .map(|p| {
                if custom && p.e {
                    Call::E(p.k.clone(), Val::new(p.encoded()))
                } else {
                    Call::P(p.k, Val::new(p.v.s))
                }
            })
            .collect();
        judge(&c.req.build(), expected.clone(), "request")?;
        match c.form {
            0 => judge(&(), vec![], "()")?,
            1 => judge(&None::<DynReq>, vec![], "None")?,
            2 => judge(&None::<&Option<()>>, vec![], "None")?,
            _ => {
                let mut r = c.req.build();
                judge(&mut r, expected, "&mut request")?;
            }
        }
        ensure_eq!(
            trace(&()),
            (0..8).map(Call::Hook).collect::<Vec<_>>(),
            "the unit request"
        );
        let mut t = Trace::default();
        t.serialize_oauth_parameters();
        ensure_eq!(t.0, (0..8).map(Call::Hook).collect::<Vec<_>>(), "serialize_oauth_parameters");
        ensure!(
            Record::<String, String>::OAUTH_PARAMETERS
                .iter()
                .zip(0..8)
                .all(|(r, i)| same(r, &Call::Hook(i))),
            "Record::OAUTH_PARAMETERS is out of order"
        );

        let (z, t, first, b) = &c.derived;
        let d = Derived {
            z,
            oauth_u: t.clone(),
            first: *first,
            oauth_timestamp_: *b,
            v: "x y",
        };
        let mut e = plain(&[("z", &z.s), ("oauth_versio", "x y")]);
        if let Some(t) = t {
            e.extend(plain(&[("oauth_u", &t.s)]));
        }
        if let Some(n) = first {
            e.extend(plain(&[("oauth_b", &n.to_string())]));
        }
        e.push(Call::E("oauth_timestamp_".into(), Val::new(b.to_string())));
        judge(&d, e, "derived request")?;
        let (r, e) = Gaps0::at(c.gaps);
        judge(&r, e, "Gaps0")?;
        let (r, e) = Gaps1::at(c.gaps);
        judge(&r, e, "Gaps1")?;
        let (r, e) = Gaps2::at(c.gaps);
        judge(&r, e, "Gaps2")?;
        let (r, e) = Gaps3::at(c.gaps);
        judge(&r, e, "Gaps3")?;
        let (r, e) = Late::at(c.gaps);
        judge(&r, e, "Late")?;
        let (r, e) = Late2::at(c.gaps);
        judge(&r, e, "Late2")?;

        // The recorder reports what it was told, step by step.
        let mut r = Recorder::new();
        for (i, call) in c.calls.iter().enumerate() {
            feed(&mut r, call);
            let h = r.history();
            ensure!(
                h.len() == i + 1 && h.iter().zip(&c.calls).all(|(r, c)| same(r, c)),
                "recorder history {:?} after {:?}",
                h,
                &c.calls[..=i]
            );
        }
        let end = r.clone().end();
        ensure!(
            end.len() == c.calls.len() && end.iter().zip(&c.calls).all(|(r, c)| same(r, c)),
            "recorder returned {:?} for {:?}",
            end,
            c.calls
        );
        // Records compare by name and text.
        for call in c.calls.iter().take(4) {
            ensure!(record(call) == record(call), "{:?} does not equal itself", call);
            if let Call::P(k, v) | Call::E(k, v) = call {
                let p = Record::Parameter(&**k, v);
                let e = Record::ParameterEncoded(&**k, v);
                ensure!(p == Record::Parameter(k.clone(), v.s.clone()), "{:?}: text against its value", call);
                ensure!(Record::ParameterEncoded(k.clone(), v.s.clone()) == e, "{:?}: value against its text", call);
                ensure!(p != e, "{:?}: plain equals encoded", call);
                let o = &c.other;
                ensure_eq!(p == Record::Parameter(&**k, o), v.s == o.s, "equality of {:?} and {:?}", v, o);
                ensure_eq!(Record::Parameter(&**k, o) == p, v.s == o.s, "equality of {:?} and {:?}", o, v);
                ensure_eq!(
                    Record::Parameter("other-name", v) == p,
                    k == "other-name",
                    "equality of different names"
                );
                ensure!(p != Record::<&str, &str>::Nonce, "a parameter equals a hook");
            }
        }
        for i in 0..8 {
            for j in 0..8 {
                ensure_eq!(
                    record(&Call::Hook(i)) == record(&Call::Hook(j)),
                    i == j,
                    "equality of hook records {} and {}",
                    i,
                    j
                );
            }
        }

        let ks: Vec<&str> = c.req.params.iter().map(|p| &*p.k).collect();
        if ks.iter().any(|k| PROTOCOL[0] < *k && *k < PROTOCOL[7]) {
            st.nontrivial();
        }
        st.label_if(ks.is_empty(), "no parameters");
        st.label_if(custom, "hand-written request");
        st.label_if(ks.iter().any(|k| k.is_empty()), "empty name");
        st.label_if(c.req.params.iter().any(|p| rfc::enc(&p.v.s) != p.v.s), "value needing encoding");
        Ok(())
    }
}

fn main() {
    run::<C08>()
}
