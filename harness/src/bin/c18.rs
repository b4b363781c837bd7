use std::rc::Rc;

use oauth::{Credentials, Token};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::engine::{main as run, Prop, Stats, Tier};
use vh::gen::text;
use vh::{ensure, ensure_eq};

struct C18;

/// The string types a half can hold.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Ty {
    String,
    Boxed,
    Mine,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Map(Ty),
    MapClient(Ty),
    MapToken(Ty),
    Clone,
    AsRef,
    FromTokenRef,
    FromRef,
    New,
    FromParts,
    MapHalves,
    SwapHalves,
    Fields,
    Copies,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    parts: [String; 4],
    ops: Vec<Op>,
}

/// A string type of the user's, with a mark that conversions have to keep.
#[derive(Clone, Debug, PartialEq)]
struct Mine(Rc<str>);
impl AsRef<str> for Mine {
    fn as_ref(&self) -> &str {
        &self.0
    }
}

trait Str: AsRef<str> + Clone {
    const TY: Ty;
    fn of(s: &str) -> Self;
}
impl Str for String {
    const TY: Ty = Ty::String;
    fn of(s: &str) -> Self {
        s.into()
    }
}
impl Str for Box<str> {
    const TY: Ty = Ty::Boxed;
    fn of(s: &str) -> Self {
        s.into()
    }
}
impl Str for Mine {
    const TY: Ty = Ty::Mine;
    fn of(s: &str) -> Self {
        Mine(s.into())
    }
}

/// A token whose halves hold either type.
enum Any {
    SS(Token<String, String>),
    SB(Token<String, Box<str>>),
    SM(Token<String, Mine>),
    BS(Token<Box<str>, String>),
    BB(Token<Box<str>, Box<str>>),
    BM(Token<Box<str>, Mine>),
    MS(Token<Mine, String>),
    MB(Token<Mine, Box<str>>),
    MM(Token<Mine, Mine>),
}

type Four = [String; 4];

macro_rules! with {
    ($any:expr, $t:ident => $e:expr) => {
        match $any {
            Any::SS($t) => $e,
            Any::SB($t) => $e,
            Any::SM($t) => $e,
            Any::BS($t) => $e,
            Any::BB($t) => $e,
            Any::BM($t) => $e,
            Any::MS($t) => $e,
            Any::MB($t) => $e,
            Any::MM($t) => $e,
        }
    };
}

fn wrap<C: Str + 'static, T: Str + 'static>(t: Token<C, T>) -> Any {
    let b: Box<dyn std::any::Any> = Box::new(t);
    macro_rules! go {
        ($($V:ident $C:ty, $T:ty;)*) => {
            match (C::TY, T::TY) {
                $( (<$C as Str>::TY, <$T as Str>::TY) => Any::$V(*b.downcast::<Token<$C, $T>>().unwrap()), )*
            }
        };
    }
    go! {
        SS String, String; SB String, Box<str>; SM String, Mine; BS Box<str>, String; BB Box<str>, Box<str>;
        BM Box<str>, Mine; MS Mine, String; MB Mine, Box<str>; MM Mine, Mine;
    }
}

macro_rules! ty {
    ($ty:expr, $U:ident => $e:expr) => {
        match $ty {
            Ty::String => {
                type $U = String;
                $e
            }
            Ty::Boxed => {
                type $U = Box<str>;
                $e
            }
            Ty::Mine => {
                type $U = Mine;
                $e
            }
        }
    };
}

/// What a mapping function saw, and what it returns: a text that tells its call's number.
struct Mapper {
    seen: Vec<String>,
}
impl Mapper {
    fn new() -> Mapper {
        Mapper { seen: vec![] }
    }
    fn call<U: Str>(&mut self, s: &str) -> U {
        self.seen.push(s.to_string());
        let mut s = s.to_string();
        if s.len() > 200 {
            s.truncate(s.char_indices().map(|(i, _)| i).take_while(|&i| i < 100).last().unwrap());
        }
        U::of(&format!("{}|{}", s, self.seen.len()))
    }
    /// The same on a model.
    fn model(m: &mut Four, which: &[usize]) -> Vec<String> {
        let mut me = Mapper::new();
        for &i in which {
            m[i] = me.call::<String>(&m[i]);
        }
        me.seen
    }
}

/// Compares every view of the token with the model.
fn same<C: Str, T: Str>(t: &Token<C, T>, m: &Four, what: &str) -> Result<(), String> {
    let parts = |c: Credentials<&str>, t: Credentials<&str>| -> Four {
        [c.identifier.into(), c.secret.into(), t.identifier.into(), t.secret.into()]
    };
    let fields = [
        t.client.identifier.as_ref(),
        t.client.secret.as_ref(),
        t.token.identifier.as_ref(),
        t.token.secret.as_ref(),
    ];
    ensure_eq!(fields.map(|s| s.to_string()), *m, "{}: fields", what);
    let methods = [t.client.identifier(), t.client.secret(), t.token.identifier(), t.token.secret()];
    ensure_eq!(methods.map(|s| s.to_string()), *m, "{}: accessors of the halves", what);
    ensure_eq!(parts(t.client(), t.token()), *m, "{}: client() and token()", what);
    ensure_eq!(parts(t.client.as_ref(), t.token.as_ref()), *m, "{}: as_ref() of the halves", what);
    ensure_eq!(parts((&t.client).into(), (&t.token).into()), *m, "{}: From for the halves", what);
    let r: Token<&str> = t.as_ref();
    ensure_eq!(parts(r.client, r.token), *m, "{}: as_ref()", what);
    let r: Token<&str> = t.into();
    ensure_eq!(parts(r.client, r.token), *m, "{}: From", what);
    let r = Token::from_ref(&t.client, &t.token);
    ensure_eq!(parts(r.client, r.token), *m, "{}: from_ref()", what);
    Ok(())
}

fn step<C: Str + 'static, T: Str + 'static>(t: Token<C, T>, m: &mut Four, op: &Op) -> Result<Any, String> {
    Ok(match op {
        Op::MapClient(ty) => ty!(*ty, U => {
            let mut f = Mapper::new();
            let r = t.map_client(|s| f.call::<U>(s.as_ref()));
            ensure_eq!(f.seen, Mapper::model(m, &[0, 1]), "calls of map_client's function");
            wrap(r)
        }),
        Op::MapToken(ty) => ty!(*ty, U => {
            let mut f = Mapper::new();
            let r = t.map_token(|s| f.call::<U>(s.as_ref()));
            ensure_eq!(f.seen, Mapper::model(m, &[2, 3]), "calls of map_token's function");
            wrap(r)
        }),
        Op::Map(ty) => {
            // `map` takes tokens whose halves are of one type.
            let one: Token<C> = Token {
                client: t.client,
                token: Credentials { identifier: C::of(t.token.identifier()), secret: C::of(t.token.secret()) },
            };
            ty!(*ty, U => {
                let mut f = Mapper::new();
                let r = one.map(|s| f.call::<U>(s.as_ref()));
                ensure_eq!(f.seen, Mapper::model(m, &[0, 1, 2, 3]), "calls of map's function");
                wrap(r)
            })
        }
        Op::MapHalves => {
            let (mut f, mut g) = (Mapper::new(), Mapper::new());
            let client = t.client.map(|s| f.call::<T>(s.as_ref()));
            let token = t.token.map(|s| g.call::<C>(s.as_ref()));
            ensure_eq!(f.seen, Mapper::model(m, &[0, 1]), "calls of a half's map's function");
            ensure_eq!(g.seen, Mapper::model(m, &[2, 3]), "calls of a half's map's function");
            wrap(Token::new(client, token))
        }
        Op::SwapHalves => {
            m.rotate_left(2);
            wrap(Token::new(t.token, t.client))
        }
        Op::Clone => {
            let r = t.clone();
            same(&t, m, "the original of a clone")?;
            let half = (t.client.clone(), t.token.clone());
            same(&Token::new(half.0, half.1), m, "clones of the halves")?;
            drop(t);
            wrap(r)
        }
        Op::AsRef => {
            let r: Token<String> = t.as_ref().map(Into::into);
            wrap(r)
        }
        Op::FromTokenRef => {
            let r: Token<&str> = Token::from(&t);
            wrap(r.map_client(C::of).map_token(T::of))
        }
        Op::FromRef => {
            let r: Token<&str, &str> = Token::from_ref(&t.client, &t.token);
            wrap(r.map_token(C::of).map_client(T::of))
        }
        Op::New => {
            let c = Credentials::new(C::of(&m[0]), C::of(&m[1]));
            let k = Credentials::new(T::of(&m[2]), T::of(&m[3]));
            wrap(Token::new(c, k))
        }
        Op::FromParts => wrap(Token::from_parts(C::of(&m[0]), C::of(&m[1]), T::of(&m[2]), T::of(&m[3]))),
        Op::Fields => {
            let Token { client: Credentials { identifier: a, secret: b }, token: Credentials { identifier: c, secret: d } } = t;
            wrap(Token {
                token: Credentials { secret: d, identifier: c },
                client: Credentials { secret: b, identifier: a },
            })
        }
        Op::Copies => {
            let r: Token<&str> = t.as_ref();
            let (copy, again) = (r, r);
            let c: Credentials<&str> = copy.client;
            let (c2, c3) = (c, c);
            ensure_eq!((c2.identifier, c3.secret), (&*m[0], &*m[1]), "copied credentials");
            ensure_eq!((again.token.identifier, copy.token.secret), (&*m[2], &*m[3]), "copied token");
            t
                .into_any()
        }
    })
}

trait IntoAny {
    fn into_any(self) -> Any;
}
impl<C: Str + 'static, T: Str + 'static> IntoAny for Token<C, T> {
    fn into_any(self) -> Any {
        wrap(self)
    }
}

impl Prop for C18 {
    const ID: &'static str = "C18";
    const RULE: &'static str = "Random four strings taken through up to 20 random conversions (map, map_client, map_token, clones, copies, \
        borrows, From, from_ref, new, from_parts, public fields) between three string types, against a model of four strings with \
        mapping functions that record their calls; every view is compared after every step; non-trivial = at least two steps and \
        four different strings.";
    type Case = Case;
    const CASES: u32 = 300_000;

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let ty = || prop_oneof![Just(Ty::String), Just(Ty::Boxed), Just(Ty::Mine)];
        let op = prop_oneof![
            2 => ty().prop_map(Op::Map),
            2 => ty().prop_map(Op::MapClient),
            2 => ty().prop_map(Op::MapToken),
            1 => Just(Op::Clone),
            1 => Just(Op::AsRef),
            1 => Just(Op::FromTokenRef),
            1 => Just(Op::FromRef),
            1 => Just(Op::New),
            1 => Just(Op::FromParts),
            1 => Just(Op::MapHalves),
            1 => Just(Op::SwapHalves),
            1 => Just(Op::Fields),
            1 => Just(Op::Copies),
        ];
        (vec(text(), 4), vec(op, 0..21))
            .prop_map(|(p, ops)| Case { parts: <[String; 4]>::try_from(p).unwrap(), ops })
            .boxed()
    }

    fn check(case: &Case, st: &mut Stats) -> Result<(), String> {
        let mut m = case.parts.clone();
        let mut t = wrap(Token::from_parts(m[0].clone(), m[1].clone(), m[2].clone(), m[3].clone()));
        with!(&t, x => same(x, &m, "a new token"))?;
        for (i, op) in case.ops.iter().enumerate() {
            t = with!(t, x => step(x, &mut m, op)).map_err(|e| format!("step {} ({:?}): {}", i, op, e))?;
            with!(&t, x => same(x, &m, &format!("after step {} ({:?})", i, op)))?;
        }
        // Parts that are not strings can be mapped to ones that are.
        let n = Credentials { identifier: 1u32, secret: 2 }.map(|n| n.to_string());
        ensure!((n.identifier(), n.secret()) == ("1", "2"), "mapped numbers");
        let mut p = case.parts.to_vec();
        p.sort();
        p.dedup();
        if p.len() == 4 && case.ops.len() > 1 {
            st.nontrivial();
        }
        Ok(())
    }
}

fn main() {
    run::<C18>()
}
