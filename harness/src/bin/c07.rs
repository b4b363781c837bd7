use std::borrow::Borrow;
use std::fmt::{Debug, Display};
use std::rc::Rc;

use oauth::serializer::Recorder;
use oauth::serializer::recorder::Record;
use oauth::{ParameterList, Request};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::engine::{main as run, Prop, Stats, Tier};
use vh::gen::*;
use vh::{ensure, ensure_eq, rfc};

struct C07;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    /// The steps in which the pairs are put in.
    chunks: Vec<Vec<Param>>,
    /// Which container, pair and value types.
    types: u8,
    /// Whether the pairs are put in order before `from_sorted`, and then which two change places.
    presort: bool,
    swap: Option<(u8, u8)>,
    /// Instead of all this: a list this long, in order except that the pair at the given place and the one before it are swapped.
    #[serde(default)]
    long: Option<(usize, Option<usize>)>,
}

/// Very long lists, which `all_checks` would take too long over.
fn long(n: usize, swap: Option<usize>, st: &mut Stats) -> Result<(), String> {
    type L<A, P> = ParameterList<&'static str, String, A, P>;
    let in_order: Vec<(&'static str, String)> = (0..n).map(|i| ("p", format!("{:08}", i))).collect();
    let mut seq = in_order.clone();
    if let Some(i) = swap {
        seq.swap(i, i - 1);
    }
    let refs: Vec<&(&'static str, String)> = seq.iter().collect();
    let owned = L::<_, (&'static str, String)>::from_sorted(seq.clone());
    let borrowed = L::<_, &(&'static str, String)>::from_sorted(&refs[..]);
    ensure_eq!(owned.is_some(), swap.is_none(), "from_sorted(Vec) on {} pairs, swapped at {:?}", n, swap);
    ensure_eq!(borrowed.is_some(), swap.is_none(), "from_sorted(&[&_]) on {} pairs, swapped at {:?}", n, swap);
    let whole = |what: &str, shown: Vec<(&'static str, String)>| match shown.iter().zip(&in_order).position(|(a, b)| a != b) {
        Some(i) => Err(format!("{} of {} pairs: {:?} at {}", what, n, shown[i], i)),
        None if shown.len() != n => Err(format!("{} of {} pairs has {}", what, n, shown.len())),
        None => Ok(()),
    };
    if let Some(l) = owned {
        whole("from_sorted(Vec)", l.iter().cloned().collect())?;
    }
    whole("new(Vec)", L::<_, (&'static str, String)>::new(seq.clone()).into_inner())?;
    // The same pairs backwards, and a few put in at the end.
    seq.reverse();
    // (a third at once, or three pairs)
    let few = seq.split_off(n - if swap.is_none() { n / 3 } else { n.min(3) });
    let mut l: ParameterList<&'static str, String> = seq.into_iter().collect();
    l.extend(few);
    whole("collect and extend", l.iter().cloned().collect())?;
    let mut at = 0;
    for r in l.serialize(Recorder::new()) {
        if let Record::Parameter(k, v) = r {
            ensure!(
                in_order.get(at).is_some_and(|p| p.0 == k && p.1 == v),
                "serialization of {} pairs: {:?}={:?} at {}",
                n, k, v, at
            );
            at += 1;
        }
    }
    ensure_eq!(at, n, "serialization of {} pairs: how many", n);
    st.nontrivial();
    st.label("more than 65,000 pairs");
    Ok(())
}

/// What a list must show of a pair: its name, its text, and the value's identity.
fn order<K: AsRef<str>, V: Display>(p: &(K, V)) -> (String, String) {
    (p.0.as_ref().to_string(), rfc::enc(&p.1.to_string()))
}

fn sorted<K: AsRef<str>, V: Display>(p: &[(K, V)]) -> bool {
    p.windows(2).all(|w| order(&w[0]) <= order(&w[1]))
}

/// Compares a list with the pairs put into it.
fn judge<K, V, A, P>(l: ParameterList<K, V, A, P>, put: &[(K, V)], exact: bool, what: &str) -> Result<(), String>
where
    K: AsRef<str> + Clone + Debug + PartialEq,
    V: Display + Clone + Debug + PartialEq,
    A: AsRef<[P]>,
    P: Borrow<(K, V)>,
{
    let shown: Vec<(K, V)> = l.iter().cloned().collect();
    let slice: Vec<(K, V)> = l.as_ref().iter().map(|p| p.borrow().clone()).collect();
    ensure_eq!(slice, shown, "{}: slice view against iteration", what);
    let mut serialized = Vec::new();
    for r in l.serialize(Recorder::new()) {
        match r {
            Record::Parameter(k, v) => serialized.push((k, v)),
            Record::ParameterEncoded(k, v) => {
                return Err(format!("{}: {:?}={:?} serialized as already encoded", what, k, v))
            }
            _ => {}
        }
    }
    let texts: Vec<(String, String)> = shown
        .iter()
        .map(|(k, v)| (k.as_ref().to_string(), v.to_string()))
        .collect();
    ensure_eq!(serialized, texts, "{}: serialization against iteration", what);
    let again: Vec<(K, V)> = (&l).iter().cloned().collect();
    ensure_eq!(again, shown, "{}: iteration after serialization", what);
    let inner: Vec<(K, V)> = l.into_inner().as_ref().iter().map(|p| p.borrow().clone()).collect();
    ensure_eq!(inner, shown, "{}: unwrapped against iteration", what);

    ensure!(sorted(&shown), "{}: not in order: {:?}", what, shown);
    if exact {
        ensure_eq!(shown, put, "{}: the sorted sequence changed", what);
    }
    // A permutation: remove every pair put in from what is shown.
    ensure_eq!(shown.len(), put.len(), "{}: number of pairs in {:?}", what, shown);
    let mut left = shown.clone();
    for p in put {
        match left.iter().position(|q| q == p) {
            Some(i) => {
                left.swap_remove(i);
            }
            None => return Err(format!("{}: pair {:?} was lost from {:?}", what, p, shown)),
        }
    }
    Ok(())
}

/// The same items from an iterator that says less about how many there are.
struct Hinted<I>(I, usize);

impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;

    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let (lo, hi) = self.0.size_hint();
        match self.1 % 5 {
            0 => (lo, hi),
            1 => (0, None),
            2 => (0, hi),
            3 => (lo.min(1), None),
            _ => (lo / 2, hi.map(|n| n + 100)),
        }
    }
}

/// Histories over growable lists.
fn grow<K, V>(chunks: &[Vec<(K, V)>], st: &mut Stats) -> Result<(), String>
where
    K: AsRef<str> + Clone + Debug + PartialEq,
    V: Display + Clone + Debug + PartialEq,
{
    let all: Vec<(K, V)> = chunks.iter().flatten().cloned().collect();
    judge(ParameterList::new(all.clone()), &all, false, "new(Vec)")?;
    judge(ParameterList::from(all.clone()), &all, false, "from(Vec)")?;
    for hint in 0..5 {
        judge(Hinted(all.iter().cloned(), hint).collect::<ParameterList<K, V>>(), &all, false, "collect")?;
    }
    // Grown step by step from an empty list, judged after every step.
    let mut l: ParameterList<K, V> = ParameterList::default();
    judge(ParameterList::<K, V>::default(), &[], true, "default")?;
    let mut so_far: Vec<(K, V)> = Vec::new();
    for (i, c) in chunks.iter().enumerate() {
        l.extend(Hinted(c.iter().cloned(), i + c.len()));
        so_far.extend(c.iter().cloned());
        let now: ParameterList<K, V> = ParameterList::from_sorted(l.as_ref().to_vec())
            .ok_or_else(|| format!("after extend: not in order: {:?}", l.as_ref()))?;
        judge(now, &so_far, false, "after extend")?;
    }
    judge(l, &all, false, "default and extend")?;
    // First part collected, the rest by extending.
    if let Some((first, rest)) = chunks.split_first() {
        let mut l: ParameterList<K, V> = first.iter().cloned().collect();
        rest.iter().for_each(|c| l.extend(c.iter().cloned()));
        judge(l, &all, false, "collect and extend")?;
        // As one step, from iterators that tell the least.
        let mut l: ParameterList<K, V> = Hinted(first.iter().cloned(), 1).collect();
        l.extend(Hinted(rest.iter().flatten().cloned(), 1));
        judge(l, &all, false, "collect and extend without a hint")?;
    }
    st.label_if(chunks.len() > 1, "several steps");
    Ok(())
}

/// Every container and pair type.
fn containers<K, V>(all: &[(K, V)]) -> Result<(), String>
where
    K: AsRef<str> + Clone + Debug + PartialEq,
    V: Display + Clone + Debug + PartialEq,
{
    let refs = || all.iter().collect::<Vec<&(K, V)>>();
    judge(ParameterList::<K, V, _, _>::new(refs()), all, false, "new(Vec<&_>)")?;
    let boxes: Vec<Box<(K, V)>> = all.iter().cloned().map(Box::new).collect();
    judge(ParameterList::<K, V, _, _>::new(boxes), all, false, "new(Vec<Box<_>>)")?;
    let rcs: Vec<Rc<(K, V)>> = all.iter().cloned().map(Rc::new).collect();
    judge(ParameterList::<K, V, _, _>::new(rcs), all, false, "new(Vec<Rc<_>>)")?;
    judge(
        ParameterList::<K, V, _, (K, V)>::new(all.to_vec().into_boxed_slice()),
        all,
        false,
        "new(Box<[_]>)",
    )?;
    let mut v = all.to_vec();
    judge(ParameterList::<K, V, _, (K, V)>::new(&mut v[..]), all, false, "new(&mut [_])")?;
    let mut r = refs();
    judge(ParameterList::<K, V, _, &(K, V)>::new(&mut r[..]), all, false, "new(&mut [&_])")?;
    let mut l: ParameterList<K, V, Vec<&(K, V)>, &(K, V)> = all.iter().collect();
    judge(
        ParameterList::<K, V, _, &(K, V)>::from_sorted(l.as_ref().to_vec()).ok_or("collect of references: not in order")?,
        all,
        false,
        "collect of references",
    )?;
    l.extend(all.iter());
    let twice: Vec<(K, V)> = all.iter().chain(all).cloned().collect();
    judge(l, &twice, false, "references extended by themselves")?;
    macro_rules! arrays {
        ($($n:literal)*) => {$(
            if let Ok(a) = <[(K, V); $n]>::try_from(all.to_vec()) {
                judge(ParameterList::<K, V, _, (K, V)>::new(a.clone()), all, false, "new([_; n])")?;
                let a: [&(K, V); $n] = refs().try_into().unwrap();
                judge(ParameterList::<K, V, _, &(K, V)>::new(a), all, false, "new([&_; n])")?;
            }
        )*};
    }
    arrays! { 0 1 2 3 4 5 }
    Ok(())
}

/// `from_sorted` succeeds exactly on sorted sequences and keeps them.
fn from_sorted<K, V>(seq: &[(K, V)], st: &mut Stats) -> Result<(), String>
where
    K: AsRef<str> + Clone + Debug + PartialEq,
    V: Display + Clone + Debug + PartialEq,
{
    let in_order = sorted(seq);
    let refs: Vec<&(K, V)> = seq.iter().collect();
    macro_rules! one {
        ($P:ty, $e:expr, $what:expr) => {
            match ParameterList::<K, V, _, $P>::from_sorted($e) {
                Some(l) => {
                    ensure!(in_order, "{} accepted {:?}", $what, seq);
                    judge(l, seq, true, $what)?;
                }
                None => ensure!(!in_order, "{} refused {:?}", $what, seq),
            }
        };
    }
    one!((K, V), seq.to_vec(), "from_sorted(Vec)");
    one!((K, V), seq, "from_sorted(&[_])");
    one!(&(K, V), &refs[..], "from_sorted(&[&_])");
    one!(&(K, V), refs.clone().into_boxed_slice(), "from_sorted(Box<[&_]>)");
    st.label(if in_order { "sorted" } else { "unsorted" });
    Ok(())
}

fn all_checks<K, V>(c: &Case, st: &mut Stats, f: impl Fn(&Param) -> (K, V)) -> Result<(), String>
where
    K: AsRef<str> + Clone + Debug + PartialEq,
    V: Display + Clone + Debug + PartialEq,
{
    let chunks: Vec<Vec<(K, V)>> = c.chunks.iter().map(|c| c.iter().map(&f).collect()).collect();
    let all: Vec<(K, V)> = chunks.iter().flatten().cloned().collect();
    grow(&chunks, st)?;
    containers(&all)?;
    let mut seq = all.clone();
    if c.presort {
        seq.sort_by_cached_key(order);
    }
    if let (Some((a, b)), n @ 1..) = (c.swap, seq.len()) {
        seq.swap(a as usize % n, b as usize % n);
    }
    from_sorted(&seq, st)?;
    if all.len() > 1 {
        st.nontrivial();
    }
    let mut ks: Vec<&str> = all.iter().map(|p| p.0.as_ref()).collect();
    ks.sort_unstable();
    st.label_if(ks.windows(2).any(|w| w[0] == w[1]), "repeated name");
    st.label_if(all.len() > 20, "more than 20 pairs");
    Ok(())
}

impl Prop for C07 {
    const ID: &'static str = "C07";
    const RULE: &'static str = "Random pairs put into lists in random steps (new, from, collect, default, extend, from iterators that tell much or little of their length) over owned, borrowed, \
        boxed and array containers and 7 value types, and random sequences (sorted, nearly sorted, unsorted) given to from_sorted; \
        lists of up to 131,073 pairs in order or with two neighbours swapped; \
        judged after every step against the order by name and encoded value; non-trivial = at least two pairs.";
    type Case = Case;
    const CASES: u32 = 60_000;

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let chunk = || prop_oneof![
            6 => params_of(0..4, val_of(short_text())),
            2 => params_of(0..5, val_of(text())),
            1 => params_of(5..30, val_of(short_text())),
        ];
        (
            params_of(0..5, val_of(short_text())),
            proptest::collection::vec(chunk(), 0..3),
            0u8..8,
            any::<bool>(),
            proptest::option::of(any::<(u8, u8)>()),
            any::<u16>(),
        )
            .prop_map(|(first, rest, types, presort, swap, share)| {
                let mut chunks = vec![first];
                chunks.extend(rest);
                // Names repeat across the steps as well as within one.
                if let Some(p) = chunks[0].first().cloned() {
                    for (i, q) in chunks[1..].iter_mut().flatten().enumerate() {
                        if share >> (i % 16) & 1 == 1 {
                            q.k = p.k.clone();
                        }
                    }
                }
                Case { chunks, types, presort, swap, long: None }
            })
            .boxed()
    }

    fn fixed(_: Tier) -> Vec<Case> {
        let vals = [
            "", "-", "~", ".", "_", "%", "%2", "%25", ":", "0", "9", "A", "Z", "a", "z", " ", "+", "!", "é", "ÿ", "日",
            "🦀", "\0", "\u{7f}", "a-", "a:", "aé", "a~", "aa", "1", "-1", "10", "/", "[",
        ];
        let mut v = Vec::new();
        for a in vals {
            for b in vals {
                for types in [0, 4] {
                    v.push(Case {
                        chunks: vec![vec![Param::new("p", a)], vec![Param::new("p", b)]],
                        types,
                        presort: false,
                        swap: None,
                    long: None,
                    });
                }
            }
        }
        let names = ["", "a", "aa", "a-", "a.", "a_", "a~", "A", "0", "-", "~", "oauth_nonce", "b"];
        for a in names {
            for b in names {
                v.push(Case {
                    chunks: vec![vec![Param::new(a, "z"), Param::new(b, "a")]],
                    types: 0,
                    presort: false,
                    swap: None,
                    long: None,
                });
            }
        }
        // Lists past the sizes at which sorting algorithms change.
        for n in [20, 21, 49, 50, 51, 64, 100, 400] {
            for mul in [1, 7919, n - 1] {
                v.push(Case {
                    chunks: vec![(0..n)
                        .map(|i| Param::new(["p", "q"][i * mul % n % 2], &format!("{}", (i * mul) % n / 3)))
                        .collect()],
                    types: 0,
                    presort: false,
                    swap: None,
                    long: None,
                });
            }
        }
        for n in [255usize, 256, 257, 1025] {
            // One step out of order at the very end, or nowhere.
            for swap in [None, Some(n - 1)] {
                let mut p: Vec<Param> = (0..n).map(|i| Param::new("p", &format!("{:06}", i))).collect();
                if let Some(i) = swap {
                    p.swap(i, i - 1);
                }
                v.push(Case { chunks: vec![p], types: 0, presort: false, swap: None, long: None });
            }
        }
        for n in [255usize, 256, 1024] {
            let (a, b) = ("x".repeat(n), "x".repeat(n - 1));
            v.push(Case {
                chunks: vec![vec![Param::new("p", &(a.clone() + "b")), Param::new("p", &(a + "a"))], vec![Param::new(&b, "1"), Param::new("x", "2")]],
                types: 0,
                presort: false,
                swap: None,
                    long: None,
            });
        }
        for n in [65_535usize, 65_536, 65_537, 70_000, 131_073] {
            for swap in [None, Some(n - 1), Some(1), Some(n / 2), Some(n - 2)] {
                v.push(Case { chunks: vec![], types: 0, presort: false, swap: None, long: Some((n, swap)) });
            }
        }
        v
    }

    fn check(c: &Case, st: &mut Stats) -> Result<(), String> {
        if let Some((n, swap)) = c.long {
            return long(n, swap, st);
        }
        let num = |p: &Param| p.v.s.bytes().fold(0i64, |a, b| a.wrapping_mul(31).wrapping_add(i64::from(b)));
        match c.types {
            0 | 1 => all_checks(c, st, |p| (p.k.clone(), p.v.clone())),
            2 => all_checks(c, st, |p| (std::borrow::Cow::Owned::<str>(p.k.clone()), p.v.s.clone())),
            3 => all_checks(c, st, |p| (p.k.clone().into_boxed_str(), num(p) % 1000 - 500)),
            4 => all_checks(c, st, |p| (Rc::<str>::from(&*p.k), Rc::<str>::from(&*p.v.s))),
            5 => all_checks(c, st, |p| (p.k.clone(), p.v.s.chars().next().unwrap_or('-'))),
            6 => all_checks(c, st, |p| (p.k.clone(), num(p) % 40 == 0)),
            _ => all_checks(c, st, |p| (p.k.clone(), num(p) as f64 / 1e6)),
        }
    }
}

fn main() {
    // Comparing values takes time quadratic in the number of pieces they write.
    vh::gen::no_huge();
    run::<C07>()
}
