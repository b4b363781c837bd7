use std::fmt::Write as _;

use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::engine::{main as run, Prop, Stats, Tier};
use vh::ensure;
use vh::programs::*;

struct C10;

/// A field as it is written.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct F {
    attrs: Vec<String>,
    ident: String,
    ty: String,
    /// Must be reported at this field.
    bad: bool,
    /// Has the same parameter name as the other fields of this group; one of them must be reported.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    group: Option<u8>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Item {
    Valid(StructSpec),
    /// A struct with container attributes (faulty if the flag says so) and fields.
    Fields {
        attrs: Vec<String>,
        bad: bool,
        generics: u8,
        fields: Vec<F>,
    },
    /// Not a struct with named fields; `NAME` stands for its name.
    Shape(String),
    /// A struct whose attributes are random tokens, valid or not.
    Soup { container: String, field: String },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    edition: u8,
    items: Vec<Item>,
}

// ---------------------------------------------------------------------------------------------
// Faults

fn one_of(v: &'static [&'static str]) -> BoxedStrategy<String> {
    (0..v.len()).prop_map(move |i| v[i].to_string()).boxed()
}

fn unknown_name() -> BoxedStrategy<String> {
    prop_oneof![
        3 => one_of(&["unknown", "Skip", "SKIP", "skipif", "skip_", "_skip", "renamed", "formatter", "format", "default", "optional",
            "encode", "flatten", "r#crate_", "with", "serialize_with", "name", "x", "oauth1", "skip_if_", "renam", "ski"]),
        1 => one_of(&["unknown::path", "skip::skip", "std::skip", "rename::a::b", "self::skip", "::skip", "::std::fmt", "super::fmt"]),
        1 => "[f-m][a-z_]{3,9}",
    ]
    .prop_filter("a known name", |s| {
        !["skip", "rename", "encoded", "fmt", "option", "skip_if", "crate", "if", "in", "fn", "impl", "let", "loop", "match", "mod", "move", "for"].contains(&&**s)
            && !["impl", "loop", "macro", "match", "gen", "move", "final", "false"].contains(&&**s)
    })
    .boxed()
}

const EXPRS: &[&str] = &["\"x\"", "0", "true", "path", "std::fmt::Debug::fmt", "'c'", "1.5", "(1, 2)", "[1]", "{ 1 }", "|x| x", "f(x)", "a.b", "-1", "!true", "a + b", "m!()", "b\"x\"", "&x", "..", "if a { b } else { c }", "<u8 as T>::X"];

fn wrong(names: &'static [&'static str], exprs: &'static [&'static str]) -> BoxedStrategy<String> {
    (one_of(names), one_of(exprs))
        .prop_map(|(n, e)| format!("{} = {}", n, e))
        .boxed()
}

/// A text that holds at least one character that is not URI-safe.
fn unsafe_text() -> BoxedStrategy<String> {
    (
        "[a-zA-Z0-9._~-]{0,5}",
        prop_oneof![
            3 => one_of(&[" ", "?", "&", "=", "%", "+", "/", ":", "#", "\\\"", "\\\\", "\\n", "\\t", "\\0", "%20", "!", "*", "'", "(", ")", ",", ";",
                "@", "[", "]", "{", "}", "|", "^", "`", "<", ">", "$", "\\x7f", "\\u{80}"]),
            1 => one_of(&["é", "ß", "あ", "🦀", "\\u{ff21}", "\u{b7}", "\u{2010}", "ａ", "\\u{200b}", "０"]),
        ],
        "[a-zA-Z0-9._~-]{0,5}",
    )
        .prop_map(|(a, b, c)| format!("{}{}{}", a, b, c))
        .boxed()
}

/// The inside of one or two `#[oauth1(…)]` on a field that the macro must refuse. `|` separates the
/// attributes.
fn field_fault() -> BoxedStrategy<String> {
    prop_oneof![
        unknown_name(),
        (unknown_name(), one_of(EXPRS)).prop_map(|(n, e)| format!("{} = {}", n, e)),
        (unknown_name(), one_of(&["", "x", "\"x\"", "a = b", "1, 2", "(", "#"])).prop_map(|(n, t)| {
            format!("{}({})", n, if t == "(" { "()".to_string() } else { t })
        }),
        // Twice the same, together or apart, in any company.
        (
            one_of(&["skip", "encoded", "rename = \"dup_a\"", "option = false", "fmt = ok_fmt", "skip_if = ok_if"]),
            one_of(&[", ", "|", ", rename = \"dup_c\", ", "|rename = \"dup_d\"|", ", skip_if = ok_if, "]),
            any::<bool>(),
        )
            .prop_map(|(m, sep, differ)| {
                let second = if differ { m.replace("dup_a", "dup_b").replace("false", "true").replace("= ok_", "= self::ok_") } else { m.clone() };
                format!("{}{}{}", m, sep, second)
            }),
        wrong(&["skip", "encoded"], EXPRS),
        (one_of(&["skip", "encoded", "rename", "option", "fmt", "skip_if"]), one_of(&["", "x", "\"x\"", "a = b"])).prop_map(|(n, t)| format!("{}({})", n, t)),
        one_of(&["rename", "option", "fmt", "skip_if"]),
        wrong(&["rename"], &["0", "'c'", "b\"x\"", "true", "foo", "1.5", "concat!(\"a\")", "-1", "f(\"x\")", "\"a\".x", "[\"a\"]", "c\"x\""]),
        wrong(&["option"], &["\"true\"", "1", "yes", "True", "TRUE", "!true", "f()", "b'1'", "true && true", "None"]),
        wrong(&["fmt", "skip_if"], &["\"ok_fmt\"", "|_, _| Ok(())", "|_| true", "1", "ok_fmt()", "-x", "&ok_fmt", "a.b", "m!()", "move || x", "true"]),
        unsafe_text().prop_map(|t| format!("rename = \"{}\"", t)),
        one_of(&["\"\"", "skip skip", "rename = ", ", skip", "skip,, encoded", "skip, ,", "rename \"x\"", "= 1", "skip; encoded", "rename: \"x\"",
            "1", "rename = \"a\" \"b\"", "skip = ", "rename == \"x\"", "rename =", "skip => x", "rename = \"x\" skip", "-skip", "skip!", "&skip",
            "(skip)", "[skip]", "{skip}", "skip.rename", "skip?", "*", "..", "'a", "rename = \"x\" = \"y\"", "skip::", "::", "rename = let", "#[skip]", "$"]),
    ]
    .boxed()
}

fn valid_attr() -> BoxedStrategy<String> {
    prop_oneof![
        Just(String::new()),
        Just("encoded".to_string()),
        Just("skip_if = ok_if".to_string()),
        Just("fmt = ok_fmt".to_string()),
        Just("option = false, fmt = ok_fmt".to_string()),
    ]
    .boxed()
}

fn attr_lines(s: &str) -> Vec<String> {
    s.split('|')
        // A `|` inside of an expression is put back.
        .fold(Vec::<String>::new(), |mut v, p| {
            match v.last_mut() {
                Some(l) if l.matches('(').count() != l.matches(')').count() || l.ends_with("= ") || l.ends_with('"') && l.matches('"').count() % 2 == 1 || p.is_empty() => {
                    l.push('|');
                    l.push_str(p);
                }
                _ => v.push(p.to_string()),
            }
            v
        })
        .into_iter()
        .map(|s| format!("#[oauth1({})]", s))
        .collect()
}

fn faulty_attrs(s: String) -> Vec<String> {
    if s.contains("= |") || s.contains("move ||") || (s.contains('|') && s.contains("rename = \"") && !s.contains("\"|")) && !s.contains("|rename") {
        // Closures, and texts with a bar.
        return vec![format!("#[oauth1({})]", s)];
    }
    attr_lines(&s)
}

#[derive(Clone, Debug)]
enum Slot {
    Good(String, bool),
    /// A fault, and attributes before or after it.
    Bad(String, String, bool),
    /// Attributes that are not lists.
    NoList(u8),
    NonAscii(u8, String),
    Dup(u8, u8, String, bool),
}

fn slot() -> BoxedStrategy<Slot> {
    prop_oneof![
        3 => (valid_attr(), any::<bool>()).prop_map(|(a, o)| Slot::Good(a, o)),
        // A fault stays one in any company.
        6 => (field_fault(), prop_oneof![3 => valid_attr(), 2 => one_of(&["skip", "option = true", "rename = \"other\"", "skip, encoded", "fmt = ok_fmt, skip_if = ok_if"])], any::<bool>())
            .prop_map(|(f, a, before)| Slot::Bad(f, a, before)),
        1 => (0u8..4).prop_map(Slot::NoList),
        1 => (0u8..5, valid_attr()).prop_map(|(i, a)| Slot::NonAscii(i, a)),
        2 => (prop_oneof![2 => 0u8..4, 2 => 4u8..16, 1 => Just(16)], 0u8..8, valid_attr(), any::<bool>()).prop_map(|(g, i, a, o)| Slot::Dup(g, i, a, o)),
    ]
    .boxed()
}

/// The names that fields share; only the first four can be identifiers.
const SHARED: [&str; 16] = [
    "type", "same", "oauth_x", "z", "a-b", "-", "v1.1", "~", "0", "A-Z_a.z~9", "Same", "dup-dup", "media.fields", "__", "oauth_-", "...",
];

/// Fields; the groups of equal names are drawn for all of them, so that most have a second member.
fn slots(min: usize) -> BoxedStrategy<Vec<Slot>> {
    (vec(slot(), min..6), prop_oneof![2 => Just(None), 1 => (0u8..17).prop_map(Some)])
        .prop_map(|(mut v, one)| {
            if let Some(one) = one {
                for s in &mut v {
                    if let Slot::Dup(g, ..) = s {
                        *g = one;
                    }
                }
            }
            v
        })
        .boxed()
}

fn fields_of(slots: Vec<Slot>, random: &str) -> Vec<F> {
    let mut out: Vec<F> = Vec::new();
    let mut seen = std::collections::BTreeSet::new();
    for (i, s) in slots.into_iter().enumerate() {
        let mut f = F {
            attrs: vec![],
            ident: format!("field{}", i),
            ty: "u8".into(),
            bad: false,
            group: None,
        };
        match s {
            Slot::Good(a, o) => {
                if !a.is_empty() {
                    f.attrs = vec![format!("#[oauth1({})]", a)];
                }
                if o {
                    f.ty = "Option<u8>".into();
                    f.attrs.retain(|a| !a.contains("option"));
                }
            }
            Slot::Bad(a, company, before) => {
                f.attrs = faulty_attrs(a);
                if !company.is_empty() {
                    let at = if before { 0 } else { f.attrs.len() };
                    f.attrs.insert(at, format!("#[oauth1({})]", company));
                }
                f.bad = true;
            }
            Slot::NoList(n) => {
                let a = ["#[oauth1]", "#[oauth1 = \"\"]", "#[oauth1 = 1]", "#[oauth1(\"\")]"][n as usize % 4];
                f.attrs = vec![a.into()];
                f.bad = true;
            }
            Slot::NonAscii(n, a) => {
                f.ident = format!("{}{}", ["é", "名前", "aß", "x_ü", "Ω"][n as usize % 5], i);
                if !a.is_empty() {
                    f.attrs = vec![format!("#[oauth1({})]", a)];
                }
                f.bad = true;
            }
            Slot::Dup(g, n, company, o) => {
                // Several ways of having one parameter name.
                let name = match g as usize {
                    16 if !SHARED.contains(&random) && !random.is_empty() => random,
                    g => SHARED[g % 16],
                };
                let ident = if name == "type" { "r#type" } else { name };
                if n < 3 && g < 4 && seen.insert(g) {
                    f.ident = ident.into();
                } else {
                    f.attrs = vec![match n % 3 {
                        0 => format!("#[oauth1(rename = \"{}\")]", name),
                        1 => format!("#[oauth1(rename = r#\"{}\"#, encoded)]", name),
                        _ => format!("#[oauth1(rename = \"\\x{:02x}{}\")]", name.as_bytes()[0], &name[1..]),
                    }];
                }
                if o {
                    f.ty = "Option<u8>".into();
                }
                if !company.is_empty() && !(company == "encoded" && f.attrs.iter().any(|a| a.contains("encoded"))) && !(o && company.contains("option")) {
                    f.attrs.push(format!("#[oauth1({})]", company));
                }
                f.group = Some(if g < 16 || !SHARED.contains(&random) && !random.is_empty() { g } else { g % 16 });
            }
        }
        out.push(f);
    }
    // A group of one is no duplicate.
    for g in 0..=16 {
        if out.iter().filter(|f| f.group == Some(g)).count() == 1 {
            out.iter_mut().filter(|f| f.group == Some(g)).for_each(|f| f.group = None);
        }
    }
    out
}

fn container_fault() -> BoxedStrategy<String> {
    prop_oneof![
        unknown_name(),
        one_of(&["skip", "encoded", "rename = \"x\"", "rename_all = \"camelCase\"", "option = true", "fmt = ok_fmt", "skip_if = ok_if"]),
        (unknown_name(), one_of(EXPRS)).prop_map(|(n, e)| format!("{} = {}", n, e)),
        one_of(&["crate", "crate()", "crate(oauth)", "crate = 1", "crate = \"oauth\"", "crate = f()", "crate = |x| x", "crate = ", "crate oauth", "crate::x = oauth",
            "crate = oauth, crate = oauth", "crate = oauth|crate = oauth", "crate = oauth|crate = ::oauth", "crate = oauth crate", "\"oauth\"", "crate = -oauth", "crate = oauth, , "]),
    ]
    .boxed()
}

const SHAPES: &[&str] = &[
    "enum NAME {}",
    "enum NAME { A, B }",
    "enum NAME { A { x: u8 } }",
    "enum NAME { A(u8), #[oauth1(skip)] B }",
    "struct NAME(u8);",
    "struct NAME(#[oauth1(rename = \"x\")] u8, String);",
    "struct NAME();",
    "struct NAME;",
    "union NAME { x: u8, y: i8 }",
    "struct NAME<T>(T) where T: Clone;",
    "#[oauth1(unknown)]\nenum NAME { A }",
    "#[oauth1(crate = oauth)]\nstruct NAME;",
    "#[repr(u8)]\n#[oauth1]\nenum NAME {\n A = 1,\n}",
];

fn soup_tokens() -> BoxedStrategy<String> {
    let atom = one_of(&[
        "skip", "encoded", "rename", "option", "fmt", "skip_if", "crate", "=", "=", "=", ",", ",", ",", "\"a\"", "\"?\"", "r\"b\"", "true", "false", "1", "ok_fmt", "ok_if",
        "::", "self", "super", "<", ">", "&", "|", "!", "?", ";", ":", "->", "=>", "..", "#", "$", "'a", "'c'", "b\"x\"", "\"x\"suffix", "1u8", "1e3", "r#type", "é", "_",
        "if", "else", "match", "let", "fn", "struct", "unsafe", "async", "move", "return", "break", "dyn", "impl", "where", "as", "ref", "mut", "box", "()", "[]", "{}", "(a)",
        "{ x }", "[1, 2]", "std::fmt::Debug::fmt", "<str>::is_empty", "<u8 as X>", "m!()", "m![]", "+", "-", "*", "/", "%", "==", "+=", "<<", ">>", "&&", "||", "@", "~", "\\",
    ]);
    let flat = vec(atom, 0..9)
        .prop_map(|v| v.join(" ").replace('\\', ""))
        .boxed();
    prop_oneof![
        3 => flat.clone(),
        1 => (flat.clone(), flat.clone()).prop_map(|(a, b)| format!("{} ({}) ", a, b)),
        1 => (flat.clone(), flat.clone(), flat.clone()).prop_map(|(a, b, c)| format!("{} [{}] {}", a, b, c)),
        1 => (flat.clone(), flat).prop_map(|(a, b)| format!("rename = {{ {} }}, {}", a, b)),
    ]
    .boxed()
}

fn item() -> BoxedStrategy<Item> {
    prop_oneof![
        2 => struct_spec().prop_map(Item::Valid),
        8 => (slots(1), 0u8..4, "[a-zA-Z0-9._~-]{1,6}").prop_map(|(s, generics, random)| Item::Fields {
            attrs: vec![],
            bad: false,
            generics,
            fields: fields_of(s, &random),
        }),
        2 => (container_fault(), vec(slot(), 0..3), 0u8..4, "[a-zA-Z0-9._~-]{1,6}").prop_map(|(c, s, generics, random)| Item::Fields {
            attrs: faulty_attrs(c),
            bad: true,
            generics,
            fields: fields_of(s, &random),
        }),
        1 => one_of(&["#[oauth1]", "#[oauth1 = \"\"]"]).prop_map(|a| Item::Fields {
            attrs: vec![a],
            bad: true,
            generics: 0,
            fields: vec![],
        }),
        1 => one_of(SHAPES).prop_map(Item::Shape),
        4 => (prop_oneof![3 => Just(String::new()), 1 => soup_tokens()], soup_tokens())
            .prop_map(|(container, field)| Item::Soup { container, field }),
    ]
    .boxed()
}

// ---------------------------------------------------------------------------------------------
// Later errors: names and types

/// Fields that the compiler must refuse in the code the macro makes: with names, with types.
const RESOLVE: &[(&str, &str)] = &[
    ("#[oauth1(fmt = missing)]", "u8"),
    ("#[oauth1(fmt = std::fmt::missing)]", "()"),
    ("#[oauth1(skip_if = missing)]", "u8"),
    ("#[oauth1(skip_if = no::such::path, fmt = ok_fmt)]", "Option<u8>"),
    ("#[oauth1(fmt = missing, skip_if = ok_if, rename = \"renamed\")]", "u8"),
    ("#[oauth1(skip_if = Self::missing_method)]", "u8"),
];
const TYPECK: &[(&str, &str)] = &[
    ("", "()"),
    ("", "Vec<u8>"),
    ("", "Option<()>"),
    ("#[oauth1(encoded)]", "NotDisplay"),
    ("#[oauth1(option = false)]", "Option<u8>"),
    ("#[oauth1(rename = \"re-named\")]", "NotDisplay"),
    ("#[oauth1(skip_if = ok_if)]", "&'static NotDisplay"),
    ("#[oauth1(fmt = fmt_missing_arg)]", "u8"),
    ("#[oauth1(fmt = fmt_arg_not_ref)]", "u8"),
    ("#[oauth1(fmt = fmt_arg_mismatch)]", "()"),
    ("#[oauth1(fmt = fmt_ret_mismatch)]", "u8"),
    ("#[oauth1(fmt = NOT_FN)]", "u8"),
    ("#[oauth1(fmt = NOT_FN)]", "Option<u8>"),
    ("#[oauth1(option = true)]", "u8"),
    ("#[oauth1(option = true)]", "Vec<u8>"),
    ("#[oauth1(skip_if = fmt_missing_arg)]", "u8"),
    ("#[oauth1(skip_if = if_too_many)]", "u8"),
    ("#[oauth1(skip_if = if_not_ref)]", "u8"),
    ("#[oauth1(skip_if = if_arg_mismatch)]", "u8"),
    ("#[oauth1(skip_if = if_ret_mismatch)]", "u8"),
    ("#[oauth1(skip_if = NOT_FN, encoded)]", "u8"),
];

fn later_item(table: &'static [(&'static str, &'static str)]) -> BoxedStrategy<Item> {
    let f = prop_oneof![
        2 => (0..table.len()).prop_map(Some),
        1 => Just(None),
    ];
    let faulty = (vec(f, 1..5), 0u8..4).prop_map(move |(v, generics)| Item::Fields {
        attrs: vec![],
        bad: false,
        generics,
        fields: v
            .into_iter()
            .enumerate()
            .map(|(i, f)| F {
                attrs: f.map_or(vec![], |i| vec![table[i].0.to_string()]),
                ident: format!("field{}", i),
                ty: f.map_or("u8", |i| table[i].1).to_string(),
                bad: f.is_some(),
                group: None,
            })
            .map(|mut f| {
                for a in &mut f.attrs {
                    *a = a.replace("named", &format!("named{}", f.ident));
                }
                f.attrs.retain(|a| !a.is_empty());
                f
            })
            .collect(),
    });
    prop_oneof![1 => struct_spec().prop_map(Item::Valid), 3 => faulty].boxed()
}

// ---------------------------------------------------------------------------------------------
// Programs

const TAIL: &str = r#"
pub mod fns {
    use std::fmt::{Formatter, Result};
    pub const NOT_FN: () = ();
    pub struct NotDisplay;
    pub fn ok_fmt<T>(_: &T, _: &mut Formatter<'_>) -> Result { Ok(()) }
    pub fn ok_if<T>(_: &T) -> bool { false }
    pub fn fmt_missing_arg(_: &u8) -> Result { Ok(()) }
    pub fn fmt_arg_not_ref(_: u8, _: &mut Formatter<'_>) -> Result { Ok(()) }
    pub fn fmt_arg_mismatch(_: &u8, _: &mut Formatter<'_>) -> Result { Ok(()) }
    pub fn fmt_ret_mismatch(_: &u8, _: &mut Formatter<'_>) -> std::result::Result<(), ()> { Ok(()) }
    pub fn if_too_many(_: &u8, _: ()) -> bool { false }
    pub fn if_not_ref(_: u8) -> bool { false }
    pub fn if_arg_mismatch(_: &()) -> bool { false }
    pub fn if_ret_mismatch(_: &u8) -> Option<()> { None }
}
"#;

struct Region {
    lines: (usize, usize),
    what: String,
}

struct Layout {
    item: usize,
    lines: (usize, usize),
    /// Whether an error must, may, or must not be reported here.
    must: bool,
    may: bool,
    /// If not empty: what must be reported, and where errors may be (unless anywhere).
    regions: Vec<(Region, Option<u8>)>,
    anywhere: bool,
}

fn emit(case: &Case) -> (String, Vec<Layout>) {
    let mut s = String::from("#![allow(warnings)]\n");
    s.push_str(SUPPORT);
    s.push_str(TAIL);
    let mut layouts = Vec::new();
    let line = |s: &str| s.matches('\n').count() + 1;
    let mut uses = String::from("fn is_request<R: oauth::Request>() {}\nfn main() {\n");
    for (i, item) in case.items.iter().enumerate() {
        let start = line(&s);
        let mut l = Layout {
            item: i,
            lines: (0, 0),
            must: false,
            may: false,
            regions: vec![],
            anywhere: false,
        };
        match item {
            Item::Valid(spec) => {
                spec.resolve().emit(i, &mut s);
                writeln!(uses, "m{}::run();", i).unwrap();
            }
            Item::Fields {
                attrs,
                bad,
                generics,
                fields,
            } => {
                writeln!(s, "mod m{} {{\nuse crate::{{support, fns::*}};", i).unwrap();
                let head = line(&s);
                let (g, args) = [("", ""), ("<'a>", "<'static>"), ("<T>", "<u8>"), ("<'a, T: Clone, const N: usize>", "<'static, u8, 1>")][*generics as usize % 4];
                s.push_str("#[derive(::oauth::Request)]\n");
                let a = line(&s);
                for x in attrs {
                    writeln!(s, "{}", x).unwrap();
                }
                if *bad {
                    let r = Region {
                        lines: (a, line(&s) - 1),
                        what: "container attributes".into(),
                    };
                    l.regions.push((r, None));
                }
                writeln!(s, "pub struct Item{}{} {{", i, g).unwrap();
                if g.contains("'a") {
                    s.push_str("  #[oauth1(skip)] _a: std::marker::PhantomData<&'a ()>,\n");
                }
                if g.contains('T') {
                    s.push_str("  _t: T,\n");
                }
                for f in fields {
                    let a = line(&s);
                    for x in &f.attrs {
                        writeln!(s, "  {}", x).unwrap();
                    }
                    writeln!(s, "  {}: {},", f.ident, f.ty).unwrap();
                    if f.bad || f.group.is_some() {
                        let r = Region {
                            lines: (a, line(&s) - 1),
                            what: format!("field `{}`", f.ident),
                        };
                        l.regions.push((r, if f.bad { None } else { f.group }));
                    }
                }
                s.push_str("}\n}\n");
                l.lines = (head, line(&s) - 2);
                l.must = !l.regions.is_empty();
                l.may = l.must;
                writeln!(uses, "is_request::<m{}::Item{}{}>();", i, i, args).unwrap();
            }
            Item::Shape(t) => {
                writeln!(s, "#[derive(oauth::Request)]\n{}", t.replace("NAME", &format!("Item{}", i))).unwrap();
                l.must = true;
                l.may = true;
                l.anywhere = true;
            }
            Item::Soup { container, field } => {
                writeln!(s, "mod m{} {{\nuse crate::{{support, fns::*}};\n#[derive(::oauth::Request)]", i).unwrap();
                if !container.is_empty() {
                    writeln!(s, "#[oauth1({})]", container).unwrap();
                }
                writeln!(s, "pub struct Item{} {{\n  #[oauth1({})]\n  field: u8,\n  other: u8,\n}}\n}}", i, field).unwrap();
                l.may = true;
                l.anywhere = true;
                // Whatever the tokens say, there is an implementation, if only of an error.
                if container.is_empty() {
                    writeln!(uses, "is_request::<m{}::Item{}>();", i, i).unwrap();
                }
            }
        }
        if l.lines == (0, 0) {
            l.lines = (start, line(&s) - 1);
        }
        layouts.push(l);
    }
    s.push_str(&uses);
    s.push_str("}\n");
    (s, layouts)
}

fn within(x: (usize, usize), r: (usize, usize)) -> bool {
    r.0 <= x.0 && x.1 <= r.1
}


fn judge(case: &Case) -> Result<usize, String> {
    let (src, layouts) = emit(case);
    let name = format!("e{:?}", std::thread::current().id()).replace(['(', ')'], "");
    let edition = EDITIONS[case.edition as usize % 3];
    let c = compile(&name, &src, edition, false);
    let numbered = |r: (usize, usize)| {
        src.lines()
            .enumerate()
            .skip(r.0 - 1)
            .take(r.1 + 1 - r.0)
            .map(|(i, l)| format!("{:5} {}\n", i + 1, l))
            .collect::<String>()
    };
    let file = format!("{}.rs", name);
    let mut hits: Vec<Vec<(usize, usize)>> = layouts.iter().map(|_| vec![]).collect();
    ensure!(!c.noise.contains("panicked"), "the compiler or a macro panicked: {}", c.noise);
    let mut errors = 0;
    for d in &c.diagnostics {
        ensure!(
            !d.rendered.contains("panicked") && !d.message.contains("internal compiler error") && !d.rendered.contains("must call `Ctxt"),
            "the compiler or a macro panicked:\n{}",
            d.rendered
        );
        if d.level != "error" || d.message.starts_with("aborting due to") {
            continue;
        }
        errors += 1;
        let here: Vec<(usize, usize)> = d
            .spans
            .iter()
            .filter(|s| s.0.ends_with(&file))
            .map(|s| (s.1, s.2))
            .collect();
        ensure!(!here.is_empty(), "an error is reported nowhere in the program:\n{}", d.rendered);
        for &x in &here {
            let l = match layouts.iter().find(|l| within(x, l.lines)) {
                Some(l) => l,
                None => return Err(format!("an error is reported outside of all items (edition {}):\n{}", edition, d.rendered)),
            };
            ensure!(
                l.may,
                "an error is reported in a valid item (edition {}):\n{}\n{}",
                edition,
                d.rendered,
                numbered(l.lines)
            );
            hits[l.item].push(x);
        }
        // The place itself, not the derive attribute it expanded from.
        let l = layouts.iter().find(|l| within(here[0], l.lines)).unwrap();
        let derive_line = src.lines().nth(here[0].0 - 1).unwrap_or("").contains("#[derive(");
        if !l.anywhere && !derive_line {
            ensure!(
                l.regions.iter().any(|(r, _)| within(here[0], r.lines)),
                "an error is reported in a valid part of an item (edition {}):\n{}\n{}",
                edition,
                d.rendered,
                numbered(l.lines)
            );
        }
    }
    for l in &layouts {
        let hits = &hits[l.item];
        ensure!(
            !l.must || !hits.is_empty(),
            "no error is reported for this invalid item (edition {}):\n{}",
            edition,
            numbered(l.lines)
        );
        for (r, group) in &l.regions {
            let hit = match group {
                None => hits.iter().any(|&x| within(x, r.lines)),
                Some(g) => l
                    .regions
                    .iter()
                    .filter(|(_, h)| h == &Some(*g))
                    .any(|(r, _)| hits.iter().any(|&x| within(x, r.lines))),
            };
            ensure!(
                hit,
                "no error is reported at the {} (edition {}):\n{}",
                r.what,
                edition,
                numbered(l.lines)
            );
        }
    }
    ensure!(
        c.ok == (errors == 0),
        "the compiler said {} with {} errors",
        if c.ok { "yes" } else { "no" },
        errors
    );
    Ok(errors)
}

impl Prop for C10 {
    const ID: &'static str = "C10";
    const RULE: &'static str = "Programs of random derived items, some valid (generated as for C09), some with random faults in container or \
        field attributes, names, shapes or types, some with random tokens as attributes; the compiler's diagnostics are mapped to \
        the items' lines: every faulty field or container is reported at its own place, nothing else is, nothing panics; \
        non-trivial = at least one item must be refused.";
    type Case = Case;
    const CASES: u32 = 480;
    const THOROUGH: u32 = 40;

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        prop_oneof![
            6 => (0u8..3, vec(item(), 1..14)),
            1 => (0u8..3, vec(later_item(RESOLVE), 1..8)),
            1 => (0u8..3, vec(later_item(TYPECK), 1..8)),
        ]
        .prop_map(|(edition, items)| Case { edition, items })
        .boxed()
    }

    fn check(case: &Case, st: &mut Stats) -> Result<(), String> {
        let errors = judge(case)?;
        let faulty = case.items.iter().any(|i| match i {
            Item::Fields { bad, fields, .. } => *bad || fields.iter().any(|f| f.bad || f.group.is_some()),
            Item::Shape(_) => true,
            _ => false,
        });
        if faulty {
            st.nontrivial();
        }
        st.label_if(errors == 0, "compiles");
        for i in &case.items {
            st.label(match i {
                Item::Valid(_) => "items: valid",
                Item::Fields { bad: true, .. } => "items: container fault",
                Item::Fields { .. } => "items: fields",
                Item::Shape(_) => "items: not a struct with named fields",
                Item::Soup { .. } => "items: random tokens",
            });
        }
        Ok(())
    }
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("run") || std::env::args().nth(1).as_deref() == Some("replay") {
        toolchain();
    }
    vh::gen::no_huge();
    run::<C10>()
}
