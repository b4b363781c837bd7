//! Generated programs that derive `oauth1_request::Request`, their model, and the compiler.

use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::OnceLock;

use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;

use crate::gen::{is_protocol_name, key, short_text, PROTOCOL};
use crate::rfc::enc;

// ---------------------------------------------------------------------------------------------
// The compiler

pub struct Toolchain {
    rlib: PathBuf,
    deps: PathBuf,
    manifest_dir: PathBuf,
    pub scratch: PathBuf,
}

/// Finds the library that cargo built for this very harness (so from the current working tree).
pub fn toolchain() -> &'static Toolchain {
    static T: OnceLock<Toolchain> = OnceLock::new();
    T.get_or_init(|| {
        let root = PathBuf::from(std::env::var_os("VH_ROOT").unwrap_or_else(|| "/verif".into()));
        let build = PathBuf::from(std::env::var_os("VH_BUILD").unwrap_or_else(|| "/tmp/vhb".into()));
        let manifest_dir = root.join("harness");
        let out = Command::new("cargo")
            .args(["build", "--offline", "--locked", "--lib", "--message-format=json", "--manifest-path"])
            .arg(manifest_dir.join("Cargo.toml"))
            .stderr(Stdio::null())
            .output()
            .expect("run cargo");
        assert!(out.status.success(), "building the library failed");
        let mut rlib = None;
        for line in String::from_utf8_lossy(&out.stdout).lines() {
            let v: Value = serde_json::from_str(line).expect("cargo message");
            if v["reason"] == "compiler-artifact" && v["target"]["name"] == "oauth1_request" {
                for f in v["filenames"].as_array().unwrap() {
                    let f = f.as_str().unwrap();
                    if f.ends_with(".rlib") {
                        rlib = Some(PathBuf::from(f));
                    }
                }
            }
        }
        let rlib = rlib.expect("no library artifact");
        let scratch = build.join(format!("programs-{}", std::process::id()));
        std::fs::create_dir_all(&scratch).expect("scratch directory");
        Toolchain {
            deps: rlib.parent().unwrap().to_path_buf(),
            rlib,
            manifest_dir,
            scratch,
        }
    })
}

pub fn cleanup() {
    let _ = std::fs::remove_dir_all(&toolchain().scratch);
}

pub struct Diagnostic {
    pub level: String,
    pub message: String,
    /// Line ranges of the primary spans, outermost expansion site last: `(file, first, last)`.
    pub spans: Vec<(String, usize, usize)>,
    pub rendered: String,
}

pub struct Compiled {
    pub ok: bool,
    pub exe: PathBuf,
    pub diagnostics: Vec<Diagnostic>,
    /// What the compiler printed that is no diagnostic.
    pub noise: String,
}

pub const EDITIONS: [&str; 3] = ["2018", "2021", "2024"];

/// Compiles `source`; `link` decides between an executable and metadata only.
pub fn compile(name: &str, source: &str, edition: &str, link: bool) -> Compiled {
    let t = toolchain();
    let src = t.scratch.join(format!("{}.rs", name));
    std::fs::write(&src, source).expect("write program");
    let exe = t.scratch.join(format!("{}.out", name));
    let mut cmd = Command::new("rustc");
    cmd.arg("--edition")
        .arg(edition)
        .args(["--crate-type", if link { "bin" } else { "lib" }])
        .args(["--crate-name", "program", "--error-format=json", "-Cdebuginfo=0", "-Copt-level=0"])
        .args(["-Awarnings", "-Ccodegen-units=4"])
        .arg(if link { "--emit=link" } else { "--emit=metadata" })
        .arg("-o")
        .arg(&exe)
        .arg("-L")
        .arg(format!("dependency={}", t.deps.display()))
        .arg("--extern")
        .arg(format!("oauth={}", t.rlib.display()))
        .arg(&src)
        .env("CARGO_MANIFEST_DIR", &t.manifest_dir)
        .env("CARGO_CRATE_NAME", "program")
        .env("CARGO", "cargo")
        .env_remove("RUST_BACKTRACE");
    let out = cmd.output().expect("run rustc");
    let mut diagnostics = Vec::new();
    let mut noise = String::new();
    for line in String::from_utf8_lossy(&out.stderr).lines() {
        let v: Value = match serde_json::from_str(line) {
            Ok(v) => v,
            Err(_) => {
                noise.push_str(line);
                noise.push('\n');
                continue;
            }
        };
        let mut spans = Vec::new();
        if let Some(a) = v["spans"].as_array() {
            for s in a.iter().filter(|s| s["is_primary"] == true) {
                let mut s = s;
                loop {
                    spans.push((
                        s["file_name"].as_str().unwrap_or("").to_string(),
                        s["line_start"].as_u64().unwrap_or(0) as usize,
                        s["line_end"].as_u64().unwrap_or(0) as usize,
                    ));
                    if s["expansion"].is_null() {
                        break;
                    }
                    s = &s["expansion"]["span"];
                }
            }
        }
        diagnostics.push(Diagnostic {
            level: v["level"].as_str().unwrap_or("").to_string(),
            message: v["message"].as_str().unwrap_or("").to_string(),
            spans,
            rendered: v["rendered"].as_str().unwrap_or("").to_string(),
        });
    }
    let _ = std::fs::remove_file(&src);
    if !out.status.success()
        && diagnostics.iter().all(|d| !d.level.starts_with("error"))
        && !noise.contains("panicked")
    {
        panic!("rustc failed without an error: {}\n{}", out.status, noise);
    }
    Compiled {
        ok: out.status.success(),
        exe,
        diagnostics,
        noise,
    }
}

/// Runs a compiled program and removes it.
pub fn execute(c: &Compiled) -> Result<String, String> {
    let out = Command::new(&c.exe).output().map_err(|e| e.to_string())?;
    let _ = std::fs::remove_file(&c.exe);
    if !out.status.success() {
        return Err(format!(
            "the program ended with {}: {}",
            out.status,
            String::from_utf8_lossy(&out.stderr)
        ));
    }
    String::from_utf8(out.stdout).map_err(|e| e.to_string())
}

// ---------------------------------------------------------------------------------------------
// Struct definitions

/// One field; every number is reduced to what is applicable to the field.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct FieldSpec {
    /// Index of an identifier, or a name of its own.
    pub ident: u8,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub rename: Option<String>,
    pub ty: u8,
    pub option: u8,
    pub fmt: u8,
    pub skip_if: u8,
    pub skip: bool,
    pub encoded: bool,
    pub layout: u16,
    pub noise: u8,
    /// The value in each instance, and whether an option is present.
    pub vals: Vec<(String, bool)>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct StructSpec {
    pub fields: Vec<FieldSpec>,
    pub name: u8,
    pub krate: u8,
    pub macro_mode: u8,
    pub place: u8,
    pub bounds: u8,
}

pub const INSTANCES: usize = 3;

pub fn field_spec() -> BoxedStrategy<FieldSpec> {
    (
        (any::<u8>(), proptest::option::weighted(0.4, key())),
        (any::<u8>(), 0u8..17, any::<u8>(), any::<u8>()),
        (
            prop_oneof![9 => Just(false), 1 => Just(true)],
            prop_oneof![4 => Just(false), 1 => Just(true)],
        ),
        (any::<u16>(), any::<u8>()),
        vec((short_text(), any::<bool>()), INSTANCES),
    )
        .prop_map(
            |((ident, rename), (ty, option, fmt, skip_if), (skip, encoded), (layout, noise), vals)| FieldSpec {
                ident,
                rename,
                ty,
                option,
                fmt,
                skip_if,
                skip,
                encoded,
                layout,
                noise,
                vals,
            },
        )
        .boxed()
}

pub fn struct_spec() -> BoxedStrategy<StructSpec> {
    (
        prop_oneof![
            8 => vec(field_spec(), 1..7),
            1 => vec(field_spec(), 7..25),
            1 => Just(vec![]),
        ],
        any::<u8>(),
        0u8..7,
        0u8..8,
        0u8..4,
        0u8..6,
    )
        .prop_map(|(fields, name, krate, macro_mode, place, bounds)| StructSpec {
            fields,
            name,
            krate,
            macro_mode,
            place,
            bounds,
        })
        .boxed()
}

const IDENTS: &[&str] = &[
    "a", "b", "c", "foo", "bar", "z", "zz", "r#type", "r#fn", "r#match", "r#loop", "r#async", "r#await",
    "r#where", "r#use", "r#in", "r#static", "r#abstract", "r#yield", "r#try", "r#foo", "r#gen", "r#dyn",
    "oauth", "oauth_", "oauth_callback_", "oauth_callbac", "oauth_callbacl", "oauth_consumer_kez",
    "oauth_consumer_key2", "oauth_nonc", "oauth_noncf", "oauth_signature_", "oauth_signature_method_a",
    "oauth_signature_metho", "oauth_timestam", "oauth_timestamp0", "oauth_to", "oauth_token_", "oauth_tokens",
    "oauth_token_secret", "oauth_verifie", "oauth_verifies", "oauth_versio", "oauth_version_", "oauth_z",
    "OAUTH_TOKEN", "Oauth_nonce", "oauti", "oautg", "helper", "serializer", "tmp", "value", "fmt", "this",
    "ser", "_a", "__", "S", "T", "Some", "None", "Option", "Ok", "SHOUT", "camelCase", "x1", "x10", "x2", "n",
    "o", "p", "name", "status", "include_entities", "skip", "encoded", "rename", "option", "skip_if", "oauth1",
    "_oauth1_request", "core", "std", "String", "u8", "display", "f", "u", "self_", "DeriveRequestAssertion",
    // Only with another parameter name, or skipped:
    "é", "名前", "ß",
];

/// Types: source, whether it is `Display`, `Debug`, dereferences to `str`, is `LowerHex`.
struct Ty {
    src: &'static str,
    display: bool,
    debug: bool,
    text: bool,
    hex: bool,
}

const fn ty(src: &'static str, flags: &[u8]) -> Ty {
    Ty {
        src,
        display: flags[0] == b'D',
        debug: flags[1] == b'?',
        text: flags[2] == b't',
        hex: flags[3] == b'x',
    }
}

const TYPES: &[Ty] = &[
    ty("String", b"D?t-"),
    ty("&'static str", b"D?t-"),
    ty("&'a str", b"D?t-"),
    ty("Box<str>", b"D?t-"),
    ty("::std::borrow::Cow<'a, str>", b"D?t-"),
    ty("u8", b"D?-x"),
    ty("i64", b"D?-x"),
    ty("u128", b"D?-x"),
    ty("bool", b"D?--"),
    ty("char", b"D?--"),
    ty("f64", b"D?--"),
    ty("T", b"D?--"),
    ty("U", b"D?--"),
    ty("&'a T", b"D?--"),
    ty("Box<T>", b"D?--"),
    ty("::std::sync::Arc<::std::string::String>", b"D?t-"),
    ty("Pad<N>", b"D---"),
    ty("()", b"-?--"),
    ty("::core::marker::PhantomData<T>", b"-?--"),
    ty("Vec<u8>", b"-?--"),
    ty("fn(T) -> T", b"----"),
    ty("(u8, &'a str)", b"-?--"),
    ty("&'a dyn ::std::fmt::Display", b"D---"),
    ty("<u8 as Assoc>::Out", b"D?-x"),
    ty("[&'a str; 2]", b"-?--"),
    ty("Piecewise", b"D---"),
];

fn num(s: &str) -> u64 {
    s.bytes()
        .fold(s.len() as u64 + 3, |a, b| a.wrapping_mul(0x100_0000_01B3) ^ u64::from(b))
}

fn lit(ty: usize, s: &str) -> String {
    let n = num(s);
    match ty {
        0 | 11 => format!("::std::string::String::from({:?})", s),
        1 | 2 => format!("{:?}", s),
        3 => format!("::std::boxed::Box::<str>::from({:?})", s),
        4 if n % 2 == 0 => format!("::std::borrow::Cow::Borrowed({:?})", s),
        4 => format!("::std::borrow::Cow::Owned(::std::string::String::from({:?}))", s),
        5 => format!("{}u8", n as u8),
        6 => format!("{}i64", (n as i64).max(-i64::MAX)),
        7 => format!("{}u128", u128::from(n) * u128::from(n)),
        8 => format!("{}", n % 2 == 0),
        9 => format!("{:?}", s.chars().next().unwrap_or('x')),
        10 => format!("{:?}f64", (n % 100_000) as f64 / 64.0),
        12 => format!("{}i32", n as i32 % 1_000_000),
        13 => format!("leak(::std::string::String::from({:?}))", s),
        14 => format!("::std::boxed::Box::new(::std::string::String::from({:?}))", s),
        15 => format!("::std::sync::Arc::new(::std::string::String::from({:?}))", s),
        16 => format!("Pad::<3>({:?})", s),
        17 => "()".into(),
        18 => "::core::marker::PhantomData::<::std::string::String>".into(),
        19 => format!("::std::vec::Vec::from({:?}.as_bytes())", s),
        20 => "(identity as fn(::std::string::String) -> ::std::string::String)".into(),
        21 => format!("({}u8, {:?})", n as u8, s),
        22 => format!("leak_dyn({:?})", s),
        23 => format!("{}u16", n as u16),
        24 => format!("[{:?}, \"\"]", s),
        _ => format!("Piecewise({:?})", s),
    }
}

fn shown(ty: usize, s: &str) -> String {
    let n = num(s);
    match ty {
        5 => (n as u8).to_string(),
        6 => (n as i64).max(-i64::MAX).to_string(),
        7 => (u128::from(n) * u128::from(n)).to_string(),
        8 => (n % 2 == 0).to_string(),
        9 => s.chars().next().unwrap_or('x').to_string(),
        10 => ((n % 100_000) as f64 / 64.0).to_string(),
        12 => (n as i32 % 1_000_000).to_string(),
        16 => format!("{}/3", s),
        23 => (n as u16).to_string(),
        _ => s.to_string(),
    }
}

fn debugged(ty: usize, s: &str) -> String {
    let n = num(s);
    match ty {
        0 | 1 | 2 | 3 | 4 | 11 | 13 | 14 | 15 => format!("{:?}", s),
        9 => format!("{:?}", s.chars().next().unwrap_or('x')),
        10 => format!("{:?}", (n % 100_000) as f64 / 64.0),
        17 => "()".into(),
        18 => "PhantomData<alloc::string::String>".into(),
        19 => format!("{:?}", s.as_bytes()),
        21 => format!("{:?}", (n as u8, s)),
        24 => format!("{:?}", [s, ""]),
        _ => shown(ty, s),
    }
}

fn hex(ty: usize, s: &str) -> String {
    let n = num(s);
    match ty {
        5 => format!("{:x}", n as u8),
        6 => format!("{:x}", (n as i64).max(-i64::MAX)),
        7 => format!("{:x}", u128::from(n) * u128::from(n)),
        _ => format!("{:x}", n as u16),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fmt {
    Default,
    Show,
    ShowTurbofish,
    Fixed,
    Debug,
    Upper,
    Hex,
    /// A function whose name the generated code uses for something else.
    Named(&'static str),
    Own,
    Qualified,
    Opt,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum SkipIf {
    No,
    Empty,
    Never,
    Always,
    Odd,
    OwnZst,
    OptionIsNone,
    Named(&'static str),
}

/// A field with every choice made.
#[derive(Debug)]
pub struct Field {
    pub ident: String,
    /// The parameter's name.
    pub name: String,
    renamed: bool,
    ty: usize,
    /// 0 plain, 1 `Option<_>`, 2 path + attribute, 3 alias + attribute, 4 `Option` + attribute,
    /// 5 `Option` + `option = false`, 6 path without attribute, 7 plain + `option = false`,
    /// 8 to 10 types of the struct author's own that are called `Option`
    option: u8,
    fmt: Fmt,
    skip_if: SkipIf,
    pub skip: bool,
    encoded: bool,
    layout: u16,
    noise: u8,
}

pub struct Resolved<'a> {
    spec: &'a StructSpec,
    pub fields: Vec<Field>,
    /// Makes the items the derive macro's code must not be confused by.
    shadow: bool,
}

const NAMED: [&str; 8] = ["helper", "tmp", "serializer", "value", "fmt", "this", "f", "ser"];
const NAMED_IF: [&str; 4] = ["cond", "tmp2", "_value", "skip_if"];

impl StructSpec {
    /// Whether prelude names are shadowed around the struct.
    fn shadow(&self) -> bool {
        self.place == 1
    }

    pub fn resolve(&self) -> Resolved<'_> {
        let mut idents = BTreeSet::new();
        let mut names = BTreeSet::new();
        let mut fields = Vec::new();
        for (i, f) in self.fields.iter().enumerate() {
            let mut ident = IDENTS[f.ident as usize % IDENTS.len()].to_string();
            let mut rename = f.rename.clone();
            // The library refuses the empty parameter name next to other fields (see DESIGN.md).
            if rename.as_deref() == Some("") {
                rename = Some("~".into());
            }
            let skip = f.skip;
            if !ident.is_ascii() && !skip && rename.is_none() {
                rename = Some(format!("e{}", i));
            }
            let bare = |s: &str| s.trim_start_matches("r#").to_string();
            if !idents.insert(bare(&ident)) {
                ident = format!("{}_{}", bare(&ident), i);
                idents.insert(ident.clone());
            }
            let mut name = rename.clone().unwrap_or_else(|| bare(&ident));
            if names.contains(&name) || is_protocol_name(&name) {
                name = format!("{}.{}", if name.is_ascii() { &name } else { "n" }, i);
                rename = Some(name.clone());
            }
            names.insert(name.clone());

            let mut ty = f.ty as usize % TYPES.len();
            if f.option == 16 && self.shadow() {
                // The default of its parameter.
                ty = 1;
            }
            let t = &TYPES[ty];
            let mut option = match f.option {
                0..=5 => 0,
                6 | 7 => 1,
                8 => 2,
                9 => 3,
                10 => 4,
                11 => 5,
                12 => 6,
                13 => 7,
                14 => 8,
                15 => 9,
                _ => 10,
            };
            if self.shadow() && matches!(option, 1 | 4 | 5) {
                option = 2;
            }
            if matches!(option, 5 | 6) && !t.display && !skip {
                option = if self.shadow() { 2 } else { 1 };
            }
            let (mut fmts, mut skips) = (vec![], vec![SkipIf::No, SkipIf::No, SkipIf::No]);
            if matches!(option, 5 | 6) {
                fmts.extend([Fmt::Opt, Fmt::Fixed, Fmt::Named(NAMED[f.fmt as usize / 32])]);
                skips.extend([SkipIf::OptionIsNone, SkipIf::Never, SkipIf::Always]);
            } else {
                if t.display {
                    fmts.extend([Fmt::Default; 8]);
                    fmts.extend([Fmt::Show, Fmt::ShowTurbofish]);
                    skips.push(SkipIf::Odd);
                }
                if t.debug && option < 8 {
                    fmts.push(Fmt::Debug);
                }
                if t.text && option < 8 {
                    fmts.extend([Fmt::Upper, Fmt::Qualified]);
                    skips.push(SkipIf::Empty);
                }
                if t.hex && option < 8 {
                    fmts.push(Fmt::Hex);
                }
                fmts.extend([Fmt::Fixed, Fmt::Own, Fmt::Named(NAMED[f.fmt as usize / 32])]);
                skips.extend([
                    SkipIf::Never,
                    SkipIf::Always,
                    SkipIf::OwnZst,
                    SkipIf::Named(NAMED_IF[f.skip_if as usize / 64]),
                ]);
            }
            let mut fmt = fmts[f.fmt as usize % fmts.len()];
            let mut skip_if = skips[f.skip_if as usize % skips.len()];
            if skip {
                // Attributes of skipped fields are accepted and ignored.
                fmt = Fmt::Default;
                skip_if = SkipIf::No;
            }
            fields.push(Field {
                ident,
                name,
                renamed: rename.is_some(),
                ty,
                option,
                fmt,
                skip_if,
                skip,
                encoded: f.encoded,
                layout: f.layout,
                noise: f.noise,
            });
        }
        Resolved {
            shadow: self.shadow(),
            spec: self,
            fields,
        }
    }
}

/// The expected calls of one instance, as the generated program prints them.
pub type Events = Vec<(char, String, String)>;

impl Resolved<'_> {
    fn expected_text(&self, f: &Field, s: &str, present: bool) -> Option<String> {
        if f.skip {
            return None;
        }
        let unwrap = matches!(f.option, 1..=4);
        let whole = matches!(f.option, 5 | 6);
        if unwrap && !present {
            return None;
        }
        let text = shown(f.ty, s);
        let skipped = match f.skip_if {
            SkipIf::No | SkipIf::Never | SkipIf::Named(_) => false,
            SkipIf::Always => true,
            SkipIf::Empty => s.is_empty(),
            SkipIf::Odd => text.len() % 2 == 1,
            SkipIf::OwnZst => matches!(f.ty, 17 | 18),
            SkipIf::OptionIsNone => whole && !present,
        };
        if skipped {
            return None;
        }
        Some(match f.fmt {
            Fmt::Default => text,
            Fmt::Show | Fmt::ShowTurbofish => format!("<{}>", text),
            Fmt::Fixed => "f&=é".into(),
            Fmt::Debug => debugged(f.ty, s),
            Fmt::Upper => s.to_uppercase(),
            Fmt::Hex => hex(f.ty, s),
            Fmt::Named(n) => n.into(),
            Fmt::Own => "own %41".into(),
            Fmt::Qualified => format!("{:?}", s),
            Fmt::Opt if present => format!("Some {}", text),
            Fmt::Opt => "None".into(),
        })
    }

    /// What serializing instance `i` must give.
    pub fn expected(&self, i: usize) -> (Events, String) {
        let mut params: Vec<(String, bool, String)> = Vec::new();
        for (f, s) in self.fields.iter().zip(&self.spec.fields) {
            let (v, p) = &s.vals[i % s.vals.len()];
            if let Some(t) = self.expected_text(f, v, *p) {
                params.push((f.name.clone(), f.encoded, t));
            }
        }
        params.sort();
        let form = params
            .iter()
            .map(|(k, e, t)| format!("{}={}", k, if *e { t.clone() } else { enc(t) }))
            .collect::<Vec<_>>()
            .join("&");
        let mut events: Events = Vec::new();
        let mut hook = 0;
        for (k, e, t) in params {
            while hook < 8 && *PROTOCOL[hook] < *k {
                events.push(('H', hook.to_string(), String::new()));
                hook += 1;
            }
            events.push((if e { 'E' } else { 'P' }, k, t));
        }
        events.extend((hook..8).map(|h| ('H', h.to_string(), String::new())));
        (events, form)
    }

    /// How many fields depart from a plain `Display` field.
    pub fn attributes(&self) -> usize {
        self.fields
            .iter()
            .filter(|f| {
                f.renamed || f.skip || f.encoded || f.option != 0 || f.fmt != Fmt::Default || f.skip_if != SkipIf::No
            })
            .count()
    }

    pub fn labels(&self, mut l: impl FnMut(&'static str)) {
        let any = |p: &dyn Fn(&Field) -> bool| self.fields.iter().any(p);
        for (name, hit) in [
            ("renamed field", any(&|f| f.renamed)),
            ("skipped field", any(&|f| f.skip)),
            ("encoded field", any(&|f| f.encoded && !f.skip)),
            ("option", any(&|f| matches!(f.option, 1..=4) && !f.skip)),
            ("another type called Option", any(&|f| f.option >= 8 && !f.skip)),
            ("option = false", any(&|f| matches!(f.option, 5 | 6) && !f.skip)),
            ("custom formatter", any(&|f| f.fmt != Fmt::Default)),
            ("skip condition", any(&|f| f.skip_if != SkipIf::No)),
            ("raw identifier", any(&|f| f.ident.starts_with("r#"))),
            ("name between protocol parameters", any(&|f| {
                !f.skip && *PROTOCOL[0] < *f.name && *f.name < *PROTOCOL[7]
            })),
            ("made by a macro", self.spec.macro_mode >= 5),
            ("shadowed prelude", self.shadow),
            ("generic", any(&|f| TYPES[f.ty].src.contains('T') || TYPES[f.ty].src == "U")),
            ("lifetime", any(&|f| TYPES[f.ty].src.contains("'a"))),
            ("more than six fields", self.fields.len() > 6),
        ] {
            if hit {
                l(name);
            }
        }
    }

    fn type_src(&self, f: &Field) -> String {
        let mut t = TYPES[f.ty].src.to_string();
        if self.shadow {
            for (a, b) in [
                ("Box<", "::std::boxed::Box<"),
                ("String", "::std::string::String"),
                ("Vec<", "::std::vec::Vec<"),
            ] {
                if t.starts_with(a) {
                    t = t.replacen(a, b, 1);
                }
            }
        }
        match f.option {
            0 | 7 => t,
            1 | 4 | 5 => match f.noise % 5 {
                0 => format!("Option::<{}>", t),
                1 => format!("Option<{},>", t),
                _ => format!("Option<{}>", t),
            },
            8 if self.shadow => format!("Option<{}, ()>", t),
            9 if self.shadow => format!("self::Option<{}>", t),
            10 if self.shadow => "Option".into(),
            8 => format!("support::other::Option<{}>", t),
            9 => format!("crate::support::other::Option<{}, ()>", t),
            10 => format!("super::support::other::Option<{}>", t),
            2 | 6 => format!("::std::option::Option<{}>", t),
            _ => format!("Opt<{}>", t),
        }
    }

    fn metas(&self, f: &Field) -> Vec<String> {
        let mut m = Vec::new();
        if f.renamed {
            m.push(match f.layout % 5 {
                0 => format!("rename = r\"{}\"", f.name),
                1 => format!("rename = r#\"{}\"#", f.name),
                2 => {
                    let esc: String = f.name.bytes().map(|b| format!("\\x{:02x}", b)).collect();
                    format!("rename = \"{}\"", esc)
                }
                _ => format!("rename = \"{}\"", f.name),
            });
        }
        if f.encoded {
            m.push("encoded".into());
        }
        if f.skip {
            m.push("skip".into());
        }
        match f.option {
            2..=4 => m.push("option = true".into()),
            8..=10 if f.noise % 3 == 0 => m.push("option = false".into()),
            5 | 7 => m.push("option = false".into()),
            _ => {}
        }
        match f.fmt {
            Fmt::Default => {}
            Fmt::Show => m.push("fmt = support::show".into()),
            Fmt::ShowTurbofish => m.push("fmt = support::show::<_>".into()),
            Fmt::Fixed => m.push("fmt = support::fixed".into()),
            Fmt::Debug => m.push("fmt = ::std::fmt::Debug::fmt".into()),
            Fmt::Upper => m.push("fmt = crate::support::upper".into()),
            Fmt::Hex => m.push("fmt = std::fmt::LowerHex::fmt".into()),
            Fmt::Named(n) => m.push(format!("fmt = {}", n)),
            Fmt::Own => m.push("fmt = Self::own_fmt".into()),
            Fmt::Qualified => m.push("fmt = <str as std::fmt::Debug>::fmt".into()),
            Fmt::Opt => m.push("fmt = support::opt".into()),
        }
        match f.skip_if {
            SkipIf::No => {}
            SkipIf::Empty => m.push("skip_if = str::is_empty".into()),
            SkipIf::Never => m.push("skip_if = support::never".into()),
            SkipIf::Always => m.push("skip_if = crate::support::always".into()),
            SkipIf::Odd => m.push("skip_if = support::odd".into()),
            SkipIf::OwnZst => m.push("skip_if = Self::own_skip".into()),
            SkipIf::OptionIsNone => m.push("skip_if = ::std::option::Option::is_none".into()),
            SkipIf::Named(n) => m.push(format!("skip_if = {}", n)),
        }
        // Any order.
        let n = m.len();
        for i in 1..n {
            let j = (f.layout / 7) as usize * (i + 3) % (i + 1);
            m.swap(i, j);
        }
        m
    }

    /// The attributes of a field, one per line.
    pub fn attrs(&self, f: &Field) -> Vec<String> {
        let m = self.metas(f);
        let mut out = Vec::new();
        if f.noise % 4 == 1 {
            out.push("/// A field.".to_string());
        }
        if f.noise % 5 == 1 {
            out.push("#[allow(nonstandard_style)]".into());
        }
        match f.layout % 6 {
            0 | 1 if !m.is_empty() => out.push(format!("#[oauth1({})]", m.join(", "))),
            2 => {
                for x in &m {
                    out.push(format!("#[oauth1({})]", x));
                }
            }
            3 if !m.is_empty() => out.push(format!("#[oauth1({},)]", m.join(", "))),
            4 => {
                out.push("#[oauth1()]".into());
                for x in &m {
                    out.push(format!("#[cfg_attr(all(), oauth1({}))]", x));
                }
                out.push("#[cfg_attr(any(), oauth1(skip, unknown))]".into());
            }
            5 if !m.is_empty() => {
                let (a, b) = m.split_at(m.len() / 2);
                out.push(format!("#[oauth1({})]", a.join(", ")));
                out.push(format!("#[oauth1({})]", b.join(", ")));
            }
            _ => {}
        }
        if f.noise % 7 == 1 {
            out.push("#[rustfmt::skip]".into());
        }
        out
    }

    fn uses(&self, what: &str) -> bool {
        self.fields.iter().any(|f| {
            let t = TYPES[f.ty].src;
            match what {
                "T" => matches!(t, "T" | "&'a T" | "Box<T>" | "::core::marker::PhantomData<T>" | "fn(T) -> T"),
                "N" => t == "Pad<N>",
                "'a" => t.contains("'a"),
                _ => t == what,
            }
        })
    }

    pub fn struct_name(&self, index: usize) -> String {
        match self.spec.name % 8 {
            0 => format!("non_camel_{}", index),
            1 => "r#struct".into(),
            2 => "Request".into(),
            3 => "Fmt".into(),
            4 => "Formatter".into(),
            5 => "Serializer".into(),
            _ => format!("Req{}", index),
        }
    }

    /// Writes the item that holds the struct, with line bookkeeping left to the caller; `extra` maps
    /// a field's index to attributes that are put before its own, and `container` likewise.
    pub fn emit(&self, index: usize, out: &mut String) {
        let name = self.struct_name(index);
        let (t, u, n, a) = (self.uses("T"), self.uses("U"), self.uses("N"), self.uses("'a"));
        let b = self.spec.bounds;
        let mut decl = Vec::new();
        let mut usage = Vec::new();
        let mut impls = Vec::new();
        let mut clauses = Vec::new();
        // `fn(T) -> T` and friends need `T: Sized`; Display is added by the macro.
        if a {
            decl.push("'a".to_string());
            impls.push("'a".to_string());
            usage.push("'a");
        }
        let dbg = "::std::fmt::Debug";
        for (on, p) in [(t, "T"), (u, "U")] {
            if on {
                let bound = match b % 4 {
                    0 => format!("{}: {}", p, dbg),
                    1 => {
                        clauses.push(format!("{}: {}", p, dbg));
                        p.to_string()
                    }
                    2 => format!("{}: Clone + {} + 'static", p, dbg).replace("Clone", "::std::clone::Clone"),
                    _ => {
                        clauses.push(format!("{}: ::std::clone::Clone", p));
                        format!("{}: {}", p, dbg)
                    }
                };
                impls.push(bound.clone());
                let later_const = n || (p == "T" && u);
                decl.push(if b == 4 && !later_const {
                    format!("{} = ::std::string::String", bound)
                } else {
                    bound
                });
                usage.push(p);
            }
        }
        // `&'a T` requires no outlives bound, but a trait object of it would.
        if n {
            decl.push("const N: usize".into());
            impls.push("const N: usize".into());
            usage.push("N");
        }
        let angle = |v: &[String]| if v.is_empty() { String::new() } else { format!("<{}>", v.join(", ")) };
        let usage: Vec<String> = usage.iter().map(|s| s.to_string()).collect();
        let wh = if clauses.is_empty() { String::new() } else { format!("\nwhere {}", clauses.join(", ")) };

        let in_fn = self.spec.place == 2;
        let vis = if in_fn { "" } else { "pub " };
        let derive = match self.spec.krate {
            0 | 4..=6 => "#[derive(::oauth::Request)]",
            1 => "#[derive(oauth::Request)]",
            2 => "#[derive(self::support::DeriveAlias)]",
            _ => "#[derive(support::reexport::krate::Request)]",
        };
        let krate = match self.spec.krate {
            4 => "#[oauth1(crate = oauth)]\n",
            5 => "#[oauth1(crate = crate::support::reexport::krate)]\n",
            6 => "#[oauth1(crate = ::oauth,)]\n#[oauth1()]\n",
            _ => "",
        };
        let mut st = String::new();
        let mode = self.spec.macro_mode;
        writeln!(st, "{}\n{}{}struct {}{}{} {{", derive, krate, vis, name, angle(&decl), wh).unwrap();
        let mut frag = String::new();
        for f in &self.fields {
            let fvis = match (f.noise / 16) % 3 {
                _ if mode == 5 => "pub ",
                0 => "pub ",
                1 => "pub(crate) ",
                _ => "pub(super) ",
            };
            if f.noise % 11 == 1 && mode != 5 {
                st.push_str("    #[cfg(any())]\n    #[oauth1(bogus)]\n    ghost: NoSuchType,\n");
            }
            for a in self.attrs(f) {
                writeln!(if mode == 5 { &mut frag } else { &mut st }, "    {}", a).unwrap();
            }
            if mode == 5 {
                writeln!(frag, "    {}: {},", f.ident, self.type_src(f)).unwrap();
            } else {
                writeln!(st, "    {}{}: {},", fvis, f.ident, self.type_src(f)).unwrap();
            }
        }
        let st = match mode {
            5 => {
                // The fields arrive as macro fragments.
                let head = format!(
                    "macro_rules! make {{ ($($(#[$m:meta])* $n:ident : $t:ty,)*) => {{\n{}$($(#[$m])* pub $n: $t,)*\n}}\n}} }}\n",
                    st
                );
                format!("{}make! {{\n{}}}\n", head, frag)
            }
            6 => format!("macro_rules! make {{ ($i:item) => {{ $i }} }}\nmake! {{\n{}}}\n}}\n", st),
            7 => format!("macro_rules! make {{ ($($t:tt)*) => {{ $($t)* }} }}\nmake! {{\n{}}}\n}}\n", st),
            _ => format!("{}}}\n", st),
        };
        let impl_wh = {
            let mut c = clauses.clone();
            c.push("(): Sized".replace("Sized", "::core::marker::Sized"));
            format!("\nwhere {}", c.join(", "))
        };
        let own = format!(
            "impl{} {}{}{} {{\n\
             fn own_fmt<X: ?::core::marker::Sized>(_: &X, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {{ f.write_str(\"own %41\") }}\n\
             fn own_skip<X>(_: &X) -> bool {{ ::core::mem::size_of::<X>() == 0 }}\n}}\n",
            angle(&impls),
            name,
            angle(&usage),
            impl_wh
        );
        let mut run = String::new();
        for i in 0..INSTANCES {
            writeln!(run, "let x = {} {{", name).unwrap();
            for (f, s) in self.fields.iter().zip(&self.spec.fields) {
                let (v, p) = &s.vals[i % s.vals.len()];
                let l = lit(f.ty, v);
                let l = match (f.option, *p) {
                    (0 | 7, _) => l,
                    (8..=10, _) => format!("crate::support::other::Option({}, ::core::marker::PhantomData)", l),
                    (_, true) => format!("::std::option::Option::Some({})", l),
                    // The type must be inferable.
                    (_, false) => format!("none_of(|| {})", l),
                };
                writeln!(run, "    {}: {},", f.ident, l).unwrap();
            }
            writeln!(run, "}};\nsupport::report({}, {}, &x);", index, i).unwrap();
        }
        let fns = |out: &mut String| {
            for n in NAMED.iter().filter(|n| self.fields.iter().any(|f| f.fmt == Fmt::Named(n))) {
                writeln!(out, "#[allow(dead_code)] fn {}<X: ?::core::marker::Sized>(_: &X, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {{ f.write_str(\"{}\") }}", n, n).unwrap();
            }
            for n in NAMED_IF.iter().filter(|n| self.fields.iter().any(|f| f.skip_if == SkipIf::Named(n))) {
                writeln!(out, "#[allow(dead_code)] fn {}<X: ?::core::marker::Sized>(_: &X) -> bool {{ false }}", n).unwrap();
            }
        };
        writeln!(out, "pub mod m{} {{\nuse crate::support;\nuse crate::support::{{Assoc, Opt, Pad, Piecewise, identity, leak, leak_dyn, none_of}};", index).unwrap();
        if self.shadow {
            out.push_str(
                "pub use crate::support::other::Option; struct Some; struct None; struct Result; struct Ok; struct Err;\n\
                 trait Clone {} trait Display {} struct String; struct Box; struct Vec;\n\
                 fn drop() {}\n",
            );
        }
        fns(out);
        if in_fn {
            writeln!(out, "pub fn run() {{\n{}{}{}}}\n}}", st, own, run).unwrap();
        } else {
            writeln!(out, "{}{}pub fn run() {{\n{}}}\n}}", st, own, run).unwrap();
        }
    }
}

/// What every generated program starts with (one line, so that line numbers stay readable).
pub const SUPPORT: &str = r##"
pub mod support {
    use std::fmt::{self, Display, Formatter, Write};
    pub use oauth::Request as DeriveAlias;
    pub mod reexport { pub use oauth as krate; }
    pub type Opt<T> = Option<T>;
    pub trait Assoc { type Out; }
    impl Assoc for u8 { type Out = u16; }
    pub struct Pad<const N: usize>(pub &'static str);
    impl<const N: usize> Display for Pad<N> {
        fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "{}/{}", self.0, N) }
    }
    pub struct Piecewise(pub &'static str);
    impl Display for Piecewise {
        fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { self.0.chars().try_for_each(|c| f.write_char(c)) }
    }
    pub mod other {
        pub struct Option<T = &'static str, U = ()>(pub T, pub ::core::marker::PhantomData<U>);
        impl<T: ::std::fmt::Display, U> ::std::fmt::Display for Option<T, U> {
            fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { ::std::fmt::Display::fmt(&self.0, f) }
        }
    }
    pub fn identity<T>(t: T) -> T { t }
    pub fn leak<T>(t: T) -> &'static T { Box::leak(Box::new(t)) }
    pub fn leak_dyn(t: &'static str) -> &'static dyn Display { Box::leak(Box::new(t)) }
    pub fn none_of<T>(_: impl FnOnce() -> T) -> Option<T> { None }
    pub fn show<T: Display + ?Sized>(t: &T, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "<{}>", t) }
    pub fn fixed<T: ?Sized>(_: &T, f: &mut Formatter<'_>) -> fmt::Result { f.write_str("f&=")?; f.write_str("é") }
    pub fn upper(t: &str, f: &mut Formatter<'_>) -> fmt::Result { f.write_str(&t.to_uppercase()) }
    pub fn opt<T: Display>(t: &Option<T>, f: &mut Formatter<'_>) -> fmt::Result {
        match t { Some(t) => write!(f, "Some {}", t), None => f.write_str("None") }
    }
    pub fn never<T: ?Sized>(_: &T) -> bool { false }
    pub fn always<T: ?Sized>(_: &T) -> bool { true }
    pub fn odd<T: Display + ?Sized>(t: &T) -> bool { t.to_string().len() % 2 == 1 }

    #[derive(Default)]
    pub struct Trace(pub Vec<(char, String, String)>);
    macro_rules! hooks {
        ($($name:ident $i:literal)*) => {$(
            fn $name(&mut self) { self.0.push(('H', $i.to_string(), String::new())); }
        )*};
    }
    impl oauth::serializer::Serializer for Trace {
        type Output = Vec<(char, String, String)>;
        fn serialize_parameter<V: Display>(&mut self, k: &str, v: V) { self.0.push(('P', k.into(), v.to_string())); }
        fn serialize_parameter_encoded<V: Display>(&mut self, k: &str, v: V) { self.0.push(('E', k.into(), v.to_string())); }
        hooks! {
            serialize_oauth_callback 0 serialize_oauth_consumer_key 1 serialize_oauth_nonce 2
            serialize_oauth_signature_method 3 serialize_oauth_timestamp 4 serialize_oauth_token 5
            serialize_oauth_verifier 6 serialize_oauth_version 7
        }
        fn end(self) -> Vec<(char, String, String)> { self.0 }
    }
    pub fn report<R: oauth::Request>(index: usize, instance: usize, r: &R) {
        let a = oauth::Request::serialize(r, Trace::default());
        let b = oauth::Request::serialize(&Some(&r), Trace::default());
        println!("{} {} {:?} {:?} {}", index, instance, a, oauth::to_form(r), a == b);
    }
}
"##;

impl StructSpec {
    pub fn line(&self, index: usize, i: usize) -> String {
        let (e, form) = self.resolve().expected(i);
        format!("{} {} {:?} {:?} true", index, i, e, form)
    }
}

/// A program that reports every instance of every struct.
pub fn program(specs: &[StructSpec]) -> String {
    let mut s = String::from("#![allow(warnings)]\n");
    s.push_str(SUPPORT);
    for (i, spec) in specs.iter().enumerate() {
        spec.resolve().emit(i, &mut s);
    }
    s.push_str("fn main() {\n");
    for i in 0..specs.len() {
        writeln!(s, "m{}::run();", i).unwrap();
    }
    s.push_str("}\n");
    s
}

pub fn path_str(p: &Path) -> String {
    p.display().to_string()
}
