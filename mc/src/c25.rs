//! Displayed errors: what, which key, where, and one line for each.

use std::borrow::Cow;
use std::env::{set_current_dir, set_var};
use std::fs;
use std::panic::Location;
use std::path::PathBuf;

use figment::error::{Actual, Kind, OneOf};
use figment::providers::{Env, Format, Json, Serialized, Toml, Yaml, YamlExtended};
use figment::value::{Dict, Map, Value};
use figment::{Error, Figment, Metadata, Profile, Provider, Source};
use serde::de::{self, Error as _, Unexpected};
use serde::Deserialize;

use crate::c01::odd_keys;
use crate::c13::clear;
use crate::c14::Tmp;
use crate::engine::*;
use crate::{ensure, ensure_eq};

static NONE: [&str; 0] = [];
static ONE: [&str; 1] = ["a"];
static TWO: [&str; 2] = ["a", "b"];
static THREE: [&str; 3] = ["a", "", "c d"];
static FOUR: [&str; 4] = ["w", "x", "y", "z"];
static ALTS: [&[&str]; 5] = [&NONE, &ONE, &TWO, &THREE, &FOUR];

/// The alternatives, in words.
fn alts(a: &[&str]) -> String {
    match a {
        [] => "none".into(),
        [x] => format!("`{x}`"),
        [x, y] => format!("`{x}` or `{y}`"),
        more => format!("one of {}", more.iter().map(|x| format!("`{x}`")).collect::<Vec<_>>().join(", ")),
    }
}

const TEXTS: [&str; 9] = ["", "a", "a b", "`", "\"", "\n", "é", "{}", "\u{0}"];

/// What was found, and the words for it.
fn actuals() -> Vec<(Actual, String)> {
    let mut v = vec![
        (Actual::Unit, "unit".to_string()), (Actual::Option, "option".into()),
        (Actual::NewtypeStruct, "new-type struct".into()), (Actual::Seq, "sequence".into()), (Actual::Map, "map".into()),
        (Actual::Enum, "enum".into()), (Actual::UnitVariant, "unit variant".into()),
        (Actual::NewtypeVariant, "new-type variant".into()), (Actual::TupleVariant, "tuple variant".into()),
        (Actual::StructVariant, "struct variant".into()),
        (Actual::Bytes(vec![]), "bytes []".into()), (Actual::Bytes(vec![0, 10, 255]), "bytes [0, 10, 255]".into()),
        (Actual::Bool(true), "bool true".into()), (Actual::Bool(false), "bool false".into()),
    ];
    for n in [0, 1, 9, 10, u8::MAX as u128, u64::MAX as u128, u64::MAX as u128 + 1, u128::MAX] {
        v.push((Actual::Unsigned(n), format!("unsigned int `{n}`")));
    }
    for n in [0, 1, -1, 10, -10, i64::MIN as i128, i64::MAX as i128, i128::MIN, i128::MAX] {
        v.push((Actual::Signed(n), format!("signed int `{n}`")));
    }
    for f in [0.0, 1.5, -1.5, 3.0, f64::MAX, f64::MIN_POSITIVE, f64::INFINITY, f64::NEG_INFINITY, f64::NAN] {
        v.push((Actual::Float(f), format!("float `{f}`")));
    }
    for c in ['a', '\'', '"', '\n', 'é', '\u{0}'] { v.push((Actual::Char(c), format!("char {c:?}"))); }
    for s in TEXTS {
        v.push((Actual::Str(s.into()), format!("string {s:?}")));
        v.push((Actual::Other(s.into()), s.into()));
    }
    v
}

/// Serde's own form, which has no integers beyond 64 bits.
fn unexpected(a: &Actual) -> Option<Unexpected<'_>> {
    Some(match a {
        Actual::Bool(b) => Unexpected::Bool(*b),
        Actual::Unsigned(n) => Unexpected::Unsigned(u64::try_from(*n).ok()?),
        Actual::Signed(n) => Unexpected::Signed(i64::try_from(*n).ok()?),
        Actual::Float(f) => Unexpected::Float(*f),
        Actual::Char(c) => Unexpected::Char(*c),
        Actual::Str(s) => Unexpected::Str(s),
        Actual::Bytes(b) => Unexpected::Bytes(b),
        Actual::Unit => Unexpected::Unit,
        Actual::Option => Unexpected::Option,
        Actual::NewtypeStruct => Unexpected::NewtypeStruct,
        Actual::Seq => Unexpected::Seq,
        Actual::Map => Unexpected::Map,
        Actual::Enum => Unexpected::Enum,
        Actual::UnitVariant => Unexpected::UnitVariant,
        Actual::NewtypeVariant => Unexpected::NewtypeVariant,
        Actual::TupleVariant => Unexpected::TupleVariant,
        Actual::StructVariant => Unexpected::StructVariant,
        Actual::Other(s) => Unexpected::Other(s),
    })
}

/// An error as serde reports it, and its words.
fn reported(cx: &mut Cx) -> (Option<Error>, Kind, String) {
    let text = *cx.of(&TEXTS);
    match cx.pick(14) {
        0 => (Some(Error::custom(text)), Kind::Message(text.into()), text.into()),
        n @ 1..=4 => {
            let all = actuals();
            let (a, words) = cx.of(&all).clone();
            let e = unexpected(&a).filter(|_| n < 3).map(|u| match n {
                1 => Error::invalid_type(u, &text),
                _ => Error::invalid_value(u, &text),
            });
            match n {
                1 => (e, Kind::InvalidType(a, text.into()), format!("invalid type: found {words}, expected {text}")),
                2 => (e, Kind::InvalidValue(a, text.into()), format!("invalid value {words}, expected {text}")),
                3 => (e, Kind::Unsupported(a), format!("unsupported type `{words}`")),
                _ => (e, Kind::UnsupportedKey(a, text.into()), format!("unsupported type `{words}` for key: must be `{text}`")),
            }
        }
        5 => {
            let n = *cx.of(&[0, 1, 10, usize::MAX]);
            (Some(Error::invalid_length(n, &text)), Kind::InvalidLength(n, text.into()),
                format!("invalid length {n}, expected {text}"))
        }
        6 => {
            let a = *cx.of(&ALTS);
            (Some(Error::unknown_variant(text, a)), Kind::UnknownVariant(text.into(), a),
                format!("unknown variant: found `{text}`, expected `{}`", alts(a)))
        }
        7 => {
            let a = *cx.of(&ALTS);
            (Some(Error::unknown_field(text, a)), Kind::UnknownField(text.into(), a),
                format!("unknown field: found `{text}`, expected `{}`", alts(a)))
        }
        8 => (Some(Error::missing_field(text)), Kind::MissingField(text.into()), format!("missing field `{text}`")),
        9 => (None, Kind::MissingField(Cow::Owned(text.into())), format!("missing field `{text}`")),
        10 => (Some(Error::duplicate_field(text)), Kind::DuplicateField(text), format!("duplicate field `{text}`")),
        11 => {
            let n = *cx.of(&[0, 1, -1, isize::MIN, isize::MAX]);
            (None, Kind::ISizeOutOfRange(n), format!("signed integer `{n}` is out of range"))
        }
        12 => {
            let n = *cx.of(&[0, 1, usize::MAX]);
            (None, Kind::USizeOutOfRange(n), format!("unsigned integer `{n}` is out of range"))
        }
        _ => (Some(Error::from(text.to_string())), Kind::Message(text.into()), text.into()),
    }
}

#[derive(Clone, Debug, Hash)]
enum How { Default, Upper, Fixed(&'static str), Full }

impl How {
    fn on(&self, md: Metadata) -> Metadata {
        match self.clone() {
            How::Default => md,
            How::Upper => md.interpolater(|_: &Profile, k: &[&str]| k.join("_").to_uppercase()),
            How::Fixed(s) => md.interpolater(move |_: &Profile, _: &[&str]| s.to_string()),
            How::Full => md.interpolater(|p: &Profile, k: &[&str]| format!("<{p}:{}:{}>", k.len(), k.join("/"))),
        }
    }

    fn key(&self, prof: &str, path: &[String]) -> String {
        match self {
            How::Default => format!("{prof}.{}", path.join(".")),
            How::Upper => path.join("_").to_uppercase(),
            How::Fixed(s) => s.to_string(),
            How::Full => format!("<{prof}:{}:{}>", path.len(), path.join("/")),
        }
    }
}

/// What is known of where an error comes from.
#[derive(Clone, Debug, Hash)]
struct About {
    profile: Option<&'static str>,
    path: Vec<String>,
    md: Option<(&'static str, Option<usize>, How)>,
}

fn place(i: usize) -> (Source, String) {
    match i {
        0 => (Source::from("custom place"), "custom place".into()),
        1 => (Source::from(""), "".into()),
        // Neither below nor near the current directory.
        2 => (Source::from(PathBuf::from("/f.toml").as_path()), "/f.toml".into()),
        3 => (Source::from(PathBuf::from("rel/f.toml").as_path()), "rel/f.toml".into()),
        _ => {
            let l = Location::caller();
            (Source::from(l), format!("{}:{}:{}", l.file(), l.line(), l.column()))
        }
    }
}

impl About {
    fn build(&self, kind: Kind) -> Error {
        let mut e = Error::from(kind);
        e.profile = self.profile.map(Profile::new);
        e.path = self.path.clone();
        e.metadata = self.md.as_ref().map(|(name, source, how)| {
            let md = Metadata::named(*name);
            how.on(match source { Some(i) => md.source(place(*i).0), None => md })
        });
        e
    }

    fn words(&self, what: &str) -> String {
        let mut s = what.to_string();
        if let Some((name, source, how)) = &self.md {
            if let (Some(p), false) = (self.profile, self.path.is_empty()) {
                s += &format!(" for key {:?}", how.key(p, &self.path));
            }
            s += " in ";
            if let Some(i) = source { s += &place(*i).1; s += " "; }
            s += name;
        }
        s
    }
}

const PROFILES: [Option<&str>; 6] = [None, Some("default"), Some("global"), Some("custom"), Some("Odd One"), Some("")];

fn about(cx: &mut Cx) -> About {
    let mut paths: Vec<Vec<String>> = ["", "a", "a b", "0 1", "a b c d"].iter()
        .map(|p| p.split_whitespace().map(|s| s.to_string()).collect()).collect();
    paths.extend([vec!["k.l".to_string()], vec!["".into()], vec!["".into(), "".into()], vec!["\"q\"".into(), "é".into()], vec!["\n".into()]]);
    let profile = *cx.of(&PROFILES);
    let path = cx.of(&paths).clone();
    let md = if cx.flag() {
        let name = *cx.of(&["Default", "", "a b", "\n"]);
        let source = match cx.pick(6) { 0 => None, i => Some(i - 1) };
        let how = cx.of(&[How::Default, How::Upper, How::Fixed(""), How::Fixed("a \"b\"\n"), How::Full]).clone();
        Some((name, source, how))
    } else { None };
    About { profile, path, md }
}

/// Some errors that differ in what is known.
fn links() -> Vec<(Error, String)> {
    let mk = |profile, path: &[&str], md, kind: Kind, what: &str| {
        let a = About { profile, path: path.iter().map(|s| s.to_string()).collect(), md };
        (a.build(kind), a.words(what))
    };
    let m = |s: &str| Kind::Message(s.into());
    vec![
        mk(None, &[], None, m("plain"), "plain"),
        mk(Some("custom"), &["a", "b"], Some(("src", None, How::Default)), m("keyed"), "keyed"),
        mk(Some("default"), &["k"], Some(("other", Some(0), How::Upper)), Kind::MissingField("f".into()), "missing field `f`"),
        mk(None, &["k"], Some(("named", Some(4), How::Full)), m("no profile"), "no profile"),
        mk(Some("global"), &["k"], None, Kind::DuplicateField("d"), "duplicate field `d`"),
        mk(Some("global"), &[], Some(("whole", Some(2), How::Default)), m("two\nlines"), "two\nlines"),
        mk(None, &[], None, m(""), ""),
    ]
}

fn displayed(cx: &mut Cx, e: &Error, want: &str) -> R {
    cx.checked(1);
    cx.op(|| format!("{want:?}"));
    let got = e.to_string();
    cx.state(&got);
    ensure_eq!(got, want, "display", "{e:?}");
    Ok(())
}

#[derive(Deserialize, Debug)]
#[allow(dead_code)]
#[serde(deny_unknown_fields)]
struct Strict { known: u8 }

#[derive(Deserialize, Debug)]
#[allow(dead_code)]
#[serde(rename_all = "lowercase")]
enum Choice { One, Two(u8), Three }

/// Ways for the value at a key to be wrong, by what a source can hold: the
/// JSON of it, how the error goes on from there, and its words.
fn wrongs() -> Vec<(&'static str, &'static [&'static str], &'static str, fn(&Figment, &str) -> Option<Error>)> {
    fn get<T: for<'a> de::Deserialize<'a>>(f: &Figment, key: &str) -> Option<Error> { f.extract_inner::<T>(key).err() }
    vec![
        ("\"x\"", &[], "invalid type: found string \"x\", expected u8", get::<u8>),
        ("true", &[], "invalid type: found bool true, expected u8", get::<u8>),
        ("true", &[], "invalid type: found bool true, expected a string", get::<String>),
        ("[1, \"x\", 3]", &["1"], "invalid type: found string \"x\", expected u8", get::<Vec<u8>>),
        ("[1, 2, 3]", &[], "invalid type: found sequence, expected u8", get::<u8>),
        ("{\"known\": true}", &["known"], "invalid type: found bool true, expected u8", get::<Strict>),
        ("{\"known\": true}", &["known"], "invalid type: found bool true, expected u8", get::<std::collections::BTreeMap<String, u8>>),
        ("{\"other\": 1, \"known\": 1}", &["other"], "unknown field: found `other`, expected ``known``", get::<Strict>),
        ("{\"known\": [1, {\"k\": \"v\"}]}", &["known", "1", "k"], "invalid type: found string \"v\", expected u8",
            get::<std::collections::BTreeMap<String, (u8, std::collections::BTreeMap<String, u8>)>>),
        ("\"four\"", &[], "unknown variant: found `four`, expected `one of `one`, `two`, `three``", get::<Choice>),
        ("{\"two\": true}", &["two"], "invalid type: found bool true, expected u8", get::<Choice>),
        ("[1]", &[], "invalid length 1, expected a tuple of size 2", get::<(u8, u8)>),
        ("\"xy\"", &[], "invalid value string \"xy\", expected a character", get::<char>),
        ("{\"known\": \"v\"}", &["known"], "invalid type: found string \"v\", expected u8",
            get::<figment::value::magic::Tagged<Strict>>),
    ]
}

/// The value of JSON.
fn value(json: &str) -> Value { Value::serialize(serde_json::from_str::<serde_json::Value>(json).unwrap()).unwrap() }

/// As TOML, on a line.
fn toml(json: &str) -> String { json.replace(": ", " = ") }

struct Own { name: String, source: Option<Source>, how: How, data: Result<Dict, Error>, profile: String }

impl Provider for Own {
    fn metadata(&self) -> Metadata {
        let mut md = Metadata::named(self.name.clone());
        if let Some(s) = &self.source { md = md.source(s.clone()); }
        self.how.on(md)
    }
    fn data(&self) -> Result<Map<Profile, Dict>, Error> { self.data.clone().map(|d| Profile::new(&self.profile).collect(d)) }
}

const KINDS: usize = 21;

/// A source of a kind with `json` at `key`; the words for the key and for it.
fn source(f: Figment, kind: usize, key: &[&str], json: &str, prof: &str) -> (Figment, String, String, &'static str) {
    let mut prof = prof.to_string();
    let dotted = key.join(".");
    let text = key.iter().rev().fold(json.to_string(), |v, k| format!("{{\"{k}\": {v}}}"));
    let dict = figment::util::nest(&dotted, value(json)).into_dict().unwrap();
    let tomls = format!("{dotted} = {}\n", toml(json));
    let nested = format!("{{\"{prof}\": {text}}}");
    let ntoml = format!("[{prof}]\n{tomls}");
    let env = |prefix: &str| {
        set_var(format!("{prefix}{}", key.join("__")).to_uppercase(), toml(json).replace("\"", if json.starts_with('"') { "" } else { "\"" }));
    };
    let ty = |t: &str| t.to_string();
    let (fig, name) = match kind {
        0 => (f.merge(Toml::string(&tomls).profile(&*prof)), ty("TOML source string")),
        1 => (f.merge(Json::string(&text).profile(&*prof)), ty("JSON source string")),
        2 => (f.merge(Yaml::string(&text).profile(&*prof)), ty("YAML source string")),
        3 => (f.merge(YamlExtended::string(&text).profile(&*prof)), ty("YAML Extended source string")),
        4 => (f.merge(Toml::string(&ntoml).nested()), ty("TOML source string")),
        5 => (f.merge(Json::string(&nested).nested()), ty("JSON source string")),
        6 => { fs::write("f.toml", &tomls).unwrap(); (f.merge(Toml::file("f.toml").profile(&*prof)), ty("f.toml TOML file")) }
        7 => { fs::write("f.json", &text).unwrap(); (f.merge(Json::file("f.json").profile(&*prof)), ty("f.json JSON file")) }
        8 => { fs::write("../f.yaml", &nested).unwrap(); (f.merge(Yaml::file("f.yaml").nested()), ty("../f.yaml YAML file")) }
        9 => {
            fs::create_dir_all("sub").unwrap();
            fs::write("sub/f.yml", &text).unwrap();
            (f.merge(YamlExtended::file("sub/f.yml").profile(&*prof)), ty("sub/f.yml YAML Extended file"))
        }
        10 => { env(""); (f.merge(Env::raw().split("__").profile(&*prof)), ty("environment variable(s)")) }
        11 => { env("app_"); (f.merge(Env::prefixed("APP_").split("__").profile(&*prof)), ty("`APP_` environment variable(s)")) }
        12 => {
            env("APP_");
            let f = f.merge(Env::prefixed("app_").split("__").profile(&*prof));
            (f, ty("`APP_` environment variable(s)"))
        }
        13 => {
            env("APP_");
            prof = "global".into();
            let f = f.merge(Env::prefixed("APP_").map(|k| k.as_str().replace("__", ".").into()).global());
            (f, ty("`APP_` environment variable(s)"))
        }
        14 => {
            let (l, f) = (line!(), f.merge(Serialized::from(dict, &*prof)));
            (f, format!("{}:{l}:* {}", file!(), std::any::type_name::<Dict>()))
        }
        15 => {
            prof = "default".into();
            let (l, f) = (line!(), f.merge(Serialized::default(&dotted, value(json))));
            (f, format!("{}:{l}:* {}", file!(), std::any::type_name::<Value>()))
        }
        16 => {
            prof = "global".into();
            (f.merge((dotted.clone(), value(json))), format!("({}, {})", std::any::type_name::<String>(), std::any::type_name::<Value>()))
        }
        17 => {
            let own = Own { name: "own".into(), source: Some(Source::from("net:1")), how: How::Full, data: Ok(dict), profile: prof.clone() };
            (f.merge(own), ty("net:1 own"))
        }
        18 => {
            let own = Own { name: "own".into(), source: None, how: How::Upper, data: Ok(dict), profile: prof.clone() };
            // Through another configuration.
            (f.merge(Figment::from(own)), ty("own"))
        }
        19 => {
            let own = Own { name: "own".into(), source: None, how: How::Default, data: Ok(dict), profile: prof.clone() };
            (f.merge(&own), ty("own"))
        }
        _ => {
            env("");
            let f = f.merge(Figment::from(Env::raw().split("__").profile(&*prof)));
            (f, ty("environment variable(s)"))
        }
    };
    let how = match kind { 17 => "Full", 18 => "Upper", 10..=13 | 20 => "env", _ => "default" };
    (fig, prof, name, how)
}

/// `want`, in which `*` stands for a column.
fn same(got: &str, want: &str) -> bool {
    match want.split_once(":* ") {
        None => got == want,
        Some((a, b)) => got.strip_prefix(&format!("{a}:")).and_then(|r| r.strip_suffix(&format!(" {b}")))
            .map_or(false, |c| !c.is_empty() && c.bytes().all(|b| b.is_ascii_digit())),
    }
}

/// The key as a kind of source renders it.
fn key_words(words: &str, prof: &str, path: &[String]) -> String {
    match words {
        "env" => path.iter().map(|k| k.to_ascii_uppercase()).collect::<Vec<_>>().join("."),
        "Full" => How::Full.key(prof, path),
        "Upper" => How::Upper.key(prof, path),
        _ => How::Default.key(prof, path),
    }
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut all = vec![];

    all.push(Scenario::new("kinds",
        "every kind of error with every kind of actual value and 9 texts, from serde's constructors and directly: the \
            kind and its words, alone and with all of the rest known",
        |cx| {
            let (e, kind, words) = reported(cx);
            if let Some(e) = e {
                ensure!(e.kind == kind || matches!(kind, Kind::InvalidType(Actual::Float(f), _) | Kind::InvalidValue(Actual::Float(f), _) if f.is_nan()),
                    "kind", "serde's error is {:?}, expected {kind:?}", e.kind);
                displayed(cx, &e, &words)?;
            }
            cx.checked(2);
            ensure_eq!(kind.to_string(), words, "words", "{kind:?}");
            displayed(cx, &Error::from(kind.clone()), &words)?;
            let a = About { profile: Some("custom"), path: vec!["a".into(), "b".into()], md: Some(("name", Some(0), How::Default)) };
            let e = a.build(kind.clone());
            ensure_eq!(e.missing(), matches!(kind, Kind::MissingField(_)), "missing", "{kind:?}");
            displayed(cx, &e, &format!("{words} for key \"custom.a.b\" in custom place name"))?;
            let chained = Error::from("last").chain(e);
            displayed(cx, &chained, &format!("{words} for key \"custom.a.b\" in custom place name\nlast"))
        }));

    all.push(Scenario::new("parts",
        "every combination of a profile or none, 10 paths, metadata or none with 4 names, a source of each kind or none and \
            5 interpolations",
        |cx| {
            let a = about(cx);
            let tmp = Tmp::new();
            set_current_dir(&tmp.0).unwrap();
            cx.outcome(&a);
            let e = a.build(Kind::Message("what".into()));
            displayed(cx, &e, &a.words("what"))
        }));

    all.push(Scenario::new("with-path",
        "paths given in one or more pieces",
        |cx| {
            let pieces = ["", ".", "a", "a.b", ".a", "a.", "a..b", "é.0", " ", "k-l_m"];
            let n = cx.pick(4);
            let (mut e, mut want) = (Error::from("m"), vec![]);
            e.profile = Some(Profile::Default);
            e.metadata = Some(Metadata::named("n"));
            for _ in 0..n {
                let p = *cx.of(&pieces);
                e = e.with_path(p);
                want.extend(p.split('.').filter(|s| !s.is_empty()).map(|s| s.to_string()));
            }
            ensure_eq!(e.path, want, "with_path", "the path");
            let want = if want.is_empty() { "m in n".into() } else { format!("m for key {:?} in n", format!("default.{}", want.join("."))) };
            displayed(cx, &e, &want)
        }));

    let len = tier.sel(5, 7);
    all.push(Scenario::new("chains",
        format!("every chain of up to {len} errors of 7 that differ in what is known of them, chained in either way"),
        move |cx| {
            let links = links();
            let tmp = Tmp::new();
            set_current_dir(&tmp.0).unwrap();
            let n = 1 + cx.pick(len);
            let left = cx.flag();
            let mut chosen = vec![];
            for _ in 0..n { chosen.push(cx.of(&links).clone()); }
            // `a.chain(b)` comes after `b`.
            let mut errors = chosen.iter().map(|(e, _)| e.clone());
            let e = if left {
                errors.reduce(|first, next| next.chain(first)).unwrap()
            } else {
                let last = errors.next_back().unwrap();
                errors.rev().fold(last, |rest, e| rest.chain(e))
            };
            let words: Vec<_> = chosen.iter().map(|(_, w)| w.clone()).collect();
            displayed(cx, &e, &words.join("\n"))?;
            // Each alone.
            let each: Vec<String> = e.clone().into_iter().map(|e| e.to_string()).collect();
            ensure_eq!(each, words, "each", "each of the errors");
            ensure_eq!(e.count(), n, "count", "the number of errors");
            Ok(())
        }));

    all.push(Scenario::new("long-chains",
        "chains of up to 1000 errors, of which one is of any of 7",
        |cx| {
            let links = links();
            let tmp = Tmp::new();
            set_current_dir(&tmp.0).unwrap();
            let n = *cx.of(&[2usize, 3, 10, 31, 32, 33, 64, 100, 255, 256, 257, 1000]);
            let at = *cx.of(&[0, 1, n / 2, n - 1]);
            let odd = cx.of(&links).clone();
            let all: Vec<(Error, String)> = (0..n).map(|i| if i == at { odd.clone() } else { (Error::from(format!("e{i}")), format!("e{i}")) }).collect();
            let words: Vec<_> = all.iter().map(|a| a.1.clone()).collect();
            let e = all.into_iter().map(|a| a.0).reduce(|first, next| next.chain(first)).unwrap();
            displayed(cx, &e, &words.join("\n"))
        }));

    let n = tier.sel(3, 4);
    all.push(Scenario::new("interpolation",
        format!("metadata of each kind of source, of keys of up to {n} components of 26 unusual ones, under 6 profiles"),
        move |cx| {
            let kind = cx.pick(12);
            let (md, words) = match kind {
                0 => (Metadata::default(), "default"),
                1 => (Metadata::named("n"), "default"),
                2 => (Metadata::from("n", PathBuf::from("/f").as_path()), "default"),
                3 => (Toml::string("").metadata(), "default"),
                4 => (Json::file("/none").metadata(), "default"),
                5 => (Serialized::defaults(1).metadata(), "default"),
                6 => (("k", 1).metadata(), "default"),
                7 => (Env::raw().metadata(), "env"),
                8 => (Env::prefixed("x").split("_").global().metadata(), "env"),
                9 => (How::Full.on(Metadata::default()), "Full"),
                10 => (How::Upper.on(How::Full.on(Metadata::named("n")).source("s")), "Upper"),
                _ => (Env::prefixed("p").lowercase(false).only(&["k"]).metadata(), "env"),
            };
            let prof = *cx.of(&["default", "global", "custom", "Odd One", "", "a.b"]);
            let keys = odd_keys();
            let len = cx.pick(n + 1);
            // All last ones at once.
            let mut key: Vec<String> = (1..len).map(|_| cx.of(&keys).clone()).collect();
            for last in keys.iter().take(if len == 0 { 1 } else { keys.len() }) {
                if len > 0 { key.push(last.clone()); }
                let want = key_words(words, prof, &key);
                let refs: Vec<&str> = key.iter().map(|s| s.as_str()).collect();
                cx.op(|| format!("{prof:?} {key:?} is {want:?}"));
                ensure_eq!(md.interpolate(&Profile::new(prof), &key), want, "interpolate", "{key:?} of {md:?}");
                ensure_eq!(md.interpolate(&Profile::from(prof), &refs), want, "interpolate", "{key:?} of {md:?}");
                cx.checked(2);
                cx.state(&(kind, &want));
                key.pop();
            }
            Ok(())
        }));

    all.push(Scenario::new("sources",
        format!("{KINDS} kinds of source with a value wrong in each of 14 ways, at keys of 1 to 3 components, under 4 \
            profiles, over a source that is right or not: the text of the error"),
        |cx| {
            let kind = cx.pick(KINDS);
            let wrongs = wrongs();
            let (json, rest, words, get) = *cx.of(&wrongs);
            let prof = *cx.of(&["default", "global", "custom", "dev"]);
            let key: &[&str] = *cx.of(&[&["k"] as &[&str], &["k", "l"], &["kk", "l", "m_n"]]);
            let over = cx.flag();
            let tmp = Tmp::new();
            let dir = tmp.0.join("in");
            fs::create_dir(&dir).unwrap();
            set_current_dir(&dir).unwrap();
            clear();
            let mut f = Figment::new();
            if over {
                let good = Own { name: "right".into(), source: None, how: How::Fixed("wrong key"), profile: "default".into(),
                    data: Ok(figment::util::nest(&key.join("."), Value::from(1)).into_dict().unwrap()) };
                f = f.merge(good);
            }
            let (f, used, name, how) = source(f, kind, key, json, prof);
            let f = f.select(if prof == "dev" { "dev" } else { "custom" });
            let Some(e) = get(&f, &key.join(".")) else {
                return fail("accepted", format!("{json} of {name} is accepted"));
            };
            clear();
            let mut path: Vec<String> = key.iter().map(|s| s.to_string()).collect();
            path.extend(rest.iter().map(|s| s.to_string()));
            let want = format!("{words} for key {:?} in {name}", key_words(how, &used, &path));
            cx.op(|| want.clone());
            cx.state(&want);
            cx.checked(1);
            ensure!(same(&e.to_string(), &want), "text", "{:?}, expected {want:?}", e.to_string());
            Ok(())
        }));

    all.push(Scenario::new("failures",
        "sources of each kind that can't provide data, alone or two or three: one line for each, in order, that names it",
        |cx| {
            let tmp = Tmp::new();
            set_current_dir(&tmp.0).unwrap();
            fs::write("bad.toml", "a = [").unwrap();
            let n = 1 + cx.pick(3);
            let (mut f, mut ends) = (Figment::new(), vec![]);
            for i in 0..n {
                let (p, start, end) = match cx.pick(6) {
                    0 => (f.merge(Toml::file("bad.toml")), String::new(), "in bad.toml TOML file".to_string()),
                    1 => (f.merge(Json::string("{")), String::new(), "in JSON source string".into()),
                    2 => (f.merge(Yaml::file("none.yaml").required(true)), "required file `none.yaml` not found".into(),
                        "in none.yaml YAML file".into()),
                    3 => (f.merge(Serialized::defaults(1u8)), "invalid type: found unsigned int `1`, expected map".into(), "u8".into()),
                    4 => {
                        let own = Own { name: format!("own{i}"), source: None, how: How::Full, profile: "x".into(),
                            data: Err(Error::from("broke").with_path("a.b")) };
                        (f.merge(own), "broke for key \"<default:2:a/b>\" in".into(), format!("own{i}"))
                    }
                    _ => {
                        let own = Own { name: format!("own{i}"), source: Some(Source::from("there")), how: How::Default, profile: "x".into(),
                            data: Err(Error::from("second").chain(Error::from(Kind::MissingField("z".into())).with_path("k"))) };
                        ends.push(("missing field `z` for key \"default.k\" in".to_string(), format!("in there own{i}")));
                        (f.merge(own), "second in".into(), format!("in there own{i}"))
                    }
                };
                f = p;
                ends.push((start, end));
            }
            let e = f.extract::<Dict>().expect_err("fails");
            let lines: Vec<String> = e.clone().into_iter().map(|e| e.to_string()).collect();
            cx.op(|| format!("{e}"));
            ensure_eq!(e.to_string(), lines.join("\n"), "joined", "the text of all");
            ensure_eq!(lines.len(), ends.len(), "number", "{lines:?}: the number of errors");
            for (line, (start, end)) in lines.iter().zip(&ends) {
                cx.checked(1);
                ensure!(line.starts_with(start) && line.ends_with(end), "failure", "{line:?}, expected {start:?} to {end:?}");
            }
            cx.state(&ends);
            Ok(())
        }));

    all.push(Scenario::new("alternatives",
        "lists of 0 to 300 alternatives",
        |cx| {
            let n = *cx.of(&[0usize, 1, 2, 3, 4, 5, 9, 10, 11, 31, 32, 33, 64, 100, 255, 256, 300]);
            let kind = cx.pick(3);
            // Kept for as long as the process lives.
            let list: &'static [&'static str] = Box::leak((0..n).map(|i| match kind {
                0 => "a", 1 => &*Box::leak(format!("n{i}").into_boxed_str()), _ => TEXTS[i % TEXTS.len()],
            }).collect::<Vec<_>>().into_boxed_slice());
            let want = alts(list);
            cx.op(|| format!("{n} of {kind}"));
            cx.state(&want);
            cx.checked(2);
            ensure_eq!(OneOf(list).to_string(), want, "one-of", "{n} alternatives");
            ensure_eq!(Kind::UnknownField("f".into(), list).to_string(), format!("unknown field: found `f`, expected `{want}`"),
                "field", "{n} alternatives");
            Ok(())
        }));

    all
}
