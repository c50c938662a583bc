//! The flexible boolean and the list of pairs, for every value and map.

use std::collections::BTreeMap;
use std::env::set_var;

use figment::error::{Actual, Kind};
use figment::providers::{Env, Format, Json, Serialized, Toml, Yaml, YamlExtended};
use figment::value::magic::Tagged;
use figment::value::{Dict, Map, Value};
use figment::{map, Error, Figment};
use serde::de::value::{BytesDeserializer, Error as VError, StrDeserializer, StringDeserializer, U8Deserializer,
    I64Deserializer, U64Deserializer, BoolDeserializer, CharDeserializer, F64Deserializer, UnitDeserializer};
use serde::{Deserialize, Serialize};

use crate::c01::odd_keys;
use crate::c13::clear;
use crate::c15::{written, Fmt};
use crate::dynde::{actual, int};
use crate::engine::*;
use crate::model::*;
use crate::{ensure, ensure_eq};

#[derive(Deserialize, Serialize, Debug, PartialEq, Clone, Copy)]
struct Flag(#[serde(deserialize_with = "figment::util::bool_from_str_or_int")] bool);

#[derive(Deserialize, Debug)]
struct Flags {
    #[serde(default, deserialize_with = "figment::util::bool_from_str_or_int")]
    k: bool,
    #[serde(default)]
    list: Vec<Flag>,
    #[serde(default)]
    map: BTreeMap<String, Flag>,
}

#[derive(Deserialize, Debug)]
struct One {
    #[serde(deserialize_with = "figment::util::bool_from_str_or_int")]
    k: bool,
}

/// What it is as a boolean, if it is one; `None` if it is not judged.
fn wanted(n: &N) -> Option<Option<bool>> {
    let word = |s: &str| match s {
        s if s.eq_ignore_ascii_case("true") => Some(true),
        s if s.eq_ignore_ascii_case("false") => Some(false),
        _ => None,
    };
    Some(match &n.v {
        M::S(Sc::Bool(b)) => Some(*b),
        M::S(Sc::Str(s)) => word(s),
        M::S(s) => match int(s) {
            Some((false, n @ 0..=1)) if matches!(s, Sc::U128(_) | Sc::I128(_)) => { let _ = n; return None }
            Some((false, n @ 0..=1)) => Some(n == 1),
            _ => None,
        },
        _ => None,
    })
}

fn judge(n: &N, got: Result<bool, Error>, path: &[&str]) -> R {
    let Some(want) = wanted(n) else { return Ok(()) };
    match (want, got) {
        (Some(w), Ok(g)) => ensure_eq!(g, w, "value", "{}", n.show()),
        (Some(w), Err(e)) => return fail("rejected", format!("{} is {w}, but: {e}", n.show())),
        (None, Ok(g)) => return fail("accepted", format!("{} is taken as {g}", n.show())),
        (None, Err(e)) => {
            let same = |a: &Actual| match (a, &actual(n)) {
                (Actual::Float(a), Actual::Float(b)) => a.to_bits() == b.to_bits(),
                (a, b) => a == b,
            };
            match &e.kind {
                Kind::InvalidType(a, _) | Kind::InvalidValue(a, _) =>
                    ensure!(same(a), "names", "{}: the error names {a:?}", n.show()),
                k => return fail("kind", format!("{}: {k:?}", n.show())),
            }
            ensure_eq!(e.path, path, "path", "the path of {e}");
            ensure!(e.metadata.is_some(), "metadata", "{e}: no metadata");
        }
    }
    Ok(())
}

/// Reads `f`, which has a flag at `k`, in every way.
fn read(cx: &mut Cx, f: &Figment) -> R {
    let v = f.find_value("k").map_err(|e| Stop::Fail { sig: "lost".into(), msg: e.to_string() })?;
    let n = N::of(&v, &nosrc);
    cx.op(|| n.show());
    cx.state(&n);
    cx.outcome(&wanted(&n));
    cx.checked(5);
    judge(&n, f.extract::<One>().map(|o| o.k), &["k"])?;
    judge(&n, f.extract::<Flags>().map(|o| { assert!(o.list.is_empty() && o.map.is_empty()); o.k }), &["k"])?;
    judge(&n, f.extract_inner::<Flag>("k").map(|o| o.0), &["k"])?;
    judge(&n, f.extract_inner::<Option<Flag>>("k").map(|o| o.map_or(false, |o| o.0)), &["k"])
        .or_else(|e| if matches!(n.v, M::S(Sc::None | Sc::Unit)) { Ok(()) } else { Err(e) })?;
    judge(&n, f.extract_inner::<Tagged<Flag>>("k").map(|o| o.into_inner().0), &["k"])?;
    // Lossily too; `None` there is no more a boolean.
    judge(&n, f.extract_lossy::<One>().map(|o| o.k), &["k"])?;
    judge(&n, f.extract_inner_lossy::<Flag>("k").map(|o| o.0), &["k"])?;
    if let Some(want) = wanted(&n) {
        let got = figment::util::bool_from_str_or_int(&v);
        ensure_eq!(got.as_ref().ok(), want.as_ref(), "direct", "{} directly", n.show());
        if let Some(w) = want { ensure_eq!(v.deserialize::<Flag>().ok(), Some(Flag(w)), "value", "{}", n.show()); }
    }
    Ok(())
}

/// Every way to write the letters of a word.
fn cases(word: &str) -> Vec<String> {
    (0..1 << word.len()).map(|m: u32| word.char_indices()
        .map(|(i, c)| if m >> i & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect()).collect()
}

fn scalars() -> Vec<Sc> {
    let mut v = vec![Sc::Bool(true), Sc::Bool(false), Sc::Unit, Sc::None];
    v.extend((0..=u8::MAX).map(Sc::U8));
    v.extend((i8::MIN..=i8::MAX).map(Sc::I8));
    for b in 0..=128u32 {
        for d in [-2i128, -1, 0, 1, 2] {
            for neg in [false, true] {
                let p = if b == 128 { 0 } else { 1u128 << b };
                let u = p.wrapping_add(d as u128);
                let i = if neg { (u as i128).wrapping_neg() } else { u as i128 };
                if let Ok(x) = u.try_into() { v.push(Sc::U16(x)); }
                if let Ok(x) = u.try_into() { v.push(Sc::U32(x)); }
                if let Ok(x) = u.try_into() { v.push(Sc::U64(x)); }
                if let Ok(x) = u.try_into() { v.push(Sc::Us(x)); }
                v.push(Sc::U128(u));
                if let Ok(x) = i.try_into() { v.push(Sc::I16(x)); }
                if let Ok(x) = i.try_into() { v.push(Sc::I32(x)); }
                if let Ok(x) = i.try_into() { v.push(Sc::I64(x)); }
                if let Ok(x) = i.try_into() { v.push(Sc::Is(x)); }
                v.push(Sc::I128(i));
            }
        }
    }
    v.extend(crate::c10::floats().into_iter().chain([0.0, -0.0, 1.0, 0.5, 2.0, f64::NAN]).flat_map(|f| [Sc::f64(f), Sc::f32(f as f32)]));
    v.extend((0..=255u8).map(|c| Sc::Char(c as char)));
    v.extend(['é', '１', '日', '\u{10ffff}'].map(Sc::Char));
    v.sort();
    v.dedup();
    v
}

/// Strings around those accepted.
fn near() -> Vec<String> {
    let mut v = vec![];
    for w in ["true", "false", "TRUE", "False", "0", "1", "yes", "no", "on", "off", "t", "f", "null", ""] {
        v.push(w.to_string());
        let chars: Vec<char> = w.chars().collect();
        for c in ['t', 'e', 'E', ' ', '\n', '\0', '"', '0', '1', '.', 'ſ', 'é', '\u{200b}', '-', '+', '\u{130}', '_'] {
            for i in 0..=chars.len() {
                let mut s = chars.clone();
                s.insert(i, c);
                v.push(s.iter().collect());
                if i < chars.len() {
                    let mut s = chars.clone();
                    s[i] = c;
                    v.push(s.iter().collect());
                    s.remove(i);
                    v.push(s.iter().collect());
                }
            }
        }
        v.push(w.repeat(2));
        v.push(w.repeat(100));
    }
    v.sort();
    v.dedup();
    v
}

fn one_value(n: &N) -> Figment { Figment::from(Serialized::default("k", n.value())) }

// Maps.

#[derive(Deserialize, Serialize, Debug, PartialEq, Clone)]
struct Pairs<K: for<'a> Deserialize<'a> + Serialize, V: for<'a> Deserialize<'a> + Serialize> {
    #[serde(with = "figment::util::vec_tuple_map")]
    pairs: Vec<(K, V)>,
}

#[derive(Deserialize, Serialize, Debug, PartialEq, Eq, Clone, PartialOrd, Ord)]
#[serde(transparent)]
struct Name(String);

#[derive(Deserialize, Serialize, Debug, PartialEq, Eq, Clone, Copy, PartialOrd, Ord)]
enum Key { A, B, #[serde(rename = "see d")] C }

/// The pairs of any map, in order of their keys.
fn sorted<K: Clone + Ord, V: Clone>(v: &[(K, V)]) -> Vec<(K, V)> {
    let mut v = v.to_vec();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    v
}

fn pairs_of(t: &Tree) -> Vec<(String, N)> { t.iter().map(|(k, n)| (k.clone(), n.bare())).collect() }

fn got_pairs(p: Pairs<String, Value>) -> Vec<(String, N)> {
    sorted(&p.pairs.into_iter().map(|(k, v)| (k, N::of(&v, &nosrc))).collect::<Vec<_>>())
}

fn ok<T>(r: Result<T, impl std::fmt::Display>, what: &str) -> R<T> {
    r.map_err(|e| Stop::Fail { sig: "error".into(), msg: format!("{what}: {e}") })
}

/// Reads the map at `pairs` of `f`, then turns it back.
fn there_and_back(cx: &mut Cx, f: &Figment) -> R {
    let v = ok(f.find_value("pairs"), "find")?;
    let n = N::of(&v, &nosrc);
    let t = n.dict().expect("a map");
    cx.op(|| show_tree(t));
    cx.state(&n);
    let want = pairs_of(t);
    let p: Pairs<String, Value> = ok(f.extract(), "extract")?;
    cx.checked(4);
    ensure_eq!(got_pairs(p.clone()), want, "pairs", "the pairs of {}", show_tree(t));
    let p2: Pairs<Name, Tagged<Value>> = ok(f.extract(), "extract")?;
    let p2 = p2.pairs.into_iter().map(|(k, v)| (k.0, N::of(&v, &nosrc))).collect::<Vec<_>>();
    ensure_eq!(sorted(&p2), want, "pairs", "the pairs of {}", show_tree(t));
    let direct: Vec<(String, Value)> = ok(figment::util::vec_tuple_map::deserialize(&v), "deserialize")?;
    ensure_eq!(got_pairs(Pairs { pairs: direct }), want, "direct", "the pairs of {}, directly", show_tree(t));
    // And back.
    let back = ok(Figment::from(Serialized::defaults(p.clone())).find_value("pairs"), "back")?;
    ensure_eq!(N::of(&back, &nosrc), n.bare(), "back", "the map of the pairs of {}", show_tree(t));
    let mut again = p;
    again.pairs.reverse();
    let back = ok(Value::serialize(&again), "serialize")?;
    ensure_eq!(back.find_ref("pairs").map(|v| N::of(v, &nosrc)), Some(n.bare()), "reversed",
        "the map of the reversed pairs of {}", show_tree(t));
    Ok(())
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut all = vec![];

    all.push(Scenario::new("scalars",
        "every value of 8 bits, every one within 2 of a power of two or its negation for each wider type, 200 floats, \
            256 characters, booleans and empties: as a field, element, entry, alone, optional, tagged, strictly and lossily",
        |cx| {
            let s = scalars();
            let s = cx.of(&s).clone();
            let n = N::sc(s);
            read(cx, &one_value(&n))?;
            let lists = N::d(vec![("list", N::a(vec![N::u(1), n.clone(), N::s("False")])), ("map", N::d(vec![("j", N::u(0)), ("k", n.clone())]))]);
            let f = Figment::from(Serialized::defaults(lists.value()));
            cx.checked(2);
            match (wanted(&n), f.extract::<Flags>()) {
                (None, _) => {}
                (Some(Some(w)), Ok(fl)) => {
                    ensure_eq!(fl.list, vec![Flag(true), Flag(w), Flag(false)], "list", "{}", n.show());
                    ensure_eq!(fl.map.into_iter().map(|(k, v)| (k, v.0)).collect::<Vec<_>>(),
                        vec![("j".to_string(), false), ("k".to_string(), w)], "map", "{}", n.show());
                }
                (Some(None), r) => judge(&n, r.map(|f| f.k), if r_path(&f) == 0 { &["list", "1"] } else { &["map", "k"] })?,
                (_, Err(e)) => return fail("rejected", format!("{}: {e}", n.show())),
            }
            Ok(())
        }));

    all.push(Scenario::new("composites",
        "arrays and maps of up to 2 elements that are booleans themselves: refused",
        |cx| {
            let leaf = [N::sc(Sc::Bool(true)), N::s("true"), N::u(1)];
            let n = cx.pick(3);
            let mut v = vec![];
            for _ in 0..n { v.push(cx.of(&leaf).clone()); }
            let n = match cx.flag() {
                true => N::a(v),
                false => N::d(["true", "k"].into_iter().zip(v).collect()),
            };
            read(cx, &one_value(&n))
        }));

    let max = tier.sel(6, 7);
    all.push(Scenario::new("strings",
        format!("every case of the two words, every string one edit from them and others, and every string of up to {max} \
            characters of `tTrRuUeE`, or of up to {} of `fFaAlLsSeE`", max - 1),
        move |cx| {
            let s: String = match cx.pick(4) {
                0 => { let c = cases("true"); cx.of(&c).clone() }
                1 => { let c = cases("false"); cx.of(&c).clone() }
                2 => { let c = near(); cx.of(&c).clone() }
                _ => {
                    let (chars, n) = if cx.flag() { ("tTrRuUeE", max) } else { ("fFaAlLsSeE", max - 1) };
                    let chars: Vec<char> = chars.chars().collect();
                    let n = cx.pick(n + 1);
                    (0..n).map(|_| *cx.of(&chars)).collect()
                }
            };
            read(cx, &one_value(&N::s(&s)))
        }));

    all.push(Scenario::new("sources",
        "every scalar without a type beyond JSON's, and every such string, from each of 9 kinds of source",
        |cx| {
            let words = ["true", "false", "TRUE", "fAlSe", "0", "1", "2", "-1", "00", "01", "+1", "1.0", "0.0", "1e0", "0x1", "\"1\"",
                "\"true\"", "\"False\"", "\"0\"", "'true'", "yes", "on", "", "null", "~", "[]", "[true]", "{}", "[1]", "-0", "18446744073709551616",
                "4294967296", "4294967297", "256", "257", "18446744073709551615", "9223372036854775808", "-9223372036854775808"];
            let kind = cx.pick(9);
            let w = *cx.of(&words);
            clear();
            set_var("APP_K", w);
            let quoted = format!("{w:?}");
            let f = match kind {
                0 => Figment::from(Toml::string(&format!("k = {w}"))),
                1 => Figment::from(Json::string(&format!("{{\"k\": {w}}}"))),
                2 => Figment::from(Yaml::string(&format!("k: {w}\n"))),
                3 => Figment::from(YamlExtended::string(&format!("k: {w}\n"))),
                4 => Figment::from(Env::prefixed("APP_")),
                5 => Figment::from(Json::string(&format!("{{\"k\": {quoted}}}"))),
                6 => Figment::from(Toml::string(&format!("k = {quoted}"))),
                7 => Figment::from(("k", w)),
                _ => Figment::from(Serialized::default("k", w)),
            };
            clear();
            // Not in every format.
            if f.find_value("k").is_err() && kind < 4 { return Err(Stop::Skip); }
            if matches!((kind, f.find_value("k")), (2 | 3, Ok(v)) if matches!(N::of(&v, &nosrc).v, M::S(Sc::None | Sc::Unit))) { return Err(Stop::Skip); }
            read(cx, &f)
        }));

    all.push(Scenario::new("deserializers",
        "scalars and strings through serde's own deserializers and JSON's",
        |cx| {
            use serde::de::IntoDeserializer;
            use figment::util::bool_from_str_or_int as b;
            let v = near();
            let kind = cx.pick(11);
            let (want, got): (Option<bool>, Option<bool>) = match kind {
                0..=3 => {
                    let c = [v, cases("true"), cases("false")].concat();
                    let s = cx.of(&c).clone();
                    cx.op(|| s.clone());
                    let d: StrDeserializer<VError> = (&*s).into_deserializer();
                    let e: StringDeserializer<VError> = s.clone().into_deserializer();
                    let got = match kind {
                        0 => b(d).ok(),
                        1 => b(e).ok(),
                        2 => b(&mut serde_json::Deserializer::from_str(&serde_json::to_string(&s).unwrap())).ok(),
                        _ => b(&serde_json::Value::from(&*s)).ok(),
                    };
                    (wanted(&N::s(&s)).unwrap(), got)
                }
                4 => { let n = cx.pick(256) as u8; let d: U8Deserializer<VError> = n.into_deserializer(); (wanted(&N::sc(Sc::U8(n))).unwrap(), b(d).ok()) }
                5 => {
                    let n = *cx.of(&[0, 1, 2, -1, i64::MIN, i64::MAX, 256, 257, 1 << 32]);
                    let d: I64Deserializer<VError> = n.into_deserializer();
                    (wanted(&N::sc(Sc::I64(n))).unwrap(), b(d).ok())
                }
                6 => {
                    let n = *cx.of(&[0, 1, 2, u64::MAX, 1 << 63, 256, 257, 1 << 32, (1 << 32) + 1]);
                    let d: U64Deserializer<VError> = n.into_deserializer();
                    (wanted(&N::sc(Sc::U64(n))).unwrap(), b(d).ok())
                }
                7 => { let x = cx.flag(); let d: BoolDeserializer<VError> = x.into_deserializer(); (Some(x), b(d).ok()) }
                8 => { let c = cx.pick(256) as u8 as char; let d: CharDeserializer<VError> = c.into_deserializer(); (None, b(d).ok()) }
                9 => { let x = *cx.of(&[0.0, 1.0, -0.0, 0.5]); let d: F64Deserializer<VError> = x.into_deserializer(); (None, b(d).ok()) }
                _ => match cx.pick(3) {
                    0 => { let d: UnitDeserializer<VError> = ().into_deserializer(); (None, b(d).ok()) }
                    1 => { let d: BytesDeserializer<VError> = BytesDeserializer::new(b"xtrue"); (None, b(d).ok()) }
                    _ => (None, b(&mut serde_json::Deserializer::from_str("[true]")).ok()),
                }
            };
            cx.checked(1);
            cx.outcome(&want);
            ensure_eq!(got, want, "deserializer", "kind {kind}");
            Ok(())
        }));

    let max = tier.sel(3, 5);
    all.push(Scenario::new("maps",
        format!("every map of up to {max} of 26 unusual keys, with values of 6 shapes, as pairs and back"),
        move |cx| {
            let keys = odd_keys();
            let vals = [N::u(1), N::s("v"), N::sc(Sc::None), N::a(vec![N::u(1), N::d(vec![("a", N::u(2))])]), N::d(vec![]),
                N::d(vec![("k", N::u(1)), ("", N::s("2"))])];
            let n = cx.pick(max + 1);
            let mut t = Tree::new();
            let (mut from, first) = (0, cx.pick(vals.len()));
            for i in 0..n {
                if from >= keys.len() { return Err(Stop::Skip); }
                from += cx.pick(keys.len() - from);
                t.insert(keys[from].clone(), vals[(first + i) % vals.len()].clone());
                from += 1;
            }
            let f = Figment::from(Serialized::defaults(N::d(vec![("pairs", root(t))]).value()));
            there_and_back(cx, &f)
        }));

    all.push(Scenario::new("sizes",
        "maps of up to 5000 entries, as pairs and back, through the figment's values and JSON text",
        |cx| {
            let n = *cx.of(&[0usize, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 5000]);
            let way = cx.pick(2);
            let name = |i: usize| if way == 0 { format!("k{i:05}") } else { format!("{:x}", i.wrapping_mul(0x9e3779b97f4a7c15)) };
            let t: Tree = (0..n).map(|i| (name(i), N::sc(Sc::U64(i as u64)))).collect();
            let f = Figment::from(Serialized::defaults(N::d(vec![("pairs", root(t.clone()))]).value()));
            there_and_back(cx, &f)?;
            let p: Pairs<String, u64> = ok(f.extract(), "extract")?;
            let want: Vec<(String, u64)> = (0..n).map(|i| (name(i), i as u64)).collect();
            ensure_eq!(sorted(&p.pairs), sorted(&want), "pairs", "{n} pairs");
            let text = ok(serde_json::to_string(&p), "json")?;
            let m: BTreeMap<String, BTreeMap<String, u64>> = ok(serde_json::from_str(&text), "json")?;
            ensure_eq!(m["pairs"], want.iter().cloned().collect(), "json", "{n} pairs");
            let back: Pairs<String, u64> = ok(serde_json::from_str(&text), "json")?;
            ensure_eq!(sorted(&back.pairs), sorted(&want), "json-pairs", "{n} pairs");
            cx.checked(3);
            Ok(())
        }));

    all.push(Scenario::new("layers",
        "maps from 2 of 5 formats with 0 to 3 entries each that overlap in part, combined by any operation: pairs of the \
            combined map, then through a second configuration",
        |cx| {
            let trees: Vec<Tree> = (0..8u8).map(|m| ["a", "b", "c"].iter().enumerate().filter(|(i, _)| m >> i & 1 == 1)
                .map(|(i, k)| (k.to_string(), if i == 1 { N::d(vec![("x", N::u(m)), (["y", "z"][m as usize % 2], N::s("s"))]) } else { N::u(m) }))
                .collect()).collect();
            let mut f = Figment::new();
            let op = *cx.of(&[Op::Join, Op::Merge, Op::Adjoin, Op::Admerge]);
            for _ in 0..2 {
                let t = cx.of(&trees).clone();
                let doc = [("pairs".to_string(), root(t))].into_iter().collect::<Tree>();
                let forms = written(&doc);
                let (fmt, text) = cx.of(&forms).clone();
                f = match fmt {
                    Fmt::Toml => op.apply(f, Toml::string(&text)),
                    Fmt::Json => op.apply(f, Json::string(&text)),
                    Fmt::Yaml => op.apply(f, Yaml::string(&text)),
                    Fmt::Ext => op.apply(f, YamlExtended::string(&text)),
                };
            }
            if f.find_value("pairs").is_err() { return Err(Stop::Skip); }
            there_and_back(cx, &f)?;
            let p: Pairs<String, Value> = ok(f.extract(), "extract")?;
            there_and_back(cx, &Figment::new().merge(Serialized::globals(p)))
        }));

    all.push(Scenario::new("typed",
        "maps of every subset of 3 keys by enum keys, nested pairs, and tuples; from environment variables; wrong keys and \
            values and non-maps: refused, at the entry that is wrong",
        |cx| {
            let keys = [("A", Key::A), ("B", Key::B), ("see d", Key::C)];
            let mask = cx.pick(8);
            let chosen: Vec<(&str, Key)> = keys.into_iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, k)| k).collect();
            let of = |v: &dyn Fn(usize) -> N| -> Figment {
                let d: Tree = chosen.iter().enumerate().map(|(i, (k, _))| (k.to_string(), v(i))).collect();
                Figment::from(Serialized::defaults(N::d(vec![("pairs", root(d))]).value()))
            };
            let kind = cx.pick(7);
            cx.op(|| format!("{kind}: {chosen:?}"));
            cx.state(&(kind, mask));
            cx.checked(1);
            match kind {
                0 => {
                    let f = of(&|i| N::u(i as u8));
                    let p: Pairs<Key, u8> = ok(f.extract(), "enum keys")?;
                    let want: Vec<(Key, u8)> = chosen.iter().enumerate().map(|(i, (_, k))| (*k, i as u8)).collect();
                    ensure_eq!(sorted(&p.pairs), sorted(&want), "enum", "the pairs");
                    let v = ok(Value::serialize(&p), "serialize")?;
                    ensure_eq!(v.find_ref("pairs").map(|v| N::of(v, &nosrc)), f.find_value("pairs").ok().map(|v| N::of(&v, &nosrc)),
                        "enum-back", "the map");
                }
                1 => {
                    #[derive(Deserialize, Serialize, Debug, PartialEq, Clone, Default)]
                    struct Inner {
                        #[serde(with = "figment::util::vec_tuple_map", default)]
                        pairs: Vec<(String, (u8, String))>,
                        #[serde(deserialize_with = "figment::util::bool_from_str_or_int")]
                        flag: bool,
                    }
                    let f = of(&|i| N::d(vec![("flag", N::u((i % 2) as u8)), ("pairs",
                        N::d(["x", "y"][..i % 3].iter().map(|k| (*k, N::a(vec![N::u(i as u8), N::s(k)]))).collect()))]));
                    let p: Pairs<Key, Inner> = ok(f.extract(), "nested")?;
                    let want: Vec<(Key, Inner)> = chosen.iter().enumerate().map(|(i, (_, k))| (*k, Inner {
                        flag: i % 2 == 1,
                        pairs: ["x", "y"][..i % 3].iter().map(|k| (k.to_string(), (i as u8, k.to_string()))).collect(),
                    })).collect();
                    let key = |p: &[(Key, Inner)]| sorted(&p.iter().cloned().map(|(k, mut i)| { i.pairs.sort(); (k, i) }).collect::<Vec<_>>());
                    ensure_eq!(key(&p.pairs), key(&want), "nested", "the pairs");
                    let again: Pairs<Key, Inner> = ok(Figment::from(Serialized::defaults(&p)).extract(), "again")?;
                    ensure_eq!(key(&again.pairs), key(&want), "again", "the pairs");
                }
                2 => {
                    clear();
                    for (i, (k, _)) in chosen.iter().enumerate() { set_var(format!("APP_PAIRS.{}", k.replace(' ', "_")), format!("v{i}")); }
                    let r = Figment::from(Env::prefixed("APP_")).extract::<Pairs<String, String>>();
                    clear();
                    if chosen.is_empty() {
                        ensure!(r.is_err(), "absent", "no map is a map");
                    } else {
                        let want: Vec<(String, String)> = chosen.iter().enumerate()
                            .map(|(i, (k, _))| (k.replace(' ', "_").to_lowercase(), format!("v{i}"))).collect();
                        ensure_eq!(sorted(&ok(r, "env")?.pairs), sorted(&want), "env", "the pairs");
                    }
                }
                3 => {
                    // One wrong value.
                    if chosen.is_empty() { return Err(Stop::Skip); }
                    let at = cx.pick(chosen.len());
                    let f = of(&|i| if i == at { N::s("no") } else { N::u(1) });
                    let Err(e) = f.extract::<Pairs<String, u8>>() else { return fail("accepted", "a wrong value") };
                    ensure_eq!(e.path, ["pairs", chosen[at].0], "path", "the path of {e}");
                    ensure_eq!(e.kind, Kind::InvalidType(Actual::Str("no".into()), "u8".into()), "kind", "{e}");
                }
                4 => {
                    // A key that is wrong.
                    let extra = of(&|_| N::u(1)).merge(("pairs.other", 1));
                    let r = extra.extract::<Pairs<Key, u8>>();
                    ensure!(r.is_err(), "accepted", "a wrong key: {r:?}");
                }
                5 => {
                    let wrong = [N::a(vec![]), N::a(vec![N::a(vec![N::s("k"), N::u(1)])]), N::s(""), N::u(0), N::sc(Sc::Bool(false)), N::sc(Sc::f64(1.0))];
                    for n in &wrong {
                        let f = Figment::from(Serialized::defaults(N::d(vec![("pairs", n.clone())]).value()));
                        let Err(e) = f.extract::<Pairs<String, u8>>() else { return fail("accepted", n.show()) };
                        ensure_eq!(e.path, ["pairs"], "path", "the path of {e}");
                        match &e.kind {
                            Kind::InvalidType(a, _) => ensure_eq!(a, &actual(n), "names", "{e}"),
                            k => return fail("kind", format!("{k:?}")),
                        }
                    }
                }
                _ => {
                    // The macro makes the same map.
                    let m: Map<&str, usize> = map!["A" => 0, "B" => 1, "see d" => 2];
                    let m: BTreeMap<String, usize> = m.into_iter().filter(|(k, _)| chosen.iter().any(|c| c.0 == *k)).map(|(k, v)| (k.into(), v)).collect();
                    let p: Pairs<String, usize> = ok(Figment::from(("pairs", &m)).extract(), "macro")?;
                    ensure_eq!(p.pairs.into_iter().collect::<BTreeMap<_, _>>(), m, "macro", "the pairs");
                    let last: Map<u8, &str> = map! { 1 => "a", 2 => "b", 1 => "c", };
                    ensure_eq!(last.into_iter().collect::<Vec<_>>(), vec![(1, "c"), (2, "b")], "macro", "a repeated key");
                    let none: Dict = map!();
                    ensure!(none.is_empty(), "macro", "an empty map");
                }
            }
            Ok(())
        }));

    all
}

/// Where the first error is: in the list or in the map.
fn r_path(f: &Figment) -> usize {
    match f.extract::<Flags>() {
        Err(e) if e.path.first().map_or(false, |p| p == "list") => 0,
        _ => 1,
    }
}
