//! Serialized values extract back unchanged.

use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::fmt::Debug;
use std::rc::Rc;

use figment::error::Error;
use figment::providers::Serialized;
use figment::value::Value;
use figment::{Figment, Provider};
use serde::{de::DeserializeOwned, Deserialize, Serialize};

use crate::c01::odd_keys;
use crate::c05::types;
use crate::dynde::*;
use crate::engine::*;
use crate::model::*;
use crate::{ensure, ensure_eq};

fn ints() -> Vec<Ty> {
    vec![Ty::U8, Ty::U16, Ty::U32, Ty::U64, Ty::U128, Ty::Usize, Ty::I8, Ty::I16, Ty::I32, Ty::I64,
        Ty::I128, Ty::Isize]
}

fn all_leaves() -> Vec<Ty> {
    let mut v = ints();
    v.extend([Ty::Bool, Ty::F32, Ty::F64, Ty::Char, Ty::Str, Ty::Unit, Ty::UnitStruct,
        Ty::Enum(vec![Var::Unit, Var::Unit])]);
    v
}

/// Some values of a type without parts.
pub fn leaf_values(ty: &Ty) -> Vec<Sc> {
    macro_rules! i { ($V:ident, $T:ty) => {
        vec![Sc::$V(1), Sc::$V(0), Sc::$V(<$T>::MAX), Sc::$V(<$T>::MIN), Sc::$V(<$T>::MAX / 2)]
    } }
    match ty {
        Ty::Bool => vec![Sc::Bool(true), Sc::Bool(false)],
        Ty::U8 => i!(U8, u8), Ty::U16 => i!(U16, u16), Ty::U32 => i!(U32, u32), Ty::U64 => i!(U64, u64),
        Ty::U128 => i!(U128, u128), Ty::Usize => i!(Us, usize),
        Ty::I8 => i!(I8, i8), Ty::I16 => i!(I16, i16), Ty::I32 => i!(I32, i32), Ty::I64 => i!(I64, i64),
        Ty::I128 => i!(I128, i128), Ty::Isize => i!(Is, isize),
        Ty::F32 => [0.5, 1.0, -0.0, 0.1, f32::MAX, f32::MIN_POSITIVE, f32::INFINITY, f32::NAN].map(Sc::f32).to_vec(),
        Ty::F64 => [0.5, 1.0, -0.0, 0.1, f64::MAX, f64::MIN_POSITIVE, f64::NEG_INFINITY, f64::NAN, 9007199254740993.0]
            .map(Sc::f64).to_vec(),
        Ty::Char => ['a', '1', '\0', 'é', '日', '𝄞', '"'].map(Sc::Char).to_vec(),
        Ty::Str => ["s", "", "1", "true", "0.5", " s ", "é\n", "日本", "\"q\"", "[1]", "Va", "\0"]
            .map(|s| Sc::Str(s.into())).to_vec(),
        Ty::Unit | Ty::UnitStruct => vec![Sc::Unit],
        _ => unreachable!(),
    }
}

/// Any value of the type; all but the first few parts are of one value.
fn any(cx: &mut Cx, ty: &Ty, vary: bool) -> Out {
    let all = |cx: &mut Cx, ts: &[Rc<Ty>]| -> Vec<Out> { ts.iter().map(|t| any(cx, t, vary)).collect() };
    match ty {
        Ty::Opt(t) => match if vary { cx.flag() } else { true } {
            false => Out::None,
            true => Out::Some(Box::new(any(cx, t, vary))),
        },
        Ty::Seq(t) => {
            let n = if vary { cx.pick(4) } else { 2 };
            Out::Seq((0..n).map(|i| any(cx, t, vary && i < 1)).collect())
        }
        Ty::Tup(ts) | Ty::TupStruct(ts) => Out::Seq(all(cx, ts)),
        Ty::Struct(_, ts) => Out::Struct(all(cx, ts)),
        Ty::Map(chars, t) => {
            let sets: &[&[&str]] = match chars {
                true => &[&["a", "é"], &[], &["0"]],
                false => &[&["k", "l.m"], &[], &[""], &["Va", "a", "0"]],
            };
            let keys = if vary { *cx.of(sets) } else { sets[0] };
            Out::Map(keys.iter().enumerate().map(|(i, k)| (k.to_string(), any(cx, t, vary && i < 1))).collect())
        }
        Ty::Newtype(t) => Out::Newtype(Box::new(any(cx, t, vary))),
        Ty::Enum(vs) => {
            let i = if vary { cx.pick(vs.len()) } else { 0 };
            Out::Var(i, match &vs[i] {
                Var::Unit => vec![],
                Var::Newtype(t) => vec![any(cx, t, vary)],
                Var::Tup(ts) | Var::Struct(ts) => all(cx, ts),
            })
        }
        ty => {
            let v = leaf_values(ty);
            Out::S(if vary { cx.of(&v).clone() } else { v[0].clone() })
        }
    }
}

/// What a value is when serialized.
pub fn form(ty: &Ty, o: &Out) -> N {
    let list = |ts: &[Rc<Ty>], v: &[Out]| N::a(ts.iter().zip(v).map(|(t, o)| form(t, o)).collect());
    let dict = |ts: &[Rc<Ty>], v: &[Out]| {
        N::d(ts.iter().zip(v).enumerate().map(|(i, (t, o))| (FIELDS[i], form(t, o))).collect())
    };
    match (ty, o) {
        (Ty::Opt(_), Out::None) => N::sc(Sc::None),
        (Ty::Opt(t), Out::Some(o)) | (Ty::Newtype(t), Out::Newtype(o)) => form(t, o),
        (Ty::Seq(t), Out::Seq(v)) => N::a(v.iter().map(|o| form(t, o)).collect()),
        (Ty::Tup(ts) | Ty::TupStruct(ts), Out::Seq(v)) => list(ts, v),
        (Ty::Struct(_, ts), Out::Struct(v)) => dict(ts, v),
        (Ty::Map(_, t), Out::Map(m)) => root(m.iter().map(|(k, o)| (k.clone(), form(t, o))).collect()),
        (Ty::Enum(vs), Out::Var(i, v)) => match &vs[*i] {
            Var::Unit => N::s(VARIANTS[*i]),
            Var::Newtype(t) => N::d(vec![(VARIANTS[*i], form(t, &v[0]))]),
            Var::Tup(ts) => N::d(vec![(VARIANTS[*i], list(ts, v))]),
            Var::Struct(ts) => N::d(vec![(VARIANTS[*i], dict(ts, v))]),
        },
        // There are no numbers of these widths in serde.
        (_, Out::S(Sc::Us(v))) => N::sc(Sc::U64(*v as u64)),
        (_, Out::S(Sc::Is(v))) => N::sc(Sc::I64(*v as i64)),
        (_, Out::S(s)) => N::sc(s.clone()),
        _ => unreachable!("{ty} {o:?}"),
    }
}

/// The value as extracted: present options with empty contents are absent.
fn normal(ty: &Ty, o: &Out) -> Out {
    let all = |ts: &[Rc<Ty>], v: &[Out]| -> Vec<Out> { ts.iter().zip(v).map(|(t, o)| normal(t, o)).collect() };
    match (ty, o) {
        (Ty::Opt(t), Out::Some(o)) => match form(t, o).v {
            M::S(Sc::None) | M::S(Sc::Unit) => Out::None,
            _ => Out::Some(Box::new(normal(t, o))),
        },
        (Ty::Newtype(t), Out::Newtype(o)) => Out::Newtype(Box::new(normal(t, o))),
        (Ty::Seq(t), Out::Seq(v)) => Out::Seq(v.iter().map(|o| normal(t, o)).collect()),
        (Ty::Tup(ts) | Ty::TupStruct(ts), Out::Seq(v)) => Out::Seq(all(ts, v)),
        (Ty::Struct(_, ts), Out::Struct(v)) => Out::Struct(all(ts, v)),
        (Ty::Map(_, t), Out::Map(m)) => Out::Map(m.iter().map(|(k, o)| (k.clone(), normal(t, o))).collect()),
        (Ty::Enum(vs), Out::Var(i, v)) => Out::Var(*i, match &vs[*i] {
            Var::Unit => vec![],
            Var::Newtype(t) => vec![normal(t, &v[0])],
            Var::Tup(ts) | Var::Struct(ts) => all(ts, v),
        }),
        (_, o) => o.clone(),
    }
}

fn has_tagged(ty: &Ty) -> bool { format!("{ty}").contains("Tagged") }

fn err(sig: &str, what: &str) -> impl Fn(Error) -> Stop {
    let (sig, what) = (sig.to_string(), what.to_string());
    move |e| Stop::Fail { sig: sig.clone(), msg: format!("{what}: {e} at {:?}", e.path) }
}

/// Checks a value of a type in every way of putting it in and getting it back.
fn round_trip(cx: &mut Cx, ty: &Ty, o: &Out) -> R {
    cx.op(|| format!("{ty}: {o:?}"));
    cx.state(&(ty, format!("{o:?}")));
    let n = form(ty, o);
    let want = normal(ty, o);
    let ty = rc(ty.clone());
    cx.outcome(&n);

    // As a dynamic value.
    let v = Value::serialize(Ser(&ty, o)).map_err(err("serialize", "serialize"))?;
    cx.checked(3);
    ensure_eq!(N::of(&v, &nosrc), n, "form", "serialized");
    let back = with(&ty, None, || v.deserialize::<Dyn>()).map_err(err("value", "from dynamic"))?.0;
    ensure_eq!(back, want, "value", "from dynamic");
    let again = Value::serialize(&v).map_err(err("reserialize", "reserialize"))?;
    ensure_eq!(N::of(&again, &nosrc), n, "reserialize", "dynamic value serialized");
    let dynamic: Value = v.deserialize().map_err(err("dynamic", "as dynamic"))?;
    ensure_eq!(N::of(&dynamic, &nosrc), n, "dynamic", "dynamic value extracted as dynamic");

    // In a configuration, at keys.
    let ways: [(&str, Figment); 6] = [
        ("k", Figment::new().merge(Serialized::default("k", Ser(&ty, o)))),
        ("k.l.m", Figment::new().merge(Serialized::global("k.l.m", Ser(&ty, o)))),
        ("k", Figment::new().join(Serialized::from(Ser(&ty, o), "p").key("k")).select("P")),
        ("k.l", Figment::new().admerge(("k.l", Ser(&ty, o)))),
        ("k", Figment::new().merge(Serialized::defaults(BTreeMap::from([("k", Ser(&ty, o))])))),
        ("k", Figment::new().adjoin(Serialized::default("k", &v))),
    ];
    for (i, (key, f)) in ways.iter().enumerate() {
        for lossy in [false, true] {
            let got = crate::c05::extract(f, &ty, lossy, Some(key));
            cx.checked(1);
            match got {
                Ok(got) => ensure_eq!(got, want, "extract", "way {i}, at {key}, lossy {lossy}"),
                Err(e) => return fail("extract", format!("way {i}, at {key}, lossy {lossy}: {e}")),
            }
        }
        // All of it.
        let mut whole = (*ty).clone();
        let mut all = want.clone();
        for k in key.rsplit('.') {
            whole = map(whole);
            all = Out::Map([(k.to_string(), all)].into_iter().collect());
        }
        let got = crate::c05::extract(f, &rc(whole), false, None).map_err(err("whole", "whole"))?;
        ensure_eq!(got, all, "whole", "way {i}, whole");
        // As a dynamic value, into another configuration.
        let v: Value = f.extract_inner(key).map_err(err("dynamic", "dynamic"))?;
        ensure_eq!(N::of(&v, &nosrc), n, "dynamic", "way {i}, dynamic");
        let back = with(&ty, None, || v.deserialize::<Dyn>()).map_err(err("value", "dynamic"))?.0;
        ensure_eq!(back, want, "value", "way {i}, from dynamic");
        let g = Figment::new().merge(("x", &v));
        let v: Value = g.extract_inner("x").map_err(err("dynamic", "dynamic"))?;
        ensure_eq!(N::of(&v, &nosrc), n, "dynamic", "way {i}, dynamic in another");
    }

    // As the root.
    let at_root = Serialized::defaults(Ser(&ty, o));
    match n.dict() {
        Some(_) => {
            let f = Figment::from(at_root);
            let got = crate::c05::extract(&f, &ty, false, None).map_err(err("root", "root"))?;
            ensure_eq!(got, want, "root", "as the root");
        }
        None => ensure!(at_root.data().is_err(), "root", "accepted as the root"),
    }
    Ok(())
}

fn derived<T: Serialize + DeserializeOwned + PartialEq + Debug>(cx: &mut Cx, all: Vec<T>) -> R {
    let n = all.len();
    let i = cx.pick(n);
    let t = &all[i];
    cx.op(|| format!("{}: {t:?}", std::any::type_name::<T>()));
    cx.state(&(std::any::type_name::<T>(), i));
    let v = Value::serialize(t).map_err(err("serialize", "serialize"))?;
    cx.outcome(&N::of(&v, &nosrc));
    let back: T = v.deserialize().map_err(err("value", "from dynamic"))?;
    ensure_eq!(&back, t, "value", "from dynamic");
    for (i, (key, f)) in [
        ("k", Figment::new().merge(Serialized::default("k", t))),
        ("k.l", Figment::new().merge(("k.l", t))),
        ("k", Figment::new().merge(Serialized::from(BTreeMap::from([("k", t)]), "p")).select("p")),
        ("k", Figment::new().merge(Serialized::defaults(&Value::from(BTreeMap::from([("k", v.clone())]))))),
    ].into_iter().enumerate() {
        cx.checked(2);
        let got: T = f.extract_inner(key).map_err(err("extract", &format!("way {i}")))?;
        ensure_eq!(&got, t, "extract", "way {i}");
        let got: T = f.extract_inner_lossy(key).map_err(err("lossy", &format!("way {i}")))?;
        ensure_eq!(&got, t, "lossy", "way {i}");
        if key == "k" {
            let got: BTreeMap<String, T> = f.extract().map_err(err("whole", &format!("way {i}")))?;
            ensure_eq!(&got["k"], t, "whole", "way {i}");
        }
    }
    Ok(())
}

#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
struct Unit;
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Serialize, Deserialize)]
struct New<T>(T);
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
struct Pair<A, B>(A, B);
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
#[serde(rename_all = "kebab-case")]
struct Renamed { first_field: u8, #[serde(rename = "T Y P E")] second: String, #[serde(skip)] skipped: u8,
    #[serde(default)] third: Option<Vec<i64>>, #[serde(skip_serializing_if = "Vec::is_empty", default)] fourth: Vec<bool> }
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
enum Ext { A, B(u8), C(u8, String), D { x: i64, y: Option<bool> }, E(Box<Ext>), F(Option<u8>), G(()), H(Vec<Ext>), I {} }
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
#[serde(tag = "type")]
enum Int { A, B { x: i64, s: String }, C(Inner) }
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
#[serde(tag = "t", content = "c")]
enum Adj { A, B(u8), C(u8, String), D { x: i64, y: f64 } }
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
#[serde(untagged)]
enum Unt { N(i64), S(String), L(Vec<u8>), M { x: bool } }
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
struct Inner { a: u8, b: Option<String> }
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
struct Flat { z: u8, #[serde(flatten)] inner: Inner, #[serde(flatten)] rest: BTreeMap<String, i64> }
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
#[serde(default, deny_unknown_fields)]
struct Denied { a: u8, b: String, c: Vec<Inner>, d: (u8, char), e: [i16; 3] }
impl Default for Denied {
    fn default() -> Self { Denied { a: 3, b: "x".into(), c: vec![], d: (1, 'c'), e: [1, 2, 3] } }
}
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize, PartialOrd, Ord, Eq, Hash)]
enum Key { Alpha, Beta }

#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)] struct NoFields {}
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)] struct NoElements();
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)] struct TupleSkip(u8, #[serde(skip)] u8);
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)] struct TupleSkips(#[serde(skip)] u8, u8, #[serde(skip)] u8);
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)] struct TupleSkip2(u8, #[serde(skip)] u8, String);
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)] struct OneField { #[serde(skip_serializing_if = "Option::is_none")] a: Option<u8> }
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)] #[serde(transparent)] struct Clear { only: Option<u8> }
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)] #[serde(from = "(u8, String)", into = "(u8, String)")] struct Converted(u16);
impl From<(u8, String)> for Converted { fn from(v: (u8, String)) -> Self { Converted(v.0 as u16) } }
impl From<Converted> for (u8, String) { fn from(v: Converted) -> Self { (v.0 as u8, "x".into()) } }
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)] #[serde(tag = "type")] struct TaggedStruct { a: u8, inner: Inner }
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)] struct FlatOption { #[serde(flatten)] a: Option<Inner>, z: u8 }
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)] struct FlatEnum { #[serde(flatten)] e: Styles, z: u8 }
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)] struct FlatAdj { #[serde(flatten)] e: Adj, z: u8 }
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)] #[serde(rename_all = "kebab-case", rename_all_fields = "SCREAMING_SNAKE_CASE")]
enum Styles { FirstOne, SecondOne { in_ner: u8 }, Third(Vec<Styles>), #[serde(rename = "4", alias = "four")] Fourth(u8, i8) }
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)] #[serde(tag = "a b")] enum TagNew { A(BTreeMap<String, u8>), B(Inner), C {} }
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)] #[serde(untagged)] enum UntNew { P(Pair<u8, u8>), V(Vec<New<String>>), O(OneField), U }
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
enum Few { Unit, None(), Empty {}, Skip(u8, #[serde(skip)] u8), SkipField { a: u8, #[serde(skip)] b: u8 }, AllSkipped { #[serde(skip)] b: u8 },
    NewSkipped(#[serde(skip)] u8), IfSome { #[serde(skip_serializing_if = "Option::is_none")] a: Option<u8> }, One((u8,)), Arr([u8; 1]), Nested(Box<Few>) }

/// Asks `C` times whether the format is human-readable before it delegates.
#[derive(Debug, PartialEq, Clone, Serialize)]
#[serde(transparent)]
struct Asks<const C: usize, T>(T);
impl<'de, const C: usize, T: Deserialize<'de>> Deserialize<'de> for Asks<C, T> {
    fn deserialize<D: serde::Deserializer<'de>>(de: D) -> Result<Self, D::Error> {
        for _ in 0..C {
            if !de.is_human_readable() { return Err(serde::de::Error::custom("not readable")); }
        }
        T::deserialize(de).map(Asks)
    }
}

fn exts() -> Vec<Ext> {
    let mut v = vec![Ext::A, Ext::B(0), Ext::C(255, "é".into()), Ext::D { x: i64::MIN, y: None },
        Ext::D { x: 0, y: Some(false) }, Ext::F(None), Ext::F(Some(1)), Ext::G(()), Ext::H(vec![]), Ext::I {}];
    v.extend(v.clone().into_iter().map(|e| Ext::E(Box::new(e))));
    v.push(Ext::H(v.clone()));
    v
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![];

    v.push(Scenario::new(
        "leaves",
        "all 20 types without parts, bare or in one of 14 wrappings; all values from a list per type, \
         up to 3 elements; 6 ways in, 6 ways out",
        |cx| {
            let ty = types(cx, 1, &all_leaves());
            if has_tagged(&ty) { return Err(Stop::Skip); }
            let o = any(cx, &ty, true);
            round_trip(cx, &ty, &o)
        }
    ));

    let depth = tier.sel(2, 3);
    let l: Vec<Ty> = tier.sel(
        vec![Ty::U8, Ty::Str, Ty::Unit, Ty::Char],
        vec![Ty::U8, Ty::Unit, Ty::Enum(vec![Var::Unit, Var::Unit])]
    );
    v.push(Scenario::new(
        "nested",
        format!("types nested in up to {depth} of 14 wrappings (optionals, sequences, tuples, maps, structs, \
            newtypes, enum variants of all kinds), with up to 3 elements"),
        move |cx| {
            let ty = types(cx, depth, &l);
            if has_tagged(&ty) { return Err(Stop::Skip); }
            let o = any_short(cx, &ty);
            round_trip(cx, &ty, &o)
        }
    ));

    v.push(Scenario::new(
        "derived",
        "a list of values of each of 48 derived or standard types",
        |cx| {
            use std::num::*;
            let strs = ["", "a", "1", "true", "é\n\"", "'c'", "[1]", "日本"];
            let strings = || strs.iter().map(|s| s.to_string()).collect::<Vec<_>>();
            let inner = |b: Option<&str>| Inner { a: 1, b: b.map(|s| s.into()) };
            let ips = ["127.0.0.1", "::1"].map(|s| s.parse::<std::net::IpAddr>().unwrap());
            match cx.pick(48) {
                36 => derived(cx, ips.map(Asks::<0, _>).to_vec()),
                37 => derived(cx, ips.map(Asks::<1, _>).to_vec()),
                38 => derived(cx, ips.map(Asks::<2, _>).to_vec()),
                39 => derived(cx, ips.map(|i| New(Asks::<1, _>(Some(Asks::<3, _>(i))))).to_vec()),
                40 => derived(cx, vec![Asks::<1, _>(Value::from(1u8)), Asks(vec!["x"].into())]),
                41 => derived(cx, vec![Asks::<2, _>(Value::from(1u8)), Asks(vec!["x"].into())]),
                42 => derived(cx, vec![Asks::<3, _>(Asks::<1, _>(ips.to_vec()))]),
                43 => derived(cx, vec![c"".to_owned(), c"a\u{e9}\xff".to_owned()]),
                44 => derived(cx, vec![std::ffi::OsString::from(""), "é".into()]),
                45 => derived(cx, vec![std::cmp::Reverse(Ext::A), std::cmp::Reverse(Ext::B(1))]),
                46 => derived(cx, vec![std::collections::LinkedList::from([Some(1u8), None])]),
                47 => derived(cx, vec![std::marker::PhantomData::<u8>]),
                0 => derived(cx, exts()),
                1 => derived(cx, vec![Int::A, Int::B { x: -1, s: "1".into() }, Int::C(inner(None)), Int::C(inner(Some("x")))]),
                2 => derived(cx, vec![Adj::A, Adj::B(1), Adj::C(0, "".into()), Adj::D { x: 1, y: 0.25 }]),
                3 => derived(cx, vec![Unt::N(-1), Unt::S("1".into()), Unt::L(vec![]), Unt::L(vec![1, 255]), Unt::M { x: true }]),
                4 => derived(cx, vec![
                    Flat { z: 0, inner: inner(Some("f")), rest: BTreeMap::new() },
                    Flat { z: 0, inner: inner(None), rest: [("q".into(), 1), ("r".into(), -1)].into_iter().collect() },
                ]),
                5 => derived(cx, vec![Denied::default(), Denied { a: 0, b: "".into(), c: vec![inner(None), inner(Some(""))],
                    d: (0, '\u{10ffff}'), e: [i16::MIN, 0, i16::MAX] }]),
                6 => derived(cx, vec![
                    Renamed { first_field: 0, second: "".into(), skipped: 0, third: None, fourth: vec![] },
                    Renamed { first_field: 9, second: "s".into(), skipped: 0, third: Some(vec![-1]), fourth: vec![true] },
                ]),
                7 => derived(cx, vec![Unit]),
                8 => derived(cx, strings().into_iter().map(New).collect()),
                9 => derived(cx, vec![New(New(Some(New(1u8)))), New(New(None))]),
                10 => derived(cx, vec![Pair(Unit, Some(1u8)), Pair(Unit, None)]),
                11 => derived(cx, vec![Some(Ext::A), None, Some(Ext::B(1)), Some(Ext::D { x: 1, y: None })]),
                12 => derived(cx, vec![Pair(New(Ext::A), vec![Pair(1u8, 'c')])]),
                13 => derived(cx, vec![vec![Some(1u8), None, Some(0)], vec![], vec![None]]),
                14 => derived(cx, vec![vec![vec![vec![String::new()]], vec![]], vec![]]),
                15 => derived(cx, vec![BTreeMap::from([(Key::Alpha, 1u8), (Key::Beta, 2)]), BTreeMap::new()]),
                16 => derived(cx, vec![HashMap::from([("a".to_string(), exts())]), HashMap::new()]),
                17 => derived(cx, vec![BTreeSet::from(["a".to_string(), "".into(), "B".into()]), BTreeSet::new()]),
                18 => derived(cx, vec![VecDeque::from([1u8, 2]), VecDeque::new()]),
                19 => derived(cx, vec![[[1u8, 2, 3], [4, 5, 6]], [[0; 3]; 2]]),
                20 => derived(cx, vec![(1u8, 'a', "s".to_string(), 0.5f32, -1i64, true, (), (1u8,), [1i8; 2], Some(1u8), Unit, Ext::A)]),
                21 => derived(cx, vec![Ok::<u8, String>(1), Err("e".into())]),
                22 => derived(cx, vec![std::time::Duration::new(1, 999_999_999), std::time::Duration::MAX, std::time::Duration::ZERO]),
                23 => derived(cx, vec!["127.0.0.1".parse::<std::net::IpAddr>().unwrap(), "::1".parse().unwrap()]),
                24 => derived(cx, vec![Some("1.2.3.4:80".parse::<std::net::SocketAddr>().unwrap()), None, Some("[::1]:0".parse().unwrap())]),
                25 => derived(cx, strs.iter().map(std::path::PathBuf::from).collect()),
                26 => derived(cx, vec![1..5u8, 0..0]),
                27 => derived(cx, vec![NonZeroU8::new(1).unwrap(), NonZeroU8::MAX]),
                28 => derived(cx, vec![Wrapping(-1i32)]),
                29 => derived(cx, vec![Box::new(Some(Box::new(1u8))), Box::new(None)]),
                30 => derived(cx, vec![std::borrow::Cow::<str>::Owned("x".into())]),
                31 => derived(cx, vec![std::ops::Bound::Included(1u8), std::ops::Bound::Excluded(0), std::ops::Bound::Unbounded]),
                32 => derived(cx, vec![std::time::SystemTime::UNIX_EPOCH + std::time::Duration::new(1, 5)]),
                33 => derived(cx, vec![vec![New(Some(vec![(1u8, None::<bool>)]))], vec![New(None)]]),
                34 => derived(cx, vec![BTreeMap::from([("".to_string(), None), ("k.l".into(), Some(Unt::S("".into())))])]),
                _ => derived(cx, vec![std::cell::Cell::new(1u8), std::cell::Cell::new(0)]),
            }
        }
    ));

    v.push(Scenario::new(
        "shapes",
        "values of each of 24 types with no, one or skipped fields in every kind of structure and variant, or whose attributes \
         say what becomes of them: transparent, converted, tagged, flattened, renamed, defaulted",
        |cx| {
            let one = |a: Option<u8>| OneField { a };
            let plain = Inner { a: 1, b: None };
            match cx.pick(24) {
                0 => derived(cx, vec![NoFields {}]),
                1 => derived(cx, vec![NoElements()]),
                2 => derived(cx, vec![TupleSkip(1, 0)]),
                3 => derived(cx, vec![TupleSkips(0, 255, 0)]),
                4 => derived(cx, vec![TupleSkip2(1, 0, "s".into())]),
                5 => derived(cx, vec![Few::Unit, Few::None(), Few::Empty {}, Few::Skip(1, 0), Few::SkipField { a: 1, b: 0 }, Few::AllSkipped { b: 0 },
                    Few::NewSkipped(0), Few::IfSome { a: None }, Few::IfSome { a: Some(0) }, Few::One((1,)), Few::Arr([1]), Few::Nested(Box::new(Few::None()))]),
                6 => derived(cx, vec![(1u8,)]),
                7 => derived(cx, vec![((Unit,),)]),
                8 => derived(cx, vec![[1u8]]),
                9 => derived(cx, vec![[(); 0]]),
                10 => derived(cx, vec![New(())]),
                11 => derived(cx, vec![Pair((1u8,), [[2u8]])]),
                12 => derived(cx, vec![one(None), one(Some(1))]),
                13 => derived(cx, vec![Clear { only: Some(1) }, Clear { only: None }]),
                14 => derived(cx, vec![Converted(7), Converted(0)]),
                15 => derived(cx, vec![TaggedStruct { a: 1, inner: plain.clone() }]),
                16 => derived(cx, vec![FlatOption { a: None, z: 1 }, FlatOption { a: Some(plain.clone()), z: 1 }]),
                17 => derived(cx, vec![FlatEnum { e: Styles::FirstOne, z: 1 }, FlatEnum { e: Styles::SecondOne { in_ner: 2 }, z: 0 }]),
                18 => derived(cx, vec![FlatAdj { e: Adj::A, z: 1 }, FlatAdj { e: Adj::C(1, "".into()), z: 1 }, FlatAdj { e: Adj::D { x: 1, y: 0.5 }, z: 0 }]),
                19 => derived(cx, vec![Styles::FirstOne, Styles::SecondOne { in_ner: 1 }, Styles::Third(vec![]), Styles::Fourth(1, -1)]),
                20 => derived(cx, vec![TagNew::A(BTreeMap::from([("k".into(), 1)])), TagNew::A(BTreeMap::new()), TagNew::B(plain.clone()), TagNew::C {}]),
                21 => derived(cx, vec![UntNew::P(Pair(1, 2)), UntNew::O(one(None)), UntNew::V(vec![New("".into())]), UntNew::U]),
                22 => derived(cx, vec![BTreeMap::from([("a".to_string(), TupleSkip(1, 0)), ("b".to_string(), TupleSkip(2, 0))])]),
                _ => derived(cx, vec![Some((Some((1u8,)),)), Some((None,)), None]),
            }
        }
    ));

    v.push(Scenario::new(
        "sizes",
        "sequences and maps with up to 257 entries, strings of up to 4097 characters, nesting up to 129 \
         deep; map keys of 26 unusual names",
        |cx| {
            let n = *cx.of(&[0usize, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]);
            let (ty, o) = match cx.pick(7) {
                0 => (seq(Ty::U16), Out::Seq((0..n).map(|i| Out::S(Sc::U16(i as u16))).collect())),
                1 => (map(Ty::U16), Out::Map((0..n).map(|i| (format!("k{i}"), Out::S(Sc::U16(i as u16)))).collect())),
                2 => (Ty::Str, Out::S(Sc::Str("xé".repeat(n * 8)))),
                3 => {
                    let (mut t, mut o) = (Ty::U8, Out::S(Sc::U8(1)));
                    for i in 0..n.min(129) {
                        (t, o) = match i % 4 {
                            0 => (seq(t), Out::Seq(vec![o])),
                            1 => (map(t), Out::Map([("k".to_string(), o)].into_iter().collect())),
                            2 => (opt(t), Out::Some(Box::new(o))),
                            _ => (newtype(t), Out::Newtype(Box::new(o))),
                        };
                    }
                    (t, o)
                }
                4 => {
                    let ts: Vec<_> = (0..n.min(129)).map(|i| if i % 2 == 0 { Ty::U8 } else { Ty::Str }).collect();
                    let v = ts.iter().enumerate().map(|(i, t)| Out::S(match t {
                        Ty::U8 => Sc::U8(i as u8), _ => Sc::Str(i.to_string())
                    })).collect();
                    (tup(ts), Out::Seq(v))
                }
                5 => {
                    let keys = odd_keys();
                    if n >= keys.len() { return Err(Stop::Skip); }
                    (map(Ty::Bool), Out::Map([(keys[n].clone(), Out::S(Sc::Bool(true)))].into_iter().collect()))
                }
                _ => {
                    let keys = odd_keys();
                    if n > keys.len() { return Err(Stop::Skip); }
                    (map(seq(Ty::Str)), Out::Map(keys[..n].iter()
                        .map(|k| (k.clone(), Out::Seq(vec![Out::S(Sc::Str(k.clone()))]))).collect()))
                }
            };
            round_trip(cx, &ty, &o)
        }
    ));

    v.push(Scenario::new(
        "integers",
        "every 8-bit, every 16-bit, and around every power of two every wider integer of all types",
        |cx| {
            let block = cx.pick(64);
            for ty in ints() {
                let t = rc(ty.clone());
                let mut vals: Vec<Sc> = vec![];
                match ty {
                    Ty::U8 | Ty::I8 => if block == 0 { vals.extend((-128..256).filter_map(|i: i32| to_int(&ty, i < 0, i.unsigned_abs() as u128))) },
                    Ty::U16 | Ty::I16 => vals.extend((block as i32 * 1536 - 32768..(block as i32 + 1) * 1536 - 32768)
                        .filter_map(|i| to_int(&ty, i < 0, i.unsigned_abs() as u128))),
                    _ => for bit in [block * 2, block * 2 + 1] {
                        for d in -2..=2i128 {
                            let m = (1u128 << bit).wrapping_add(d as u128);
                            vals.extend(to_int(&ty, false, m));
                            vals.extend(to_int(&ty, true, m));
                        }
                    },
                }
                cx.op(|| format!("{} values of {ty}", vals.len()));
                for s in vals {
                    let o = Out::S(s);
                    let v = Value::serialize(Ser(&t, &o)).map_err(err("serialize", "serialize"))?;
                    cx.checked(2);
                    let back = with(&t, None, || v.deserialize::<Dyn>()).map_err(err("value", "from dynamic"))?.0;
                    ensure_eq!(back, o, "value", "from dynamic");
                    let f = Figment::new().merge(("k", v));
                    match crate::c05::extract(&f, &t, false, Some("k")) {
                        Ok(got) => ensure_eq!(got, o, "extract", "integer"),
                        Err(e) => return fail("extract", format!("{o:?}: {e}")),
                    }
                }
            }
            cx.state(&block);
            Ok(())
        }
    ));

    v.push(Scenario::new(
        "keys",
        "maps with keys of 18 types other than strings extract back unchanged or are rejected when serialized",
        |cx| {
            fn keyed<K: Serialize + DeserializeOwned + Ord + Debug>(cx: &mut Cx, k: K) -> R {
                cx.op(|| format!("{k:?}"));
                let m = BTreeMap::from([(k, 1u8)]);
                cx.checked(1);
                let p = Serialized::default("k", &m);
                if p.data().is_err() {
                    ensure!(Figment::from(p).extract_inner::<Value>("k").is_err(), "partial", "{m:?}: data despite error");
                    cx.outcome("rejected");
                    return Ok(());
                }
                cx.outcome("kept");
                let v = Value::serialize(&m).map_err(err("serialize", "by itself"))?;
                let direct: BTreeMap<K, u8> = v.deserialize().map_err(err("value", "by itself"))?;
                ensure_eq!(direct, m, "value", "by itself");
                let got: BTreeMap<K, u8> = Figment::from(p).extract_inner("k").map_err(err("extract", "key"))?;
                ensure_eq!(got, m, "extract", "key");
                Ok(())
            }
            match cx.pick(18) {
                13 => keyed(cx, New("s".to_string())),
                14 => keyed(cx, New(Some(New(Key::Alpha)))),
                15 => keyed(cx, Some('c')),
                16 => keyed(cx, New(1u8)),
                0 => keyed(cx, "s".to_string()),
                1 => keyed(cx, 'c'),
                2 => keyed(cx, 1u8),
                3 => keyed(cx, -1i64),
                4 => keyed(cx, true),
                5 => keyed(cx, ()),
                6 => keyed(cx, Some("s".to_string())),
                7 => keyed(cx, (1u8, 2u8)),
                8 => keyed(cx, vec!["s".to_string()]),
                9 => keyed(cx, Key::Beta),
                10 => keyed(cx, Box::new(String::new())),
                11 => keyed(cx, None::<String>),
                12 => keyed(cx, std::path::PathBuf::from("p/q")),
                _ => keyed(cx, BTreeMap::from([("a".to_string(), 1u8)])),
            }
        }
    ));

    v
}

/// As `any`, with fewer values of the leaves.
fn any_short(cx: &mut Cx, ty: &Ty) -> Out {
    let d = cx.pick(2);
    any(cx, ty, d == 1)
}
