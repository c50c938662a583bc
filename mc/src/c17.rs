//! Wrapper types: tagged values, dynamic values and choices never change
//! whether or what is extracted.

use std::collections::BTreeMap;
use std::fmt::Debug;
use std::rc::Rc;

use figment::error::Kind;
use figment::providers::{Env, Format, Json, Serialized, Toml, Yaml};
use figment::value::magic::{Either, Tagged};
use figment::value::{Tag, Value};
use figment::{Error, Figment};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};

use crate::c01::odd_keys;
use crate::c05::{bad_values, build, extract, replace};
use crate::c10::INTS;
use crate::dynde::*;
use crate::engine::*;
use crate::model::*;
use crate::{ensure, ensure_eq};

/// Whether the type has wrappers in it.
fn magic(ty: &Ty) -> bool {
    match ty {
        Ty::Tagged(_) | Ty::Value | Ty::Rel | Ty::Either(..) => true,
        Ty::Opt(t) | Ty::Seq(t) | Ty::Map(_, t) | Ty::Newtype(t) => magic(t),
        Ty::Tup(v) | Ty::Struct(_, v) | Ty::TupStruct(v) => v.iter().any(|t| magic(t)),
        Ty::Enum(v) => v.iter().any(|v| match v {
            Var::Unit => false,
            Var::Newtype(t) => magic(t),
            Var::Tup(v) | Var::Struct(v) => v.iter().any(|t| magic(t)),
        }),
        _ => false,
    }
}

fn chosen(ty: &Ty) -> bool { ty.to_string().contains("Either") }

/// The type with any of its nodes wrapped, each at the cost of a deviation.
fn wrapped(cx: &mut Cx, ty: &Ty) -> Ty {
    let go = |cx: &mut Cx, t: &Rc<Ty>| rc(wrapped(cx, t));
    let all = |cx: &mut Cx, v: &[Rc<Ty>]| -> Vec<Rc<Ty>> { v.iter().map(|t| rc(wrapped(cx, t))).collect() };
    let t = match ty {
        Ty::Opt(t) => Ty::Opt(go(cx, t)),
        Ty::Seq(t) => Ty::Seq(go(cx, t)),
        Ty::Map(c, t) => Ty::Map(*c, go(cx, t)),
        Ty::Newtype(t) => Ty::Newtype(go(cx, t)),
        Ty::Tup(v) => Ty::Tup(all(cx, v)),
        Ty::Struct(d, v) => Ty::Struct(*d, all(cx, v)),
        Ty::TupStruct(v) => Ty::TupStruct(all(cx, v)),
        Ty::Enum(v) => Ty::Enum(v.iter().map(|v| match v {
            Var::Unit => Var::Unit,
            Var::Newtype(t) => Var::Newtype(go(cx, t)),
            Var::Tup(v) => Var::Tup(all(cx, v)),
            Var::Struct(v) => Var::Struct(all(cx, v)),
        }).collect()),
        t => t.clone(),
    };
    match cx.dev(if magic(&t) { 5 } else { 9 }) {
        0 => t,
        1 => tagged(t),
        2 => tagged(tagged(t)),
        3 => Ty::Value,
        4 => tagged(Ty::Value),
        // Only of plain types.
        5 => either(t, Ty::Bool),
        6 => either(Ty::Bool, t),
        7 => either(t, Ty::Str),
        _ => tagged(either(seq(Ty::U8), t)),
    }
}

/// The type and what is extracted as it, without wrappers. Dynamic values and
/// choices have no counterpart.
fn plain_ty(ty: &Ty) -> Ty {
    let go = |t: &Rc<Ty>| rc(plain_ty(t));
    let all = |v: &[Rc<Ty>]| -> Vec<Rc<Ty>> { v.iter().map(go).collect() };
    match ty {
        Ty::Tagged(t) => plain_ty(t),
        Ty::Opt(t) => Ty::Opt(go(t)),
        Ty::Seq(t) => Ty::Seq(go(t)),
        Ty::Map(c, t) => Ty::Map(*c, go(t)),
        Ty::Newtype(t) => Ty::Newtype(go(t)),
        Ty::Tup(v) => Ty::Tup(all(v)),
        Ty::Struct(d, v) => Ty::Struct(*d, all(v)),
        Ty::TupStruct(v) => Ty::TupStruct(all(v)),
        Ty::Enum(v) => Ty::Enum(v.iter().map(|v| match v {
            Var::Unit => Var::Unit,
            Var::Newtype(t) => Var::Newtype(go(t)),
            Var::Tup(v) => Var::Tup(all(v)),
            Var::Struct(v) => Var::Struct(all(v)),
        }).collect()),
        t => t.clone(),
    }
}

fn plain(o: Out) -> Out {
    let all = |v: Vec<Out>| v.into_iter().map(plain).collect();
    let one = |o: Box<Out>| Box::new(plain(*o));
    match o {
        Out::Tagged(_, o) | Out::TaggedSrc(_, o) => plain(*o),
        Out::Some(o) => Out::Some(one(o)),
        Out::Seq(v) => Out::Seq(all(v)),
        Out::Struct(v) => Out::Struct(all(v)),
        Out::Var(i, v) => Out::Var(i, all(v)),
        Out::Map(m) => Out::Map(m.into_iter().map(|(k, o)| (k, plain(o))).collect()),
        Out::Newtype(o) => Out::Newtype(one(o)),
        o => o,
    }
}

/// Extracts as the wrapped type in each way.
fn check(cx: &mut Cx, f: &Figment, c: &Conf, ty: &Ty, path: &[&str]) -> R {
    let eff = root(c.effective());
    let whole = (path.len() == 1).then(|| rc(strukt(vec![ty.clone()])));
    let inner = rc(ty.clone());
    let dotted = path.join(".");
    for lossy in [false, true] {
        if lossy && chosen(ty) { continue; }
        let mut ways: Vec<(&Rc<Ty>, Option<&str>, N)> =
            vec![(&inner, Some(&dotted), eff.find(path).expect("harness: path").clone())];
        if let Some(w) = &whole { ways.push((w, None, eff.clone())); }
        for (ty, at, n) in ways {
            let got = extract(f, ty, lossy, at);
            let want = expect(&n, ty, lossy);
            cx.checked(2);
            cx.outcome(&(ty, want.is_ok()));
            cx.note(|| format!("{ty} lossy {lossy} at {at:?}"));
            let how = || format!("{} as {ty}{}", n.show(), if lossy { " lossy" } else { "" });
            let p = rc(plain_ty(ty));
            if !chosen(ty) {
                let direct = extract(f, &p, lossy, at);
                match (&got, &direct) {
                    (Ok(g), Ok(d)) => {
                        let (g, d) = (plain(g.clone().resolve(&src_in(f))), plain(d.clone().resolve(&src_in(f))));
                        ensure!(same(&g, &d), "inner", "{}: {g:?}, but {d:?} as {p}", how());
                    }
                    (Err(_), Err(_)) => {}
                    (Ok(g), Err(e)) => return fail("accepted", format!("{}: {g:?}, but as {p}: {e}", how())),
                    // Serde takes only an option itself for an absent field.
                    (Err(_), Ok(_)) if matches!(&want, Err(b) if matches!(b.kind, Kind::MissingField(_))) => {}
                    (Err(e), Ok(d)) => return fail("rejected", format!("{}: {e}, but {d:?} as {p}", how())),
                }
            }
            match (got, &want) {
                (Ok(g), Ok(w)) => {
                    let g = g.resolve(&src_in(f));
                    ensure!(same(&g, w), "value", "{}: {g:?}, expected {w:?}", how());
                }
                (Err(_), Err(_)) => {}
                (Ok(g), Err(w)) => return fail("accepted", format!("{}: {g:?}, expected {w:?}", how())),
                (Err(e), Ok(w)) => return fail("rejected", format!("{}: {e}, expected {w:?}", how())),
            }
        }
    }
    Ok(())
}

/// As equality, with NaN equal to itself.
fn same(a: &Out, b: &Out) -> bool { a == b || format!("{a:?}") == format!("{b:?}") }

fn put(cx: &mut Cx, n: &N, prof: &str) -> (Figment, Conf) { build(cx, &["a"], n, 1, prof) }

// Wrappers serialized into another configuration.

/// The tags of a value, in order.
trait Tags { fn tags(&self, v: &mut Vec<Tag>); }

impl Tags for String { fn tags(&self, _: &mut Vec<Tag>) {} }
impl Tags for u8 { fn tags(&self, _: &mut Vec<Tag>) {} }
impl Tags for f64 { fn tags(&self, _: &mut Vec<Tag>) {} }
impl Tags for char { fn tags(&self, _: &mut Vec<Tag>) {} }
impl Tags for bool { fn tags(&self, _: &mut Vec<Tag>) {} }
impl Tags for () { fn tags(&self, _: &mut Vec<Tag>) {} }
impl Tags for Value { fn tags(&self, _: &mut Vec<Tag>) {} }
impl<T: Tags> Tags for Tagged<T> {
    fn tags(&self, v: &mut Vec<Tag>) { v.push(self.tag()); (**self).tags(v); }
}
impl<T: Tags> Tags for Option<T> { fn tags(&self, v: &mut Vec<Tag>) { self.iter().for_each(|t| t.tags(v)) } }
impl<T: Tags> Tags for Vec<T> { fn tags(&self, v: &mut Vec<Tag>) { self.iter().for_each(|t| t.tags(v)) } }
impl<T: Tags> Tags for BTreeMap<String, T> { fn tags(&self, v: &mut Vec<Tag>) { self.values().for_each(|t| t.tags(v)) } }
impl<A: Tags, B: Tags> Tags for (A, B) { fn tags(&self, v: &mut Vec<Tag>) { self.0.tags(v); self.1.tags(v); } }
impl<A: Tags, B: Tags> Tags for Either<A, B> {
    fn tags(&self, v: &mut Vec<Tag>) { match self { Either::Left(a) => a.tags(v), Either::Right(b) => b.tags(v) } }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct S<T> { x: T, y: u8 }
impl<T: Tags> Tags for S<T> { fn tags(&self, v: &mut Vec<Tag>) { self.x.tags(v) } }

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
enum E<T> { Unit, New(T), Two(u8, T), Named { f: T } }
impl<T: Tags> Tags for E<T> {
    fn tags(&self, v: &mut Vec<Tag>) {
        match self { E::Unit => {}, E::New(t) | E::Two(_, t) | E::Named { f: t } => t.tags(v) }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Nt<T>(T);
impl<T: Tags> Tags for Nt<T> { fn tags(&self, v: &mut Vec<Tag>) { self.0.tags(v) } }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Sink { Defaults, Key, Global, Json, Over, Reuse, Element }

const SINKS: [Sink; 7] = [Sink::Defaults, Sink::Key, Sink::Global, Sink::Json, Sink::Over, Sink::Reuse, Sink::Element];

/// Serializes and extracts the value `n` times by any way.
fn round<T>(cx: &mut Cx, first: T, of: Figment, n: usize, recorded: bool) -> R
    where T: Serialize + DeserializeOwned + PartialEq + Debug + Tags
{
    let mut tags = vec![];
    first.tags(&mut tags);
    let mut old = first;
    let mut recorded = recorded;
    for i in 0..n {
        let sink = *cx.of(&SINKS);
        cx.op(|| format!("{sink:?}: {old:?}"));
        let got: Result<(T, Figment), Error> = (|| Ok(match sink {
            Sink::Defaults => {
                let f = Figment::from(Serialized::defaults(BTreeMap::from([("v", &old)])));
                (f.extract_inner("v")?, f)
            }
            Sink::Key => {
                let f = Figment::from(Serialized::default("a.b.v", &old));
                (f.extract_inner("a.b.v")?, f)
            }
            Sink::Global => {
                let f = Figment::from(Serialized::global("v", &old)).select("other");
                let whole: S2<T> = f.extract()?;
                (whole.v, f)
            }
            Sink::Json => {
                let text = serde_json::to_string(&BTreeMap::from([("v", &old)])).unwrap();
                let f = Figment::from(Json::string(&text));
                (f.extract_inner("v")?, f)
            }
            Sink::Over => {
                let f = of.clone().merge(("other", 1)).merge(("v", Value::serialize(&old)?));
                (f.extract_inner("v")?, f)
            }
            Sink::Reuse => {
                let f = Figment::from(Serialized::default("in.v", &old));
                let f = Figment::new().admerge(f).focus("in");
                (f.extract_inner("v")?, f)
            }
            Sink::Element => {
                let f = Figment::from(Serialized::default("v", vec![&old])).adjoin(Serialized::default("v", Vec::<u8>::new()));
                let mut v: Vec<T> = f.extract_inner("v")?;
                (v.pop().unwrap(), f)
            }
        }))();
        let (new, f) = match got {
            Ok(x) => x,
            Err(e) => return fail("rejected", format!("{sink:?} of {old:?}: {e}")),
        };
        cx.checked(2);
        ensure!(new == old, "unequal", "{new:?} for {old:?}");
        let mut now = vec![];
        new.tags(&mut now);
        if recorded {
            ensure_eq!(now, tags, "origin", "{i}: tags of {new:?} by {sink:?}");
            if sink == Sink::Over {
                for t in &now {
                    ensure!(of.get_metadata(*t) == f.get_metadata(*t), "metadata", "of {t:?}");
                }
            }
        } else {
            ensure_eq!(now.len(), tags.len(), "tags", "number of tags of {new:?} by {sink:?}");
            for t in &now { ensure!(!t.is_default() && f.get_metadata(*t).is_some(), "untagged", "{new:?} by {sink:?}"); }
            // Recorded from now on.
            tags = now;
            recorded = true;
        }
        old = new;
    }
    cx.state(&format!("{old:?}").len());
    Ok(())
}

#[derive(Debug, Deserialize)]
struct S2<T> { v: T }

/// A fresh value, and as extracted, of each of the types.
fn rounds(cx: &mut Cx, n: usize) -> R {
    fn go<T>(cx: &mut Cx, make: T, n: usize, doc: &str) -> R
        where T: Serialize + DeserializeOwned + PartialEq + Debug + Tags
    {
        match cx.pick(5) {
            0 => round(cx, make, Figment::new(), n, false),
            k => {
                let f = match k {
                    1 => Figment::from(Json::string(&format!("{{\"v\": {doc}}}"))),
                    2 => Figment::from(Yaml::string(&format!("v: {doc}"))).join(("v", 1).to_owned()),
                    3 => Figment::from(Json::string(&format!("{{\"zone\": {{\"v\": {doc}}}}}")).nested()).select("zone"),
                    _ => Figment::from(Json::string(&format!("{{\"v\": {doc}}}")).profile("global")).select("zone"),
                };
                let f = match k { 2 => Figment::from(Yaml::string(&format!("v: {doc}"))), _ => f };
                let v: T = match f.extract_inner("v") {
                    Ok(v) => v,
                    Err(e) => return fail("rejected", format!("{doc} as {}: {e}", std::any::type_name::<T>())),
                };
                ensure!(v == make, "unequal", "{v:?} for {make:?}");
                let mut tags = vec![];
                v.tags(&mut tags);
                for t in tags { ensure!(f.get_metadata(t).is_some(), "untagged", "{v:?}"); }
                round(cx, v, f, n, true)
            }
        }
    }
    let s = |s: &str| s.to_string();
    fn t<T>(v: T) -> Tagged<T> { v.into() }
    let m = |v: Tagged<u8>| BTreeMap::from([(s("k"), v.clone()), (s("a.b"), t(7))]);
    let l = |v| Either::<Tagged<u8>, String>::Left(v);
    match cx.pick(27) {
        0 => go(cx, t(s("x")), n, "\"x\""),
        1 => go(cx, t(s("")), n, "\"\""),
        2 => go(cx, t(5u8), n, "5"),
        3 => go(cx, t(true), n, "true"),
        4 => go(cx, t(0.5f64), n, "0.5"),
        5 => go(cx, t('é'), n, "\"é\""),
        6 => go(cx, t(vec![1u8, 2]), n, "[1, 2]"),
        7 => go(cx, t(Vec::<u8>::new()), n, "[]"),
        8 => go(cx, t(Some(3u8)), n, "3"),
        9 => go(cx, t(None::<u8>), n, "null"),
        10 => go(cx, Some(t(3u8)), n, "3"),
        11 => go(cx, vec![t(1u8), t(2)], n, "[1, 2]"),
        12 => go(cx, m(t(1)), n, "{\"k\": 1, \"a.b\": 7}"),
        13 => go(cx, t(m(t(1))), n, "{\"k\": 1, \"a.b\": 7}"),
        14 => go(cx, t(BTreeMap::<String, u8>::new()), n, "{}"),
        15 => go(cx, t(t(5u8)), n, "5"),
        16 => go(cx, t(t(t(s("q")))), n, "\"q\""),
        17 => go(cx, t(vec![t(t(1u8))]), n, "[1]"),
        18 => go(cx, t(S { x: t(s("x")), y: 2 }), n, "{\"x\": \"x\", \"y\": 2}"),
        19 => go(cx, t(E::New(t(1u8))), n, "{\"New\": 1}"),
        20 => go(cx, t(E::Two(4, t(1u8))), n, "{\"Two\": [4, 1]}"),
        21 => go(cx, E::Named { f: t(vec![1u8]) }, n, "{\"Named\": {\"f\": [1]}}"),
        22 => go(cx, t(E::<u8>::Unit), n, "\"Unit\""),
        23 => go(cx, Nt(t(Nt(1u8))), n, "1"),
        24 => go(cx, (t(1u8), t((t(2u8), s("z")))), n, "[1, [2, \"z\"]]"),
        25 => go(cx, vec![l(t(3)), Either::Right(s("no")), l(t(4))], n, "[3, \"no\", 4]"),
        _ => go(cx, t(Value::from(vec!["a", "b"])), n, "[\"a\", \"b\"]"),
    }
}

fn types(name: &'static str, depth: usize, devs: usize, bad: usize) -> Scenario {
    Scenario::new(
        name,
        format!("types of 4 leaves in up to {depth} of 14 containers, of which any {devs} nodes are wrapped in any of \
            8 ways (tagged once or twice, dynamic, choices), from conforming values and ones with any node replaced \
            by any of {bad} others, strict and lossy, whole and at a key, compared with the plain type and the model"),
        move |cx| {
            let mut ty = cx.of(&[Ty::U8, Ty::Str, Ty::Bool, Ty::Unit]).clone();
            for _ in 0..cx.pick(depth + 1) {
                let w: Vec<Ty> = wrap(&ty, &Ty::U8).into_iter().filter(|t| !matches!(t, Ty::Tagged(_))).collect();
                ty = cx.of(&w).clone();
            }
            let base = ty.clone();
            let ty = wrapped(cx, &ty);
            let all: Vec<N> = bad_values().into_iter().flatten().collect();
            // None replaced, or any one.
            let mut n = conforming(&base, 0);
            let count = nodes(&n);
            let k = cx.pick(1 + count);
            if k > 0 {
                let with = cx.of(&all[..bad]).clone();
                replace(&mut n, &mut (k - 1), &Some(with));
            }
            let prof = ["default", "global", "custom"][k % 3];
            cx.op(|| format!("{ty}: {}", n.show()));
            cx.state(&(&ty, &n));
            let (f, c) = put(cx, &n, prof);
            check(cx, &f, &c, &ty, &["a"])
        }
    ).devs(devs).tasks(2000)
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![];

    for (name, depth, devs, bad) in [("types", 2, 1, 16), ("pairs", tier.sel(1, 2), 2, tier.sel(6, 16)),
        ("more", tier.sel(1, 2), 3, 3)] {
        v.push(types(name, depth, devs, bad));
    }

    v.push(Scenario::new(
        "values",
        "each of 56 values of all kinds and widths, as each of 24 leaf types, plain and wrapped in 8 ways, at 3 depths",
        |cx| {
            let mut vals = shapes();
            vals.extend(bad_values().into_iter().flatten());
            for x in [0u64, 1, 255, 256, 65536, 1 << 33, u64::MAX] { vals.push(N::sc(Sc::U64(x))); }
            for x in [i128::MIN, -1, i128::MAX] { vals.push(N::sc(Sc::I128(x))); }
            vals.extend([N::sc(Sc::U128(u128::MAX)), N::sc(Sc::f32(1.5)),
                N::sc(Sc::f64(f64::NAN)), N::sc(Sc::f64(-0.0)), N::s("é"), N::s("a\0b"), N::s("true"), N::s(" 1 ")]);
            let n = cx.of(&vals).clone();
            let mut types = leaves();
            types.extend(INTS);
            types.extend([Ty::F32, Ty::UnitStruct, Ty::Value, Ty::Ignored, opt(Ty::U8), seq(Ty::Str)]);
            let ty = cx.of(&types).clone();
            let ty = wrapped(cx, &ty);
            let path: &[&str] = *cx.of(&[&["a"] as &[&str], &["p", "a"], &["p", "q", "a"]]);
            cx.op(|| format!("{ty}: {}", n.show()));
            cx.state(&(&ty, &n));
            let (f, c) = build(cx, path, &n, 0, "default");
            check(cx, &f, &c, &ty, path)
        }
    ).devs(1));

    v.push(Scenario::new(
        "layers",
        "two sources of any of 24 shapes combined by any operation in any profiles: read as tagged and dynamic \
         values at each node, nested in each other and in containers",
        |cx| {
            let shapes = shapes();
            let (a, b) = (cx.of(&shapes).clone(), cx.of(&shapes).clone());
            let op = *cx.of(&OPS);
            let (pa, pb) = *cx.of(&[("default", "default"), ("custom", "custom"), ("default", "global"), ("custom", "default")]);
            let mut m = Machine::new(1);
            for (n, p, op) in [(a, pa, Op::Merge), (b, pb, op)] {
                m.add(cx, 0, op, Source { id: 0, profile: None, data: Ok([(p.to_string(), one("a", n))].into()) }, false);
            }
            m.select(cx, 0, "custom");
            cx.state(&m.c[0]);
            let t = |ty| tagged(ty);
            for ty in [t(Ty::Value), t(t(Ty::Value)), t(seq(t(Ty::Value))), t(map(t(Ty::Value))), map(map(t(Ty::Value))),
                seq(map(t(t(Ty::Value)))), opt(t(Ty::Value)), t(opt(t(Ty::Value))), map(seq(t(Ty::U8))),
                either(seq(Ty::Str), Ty::U8), either(map(Ty::U8), Ty::Str), either(opt(Ty::Bool), seq(Ty::U8)),
                seq(either(Ty::Str, Ty::U8)), map(either(Ty::U8, Ty::Str))] {
                check(cx, &m.f[0], &m.c[0], &ty, &["a"])?;
            }
            Ok(())
        }
    ));

    v.push(Scenario::new(
        "sources",
        "a string, number, sequence and dictionary from each of 8 kinds of source, as each of 12 wrapped types, \
         with the tag of the value's source",
        |cx| {
            let kind = cx.pick(8);
            std::env::set_var("MCWRAP_V", "5");
            std::env::set_var("MCWRAP_S", "str");
            std::env::set_var("MCWRAP_L", "[5, 6]");
            std::env::set_var("MCWRAP_D", "{k=5}");
            let doc = serde_json::json!({"v": 5, "s": "str", "l": [5, 6], "d": {"k": 5}});
            let toml = "v = 5\ns = 'str'\nl = [5, 6]\nd = {k = 5}";
            let f = match kind {
                0 => Figment::from(Toml::string(toml)),
                1 => Figment::from(Json::string(&doc.to_string())),
                2 => Figment::from(Yaml::string(&doc.to_string())),
                3 => Figment::from(Env::prefixed("MCWRAP_")),
                4 => Figment::from(Serialized::defaults(&doc)),
                5 => Figment::from(("v", 5)).merge(("s", "str")).merge(("l", [5, 6])).merge(("d.k", 5)),
                6 => Figment::from(Toml::string(toml).profile("zone")).select("zone"),
                _ => Figment::new().merge(Figment::from(Toml::string(toml))),
            };
            let f = f.join(("unrelated", 1));
            cx.op(|| format!("source {kind}"));
            cx.state(&kind);
            macro_rules! all {
                ($k:expr, $T:ty, $want:expr, $($U:ty => $get:expr),*) => {{
                    let want: $T = $want;
                    let md = f.find_metadata($k).cloned();
                    ensure!(md.is_some(), "find_metadata", "{}", $k);
                    $(
                        match f.extract_inner::<$U>($k) {
                            Ok(u) => {
                                let mut tags = vec![];
                                u.tags(&mut tags);
                                for t in tags { ensure_eq!(f.get_metadata(t).cloned(), md, "tag", "{} as {}", $k, stringify!($U)); }
                                let get: fn($U) -> $T = $get;
                                ensure_eq!(get(u), want, "value", "{} as {}", $k, stringify!($U));
                            }
                            Err(e) => return fail("rejected", format!("{} as {}: {e}", $k, stringify!($U))),
                        }
                        cx.checked(2);
                    )*
                }}
            }
            type T<X> = Tagged<X>;
            all!("v", u8, 5, T<u8> => |t| t.into_inner(), T<T<u8>> => |t| t.into_inner().into_inner(),
                Option<T<u8>> => |t| t.unwrap().into_inner(), T<Option<u8>> => |t| t.into_inner().unwrap(),
                Nt<T<u8>> => |t| t.0.into_inner(), T<Nt<T<u8>>> => |t| t.into_inner().0.into_inner(),
                Either<T<u8>, String> => |e| match e { Either::Left(t) => t.into_inner(), _ => 99 },
                Either<T<String>, u8> => |e| match e { Either::Right(t) => t, _ => 99 },
                T<Either<T<u8>, String>> => |e| match e.into_inner() { Either::Left(t) => t.into_inner(), _ => 99 });
            all!("s", String, "str".into(), T<String> => |t| t.into_inner(),
                Either<T<u8>, String> => |e| match e { Either::Right(t) => t, _ => "?".into() },
                Either<T<String>, u8> => |e| match e { Either::Left(t) => t.into_inner(), _ => "?".into() });
            all!("l", Vec<u8>, vec![5, 6], T<Vec<u8>> => |t| t.into_inner(),
                Vec<T<u8>> => |t| t.into_iter().map(|t| t.into_inner()).collect(),
                T<Vec<T<u8>>> => |t| t.into_inner().into_iter().map(|t| t.into_inner()).collect(),
                T<(T<u8>, u8)> => |t| { let (a, b) = t.into_inner(); vec![a.into_inner(), b] },
                Either<T<Vec<u8>>, u8> => |e| match e { Either::Left(t) => t.into_inner(), _ => vec![] },
                Either<T<bool>, Vec<u8>> => |e| match e { Either::Right(t) => t, _ => vec![] });
            all!("d", BTreeMap<String, u8>, [("k".to_string(), 5)].into(),
                T<BTreeMap<String, u8>> => |t| t.into_inner(),
                BTreeMap<String, T<u8>> => |t| t.into_iter().map(|(k, t)| (k, t.into_inner())).collect(),
                Either<T<BTreeMap<String, u8>>, u8> => |e| match e { Either::Left(t) => t.into_inner(), _ => [].into() },
                Either<T<u8>, BTreeMap<String, u8>> => |e| match e { Either::Right(t) => t, _ => [].into() });
            Ok(())
        }
    ));

    let n = tier.sel(2, 4);
    v.push(Scenario::new(
        "rounds",
        format!("values of 27 wrapped types, fresh or extracted from 4 kinds of sources, serialized into another \
            configuration in any of 7 ways and extracted, {n} times"),
        move |cx| rounds(cx, n)
    ));

    v.push(Scenario::new(
        "sizes",
        "sequences and maps of each size up to 300 of tagged values, from two sources, and tags nested up to 64 deep \
         alone and between containers",
        |cx| {
            let kind = cx.pick(4);
            let n = cx.pick(301);
            let (s, ty) = match kind {
                0 => ([0, 1].map(|k| N::a((0..n / 2 + (k * n) % 2).map(|i| N::u((i + k) as u8)).collect())), tagged(seq(tagged(Ty::U8)))),
                1 => ([0, 1].map(|k| root((0..n).map(|i| (format!("k{}", i * (k + 1)), N::u(k as u8))).collect())),
                    tagged(map(tagged(Ty::U8)))),
                _ if n > 64 => return Err(Stop::Skip),
                2 => ([N::u(1), N::u(2)], (0..n).fold(Ty::U8, |t, _| tagged(t))),
                _ => {
                    let nest = |x| (0..n).fold(N::u(x), |t, _| N::a(vec![t]));
                    ([nest(1), nest(2)], (0..n).fold(Ty::U8, |t, _| tagged(seq(tagged(t)))))
                }
            };
            let mut m = Machine::new(1);
            for n in s {
                m.add(cx, 0, Op::Admerge, Source { id: 0, profile: None, data: Ok([("default".to_string(), one("a", n))].into()) }, false);
            }
            cx.state(&(kind, n));
            check(cx, &m.f[0], &m.c[0], &ty, &["a"])
        }
    ));

    v.push(Scenario::new(
        "keys",
        "values under each of 27 odd keys, as maps of tagged, dynamic and chosen values",
        |cx| {
            let keys = odd_keys();
            let k = cx.of(&keys).clone();
            let n = root([(k.clone(), N::u(1)), ("z".into(), N::s("x"))].into());
            cx.op(|| n.show());
            cx.state(&k);
            let (f, c) = put(cx, &n, "custom");
            for ty in [map(tagged(Ty::Value)), tagged(map(Ty::Value)), map(either(Ty::U8, Ty::Str)),
                tagged(map(tagged(Ty::Value))), either(map(Ty::U8), map(Ty::Str))] {
                check(cx, &f, &c, &ty, &["a"])?;
            }
            Ok(())
        }
    ));

    v
}

fn nodes(n: &N) -> usize {
    1 + match &n.v {
        M::S(_) => 0,
        M::A(v) => v.iter().map(nodes).sum(),
        M::D(d) => d.values().map(nodes).sum(),
    }
}
