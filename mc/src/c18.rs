//! Configurations as sources of others, sources by reference, and pairs.

use std::borrow::Cow;
use std::collections::BTreeMap;
use std::fs;
use std::rc::Rc;
use std::sync::Arc;

use figment::providers::{Env, Format, Json, Serialized, Toml, Yaml, YamlExtended};
use figment::value::magic::Tagged;
use figment::value::{Dict, Map, Value};
use figment::{Error, Figment, Metadata, Profile, Provider};
use serde::Serialize;

use crate::c01::{mark, odd_keys};
use crate::c14::Tmp;
use crate::engine::*;
use crate::model::*;
use crate::{ensure, ensure_eq};

const PROFS: [&str; 3] = ["default", "global", "one"];

fn docs() -> Vec<Source> {
    let s = |p: &str, profile: Option<&str>, t: N| Source {
        id: 0, profile: profile.map(|p| p.into()), data: Ok([(p.to_string(), t.dict().unwrap().clone())].into()),
    };
    vec![
        s("default", None, N::d(vec![("k", N::d(vec![("a", N::a(vec![N::s("x")])), ("b", N::u(1))]))])),
        s("one", Some("one"), N::d(vec![("k", N::d(vec![("a", N::a(vec![N::s("y"), N::s("z")])), ("c", N::u(2))]))])),
        s("global", None, N::d(vec![("k", N::d(vec![("b", N::d(vec![("d", N::u(3))]))])), ("e", N::sc(Sc::None))])),
        Source { id: 0, profile: Some("two".into()), data: Err(2) },
    ]
}

/// Any construction: `widths` are of how many additions, at each level of
/// nesting from the outermost one. Returns the configuration's index.
fn any(cx: &mut Cx, m: &mut Machine, docs: &[Source], widths: &[usize]) -> usize {
    let i = m.f.len();
    m.f.push(Figment::new());
    m.c.push(Conf::new());
    let n = cx.pick(widths[0] + 1);
    for _ in 0..n {
        let op = *cx.of(&OPS);
        let k = cx.pick(docs.len() + (widths.len() > 1) as usize);
        if k < docs.len() {
            // Made distinct by its position.
            let mut s = docs[k].clone();
            if let Ok(d) = &mut s.data {
                let id = m.next_id() as usize;
                for t in d.values_mut() { *t = mark(std::mem::take(t), id); }
            }
            m.add(cx, i, op, s, false);
        } else {
            let j = any(cx, m, docs, &widths[1..]);
            let by_ref = (i + j) % 2 == 0;
            m.add_conf(cx, i, op, j, by_ref);
        }
    }
    match cx.dev(4) {
        0 => {}
        1 => m.select(cx, i, "ONE"),
        2 => m.select(cx, i, "default"),
        _ => m.focus(cx, i, "k"),
    }
    i
}

fn named(f: &Figment) -> Vec<(String, Option<(u32, u32)>, Option<figment::Source>)> {
    f.metadata().map(|m| (m.name.to_string(), m.provide_location.map(|l| (l.line(), l.column())), m.source.clone()))
        .collect()
}

fn err_all(e: Error) -> Vec<(String, Option<Metadata>, Option<Profile>, Vec<String>)> {
    e.into_iter().map(|e| (e.to_string(), e.metadata.clone(), e.profile.clone(), e.path.clone())).collect()
}

/// All data, with the profile and identity of each value.
fn data(f: &Figment) -> Result<BTreeMap<String, Tree>, Vec<String>> {
    match f.data() {
        Ok(d) => Ok(d.iter().map(|(p, d)| (p.to_string(), tree_of(d, &src_in(f)))).collect()),
        Err(e) => Err(e.into_iter().map(|e| e.to_string()).collect()),
    }
}

/// What is said of merging it into an empty one.
fn reproduced(cx: &mut Cx, f: &Figment) -> R {
    let before = named(f);
    for (k, op) in OPS.into_iter().enumerate() {
        let g = if k % 2 == 0 { op.apply(Figment::new(), f.clone()) } else { op.apply(Figment::new(), f) };
        cx.checked(6);
        ensure!(data(&g) == data(f), "data", "by {op:?}: {:?} instead of {:?}", data(&g), data(f));
        if op.newer_wins() {
            ensure_eq!(g.profile(), f.profile(), "selection", "selected after {op:?}");
        } else {
            ensure_eq!(g.profile(), &Profile::Default, "selection", "selected after {op:?}");
        }
        let g = g.select(f.profile().clone());
        let now = named(&g);
        ensure_eq!(now.len(), before.len() + 1, "sources", "number of sources after {op:?}");
        ensure_eq!(now[..before.len()], before[..], "sources", "after {op:?}");
        ensure!(f.metadata().zip(g.metadata()).all(|(a, b)| a == b), "metadata", "after {op:?}");
        let (a, b) = (f.extract::<Value>(), g.extract::<Value>());
        match (a, b) {
            (Ok(a), Ok(b)) => {
                ensure!(N::of(&a, &src_in(f)) == N::of(&b, &src_in(&g)), "value", "extracted after {op:?}: {b:?}");
                for p in ["k", "k.a", "k.b", "k.b.d", "k.c", "e", "a", "b"] {
                    ensure_eq!(f.find_metadata(p), g.find_metadata(p), "find_metadata", "of {p}");
                    ensure_eq!(f.contains(p), g.contains(p), "contains", "{p}");
                }
            }
            (Err(a), Err(b)) => ensure_eq!(err_all(b), err_all(a), "errors", "after {op:?}"),
            (a, b) => return fail("value", format!("{a:?} or {b:?}")),
        }
    }
    ensure!(named(f) == before, "changed", "use as a source changed it");
    Ok(())
}

/// A source that provides what a configuration holds.
struct Holds<'a>(&'a Figment);
impl Provider for Holds<'_> {
    fn metadata(&self) -> Metadata { Metadata::named("Holds") }
    fn data(&self) -> Result<Map<Profile, Dict>, Error> { self.0.data() }
    fn profile(&self) -> Option<Profile> { Some(self.0.profile().clone()) }
}

/// Adds the second to the first as itself and as a single source.
fn as_single(cx: &mut Cx, f: &Figment, g: &Figment, op: Op) -> R {
    let a = op.apply(f.clone(), g);
    let b = op.apply(f.clone(), Holds(g));
    cx.checked(2);
    ensure_eq!(a.profile(), b.profile(), "single", "selection by {op:?}");
    match (a.data(), b.data()) {
        (Ok(a), Ok(b)) => ensure!(a == b, "single", "by {op:?}: {a:?}, as a single source {b:?}"),
        (Err(a), Err(b)) => ensure_eq!(a.count(), b.count(), "single", "errors by {op:?}"),
        (a, b) => return fail("single", format!("{a:?} or {b:?}")),
    }
    Ok(())
}

fn constructions(name: &'static str, widths: &'static [usize], devs: usize, docs: Vec<Source>) -> Scenario {
    Scenario::new(
        name,
        format!("every construction by up to {widths:?} additions at each level of nesting, by any operation, of any \
            of {} sources and of nested configurations; {devs} of which are also selected in or focused; then \
            merged into an empty one and into others", docs.len()),
        move |cx| {
            let mut m = Machine::new(0);
            let i = any(cx, &mut m, &docs, widths);
            cx.state(&m.c[i]);
            cx.outcome(&(&m.c[i].data, &m.c[i].profile));
            m.compare_one(cx, i)?;
            reproduced(cx, &m.f[i])?;
            let base = Figment::from(P::ok(77, "default", &one("k", N::d(vec![("a", N::a(vec![N::s("base")]))]))));
            for op in OPS { as_single(cx, &base, &m.f[i], op)?; as_single(cx, &m.f[i], &base, op)?; }
            Ok(())
        }
    ).devs(devs).tasks(2000)
}

/// A source that may fail, selects, and has its own location.
#[derive(Clone)]
struct Full { p: P }
impl Provider for Full {
    fn metadata(&self) -> Metadata {
        self.p.metadata().source("some place".to_string()).interpolater(|p, k| format!("{p}!{}", k.join("!")))
    }
    fn data(&self) -> Result<Map<Profile, Dict>, Error> { self.p.data() }
    fn profile(&self) -> Option<Profile> { self.p.profile() }
}

/// Everything there is to see of a configuration, but for identities.
fn view(f: &Figment) -> String {
    let mut s = format!("{:?} {:?} {:?}\n", f.profile(), data_bare(f), f.profiles().map(|p| p.to_string()).collect::<Vec<_>>());
    for m in f.metadata() {
        s += &format!("{} {:?} {}\n", m.name, m.source, m.interpolate(&Profile::new("q"), &["x", "y"]));
    }
    match f.extract::<Value>() {
        Ok(v) => s += &tagged(f, &v),
        Err(e) => for (k, m, p, path) in err_all(e) {
            s += &format!("{k} {:?} {p:?} {path:?}\n", m.map(|m| (m.name.to_string(), m.source)));
        },
    }
    s
}

fn data_bare(f: &Figment) -> Option<BTreeMap<String, Tree>> {
    f.data().ok().map(|d| d.iter().map(|(p, d)| (p.to_string(), tree_of(d, &nosrc))).collect())
}

/// Each value with the name and profile of its source.
fn tagged(f: &Figment, v: &Value) -> String {
    let of = |v: &Value| format!("{:?} {:?}", f.get_metadata(v.tag()).map(|m| m.name.to_string()), v.tag().profile());
    match v {
        Value::Dict(_, d) => format!("{}{{{}}}", of(v), d.iter().map(|(k, v)| format!("{k}: {}", tagged(f, v))).collect::<String>()),
        Value::Array(_, a) => format!("{}[{}]", of(v), a.iter().map(|v| tagged(f, v)).collect::<String>()),
        v => format!("{} {v:?} ", of(v)).split("Tag(").next().unwrap_or("").to_string(),
    }
}

fn by_ref<T: Provider>(cx: &mut Cx, make: &dyn Fn() -> T) -> R {
    let base = || Figment::from(P::ok(1, "default", &one("k", N::d(vec![("z", N::u(1))])))).join(("over", 1));
    for op in OPS {
        for f in [Figment::new(), base()] {
            let p = make();
            let want = view(&op.apply(f.clone(), make()));
            cx.checked(4);
            ensure_eq!(view(&op.apply(f.clone(), &p)), want, "by-ref", "{op:?}");
            ensure_eq!(view(&op.apply(f.clone(), &&p)), want, "by-ref", "{op:?} twice");
            ensure_eq!(view(&op.apply(f.clone(), &p)), want, "by-ref", "{op:?} again");
            ensure_eq!(view(&op.apply(f.clone(), p)), want, "by-ref", "{op:?} by value after");
        }
    }
    cx.checked(1);
    ensure_eq!(view(&Figment::from(&make())), view(&Figment::from(make())), "by-ref", "from");
    Ok(())
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![];

    let d = docs();
    match tier {
        Tier::Quick => {
            v.push(constructions("wide", &[2, 1, 1], 0, d.clone()));
            v.push(constructions("deep", &[1, 1, 1, 1], 1, d[..3].to_vec()));
        }
        Tier::Thorough => {
            v.push(constructions("wide", &[2, 1, 1], 1, d.clone()));
            v.push(constructions("inner", &[1, 2, 1], 1, d.clone()));
            v.push(constructions("long", &[3, 1], 1, d.clone()));
            v.push(constructions("deep", &[1, 1, 1, 1, 1], 1, d.clone()));
        }
    }

    v.push(Scenario::new(
        "nested-shapes",
        "two sources of 21 shapes x 21 combined by any operation in any of 3 profiles: merged into an empty \
         configuration and, as one, onto and under a third of any of 6 shapes",
        |cx| {
            let shapes = shapes();
            let (a, b) = (cx.of(&shapes).clone(), cx.of(&shapes).clone());
            let op = *cx.of(&OPS);
            let p = *cx.of(&PROFS);
            let mut m = Machine::new(2);
            let s = |p: &str, n: N| Source { id: 0, profile: None, data: Ok([(p.to_string(), one("k", n))].into()) };
            m.add(cx, 0, Op::Merge, s("default", a), false);
            m.add(cx, 0, op, s(p, b), false);
            m.select(cx, 0, p);
            cx.state(&m.c[0]);
            reproduced(cx, &m.f[0])?;
            for n in [N::u(9), N::sc(Sc::None), N::a(vec![N::u(9)]), N::d(vec![("k", N::u(9)), ("a", N::a(vec![]))]), N::a(vec![]), N::d(vec![])] {
                for op in OPS {
                    let third = Figment::from(P::ok(88, p, &one("k", n.clone()))).select("one");
                    as_single(cx, &third, &m.f[0], op)?;
                    as_single(cx, &m.f[0], &third, op)?;
                }
            }
            m.add(cx, 1, Op::Merge, s(p, N::d(vec![("k", N::u(9)), ("a", N::a(vec![N::u(8)]))])), false);
            m.add_conf(cx, 1, op, 0, true);
            m.compare(cx)
        }
    ));

    v.push(Scenario::new(
        "by-reference",
        "each of 18 kinds of source by value and by reference (once, twice, again), by any operation, to an empty \
         and other configuration: the same data, selection, sources, provenance and errors",
        |cx| {
            let tmp = Tmp::new();
            fs::write(tmp.0.join("f.toml"), "[one]\nk = {a = [1], b = 'x'}\n[default]\nover = 2").unwrap();
            fs::write(tmp.0.join("bad.toml"), "k = ").unwrap();
            std::env::set_var("MC_EIGHTEEN_K", "{a=[1], b=x}");
            let file = tmp.0.join("f.toml");
            let k = cx.pick(18);
            cx.op(|| format!("source {k}"));
            cx.state(&k);
            let doc = N::d(vec![("a", N::a(vec![N::u(1)])), ("over", N::s("x"))]);
            let p = |prof: &str, sel: Option<&str>| P { profile: sel.map(Profile::new), ..P::ok(5, prof, &one("k", doc.clone())) };
            let bad = P::of(&Source { id: 6, profile: Some("one".into()), data: Err(3) });
            match k {
                0 => by_ref(cx, &|| Toml::file(&file).nested()),
                1 => by_ref(cx, &|| Toml::file(&file).profile("zone")),
                2 => by_ref(cx, &|| Toml::file(tmp.0.join("absent.toml")).required(true)),
                3 => by_ref(cx, &|| Toml::file(tmp.0.join("bad.toml"))),
                4 => by_ref(cx, &|| Json::string("{\"k\": {\"b\": [1]}}")),
                5 => by_ref(cx, &|| Yaml::string("k: [1, {a: b}]")),
                6 => by_ref(cx, &|| YamlExtended::string("k: [1, {a: b}")),
                7 => by_ref(cx, &|| Env::prefixed("MC_EIGHTEEN_").profile("one")),
                8 => by_ref(cx, &|| Serialized::default("k.b", vec![1, 2])),
                9 => by_ref(cx, &|| Serialized::defaults("not a dictionary")),
                10 => by_ref(cx, &|| ("k.b", [1, 2])),
                11 => by_ref(cx, &|| p("one", Some("one"))),
                12 => by_ref(cx, &|| Full { p: p("global", Some("two")) }),
                13 => by_ref(cx, &|| Full { p: bad.clone() }),
                14 => by_ref(cx, &|| Figment::from(p("one", Some("one"))).join(("z", [1])).select("one")),
                15 => by_ref(cx, &|| Figment::from(p("one", None)).join(bad.clone()).merge(&bad.clone())),
                16 => by_ref(cx, &|| Figment::new().merge(Figment::from(p("global", None)).select("two")).focus("k")),
                _ => by_ref(cx, &Figment::new),
            }
        }
    ));

    v.push(Scenario::new(
        "pairs",
        "pairs at each of 17 key paths with each of 21 shapes, over and under values of 5 shapes in each of 4 \
         profiles, by any operation, selecting each",
        |cx| {
            let keys = ["k", "K", "k.a", "k.a.b", "x", "é", "a b", "k.0", "0", "k.k.k.k", "default", "global.k", "k-a", "k_a",
                "日本.語", "default.k", "a\"b"];
            let key = *cx.of(&keys);
            let shapes = shapes();
            let n = cx.of(&shapes).clone();
            let under = [N::u(9), N::a(vec![N::u(9)]), N::d(vec![("a", N::u(9)), ("z", N::u(8))]),
                N::d(vec![("a", N::d(vec![("b", N::a(vec![N::u(7)]))]))]), N::sc(Sc::Unit)];
            let prof = *cx.of(&["default", "global", "one", "two"]);
            let u = cx.of(&under).clone();
            let op = *cx.of(&OPS);
            let mut m = Machine::new(1);
            let s = Source { id: 0, profile: None, data: Ok([(prof.to_string(), one("k", u))].into()) };
            m.add(cx, 0, Op::Merge, s, false);
            let id = m.next_id();
            let val = n.value();
            let pair_name = (key, &val).metadata().name.to_string();
            let f = op.apply(std::mem::take(&mut m.f[0]), (key, &val));
            cx.op(|| format!("0: {op:?} ({key:?}, {})", n.show()));
            let path: Vec<&str> = key.split('.').collect();
            let t = at(&path, n).dict().unwrap().clone();
            m.c[0].add(&Source { id, profile: None, data: Ok([("global".to_string(), t)].into()) }, op);
            cx.state(&m.c[0]);
            for sel in ["one", "default", "global", "none"] {
                let f = f.clone().select(sel);
                m.c[0].profile = sel.into();
                let want = root(m.c[0].effective());
                let src = |t: figment::value::Tag| match f.get_metadata(t) {
                    Some(m) if m.name == pair_name => Src { id, ..src_in(&f)(t) },
                    _ => src_in(&f)(t),
                };
                let v: Value = match f.extract() { Ok(v) => v, Err(e) => return fail("extract", e.to_string()) };
                cx.checked(2);
                if let Some(d) = differ(&N::of(&v, &src), &want, "") { return fail("pair", format!("selecting {sel}: {d}")); }
                same_data(cx, &f, &m.c[0], "data")?;
            }
            Ok(())
        }
    ));

    v.push(Scenario::new(
        "pair-types",
        "pairs of 4 types of keys and 14 types of values, found and extracted under any selection over each profile's",
        |cx| {
            fn go<V: Serialize + Clone>(cx: &mut Cx, v: V, want: N) -> R {
                let key = "some.key".to_string();
                let kt = cx.pick(4);
                let sel = *cx.of(&["default", "one", "global"]);
                let base = PROFS.iter().fold(Figment::new(), |f, p| f.merge(P::ok(1, p, &one("some",
                    N::d(vec![("key", if *p == "global" { N::d(vec![]) } else { N::u(99) }), ("more", N::s(p))])))));
                let f = match kt {
                    0 => base.merge((key.as_str(), v)),
                    1 => base.merge((key.clone(), v)),
                    2 => base.merge((&key, &v)),
                    _ => base.merge(&(Cow::from(key.as_str()), v)),
                };
                let f = f.select(sel);
                cx.op(|| format!("{} by key {kt} selecting {sel}", want.show()));
                cx.state(&(&want, kt, sel));
                let got = f.find_value("some.key").map_err(|e| Stop::Fail { sig: "find".into(), msg: e.to_string() })?;
                // Empty dictionaries combine.
                same_tree(cx, &N::of(&got, &nosrc), &want, "pair")?;
                let t: Tagged<Value> = f.extract_inner("some.key").map_err(|e| Stop::Fail { sig: "extract".into(), msg: e.to_string() })?;
                ensure_eq!(t.tag().profile(), Some(Profile::Global), "profile", "profile");
                ensure!(f.find_metadata("some.key") == f.get_metadata(t.tag()), "metadata", "metadata");
                ensure_eq!(f.find_value("some.more").ok().and_then(|v| v.into_string()), Some("global".into()), "beside", "beside");
                Ok(())
            }
            match cx.pick(14) {
                0 => go(cx, "str", N::s("str")),
                1 => go(cx, String::new(), N::s("")),
                2 => go(cx, 'c', N::sc(Sc::Char('c'))),
                3 => go(cx, true, N::sc(Sc::Bool(true))),
                4 => go(cx, u128::MAX, N::sc(Sc::U128(u128::MAX))),
                5 => go(cx, i8::MIN, N::sc(Sc::I8(i8::MIN))),
                6 => go(cx, 0.25f32, N::sc(Sc::f32(0.25))),
                7 => go(cx, (), N::sc(Sc::Unit)),
                8 => go(cx, None::<u8>, N::sc(Sc::None)),
                9 => go(cx, Some(Some(5u8)), N::u(5)),
                10 => go(cx, vec![vec!["x"], vec![]], N::a(vec![N::a(vec![N::s("x")]), N::a(vec![])])),
                11 => go(cx, (1u8, "x"), N::a(vec![N::u(1), N::s("x")])),
                12 => go(cx, BTreeMap::from([("a.b", 1u8)]), N::d(vec![("a.b", N::u(1))])),
                _ => go(cx, Rc::new(Arc::new(Value::from(7u8)).as_ref().clone()).as_ref().clone(), N::u(7)),
            }
        }
    ));

    v.push(Scenario::new(
        "depths",
        "a configuration of 3 sources (or 2 and a failure) nested by each operation up to 300 deep, directly or \
         each time beside another source",
        |cx| {
            let d = cx.pick(301);
            let op = *cx.of(&OPS);
            let (beside, bad) = (cx.flag(), cx.flag());
            if tier_skip(d, beside) { return Err(Stop::Skip); }
            let mut m = Machine::new(2);
            let docs = docs();
            m.add(cx, 0, Op::Merge, docs[0].clone(), false);
            m.add(cx, 0, Op::Admerge, docs[2].clone(), false);
            m.add(cx, 0, Op::Merge, docs[if bad { 3 } else { 1 }].clone(), false);
            for i in 0..d {
                m.f[1] = Figment::new();
                m.c[1] = Conf::new();
                if beside {
                    let s = Source { id: 0, profile: None, data: Ok([("default".to_string(), one("k", N::d(vec![("a", N::a(vec![N::i(i as i64)]))])))].into()) };
                    m.add(cx, 1, Op::Merge, s, false);
                }
                m.add_conf(cx, 1, op, 0, i % 2 == 0);
                m.f.swap(0, 1);
                m.c.swap(0, 1);
            }
            cx.state(&m.c[0]);
            m.compare_one(cx, 0)?;
            reproduced(cx, &m.f[0])
        }
    ));

    v.push(Scenario::new(
        "odd",
        "configurations with any of 27 odd keys and odd profile names, merged into an empty and another one",
        |cx| {
            let keys = odd_keys();
            let k = cx.of(&keys).clone();
            let profs = ["default", "global", "", " ", "é", "Zone", "zone", "a.b", "DEFAULT", "日本", "x y"];
            let p = *cx.of(&profs);
            let sel = *cx.of(&profs);
            let mut m = Machine::new(2);
            let s = |p: &str, t| Source { id: 0, profile: Some(sel.into()), data: Ok([(p.to_string(), t)].into()) };
            m.add(cx, 0, Op::Merge, s(p, one(&k, N::d(vec![("v", N::a(vec![N::u(1)]))]))), false);
            m.add(cx, 1, Op::Merge, s("default", one(&k, N::d(vec![("v", N::a(vec![N::u(2)]))]))), false);
            reproduced(cx, &m.f[0])?;
            let op = *cx.of(&OPS);
            as_single(cx, &m.f[1], &m.f[0], op)?;
            m.add_conf(cx, 1, op, 0, true);
            cx.state(&m.c);
            m.compare(cx)
        }
    ));

    v
}

/// Sizes around which nothing is expected are left out where it is slow.
fn tier_skip(d: usize, beside: bool) -> bool {
    let near = |n: usize| d.abs_diff(n) <= 1;
    beside && d > 20 && ![32, 64, 100, 128, 256, 300].iter().any(|n| near(*n))
}
