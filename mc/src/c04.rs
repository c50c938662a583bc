//! Provenance: every value's source, and the list of sources.

use std::collections::BTreeMap;
use std::path::Path;

use figment::value::magic::Tagged;
use figment::value::{Dict, Map, Value};
use figment::{Error, Figment, Metadata, Profile, Provider};

use crate::c01::{docs, mark, odd_keys};
use crate::engine::*;
use crate::model::*;
use crate::{ensure, ensure_eq};

const PROFS: [&str; 3] = ["default", "global", "custom"];
const NAMES: [&str; 5] = ["default", "global", "custom", "Default", "gLOBAL"];

fn src(data: Vec<(&str, Tree)>) -> Source {
    Source {
        id: 0, profile: None,
        data: Ok(data.into_iter().map(|(p, t)| (p.to_string(), t)).collect()),
    }
}

/// One step of a history over several configurations.
pub struct Steps {
    pub docs: Vec<Source>,
    pub selects: Vec<&'static str>,
    pub keys: Vec<&'static str>,
}

impl Steps {
    pub fn step(&self, cx: &mut Cx, m: &mut Machine) -> R {
        let n = m.f.len();
        let i = cx.pick(n);
        match cx.pick(5) {
            0 => {
                let op = *cx.of(&OPS);
                let s = cx.of(&self.docs).clone();
                m.add(cx, i, op, s, false);
            }
            1 => {
                let op = *cx.of(&OPS);
                let j = (i + cx.pick(n)) % n;
                m.add_conf(cx, i, op, j, false);
            }
            2 => {
                if self.selects.is_empty() { return Err(Stop::Skip); }
                let p = *cx.of(&self.selects);
                m.select(cx, i, p);
            }
            3 => {
                if self.keys.is_empty() { return Err(Stop::Skip); }
                let k = *cx.of(&self.keys);
                m.focus(cx, i, k);
            }
            _ => {
                if n < 2 { return Err(Stop::Skip); }
                let j = (i + 1 + cx.pick(n - 1)) % n;
                m.copy(cx, i, j);
            }
        }
        Ok(())
    }
}

#[derive(Clone)]
struct Rich { md: Metadata, data: Map<Profile, Dict> }

impl Provider for Rich {
    fn metadata(&self) -> Metadata { self.md.clone() }
    fn data(&self) -> Result<Map<Profile, Dict>, Error> { Ok(self.data.clone()) }
}

fn rich(i: usize, name: &str, source: usize, interp: usize) -> Metadata {
    let mut md = Metadata::named(name.to_string());
    md = match source {
        0 => md,
        1 => md.source(Path::new("/a/b.toml")),
        2 => md.source(Path::new("")),
        3 => md.source(format!("custom {i}")),
        _ => md.source(std::panic::Location::caller()),
    };
    match interp {
        0 => md,
        1 => md.interpolater(move |p, k| format!("<{i}>{p}/{}", k.join("/"))),
        _ => md.interpolater(move |_, k| k.join("::").to_uppercase()),
    }
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![];

    v.push(Scenario::new(
        "pairs",
        "two sources: 21 value shapes x 21 x 4 operations, at 4 depths, in each kind of profile (in any case), \
         alone or beside others: provenance of every node by every kind of lookup",
        |cx| {
            let shapes = shapes();
            let depth = cx.pick(4);
            let prof = *cx.of(&NAMES);
            let op = *cx.of(&OPS);
            let beside = cx.flag();
            let a = cx.of(&shapes).clone();
            let b = cx.of(&shapes).clone();
            let path = &["k", "l", "m"][..depth];
            let mk = |n: N, own: &str| {
                let mut t = at(path, N::d(vec![("v", n)]));
                if beside {
                    let M::D(d) = &mut t.v else { unreachable!() };
                    d.insert(own.into(), N::s(own));
                    d.insert("both".into(), N::s(own));
                }
                t.dict().unwrap().clone()
            };
            let mut m = Machine::new(1);
            m.add(cx, 0, Op::Merge, src(vec![(prof, mk(a, "a"))]), false);
            m.add(cx, 0, op, src(vec![(prof, mk(b, "b"))]), cx_flag(beside));
            m.select(cx, 0, prof);
            cx.state(&m.c[0]);
            cx.outcome(&m.c[0].effective());
            m.compare(cx)
        }
    ));

    v.push(Scenario::new(
        "profiles",
        "one or three sources for 21 shapes x 21 x 21 in default, custom and global profile, \
         selecting each",
        |cx| {
            let shapes = shapes();
            let split = cx.flag();
            let mut m = Machine::new(1);
            let mut data = vec![];
            for p in PROFS {
                let n = cx.of(&shapes).clone();
                data.push((p, mark(one("k", n), data.len())));
            }
            match split {
                true => for d in data { m.add(cx, 0, Op::Join, src(vec![d]), false); },
                false => m.add(cx, 0, Op::Join, src(data), false),
            }
            for p in ["custom", "default", "global", "none"] {
                m.select(cx, 0, p);
                cx.state(&m.c[0]);
                same_provenance(cx, &m.f[0], &m.c[0])?;
            }
            Ok(())
        }
    ));

    v.push(Scenario::new(
        "triples",
        "three sources of any of 21 shapes at one key, any operations",
        |cx| {
            let shapes = shapes();
            let ops = [Op::Merge, *cx.of(&OPS), *cx.of(&OPS)];
            let mut m = Machine::new(1);
            for op in ops {
                let n = cx.of(&shapes).clone();
                m.add(cx, 0, op, src(vec![("default", one("k", n))]), false);
            }
            cx.state(&m.c[0]);
            m.compare(cx)
        }
    ));

    let max = tier.sel(3, 4);
    v.push(Scenario::new(
        "histories",
        format!("every history of {max} steps over 2 configurations that start empty and with one \
            source: add a source (of 4) or a configuration by any operation, select, focus, clone"),
        move |cx| {
            let steps = Steps {
                docs: vec![
                    src(vec![("default", one("k", N::d(vec![("a", N::a(vec![N::s("x")]))])))]),
                    src(vec![("global", one("k", N::d(vec![("a", N::a(vec![N::s("y")])), ("b", N::u(1))])))]),
                    Source { profile: Some("one".into()), ..src(vec![
                        ("one", one("k", N::d(vec![("a", N::d(vec![("a", N::u(7))])), ("b", N::u(2))]))),
                        ("default", one("c", N::d(vec![("k", N::d(vec![("k", N::u(3))]))]))),
                    ]) },
                ],
                selects: vec!["one"],
                keys: vec!["k", "c"],
            };
            let mut m = Machine::new(2);
            m.add(cx, 1, Op::Merge, steps.docs[0].clone(), false);
            for _ in 0..max {
                steps.step(cx, &mut m)?;
                cx.state(&m.c);
            }
            cx.outcome(&m.c);
            m.compare(cx)
        }
    ));

    v.push(Scenario::new(
        "sequences",
        "sequences of 1 to 4 sources, each any operation with any of 9 documents, whose arrays, \
         dictionaries and scalars overlap, alternating between two profiles or in one",
        move |cx| {
            let docs = docs();
            let n = cx.pick(tier.sel(3, 4)) + 1;
            let alternate = cx.flag();
            let mut m = Machine::new(1);
            for i in 0..n {
                let op = *cx.of(&OPS);
                let doc = mark(cx.of(&docs).clone(), i);
                let p = if alternate && i % 2 == 1 { "global" } else { "default" };
                m.add(cx, 0, op, src(vec![(p, doc)]), false);
                cx.state(&m.c);
            }
            cx.outcome(&m.c);
            m.compare(cx)
        }
    ));

    v.push(Scenario::new(
        "metadata",
        "sources of 6 names x 5 kinds of location x 3 interpolations added by any of 5 calls by \
         value or reference, then cloned, selected, focused, or nested: all of it is reported, and \
         the line at which it was added",
        |cx| {
            let names = ["", "x", "日本", "Default", "P1", "long name here"];
            let name = *cx.of(&names);
            let (s, ip) = (cx.pick(5), cx.pick(3));
            let md = rich(7, name, s, ip);
            let prof = *cx.of(&PROFS);
            let data: Map<_, _> = [(Profile::new(prof), dict_value(&one("k", N::d(vec![
                ("v", N::a(vec![N::u(1), N::d(vec![("w", N::u(2))])]))
            ]))))].into_iter().collect();
            let p = Rich { md: md.clone(), data };
            let f = Figment::new().merge(P::ok(1, "default", &one("z", N::u(1))));
            let call = cx.pick(9);
            cx.op(|| format!("{name:?}, source {s}, interpolater {ip}, {prof}, call {call}"));
            cx.state(&(name, s, ip, prof, call));
            let (f, line) = match call {
                0 => (f.merge(p), line!()),
                1 => (f.join(p), line!()),
                2 => (f.admerge(p), line!()),
                3 => (f.adjoin(p), line!()),
                4 => (Figment::from(p), line!()),
                5 => (f.merge(&p), line!()),
                6 => (f.join(&p), line!()),
                7 => (f.admerge(&&p), line!()),
                _ => (Figment::from(&p), line!()),
            };
            let f = f.select(prof);
            let after = cx.pick(6);
            cx.note(|| format!("then {after}"));
            let (f, path) = match after {
                0 => (f, "k.v"),
                1 => (f.clone(), "k"),
                2 => (f.focus("k"), "v"),
                3 => (Figment::new().merge(f), "k.v"),
                4 => (Figment::new().join(&f).select(prof), "k.v"),
                _ => (Figment::new().merge(("q", 1)).admerge(f.focus("k")).merge(("r", 2)), "v"),
            };

            let Some(got) = f.find_metadata(path) else {
                return fail("none", format!("no metadata for {path:?}"));
            };
            let t: Tagged<Value> = match f.extract_inner(path) {
                Ok(t) => t,
                Err(e) => return fail("extract", format!("{e}")),
            };
            let mut tags = vec![t.tag()];
            tags.extend(t.as_array().unwrap_or(&[]).iter().map(|v| v.tag()));
            for t in tags {
                let want = match prof {
                    "default" => Some(Profile::Default),
                    "global" => Some(Profile::Global),
                    _ => None,
                };
                ensure_eq!(t.profile(), want, "profile", "profile of the tag");
                let m = f.get_metadata(t);
                ensure!(m == Some(got), "get_metadata", "get_metadata: {m:?}, find_metadata: {got:?}");
            }
            let listed: Vec<_> = f.metadata().filter(|m| m.name == md.name && m.source == md.source
                && m.provide_location.map(|l| l.line()) == Some(line)).collect();
            cx.checked(6);
            ensure!(listed.len() == 1, "listed", "listed {} times", listed.len());
            for got in [got, listed[0]] {
                ensure_eq!(got.name, md.name, "name", "name");
                ensure_eq!(got.source, md.source, "source", "source");
                let loc = got.provide_location.map(|l| (l.file().ends_with("c04.rs"), l.line()));
                ensure_eq!(loc, Some((true, line)), "location", "location");
                let keys = ["a", "b"];
                let p = Profile::new("pr");
                ensure_eq!(got.interpolate(&p, &keys), md.interpolate(&p, &keys), "interpolate", "interpolate");
            }
            Ok(())
        }
    ));

    v.push(Scenario::new(
        "alike",
        "three sources, or one source three times, of the same or another name and location, added by any operations in \
         three lines, directly or by way of another configuration: the values of each are told apart by the line and by \
         their interpolation",
        |cx| {
            let mut lines = vec![];
            let mut winner = 0;
            let (mut f, mut g) = (Figment::new(), Figment::new());
            let same = cx.flag();
            let nested = cx.pick(3);
            let sources: Vec<Rich> = (0..3).map(|i| {
                let name = if same || cx.flag() { "A" } else { "B" };
                let md = Metadata::named(name);
                let md = match cx.pick(if same { 1 } else { 3 }) {
                    0 => md,
                    1 => md.source("custom"),
                    _ => md.source(Path::new("/a/file")),
                };
                let me = if same { 0 } else { i };
                let md = md.interpolater(move |_: &Profile, k: &[&str]| format!("{me}: {k:?}"));
                let t: Tree = [("k".to_string(), N::u(i)), (format!("own{i}"), N::a(vec![N::u(i)]))].into_iter().collect();
                Rich { md, data: [(Profile::Default, dict_value(&t))].into_iter().collect() }
            }).collect();
            for i in 0..3 {
                let op = *cx.of(&OPS);
                let p = &sources[i];
                let into = if i > 0 && nested == 2 || i > 1 && nested == 1 { &mut g } else { &mut f };
                let h = std::mem::take(into);
                let (h, line) = match i {
                    0 => (op.apply(h, p), line!()),
                    1 => (op.apply(h, p), line!()),
                    _ => (op.apply(h, p), line!()),
                };
                *into = h;
                lines.push(line);
                cx.op(|| format!("{:?} {op:?} {:?}", p.md.name, p.md.source));
                let alone = nested == 2 && i == 1 || nested == 1 && i == 2;
                if nested == 0 { if op.newer_wins() { winner = i; } }
                else if i == 0 { winner = 0 }
                else if alone || op.newer_wins() { if nested == 1 { winner = 2 } else { winner = i } }
            }
            let mut all = lines.clone();
            if nested > 0 {
                let first = if nested == 1 && all.len() == 3 {
                    // Of the first two, which are in `f`.
                    let v = f.find_value("k").ok().and_then(|v| v.to_u128()).unwrap_or(9);
                    v as usize
                } else { 0 };
                let op = *cx.of(&OPS);
                f = op.apply(f, g);
                all.push(line!() - 1);
                if !op.newer_wins() { winner = first; }
            }
            cx.state(&(&lines, winner, nested));
            let got: Vec<u32> = f.metadata().filter_map(|m| m.provide_location.map(|l| l.line())).collect();
            ensure_eq!(got, all, "listed", "lines of all sources");
            let mut tags = std::collections::BTreeSet::new();
            for (path, i) in [("k", winner), ("own0", 0), ("own1", 1), ("own2", 2)] {
                cx.checked(5);
                let Some(m) = f.find_metadata(path) else { return fail("none", format!("no metadata for {path:?}")) };
                ensure_eq!(m.provide_location.map(|l| l.line()), Some(lines[i]), "line", "{path}, from {i}");
                let md = &sources[i].md;
                ensure!(m == md, "metadata", "{path}: {m:?}, expected {md:?}");
                let q = Profile::new("q");
                ensure_eq!(m.interpolate(&q, &["x"]), md.interpolate(&q, &["x"]), "interpolate", "{path}");
                let t: Tagged<Value> = f.extract_inner(path).map_err(|e| Stop::Fail { sig: "extract".into(), msg: e.to_string() })?;
                ensure!(f.get_metadata(t.tag()).map(|m| m as *const _) == Some(m as *const _), "tag", "{path}: {:?}", t.tag());
                if path != "k" { tags.insert(t.tag()); }
                if let Some(v) = t.as_array().and_then(|a| a.first()) { ensure!(v.tag() == t.tag(), "element", "{path}") }
            }
            ensure_eq!(tags.len(), 3, "identities", "distinct identities");
            Ok(())
        }
    ));

    v.push(Scenario::new(
        "many",
        "0 to 300 sources, by any operation, on shared and own keys, directly or through nested \
         configurations 1 to 3 levels deep",
        |cx| {
            let n = *cx.of(&[0, 1, 2, 7, 8, 9, 31, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257, 300]);
            let op = *cx.of(&OPS);
            let nested = cx.pick(4);
            let mut m = Machine::new(2);
            for i in 0..n {
                let mut t = one("k", N::a(vec![N::i(i as i64)]));
                t.insert(format!("o{}", i % 40), N::d(vec![("v", N::i(i as i64))]));
                let p = NAMES[i % 5];
                if nested > 0 && i % (nested + 1) == 0 {
                    m.add(cx, 1, op, src(vec![(p, t)]), false);
                    if i % 5 == 0 {
                        m.add_conf(cx, 0, op, 1, false);
                        m.f[1] = Figment::new();
                        m.c[1] = Conf::new();
                    }
                } else {
                    m.add(cx, 0, op, src(vec![(p, t)]), false);
                }
            }
            for c in &mut m.c { c.sources.sort(); }
            m.select(cx, 0, "custom");
            cx.state(&m.c);
            m.compare(cx)
        }
    ));

    v.push(Scenario::new(
        "identities",
        "before and after creation of 2^k - 2 .. 2^k + 2 other sources, up to k = 17 (thorough: 20), \
         sources still have an identity of their own",
        move |cx| {
            let k = cx.pick(tier.sel(18, 21));
            let d = cx.pick(5) as i64 - 2;
            let n = (1i64 << k) + d;
            if n < 0 { return Err(Stop::Skip); }
            cx.op(|| format!("{n} others"));
            cx.state(&n);
            let s = |id| P::ok(id, PROFS[id as usize % 3], &one(&format!("k{id}"), N::a(vec![N::s("v")])));
            let mut f = Figment::new().merge(s(1));
            for _ in 0..n { let _ = Figment::new().merge(Nothing); }
            f = f.merge(s(2)).merge(s(3));
            let f = f.select("custom");
            for id in 1..=3u32 {
                let key = format!("k{id}");
                ensure_eq!(id_of(f.find_metadata(&key)), id, "id", "source of {key}");
                let v = f.find_value(&key).map_err(|e| Stop::Fail { sig: "find".into(), msg: e.to_string() })?;
                let want = Src { id, prof: Prof::of(PROFS[id as usize % 3]) };
                ensure_eq!(N::of(&v, &src_in(&f)).src, want, "src", "source of {key}");
                ensure_eq!(src_in(&f)(v.as_array().unwrap()[0].tag()), want, "src", "in {key}");
                let t: Tagged<Vec<Tagged<String>>> = f.extract_inner(&key)
                    .map_err(|e| Stop::Fail { sig: "extract".into(), msg: e.to_string() })?;
                ensure_eq!(src_in(&f)(t.tag()), want, "tagged", "tagged {key}");
                ensure_eq!(src_in(&f)(t[0].tag()), want, "tagged", "tagged in {key}");
            }
            let got: Vec<_> = f.metadata().map(|m| m.name.to_string()).collect();
            ensure_eq!(got, vec!["P1", "P2", "P3"], "list", "list");
            Ok(())
        }
    ).tasks(64));

    v.push(Scenario::new(
        "typed",
        "tags of every tagged field, element and entry of a typed extraction, from three sources \
         at any of 9 places each",
        |cx| {
            #[derive(serde::Deserialize, Debug)]
            struct T {
                a: Tagged<u8>,
                o: Option<Tagged<String>>,
                s: Vec<Tagged<u8>>,
                m: BTreeMap<String, Tagged<Value>>,
                t: Tagged<In>,
                n: Tagged<Tagged<u8>>,
            }
            #[derive(serde::Deserialize, Debug)]
            struct In { x: Tagged<bool>, y: Tagged<Option<Tagged<char>>> }

            let places: Vec<(&str, N)> = vec![
                ("a", N::u(1)), ("o", N::s("x")), ("s", N::a(vec![N::u(1), N::u(2)])),
                ("m.p", N::u(1)), ("m.q", N::d(vec![("z", N::u(4))])), ("t.x", N::sc(Sc::Bool(true))),
                ("t.y", N::sc(Sc::Char('c'))), ("n", N::u(3)),
                ("t", N::d(vec![("x", N::sc(Sc::Bool(false))), ("y", N::sc(Sc::None))])),
            ];
            let all: Tree = N::d(vec![
                ("a", N::u(0)), ("s", N::a(vec![])), ("m", N::d(vec![])), ("n", N::u(0)),
                ("t", N::d(vec![("x", N::sc(Sc::Bool(true))), ("y", N::sc(Sc::None))])),
            ]).dict().unwrap().clone();
            let mut m = Machine::new(1);
            let prof = *cx.of(&PROFS);
            m.add(cx, 0, Op::Merge, src(vec![("default", all)]), false);
            for _ in 0..3 {
                let op = *cx.of(&OPS);
                let (path, n) = cx.of(&places).clone();
                let path: Vec<&str> = path.split('.').collect();
                let t = at(&path, n).dict().unwrap().clone();
                m.add(cx, 0, op, src(vec![(prof, t)]), false);
            }
            m.select(cx, 0, "custom");
            cx.state(&m.c);
            let f = &m.f[0];
            let want = root(m.c[0].effective());
            let t: T = match f.extract() { Ok(t) => t, Err(e) => return fail("extract", format!("{e}")) };
            let src = src_in(f);
            let chk = |path: &[&str], t: figment::value::Tag| -> R {
                let n = want.find(path);
                let n = n.map(|n| n.src);
                ensure_eq!(Some(src(t)), n, "tag", "tag at {path:?}");
                Ok(())
            };
            chk(&["a"], t.a.tag())?;
            if let Some(o) = &t.o { chk(&["o"], o.tag())?; }
            let Some(M::A(s)) = want.find(&["s"]).map(|n| &n.v) else { return fail("s", "s") };
            ensure_eq!(t.s.len(), s.len(), "len", "elements");
            for (a, b) in t.s.iter().zip(s) { ensure_eq!(src(a.tag()), b.src, "elem", "element"); }
            ensure_eq!(t.m.len(), want.find(&["m"]).unwrap().dict().unwrap().len(), "len", "entries");
            for (k, v) in &t.m {
                chk(&["m", k], v.tag())?;
                chk(&["m", k], (**v).tag())?;
            }
            chk(&["t"], t.t.tag())?;
            chk(&["t", "x"], t.t.x.tag())?;
            chk(&["t", "y"], t.t.y.tag())?;
            if let Some(y) = &*t.t.y { chk(&["t", "y"], y.tag())?; }
            chk(&["n"], t.n.tag())?;
            chk(&["n"], (*t.n).tag())?;
            cx.checked(10);
            Ok(())
        }
    ));

    v.push(Scenario::new(
        "passed-on",
        "a provider that passes on values it took, in any of 4 ways, from a configuration that the one it \
         is added to knows or not, with new values inserted at any of 8 places: those already traceable \
         remain so, all others are the provider's",
        |cx| {
            let from = *cx.of(&["default", "GLOBAL", "custom"]);
            let to = *cx.of(&["Default", "global", "other"]);
            let known = cx.flag();
            let op = *cx.of(&OPS);
            let (how, place) = (cx.pick(4), cx.pick(8));
            let tree = N::d(vec![
                ("a", N::a(vec![N::u(1), N::d(vec![("b", N::u(2))])])), ("c", N::s("x")), ("e", N::d(vec![])),
            ]);
            let mut m = Machine::new(2);
            m.add(cx, 1, Op::Merge, src(vec![(from, one("k", tree))]), false);
            m.select(cx, 1, "custom");
            if known { m.add_conf(cx, 0, Op::Join, 1, false); }
            m.add(cx, 0, Op::Join, src(vec![("other", one("k", N::d(vec![("a", N::a(vec![N::s("z")]))])))]), false);

            let inner = &m.f[1];
            let r = match how {
                0 => inner.find_value("k"),
                1 => inner.extract_inner::<Value>("k"),
                2 => inner.extract::<Dict>().map(|mut d| d.remove("k").unwrap()),
                _ => inner.data().map(|mut d| d.remove(&Profile::new(from)).unwrap().remove("k").unwrap()),
            };
            let mut v = match r { Ok(v) => v, Err(e) => return fail("find", e.to_string()) };
            let mut n = m.c[1].effective()["k"].clone();
            if !known { n.set_src(NOSRC); }
            let fresh = N::d(vec![("z", N::a(vec![N::u(7)]))]);

            // The same change to both sides.
            let (Value::Dict(_, d), M::D(t)) = (&mut v, &mut n.v) else { return fail("find", "no dictionary") };
            match place {
                0 => {}
                1 => { d.insert("new".into(), 9.into()); t.insert("new".into(), N::sc(Sc::I32(9))); }
                2 => { d.insert("c".into(), 9.into()); t.insert("c".into(), N::sc(Sc::I32(9))); }
                3 => { d.insert("e".into(), fresh.value()); t.insert("e".into(), fresh); }
                4 | 5 => {
                    let (Some(Value::Array(_, d)), Some(N { v: M::A(t), .. })) = (d.get_mut("a"), t.get_mut("a"))
                        else { return fail("find", "no array") };
                    if place == 4 {
                        d.insert(0, fresh.value());
                        t.insert(0, fresh);
                    } else {
                        let (Value::Dict(_, d), M::D(t)) = (&mut d[1], &mut t[1].v) else { return fail("find", "no dict") };
                        d.insert("new".into(), fresh.value());
                        t.insert("new".into(), fresh);
                    }
                }
                6 => {
                    v = Value::from([("w".to_string(), v)].into_iter().collect::<Dict>());
                    n = N::d(vec![("w", n)]);
                }
                _ => { v = Value::from(vec![v, 5.into()]); n = N::a(vec![n, N::sc(Sc::I32(5))]); }
            }

            let id = m.next_id();
            m.names.push(format!("P{id}"));
            cx.op(|| format!("{op:?} P{id} with {} in {to}, taken from {from}", n.show()));
            cx.state(&(from, to, known, op, how, place));
            let p = Rich {
                md: Metadata::named(format!("P{id}")),
                data: [(Profile::new(to), [("k".to_string(), v)].into_iter().collect())].into_iter().collect(),
            };
            let s = Source { id, profile: None, data: Ok([(to.to_string(), one("k", n))].into_iter().collect()) };
            m.f[0] = op.apply(std::mem::take(&mut m.f[0]), p);
            m.c[0].add(&s, op);
            for p in ["other", "custom", "default"] {
                m.select(cx, 0, p);
                same_provenance(cx, &m.f[0], &m.c[0])?;
            }
            cx.outcome(&m.c[0]);
            m.compare(cx)
        }
    ));

    v.push(Scenario::new(
        "keys",
        "unusual keys, same or different, in each profile: provenance of every node",
        |cx| {
            let keys = odd_keys();
            let op = *cx.of(&OPS);
            let (a, b) = (cx.of(&keys).clone(), cx.of(&keys).clone());
            let p = *cx.of(&NAMES);
            let mut m = Machine::new(1);
            m.add(cx, 0, Op::Merge, src(vec![("default", one(&a, N::a(vec![N::u(1)])))]), false);
            m.add(cx, 0, op, src(vec![(p, one(&b, N::a(vec![N::u(2)])))]), false);
            m.select(cx, 0, p);
            cx.state(&m.c);
            m.compare(cx)
        }
    ));

    v
}

fn cx_flag(b: bool) -> bool { b }

struct Nothing;
impl Provider for Nothing {
    fn metadata(&self) -> Metadata { Metadata::default() }
    fn data(&self) -> Result<Map<Profile, Dict>, Error> { Ok(Map::new()) }
}
