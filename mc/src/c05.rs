//! Extraction errors: path, kind, source and profile, for every target type.

use std::rc::Rc;

use figment::error::{Error, Kind};
use figment::value::Value;
use figment::{Figment, Profile, Provider};
use figment::providers::{Env, Format, Json, Serialized, Toml, Yaml};

use crate::c01::odd_keys;
use crate::dynde::*;
use crate::engine::*;
use crate::model::*;
use crate::{ensure, ensure_eq};

pub const PROFS: [&str; 5] = ["default", "global", "custom", "GLOBAL", "Default"];

pub fn extract(f: &Figment, ty: &Rc<Ty>, lossy: bool, at: Option<&str>) -> Result<Out, Error> {
    with(ty, None, || match (lossy, at) {
        (false, None) => f.extract::<Dyn>(),
        (true, None) => f.extract_lossy::<Dyn>(),
        (false, Some(p)) => f.extract_inner::<Dyn>(p),
        (true, Some(p)) => f.extract_inner_lossy::<Dyn>(p),
    }).map(|d| d.0)
}

/// Compares a result with what it must be.
pub fn compare(
    cx: &mut Cx, f: &Figment, got: Result<Out, Error>, want: &Result<Out, Bad>, root: &[&str],
) -> R {
    cx.checked(1);
    let got = got.map(|o| o.resolve(&src_in(f)));
    match (got, want) {
        (Ok(got), Ok(want)) => {
            ensure!(same_out(&got, want), "value", "got {got:?}, expected {want:?}");
        }
        (Ok(got), Err(want)) => return fail("accepted", format!("got {got:?}, expected {want:?}")),
        (Err(e), Ok(want)) => {
            return fail("rejected", format!("got error {e} (path {:?}), expected {want:?}", e.path));
        }
        (Err(e), Err(want)) => {
            let mut path: Vec<String> = root.iter().map(|s| s.to_string()).collect();
            path.extend(want.path.iter().cloned());
            ensure_eq!(e.path, path, "path", "path of error `{e}`");
            ensure!(same_kind(&e.kind, &want.kind), "kind", "kind of error at {path:?}: got {:?}, \
                expected {:?}", e.kind, want.kind);
            ensure_eq!(id_of(e.metadata.as_ref()), want.src.id, "source", "source of error `{e}` {path:?}");
            if want.src.id > 0 {
                let prof = match want.src.prof {
                    Prof::Default => Profile::Default,
                    Prof::Global => Profile::Global,
                    Prof::Custom => f.profile().clone(),
                };
                ensure_eq!(e.profile, Some(prof), "profile", "profile of error `{e}`");
                // All that is known of the source.
                let md = f.metadata().find(|m| id_of(Some(m)) == want.src.id).cloned();
                ensure_eq!(e.metadata, md, "metadata", "metadata of error `{e}`");
                ensure!(e.metadata.as_ref().unwrap().provide_location
                    == md.as_ref().unwrap().provide_location, "location", "location of error `{e}`");
            }
            ensure_eq!(e.count(), 1, "count", "errors");
            ensure!(e.missing() == matches!(want.kind, Kind::MissingField(_)), "missing", "missing()");
        }
    }
    Ok(())
}

/// As equality, with NaN equal to itself.
fn same_kind(a: &Kind, b: &Kind) -> bool { a == b || format!("{a:?}") == format!("{b:?}") }
pub fn same_out(a: &Out, b: &Out) -> bool { a == b }

/// Divides a value among two sources, to be combined with `adjoin`.
pub fn split(n: &N, mode: usize) -> (Option<N>, Option<N>) {
    match &n.v {
        M::D(d) if mode > 0 && !d.is_empty() => {
            let (mut a, mut b) = (Tree::new(), Tree::new());
            for (i, (k, n)) in d.iter().enumerate() {
                match n.v {
                    M::S(_) if (i + mode) % 2 == 0 => { b.insert(k.clone(), n.clone()); }
                    _ => {
                        let (x, y) = split(n, mode);
                        if let Some(x) = x { a.insert(k.clone(), x); }
                        if let Some(y) = y { b.insert(k.clone(), y); }
                    }
                }
            }
            let some = |t: Tree| (!t.is_empty()).then(|| root(t));
            (some(a), some(b))
        }
        M::A(v) if mode > 0 && !v.is_empty() => {
            let at = if mode == 1 { v.len() / 2 } else { v.len().div_ceil(2) };
            let some = |v: &[N]| (!v.is_empty()).then(|| N::a(v.to_vec()));
            (some(&v[..at]), some(&v[at..]))
        }
        _ if mode == 2 => (None, Some(n.clone())),
        _ => (Some(n.clone()), None),
    }
}

/// A configuration with the value at the path.
pub fn build(cx: &mut Cx, path: &[&str], n: &N, mode: usize, prof: &str) -> (Figment, Conf) {
    let mut m = Machine::new(1);
    let (a, b) = split(n, mode);
    for n in [a, b] {
        let mut t = N::d(vec![]);
        if let Some(n) = n { t = at(path, n); }
        let s = Source {
            id: 0, profile: None,
            data: Ok([(prof.to_string(), t.dict().unwrap().clone())].into_iter().collect()),
        };
        m.add(cx, 0, Op::Adjoin, s, false);
    }
    m.select(cx, 0, if prof == "custom" { "custom" } else { "other" });
    (m.f.pop().unwrap(), m.c.pop().unwrap())
}

/// The paths of all nodes, by position.
fn count(n: &N) -> usize {
    1 + match &n.v {
        M::S(_) => 0,
        M::A(v) => v.iter().map(count).sum(),
        M::D(d) => d.values().map(count).sum(),
    }
}

/// Replaces (or with none, removes) the node at the position.
pub fn replace(n: &mut N, pos: &mut usize, with: &Option<N>) -> bool {
    if *pos == 0 {
        if let Some(w) = with { *n = w.clone(); }
        return true;
    }
    *pos -= 1;
    match &mut n.v {
        M::S(_) => false,
        M::A(v) => {
            for i in 0..v.len() {
                if *pos == 0 && with.is_none() { v.remove(i); return true; }
                if replace(&mut v[i], pos, with) { return true; }
            }
            false
        }
        M::D(d) => {
            for k in d.keys().cloned().collect::<Vec<_>>() {
                if *pos == 0 && with.is_none() { d.remove(&k); return true; }
                if replace(d.get_mut(&k).unwrap(), pos, with) { return true; }
            }
            false
        }
    }
}

pub fn bad_values() -> Vec<Option<N>> {
    vec![
        None, Some(N::s("bad")), Some(N::i(-300)), Some(N::sc(Sc::f64(1.5))), Some(N::sc(Sc::None)),
        Some(N::sc(Sc::Unit)), Some(N::a(vec![])), Some(N::d(vec![])),
        Some(N::d(vec![("zz", N::s("bad"))])), Some(N::a(vec![N::d(vec![]), N::s("bad"), N::s("b")])),
        Some(N::sc(Sc::Bool(true))), Some(N::sc(Sc::Char('0'))), Some(N::u(255)), Some(N::s("1")),
        Some(N::d(vec![("Va", N::s("bad"))])), Some(N::s("Va")), Some(N::s("Vd")),
    ]
}

/// Types nested up to two deep around each leaf.
pub fn types(cx: &mut Cx, depth: usize, leaves: &[Ty]) -> Ty {
    let mut t = cx.of(leaves).clone();
    let d = cx.pick(depth + 1);
    for _ in 0..d {
        let w = wrap(&t, &Ty::U8);
        t = cx.of(&w).clone();
    }
    t
}

const WAYS: [(&str, &[&str]); 5] = [
    ("whole", &["a"]), ("inner", &["a"]), ("deep whole", &["a", "a"]), ("deep inner", &["p", "q", "a"]),
    ("focus", &["p", "a"]),
];

/// Extracts the value in one of several ways.
fn way(
    cx: &mut Cx, f: &Figment, c: &Conf, ty: &Ty, lossy: bool, way: usize,
) -> R {
    let eff = root(c.effective());
    let (name, path) = WAYS[way];
    let (at, ty, f, below) = match name {
        "whole" => (None, strukt(vec![ty.clone()]), f.clone(), vec![]),
        "deep whole" => (None, strukt(vec![strukt(vec![ty.clone()])]), f.clone(), vec![]),
        "focus" => (None, strukt(vec![ty.clone()]), f.focus("p"), vec!["p"]),
        _ => (Some(path.join(".")), ty.clone(), f.clone(), path.to_vec()),
    };

    cx.note(|| format!("{name} {ty}{}", if lossy { " lossy" } else { "" }));
    let ty = rc(ty);
    let got = extract(&f, &ty, lossy, at.as_deref());
    let n = match (eff.find(&below), at.as_deref()) {
        (Some(n), _) => n.clone(),
        (None, None) => N::d(vec![]),
        (None, Some(at)) => {
            return compare(cx, &f, got, &Err(Bad {
                path: vec![], src: NOSRC, kind: Kind::MissingField(at.to_string().into())
            }), &[]);
        }
    };
    // What is at the root has no source.
    let mut n = n;
    if at.is_none() { n.src = NOSRC; }
    let want = expect(&n, &ty, lossy);
    cx.outcome(&want.as_ref().map_err(|b| format!("{:?}", b.kind)).map(|_| ()));
    compare(cx, &f, got, &want, if at.is_some() { path } else { &[] })
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    let mut lv = leaves();
    lv.extend([Ty::Rel, Ty::Value, Ty::Ignored, Ty::U128, Ty::UnitStruct]);

    let l = vec![Ty::Bool, Ty::U8, Ty::Str, Ty::Unit, Ty::Rel];
    v.push(Scenario::new(
        "one-wrong",
        "target types (leaf wrapped in up to 2 of 15 ways) with a conforming value in which any one \
         node is replaced by any of 16 others or removed, split among two sources in 3 ways; \
         3 profiles (by names in any case), strict and lossy, extracted whole, at a path and focused",
        move |cx| {
            let ty = types(cx, 2, &l);
            let mut n = conforming(&ty, 0);
            let bad = bad_values();
            let mut pos = cx.pick(count(&n));
            let with = cx.of(&bad).clone();
            if pos == 0 && with.is_none() { return Err(Stop::Skip); }
            replace(&mut n, &mut pos, &with);
            let (mode, prof, lossy, w) = match tier {
                Tier::Thorough => (cx.pick(3), *cx.of(&PROFS), cx.flag(), cx.pick(5)),
                // A covering selection.
                Tier::Quick => {
                    let k = cx.pick(5);
                    ([1, 2, 0, 1, 2][k], PROFS[[4, 1, 2, 3, 0][k]], [false, false, true, false, true][k], k)
                }
            };
            cx.op(|| format!("{ty}: {}", n.show()));
            cx.state(&(&ty, &n));
            let (f, c) = build(cx, WAYS[w].1, &n, mode, prof);
            way(cx, &f, &c, &ty, lossy, w)
        }
    ).tasks(2000));

    v.push(Scenario::new(
        "any-value",
        "target types (12 leaves wrapped in up to 2 of 15 ways) with any of 36 values, strict and \
         lossy, whole and at paths of 1 and 3 keys: the right value or the right error, never a panic",
        move |cx| {
            let ty = types(cx, 2, &lv);
            let mut vals = shapes();
            vals.extend(bad_values().into_iter().flatten());
            let n = cx.of(&vals).clone();
            let lossy = cx.flag();
            cx.op(|| format!("{ty}: {}", n.show()));
            cx.state(&(&ty, &n));
            let (f, c) = build(cx, &["a"], &n, 1, "default");
            way(cx, &f, &c, &ty, lossy, 0)?;
            way(cx, &f, &c, &ty, lossy, 1)?;
            let (f, c) = build(cx, WAYS[3].1, &n, 1, "default");
            way(cx, &f, &c, &ty, lossy, 3)
        }
    ).tasks(2000));

    v.push(Scenario::new(
        "sizes",
        "sequences, tuples, maps and arrays of maps of 1 to 129 elements of which any one is wrong, \
         by two sources divided at any of several points, by 4 operations",
        |cx| {
            let n = *cx.of(&[1usize, 2, 3, 9, 10, 11, 12, 33, 64, 100, 101, 129]);
            let at = cx.pick(n);
            let shape = cx.pick(4);
            let cut = [0, 1, n / 2, n][cx.pick(4)].min(n);
            let prof = *cx.of(&PROFS);
            let op = *cx.of(&OPS);
            let good = |i: usize| match shape {
                3 => N::d(vec![("a", N::u(i as u8)), ("b", N::u(1))]),
                _ => N::u(i as u8),
            };
            let wrong = match shape { 3 => N::d(vec![("a", N::s("bad")), ("b", N::u(1))]), _ => N::s("bad") };
            let all: Vec<N> = (0..n).map(|i| if i == at { wrong.clone() } else { good(i) }).collect();
            let mk = |v: &[N], from: usize| match shape {
                2 => root(v.iter().enumerate().map(|(i, n)| (format!("k{}", from + i), n.clone())).collect()),
                _ => N::a(v.to_vec()),
            };
            let ty = match shape {
                0 => seq(Ty::U8),
                1 => tup(vec![Ty::U8; n]),
                2 => map(Ty::U8),
                _ => seq(strukt(vec![Ty::U8, Ty::U8])),
            };
            let mut m = Machine::new(1);
            for n in [mk(&all[..cut], 0), mk(&all[cut..], cut)] {
                m.add(cx, 0, op, Source { id: 0, profile: None, data: Ok(
                    [(prof.to_string(), one("a", n))].into_iter().collect()
                )}, false);
            }
            m.select(cx, 0, "custom");
            cx.state(&m.c);
            way(cx, &m.f[0], &m.c[0], &ty, false, 0)?;
            way(cx, &m.f[0], &m.c[0], &ty, true, 1)
        }
    ));

    v.push(Scenario::new(
        "depths",
        "types nested up to 129 deep by every pattern of period up to 2 of 13 wrappings, with the \
         innermost value wrong, right or missing",
        |cx| {
            let depth = *cx.of(&[1usize, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100, 129]);
            let period = 1 + cx.pick(2);
            let pat: Vec<usize> = (0..period).map(|_| cx.pick(15)).collect();
            let mut ty = Ty::U8;
            for i in 0..depth { ty = wrap(&ty, &Ty::U8).swap_remove(pat[i % period]); }
            // One path only: containers with two conforming elements get one.
            let mut n = lean(&ty, cx.pick(4));
            if n.v == M::S(Sc::None) { n = N::u(0); }
            let lossy = cx.flag();
            cx.op(|| format!("{ty}: {}", n.show()));
            cx.state(&(&pat, depth, &n));
            let (f, c) = build(cx, &["a"], &n, 0, "default");
            way(cx, &f, &c, &ty, lossy, 0)?;
            way(cx, &f, &c, &ty, lossy, 1)?;
            let (f, c) = build(cx, WAYS[3].1, &n, 1, "default");
            way(cx, &f, &c, &ty, lossy, 3)
        }
    ));

    v.push(Scenario::new(
        "keys",
        "wrong values under one or two unusual keys, alone or among others",
        |cx| {
            let keys = odd_keys();
            let (a, b) = (cx.of(&keys).clone(), cx.of(&keys).clone());
            let others = cx.flag();
            let mut inner = one(&b, N::s("bad"));
            if others { inner.insert("m".into(), N::u(1)); }
            let mut t = one(&a, root(inner));
            if others { t.insert("n".into(), N::d(vec![])); }
            let n = root(t);
            let ty = map(map(Ty::U8));
            cx.op(|| n.show());
            cx.state(&n);
            let (f, c) = build(cx, &["a"], &n, 1, "global");
            way(cx, &f, &c, &ty, false, 0)?;
            way(cx, &f, &c, &ty, false, 1)?;
            let (f, c) = build(cx, &["p", "a"], &n, 2, "custom");
            way(cx, &f, &c, &ty, true, 4)
        }
    ));

    v.push(Scenario::new(
        "absent",
        "extraction at paths of up to 4 keys, of which any does not exist or leads into a scalar or \
         array: a missing-field error that names the path",
        |cx| {
            let n = cx.pick(4) + 1;
            let keys = ["k", "x", "0", "S"];
            let path: Vec<&str> = (0..n).map(|_| *cx.of(&keys)).collect();
            let doc = N::d(vec![
                ("k", N::d(vec![("k", N::d(vec![("x", N::u(1)), ("S", N::sc(Sc::None))])),
                    ("x", N::a(vec![N::u(1)])), ("0", N::s("str"))])),
                ("x", N::d(vec![])), ("S", N::u(3)),
            ]);
            let prof = *cx.of(&PROFS);
            let s = Source { id: 1, profile: None, data: Ok(
                [(prof.to_string(), doc.dict().unwrap().clone())].into_iter().collect()
            )};
            let f = Figment::new().merge(P::of(&s)).select("custom");
            let at = path.join(".");
            cx.op(|| at.clone());
            cx.state(&(&at, prof));
            let want = doc.find(&path);
            cx.outcome(&want);
            let lossy = cx.flag();
            let r = extract(&f, &rc(Ty::Value), lossy, Some(&at));
            let r2 = f.find_value(&at);
            for r in [r.map(|o| match o { Out::Value(v) => v, _ => unreachable!() }), r2] {
                cx.checked(1);
                match (r, want) {
                    (Ok(v), Some(n)) => same_tree(cx, &N::of(&v, &nosrc), n, &at)?,
                    (Err(e), None) => {
                        ensure_eq!(e.kind, Kind::MissingField(at.clone().into()), "kind", "kind");
                        ensure!(e.missing() && e.count() == 1, "missing", "missing: {e:?}");
                    }
                    (r, w) => return fail("absent", format!("{at}: got {r:?}, expected {w:?}")),
                }
            }
            Ok(())
        }
    ));

    v.push(Scenario::new(
        "formats",
        "wrong values from each of 8 kinds of source over a valid default from another: the error \
         carries that source's metadata and the profile",
        |cx| {
            let kind = cx.pick(8);
            let prof = *cx.of(&PROFS);
            let deep = cx.flag();
            std::env::set_var("MCFIVE_A", if deep { "{b=\"bad\"}" } else { "bad" });
            std::fs::write("five.toml", if deep { "[a]\nb = 'bad'" } else { "a = 'bad'" }).unwrap();
            let text = if deep { "{\"a\": {\"b\": \"bad\"}}" } else { "{\"a\": \"bad\"}" };
            let n = if deep { N::d(vec![("b", N::s("bad"))]) } else { N::s("bad") };
            let tree = one("a", n.clone());
            let f = Figment::new().merge(P::ok(9, "default", &match deep {
                true => one("a", N::d(vec![("b", N::u(1)), ("a", N::u(1))])),
                false => one("a", N::u(1)),
            }));
            cx.op(|| format!("source {kind}, {prof}, deep {deep}"));
            cx.state(&(kind, prof, deep));
            fn go<P: Provider>(f: Figment, p: P) -> (Figment, String) {
                let name = p.metadata().name.to_string();
                (f.merge(p), name)
            }
            let mut prof = prof;
            let (f, name) = match kind {
                0 => go(f, Toml::file("five.toml").profile(prof)),
                1 => go(f, Json::string(text).profile(prof)),
                2 => go(f, Yaml::string(text).profile(prof)),
                3 => go(f, Env::prefixed("MCFIVE_").profile(prof)),
                4 => go(f, Serialized::from(dict_value(&tree), prof)),
                5 => { prof = "global"; go(f, ("a", n.value())) }
                6 => go(f, Serialized::from(n.value(), prof).key("a")),
                _ => go(f, P::ok(3, prof, &tree)),
            };
            let f = f.select("custom");
            let ty = rc(if deep { strukt(vec![map(Ty::U8)]) } else { strukt(vec![Ty::U8]) });
            for at in [None, Some("a")] {
                let ty = match at { None => ty.clone(), _ => rc(if deep { map(Ty::U8) } else { Ty::U8 }) };
                let Err(e) = extract(&f, &ty, false, at) else { return fail("accepted", "accepted") };
                cx.checked(5);
                let path: &[&str] = if deep { &["a", "b"] } else { &["a"] };
                ensure_eq!(e.path, path, "path", "path");
                ensure_eq!(e.kind, Kind::InvalidType(figment::error::Actual::Str("bad".into()), "u8".into()),
                    "kind", "kind");
                let md = e.metadata.clone();
                ensure_eq!(md.as_ref().map(|m| m.name.to_string()), Some(name.clone()), "name", "name");
                ensure_eq!(md.as_ref(), f.find_metadata(&path.join(".")), "metadata", "metadata");
                ensure_eq!(md.as_ref().and_then(|m| m.provide_location).map(|l| l.line()),
                    f.find_metadata("a").and_then(|m| m.provide_location).map(|l| l.line()), "loc", "location");
                ensure_eq!(e.profile, Some(Profile::new(prof)), "profile", "profile");
            }
            // A dynamic value's own extraction fails alike.
            let v: Value = f.find_value("a").map_err(|e| Stop::Fail { sig: "find".into(), msg: e.to_string() })?;
            ensure_eq!(with(&rc(Ty::Bool), None, || v.deserialize::<Dyn>()).is_err(), true, "value", "bool");
            Ok(())
        }
    ));

    v
}

/// A conforming value without siblings; `end` says what is wrong with it.
fn lean(ty: &Ty, end: usize) -> N {
    let go = |t: &Ty| lean(t, end);
    match ty {
        Ty::U8 => match end {
            0 => N::s("bad"),
            1 => N::u(7),
            2 => N::d(vec![]),
            _ => N::s("1"),
        },
        Ty::Opt(t) | Ty::Newtype(t) | Ty::Tagged(t) => go(t),
        Ty::Seq(t) => N::a(vec![go(t)]),
        Ty::Map(_, t) => N::d(vec![("p", go(t))]),
        // Only one of the elements is nested; leaves beside it conform.
        Ty::Tup(ts) | Ty::TupStruct(ts) => N::a(ts.iter().map(|t| side(t, ts, end)).collect()),
        Ty::Struct(_, ts) => N::d(ts.iter().enumerate().map(|(i, t)| (FIELDS[i], side(t, ts, end))).collect()),
        Ty::Enum(vs) => match &vs[0] {
            Var::Newtype(t) => N::d(vec![("Va", go(t))]),
            Var::Tup(ts) => N::d(vec![("Va", N::a(ts.iter().map(|t| side(t, ts, end)).collect()))]),
            Var::Struct(ts) => N::d(vec![("Va", N::d(
                ts.iter().enumerate().map(|(i, t)| (FIELDS[i], side(t, ts, end))).collect()
            ))]),
            Var::Unit => N::s("Va"),
        },
        t => conforming(t, 0),
    }
}

fn side(t: &Rc<Ty>, all: &[Rc<Ty>], end: usize) -> N {
    let nested = all.iter().any(|t| **t != Ty::U8);
    if nested && **t == Ty::U8 { N::u(1) } else { lean(t, end) }
}
