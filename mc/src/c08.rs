//! Focusing: the focused configuration against lookups under the key.

use std::collections::BTreeMap;

use figment::error::{Error, Kind};
use figment::value::{magic::Tagged, Value};
use figment::{Figment, Provider};

use crate::c01::odd_keys;
use crate::c04::Steps;
use crate::c05::{bad_values, extract, replace, types};
use crate::c07::paths;
use crate::dynde::*;
use crate::engine::*;
use crate::model::*;
use crate::{ensure, ensure_eq};

/// What each of the layers that matter holds at the key: (a)bsent, (d)ictionary
/// or (o)ther. Where another value takes the place of a dictionary on the way
/// to the key, that's an other, too.
fn layers(c: &Conf, key: &[&str]) -> String {
    let kind = |p: &str| -> char {
        let Some(t) = c.data.get(p) else { return 'a' };
        let mut n = &root(t.clone());
        for k in key {
            match n.dict() {
                None => return 'o',
                Some(d) => match d.get(*k) { Some(m) => n = m, None => return 'a' },
            }
        }
        if n.dict().is_some() { 'd' } else { 'o' }
    };

    let custom = match &*c.profile { "default" | "global" => 'a', p => kind(p) };
    format!("{}/{}/{}", kind("default"), custom, kind("global"))
}

fn missing(path: &str) -> Kind { Kind::MissingField(path.to_string().into()) }

/// That looking up paths under `key` in `f` is the same as in `g`, the focused.
fn law(cx: &mut Cx, f: &Figment, c: &Conf, g: &Figment, key: &str, paths: &[String]) -> R {
    let keys: Vec<&str> = key.split('.').collect();
    let sig = format!("law:{}", layers(c, &keys));
    let src = src_in(f);
    let show = |r: &Result<Value, Error>| match r {
        Ok(v) => N::of(v, &src).show(), Err(e) => format!("error {e}"),
    };
    for p in paths {
        let full = format!("{key}.{p}");
        cx.checked(6);
        let (a, b) = (f.find_value(&full), g.find_value(p));
        match (&a, &b) {
            (Ok(v), Ok(w)) => {
                let (v, w) = (N::of(v, &src), N::of(w, &src_in(g)));
                if let Some(d) = differ(&w, &v, p) {
                    cx.soft(&sig, || format!("find_value({p:?}) focused on {key:?}: {d}"))?;
                    continue;
                }
            }
            (Err(v), Err(w)) => {
                ensure_eq!(v.kind, missing(&full), "missing", "find_value({full:?})");
                ensure_eq!(w.kind, missing(p), "missing", "find_value({p:?})");
            }
            _ => {
                cx.soft(&sig, || format!("find_value({full:?}): {}, but focused on {key:?}, \
                    find_value({p:?}): {}", show(&a), show(&b)))?;
                continue;
            }
        }
        if let (Ok(v), Ok(w)) = (&a, &b) { ensure_eq!(v.tag(), w.tag(), "tag", "tag of {full:?}"); }
        ensure_eq!(g.contains(p), f.contains(&full), "lookup", "contains({p:?})");
        let (v, w) = (f.find_metadata(&full), g.find_metadata(p));
        ensure_eq!(w, v, "lookup", "find_metadata({p:?})");
        ensure!(w.and_then(|m| m.provide_location) == v.and_then(|m| m.provide_location), "location", "{p:?}");
        let (v, w) = (f.extract_inner::<Tagged<Value>>(&full), g.extract_inner::<Tagged<Value>>(p));
        match (v, w) {
            (Ok(v), Ok(w)) => {
                ensure_eq!(v.tag(), w.tag(), "tag", "tagged {full:?}");
                ensure_eq!(N::of(&w, &src), N::of(&v, &src), "lookup", "tagged {p:?}");
            }
            (Err(_), Err(_)) => {}
            (v, w) => return fail("lookup", format!("tagged: {v:?} at {full:?}, focused {w:?} at {p:?}")),
        }
    }
    Ok(())
}

/// All that focusing guarantees, for a configuration and its model.
fn focused(cx: &mut Cx, m: &Machine, i: usize, key: &str, sels: &[&str], paths: &[String]) -> R {
    let (f, c) = (&m.f[i], &m.c[i]);
    cx.op(|| format!("focus on {key:?}, then select one of {sels:?}"));
    let before = f.data().unwrap();
    let g = f.focus(key);
    let mut d = c.clone();
    d.focus(key);
    cx.state(&(c, key));
    cx.outcome(&d.data);

    // What it holds and keeps.
    same_data(cx, &g, &d, &format!("focused on {key:?}"))?;
    same_sources(cx, &g, &d, &m.names)?;
    ensure_eq!(g.profile().as_str().as_str().to_ascii_lowercase(), c.profile, "selected", "focused on {key:?}");
    same_provenance(cx, &g, &d)?;
    for (a, b) in f.metadata().zip(g.metadata()) {
        ensure!(a == b && a.provide_location == b.provide_location, "metadata", "{a:?} became {b:?}");
    }

    // The original is as it was.
    cx.checked(2);
    ensure_eq!(f.data().unwrap(), before, "original", "original after focusing on {key:?}");
    m.compare_one(cx, i)?;

    // And so for every later selection.
    for s in sels {
        let (mut cs, mut ds) = (c.clone(), d.clone());
        cs.profile = s.to_string();
        ds.profile = s.to_string();
        let (fs, gs) = (f.clone().select(*s), g.clone().select(*s));
        same_provenance(cx, &gs, &ds)?;
        law(cx, &fs, &cs, &gs, key, paths)?;
    }

    // Repeatedly.
    if let Some((k, rest)) = key.split_once('.') {
        let h = f.focus(k).focus(rest);
        ensure_eq!(h.data().unwrap(), g.data().unwrap(), "compose", "focus on {k:?} then {rest:?}");
        for (a, b) in h.data().unwrap().iter().zip(g.data().unwrap().iter()) {
            let tags = |d: &figment::value::Dict| d.values().map(|v| v.tag()).collect::<Vec<_>>();
            ensure_eq!(tags(a.1), tags(b.1), "compose", "tags focused on {k:?} then {rest:?}");
        }
        ensure_eq!(h.profile(), g.profile(), "compose", "profile");
        ensure_eq!(h.metadata().collect::<Vec<_>>(), g.metadata().collect::<Vec<_>>(), "compose", "sources");
    }
    Ok(())
}

fn add(cx: &mut Cx, m: &mut Machine, profile: &str, t: Tree) {
    let s = Source { id: 0, profile: None, data: Ok([(profile.to_string(), t)].into_iter().collect()) };
    m.add(cx, 0, Op::Merge, s, false);
}

const SELS: [&str; 4] = ["default", "custom", "global", "other"];

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![];

    v.push(Scenario::new(
        "layers",
        "any of 21 shapes or nothing at a key (of one or two keys) of the default, the custom and the \
         global profile: focused on it, under 4 selections, at every path of up to 2 of 4 keys",
        move |cx| {
            let mut m = Machine::new(1);
            let shapes = shapes();
            let depth = cx.pick(2) + 1;
            for p in ["default", "custom", "global"] {
                let c = cx.pick(shapes.len() + 1);
                if c == 0 { continue; }
                let t = at(&["k", "l"][..depth], shapes[c - 1].clone());
                add(cx, &mut m, p, t.dict().unwrap().clone());
            }
            m.select(cx, 0, "custom");
            focused(cx, &m, 0, ["k", "k.l"][depth - 1], &SELS, &paths(&["x", "y", "z", "0"], 2))
        }
    ));

    v.push(Scenario::new(
        "paths",
        "keys of 1 to 3 keys, of which each of up to 4 profiles holds a part, all or another value \
         instead: under every selection",
        |cx| {
            let key = *cx.of(&["k", "k.k", "k.k.k", "k.l", "l"]);
            let mut m = Machine::new(1);
            for p in ["default", "custom", "global", "other"] {
                let n = match cx.pick(8) {
                    0 => continue,
                    1 => at(&["k"], N::u(1)),
                    2 => at(&["k", "k"], N::u(2)),
                    3 => at(&["k", "k", "k"], N::u(3)),
                    4 => at(&["k", "k", "k", "k"], N::u(4)),
                    5 => at(&["k", "k", "k", "l"], N::s(p)),
                    6 => at(&["k"], N::a(vec![at(&["k"], N::u(5))])),
                    _ => at(&["l", "k", "l"], N::u(6)),
                };
                add(cx, &mut m, p, n.dict().unwrap().clone());
            }
            m.select(cx, 0, "CUSTOM");
            focused(cx, &m, 0, key, &SELS, &paths(&["k", "l"], 3))
        }
    ));

    v.push(Scenario::new(
        "trees",
        "any two trees over 2 keys up to depth 2 below a key, in two of three profiles",
        |cx| {
            let leaves = [N::u(1), N::a(vec![N::s("e")])];
            let (p, q) = *cx.of(&[("default", "custom"), ("custom", "global")]);
            let a = any_dict(cx, &["a", "b"], &leaves, 2);
            let b = any_dict(cx, &["a", "b"], &leaves[..1], 2);
            let mut m = Machine::new(1);
            add(cx, &mut m, p, a);
            add(cx, &mut m, q, b);
            m.select(cx, 0, "custom");
            focused(cx, &m, 0, "a", &["default", "custom", "global"], &paths(&["a", "b"], 2))
        }
    ));

    let max = tier.sel(2, 3);
    v.push(Scenario::new(
        "histories",
        format!("every history of {max} steps over 2 configurations: add by any operation one of 4 \
            documents in different profiles or a configuration, select, focus, clone; then focus each on \
            each of 4 keys"),
        move |cx| {
            let src = |p: &str, n: N| Source {
                id: 0, profile: None,
                data: Ok([(p.to_string(), n.dict().unwrap().clone())].into_iter().collect()),
            };
            let deep = N::d(vec![("k", N::d(vec![("x", N::u(1)), ("k", N::d(vec![("x", N::a(vec![N::u(1)]))]))]))]);
            let other = N::d(vec![("k", N::d(vec![("x", N::u(2)), ("k", N::d(vec![("y", N::s("t"))]))])), ("x", N::u(9))]);
            let steps = Steps {
                docs: vec![src("default", deep.clone()), src("custom", other.clone()), src("global", other), src("OTHER", deep)],
                selects: vec!["custom", "other"], keys: vec!["k"],
            };
            let mut m = Machine::new(2);
            add(cx, &mut m, "default", at(&["k", "k"], N::d(vec![("k", N::d(vec![("y", N::u(7))]))])).dict().unwrap().clone());
            for _ in 0..max { steps.step(cx, &mut m)?; }
            m.compare(cx)?;
            let ps = paths(&["x", "y", "k"], 2);
            for i in 0..2 {
                for key in ["k", "k.k", "x", "k.k.k"] { focused(cx, &m, i, key, &["default", "custom", "global"], &ps)?; }
            }
            Ok(())
        }
    ));

    v.push(Scenario::new(
        "keys",
        "focus on paths of up to 2 of 25 unusual keys, beside dictionaries at the others",
        |cx| {
            let keys: Vec<String> = odd_keys().into_iter().filter(|k| !k.is_empty() && !k.contains('.')).collect();
            let n = cx.pick(2) + 1;
            let path: Vec<String> = (0..n).map(|_| cx.of(&keys).clone()).collect();
            let strs: Vec<&str> = path.iter().map(|s| s.as_str()).collect();
            let beside = cx.flag();
            let has = cx.flag();
            let sub = N::d(vec![("x", N::u(1)), (strs[0], N::d(vec![("y", N::u(2))]))]);
            let mut t = if has { at(&strs, sub) } else { N::d(vec![]) };
            let M::D(d) = &mut t.v else { unreachable!() };
            if beside {
                for (i, k) in keys.iter().enumerate() {
                    d.entry(k.clone()).or_insert(N::d(vec![("x", N::i(i as i64)), ("z", N::d(vec![]))]));
                }
                d.insert(path.join("."), N::d(vec![("x", N::s("dotted"))]));
                d.insert(String::new(), N::d(vec![("x", N::s("empty"))]));
            }
            let mut m = Machine::new(1);
            let prof = *cx.of(&["default", "custom"]);
            add(cx, &mut m, prof, d.clone());
            m.select(cx, 0, "custom");
            let ps = ["x".to_string(), format!("{}.y", strs[0]), "z".into(), path.join(".")];
            focused(cx, &m, 0, &path.join("."), &["default", "custom"], &ps)
        }
    ));

    v.push(Scenario::new(
        "sizes",
        "focus on paths of up to 129 keys on dictionaries with up to 129 keys, in up to 129 profiles",
        move |cx| {
            let depth = *cx.of(&[1usize, 2, 3, 4, 5, 8, 9, 16, 17, 32, 33, 64, 65, 129]);
            let width = *cx.of(&[1usize, 2, 8, 9, 33, 129]);
            let profs = *cx.of(&[1usize, 2, 3, 17, 33, 129]);
            if depth * width * profs > tier.sel(800, 6000) { return Err(Stop::Skip); }
            let keys: Vec<String> = (0..depth).map(|i| format!("k{}", i % 3)).collect();
            let strs: Vec<&str> = keys.iter().map(|s| s.as_str()).collect();
            let mut m = Machine::new(1);
            for i in 0..profs {
                let sub: Tree = (0..width).map(|w| (format!("w{w}"), N::a(vec![N::i(w as i64), N::i(i as i64)]))).collect();
                let name = match i { 0 => "default".to_string(), i => format!("p{i}") };
                add(cx, &mut m, &name, at(&strs, root(sub)).dict().unwrap().clone());
            }
            let last = format!("p{}", profs - 1);
            m.select(cx, 0, &last);
            let ps: Vec<String> = [0, 1, width / 2, width - 1, width].iter().map(|w| format!("w{w}")).collect();
            focused(cx, &m, 0, &keys.join("."), &["default", &last, "p1"], &ps)
        }
    ));

    let l = [Ty::U8, Ty::Bool, Ty::Str];
    v.push(Scenario::new(
        "errors",
        "typed extraction (leaf in up to 2 of 15 wrappings) of conforming values with each node replaced \
         by each of 17 others, from the configuration and from the focused one: same values and errors",
        move |cx| {
            let ty = rc(types(cx, tier.sel(1, 2), &l));
            let mut n = conforming(&ty, 0);
            let pos = cx.pick(6);
            let with = cx.of(&bad_values()).clone();
            if with.is_none() && pos == 0 { return Err(Stop::Skip); }
            if !replace(&mut n, &mut { pos }, &with) { return Err(Stop::Skip); }
            let prof = *cx.of(&["default", "custom", "global"]);
            let key = *cx.of(&["k", "k.l"]);
            let lossy = cx.flag();
            let mut path: Vec<&str> = key.split('.').collect();
            let depth = path.len();
            path.extend(["p", "q"]);
            let mut m = Machine::new(1);
            add(cx, &mut m, "default", one("k", N::d(vec![])));
            add(cx, &mut m, prof, at(&path, n).dict().unwrap().clone());
            m.select(cx, 0, "custom");
            cx.op(|| format!("{ty}, {}", if lossy { "lossy" } else { "strict" }));
            cx.state(&(&ty, &m.c[0]));
            let f = &m.f[0];
            let g = f.focus(key);
            let whole = rc(map(map((*ty).clone())));
            let pairs = [
                (extract(f, &whole, lossy, Some(key)), extract(&g, &whole, lossy, None)),
                (extract(f, &ty, lossy, Some(&path.join("."))), extract(&g, &ty, lossy, Some("p.q"))),
                (extract(f, &ty, lossy, Some(&format!("{key}.p.none"))), extract(&g, &ty, lossy, Some("p.none"))),
            ];
            for (i, (a, b)) in pairs.into_iter().enumerate() {
                cx.checked(5);
                match (a, b) {
                    (Ok(a), Ok(b)) => ensure_eq!(b, a, "typed", "value {i}"),
                    (Err(a), Err(b)) if i == 2 => ensure!(a.missing() && b.missing(), "missing", "{a} and {b}"),
                    (Err(a), Err(b)) => {
                        ensure_eq!(format!("{:?}", b.kind), format!("{:?}", a.kind), "kind", "error {i}");
                        ensure_eq!(b.path[..], a.path[depth..], "path", "path of error {i}");
                        ensure_eq!(a.path[..depth], path[..depth], "path", "path of error {i}");
                        ensure_eq!(b.metadata, a.metadata, "metadata", "of error {i}");
                        ensure_eq!(b.profile, a.profile, "profile", "of error {i}");
                        ensure_eq!(b.count(), a.count(), "count", "of error {i}");
                    }
                    (a, b) => return fail("typed", format!("{a:?}, but focused {b:?}")),
                }
            }
            Ok(())
        }
    ));

    v.push(Scenario::new(
        "failed",
        "focusing when a source, added by any operation before or after others, failed",
        |cx| {
            let mut m = Machine::new(1);
            let n = cx.pick(3) + 1;
            let at_ = cx.pick(n);
            for i in 0..n {
                let op = *cx.of(&OPS);
                let data: Result<BTreeMap<String, Tree>, usize> = match i == at_ {
                    true => Err(cx.pick(2) + 1),
                    false => Ok([("default".to_string(), at(&["k", "x"], N::u(1)).dict().unwrap().clone())].into_iter().collect()),
                };
                m.add(cx, 0, op, Source { id: 0, profile: None, data }, false);
            }
            let key = *cx.of(&["k", "k.x", "none"]);
            cx.state(&(&m.c, key));
            let g = m.f[0].focus(key);
            these_errors(cx, &g, &m.c[0], match g.extract::<Value>() { Err(e) => e, Ok(_) => return fail("masked", "focused") })?;
            let g = g.focus("k").select("other");
            these_errors(cx, &g, &m.c[0], match g.find_value("x") { Err(e) => e, Ok(_) => return fail("masked", "focused twice") })?;
            m.compare(cx)
        }
    ));

    v
}
