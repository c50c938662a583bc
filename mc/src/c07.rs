//! Lookups: existence, value, reference, metadata and extraction at a path.

use std::collections::BTreeMap;

use figment::error::Kind;
use figment::providers::Serialized;
use figment::util::nest;
use figment::value::{magic::Tagged, Value};
use figment::Figment;

use crate::c01::odd_keys;
use crate::c05::{extract, types};
use crate::dynde::*;
use crate::engine::*;
use crate::model::*;
use crate::{ensure, ensure_eq};

/// Compares every way of looking up the path with the model.
pub fn look(cx: &mut Cx, f: &Figment, whole: &Value, want: &N, path: &str) -> R {
    let keys: Vec<&str> = path.split('.').collect();
    let n = want.find(&keys);
    let src = src_in(f);
    cx.checked(8);
    ensure_eq!(f.contains(path), n.is_some(), "contains", "contains({path:?})");
    let r = whole.find_ref(path);
    ensure_eq!(r.map(|v| N::of(v, &src)), n.cloned(), "find_ref", "find_ref({path:?}) in whole");
    let v = whole.clone().find(path);
    ensure_eq!(v.map(|v| N::of(&v, &src)), n.cloned(), "find", "find({path:?}) in whole");
    let results = [
        ("find_value", f.find_value(path)),
        ("extract_inner", f.extract_inner::<Value>(path)),
        ("extract_inner_lossy", f.extract_inner_lossy::<Value>(path)),
        ("tagged", f.extract_inner::<Tagged<Value>>(path).map(|t| t.into_inner())),
    ];
    for (what, r) in results {
        match (r, n) {
            (Ok(v), Some(n)) => {
                if let Some(d) = differ(&N::of(&v, &src), n, path) { return fail(what, format!("{what}: {d}")); }
            }
            (Err(e), None) => {
                ensure_eq!(e.kind, Kind::MissingField(path.to_string().into()), what, "{what}({path:?})");
                ensure!(e.missing(), what, "{what}({path:?}): not missing()");
            }
            (Ok(v), None) => return fail(what, format!("{what}({path:?}): got {v:?}, expected none")),
            (Err(e), Some(n)) => return fail(what, format!("{what}({path:?}): {e}, expected {}", n.show())),
        }
    }

    let md = f.find_metadata(path);
    ensure_eq!(id_of(md), n.map_or(0, |n| n.src.id), "find_metadata", "find_metadata({path:?})");
    Ok(())
}

fn look_all(cx: &mut Cx, f: &Figment, c: &Conf, paths: &[String]) -> R {
    let want = root(c.effective());
    let whole: Value = match f.extract() { Ok(v) => v, Err(e) => return fail("extract", e.to_string()) };
    if let Some(d) = differ(&N::of(&whole, &src_in(f)), &want, "") { return fail("whole", d); }
    for p in paths { look(cx, f, &whole, &want, p)?; }
    cx.outcome(&paths.iter().map(|p| want.find(&p.split('.').collect::<Vec<_>>()).is_some()).collect::<Vec<_>>());
    Ok(())
}

/// All paths of up to `n` keys.
pub fn paths(keys: &[&str], n: usize) -> Vec<String> {
    let mut all: Vec<String> = keys.iter().map(|k| k.to_string()).collect();
    let mut last = all.clone();
    for _ in 1..n {
        last = last.iter().flat_map(|p| keys.iter().map(move |k| format!("{p}.{k}"))).collect();
        all.extend(last.iter().cloned());
    }
    all
}

fn conf(cx: &mut Cx, data: Vec<(&str, Tree)>) -> (Figment, Conf) {
    let mut m = Machine::new(1);
    for (p, t) in data {
        let s = Source { id: 0, profile: None, data: Ok([(p.to_string(), t)].into_iter().collect()) };
        m.add(cx, 0, Op::Merge, s, false);
    }
    m.select(cx, 0, "custom");
    (m.f.pop().unwrap(), m.c.pop().unwrap())
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![];

    v.push(Scenario::new(
        "trees",
        "any tree over 2 keys with 3 leaves up to depth 2 in one profile: every path of up to 4 of \
         3 keys",
        |cx| {
            let leaves = [N::u(1), N::a(vec![N::s("e"), N::d(vec![("a", N::u(1))])]), N::sc(Sc::None)];
            let prof = *cx.of(&["default", "custom", "global"]);
            let t = any_dict(cx, &["a", "b"], &leaves, 2);
            let (f, c) = conf(cx, vec![(prof, t)]);
            cx.state(&c);
            look_all(cx, &f, &c, &paths(&["a", "b", "0"], 4))
        }
    ));

    v.push(Scenario::new(
        "layers",
        "any pair of 21 shapes at paths of depth 1 and 2 in any two of three profiles: every path of \
         up to 4 of 4 keys",
        move |cx| {
            let shapes = shapes();
            let (p, q) = *cx.of(&[("default", "custom"), ("custom", "global"), ("default", "global"),
                ("default", "default")]);
            let (da, db) = (1 + cx.pick(2), 1 + cx.pick(2));
            let a = at(&["x", "y"][..da], cx.of(&shapes).clone());
            let b = at(&["x", "y"][..db], cx.of(&shapes).clone());
            let (f, c) = conf(cx, vec![
                (p, a.dict().unwrap().clone()), (q, b.dict().unwrap().clone()),
            ]);
            cx.state(&c);
            look_all(cx, &f, &c, &paths(&["x", "y", "z", "0"], tier.sel(3, 4)))
        }
    ));

    v.push(Scenario::new(
        "keys",
        "paths of up to 3 of 25 unusual keys, present in whole, in part or not, in a dictionary that \
         also has the others",
        |cx| {
            let keys: Vec<String> = odd_keys().into_iter().filter(|k| !k.is_empty() && !k.contains('.')).collect();
            let n = cx.pick(3) + 1;
            let path: Vec<String> = (0..n).map(|_| cx.of(&keys).clone()).collect();
            let strs: Vec<&str> = path.iter().map(|s| s.as_str()).collect();
            let others = cx.pick(3);
            let kept = cx.pick(n + 1);
            let mut t = match kept { 0 => N::d(vec![]), k => at(&strs[..k], N::u(1)) };
            let M::D(d) = &mut t.v else { unreachable!() };
            match others {
                0 => {}
                1 => for (i, k) in keys.iter().enumerate() { d.entry(k.clone()).or_insert(N::u(i as u8)); },
                _ => {
                    d.insert(path.join("."), N::s("dotted"));
                    d.insert(String::new(), N::s("empty"));
                }
            }
            let p = path.join(".");
            let (f, c) = conf(cx, vec![("default", t.dict().unwrap().clone())]);
            cx.state(&(&p, kept, others));
            look_all(cx, &f, &c, &[p])
        }
    ));

    v.push(Scenario::new(
        "deep",
        "paths of up to 129 keys, found at, above and below their end, in dictionaries with up to \
         129 keys",
        |cx| {
            let sizes = [1usize, 2, 3, 4, 7, 8, 9, 15, 16, 17, 32, 33, 64, 65, 100, 128, 129];
            let depth = *cx.of(&sizes);
            let width = *cx.of(&[1usize, 2, 9, 33, 129]);
            let end = cx.of(&[N::u(1), N::a(vec![N::u(1)]), N::d(vec![])]).clone();
            let prof = *cx.of(&["default", "custom", "global"]);
            let keys: Vec<String> = (0..depth).map(|i| format!("k{}", i % 3)).collect();
            let strs: Vec<&str> = keys.iter().map(|s| s.as_str()).collect();
            let mut t = at(&strs, end);
            let M::D(d) = &mut t.v else { unreachable!() };
            for i in 0..width { d.insert(format!("w{i}"), N::d(vec![("v", N::i(i as i64))])); }
            let (f, c) = conf(cx, vec![(prof, t.dict().unwrap().clone())]);
            cx.state(&c);
            let all = keys.join(".");
            let mut ps = vec![all.clone(), format!("{all}.k0"), format!("k1.{all}"), format!("{all}x"),
                strs[..depth / 2 + 1].join("."), strs[..depth - 1].join(".") + ".none"];
            ps.retain(|p| !p.starts_with('.'));
            ps.extend([0, 1, width / 2, width - 1, width].iter().map(|i| format!("w{i}.v")));
            look_all(cx, &f, &c, &ps)
        }
    ));

    v.push(Scenario::new(
        "nest",
        "values of 21 shapes nested at every path of up to 4 of 4 keys (and of up to 129 keys): \
         found there and nothing else is there",
        |cx| {
            let shapes = shapes();
            let n = cx.of(&shapes).clone();
            let keys: Vec<String> = match cx.pick(3) {
                0 => (0..cx.pick(4) + 1).map(|_| cx.of(&["a", "b", "0", "é"]).to_string()).collect(),
                1 => vec![cx.of(&odd_keys()).clone()].into_iter().filter(|k| !k.is_empty() && !k.contains('.')).collect(),
                _ => (0..*cx.of(&[5usize, 8, 9, 16, 17, 33, 64, 129])).map(|i| format!("k{}", i % 2)).collect(),
            };
            if keys.is_empty() { return Err(Stop::Skip); }
            let strs: Vec<&str> = keys.iter().map(|s| s.as_str()).collect();
            let path = strs.join(".");
            cx.op(|| format!("{path}: {}", n.show()));
            cx.state(&(&path, &n));
            let want = at(&strs, n.clone());
            let v = nest(&path, n.value());
            cx.checked(5);
            ensure_eq!(N::of(&v, &nosrc), want, "nest", "nest({path:?})");
            ensure_eq!(v.find_ref(&path).map(|v| N::of(v, &nosrc)), Some(n.clone()), "find_ref", "{path:?}");
            ensure_eq!(v.clone().find(&path).map(|v| N::of(&v, &nosrc)), Some(n.clone()), "find", "{path:?}");
            // The same through sources with a key.
            let f = Figment::new().merge(Serialized::default(&path, n.value()));
            let whole: Value = f.extract().map_err(|e| Stop::Fail { sig: "extract".into(), msg: e.to_string() })?;
            ensure_eq!(N::of(&whole, &nosrc), want, "serialized", "serialized at {path:?}");
            let g = Figment::new().merge((&path, n.value()));
            let whole: Value = g.extract().map_err(|e| Stop::Fail { sig: "extract".into(), msg: e.to_string() })?;
            ensure_eq!(N::of(&whole, &nosrc), want, "pair", "pair at {path:?}");
            for f in [f, g] {
                ensure!(f.contains(&path), "contains", "contains({path:?})");
                let v = f.find_value(&path).map_err(|e| Stop::Fail { sig: "find_value".into(), msg: e.to_string() })?;
                ensure_eq!(N::of(&v, &nosrc), n, "find_value", "find_value({path:?})");
                ensure!(f.find_metadata(&path).is_some(), "find_metadata", "find_metadata({path:?})");
            }
            Ok(())
        }
    ));

    let l = [Ty::U8, Ty::Bool, Ty::Str];
    v.push(Scenario::new(
        "typed",
        "typed extraction (leaf in up to 2 of 15 wrappings) at a path of any of 36 values yields what \
         extraction of the whole does there",
        move |cx| {
            let ty = types(cx, 2, &l);
            let mut vals = shapes();
            vals.push(conforming(&ty, 0));
            let n = cx.of(&vals).clone();
            let lossy = cx.flag();
            let (f, c) = conf(cx, vec![("default", at(&["a", "b"], n).dict().unwrap().clone())]);
            cx.op(|| format!("{ty}"));
            cx.state(&(&ty, &c));
            let whole = extract(&f, &rc(map(map(ty.clone()))), lossy, None);
            let inner = extract(&f, &rc(map(ty.clone())), lossy, Some("a"));
            let deep = extract(&f, &rc(ty.clone()), lossy, Some("a.b"));
            cx.checked(2);
            let src = src_in(&f);
            let get = |o: Out, k: &str| match o { Out::Map(mut m) => m.remove(k).unwrap(), o => o };
            let w = whole.map(|o| get(get(o, "a"), "b").resolve(&src));
            let i = inner.map(|o| get(o, "b").resolve(&src));
            let d = deep.map(|o| o.resolve(&src));
            ensure_eq!(i, w, "inner", "at a and as a whole");
            ensure_eq!(d, w, "deep", "at a.b and as a whole");
            Ok(())
        }
    ));

    v.push(Scenario::new(
        "absent-everywhere",
        "lookups in configurations without data, with empty profiles, or with the path in another \
         profile only",
        |cx| {
            let kind = cx.pick(4);
            let sel = *cx.of(&["default", "custom", "global", "other"]);
            let path = *cx.of(&["a", "a.b", "a.b.c", "default", "custom.a"]);
            let mut m = Machine::new(1);
            let t = at(&["a", "b"], N::d(vec![("c", N::u(1))])).dict().unwrap().clone();
            let data: Option<BTreeMap<String, Tree>> = match kind {
                0 => None,
                1 => Some(BTreeMap::new()),
                2 => Some([("default".to_string(), Tree::new()), ("custom".into(), Tree::new())].into_iter().collect()),
                _ => Some([("another".to_string(), t)].into_iter().collect()),
            };
            if let Some(d) = data { m.add(cx, 0, Op::Merge, Source { id: 0, profile: None, data: Ok(d) }, false); }
            m.select(cx, 0, sel);
            cx.state(&(&m.c, path));
            look_all(cx, &m.f[0], &m.c[0], &[path.to_string()])
        }
    ));

    v
}
