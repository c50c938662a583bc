//! The effective configuration: default, then selected, then global.

use std::collections::BTreeMap;

use figment::Figment;
use crate::c01::{mark, odd_keys};
use crate::engine::*;
use crate::ensure;
use crate::model::*;

type Data = BTreeMap<String, Tree>;

/// Compares all reads of `f` with the model, under the profile selected.
pub fn reads(cx: &mut Cx, f: &Figment, c: &Conf) -> R {
    let want = root(c.effective());
    let what = format!("under {}", c.profile);
    match extracted(f) {
        Ok(n) => same_tree(cx, &n, &want, &format!("extracted {what}"))?,
        Err(e) => return fail("extract", format!("extract {what} failed: {e}")),
    }

    // All keys that occur anywhere, so those that must not be seen too.
    let mut keys: Vec<&String> = c.data.values().flat_map(|t| t.keys()).collect();
    keys.sort();
    keys.dedup();
    for k in keys {
        if k.is_empty() || k.contains('.') { continue; }
        let n = want.find(&[k]);
        ensure!(f.contains(k) == n.is_some(), "contains", "contains({k:?}) {what}: {}", f.contains(k));
        match (f.find_value(k), n) {
            (Ok(v), Some(n)) => same_tree(cx, &N::of(&v, &nosrc), n, &format!("{k} {what}"))?,
            (Err(_), None) => {}
            (v, n) => return fail("find", format!("find_value({k:?}) {what}: got {v:?}, expected {n:?}")),
        }
    }

    Ok(())
}

fn source(id: usize, data: Data) -> Source {
    Source { id: id as u32, profile: None, data: Ok(data) }
}

const SELECT: [&str; 8] =
    ["one", "two", "none", "default", "global", "ONE", "Default", "GLOBAL"];

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![];

    v.push(Scenario::new(
        "shapes",
        "every triple of 22 shapes (one absent) at a key in default, selected and global profile, \
         6 shapes in another, 8 selections",
        |cx| {
            let shapes = shapes();
            let mut data = Data::new();
            let depth = cx.pick(2);
            for (p, n) in [("default", 22), ("one", 22), ("global", 22), ("two", 4)] {
                let i = cx.pick(n);
                let mut t = Tree::new();
                t.insert(format!("in-{p}"), N::s(p));
                if i > 0 {
                    // Mark the shape with its profile, to tell equal ones apart.
                    let i = if n == 4 { [0, 1, 12, 17][i] } else { i };
                    let m = mark(one("v", shapes[i - 1].clone()), i);
                    t.insert("k".into(), if depth == 0 { m["v"].clone() } else { root(m) });
                    data.insert(p.into(), t);
                } else if cx.flag() {
                    data.insert(p.into(), t);
                }
            }

            let s = source(1, data);
            let mut c = Conf::new();
            c.add(&s, Op::Merge);
            let f = Figment::new().merge(P::of(&s));
            for sel in SELECT {
                cx.op(|| format!("{:?} select {sel}", c.data));
                c.profile = sel.to_ascii_lowercase();
                let f = f.clone().select(sel);
                cx.state(&c);
                cx.outcome(&c.effective());
                reads(cx, &f, &c)?;
            }
            Ok(())
        }
    ).tasks(1500));

    v.push(Scenario::new(
        "trees",
        "any trees over 2 keys up to depth 2 with 2 leaves in default, selected and global",
        move |cx| {
            let leaves = [N::s("l"), N::a(vec![N::s("e")])];
            let mut data = Data::new();
            let keys: &[&str] = &["a", "b"];
            for (i, p) in ["default", "one", "global"].into_iter().enumerate() {
                let d = if tier == Tier::Thorough || i == cx_deep(cx, i) { 2 } else { 1 };
                let t = any_dict(cx, keys, &leaves, d);
                data.insert(p.into(), mark(t, i));
            }
            let s = source(1, data);
            let mut c = Conf::new();
            c.add(&s, Op::Merge);
            c.profile = "one".into();
            cx.op(|| format!("{:?}", c.data));
            cx.state(&c);
            let f = Figment::new().merge(P::of(&s)).select("one");
            reads(cx, &f, &c)
        }
    ).devs(1));

    v.push(Scenario::new(
        "arrival",
        "data for 4 profiles arriving in every order and by every operation, by one source for \
         each, with selections made before, between or after",
        |cx| {
            let mut profs = vec!["default", "one", "global", "two"];
            let mut f = Figment::new();
            let mut c = Conf::new();
            let when = cx.pick(5);
            let sel = *cx.of(&SELECT);
            let shape = cx.pick(3);
            for i in 0..4 {
                if when == i {
                    f = f.select(sel);
                    c.profile = sel.to_ascii_lowercase();
                }
                let p = profs.remove(cx.pick(profs.len()));
                let op = *cx.of(&OPS);
                let n = match shape {
                    0 => N::s(p),
                    1 => N::a(vec![N::s(p)]),
                    _ => N::d(vec![(p, N::s(p)), ("all", N::s(p))]),
                };
                let mut t = one("k", n);
                t.insert(format!("in-{p}"), N::s(p));
                let s = source(i + 1, [(p.to_string(), t)].into_iter().collect());
                cx.op(|| format!("{op:?} {s:?}"));
                f = op.apply(f, P::of(&s));
                c.add(&s, op);
                cx.state(&c);
            }
            if when == 4 {
                f = f.select(sel);
                c.profile = sel.to_ascii_lowercase();
            }
            cx.outcome(&c.effective());
            reads(cx, &f, &c)
        }
    ));

    v.push(Scenario::new(
        "many",
        "1 to 200 profiles with data and 0 to 65 keys each, selected in turn (every one in the \
         thorough tier, else the first, middle and last and one with no data), with and without data in default and global",
        move |cx| {
            let n = *cx.of(&[1, 2, 3, 4, 5, 8, 16, 17, 33, 64, 65, 100, 200]);
            let keys = *cx.of(&[0, 1, 2, 3, 8, 9, 17, 33, 65]);
            let (def, glob) = (cx.flag(), cx.flag());
            let mut data = Data::new();
            let tree = |p: &str| -> Tree {
                let mut t: Tree = (0..keys).map(|i| (format!("k{i}"), N::s(p))).collect();
                t.insert("d".into(), N::d(vec![(p, N::s(p)), ("who", N::s(p))]));
                t
            };
            for i in 0..n { data.insert(format!("p{i}"), tree(&format!("p{i}"))); }
            if def { data.insert("default".into(), tree("default")); }
            if glob {
                data.insert("global".into(), one("k0", N::s("global")));
            }
            let s = source(1, data);
            let mut c = Conf::new();
            c.add(&s, Op::Merge);
            let f = Figment::new().merge(P::of(&s));
            let sel = match tier {
                Tier::Thorough => cx.pick(n + 2),
                Tier::Quick => {
                    let mut sels = vec![0, 1, n / 2, n - 1, n];
                    sels.dedup();
                    *cx.of(&sels)
                }
            };
            let sel = format!("p{sel}");
            cx.op(|| format!("{n} profiles, {keys} keys, select {sel}"));
            c.profile = sel.clone();
            cx.state(&c.effective());
            let f = f.select(sel.as_str());
            reads(cx, &f, &c)
        }
    ));

    v.push(Scenario::new(
        "names",
        "unusual profile names, selected exactly, in another case or as a neighbouring name",
        |cx| {
            let mut names = odd_keys();
            names.extend(["defaul", "defaults", "default ", "globa", "globals", "glob", "custom",
                "a", "b", "ab", "debug", "release"].map(|s| s.to_string()));
            let (a, b) = (cx.of(&names).clone(), cx.of(&names).clone());
            let sel = match cx.pick(3) {
                0 => a.clone(),
                1 => a.to_ascii_uppercase(),
                _ => a.to_ascii_lowercase(),
            };
            let mut data = Data::new();
            data.insert("default".into(), one("k", N::s("default")));
            data.insert(a.to_ascii_lowercase(), one("k", N::s("a")));
            data.insert(b.to_ascii_lowercase(), one("k", N::s("b")));
            let glob = cx.flag();
            if glob { data.entry("global".into()).or_default().insert("g".into(), N::s("g")); }
            let s = source(1, data);
            let mut c = Conf::new();
            c.add(&s, Op::Merge);
            c.profile = sel.to_ascii_lowercase();
            cx.op(|| format!("profiles {a:?} {b:?}, select {sel:?}"));
            cx.state(&c);
            let f = Figment::new().merge(P::of(&s)).select(sel.as_str());
            reads(cx, &f, &c)
        }
    ));

    v
}

// At most one of the profiles has a deep tree.
fn cx_deep(cx: &mut Cx, i: usize) -> usize {
    if cx.dev(2) == 1 { i } else { usize::MAX }
}
