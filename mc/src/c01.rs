//! Conflict resolution: any sequence of layers against the documented table.

use std::collections::BTreeMap;

use figment::Figment;
use crate::engine::*;
use crate::model::*;
use crate::ensure;

/// Adds the layers to both sides and compares.
pub fn run(cx: &mut Cx, layers: &[(Op, String, Tree)]) -> R<(Figment, Conf)> {
    let mut f = Figment::new();
    let mut c = Conf::new();
    for (i, (op, prof, tree)) in layers.iter().enumerate() {
        let s = Source {
            id: i as u32 + 1, profile: None,
            data: Ok([(prof.clone(), tree.clone())].into_iter().collect()),
        };

        cx.op(|| format!("{op:?} {prof}: {}", show_tree(tree)));
        f = op.apply(f, P::of(&s));
        c.add(&s, *op);
        cx.state(&c.data);
    }

    same_data(cx, &f, &c, "data")?;
    cx.outcome(&c.data);
    Ok((f, c))
}

/// As `run`, and also compares what is extracted under each profile.
fn run_and_read(cx: &mut Cx, layers: &[(Op, String, Tree)]) -> R {
    let (f, c) = run(cx, layers)?;
    for p in c.data.keys() {
        let f = f.clone().select(p.as_str());
        let want = root(c.effective_for(p));
        match extracted(&f) {
            Ok(n) => same_tree(cx, &n, &want, &format!("extracted under {p}"))?,
            Err(e) => return fail("extract", format!("extract under {p} failed: {e}")),
        }

        for (k, n) in want.dict().unwrap() {
            if k.is_empty() || k.contains('.') { continue; }
            match f.find_value(k) {
                Ok(v) => same_tree(cx, &N::of(&v, &nosrc), n, &format!("value at {k}"))?,
                Err(e) => return fail("find", format!("find_value({k:?}) failed: {e}")),
            }
        }
    }
    Ok(())
}

const PROFS: [&str; 3] = ["default", "global", "custom"];
const SIZES: [usize; 24] = [
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 129
];

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![];

    v.push(Scenario::new(
        "pairs",
        "two layers: 21 value shapes x 21 x 4 operations for the second, and for the first, at \
         depths 0 to 4, in each kind of profile, alone or beside other keys",
        |cx| {
            let shapes = shapes();
            let depth = cx.pick(5);
            let prof = *cx.of(&PROFS);
            let op = *cx.of(&OPS);
            let first = *cx.of(&OPS);
            let beside = cx.flag();
            let a = cx.of(&shapes).clone();
            let b = cx.of(&shapes).clone();
            let path = &["k", "l", "m", "n"][..depth];
            let mk = |n: N, own: &str| {
                let mut t = at(path, N::d(vec![("v", n)]));
                if beside {
                    let M::D(d) = &mut t.v else { unreachable!() };
                    d.insert(own.into(), N::s(own));
                    d.insert("both".into(), N::s(own));
                }
                t.dict().unwrap().clone()
            };

            run_and_read(cx, &[
                (first, prof.into(), mk(a, "a")), (op, prof.into(), mk(b, "b")),
            ])
        }
    ));

    let n = tier.sel(2, 3);
    v.push(Scenario::new(
        "triples",
        format!("three layers of any of the 21 shapes at one key, and any operations, up to \
            depth {n}"),
        move |cx| {
            let shapes = shapes();
            let depth = cx.pick(n);
            let path = &["k", "l", "m", "n"][..depth];
            let ops = [Op::Merge, *cx.of(&OPS), *cx.of(&OPS)];
            let layers: Vec<_> = ops.iter().map(|op| {
                let n = cx.of(&shapes).clone();
                let t = at(path, N::d(vec![("v", n)]));
                (*op, "default".to_string(), t.dict().unwrap().clone())
            }).collect();
            run(cx, &layers).map(|_| ())
        }
    ));

    v.push(Scenario::new(
        "two-trees",
        "two layers of any trees over 2 keys and 4 leaves up to depth 2, any operation",
        |cx| {
            let leaves = [N::u(1), N::a(vec![]), N::a(vec![N::s("e")]), N::sc(Sc::None)];
            let op = *cx.of(&OPS);
            let a = any_dict(cx, &["a", "b"], &leaves, 2);
            let b = any_dict(cx, &["a", "b"], &leaves, 2);
            run(cx, &[(Op::Merge, "default".into(), a), (op, "default".into(), b)]).map(|_| ())
        }
    ));

    let max = tier.sel(4, 5);
    v.push(Scenario::new(
        "sequences",
        format!("sequences of up to {max} layers, each any operation with any of 9 documents with \
            overlapping keys, over 2 profiles"),
        move |cx| {
            let docs = docs();
            let n = cx.pick(max) + 1;
            let mut layers = vec![];
            for i in 0..n {
                let op = *cx.of(&OPS);
                // The position of a layer is marked in its values.
                let doc = cx.of(&docs).clone();
                let doc = mark(doc, i);
                let prof = if n < max && cx.flag() { "custom" } else { "default" };
                layers.push((op, prof.to_string(), doc));
            }
            run(cx, &layers).map(|_| ())
        }
    ));

    v.push(Scenario::new(
        "many-layers",
        "up to 129 layers with operations in every pattern of period up to 3, elements and values \
         marked with the layer",
        |cx| {
            let n = *cx.of(&SIZES);
            let period = 1 + cx.pick(3);
            let ops: Vec<Op> = (0..period).map(|_| *cx.of(&OPS)).collect();
            let shape = cx.pick(4);
            let layers: Vec<_> = (0..n).map(|i| {
                let e = N::i(i as i64);
                let mut t = match shape {
                    0 => one("k", e.clone()),
                    1 => one("k", N::a(vec![e.clone()])),
                    2 => one("k", N::d(vec![(&format!("k{}", i % 7), e.clone()), ("s", e.clone())])),
                    _ => one("k", N::d(vec![("a", N::a(vec![e.clone(), N::s("x")]))])),
                };
                t.insert(format!("own{i}"), e);
                (ops[i % period], "default".to_string(), t)
            }).collect();
            run_and_read(cx, &layers)
        }
    ));

    v.push(Scenario::new(
        "wide-and-deep",
        "dictionaries and arrays with 0 to 129 entries on either side, overlapping fully, partly \
         or not at all, and nesting of up to 129, any operation",
        |cx| {
            let op = *cx.of(&OPS);
            match cx.pick(4) {
                0 => {
                    let (a, b) = (*cx.of(&SIZES), *cx.of(&SIZES));
                    let from = [0, a / 2, a][cx.pick(3)];
                    let arr = |lo: usize, n: usize, own: i64| -> Tree {
                        (lo..lo + n).map(|i| (
                            format!("k{i:03}"), N::d(vec![("v", N::i(own)), ("i", N::i(i as i64))])
                        )).collect()
                    };
                    run_and_read(cx, &[
                        (Op::Merge, "default".into(), arr(0, a, 1)),
                        (op, "default".into(), arr(from, b, 2)),
                    ])
                }
                1 => {
                    let (a, b) = (*cx.of(&SIZES), *cx.of(&SIZES));
                    let arr = |n: usize, own: i64| one("k", N::d(vec![(
                        "arr", N::a((0..n).map(|i| N::i(own * 1000 + i as i64)).collect())
                    )]));
                    run_and_read(cx, &[
                        (Op::Merge, "custom".into(), arr(a, 1)), (op, "custom".into(), arr(b, 2)),
                    ])
                }
                2 => {
                    let depth = *cx.of(&SIZES);
                    let (a, b) = (cx.pick(3), cx.pick(3));
                    let end = |s: usize, own: i64| match s {
                        0 => N::i(own),
                        1 => N::a(vec![N::i(own)]),
                        _ => N::d(vec![(if own == 1 { "a" } else { "b" }, N::i(own))]),
                    };
                    let keys: Vec<String> = (0..depth).map(|i| format!("k{}", i % 3)).collect();
                    let path: Vec<&str> = keys.iter().map(|s| s.as_str()).collect();
                    let mk = |n: N| one("top", at(&path, n));
                    run_and_read(cx, &[
                        (Op::Merge, "default".into(), mk(end(a, 1))),
                        (op, "default".into(), mk(end(b, 2))),
                    ])
                }
                _ => {
                    // One ends where the other goes on.
                    let (da, db) = (*cx.of(&SIZES), *cx.of(&SIZES));
                    let path = |n: usize| vec!["k"; n];
                    run_and_read(cx, &[
                        (Op::Merge, "default".into(), one("top", at(&path(da), N::i(1)))),
                        (op, "default".into(), one("top", at(&path(db), N::i(2)))),
                    ])
                }
            }
        }
    ));

    v.push(Scenario::new(
        "keys",
        "pairs of keys from 24 unusual ones (empty, dotted, cased, spaced, unicode, long, \
         numeric), same or different, any operation and two shapes",
        |cx| {
            let keys = odd_keys();
            let op = *cx.of(&OPS);
            let (a, b) = (cx.of(&keys).clone(), cx.of(&keys).clone());
            let arrays = cx.flag();
            let depth = cx.pick(2);
            let mk = |k: &str, own: i64| {
                let n = if arrays { N::a(vec![N::i(own)]) } else { N::i(own) };
                let t = one(k, n);
                if depth == 0 { t } else { one(k, root(t)) }
            };
            run_and_read(cx, &[
                (Op::Merge, "default".into(), mk(&a, 1)), (op, "default".into(), mk(&b, 2)),
            ])
        }
    ));

    v.push(Scenario::new(
        "profiles",
        "two or three sources each providing any of 3 documents to each of 4 profiles at once, \
         any operation: profiles never mix",
        move |cx| {
            let docs = [
                Tree::new(),
                one("k", N::a(vec![N::s("d")])),
                one("k", N::d(vec![("x", N::s("d"))])),
            ];
            let profs = ["default", "global", "one", "two"];
            let n = 2 + tier.sel(0, cx.pick(2));
            let mut f = Figment::new();
            let mut c = Conf::new();
            for id in 1..=n {
                let op = if id == 1 { Op::Merge } else { *cx.of(&OPS) };
                let mut data = BTreeMap::new();
                for p in profs {
                    let d = cx.pick(docs.len() + 1);
                    if d > 0 { data.insert(p.to_string(), mark(docs[d - 1].clone(), id * 10)); }
                }
                let s = Source { id: id as u32, profile: None, data: Ok(data) };
                cx.op(|| format!("{op:?} {s:?}"));
                f = op.apply(f, P::of(&s));
                c.add(&s, op);
                cx.state(&c);
            }
            same_data(cx, &f, &c, "data")
        }
    ));

    v.push(Scenario::new(
        "empty",
        "adding a source with no profiles, empty profiles or itself again changes nothing else",
        |cx| {
            let shapes = shapes();
            let a = one("k", cx.of(&shapes).clone());
            let op = *cx.of(&OPS);
            let prof = *cx.of(&PROFS);
            let kind = cx.pick(3);
            let base = Source {
                id: 1, profile: None, data: Ok([("default".to_string(), a)].into_iter().collect())
            };
            let mut f = Figment::new().merge(P::of(&base));
            let mut c = Conf::new();
            c.add(&base, Op::Merge);
            let s = Source {
                id: 2, profile: None,
                data: match kind {
                    0 => Ok(BTreeMap::new()),
                    1 => Ok([(prof.to_string(), Tree::new())].into_iter().collect()),
                    _ => base.data.clone(),
                }
            };
            cx.op(|| format!("{op:?} {:?}", s.data));
            let front = cx.flag();
            if front {
                f = op.apply(Figment::new().merge(P::of(&s)), P::of(&base));
                c = Conf::new();
                c.add(&s, Op::Merge);
                c.add(&base, op);
            } else {
                f = op.apply(f, P::of(&s));
                c.add(&s, op);
            }
            cx.state(&c);
            same_data(cx, &f, &c, "data")?;
            match extracted(&f) {
                Ok(n) => same_tree(cx, &n, &root(c.effective()), "extracted"),
                Err(e) => { ensure!(false, "extract", "extract failed: {e}"); Ok(()) }
            }
        }
    ));

    v.push(Scenario::new(
        "formats",
        "arrays of 0 to 12 elements on both sides, bare or nested in an array or a dictionary, from each pair \
         of 6 kinds of source (TOML, JSON, YAML, an environment variable, a serialized value and a plain \
         provider), by any operation",
        |cx| {
            let (a, b) = (cx.pick(13), cx.pick(13));
            let op = *cx.of(&OPS);
            let (ka, kb) = (cx.pick(6), cx.pick(6));
            let nest = cx.pick(2);
            let mk = |len: usize, own: i64| {
                let n = N::a((0..len).map(|i| N::i(own * 100 + i as i64)).collect());
                if nest == 1 { N::d(vec![("in", n), (if own == 1 { "x" } else { "y" }, N::i(own))]) } else { n }
            };
            cx.op(|| format!("{a} of kind {ka} {op:?} {b} of kind {kb}"));
            cx.state(&(a, b, op, ka, kb, nest));
            let (na, nb) = (mk(a, 1), mk(b, 2));
            let f = add_as(Figment::new(), Op::Merge, ka, &na);
            let f = add_as(f, op, kb, &nb);
            let want = combine(na, nb, op);
            let v: figment::value::Value = match f.extract_inner("k") {
                Ok(v) => v,
                Err(e) => return fail("extract", e.to_string()),
            };
            // Formats differ in the types of integers.
            let got = signed(N::of(&v, &nosrc));
            cx.outcome(&got);
            same_tree(cx, &got, &want, "k")
        }
    ));

    v
}

/// Adds the value at `k` by one of several kinds of source.
fn add_as(f: Figment, op: Op, kind: usize, n: &N) -> Figment {
    use figment::providers::*;
    fn json(n: &N) -> String {
        match &n.v {
            M::S(Sc::I64(i)) => i.to_string(),
            M::S(s) => panic!("{s:?}"),
            M::A(v) => format!("[{}]", v.iter().map(json).collect::<Vec<_>>().join(", ")),
            M::D(d) => format!("{{{}}}", d.iter().map(|(k, n)| format!("{k:?}: {}", json(n))).collect::<Vec<_>>().join(", ")),
        }
    }
    match kind {
        0 => op.apply(f, Toml::string(&format!("k = {}", json(n).replace(": ", " = "))).profile("default")),
        1 => op.apply(f, Json::string(&format!("{{\"k\": {}}}", json(n)))),
        2 => op.apply(f, Yaml::string(&format!("k: {}", json(n)))),
        3 => {
            std::env::set_var("MCONE_K", json(n).replace(": ", " = "));
            let f = op.apply(f, Env::prefixed("MCONE_").profile("default"));
            std::env::remove_var("MCONE_K");
            f
        }
        4 => op.apply(f, Serialized::default("k", n.value())),
        _ => op.apply(f, P::ok(1, "default", &one("k", n.clone()))),
    }
}

fn signed(n: N) -> N {
    N::new(match n.v {
        M::S(s) => M::S(match crate::dynde::int(&s) {
            Some((false, m)) => Sc::I64(m as i64),
            _ => s,
        }),
        M::A(v) => M::A(v.into_iter().map(signed).collect()),
        M::D(d) => M::D(d.into_iter().map(|(k, n)| (k, signed(n))).collect()),
    })
}

pub fn docs() -> Vec<Tree> {
    vec![
        one("a", N::i(0)),
        one("a", N::a(vec![N::i(0)])),
        one("a", N::d(vec![("x", N::i(0))])),
        one("a", N::d(vec![("x", N::a(vec![N::i(0)])), ("y", N::i(0))])),
        one("a", N::sc(Sc::None)),
        one("b", N::d(vec![])),
        N::d(vec![("a", N::a(vec![])), ("b", N::i(0))]).dict().unwrap().clone(),
        N::d(vec![("a", N::d(vec![("x", N::d(vec![("z", N::i(0))]))])), ("b", N::a(vec![N::i(0)]))])
            .dict().unwrap().clone(),
        Tree::new(),
    ]
}

/// Adds `by` to every number, so that equal documents remain distinguishable.
pub fn mark(mut t: Tree, by: usize) -> Tree {
    fn go(n: &mut N, by: i64) {
        match &mut n.v {
            M::S(Sc::I64(v)) => *v += by,
            M::S(Sc::Str(s)) => s.push_str(&by.to_string()),
            M::S(_) => {}
            M::A(v) => v.iter_mut().for_each(|n| go(n, by)),
            M::D(d) => d.values_mut().for_each(|n| go(n, by)),
        }
    }
    t.values_mut().for_each(|n| go(n, by as i64));
    t
}

pub fn odd_keys() -> Vec<String> {
    let mut v: Vec<String> = [
        "", "k", "K", "kk", " k", "k ", " ", "k.l", ".", "k.", ".k", "é", "É", "日本", "k-l", "k_l",
        "0", "1", "10", "default", "global", "Default", "\n", "\u{0}", "{}", "profile"
    ].iter().map(|s| s.to_string()).collect();
    v.push("long".repeat(100));
    v
}
