//! Values in code: built, inspected, compared and read without a configuration.

use std::collections::BTreeMap;

use figment::error::Actual;
use figment::providers::{Format, Json, Serialized, Yaml};
use figment::value::{Dict, Empty, Map, Num, Tag, Value};
use figment::Figment;

use crate::c01::odd_keys;
use crate::c05::{bad_values, extract, replace, types};
use crate::c09::leaf_values;
use crate::c10::INTS;
use crate::dynde::*;
use crate::engine::*;
use crate::model::*;
use crate::{ensure, ensure_eq};

/// Every accessor agrees on what the value is.
fn accessors(cx: &mut Cx, v: &Value, n: &N) -> R {
    cx.checked(1);
    let sc = match &n.v { M::S(s) => Some(s.clone()), _ => None };
    let num = sc.as_ref().filter(|s| int(s).is_some() || matches!(s, Sc::F32(_) | Sc::F64(_)));
    let string = match &sc { Some(Sc::Str(s)) => Some(s.clone()), _ => None };
    let char = match &sc { Some(Sc::Char(c)) => Some(*c), _ => None };
    let boolean = match &sc { Some(Sc::Bool(b)) => Some(*b), _ => None };
    let empty = match &sc { Some(Sc::None) => Some(Empty::None), Some(Sc::Unit) => Some(Empty::Unit), _ => None };
    ensure_eq!(v.as_str(), string.as_deref(), "as_str", "{v:?}");
    ensure_eq!(v.clone().into_string(), string, "into_string", "{v:?}");
    ensure_eq!(v.to_char(), char, "to_char", "{v:?}");
    ensure_eq!(v.to_bool(), boolean, "to_bool", "{v:?}");
    ensure_eq!(v.to_empty(), empty, "to_empty", "{v:?}");
    ensure_eq!(v.to_num().map(|n| Sc::of(&Value::from(n)).unwrap()), num.cloned(), "to_num", "{v:?}");
    ensure_eq!(v.as_dict().is_some(), matches!(n.v, M::D(_)), "as_dict", "{v:?}");
    ensure_eq!(v.as_array().is_some(), matches!(n.v, M::A(_)), "as_array", "{v:?}");
    let dict = |d: &Dict| d.iter().map(|(k, v)| (k.clone(), N::of(v, &nosrc))).collect::<Tree>();
    let array = |a: &[Value]| a.iter().map(|v| N::of(v, &nosrc)).collect::<Vec<_>>();
    match &n.v {
        M::D(d) => {
            ensure_eq!(&dict(v.as_dict().unwrap()), d, "as_dict", "contents");
            ensure_eq!(v.clone().into_dict().as_ref().map(dict), Some(d.clone()), "into_dict", "contents");
            ensure!(v.clone().into_array().is_none(), "into_array", "{v:?}");
            for (k, n) in d { accessors(cx, &v.as_dict().unwrap()[k], n)?; }
        }
        M::A(a) => {
            ensure_eq!(&array(v.as_array().unwrap()), a, "as_array", "contents");
            ensure_eq!(v.clone().into_array().as_deref().map(array), Some(a.clone()), "into_array", "contents");
            ensure!(v.clone().into_dict().is_none(), "into_dict", "{v:?}");
            for (v, n) in v.as_array().unwrap().iter().zip(a) { accessors(cx, v, n)?; }
        }
        M::S(_) => ensure!(v.clone().into_dict().is_none() && v.clone().into_array().is_none(), "into", "{v:?}"),
    }
    let want = match sc.as_ref().and_then(int) {
        Some((false, m)) if unsigned(sc.as_ref().unwrap()) => Actual::Unsigned(m),
        Some((neg, m)) => Actual::Signed(if neg { (m as i128).wrapping_neg() } else { m as i128 }),
        None => match (&n.v, &sc) {
            (M::D(_), _) => Actual::Map,
            (M::A(_), _) => Actual::Seq,
            (_, Some(Sc::Str(s))) => Actual::Str(s.clone()),
            (_, Some(Sc::Char(c))) => Actual::Char(*c),
            (_, Some(Sc::Bool(b))) => Actual::Bool(*b),
            (_, Some(Sc::F32(f))) => Actual::Float(f32::from_bits(*f).into()),
            (_, Some(Sc::F64(f))) => Actual::Float(f64::from_bits(*f)),
            (_, Some(Sc::None)) => Actual::Option,
            _ => Actual::Unit,
        },
    };
    let got = v.to_actual();
    ensure!(got == want || format!("{got:?}") == format!("{want:?}"), "to_actual", "{got:?}, not {want:?}");
    if let Some(e) = v.to_empty() { ensure_eq!(e.to_actual(), want, "to_actual", "{e:?}"); }
    Ok(())
}

/// Equal but for where they come from and how wide their numbers are.
fn equal(a: &N, b: &N) -> bool {
    let float = |s: &Sc| match s { Sc::F32(f) => Some(f32::from_bits(*f) as f64), Sc::F64(f) => Some(f64::from_bits(*f)), _ => None };
    match (&a.v, &b.v) {
        (M::S(a), M::S(b)) => match (int(a), int(b), float(a), float(b)) {
            (Some(x), Some(y), ..) => unsigned(a) == unsigned(b) && x == y,
            (_, _, Some(x), Some(y)) => x == y,
            _ => a == b,
        },
        (M::A(a), M::A(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| equal(a, b)),
        (M::D(a), M::D(b)) => a.len() == b.len() && a.iter().zip(b).all(|((k, a), (l, b))| k == l && equal(a, b)),
        _ => false,
    }
}

/// All leaf values, arrays and dictionaries of them, and shapes.
fn pool() -> Vec<N> {
    let mut all: Vec<N> = shapes();
    let mut tys = INTS.to_vec();
    tys.extend([Ty::Bool, Ty::F32, Ty::F64, Ty::Char, Ty::Str, Ty::Unit]);
    for ty in tys { all.extend(leaf_values(&ty).into_iter().map(N::sc)); }
    all.push(N::sc(Sc::None));
    let few: Vec<N> = [Sc::U8(1), Sc::I64(1), Sc::U64(1), Sc::f32(1.0), Sc::f64(1.0), Sc::Str("1".into()), Sc::Char('1'), Sc::Bool(true)]
        .map(N::sc).to_vec();
    for n in &few {
        all.extend([N::a(vec![n.clone()]), N::d(vec![("0", n.clone())]), N::a(vec![n.clone(), n.clone()]),
            N::d(vec![("1", n.clone())]), N::d(vec![("0", N::a(vec![n.clone()]))])]);
    }
    let mut seen = std::collections::BTreeSet::new();
    all.retain(|n| seen.insert(n.clone()));
    all
}

fn is(cx: &mut Cx, what: &str, v: &Value, n: &N) -> R {
    cx.checked(1);
    ensure_eq!(&N::of(v, &nosrc), n, "conversion", "{what}");
    fn untagged(v: &Value) -> bool {
        v.tag().is_default() && match v {
            Value::Dict(_, d) => d.values().all(untagged),
            Value::Array(_, a) => a.iter().all(untagged),
            _ => true,
        }
    }
    ensure!(untagged(v), "conversion", "{what}: has a source");
    accessors(cx, v, n)
}

/// Every conversion of lists and dictionaries of a type.
fn conversions<T>(cx: &mut Cx, ts: &[T]) -> R
    where T: Into<Value> + Clone + serde::Serialize
{
    let ns: Vec<N> = ts.iter().map(|t| N::of(&t.clone().into(), &nosrc)).collect();
    let list = N::a(ns.clone());
    is(cx, "slice", &Value::from(ts), &list)?;
    is(cx, "vector", &Value::from(ts.to_vec()), &list)?;
    is(cx, "vectors", &Value::from(vec![ts.to_vec(), vec![]]), &N::a(vec![list.clone(), N::a(vec![])]))?;
    macro_rules! arrays { ($($n:literal)*) => { $(
        if let Ok(a) = <&[T; $n]>::try_from(ts) { is(cx, "array", &Value::from(a), &list)?; }
    )* } }
    arrays!(1 2 3 4 5 6 7 8);
    let keys = odd_keys();
    let map: Map<String, T> = keys.iter().cloned().zip(ts.iter().cloned()).collect();
    let dict = root(map.iter().map(|(k, t)| (k.clone(), N::of(&t.clone().into(), &nosrc))).collect());
    is(cx, "map", &Value::from(map.clone()), &dict)?;
    let by_str: Map<&str, Vec<T>> = map.iter().map(|(k, t)| (k.as_str(), vec![t.clone()])).collect();
    let lists = root(dict.dict().unwrap().iter().map(|(k, n)| (k.clone(), N::a(vec![n.clone()]))).collect());
    is(cx, "map of lists", &Value::from(by_str), &lists)?;
    // As serialized.
    for (what, t, n) in [("slice", Value::serialize(ts), &list), ("map", Value::serialize(&map), &dict)] {
        cx.checked(1);
        let v = t.map_err(|e| Stop::Fail { sig: "serialize".into(), msg: e.to_string() })?;
        ensure!(equal(&N::of(&v, &nosrc), n), "serialize", "{what}: {v:?}");
    }
    Ok(())
}

/// Whether the type needs a configuration to be read.
fn magic(ty: &Ty) -> bool {
    let s = ty.to_string();
    ["Tagged", "Rel", "Either"].iter().any(|m| s.contains(m))
}

/// Reads a value by itself and from configurations.
fn alike(cx: &mut Cx, ty: &Ty, n: &N) -> R {
    cx.op(|| format!("{ty}: {}", n.show()));
    cx.state(&(ty, n));
    let v = n.value();
    let t = rc(ty.clone());
    let f = Figment::new().merge(Serialized::default("k", 1)).merge(("k", v.clone()));
    let by_config = extract(&f, &t, false, Some("k"));
    let held: Value = f.extract_inner("k").map_err(|e| Stop::Fail { sig: "dynamic".into(), msg: e.to_string() })?;
    let mut nested = held.clone();
    for _ in 0..2 { nested = Value::from(BTreeMap::from([("k", nested)])); }
    let found = nested.find_ref("k.k").unwrap();
    cx.outcome(&by_config.is_ok());
    for (what, v) in [("built", &v), ("extracted", &held), ("found", found)] {
        cx.checked(1);
        let direct = with(&t, None, || v.deserialize::<Dyn>()).map(|d| d.0.bare());
        match (direct, &by_config) {
            (Ok(a), Ok(b)) => {
                let b = b.clone().bare();
                ensure!(a == b || format!("{a:?}") == format!("{b:?}"), "value", "{what}: {ty} from {}: {a:?}, from a configuration {b:?}", n.show());
            }
            (Err(a), Err(b)) => {
                // The error is that of the value, less where the value was.
                ensure_eq!(a.path[..], b.path[1..], "path", "{what}: {ty} from {}: {a}, from a configuration {b}", n.show());
                ensure!(a.kind == b.kind || format!("{:?}", a.kind) == format!("{:?}", b.kind), "kind",
                    "{what}: {ty} from {}: {:?}, from a configuration {:?}", n.show(), a.kind, b.kind);
                ensure_eq!((a.count(), a.missing()), (b.count(), b.missing()), "error", "{what}");
            }
            (a, b) => return fail("differ", format!("{what}: {ty} from {}: {a:?}, from a configuration {b:?}", n.show())),
        }
    }
    Ok(())
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![];

    v.push(Scenario::new(
        "leaves",
        "every conversion from each of 20 types of Rust, of lists and dictionaries of up to 9 of any of its values, from any of the first 4",
        |cx| {
            let mut tys = INTS.to_vec();
            tys.extend([Ty::Bool, Ty::F32, Ty::F64, Ty::Char, Ty::Str, Ty::Unit]);
            let ty = cx.of(&tys).clone();
            let vals = leaf_values(&ty);
            let (from, n) = (cx.pick(vals.len().min(4)), cx.pick(10));
            let vals: Vec<Sc> = vals.iter().cycle().skip(from).take(n).cloned().collect();
            cx.op(|| format!("{vals:?}"));
            cx.state(&vals);
            cx.outcome(&ty);
            // From the type itself.
            for s in &vals {
                let n = N::sc(s.clone());
                macro_rules! from { ($($V:ident),*) => { match s {
                    $(Sc::$V(x) => {
                        is(cx, "num", &Value::from(Num::from(*x)), &n)?;
                        is(cx, "from", &Value::from(*x), &n)?;
                        conversions(cx, &vals.iter().map(|s| match s { Sc::$V(x) => *x, _ => unreachable!() }).collect::<Vec<_>>())?;
                    })*
                    Sc::Bool(x) => {
                        is(cx, "from", &Value::from(*x), &n)?;
                        conversions(cx, &vals.iter().map(|s| *s == Sc::Bool(true)).collect::<Vec<_>>())?;
                    }
                    Sc::Char(x) => {
                        is(cx, "from", &Value::from(*x), &n)?;
                        conversions(cx, &vals.iter().map(|s| match s { Sc::Char(x) => *x, _ => unreachable!() }).collect::<Vec<_>>())?;
                    }
                    Sc::Str(x) => {
                        is(cx, "str", &Value::from(x.as_str()), &n)?;
                        is(cx, "string", &Value::from(x.clone()), &n)?;
                        let all: Vec<String> = vals.iter().map(|s| match s { Sc::Str(x) => x.clone(), _ => unreachable!() }).collect();
                        conversions(cx, &all)?;
                        conversions(cx, &all.iter().map(|s| s.as_str()).collect::<Vec<_>>())?;
                    }
                    Sc::F32(x) => {
                        is(cx, "from", &Value::from(f32::from_bits(*x)), &n)?;
                        let all: Vec<f32> = vals.iter().map(|s| match s { Sc::F32(x) => f32::from_bits(*x), _ => unreachable!() }).collect();
                        if all.iter().all(|f| !f.is_nan()) { conversions(cx, &all)?; }
                    }
                    Sc::F64(x) => {
                        is(cx, "from", &Value::from(f64::from_bits(*x)), &n)?;
                        let all: Vec<f64> = vals.iter().map(|s| match s { Sc::F64(x) => f64::from_bits(*x), _ => unreachable!() }).collect();
                        if all.iter().all(|f| !f.is_nan()) { conversions(cx, &all)?; }
                    }
                    Sc::Unit | Sc::None => {
                        let e = if *s == Sc::Unit { Empty::Unit } else { Empty::None };
                        is(cx, "empty", &Value::from(e), &n)?;
                        is(cx, "empties", &Value::from(vec![e; vals.len()]), &N::a(vec![n.clone(); vals.len()]))?;
                    }
                } } }
                from!(U8, U16, U32, U64, U128, Us, I8, I16, I32, I64, I128, Is);
            }
            Ok(())
        }
    ));

    let depth = tier.sel(2, 3);
    v.push(Scenario::new(
        "trees",
        format!("every value of up to 2 keys or elements {depth} deep with 5 leaves: what each accessor gives, and that it is equal to itself, \
            a copy, and its serialization, in any configuration"),
        move |cx| {
            let leaves = [N::u(1), N::s("1"), N::sc(Sc::None), N::sc(Sc::Char('1')), N::sc(Sc::Bool(true))];
            let n = any_tree(cx, &["a", ""], &leaves[..tier.sel(5, 3)], depth);
            let v = n.value();
            cx.op(|| n.show());
            cx.state(&n);
            is(cx, "tree", &v, &n)?;
            let again = Value::serialize(&v).map_err(|e| Stop::Fail { sig: "serialize".into(), msg: e.to_string() })?;
            is(cx, "again", &again, &n)?;
            let tagged: Value = Figment::from(("k", &v)).extract_inner("k").unwrap();
            accessors(cx, &tagged, &n)?;
            ensure!(!tagged.tag().is_default(), "tag", "no source");
            for (a, b) in [(&v, &v), (&v, &v.clone()), (&v, &again), (&v, &tagged), (&tagged, &v)] {
                ensure!(a == b, "equal", "{a:?} and {b:?}");
            }
            cx.outcome(&format!("{:?}", v.to_actual()));
            Ok(())
        }
    ));

    v.push(Scenario::new(
        "equality",
        "all pairs of some 150 values of every kind and width, with and without a source: equal just if they are the same but for \
         the width of numbers and where they come from, as are lists and dictionaries of them",
        |cx| {
            let all = pool();
            let (a, b) = (cx.of(&all).clone(), cx.of(&all).clone());
            cx.op(|| format!("{} and {}", a.show(), b.show()));
            cx.state(&(&a, &b));
            let want = equal(&a, &b);
            cx.outcome(&want);
            let (v, w) = (a.value(), b.value());
            let tagged: Value = Figment::from(("k", &w)).extract_inner("k").unwrap();
            cx.checked(6);
            for w in [&w, &tagged] {
                ensure_eq!((v == *w), want, "equal", "{} and {}", a.show(), b.show());
                ensure_eq!((*w == v), want, "symmetric", "{} and {}", a.show(), b.show());
            }
            ensure_eq!(Value::from(vec![v.clone()]) == Value::from(vec![w.clone()]), want, "lists", "");
            ensure_eq!(Value::from(BTreeMap::from([("k", v.clone())])) == Value::from(BTreeMap::from([("k", w.clone())])), want, "dicts", "");
            if let (Some(m), Some(n)) = (v.to_num(), w.to_num()) {
                ensure_eq!(m == n, want, "numbers", "{m:?} and {n:?}");
            }
            ensure!(!(v == w) || v.to_actual() == w.to_actual(), "to_actual", "{v:?} and {w:?}");
            if matches!(v.to_actual(), Actual::Float(f) if f.is_nan()) { ensure!(v != v.clone(), "NaN", ""); }
            Ok(())
        }
    ));

    let l = vec![Ty::Bool, Ty::U8, Ty::I64, Ty::F64, Ty::Char, Ty::Str, Ty::Unit, Ty::UnitStruct, Ty::Value, Ty::Ignored,
        Ty::Enum(vec![Var::Unit, Var::Unit])];
    let wraps = tier.sel(2, 3);
    let l2 = l.clone();
    v.push(Scenario::new(
        "any-value",
        format!("each of 11 types, or of them in up to {wraps} of 12 wrappings, from each of 36 values: the same result or the same error \
            at the same place, read by itself or from a configuration"),
        move |cx| {
            let ty = types(cx, wraps, &l2);
            if magic(&ty) { return Err(Stop::Skip); }
            let mut vals = shapes();
            vals.extend(bad_values().into_iter().flatten());
            let n = cx.of(&vals).clone();
            alike(cx, &ty, &n)
        }
    ).tasks(1000));

    let few = tier.sel(vec![Ty::U8, Ty::Str, Ty::Unit], vec![Ty::U8, Ty::Str, Ty::Unit, Ty::F64, Ty::Char, Ty::Bool, Ty::Value, Ty::I128]);
    v.push(Scenario::new(
        "one-wrong",
        "3 (thorough: 8) types in up to 3 of 12 wrappings with a conforming value of which any one node is replaced by any of 16 others, \
         or removed: the same, read by itself or from a configuration",
        move |cx| {
            let ty = types(cx, 3, &few);
            if magic(&ty) { return Err(Stop::Skip); }
            let mut n = conforming(&ty, 0);
            fn count(n: &N) -> usize {
                1 + match &n.v { M::S(_) => 0, M::A(v) => v.iter().map(count).sum(), M::D(d) => d.values().map(count).sum() }
            }
            let bad = bad_values();
            let mut pos = cx.pick(count(&n));
            let with = cx.of(&bad).clone();
            if pos == 0 && with.is_none() { return Err(Stop::Skip); }
            replace(&mut n, &mut pos, &with);
            alike(cx, &ty, &n)
        }
    ).tasks(1500));

    v.push(Scenario::new(
        "documents",
        "every value of up to 2 (thorough: 3) keys or elements 2 deep with 6 leaves, read as a value from the text by JSON's and YAML's own parsers: \
         what the sources of these formats provide",
        move |cx| {
            let leaves = [N::i(1), N::i(-1), N::s("1"), N::sc(Sc::f64(0.5)), N::sc(Sc::Bool(true)), N::sc(Sc::Unit)];
            let n = any_dict(cx, tier.sel(&["a", "b.c"], &["a", "b.c", ""]), &leaves[..tier.sel(6, 4)], 2);
            let n = root(n);
            cx.op(|| n.show());
            cx.state(&n);
            let text = serde_json::to_string(&n.value()).unwrap();
            cx.checked(4);
            let json: Value = serde_json::from_str(&text).map_err(|e| Stop::Fail { sig: "json".into(), msg: e.to_string() })?;
            let yaml: Value = serde_yaml::from_str(&text).map_err(|e| Stop::Fail { sig: "yaml".into(), msg: e.to_string() })?;
            let tree: serde_json::Value = serde_json::from_str(&text).unwrap();
            let by_tree: Value = serde_json::from_value(tree.clone()).map_err(|e| Stop::Fail { sig: "json".into(), msg: e.to_string() })?;
            let ser = Value::serialize(&tree).map_err(|e| Stop::Fail { sig: "serialize".into(), msg: e.to_string() })?;
            let want: Value = Figment::from(Json::string(&text)).extract().unwrap();
            let want_yaml: Value = Figment::from(Yaml::string(&text)).extract().unwrap();
            for (what, v) in [("json", &json), ("yaml", &yaml), ("tree", &by_tree), ("serialized", &ser), ("yaml source", &want_yaml)] {
                ensure!(*v == want, what, "{text}: {v:?}, but {want:?} provided");
                ensure_eq!(v.tag() == Tag::Default, true, "tag", "{what}");
            }
            // And written out again.
            let tree2 = serde_json::to_value(&want).unwrap();
            ensure_eq!(tree2, tree, "written", "{text}");
            cx.outcome(&text.len());
            Ok(())
        }
    ));

    v
}
