//! Failing sources: every pattern of failures, and chains of errors.

use figment::error::{Error, Kind};
use figment::providers::{Format, Json, Serialized, Toml, Yaml};
use figment::value::{magic::Tagged, Value};
use figment::{Figment, Profile, Provider};

use crate::c04::Steps;
use crate::engine::*;
use crate::model::*;
use crate::{ensure, ensure_eq};

fn ok(p: &str) -> Source {
    Source {
        id: 0, profile: None,
        data: Ok([(p.to_string(), one("k", N::d(vec![("k", N::a(vec![N::s(p)]))])))].into_iter().collect()),
    }
}

fn bad(n: usize) -> Source { Source { id: 0, profile: None, data: Err(n) } }

fn duplicates(c: &Conf) -> bool {
    let mut e = c.errors.clone();
    e.sort();
    e.windows(2).any(|w| w[0] == w[1])
}

/// Every way of reading a configuration fails, with all of its errors.
fn all_fail(cx: &mut Cx, f: &Figment, c: &Conf) -> R {
    let mut errors: Vec<(&str, Option<Error>)> = vec![
        ("extract", f.extract::<Value>().err()),
        ("extract typed", f.extract::<std::collections::BTreeMap<String, Value>>().err()),
        ("extract ignored", f.extract::<serde::de::IgnoredAny>().err()),
        ("extract optional", f.extract::<Option<Value>>().err()),
        ("extract_lossy", f.extract_lossy::<Value>().err()),
        ("extract_inner", f.extract_inner::<Value>("k").err()),
        ("extract_inner of two", f.extract_inner::<Value>("k.k").err()),
        ("extract_inner tagged", f.extract_inner::<Option<Tagged<Value>>>("k").err()),
        ("extract_inner_lossy", f.extract_inner_lossy::<Value>("absent").err()),
        ("find_value", f.find_value("k").err()),
        ("find_value of absent", f.find_value("absent").err()),
    ];
    let focused = f.focus("k");
    errors.push(("focus", focused.extract::<Value>().err()));
    errors.push(("focus find", focused.find_value("k").err()));
    let other = f.clone().select("other");
    errors.push(("select", other.extract::<Value>().err()));

    if c.errors.is_empty() {
        ensure!(errors.iter().all(|(_, e)| e.as_ref().map_or(true, |e| e.missing())), "spurious",
            "reading failed though no source did: {errors:?}");
        ensure!(f.data().is_ok(), "spurious", "data failed");
        return Ok(());
    }

    for (what, e) in errors {
        match e {
            None => return fail("masked", format!("{what} succeeded despite failed sources")),
            Some(e) => {
                cx.note(|| format!("{what}: {} errors", e.count()));
                these_errors(cx, f, c, e)?;
            }
        }
    }

    cx.checked(6);
    for f in [f, &focused, &other] {
        ensure!(!f.contains("k"), "contains", "contains despite failed sources");
        ensure!(f.find_metadata("k").is_none(), "find_metadata", "metadata despite failed sources");
    }
    ensure!(f.data().is_err(), "data", "data() succeeded despite failed sources");

    // Re-use as a source, after and before others.
    for (i, op) in OPS.into_iter().enumerate() {
        let q = P::ok(99, "default", &one("k", N::u(1)));
        let g = op.apply(Figment::new().merge(q.clone()), f);
        let g = if i % 2 == 0 { g.merge(q) } else { Figment::new().join(q).join(g) };
        match g.extract::<Value>() {
            Ok(_) => return fail("masked", format!("masked when added by {op:?}")),
            Err(e) => these_errors(cx, &g, c, e)?,
        }
    }
    Ok(())
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![];

    let max = tier.sel(5, 6);
    v.push(Scenario::new(
        "patterns",
        format!("every pattern of 1 to {max} sources that succeed or fail with 1, 2 or 3 errors, \
            alternating or repeating operations; all kinds of reads"),
        move |cx| {
            let n = cx.pick(max) + 1;
            let (a, b) = (*cx.of(&OPS), *cx.of(&OPS));
            let mut m = Machine::new(1);
            for i in 0..n {
                let k = cx.pick(4);
                let s = if k == 0 { ok(["default", "custom", "global"][i % 3]) } else { bad(k) };
                m.add(cx, 0, if i % 2 == 0 { a } else { b }, s, i == 2);
                cx.state(&m.c);
            }
            cx.outcome(&m.c[0].errors);
            m.compare(cx)?;
            all_fail(cx, &m.f[0], &m.c[0])
        }
    ));

    let max = tier.sel(3, 4);
    v.push(Scenario::new(
        "histories",
        format!("every history of {max} steps over 2 configurations, of which one already has a \
            failure or not: add by any operation a source that succeeds or fails with 1 or 2 errors, \
            or a configuration; select, focus, clone"),
        move |cx| {
            let steps = Steps {
                docs: vec![ok("default"), bad(1), bad(2)],
                selects: vec!["one"], keys: vec!["k"],
            };
            let mut m = Machine::new(2);
            m.add(cx, 0, Op::Merge, ok("global"), false);
            let k = cx.pick(3);
            if k > 0 { m.add(cx, 1, Op::Join, bad(k), false); }
            for _ in 0..max {
                steps.step(cx, &mut m)?;
                cx.state(&m.c);
            }
            // The failure of one source in two ways is reported in both.
            if m.c.iter().any(duplicates) { return Err(Stop::Skip); }
            cx.outcome(&m.c);
            m.compare(cx)?;
            for i in 0..2 { all_fail(cx, &m.f[i], &m.c[i])?; }
            Ok(())
        }
    ));

    v.push(Scenario::new(
        "nested",
        "failures at any of 3 levels of configurations added to each other, by any operations",
        |cx| {
            let mut m = Machine::new(3);
            let at: Vec<usize> = (0..5).map(|_| cx.pick(3)).collect();
            for i in 0..5 {
                let s = if at[i] == 0 { ok("default") } else { bad(at[i]) };
                let level = [0, 1, 2, 1, 0][i];
                m.add(cx, level, OPS[(i + at[0]) % 4], s, false);
                if i == 2 { let op = *cx.of(&OPS); m.add_conf(cx, 1, op, 2, true); }
                if i == 3 {
                    let op = *cx.of(&OPS);
                    if cx.flag() { m.focus(cx, 1, "k"); }
                    m.add_conf(cx, 0, op, 1, false);
                }
            }
            cx.state(&m.c);
            cx.outcome(&m.c[0].errors);
            m.compare(cx)?;
            all_fail(cx, &m.f[0], &m.c[0])
        }
    ));

    v.push(Scenario::new(
        "many",
        "up to 300 sources of which every i-th fails, or just the i-th",
        |cx| {
            let n = *cx.of(&[1usize, 2, 7, 8, 9, 16, 17, 33, 65, 129, 257, 300]);
            let i = *cx.of(&[1usize, 2, 3, 7, 8, 16, 32, 64, 128, 256]);
            if i > n { return Err(Stop::Skip); }
            let only = cx.flag();
            let op = *cx.of(&OPS);
            let mut m = Machine::new(1);
            for j in 1..=n {
                let fails = if only { i == j } else { j % i == 0 };
                m.add(cx, 0, op, if fails { bad(1 + j % 2) } else { ok("default") }, false);
            }
            cx.state(&m.c);
            m.compare(cx)?;
            all_fail(cx, &m.f[0], &m.c[0])
        }
    ));

    v.push(Scenario::new(
        "chains",
        "all ways of chaining 2 to 5 errors (every order and every binary tree), and long chains of \
         chains: none is lost, in order, counted and displayed",
        |cx| {
            // A forest that is reduced by chaining any neighbours in either way.
            let n = cx.pick(4) + 2;
            let big = cx.pick(4);
            let size = |i: usize| if i == 0 { [1, 2, 20, 129][big] } else { 1 + i % 3 };
            let mut id = 0;
            let mut all: Vec<(Error, Vec<usize>)> = vec![];
            for i in 0..n {
                let mut ids = vec![id];
                let mut e = err(id);
                id += 1;
                for _ in 1..size(i) {
                    e = err(id).chain(e);
                    ids.push(id);
                    id += 1;
                }
                all.push((e, ids));
            }
            while all.len() > 1 {
                let i = cx.pick(all.len() - 1);
                let (b, bi) = all.remove(i + 1);
                let (a, ai) = all.remove(i);
                let (e, ids) = match cx.flag() {
                    // `x.chain(y)`: what `y` has comes first.
                    false => (b.chain(a), [ai, bi].concat()),
                    true => (a.chain(b), [bi, ai].concat()),
                };
                cx.op(|| format!("chained to {ids:?}"));
                cx.state(&ids);
                all.insert(i, (e, ids));
            }
            let (e, ids) = all.pop().unwrap();
            cx.checked(3);
            ensure_eq!(e.count(), ids.len(), "count", "count of {ids:?}");
            let want: Vec<Error> = ids.iter().map(|i| err(*i)).collect();
            let lines: Vec<String> = want.iter().map(|e| e.to_string()).collect();
            ensure_eq!(e.to_string(), lines.join("\n"), "display", "display of {ids:?}");
            let c = e.clone();
            ensure!(c == e, "eq", "clone is not equal");
            let got: Vec<Error> = e.into_iter().collect();
            ensure_eq!(got, want, "iter", "iteration of {ids:?}");
            ensure!(c.missing() == (ids[0] % 3 == 1), "missing", "missing()");
            Ok(())
        }
    ));

    v.push(Scenario::new(
        "alike",
        format!("2 to {} sources by one of two names, each of which succeeds or fails with one of 4 errors, or with two alike or unlike, \
         by any operations, the last two perhaps by way of another configuration: none is taken for another", tier.sel(3, 4)),
        move |cx| {
            let n = cx.pick(tier.sel(2, 3)) + 2;
            let ops = [*cx.of(&OPS), *cx.of(&OPS)];
            let nested = cx.flag();
            let kinds = [vec![], vec![0], vec![1], vec![0, 0], vec![0, 1], vec![2], vec![3]];
            let mut want: Vec<(String, Kind)> = vec![];
            let (mut f, mut g) = (Figment::new(), Figment::new());
            for i in 0..n {
                let name = if cx.flag() { "A" } else { "B" };
                let kind = cx.of(&kinds).clone();
                let mut error: Option<Error> = None;
                for k in &kind {
                    let e = Error::from(alike(*k));
                    error = Some(match error { Some(first) => e.chain(first), None => e });
                    want.push((name.to_string(), alike(*k)));
                }
                let data = match error {
                    Some(e) => Err(e),
                    None => Ok([(Profile::Default, dict_value(&one("k", N::u(1))))].into_iter().collect()),
                };
                cx.op(|| format!("{name}: {kind:?}"));
                let p = P { name: name.into(), data, profile: None };
                let into = if nested && i + 2 >= n { &mut g } else { &mut f };
                *into = ops[i % 2].apply(std::mem::take(into), p);
            }
            if nested { f = ops[0].apply(f, g); }
            cx.state(&want.iter().map(|w| format!("{w:?}")).collect::<Vec<_>>());
            let errors = [
                f.extract::<Value>().err(), f.find_value("k").err(), f.focus("k").extract::<Value>().err(),
                Figment::new().merge(&f).extract_inner_lossy::<u8>("k").err(), f.clone().select("other").extract::<u8>().err(),
            ];
            for (i, e) in errors.into_iter().enumerate() {
                cx.checked(3);
                if want.is_empty() { continue }
                let Some(e) = e else { return fail("masked", format!("{i}: masked {want:?}")) };
                ensure_eq!(e.count(), want.len(), "count", "{i}: {e}");
                let got: Vec<(String, Kind)> = e.into_iter()
                    .map(|e| (e.metadata.map(|m| m.name.to_string()).unwrap_or_default(), e.kind)).collect();
                ensure_eq!(got, want, "errors", "{i}");
            }
            Ok(())
        }
    ));

    v.push(Scenario::new(
        "passed-on",
        "providers that fail with the errors of another configuration, known or not to the one they are \
         added to, from any of 4 reads of it: wrong and missing values, and 1 to 3 failed sources",
        |cx| {
            let wrong = cx.pick(5);
            let read = cx.pick(4);
            let known = cx.flag();
            let before = cx.flag();
            let op = *cx.of(&OPS);
            let by_value = cx.flag();
            let mut inner = Figment::new().merge(P::ok(1, "default", &one("k", N::d(vec![("k", N::s("bad"))]))));
            let mut c = Conf::new();
            match wrong {
                0 => {}
                1 => inner = inner.merge(P::ok(2, "global", &one("k", N::u(1)))),
                k => for i in 2..k as u32 + 1 {
                    inner = inner.join(P::of(&Source { id: i, ..bad(i as usize - 1) }));
                    c.errors.extend((0..i as usize - 1).map(|k| (i, k)));
                },
            }
            cx.op(|| format!("inner configuration {wrong}, read by {read}, known {known}, {op:?}, before {before}"));
            cx.state(&(wrong, read, known, op, before, by_value));
            let e = match read {
                0 => inner.extract::<std::collections::BTreeMap<String, bool>>().err(),
                1 => inner.extract_inner::<u8>("k.k").err(),
                2 => inner.find_value("absent").err(),
                _ => inner.data().err(),
            };
            let Some(e) = e else { return Err(Stop::Skip) };
            let all: Vec<Error> = e.clone().into_iter().collect();
            ensure_eq!(all.len(), c.errors.len().max(1), "inner", "errors of {e}");
            let p = P { name: "P9".into(), data: Err(e), profile: None };
            let mut f = Figment::new();
            let fine = |f: Figment| f.join(P::ok(8, "global", &one("k", N::u(3))));
            if before { f = fine(f); }
            // The failures of that configuration itself would come first.
            let known = known && c.errors.is_empty();
            if known { f = f.join(&inner); }
            f = if by_value { op.apply(f, p) } else { op.apply(f, &p) };
            if !before { f = fine(f); }
            let errors = [
                f.extract::<Value>().err(), f.find_value("k").err(), f.focus("k").extract::<Value>().err(),
                Figment::new().merge(&f).extract_inner_lossy::<u8>("k").err(),
                f.clone().select("other").extract::<Option<Value>>().err(),
            ];
            for e in errors {
                let Some(e) = e else { return fail("masked", "masked") };
                cx.checked(1 + all.len() as u64);
                let got: Vec<Error> = e.into_iter().collect();
                ensure_eq!(got.len(), all.len(), "count", "errors");
                for (got, e) in got.iter().zip(&all) {
                    ensure!(got.kind == e.kind && got.path == e.path, "errors", "got {got:?}, expected {e:?}");
                    // That there is where the value is from remains known, where it is.
                    let inner = known.then(|| id_of(e.metadata.as_ref())).filter(|i| *i > 0);
                    ensure_eq!(id_of(got.metadata.as_ref()), inner.unwrap_or(9), "attributed", "source of {got}");
                }
            }
            Ok(())
        }
    ));

    v.push(Scenario::new(
        "real",
        "8 kinds of real sources that fail, in each of 3 positions, by any operation, besides sources \
         that succeed or fail: they fail the extraction and name the source",
        |cx| {
            let kind = cx.pick(8);
            let pos = cx.pick(3);
            let op = *cx.of(&OPS);
            let others = cx.pick(4);
            std::fs::write("malformed.toml", "a = ").unwrap();
            let _ = std::fs::create_dir("isdir.json");
            cx.op(|| format!("kind {kind} at {pos} by {op:?}, others {others}"));
            cx.state(&(kind, pos, op, others));
            let mut f = Figment::new();
            let mut want: Vec<String> = vec![];
            fn go<P: Provider>(f: Figment, p: P, op: Op, want: &mut Vec<String>) -> Figment {
                want.push(p.metadata().name.to_string());
                op.apply(f, p)
            }
            for i in 0..3 {
                if i == pos {
                    f = match kind {
                        0 => go(f, Toml::string("a = "), op, &mut want),
                        1 => go(f, Json::string("{\"a\": 1"), op, &mut want),
                        2 => go(f, Yaml::string("a: [1"), op, &mut want),
                        3 => go(f, Toml::file("malformed.toml"), op, &mut want),
                        4 => go(f, Json::file("absent.json").required(true), op, &mut want),
                        5 => go(f, Serialized::defaults(1), op, &mut want),
                        6 => go(f, Serialized::defaults(vec!["x"]), op, &mut want),
                        _ => go(f, Serialized::global("k", [(1, 2)].into_iter()
                            .collect::<std::collections::BTreeMap<_, _>>()), op, &mut want),
                    };
                } else if others & (1 << (i > pos) as usize) != 0 {
                    let s = Source { id: i as u32 + 1, ..bad(1) };
                    want.push(format!("P{}", i + 1));
                    f = op.apply(f, P::of(&s));
                } else {
                    let s = Source { id: i as u32 + 1, ..ok("default") };
                    f = op.apply(f, P::of(&s));
                }
            }
            for e in [f.extract::<Value>().err(), f.find_value("k").err(), f.focus("k").extract::<Value>().err()] {
                let Some(e) = e else { return fail("masked", format!("masked: {want:?}")) };
                cx.checked(2);
                ensure_eq!(e.count(), want.len(), "count", "count");
                let got: Vec<String> = e.clone().into_iter()
                    .map(|e| e.metadata.map(|m| m.name.to_string()).unwrap_or_default()).collect();
                ensure_eq!(got, want, "names", "names of failing sources");
                for n in &want {
                    ensure!(e.to_string().contains(n.as_str()), "display", "{n} not in {e}");
                }
            }
            Ok(())
        }
    ));

    v
}

fn alike(k: usize) -> Kind {
    match k {
        0 => Kind::Message("failed".into()),
        1 => Kind::Message("failed too".into()),
        2 => Kind::MissingField("k".into()),
        _ => Kind::InvalidLength(1, "2".into()),
    }
}

fn err(i: usize) -> Error {
    match i % 3 {
        0 => Error::from(format!("error {i}")),
        1 => Kind::MissingField(format!("field{i}").into()).into(),
        _ => Error::from(Kind::InvalidLength(i, "another".into())).with_path("a.b"),
    }
}
