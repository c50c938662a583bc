//! Serialized sources and key-value pairs: exactly the value, at exactly the
//! key, in exactly the profile.

use std::collections::BTreeMap;

use figment::error::{Actual, Kind};
use figment::providers::Serialized;
use figment::value::Value;
use figment::{Figment, Profile, Provider};
use serde::ser::{Error as _, SerializeMap, SerializeSeq};
use serde::{Serialize, Serializer};

use crate::c01::odd_keys;
use crate::dynde;
use crate::engine::*;
use crate::model::*;
use crate::{ensure, ensure_eq};

/// A character is one here, unlike where one is read.
fn actual(n: &N) -> Actual {
    match &n.v {
        M::S(Sc::Char(c)) => Actual::Char(*c),
        _ => dynde::actual(n),
    }
}

#[derive(Clone, Debug)]
enum Set { Key(String), Profile(&'static str), KeyField(Option<String>), ProfileField(&'static str), Value(N) }

/// What the source is to provide.
#[derive(Clone, Debug)]
struct Want { value: N, key: Option<String>, profile: String }

impl Want {
    fn data(&self) -> Option<BTreeMap<String, Tree>> {
        let n = match &self.key {
            Some(k) => at(&k.split('.').collect::<Vec<_>>(), self.value.clone()),
            None => self.value.clone(),
        };
        Some([(self.profile.to_ascii_lowercase(), n.dict()?.clone())].into_iter().collect())
    }
}

const STARTS: usize = 7;

fn start(k: usize, n: &N, key: &str) -> (Serialized<Value>, Want) {
    let v = n.value();
    let (s, key, profile) = match k {
        0 => (Serialized::defaults(v), None, "default"),
        1 => (Serialized::globals(v), None, "global"),
        2 => (Serialized::default(key, v), Some(key), "default"),
        3 => (Serialized::global(key, v), Some(key), "global"),
        4 => (Serialized::from(v, "one"), None, "one"),
        5 => (Serialized::from(v, Profile::const_new("Two")), None, "two"),
        _ => (Serialized::from(v, "GLOBAL"), None, "global"),
    };
    (s, Want { value: n.clone(), key: key.map(|k| k.into()), profile: profile.into() })
}

fn set(mut s: Serialized<Value>, w: &mut Want, x: &Set) -> Serialized<Value> {
    match x {
        Set::Key(k) => { w.key = Some(k.clone()); s.key(k) }
        Set::Profile(p) => { w.profile = p.to_string(); s.profile(*p) }
        Set::KeyField(k) => { w.key = k.clone(); s.key = k.clone(); s }
        Set::ProfileField(p) => { w.profile = p.to_string(); s.profile = Profile::new(p); s }
        Set::Value(n) => { w.value = n.clone(); s.value = n.value(); s }
    }
}

fn data<P: Provider>(p: &P) -> Result<BTreeMap<String, Tree>, figment::Error> {
    let d = p.data()?;
    let got: BTreeMap<String, Tree> = d.iter()
        .map(|(p, d)| (p.to_string().to_ascii_lowercase(), tree_of(d, &nosrc))).collect();
    assert_eq!(got.len(), d.len(), "profiles that differ in case");
    Ok(got)
}

fn show(d: &BTreeMap<String, Tree>) -> String {
    d.iter().map(|(p, t)| format!("{p}: {}", show_tree(t))).collect::<Vec<_>>().join("; ")
}

/// The source provides what it is to, by itself and added to `base`.
fn check<S: Provider>(cx: &mut Cx, p: &S, w: &Want) -> R {
    let want = w.data();
    cx.state(&(&want, w.value.show()));
    ensure!(p.profile().is_none(), "selection", "selects {:?}", p.profile());
    match (data(p), &want) {
        (Ok(got), Some(want)) => ensure!(got == *want, "data", "{w:?}: got {}, expected {}", show(&got), show(want)),
        (Err(e), None) => {
            let kind = Kind::InvalidType(actual(&w.value), "map".into());
            ensure_eq!(e.count(), 1, "errors", "{w:?}: {e}");
            ensure_eq!(e.kind, kind, "kind", "{w:?}");
        }
        (got, want) => return fail("outcome", format!("{w:?}: got {got:?}, expected {want:?}")),
    }

    // Added to something, in each way.
    let mut c = Conf::new();
    let below: Tree = [("a".to_string(), N::d(vec![("a", N::s("old")), ("z", N::a(vec![N::s("old")]))])),
        ("v".to_string(), N::a(vec![N::s("old")]))].into_iter().collect();
    let base = Source { id: 1, profile: Some("One".into()), data: Ok([
        ("default".to_string(), below.clone()), ("one".into(), below)].into_iter().collect()) };
    c.add(&base, Op::Merge);
    let f = Figment::new().merge(P::of(&base));
    for op in OPS {
        cx.op(|| format!("{op:?} {w:?}"));
        let mut c = c.clone();
        let f = op.apply(f.clone(), p);
        ensure_eq!(f.profile().to_string().to_ascii_lowercase(), "one", "selected", "{w:?}");
        match &want {
            Some(want) => {
                c.add_data(want.clone(), op);
                same_data(cx, &f, &c, &format!("{op:?} {w:?}"))?;
            }
            None => {
                let e = match f.extract::<Value>() {
                    Ok(v) => return fail("masked", format!("{op:?} {w:?}: {v:?}")),
                    Err(e) => e,
                };
                ensure_eq!(e.kind, Kind::InvalidType(actual(&w.value), "map".into()), "error", "{op:?} {w:?}");
                let name = p.metadata().name;
                ensure_eq!(e.metadata.as_ref().map(|m| m.name.clone()), Some(name), "attribution", "{op:?} {w:?}");
            }
        }
    }

    cx.outcome(&want);
    cx.checked(9);
    Ok(())
}

/// Fails to serialize, at some point.
struct Failing(usize);

impl Serialize for Failing {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        struct No;
        impl Serialize for No {
            fn serialize<S: Serializer>(&self, _: S) -> Result<S::Ok, S::Error> { Err(S::Error::custom("no")) }
        }
        match self.0 {
            0 => Err(S::Error::custom("no")),
            1 => s.serialize_some(&No),
            2 => s.serialize_newtype_struct("N", &No),
            3 => s.serialize_newtype_variant("N", 0, "v", &No),
            4 | 5 => {
                let mut q = s.serialize_seq(None)?;
                if self.0 == 5 { q.serialize_element(&1)?; }
                q.serialize_element(&No)?;
                q.end()
            }
            n => {
                let mut m = s.serialize_map(None)?;
                m.serialize_entry("a", &1)?;
                match n {
                    6 => m.serialize_entry("b", &No)?,
                    7 => m.serialize_entry(&No, "b")?,
                    8 => m.serialize_entry("b", &[(1, No)])?,
                    9 => m.serialize_entry("b", &BTreeMap::from([("c", Some(No))]))?,
                    10 => { m.serialize_key("b")?; m.serialize_value(&No)?; }
                    _ => { m.serialize_key(&No)?; }
                }
                m.serialize_entry("z", &1)?;
                m.end()
            }
        }
    }
}

const KEYS: [&str; 6] = ["a", "v", "a.a", "a.z.b", "é.É", "default"];
const PROFILES: [&str; 5] = ["default", "ONE", "Global", "two", "Default"];

fn sets(cx: &mut Cx) -> Set {
    match cx.pick(4) {
        0 => Set::Key(cx.of(&KEYS).to_string()),
        1 => Set::Profile(*cx.of(&PROFILES)),
        2 => match cx.pick(4) {
            0 => Set::KeyField(None),
            1 => Set::KeyField(Some("v".into())),
            2 => Set::ProfileField("ONE"),
            _ => Set::ProfileField("Global"),
        },
        _ => Set::Value(cx.of(&[N::u(9), N::d(vec![("a", N::s("nine"))])]).clone()),
    }
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![];

    v.push(Scenario::new(
        "setters",
        format!("each of 7 constructors with each of 21 shapes of value and 6 keys, then every \
            sequence of up to {} of 17 changes of key, profile and value, alone and added by each \
            operation", tier.sel(2, 3)),
        move |cx| {
            let max = tier.sel(2, 3);
            let k = cx.pick(STARTS);
            let key = if k == 2 || k == 3 { *cx.of(&KEYS) } else { "a" };
            let n = cx.of(&shapes()).clone();
            let (mut s, mut w) = start(k, &n, key);
            for _ in 0..cx.pick(max + 1) {
                let x = sets(cx);
                cx.note(|| format!("{x:?}"));
                s = set(s, &mut w, &x);
            }
            // Clones and references provide the same.
            match cx.pick(2) {
                0 => check(cx, &s, &w),
                _ => check(cx, &&s.clone(), &w),
            }
        }
    ));

    v.push(Scenario::new(
        "keys",
        "keys of up to 3 components of 25 unusual ones, as constructed, set, and as a pair",
        |cx| {
            let keys: Vec<String> = odd_keys().into_iter().filter(|k| !k.is_empty() && !k.contains('.')).collect();
            let n = 1 + cx.pick(3);
            let key = (0..n).map(|_| cx.of(&keys).clone()).collect::<Vec<_>>().join(".");
            let n = cx.of(&[N::u(1), N::d(vec![("x.y", N::u(2))])]).clone();
            let k = cx.pick(4);
            let profile = if k == 0 || k == 1 { "default" } else { "global" };
            let w = Want { value: n.clone(), key: Some(key.clone()), profile: profile.into() };
            match k {
                0 => check(cx, &Serialized::default(&key, n.value()), &w),
                1 => check(cx, &Serialized::defaults(n.value()).key(&key), &w),
                2 => check(cx, &Serialized::global(&key, n.value()), &w),
                _ => check(cx, &(&key, n.value()), &w),
            }
        }
    ));

    v.push(Scenario::new(
        "pairs",
        "pairs of each kind of key and 21 shapes of value, alone and with another one added before \
         by each operation, against the global serialized source",
        |cx| {
            let key = *cx.of(&KEYS);
            let n = cx.of(&shapes()).clone();
            let w = Want { value: n.clone(), key: Some(key.into()), profile: "global".into() };
            match cx.pick(4) {
                0 => check(cx, &(key, n.value()), &w)?,
                1 => check(cx, &(key.to_string(), &n.value()), &w)?,
                2 => check(cx, &(std::borrow::Cow::Borrowed(key), n.value()), &w)?,
                _ => check(cx, &&(&key, n.value()), &w)?,
            }

            let other = *cx.of(&KEYS);
            let m = cx.of(&shapes()).clone();
            let op = *cx.of(&OPS);
            let mut c = Conf::new();
            let v = Want { value: m.clone(), key: Some(other.into()), profile: "global".into() };
            c.add_data(v.data().unwrap(), Op::Merge);
            c.add_data(w.data().unwrap(), op);
            let f = op.apply(Figment::from((other, m.value())), (key, n.value()));
            same_data(cx, &f, &c, &format!("{v:?} {op:?} {w:?}"))
        }
    ));

    v.push(Scenario::new(
        "deep",
        "keys of up to 200 components, of long components, and up to 300 pairs and keyed sources \
         in one configuration",
        |cx| {
            let n = *cx.of(&[1, 2, 3, 7, 8, 9, 63, 64, 65, 128, 200]);
            let mut c = Conf::new();
            let mut f = Figment::new();
            let op = *cx.of(&OPS);
            match cx.pick(3) {
                0 => {
                    let key = vec!["k"; n].join(".");
                    let w = Want { value: N::u(1), key: Some(key.clone()), profile: "global".into() };
                    check(cx, &(&key, 1u8), &w)?;
                    check(cx, &Serialized::global(&key, 1u8), &w)?;
                    return check(cx, &Serialized::globals(1u8).key(&key), &w);
                }
                1 => for i in 0..n {
                    let key = format!("{}.k{i}", "x".repeat(i));
                    let key = key.trim_start_matches('.');
                    let w = Want { value: N::u(i as u8), key: Some(key.into()), profile: "global".into() };
                    f = op.apply(f, (key, i as u8));
                    c.add_data(w.data().unwrap(), op);
                },
                _ => for i in 0..n {
                    let p = PROFILES[i % 5];
                    let w = Want { value: N::a(vec![N::u(i as u8)]), key: Some("a.b".into()), profile: p.into() };
                    f = op.apply(f, Serialized::from([i as u8], p).key("a.b"));
                    c.add_data(w.data().unwrap(), op);
                },
            }
            cx.state(&c);
            cx.op(|| format!("{n} sources"));
            same_data(cx, &f, &c, "many")
        }
    ));

    v.push(Scenario::new(
        "failing",
        "12 values whose serialization fails at some point, in a keyed and unkeyed source, in each \
         profile, and in a pair, added by each operation",
        |cx| {
            let k = cx.pick(12);
            let op = *cx.of(&OPS);
            let f = Figment::from(("a", 1)).join(("b", 2));
            let p = *cx.of(&PROFILES);
            cx.op(|| format!("{k} {op:?} {p}"));
            cx.state(&(k, op, p));
            let (data, f) = match cx.pick(4) {
                0 => { let s = Serialized::from(Failing(k), p); (s.data(), op.apply(f, s)) }
                1 => { let s = Serialized::from(Failing(k), p).key("a.b"); (s.data(), op.apply(f, s)) }
                2 => { let s = Serialized::global("v", Failing(k)); (s.data(), op.apply(f, s)) }
                _ => { let s = ("v", Failing(k)); (s.data(), op.apply(f, s)) }
            };
            for e in [data.err(), f.extract::<Value>().err(), f.find_value("a").err(), f.focus("a").find_value("b").err()] {
                let Some(e) = e else { return fail("masked", format!("{k}: no error")) };
                ensure_eq!(e.kind, Kind::Message("no".into()), "kind", "{k}");
                ensure_eq!(e.count(), 1, "count", "{k}");
            }
            cx.checked(4);
            Ok(())
        }
    ));

    v
}
