//! Equality, order, hashes and conversions of the public types.

use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::Hash;
use std::path::{Path, PathBuf};
use std::rc::Rc;

use figment::error::{Actual, Kind};
use figment::providers::{Format, Json, Serialized, Toml};
use figment::value::magic::{Either, RelativePathBuf, Tagged};
use figment::value::{Dict, Map, Tag, Value};
use figment::{Error, Figment, Metadata, Profile, Provider, Source};
use serde::de::DeserializeOwned;

use crate::c05::{extract, types};
use crate::dynde::*;
use crate::engine::*;
use crate::model::{failure, shapes, Op};
use crate::{ensure, ensure_eq};

/// An equivalence that is just `same`.
fn equal<T: PartialEq + Clone + Debug>(cx: &mut Cx, i: usize, all: &[T], same: impl Fn(usize, usize) -> bool) -> R {
    let a = &all[i];
    let copy = a.clone();
    for (j, b) in all.iter().enumerate() {
        let want = same(i, j);
        cx.checked(4);
        ensure!((a == b) == want, "eq", "{a:?} == {b:?} is {}", a == b);
        ensure!((b == a) == want, "eq", "{b:?} == {a:?} is {}", b == a);
        ensure!((a != b) != want, "ne", "{a:?} != {b:?} is {}", a != b);
        ensure!((copy == *b) == want, "clone", "a clone of {a:?} == {b:?} is {}", copy == *b);
    }
    Ok(())
}

/// A total order that agrees with equality, as do the hashes.
fn ordered<T: Ord + Hash + Clone + Debug>(cx: &mut Cx, i: usize, all: &[T], same: impl Fn(usize, usize) -> bool) -> R {
    use std::cmp::Ordering::*;
    let a = &all[i];
    for (j, b) in all.iter().enumerate() {
        let o = a.cmp(b);
        cx.checked(5);
        ensure!((o == Equal) == same(i, j), "cmp", "{a:?} cmp {b:?} is {o:?}");
        ensure_eq!(b.cmp(a), o.reverse(), "cmp", "{b:?} cmp {a:?}");
        ensure_eq!(a.partial_cmp(b), Some(o), "partial_cmp", "{a:?} with {b:?}");
        ensure!((a < b) == (o == Less) && (a >= b) == (o != Less), "less", "{a:?} < {b:?}");
        ensure!(!same(i, j) || hash(a) == hash(b), "hash", "of {a:?} and {b:?}");
        for c in all {
            cx.checked(1);
            ensure!(o == Greater || b.cmp(c) == Greater || a.cmp(c) != Greater, "transitive", "{a:?}, {b:?}, {c:?}");
        }
    }
    // Sets and maps have one of each.
    let classes = (0..all.len()).filter(|&k| (0..k).all(|l| !same(l, k))).count();
    cx.checked(4);
    ensure_eq!(all.iter().collect::<BTreeSet<_>>().len(), classes, "ordered set", "elements");
    ensure_eq!(all.iter().collect::<HashSet<_>>().len(), classes, "hashed set", "elements");
    let tree: BTreeMap<T, usize> = all.iter().cloned().zip(0..).collect();
    let table: HashMap<T, usize> = all.iter().cloned().zip(0..).collect();
    let last = (0..all.len()).rev().find(|&k| same(i, k));
    ensure_eq!(tree.get(a).copied(), last, "ordered map", "{a:?}");
    ensure_eq!(table.get(a).copied(), last, "hashed map", "{a:?}");
    Ok(())
}

fn round_trips<T: serde::Serialize + DeserializeOwned + PartialEq + Debug>(cx: &mut Cx, t: &T, and: impl Fn(&T) -> bool) -> R {
    let mut all: Vec<(&str, Option<T>)> = vec![];
    let json = serde_json::to_string(t);
    all.push(("JSON", json.as_ref().ok().and_then(|s| serde_json::from_str(s).ok())));
    all.push(("JSON value", serde_json::to_value(t).ok().and_then(|v| serde_json::from_value(v).ok())));
    all.push(("YAML", serde_yaml::to_string(t).ok().and_then(|s| serde_yaml::from_str(&s).ok())));
    all.push(("a value", Value::serialize(t).ok().and_then(|v| v.deserialize().ok())));
    let f = Figment::from(Serialized::global("a.b", t));
    all.push(("a configuration", f.extract_inner("a.b").ok()));
    all.push(("a document", json.ok().and_then(|s| Figment::from(Json::string(&format!("{{\"a\": [{s}]}}"))).extract_inner::<Vec<T>>("a").ok()?.pop())));
    for (what, got) in all {
        cx.checked(1);
        ensure!(got.as_ref().map_or(false, |g| g == t && and(g)), "round trip", "{t:?} through {what} is {got:?}");
    }
    Ok(())
}

/// A source whose values tell its number, in some profiles.
struct Of { name: usize, profiles: Vec<&'static str> }

impl Provider for Of {
    fn metadata(&self) -> Metadata {
        // Some look just the same.
        Metadata::named(if self.name < 2 { "same".to_string() } else { format!("own {}", self.name) })
    }

    fn data(&self) -> Result<Map<Profile, Dict>, Error> {
        let n = self.name;
        let mut all = Map::new();
        for p in &self.profiles {
            let mut dict = Dict::new();
            dict.insert(format!("k{n}"), vec![n, n].into());
            dict.insert("shared".into(), n.into());
            dict.insert("list".into(), vec![n].into());
            let mut inner = Dict::new();
            inner.insert(format!("i{n}"), n.into());
            dict.insert("d".into(), inner.into());
            all.insert(Profile::new(p), dict);
        }
        Ok(all)
    }
}

fn leaves<'v>(v: &'v Value, all: &mut Vec<(usize, Tag)>) {
    match v {
        Value::Dict(_, d) => d.values().for_each(|v| leaves(v, all)),
        Value::Array(_, a) => a.iter().for_each(|v| leaves(v, all)),
        v => all.push((v.to_u128().unwrap() as usize, v.tag())),
    }
}

const NAMES: &[&str] = &[
    "default", "DEFAULT", "Default", "global", "Global", "GLOBAL", "debug", "deBUG", "", "a", "A", "aa", "aA", "b", "B",
    "é", "É", "ß", "ẞ", "ss", "ı", "I", "i", "İ", "[", "{", "@", "`", "_", " ", "default ", "defaul", "defaultt", "ab", "AB",
    "a-b", "A-B", "K", "\u{212a}", "k", "日本", "x.y", "X.y", "0", "00",
];

fn location() -> &'static std::panic::Location<'static> { std::panic::Location::caller() }

fn all_sources() -> Vec<Source> {
    let here = std::panic::Location::caller();
    let there = location();
    let mut all = vec![Source::Code(here), Source::Code(there), here.into(), location().into()];
    for s in ["", "a", "A", "a/b", "/a/b", "a/b/", "a//b", "./a", "a/./b", "a/../b", "b", "é", " ", "/"] {
        all.extend([
            Source::File(s.into()), Path::new(s).into(), Source::Custom(s.into()), s.into(), s.to_string().into(),
        ]);
    }
    all
}

fn same_source(a: &Source, b: &Source) -> bool {
    let parts = |p: &PathBuf| p.components().map(|c| c.as_os_str().to_owned()).collect::<Vec<_>>();
    match (a, b) {
        (Source::File(a), Source::File(b)) => parts(a) == parts(b),
        (Source::Custom(a), Source::Custom(b)) => a == b,
        (Source::Code(a), Source::Code(b)) => a.file() == b.file() && a.line() == b.line() && a.column() == b.column(),
        _ => false,
    }
}

/// Errors and what tells them apart.
fn errors() -> Vec<(String, Error)> {
    let mut all = vec![];
    let mut add = |e: Error, tag: &str| {
        let prev = e.clone().into_iter().skip(1).map(|e| e.to_string()).collect::<Vec<_>>();
        all.push((format!("{:?} {:?} {:?} {:?} {:?} {tag} {prev:?}", e.kind, e.path, e.profile,
            e.metadata.as_ref().map(|m| &m.name), e.metadata.as_ref().map(|m| &m.source)), e));
    };
    for k in 0..12 {
        add(failure(1, k), "");
        add(failure(1, k).with_path("a.b"), "");
    }
    add(failure(2, 0), "");
    add(Error::from("text"), "");
    add(Error::from("text".to_string()), "");
    add(Error::from(Kind::Message("text".into())), "");
    for path in ["a", "b", "a.b", "a.a", "b.a"] { add(Error::from("text").with_path(path), ""); }
    add(Error::from("text").with_path("b").with_path("a"), "");
    add(Error::from("text").with_path("a").with_path("b"), "");
    for (a, b) in [(0, 1), (1, 0), (0, 2), (0, 0)] { add(failure(1, a).chain(failure(1, b)), ""); }
    add(failure(1, 0).chain(failure(1, 1)).chain(failure(1, 2)), "");
    add(failure(1, 0).chain(failure(1, 1).chain(failure(1, 2))), "");
    for a in [Actual::Bool(true), Actual::Bool(false), Actual::Unsigned(1), Actual::Signed(1), Actual::Float(1.0), Actual::Char('1'),
        Actual::Str("1".into()), Actual::Bytes(vec![1]), Actual::Unit, Actual::Option, Actual::NewtypeStruct, Actual::Seq, Actual::Map,
        Actual::Enum, Actual::UnitVariant, Actual::NewtypeVariant, Actual::TupleVariant, Actual::StructVariant, Actual::Other("1".into()),
        Actual::Other("2".into())]
    {
        add(Kind::InvalidType(a.clone(), "x".into()).into(), "");
        add(Kind::InvalidValue(a.clone(), "x".into()).into(), "");
        add(Kind::Unsupported(a).into(), "");
    }
    let mut e = Error::from("text");
    e.profile = Some(Profile::new("p"));
    add(e.clone(), "");
    e.profile = Some(Profile::new("q"));
    add(e.clone(), "");
    e.metadata = Some(Metadata::named("m"));
    add(e.clone(), "");
    e.metadata = Some(Metadata::from("m", "s"));
    add(e.clone(), "");
    e.metadata = Some(Metadata::from("m", Path::new("s")));
    add(e, "");
    // Of configurations, each time anew: the sources are others, but for one
    // that is read twice.
    let f = Figment::from(Toml::string("k = true\nl = [1, true]"));
    for (i, f) in [f.clone(), f, Figment::from(Toml::string("k = true\nl = [1, true]"))].iter().enumerate() {
        let tag = format!("source {}", i / 2);
        add(f.extract_inner::<u8>("k").unwrap_err(), &tag);
        add(f.extract_inner::<Vec<u8>>("l").unwrap_err(), &tag);
        add(f.find_value("none").unwrap_err(), "");
    }
    all
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let sources = tier.sel(4, 5);
    let depth = tier.sel(2, 3);
    let mut all = vec![];

    all.push(Scenario::new(
        "tags",
        format!("1 to {sources} sources, of which two look alike, each with data in one of 4 profiles or all of these, added by any of 4 \
            operations: all pairs and triples of the tags in it, of the default one and of the same ones when serialized, read \
            in 6 ways, and looked up in the configuration, a clone and another that contains it"),
        move |cx| {
            const PROFS: [&[&str]; 5] = [&["default"], &["global"], &["p"], &["Q"], &["default", "GLOBAL", "p", "q"]];
            let n = 1 + cx.pick(sources);
            let mut f = Figment::new();
            let mut what = vec![];
            for name in 0..n {
                let profiles = *cx.of(&PROFS);
                let op = *cx.of(&[Op::Merge, Op::Join, Op::Admerge, Op::Adjoin]);
                cx.op(|| format!("{op:?} source {name} with {profiles:?}"));
                f = op.apply(f, Of { name, profiles: profiles.to_vec() });
                what.push((profiles, op));
            }
            cx.state(&what.iter().map(|(p, o)| (p, format!("{o:?}"))).collect::<Vec<_>>());
            // The source and profile of all tags, by what is known of the values.
            let mut all: Vec<(Option<usize>, String, Tag)> = vec![];
            for (profile, dict) in f.data().map_err(|e| Stop::Fail { sig: "data".into(), msg: e.to_string() })? {
                let mut tags = vec![];
                dict.values().for_each(|v| leaves(v, &mut tags));
                for (i, t) in tags { all.push((Some(i), profile.to_string(), t)); }
            }
            all.sort_by(|a, b| (a.0, &a.1).cmp(&(b.0, &b.1)));
            all.dedup_by(|a, b| a.0 == b.0 && a.1 == b.1 && a.2 == b.2 && a.2.profile() == b.2.profile());
            all.push((None, "default".into(), Tag::Default));
            all.push((None, "default".into(), Value::from(1).tag()));
            all.push((None, "default".into(), Tag::default()));
            all.push((None, "default".into(), Tagged::from(1).tag()));
            cx.outcome(&all.len());
            let tags: Vec<Tag> = all.iter().map(|a| a.2).collect();
            let (copy, outer) = (f.clone(), Figment::new().join(("k", 1)).merge(&f));
            for (i, (source, profile, tag)) in all.iter().enumerate() {
                let same = |i: usize, j: usize| all[i].0 == all[j].0;
                equal(cx, i, &tags, same)?;
                ordered(cx, i, &tags, same)?;
                let want = match profile.to_ascii_lowercase().as_str() {
                    "default" => Some(Profile::Default),
                    "global" => Some(Profile::Global),
                    _ => None,
                };
                cx.checked(2);
                ensure_eq!(tag.profile(), want, "profile", "of {tag:?} in {profile}");
                ensure_eq!(tag.is_default(), source.is_none(), "is_default", "{tag:?} of {source:?}");
                let name = source.map(|n| if n < 2 { "same".to_string() } else { format!("own {n}") });
                round_trips(cx, tag, |t| t.profile() == want && t.is_default() == source.is_none()
                    && f.get_metadata(*t).map(|m| m.name.to_string()) == name
                    && f.get_metadata(*t).map(|m| m as *const _) == f.get_metadata(*tag).map(|m| m as *const _))?;
                let v = Value::from(*tag).deserialize::<Tag>();
                ensure!(v.as_ref().map_or(false, |t| t == tag && t.profile() == want), "value", "{tag:?} is {v:?}");
                for (what, f) in [("clone", &copy), ("outer", &outer)] {
                    cx.checked(1);
                    ensure_eq!(f.get_metadata(*tag).map(|m| m.name.to_string()), name, "get_metadata", "{tag:?} in {what}");
                }
            }
            Ok(())
        }
    ));

    all.push(Scenario::new(
        "profiles",
        format!("all pairs and triples of {} names of profiles, as profiles, strings, constants, from the environment, read from \
            documents and through {} conversions", NAMES.len(), 6),
        move |cx| {
            let i = cx.pick(NAMES.len());
            cx.op(|| format!("{:?}", NAMES[i]));
            cx.state(NAMES[i]);
            let same = |i: usize, j: usize| NAMES[i].eq_ignore_ascii_case(NAMES[j]);
            let all: Vec<Profile> = NAMES.iter().map(|n| Profile::new(n)).collect();
            equal(cx, i, &all, same)?;
            ordered(cx, i, &all, same)?;
            let p = &all[i];
            round_trips(cx, p, |q| q.as_str() == NAMES[i])?;
            let constant = Profile::const_new(NAMES[i]);
            let back = Profile::from(String::from(p.clone()));
            for (j, q) in all.iter().enumerate() {
                let want = same(i, j);
                cx.checked(8);
                ensure!((constant == *q) == want && (back == *q) == want, "eq", "{constant:?} and {back:?} with {q:?}");
                ensure!(hash(&constant) == hash(p) && constant.cmp(q) == p.cmp(q), "const", "{constant:?}");
                ensure!((p == NAMES[j]) == want && (NAMES[j] == p) == want, "str", "{p:?}, {:?}", NAMES[j]);
                ensure!((*p == *NAMES[j]) == want && (*NAMES[j] == *p) == want, "str", "{p:?}, {:?}", NAMES[j]);
                ensure!((&p == q) == want && (p == &q) == want, "ref", "{p:?}, {q:?}");
                ensure!((p.as_str() == NAMES[j]) == want && (**p == *NAMES[j]) == want, "as_str", "{p:?}, {q:?}");
                let starts = NAMES[i].as_bytes().get(..NAMES[j].len())
                    .map_or(false, |s| s.eq_ignore_ascii_case(NAMES[j].as_bytes()));
                ensure!(p.starts_with(NAMES[j]) == starts, "starts_with", "{p:?}, {:?}", NAMES[j]);
                let mut dict = Dict::new();
                dict.insert("k".into(), j.into());
                let map = p.collect(dict.clone());
                ensure!(map.len() == 1 && map.get(q).is_some() == want && map.get(p) == Some(&dict), "collect", "{map:?}");
            }
            let custom = !["default", "global"].contains(&NAMES[i].to_ascii_lowercase().as_str());
            ensure_eq!(p.is_custom(), custom, "is_custom", "{p:?}");
            ensure_eq!(*p == Profile::default(), NAMES[i].eq_ignore_ascii_case("default"), "default", "{p:?}");
            ensure!(p.to_string() == p.as_str().as_str() && p.to_string().eq_ignore_ascii_case(NAMES[i]), "display", "{p}");
            Ok(())
        }
    ));

    all.push(Scenario::new(
        "metadata",
        "all pairs of sources by kind, constructor and 14 texts (which are paths or not), and of metadata with 3 names, owned and borrowed, \
         no source or any of these, and 3 interpolaters",
        move |cx| {
            let sources = all_sources();
            let i = cx.pick(sources.len());
            let of_source = |s: Option<&Source>, name: &'static str, how: usize| {
                let md = match how { 0 => Metadata::named(name), _ => Metadata::named(name.to_string()) };
                let md = match s { Some(s) => md.source(s.clone()), None => md };
                match how { 2 => md.interpolater(|_: &Profile, k: &[&str]| k.concat()), _ => md }
            };
            cx.op(|| format!("{:?}", sources[i]));
            cx.state(&format!("{:?} {i}", sources[i]));
            equal(cx, i, &sources, |i, j| same_source(&sources[i], &sources[j]))?;
            let mut mds = vec![];
            for s in [None].into_iter().chain(sources.iter().map(Some)) {
                for name in ["", "n", "N"] { for how in 0..3 { mds.push((s, name, of_source(s, name, how))); } }
            }
            let all: Vec<Metadata> = mds.iter().map(|m| m.2.clone()).collect();
            let same = |i: usize, j: usize| mds[i].1 == mds[j].1 && match (mds[i].0, mds[j].0) {
                (Some(a), Some(b)) => same_source(a, b),
                (a, b) => a.is_none() && b.is_none(),
            };
            for k in 0..9 { equal(cx, if i == 0 { k } else { 9 * (i + 1) + k }, &all, same)?; }
            Ok(())
        }
    ));

    all.push(Scenario::new(
        "wrappers",
        "all pairs of tagged values (of 8 types, from 3 sources and built in code), of relative paths (of 9 origins and 9 texts), and \
         of either-or values, by what they wrap or resolve to",
        move |cx| {
            let f = |k: usize| {
                let text = r#"{"u": [0, 1, 1, 2], "s": ["", "a", "A", "a"], "b": [true, false, true, true],
                    "f": [0.5, 1.5, 0.5, 2.5], "c": ["a", "b", "a", "c"], "v": [1, "1", [1], {"a": 1}],
                    "l": [[1], [1, 2], [1], []], "o": [1, null, 1, null]}"#;
                let f = Figment::from(Json::string(text));
                match k { 0 => f, 1 => f.join(("other", 1)).merge(Json::string(text).profile("global")), _ => Figment::from(("z", 1)).merge(f) }
            };
            fn tagged<T: DeserializeOwned + PartialEq + Clone + Debug>(cx: &mut Cx, f: &dyn Fn(usize) -> Figment, key: &str, i: usize) -> R {
                let mut all: Vec<(T, Tagged<T>)> = vec![];
                for k in 0..3 {
                    let f = f(k);
                    let e = |e: Error| Stop::Fail { sig: "extract".into(), msg: e.to_string() };
                    let plain: Vec<T> = f.extract_inner(key).map_err(e)?;
                    let tagged: Vec<Tagged<T>> = f.extract_inner(key).map_err(e)?;
                    for t in &tagged { all.push((t.clone().into_inner(), t.clone())); }
                    for t in plain { all.push((t.clone(), Tagged::from(t))); }
                }
                let wrapped: Vec<Tagged<T>> = all.iter().map(|a| a.1.clone()).collect();
                let i = i % all.len();
                equal(cx, i, &wrapped, |i, j| all[i].0 == all[j].0)?;
                ensure!(wrapped[i] == Tagged::from(all[i].0.clone()), "inner", "{:?}", wrapped[i]);
                ensure_eq!(*wrapped[i], all[i].0, "deref", "{:?}", wrapped[i]);
                Ok(())
            }
            match cx.pick(3) {
                0 => {
                    let (ty, i) = (cx.pick(8), cx.pick(24));
                    cx.op(|| format!("tagged, type {ty}, number {i}"));
                    cx.state(&(ty, i));
                    match ty {
                        0 => tagged::<u8>(cx, &f, "u", i), 1 => tagged::<String>(cx, &f, "s", i), 2 => tagged::<bool>(cx, &f, "b", i),
                        3 => tagged::<f64>(cx, &f, "f", i), 4 => tagged::<char>(cx, &f, "c", i), 5 => tagged::<Value>(cx, &f, "v", i),
                        6 => tagged::<Vec<i64>>(cx, &f, "l", i), _ => tagged::<Option<u8>>(cx, &f, "o", i),
                    }
                }
                1 => {
                    const FILES: [&str; 9] = ["", "/a/f", "/a/g", "/b/f", "/a/b/f", "/f", "a/f", "f", "/a//f"];
                    const TEXTS: [&str; 9] = ["", "x", "/a/x", "b/x", "./x", "../x", "/x", "a/x", "X"];
                    let mut all: Vec<(RelativePathBuf, PathBuf)> = vec![];
                    for file in FILES {
                        for text in TEXTS {
                            struct At(&'static str, &'static str);
                            impl Provider for At {
                                fn metadata(&self) -> Metadata {
                                    let md = Metadata::named("at");
                                    if self.0.is_empty() { md } else { md.source(Path::new(self.0)) }
                                }
                                fn data(&self) -> Result<Map<Profile, Dict>, Error> {
                                    let mut d = Dict::new();
                                    d.insert("k".into(), self.1.into());
                                    Ok(Profile::Default.collect(d))
                                }
                            }
                            let r = Figment::from(At(file, text)).extract_inner("k")
                                .map_err(|e| Stop::Fail { sig: "extract".into(), msg: e.to_string() })?;
                            let parent = match file.rfind('/') { Some(0) => "/", Some(i) => &file[..i], None => "" };
                            let to = if text.starts_with('/') { text.into() } else { Path::new(parent).join(text) };
                            all.push((r, to));
                        }
                    }
                    for text in TEXTS { all.push((RelativePathBuf::from(text), text.into())); }
                    let i = cx.pick(all.len());
                    cx.op(|| format!("relative path {:?}", all[i]));
                    cx.state(&(9, i));
                    let paths: Vec<RelativePathBuf> = all.iter().map(|a| a.0.clone()).collect();
                    equal(cx, i, &paths, |i, j| all[i].1 == all[j].1)
                }
                _ => {
                    let left = [0u8, 1, 2, 255].map(|l| (Some(l), None));
                    let right = ["", "a", "b"].map(|r| (None, Some(r.to_string())));
                    let all: Vec<_> = left.into_iter().chain(right).collect();
                    let either: Vec<Either<u8, String>> = all.iter().map(|a| match a.clone() {
                        (Some(l), _) => Either::Left(l),
                        (_, r) => Either::Right(r.unwrap()),
                    }).collect();
                    let i = cx.pick(all.len());
                    cx.op(|| format!("{:?}", either[i]));
                    cx.state(&(10, i));
                    equal(cx, i, &either, |i, j| all[i] == all[j])?;
                    ordered(cx, i, &either, |i, j| all[i] == all[j])
                }
            }
        }
    ));

    all.push(Scenario::new(
        "errors",
        "all pairs of errors: of every kind, with and without path, profile, metadata and others before them, built in code \
         and of configurations that are alike or the same; as a whole and one by one",
        move |cx| {
            let all = errors();
            let i = cx.pick(all.len());
            cx.op(|| all[i].0.clone());
            cx.state(&all[i].0);
            let list: Vec<Error> = all.iter().map(|a| a.1.clone()).collect();
            equal(cx, i, &list, |i, j| all[i].0 == all[j].0)?;
            let kinds: Vec<Kind> = list.iter().map(|e| e.kind.clone()).collect();
            equal(cx, i, &kinds, |i, j| format!("{:?}", kinds[i]) == format!("{:?}", kinds[j]))?;
            for (j, e) in list.iter().enumerate() {
                cx.checked(2);
                ensure!(list[i] != *e || list[i].to_string() == e.to_string(), "display", "{e} ({i}, {j})");
                ensure!(list[i] != *e || list[i].missing() == e.missing() && list[i].count() == e.count(), "alike", "{e}");
            }
            let one: Vec<Error> = list[i].clone().into_iter().collect();
            ensure_eq!(one.len(), list[i].count(), "count", "of {:?}", list[i]);
            Ok(())
        }
    ));

    all.push(Scenario::new(
        "same-error",
        format!("every one of {} shapes of value as every type of 6 leaf types and up to {depth} wrappings: that extracting twice, from a clone, and from the \
         configuration read by reference gives equal errors, and from an alike one an error that differs in the source alone", shapes().len()),
        move |cx| {
            let n = cx.of(&shapes()).clone();
            let ty = Rc::new(types(cx, depth, &[Ty::U8, Ty::Str, Ty::Bool, Ty::F64, Ty::Char, Ty::Unit]));
            cx.op(|| format!("{} as {ty:?}", n.show()));
            cx.state(&(&n, format!("{ty:?}")));
            let f = || Figment::from(Serialized::default("k", n.value()));
            let (a, b) = (f(), f());
            let outer = Figment::new().merge(&a);
            let Err(e) = extract(&a, &ty, false, Some("k")) else { return Ok(()) };
            cx.outcome(&e.to_string());
            for (what, f) in [("again", &a), ("clone", &a.clone()), ("outer", &outer)] {
                cx.checked(1);
                let again = extract(f, &ty, false, Some("k"));
                ensure!(again.as_ref().err() == Some(&e), "same", "{what}: {again:?}, not {e:?}");
            }
            let Err(other) = extract(&b, &ty, false, Some("k")) else { return fail("other", "no error") };
            cx.checked(1);
            ensure!(other.kind == e.kind && other.path == e.path && other.profile == e.profile
                && other.metadata.is_some() == e.metadata.is_some() && other.to_string().len() == e.to_string().len(),
                "other", "{other:?} is not as {e:?}");
            Ok(())
        }
    ));

    all
}
