//! Histories of additions, external changes, reads and copies: what a
//! configuration holds never changes but by what is done to it itself.

use std::cell::Cell;
use std::collections::BTreeMap;
use std::env;
use std::fs;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::rc::Rc;

use figment::providers::{Env, Format, Json, Serialized, Toml, Yaml};
use figment::value::magic::{RelativePathBuf, Tagged};
use figment::value::{Dict, Map, Value};
use figment::{Error, Figment, Metadata, Profile, Provider};
use serde::{Deserialize, Deserializer};

use crate::c14::Tmp;
use crate::engine::*;
use crate::model::*;
use crate::{ensure, ensure_eq};

/// A source by another name.
struct Named<T>(u32, T);

impl<T: Provider> Provider for Named<T> {
    fn metadata(&self) -> Metadata {
        let mut m = self.1.metadata();
        m.name = format!("P{}", self.0).into();
        m
    }

    fn data(&self) -> Result<Map<Profile, Dict>, Error> { self.1.data() }
    fn profile(&self) -> Option<Profile> { self.1.profile() }
    fn __metadata_map(&self) -> Option<Map<figment::value::Tag, Metadata>> { None }
}

/// A source whose data changes, and which counts how often it is asked.
#[derive(Clone, Default)]
struct Moving { version: Rc<Cell<u8>>, asked: Rc<Cell<usize>> }

impl Provider for Moving {
    fn metadata(&self) -> Metadata { Metadata::named("Moving").source(format!("version {}", self.version.get())) }

    fn data(&self) -> Result<Map<Profile, Dict>, Error> {
        self.asked.set(self.asked.get() + 1);
        match moving(self.version.get()) {
            Some(t) => Ok([(Profile::new("one"), dict_value(&t))].into_iter().collect()),
            None => Err(Error::from("version 2".to_string())),
        }
    }

    fn profile(&self) -> Option<Profile> { Some(Profile::new(["one", "two", "one"][self.version.get() as usize])) }
}

fn moving(v: u8) -> Option<Tree> {
    (v != 2).then(|| one("k", N::d(vec![("a", N::a(vec![N::u(v)])), ("m", N::s(&v.to_string()))])))
}

/// All there is to see of a configuration that does not depend on where it
/// is seen from.
pub fn seen(f: &Figment) -> String {
    let mut s = format!("{:?} {:?}\n", f.profile(), f.profiles().map(|p| p.to_string()).collect::<Vec<_>>());
    for m in f.metadata() {
        s += &format!("{} {:?} {} {:?}\n", m.name, m.source, m.interpolate(&Profile::new("q"), &["x", "y"]),
            m.provide_location.map(|l| l.line()));
    }
    let err = |e: Error| {
        let n = e.count();
        e.into_iter().map(|e| format!("{n}: {} {:?} {:?} {:?}\n", e.kind, e.path, e.profile,
            e.metadata.map(|m| (m.name.to_string(), m.source, m.provide_location.map(|l| l.line()))))).collect::<String>()
    };
    match f.data() {
        Ok(d) => for (p, d) in d { s += &format!("{p}: {:?}\n", Value::from(d)); },
        Err(e) => s += &err(e),
    }
    match f.extract::<Value>() {
        Ok(v) => s += &format!("{v:?}\n"),
        Err(e) => s += &err(e),
    }
    for k in ["k", "k.a", "k.m", "p", "nope"] {
        s += &format!("{k} {:?} {}", f.find_metadata(k).map(|m| &m.name), f.contains(k));
        match f.find_value(k) {
            Ok(v) => s += &format!("{v:?}\n"),
            Err(e) => s += &err(e),
        }
    }
    if let Ok(p) = f.extract_inner::<RelativePathBuf>("p") { s += &format!("{:?} {:?}", p.original(), p.metadata_path()); }
    s
}

/// One of 15 steps.
fn step(f: Figment, k: usize) -> Figment {
    let data = |p: &str, n: u8| P::ok(1, p, &one("k", N::d(vec![("a", N::a(vec![N::u(n)])), ("k", N::d(vec![("m", N::u(n))]))])));
    let none = |p: Option<&str>| P { name: "P2".into(), profile: p.map(Profile::new), data: Ok(Map::new()) };
    match k {
        0 => f.merge(data("default", 1)),
        1 => f.merge(data("one", 2)),
        2 => f.join(data("global", 3)),
        3 => f.admerge(data("two", 4)),
        4 => f.merge(Figment::new().select("one")),
        5 => f.join(Figment::new().select("two")),
        6 => f.adjoin(none(None)),
        7 => f.merge(none(Some("two"))),
        8 => f.merge(P { data: Err(Error::from("failed")), ..none(None) }),
        9 => f.select("one"),
        10 => f.select("default"),
        11 => f.focus("k"),
        12 => Figment::new().merge(f),
        13 => f.merge(P::ok(3, "one", &Tree::new())),
        _ => f.admerge(P { profile: Some("one".into()), ..P::ok(4, "one", &one("p", N::s("x"))) }),
    }
}

struct Panics;
impl<'de> Deserialize<'de> for Panics {
    fn deserialize<D: Deserializer<'de>>(de: D) -> Result<Panics, D::Error> {
        let _ = <Value as Deserialize>::deserialize(de)?;
        panic!("deserialization panics")
    }
}

#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct Typed { k: BTreeMap<String, Value>, #[serde(default)] p: Option<RelativePathBuf> }

/// What fails whatever is read.
#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct Never { k: BTreeMap<String, Vec<std::net::Ipv4Addr>>, absent_anyway: u8 }

pub const READS: [&str; 16] = [
    "extract", "extract typed", "extract failing", "extract_inner missing", "extract_inner failing", "lossy",
    "find_value", "find_metadata", "contains", "focus", "clone, change the clone", "data", "as a source",
    "panic while reading", "iterate partly", "relative path",
];

/// Any of the reads: what it answers.
pub fn read(f: &Figment, k: usize) -> String {
    fn ans<T: std::fmt::Debug>(r: Result<T, Error>) -> String {
        match r {
            Ok(v) => format!("{v:?}"),
            Err(e) => e.into_iter().map(|e| format!("{} {:?} {:?} ", e.kind, e.path, e.metadata.map(|m| m.name))).collect(),
        }
    }

    match k {
        0 => ans(f.extract::<Value>()),
        1 => ans(f.extract::<Typed>()),
        2 => ans(f.extract::<Never>()),
        3 => ans(f.extract_inner::<u8>("k.nope.x")),
        4 => ans(f.extract_inner::<u8>("k")) + &ans(f.extract_inner::<Vec<char>>("k.a")),
        5 => ans(f.extract_lossy::<BTreeMap<String, BTreeMap<String, Value>>>()) + &ans(f.extract_inner_lossy::<bool>("k.m")),
        6 => ans(f.find_value("k.a")) + &ans(f.find_value("")) + &ans(f.find_value("..")),
        7 => ["k", "k.a", "k.m", "k.x", "p", ""].iter().map(|p| format!("{:?}", f.find_metadata(p).map(|m| m.name.clone()))).collect(),
        8 => ["k", "k.a", "k.m", "k.x", "p", ""].iter().map(|p| format!("{:?}", f.contains(p))).collect(),
        9 => seen(&f.focus("k")) + &seen(&f.focus("k.a")) + &seen(&f.focus("nope")),
        10 => {
            let g = f.clone().merge(("k", 0)).adjoin(("k.a", [9])).admerge(("default", 3)).select("elsewhere");
            ans(g.extract::<Value>().map(|v| N::of(&v, &nosrc).show()))
        }
        11 => ans(f.data()),
        12 => ans(Figment::from(("k.a", [1])).admerge(f).join(f.clone()).extract::<Value>().map(|v| N::of(&v, &nosrc).show())),
        13 => {
            let a = catch_unwind(AssertUnwindSafe(|| f.extract::<Panics>().is_ok())).is_err();
            let b = catch_unwind(AssertUnwindSafe(|| f.extract_inner_lossy::<Panics>("k.m").is_ok())).is_err();
            format!("{a} {b}")
        }
        14 => format!("{:?} {:?}", f.metadata().next().map(|m| &m.name), f.profiles().nth(1)),
        _ => ans(f.extract_inner::<RelativePathBuf>("p").map(|p| (p.relative(), p.metadata_path().map(|p| p.to_path_buf())))),
    }
}

/// The world outside, with the configurations.
struct World {
    dirs: [PathBuf; 2],
    cwd: usize,
    /// The version of the file in each directory.
    file: [u8; 2],
    env: u8,
    moving: Moving,
    m: Machine,
    seen: Vec<String>,
    _tmp: Tmp,
}

/// A file's versions: absent, two contents, malformed and a directory.
fn write(d: &Path, v: u8) {
    let f = d.join("f.toml");
    if f.is_dir() { fs::remove_dir(&f).unwrap() } else { let _ = fs::remove_file(&f); }
    match v {
        0 => {}
        1 | 2 => fs::write(f, format!("p = 'x{v}/y'\n[k]\na = [{v}]\nf{v} = {v}\n")).unwrap(),
        3 => fs::write(f, "k = [1\n").unwrap(),
        _ => fs::create_dir(f).unwrap(),
    }
}

fn contents(v: u8) -> Result<Tree, ()> {
    match v {
        0 | 4 => Ok(Tree::new()),
        1 | 2 => {
            let i = N::i(v as i64);
            Ok(N::d(vec![("p", N::s(&format!("x{v}/y"))), ("k", N::d(vec![("a", N::a(vec![i.clone()])), (&format!("f{v}"), i)]))])
                .dict().unwrap().clone())
        }
        _ => Err(()),
    }
}

const VAR: &str = "MC_NINETEEN_K";

impl World {
    fn new() -> World {
        let tmp = Tmp::new();
        let dirs = [tmp.0.join("a"), tmp.0.join("b")];
        for d in &dirs { fs::create_dir(d).unwrap(); }
        env::set_current_dir(&dirs[0]).unwrap();
        for (k, _) in env::vars_os() {
            if k.to_string_lossy().to_ascii_uppercase().starts_with("MC_NINETEEN_") { env::remove_var(k); }
        }
        write(&dirs[0], 1);
        let m = Machine::new(2);
        let s = seen(&m.f[0]);
        World { dirs, cwd: 0, file: [1, 0], env: 0, moving: Moving::default(), seen: vec![s.clone(), s], m, _tmp: tmp }
    }

    /// Something outside changes.
    fn outside(&mut self, cx: &mut Cx, k: usize) {
        match k {
            0..=4 => {
                cx.op(|| format!("the file in {} becomes version {k}", self.cwd));
                write(&self.dirs[self.cwd], k as u8);
                self.file[self.cwd] = k as u8;
            }
            5 => {
                self.cwd = 1 - self.cwd;
                cx.op(|| format!("into directory {}", self.cwd));
                env::set_current_dir(&self.dirs[self.cwd]).unwrap();
            }
            6..=8 => {
                self.env = k as u8 - 6;
                cx.op(|| format!("the variable becomes version {}", self.env));
                match self.env {
                    0 => env::remove_var(VAR),
                    1 => env::set_var(VAR, "{a = [e1], e1 = x}"),
                    _ => env::set_var(VAR, "{a = [e2], e2 = x}"),
                }
            }
            9..=11 => {
                self.moving.version.set(k as u8 - 9);
                cx.op(|| format!("the moving source becomes version {}", k - 9));
            }
            _ => unreachable!(),
        }
    }

    /// A source is added, as it is now.
    fn add(&mut self, cx: &mut Cx, i: usize, op: Op, k: usize) -> R {
        let id = self.m.next_id();
        self.m.names.push(format!("P{id}"));
        let f = std::mem::take(&mut self.m.f[i]);
        let (version, profile, data, source);
        match k {
            0 | 1 => {
                version = self.file[self.cwd];
                let file = Toml::file("f.toml").required(k == 1);
                self.m.f[i] = op.apply(f, Named(id, file));
                data = match contents(version) {
                    Ok(t) if k == 0 || version == 1 || version == 2 => Ok(("default", t)),
                    _ => Err(1),
                };
                profile = None;
                // Where the file isn't found, it's reported as it was given.
                let path = self.dirs[self.cwd].join("f.toml");
                source = Some(if [1, 2, 3].contains(&version) { path } else { "f.toml".into() });
            }
            2 => {
                version = self.env;
                self.m.f[i] = op.apply(f, Named(id, Env::prefixed("MC_NINETEEN_").profile("global")));
                data = Ok(("global", match version {
                    0 => Tree::new(),
                    v => one("k", N::d(vec![("a", N::a(vec![N::s(&format!("e{v}"))])), (&format!("e{v}"), N::s("x"))])),
                }));
                profile = None;
                source = None;
            }
            _ => {
                version = self.moving.version.get();
                self.m.f[i] = op.apply(f, Named(id, self.moving.clone()));
                data = moving(version).map(|t| ("one", t)).ok_or(1);
                profile = Some(["one", "two", "one"][version as usize].to_string());
                source = None;
            }
        }
        cx.op(|| format!("{i}: {op:?} P{id}, the {} in version {version}", ["file", "required file", "variable", "moving source"][k]));
        if k < 2 {
            let got = self.m.f[i].metadata().last().unwrap();
            let got = got.source.as_ref().and_then(|s| s.file_path()).map(|p| p.to_path_buf());
            ensure_eq!(got, source, "source", "of P{id}");
        }
        // Where there is no file, it's nothing for no profile.
        let none = k == 0 && matches!(version, 0 | 4);
        let data = data.map(|(p, t)| if none { BTreeMap::new() } else { [(p.to_string(), t)].into() });
        self.m.c[i].add(&Source { id, profile, data }, op);
        self.changed(i);
        Ok(())
    }

    fn changed(&mut self, i: usize) { self.seen[i] = seen(&self.m.f[i]); }

    /// Every configuration is as it was made.
    fn compare(&self, cx: &mut Cx) -> R {
        let asked = self.moving.asked.get();
        for i in 0..self.m.f.len() {
            let (f, c) = (&self.m.f[i], &self.m.c[i]);
            if c.errors.is_empty() {
                self.m.compare_one(cx, i)?;
            } else {
                same_sources(cx, f, c, &self.m.names)?;
                let e = match f.extract::<Value>() { Ok(_) => return fail("masked", "no error"), Err(e) => e };
                let got: Vec<u32> = e.into_iter().map(|e| id_of(e.metadata.as_ref())).collect();
                ensure_eq!(got, c.errors.iter().map(|e| e.0).collect::<Vec<_>>(), "errors", "sources of {i}'s");
            }
            cx.checked(1);
            ensure_eq!(seen(f), self.seen[i], "changed", "configuration {i}");
        }
        ensure_eq!(self.moving.asked.get(), asked, "asked", "by reading");
        Ok(())
    }
}

fn histories(name: &'static str, what: &str, n: usize, adds: &'static [(Op, usize)], outside: &'static [usize], reads: bool) -> Scenario {
    Scenario::new(
        name,
        format!("every history of up to {n} of: {what}; then both configurations are as they were when last changed \
            themselves, and as the model has them"),
        move |cx| {
            let mut w = World::new();
            let n = cx.pick(n + 1);
            for _ in 0..n {
                let mut k = cx.pick(adds.len() + outside.len() + 5 + if reads { READS.len() } else { 0 });
                if k < adds.len() {
                    w.add(cx, 0, adds[k].0, adds[k].1)?;
                    continue;
                }
                k -= adds.len();
                if k < outside.len() {
                    w.outside(cx, outside[k]);
                    continue;
                }
                k -= outside.len();
                match k {
                    0 => { w.m.copy(cx, 1, 0); w.changed(1); }
                    1 => {
                        cx.op(|| "swap".into());
                        w.m.f.swap(0, 1);
                        w.m.c.swap(0, 1);
                        w.seen.swap(0, 1);
                    }
                    2 => { w.m.add_conf(cx, 0, Op::Adjoin, 1, true); w.changed(0); }
                    3 => { w.m.select(cx, 0, "one"); w.changed(0); }
                    4 => {
                        w.m.focus(cx, 0, "k");
                        w.changed(0);
                    }
                    k => {
                        cx.op(|| READS[k - 5].into());
                        let a = read(&w.m.f[0], k - 5);
                        ensure_eq!(read(&w.m.f[0], k - 5), a, "repeated", "{}", READS[k - 5]);
                    }
                }
            }
            cx.state(&(&w.m.c, &w.file, w.cwd, w.env, w.moving.version.get()));
            w.compare(cx)
        }
    )
}

const ADDS: [(Op, usize); 6] = [
    (Op::Merge, 0), (Op::Admerge, 1), (Op::Merge, 2), (Op::Adjoin, 2), (Op::Admerge, 3), (Op::Join, 3),
];

/// Without the numbers of tags.
fn untagged(s: &str) -> String {
    let mut parts = s.split("Tag(");
    let mut o = parts.next().unwrap().to_string();
    for p in parts { o += p.split_once(')').map_or("", |p| p.1); }
    o
}

/// Configurations to read.
pub fn figments(tmp: &Path) -> Vec<(&'static str, Figment)> {
    env::set_current_dir(tmp).unwrap();
    fs::create_dir_all(tmp.join("sub")).unwrap();
    fs::write(tmp.join("f.toml"), "p = 'x/y'\n[k]\na = [1, 2]\nm = 'on'\n").unwrap();
    fs::write(tmp.join("bad.json"), "{").unwrap();
    env::set_var(VAR, "{a = [z], n = 3}");
    let p = |id, prof: &str, n: N| P::ok(id, prof, &one("k", n));
    vec![
        ("empty", Figment::new()),
        ("file", Figment::from(Toml::file("f.toml"))),
        ("files", Figment::from(Toml::file("f.toml")).adjoin(Yaml::string("k: {a: [3], m: 1}")).admerge(Env::prefixed("MC_NINETEEN_"))),
        ("profiles", Figment::from(p(1, "default", N::d(vec![("a", N::a(vec![N::u(1)]))])))
            .merge(p(2, "one", N::d(vec![("m", N::s("true"))]))).join(p(3, "global", N::d(vec![("x", N::u(1))]))).select("one")),
        ("errors", Figment::from(Toml::file("f.toml")).merge(Json::file("bad.json")).merge(Json::string("["))),
        ("nested", Figment::from(Figment::from(Toml::file("f.toml")).merge(("k.m", 3))).admerge(&Figment::from(("k.a", [5])))),
        ("focused", Figment::from(Serialized::default("k.k.m", 1)).merge(("k.p", "x")).focus("k")),
        ("not dict", Figment::from(Serialized::defaults([1])).merge(("k", [1]))),
    ]
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    v.push(histories("outside",
        "adding the file, a required file, the environment or a moving source, the file changing into any of 5 \
         versions, the other directory, the variable changing, the moving source changing, a clone, a swap, one \
         as a source of the other, selection, focus",
        tier.sel(3, 4), &ADDS, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11], false));
    v.push(histories("reading",
        "adding the file or a moving source, a change to each, a clone, a swap, one as a source of the other, \
         selection, focus, and 16 kinds of reads, including failing and panicking ones",
        tier.sel(3, 4), &[(Op::Admerge, 0), (Op::Join, 3)], &[2, 11], true));

    if tier == Tier::Thorough {
        v.push(histories("outside-longer",
            "adding the file, the environment or a moving source, the file changing into any of 3 versions, the other \
             directory, the variable or the moving source changing, a clone, a swap, one as a source of the other, \
             selection, focus",
            5, &[(Op::Merge, 0), (Op::Adjoin, 2), (Op::Admerge, 3)], &[2, 3, 5, 7, 10], false));
    }

    // A longer history of fewer things.
    v.push(histories("long",
        "adding the file or a moving source, a change to each, a clone, a swap, one as a source of the other, \
         selection, focus",
        tier.sel(5, 6), &[(Op::Admerge, 0), (Op::Merge, 3)], &[2, 5, 10], false));

    let n = tier.sel(4, 5);
    v.push(Scenario::new(
        "between",
        format!("every history of {n} of 15 steps (adding data to any profile, sources without data but a selection, with \
            neither, failing ones, by each operation, selection, focus, nesting): read after every step, it is at \
            each step as the same one that was never read"),
        move |cx| {
            let mut f = Figment::new();
            let mut steps = vec![];
            for _ in 0..n {
                let k = cx.pick(15);
                cx.op(|| format!("step {k}"));
                steps.push(k);
                f = step(f, k);
                let unread = steps.iter().fold(Figment::new(), |f, &k| step(f, k));
                cx.checked(1);
                ensure_eq!(seen(&f), seen(&unread), "stale", "after {steps:?}");
            }
            cx.state(&steps);
            cx.outcome(&seen(&f));
            Ok(())
        }
    ));

    let n = tier.sel(2, 4);
    v.push(Scenario::new(
        "reads",
        format!("every sequence of {n} of 16 kinds of reads of each of 8 configurations, after which a read of any kind \
            answers as the first of a fresh one"),
        move |cx| {
            let tmp = Tmp::new();
            let fresh = figments(&tmp.0);
            let all = figments(&tmp.0);
            let i = cx.pick(all.len());
            let before = seen(&all[i].1);
            cx.op(|| all[i].0.into());
            cx.state(&i);
            for _ in 0..n {
                let k = cx.pick(READS.len());
                cx.op(|| READS[k].into());
                env::set_current_dir(tmp.0.join("sub")).unwrap();
                let a = read(&all[i].1, k);
                cx.checked(1);
                ensure_eq!(untagged(&a), untagged(&read(&fresh[i].1.clone(), k)), "answer", "{}", READS[k]);
                cx.outcome(&a);
            }
            for k in 0..READS.len() {
                ensure_eq!(untagged(&read(&all[i].1, k)), untagged(&read(&fresh[i].1.clone(), k)), "answer", "{} in the end", READS[k]);
            }
            ensure_eq!(seen(&all[i].1), before, "changed", "by reading");
            Ok(())
        }
    ));

    v.push(Scenario::new(
        "again",
        "each of 16 kinds of reads 300 times of each of 8 configurations",
        |cx| {
            let tmp = Tmp::new();
            let all = figments(&tmp.0);
            let (name, f) = cx.of(&all);
            let k = cx.pick(READS.len());
            cx.op(|| format!("{name} {}", READS[k]));
            cx.state(&(name, k));
            let first = read(f, k);
            let before = seen(f);
            for i in 1..300 {
                cx.checked(1);
                ensure_eq!(read(f, k), first, "answer", "time {i}");
            }
            ensure_eq!(seen(f), before, "changed", "by reading");
            Ok(())
        }
    ));

    v.push(Scenario::new(
        "kept",
        "values, errors, metadata and tagged values taken from each of 8 configurations are as taken after the \
         configuration, files and variables are gone, and in its clones tags still lead to their sources",
        |cx| {
            let tmp = Tmp::new();
            let all = figments(&tmp.0);
            let i = cx.pick(all.len());
            let how = cx.pick(4);
            let f = all[i].1.clone();
            drop(all);
            cx.op(|| format!("configuration {i}, {how}"));
            cx.state(&(i, how));
            let v = f.extract::<Value>();
            let t = f.extract_inner::<Tagged<Value>>("k");
            let r = f.extract_inner::<RelativePathBuf>("p").ok();
            let show = |v: &Result<Value, Error>| match v {
                Ok(v) => format!("{v:?}"),
                Err(e) => format!("{:?} {:?} {:?}", e.kind, e.path, e.metadata.as_ref().map(|m| (m.name.clone(), m.source.clone()))),
            };
            let shown = show(&v);
            let at = r.as_ref().map(|r| r.relative());
            let md: Vec<Metadata> = f.metadata().cloned().collect();
            let all_seen = seen(&f);
            match how {
                0 => {}
                1 => { fs::remove_file(tmp.0.join("f.toml")).unwrap(); env::remove_var(VAR); }
                2 => { env::set_current_dir("sub").unwrap(); fs::write(tmp.0.join("sub/f.toml"), "k = 1").unwrap(); }
                _ => fs::write(tmp.0.join("f.toml"), "k = 1\np = 'z'").unwrap(),
            }
            let g = f.clone();
            cx.checked(5);
            ensure_eq!(seen(&f), all_seen, "changed", "afterwards");
            drop(f);
            ensure_eq!(seen(&g), all_seen, "changed", "clone of a dropped one");
            ensure_eq!(show(&v), shown, "value", "kept");
            ensure_eq!(r.map(|r| r.relative()), at, "relative", "kept");
            ensure!(g.metadata().eq(md.iter()), "metadata", "of the clone");
            if let Ok(t) = t {
                ensure!(g.get_metadata(t.tag()) == g.find_metadata("k"), "metadata", "by a tag taken before");
            }
            Ok(())
        }
    ));

    v.push(Scenario::new(
        "sizes",
        "a configuration of up to 130 sources, copied at any point in between and both continued: each as by itself",
        |cx| {
            let n = cx.pick(131);
            let at = cx.pick(4) * n / 3;
            let op = *cx.of(&OPS);
            let mut m = Machine::new(2);
            for i in 0..n {
                if i == at { m.copy(cx, 1, 0); }
                let s = Source { id: 0, profile: None, data: Ok([("default".into(), N::d(vec![
                    ("k", N::d(vec![("a", N::a(vec![N::i(i as i64)])), ("m", N::i(i as i64))])), (&format!("k{i}"), N::u(1))]).dict().unwrap().clone())].into()) };
                m.add(cx, 0, op, s.clone(), false);
                if i >= at { m.add(cx, 1, if i % 2 == 0 { Op::Merge } else { Op::Adjoin }, s, true); }
            }
            cx.state(&(n, at, op as usize));
            m.compare(cx)?;
            m.compare(cx)
        }
    ));

    v
}
