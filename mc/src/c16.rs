//! Relative paths: text, origin and resolution, through any nesting, layering
//! and chain of re-serialization.

use std::collections::BTreeMap;
use std::ffi::OsString;
use std::fs;
use std::os::unix::ffi::OsStringExt;
use std::path::{Path, PathBuf};
use std::rc::Rc;

use figment::providers::{Env, Format, Json, Serialized, Toml, Yaml, YamlExtended};
use figment::value::magic::{Either, RelativePathBuf, Tagged};
use figment::value::{Dict, Map, Value};
use figment::{Error, Figment, Metadata, Profile, Provider};
use serde::ser::{Serialize, SerializeMap, Serializer};
use serde::Deserialize;

use crate::c01::odd_keys;
use crate::c05::{compare, extract};
use crate::c14::Tmp;
use crate::dynde::*;
use crate::engine::*;
use crate::model::*;
use crate::{ensure, ensure_eq};

/// What a relative path is, in the model.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Want { text: String, meta: Option<PathBuf> }

impl Want {
    /// Where it leads, by the text of the paths alone.
    fn resolved(&self) -> String {
        let text = self.text.as_str();
        let Some(meta) = self.meta.as_ref().filter(|_| !text.starts_with('/')) else { return text.into() };
        let meta = meta.to_str().unwrap();
        let is_dir = fs::metadata(if meta.is_empty() { "/none" } else { meta }).map_or(false, |m| m.is_dir());
        let dir = match is_dir {
            true => meta,
            false => match meta.trim_end_matches('/').rfind('/') {
                Some(0) => "/",
                Some(i) => &meta[..i],
                None => "",
            }
        };
        match dir {
            "" => text.into(),
            d if d.ends_with('/') => format!("{d}{text}"),
            d => format!("{d}/{text}"),
        }
    }

    fn check(&self, cx: &mut Cx, r: &RelativePathBuf) -> R {
        cx.checked(3);
        ensure_eq!(r.original().as_os_str(), self.text.as_str(), "original", "text of {self:?}");
        ensure_eq!(r.metadata_path().map(|p| p.as_os_str()), self.meta.as_ref().map(|p| p.as_os_str()),
            "metadata_path", "origin of {self:?}");
        let want = self.resolved();
        let same = |a: &Path, b: &Path| a == b && a.has_root() == b.has_root();
        ensure!(same(&r.relative(), Path::new(&want)), "relative", "{self:?} is {:?}, expected {want:?}", r.relative());
        Ok(())
    }
}

/// A source with a location.
#[derive(Clone)]
struct At { p: P, file: Option<PathBuf>, how: usize }

impl Provider for At {
    fn metadata(&self) -> Metadata {
        let md = self.p.metadata();
        match (&self.file, self.how) {
            (Some(f), _) => md.source(f.as_path()),
            (None, 0) => md,
            (None, 1) => md.source("custom/place.toml".to_string()),
            (None, _) => md.source(std::panic::Location::caller()),
        }
    }
    fn data(&self) -> Result<Map<Profile, Dict>, Error> { self.p.data() }
}

/// Configurations of sources with locations.
struct Files { m: Machine, files: BTreeMap<u32, PathBuf> }

impl Files {
    fn new(n: usize) -> Files { Files { m: Machine::new(n), files: BTreeMap::new() } }

    fn add(&mut self, cx: &mut Cx, i: usize, op: Op, prof: &str, t: Tree, file: Option<&str>, how: usize) {
        let m = &mut self.m;
        let id = m.next_id();
        m.names.push(format!("P{id}"));
        cx.op(|| format!("{i}: {op:?} P{id} {prof}: {} from {file:?}", show_tree(&t)));
        let s = Source { id, profile: None, data: Ok([(prof.to_string(), t)].into_iter().collect()) };
        let p = At { p: P::of(&s), file: file.map(|f| f.into()), how };
        m.f[i] = op.apply(std::mem::take(&mut m.f[i]), p);
        m.c[i].add(&s, op);
        if let Some(f) = file { self.files.insert(id, f.into()); }
    }

    /// Extracts a configuration as the type and compares all paths in it.
    fn check(&self, cx: &mut Cx, i: usize, ty: &Rc<Ty>, at: Option<&str>) -> R {
        let (f, c) = (&self.m.f[i], &self.m.c[i]);
        let whole = root(c.effective());
        let n = match at {
            None => whole,
            Some(p) => whole.find(&p.split('.').collect::<Vec<_>>()).expect("harness: path").clone(),
        };
        FILES.with(|x| *x.borrow_mut() = self.files.clone());
        let want = expect(&n, ty, false);
        FILES.with(|x| x.borrow_mut().clear());
        for lossy in [false, true] {
            RELS.with(|v| *v.borrow_mut() = Some(vec![]));
            let got = extract(f, ty, lossy, at);
            let rels = RELS.with(|v| v.borrow_mut().take()).unwrap();
            if got.is_ok() {
                if let Ok(w) = &want {
                    let mut all = vec![];
                    wants(w, &mut all);
                    // In the order of the fields, not of the keys.
                    let sorted = |mut v: Vec<String>| { v.sort(); v };
                    let key = |a: &Path, b: Option<&Path>| format!("{a:?} {b:?}");
                    ensure_eq!(sorted(rels.iter().map(|r| key(r.original(), r.metadata_path())).collect()),
                        sorted(all.iter().map(|w| key(w.text.as_ref(), w.meta.as_deref())).collect()),
                        "paths", "paths in {got:?}");
                    for r in &rels {
                        let w = Want {
                            text: r.original().to_str().unwrap().into(),
                            meta: r.metadata_path().map(|p| p.into()),
                        };
                        w.check(cx, r)?;
                    }
                }
            }
            let root: Vec<&str> = at.map(|p| p.split('.').collect()).unwrap_or_default();
            compare(cx, f, got, &want, &root)?;
        }
        Ok(())
    }
}

fn wants(o: &Out, v: &mut Vec<Want>) {
    match o {
        Out::Rel(p, m) => v.push(Want { text: p.to_str().unwrap().into(), meta: m.clone() }),
        Out::Some(o) | Out::Newtype(o) | Out::TaggedSrc(_, o) | Out::Left(o) | Out::Right(o) => wants(o, v),
        Out::Seq(s) | Out::Struct(s) | Out::Var(_, s) => s.iter().for_each(|o| wants(o, v)),
        Out::Map(m) => m.values().for_each(|o| wants(o, v)),
        _ => {}
    }
}

fn texts(tier: Tier) -> Vec<String> {
    let mut v: Vec<String> = ["", "x", ".", "..", "./a", "../a", "a/b", "a/./b", "a/../b", "a//b", "a/", "/", "/a",
        "/a/../b", "//a", "/.", "~", "~/a", "$HOME", "C:\\x", "a\\b", " a ", "a\nb", "é/ü", "日本", "...",
        "..a", "a.toml", "file:///a", "../../../../a", "*", "%2f", "%2E%2E/a", "true", "1", "[a]", "\u{0}", "a,b"].iter()
        .map(|s| s.to_string()).collect();
    let max = tier.sel(4, 6);
    // Of all paths over these.
    let mut level = vec![String::new()];
    for _ in 0..max {
        level = level.iter().flat_map(|s| ["/", ".", "a"].map(|c| format!("{s}{c}"))).collect();
        v.extend(level.iter().cloned());
    }
    for n in [64, 127, 128, 129, 255, 256, 257, 300, 4097] {
        v.push("a".repeat(n));
        v.push("a/".repeat(n));
        v.push(format!("/{}", "é".repeat(n)));
    }
    v.sort();
    v.dedup();
    v
}

fn metas(dir: &Path) -> Vec<Option<String>> {
    let d = dir.to_str().unwrap();
    let mut v: Vec<Option<String>> = ["/a/b.toml", "/b.toml", "b.toml", "d/b.toml", "", "/", "./b.toml", "../b.toml",
        "..", ".", "d", "d/", "d/e", "d/f.toml", "f.toml", "a b/ü ñ.toml", "/a//b.toml", "/a/./b.toml",
        "/a/../b.toml", "/日本/b", "/a/b", "/a/b.toml/c"].iter().map(|s| Some(s.to_string())).collect();
    for s in ["", "/d", "/d/", "/f.toml", "/d/f.toml", "/d/e/none.toml", "/none/none"] {
        v.push(Some(format!("{d}{s}")));
    }
    v.push(Some(format!("/{}/f", "x/".repeat(130))));
    v.push(None);
    v
}

/// A directory with some of those, as the current one.
fn tree() -> Tmp {
    let tmp = Tmp::new();
    fs::create_dir_all(tmp.0.join("d/e")).unwrap();
    fs::create_dir_all(tmp.0.join("other")).unwrap();
    fs::write(tmp.0.join("f.toml"), "").unwrap();
    fs::write(tmp.0.join("d/f.toml"), "").unwrap();
    std::env::set_current_dir(&tmp.0).unwrap();
    tmp
}

/// Places the value in any way of nesting at most `n` deep, with its type.
fn placed(cx: &mut Cx, n: usize) -> Ty {
    let k = cx.pick(n + 1);
    let mut t = Ty::Rel;
    for _ in 0..k { t = cx.of(&wrap(&t, &Ty::Rel)).clone(); }
    t
}

/// A conforming value with the texts in turn.
fn filled(n: &N, texts: &[&str], i: &mut usize) -> N {
    let v = match &n.v {
        M::S(Sc::Str(s)) if s.starts_with('s') => { *i += 1; M::S(Sc::Str(texts[(*i - 1) % texts.len()].into())) }
        M::S(s) => M::S(s.clone()),
        M::A(v) => M::A(v.iter().map(|n| filled(n, texts, i)).collect()),
        M::D(d) => M::D(d.iter().map(|(k, n)| (k.clone(), filled(n, texts, i))).collect()),
    };
    N { v, src: n.src }
}

// Chains of serialization.

#[derive(Debug, Deserialize)]
struct Cfg {
    one: RelativePathBuf,
    #[serde(default)]
    opt: Option<RelativePathBuf>,
    list: Vec<RelativePathBuf>,
    map: BTreeMap<String, RelativePathBuf>,
    pair: (RelativePathBuf, u8),
    kind: Kind,
    inner: Inner,
    #[serde(default)]
    tag: Option<Tagged<RelativePathBuf>>,
}

#[derive(Debug, Deserialize)]
enum Kind { New(RelativePathBuf), Named { path: RelativePathBuf } }

#[derive(Debug, Deserialize)]
struct Inner { deep: Vec<BTreeMap<String, Option<RelativePathBuf>>> }

impl Cfg {
    fn rels(&self) -> Vec<&RelativePathBuf> {
        let mut v = vec![&self.one];
        v.extend(&self.opt);
        v.extend(&self.list);
        v.extend(self.map.values());
        v.push(&self.pair.0);
        v.push(match &self.kind { Kind::New(p) => p, Kind::Named { path } => path });
        v.extend(self.inner.deep.iter().flat_map(|m| m.values().flatten()));
        v.extend(self.tag.iter().map(|t| &**t));
        v
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Mode { Full, Original, Relative }

const MODES: [Mode; 3] = [Mode::Full, Mode::Original, Mode::Relative];

struct As<'a>(Mode, &'a RelativePathBuf);

impl Serialize for As<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.0 {
            Mode::Full => self.1.serialize(s),
            Mode::Original => self.1.serialize_original(s),
            Mode::Relative => self.1.serialize_relative(s),
        }
    }
}

struct CfgAs<'a>(Mode, &'a Cfg, bool);

impl Serialize for CfgAs<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let CfgAs(m, c, tags) = *self;
        let a = |r| As(m, r);
        let mut q = s.serialize_map(None)?;
        q.serialize_entry("one", &a(&c.one))?;
        q.serialize_entry("opt", &c.opt.as_ref().map(a))?;
        q.serialize_entry("list", &c.list.iter().map(a).collect::<Vec<_>>())?;
        q.serialize_entry("map", &c.map.iter().map(|(k, v)| (k, a(v))).collect::<BTreeMap<_, _>>())?;
        q.serialize_entry("pair", &(a(&c.pair.0), c.pair.1))?;
        match &c.kind {
            Kind::New(p) => q.serialize_entry("kind", &[("New", a(p))].into_iter().collect::<BTreeMap<_, _>>())?,
            Kind::Named { path } => q.serialize_entry("kind", &[("Named",
                [("path", a(path))].into_iter().collect::<BTreeMap<_, _>>())].into_iter().collect::<BTreeMap<_, _>>())?,
        }
        let deep: Vec<BTreeMap<&String, Option<As>>> = c.inner.deep.iter()
            .map(|d| d.iter().map(|(k, v)| (k, v.as_ref().map(a))).collect()).collect();
        q.serialize_entry("inner", &[("deep", deep)].into_iter().collect::<BTreeMap<_, _>>())?;
        if tags {
            if let Some(t) = &c.tag {
                match m {
                    Mode::Full => q.serialize_entry("tag", t)?,
                    _ => q.serialize_entry("tag", &a(t))?,
                }
            }
        }
        q.end()
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Sink { Defaults, Key, Toml, Json, Yaml, Ext, TomlText, JsonText, Value, Nested }

const SINKS: [Sink; 10] = [Sink::Defaults, Sink::Key, Sink::Toml, Sink::Json, Sink::Yaml, Sink::Ext, Sink::TomlText,
    Sink::JsonText, Sink::Value, Sink::Nested];

/// TOML for what JSON says, without nulls.
fn toml_of(j: &serde_json::Value) -> String {
    match j {
        serde_json::Value::Object(o) => format!("{{ {} }}", o.iter().filter(|(_, v)| !v.is_null())
            .map(|(k, v)| format!("{} = {}", serde_json::Value::from(k.as_str()), toml_of(v)))
            .collect::<Vec<_>>().join(", ")),
        serde_json::Value::Array(a) => format!("[{}]", a.iter().map(toml_of).collect::<Vec<_>>().join(", ")),
        j => j.to_string(),
    }
}

fn toml_doc(j: &serde_json::Value) -> String {
    j.as_object().unwrap().iter().filter(|(_, v)| !v.is_null())
        .map(|(k, v)| format!("{} = {}\n", serde_json::Value::from(k.as_str()), toml_of(v))).collect()
}

/// The document that starts a chain, with these texts in turn.
fn start(texts: &[&str], some: bool, named: bool) -> serde_json::Value {
    let mut i = 0;
    let mut t = || { i += 1; serde_json::Value::from(texts[(i - 1) % texts.len()]) };
    let mut d = serde_json::json!({
        "one": t(), "list": [t(), t()], "map": { "a": t(), "b.c": t() }, "pair": [t(), 7],
        "kind": if named { serde_json::json!({"Named": {"path": t()}}) } else { serde_json::json!({"New": t()}) },
        "inner": { "deep": [{}, { "x": t(), "y": t() }] },
    });
    if some { d["opt"] = t(); d["tag"] = t(); }
    d
}

/// One step: extracts what is expected, then serializes it into a sink.
struct Chain { f: Figment, at: Option<&'static str>, want: Vec<Want> }

impl Chain {
    fn extract(&self) -> Result<Cfg, Error> {
        match self.at { None => self.f.extract(), Some(p) => self.f.extract_inner(p) }
    }

    fn check(&self, cx: &mut Cx) -> R<Cfg> {
        let c = match self.extract() {
            Ok(c) => c,
            Err(e) => return fail("rejected", format!("{e} at {:?}", e.path)),
        };
        let rels = c.rels();
        ensure_eq!(rels.len(), self.want.len(), "paths", "number of paths in {c:?}");
        for (r, w) in rels.iter().zip(&self.want) { w.check(cx, r)?; }
        Ok(c)
    }

    fn step(self, cx: &mut Cx, c: &Cfg, mode: Mode, sink: Sink, file: &Path) -> R<Chain> {
        let tags = !matches!(sink, Sink::Toml | Sink::TomlText);
        let s = CfgAs(mode, c, tags);
        let mut want = self.want;
        if !tags && c.tag.is_some() { want.pop(); }
        cx.op(|| format!("{mode:?} into {sink:?} {file:?}"));
        let is_file = matches!(sink, Sink::Toml | Sink::Json | Sink::Yaml | Sink::Ext);
        for w in &mut want {
            match mode {
                Mode::Full if w.meta.is_some() => continue,
                Mode::Full | Mode::Original => {}
                Mode::Relative => w.text = w.resolved(),
            }
            w.meta = is_file.then(|| file.to_path_buf());
        }
        let j = serde_json::to_value(&s).unwrap();
        let (mut f, mut at) = (Figment::new(), None);
        let text = match sink {
            Sink::Toml | Sink::TomlText => toml_doc(&j),
            _ => j.to_string(),
        };
        if is_file { fs::write(file, &text).unwrap(); }
        f = match sink {
            Sink::Defaults => f.merge(Serialized::defaults(s)),
            Sink::Key => { at = Some("some.key"); f.merge(Serialized::global("some.key", s)) }
            Sink::Toml => f.merge(Toml::file(file)),
            Sink::Json => f.merge(Json::file(file)),
            Sink::Yaml => f.merge(Yaml::file(file)),
            Sink::Ext => f.merge(YamlExtended::file(file)),
            Sink::TomlText => f.merge(Toml::string(&text)),
            Sink::JsonText => f.merge(Json::string(&text)),
            Sink::Value => f.merge(Serialized::defaults(Value::serialize(s).unwrap())),
            Sink::Nested => f.merge(Figment::from(Serialized::global("in", s)).focus("in")),
        };
        Ok(Chain { f, at, want })
    }
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![];

    let all = texts(tier);
    v.push(Scenario::new(
        "texts",
        format!("{} texts of paths (all over `/`, `.` and `a` to a length, and others) x 30 locations of sources \
            (files, directories, relative, none, ..), alone and in a sequence and map", all.len()),
        move |cx| {
            let tmp = tree();
            let metas = metas(&tmp.0);
            let i = cx.pick(metas.len());
            let text = cx.of(&all).clone();
            let mut fs = Files::new(1);
            let t = N::d(vec![("a", N::s(&text)), ("b", N::a(vec![N::s(&text)])), ("c", N::d(vec![("k", N::s(&text))]))]);
            fs.add(cx, 0, Op::Merge, "default", t.dict().unwrap().clone(), metas[i].as_deref(), text.len() % 3);
            let ty = rc(strukt(vec![Ty::Rel, seq(Ty::Rel), map(Ty::Rel)]));
            cx.state(&(&i, &text));
            cx.outcome(&Want { text, meta: metas[i].as_ref().map(|m| m.into()) }.resolved());
            fs.check(cx, 0, &ty, None)
        }
    ).tasks(256));

    let depth = tier.sel(2, 3);
    v.push(Scenario::new(
        "nestings",
        format!("paths in any nesting of {depth} containers and wrappers, of 15 kinds, from a file or not, in each \
            kind of profile, whole or at a key"),
        move |cx| {
            let ty = placed(cx, depth);
            let prof = *cx.of(&["default", "custom", "global"]);
            let (file, how) = *cx.of(&[(Some("/x/y/z.toml"), 0), (None, 0), (None, 1), (None, 2)]);
            let n = filled(&conforming(&ty, 0), &["p/q", "/abs", "../r"], &mut 0);
            let mut fs = Files::new(1);
            fs.add(cx, 0, Op::Merge, prof, one("a", n), file, how);
            fs.m.select(cx, 0, "custom");
            cx.state(&(&ty, prof, file, how));
            fs.check(cx, 0, &rc(Ty::Struct(false, vec![rc(ty.clone())])), None)?;
            fs.check(cx, 0, &rc(ty), Some("a"))
        }
    ));

    let max = tier.sel(3, 4);
    v.push(Scenario::new(
        "layers",
        format!("2 to {max} sources from two files, a directory and none, each with any of 5 documents of paths in \
            structs, sequences, maps and options, by any operation, in any kind of profile"),
        move |cx| {
            let _tmp = tree();
            let docs: Vec<N> = vec![
                N::d(vec![("a", N::s("x"))]),
                N::d(vec![("b", N::a(vec![N::s("l1"), N::s("/l2")])), ("d", N::s("../t"))]),
                N::d(vec![("c", N::d(vec![("p", N::s("m1")), ("q", N::s("m2"))])), ("a", N::s("y"))]),
                N::d(vec![("c", N::d(vec![("q", N::s("m3"))])), ("b", N::a(vec![N::s("l3")]))]),
                N::d(vec![("a", N::sc(Sc::None)), ("d", N::s("/t")), ("b", N::a(vec![]))]),
            ];
            let ty = rc(strukt(vec![opt(Ty::Rel), opt(seq(Ty::Rel)), opt(map(Ty::Rel)), opt(tagged(Ty::Rel))]));
            let n = 2 + cx.pick(max - 1);
            let mut fs = Files::new(1);
            for i in 0..n {
                let op = if i == 0 { Op::Merge } else { *cx.of(&OPS) };
                let d = cx.of(&docs).dict().unwrap().clone();
                let (prof, file) = match n {
                    // Any profile only for fewer sources.
                    4 => ("default", [Some("/one/f.toml"), Some("two/f.toml"), None, Some("d")][i]),
                    3 => (*cx.of(&["default", "global"]),
                        [Some("/one/f.toml"), Some("two/f.toml"), None][i]),
                    _ => (*cx.of(&["default", "custom", "global"]),
                        *cx.of(&[Some("/one/f.toml"), Some("two/f.toml"), None, Some("d")])),
                };
                fs.add(cx, 0, op, prof, d, file, 0);
            }
            fs.m.select(cx, 0, "custom");
            cx.state(&fs.m.c[0]);
            cx.outcome(&fs.m.c[0].effective());
            fs.check(cx, 0, &ty, None)
        }
    ));

    v.push(Scenario::new(
        "reuse",
        "configurations of two files each, combined by any operation, focused, cloned, selected and nested twice, \
         and read by key",
        |cx| {
            let mut fs = Files::new(2);
            let doc = |x: &str| N::d(vec![("k", N::d(vec![("a", N::s(x)), ("b", N::a(vec![N::s(x), N::s("/z")])),
                ("c", N::d(vec![(x, N::s("m"))]))]))]).dict().unwrap().clone();
            fs.add(cx, 0, Op::Merge, "default", doc("x"), Some("/one/f.toml"), 0);
            let op = *cx.of(&OPS);
            let prof = *cx.of(&["default", "custom", "global"]);
            fs.add(cx, 0, op, prof, doc("y"), None, 0);
            let prof = *cx.of(&["default", "custom", "global"]);
            fs.add(cx, 1, Op::Merge, prof, doc("z"), Some("/two/f.toml"), 0);
            let op = *cx.of(&OPS);
            fs.m.add_conf(cx, 1, op, 0, false);
            fs.m.select(cx, 1, "custom");
            if cx.flag() { let op = *cx.of(&OPS); fs.m.add_conf(cx, 0, op, 1, true); }
            let i = cx.pick(2);
            let ty = rc(strukt(vec![Ty::Rel, seq(Ty::Rel), map(Ty::Rel)]));
            cx.state(&fs.m.c);
            fs.check(cx, i, &ty, Some("k"))?;
            fs.check(cx, i, &rc(Ty::Rel), Some("k.a"))?;
            fs.check(cx, i, &rc(seq(tagged(Ty::Rel))), Some("k.b"))?;
            fs.m.focus(cx, i, "k");
            fs.check(cx, i, &ty, None)
        }
    ));

    let steps = tier.sel(2, 3);
    v.push(Scenario::new(
        "chains",
        format!("a document of paths of 2 sets of texts, from a file or not, serialized {steps} times in any of 3 \
            modes into any of 10 kinds of sources (files of 4 formats, texts, values, ..), each extracted"),
        move |cx| {
            let tmp = tree();
            let texts: &[&str] = *cx.of(&[&["x/y", "../u", "/abs"] as &[&str], &["", "é", ".", "..", "/"]]);
            let (some, from) = (cx.flag(), cx.pick(3));
            let doc = start(texts, some, from == 1);
            let file = |i: usize| tmp.0.join(["d/0.x", "other/1.x", "d/e/2.x", "3.x"][i]);
            let n = doc_len(&doc);
            let mut want: Vec<Want> = order(&doc).into_iter().map(|t| Want { text: t, meta: None }).collect();
            assert_eq!(want.len(), n);
            let f = match from {
                0 => Figment::from(Serialized::defaults(&doc)),
                1 => {
                    fs::write(file(0), toml_doc(&doc)).unwrap();
                    Figment::from(Toml::file(file(0)))
                }
                _ => {
                    fs::write(file(0), doc.to_string()).unwrap();
                    Figment::from(Json::file("d/0.x"))
                }
            };
            if from > 0 { for w in &mut want { w.meta = Some(file(0)); } }
            cx.op(|| format!("{doc} from {:?}", (from > 0).then(|| file(0))));
            let mut chain = Chain { f, at: None, want };
            for i in 0..steps {
                let c = chain.check(cx)?;
                let (mode, sink) = (*cx.of(&MODES), *cx.of(&SINKS));
                // A directory that's moved to in between does not matter.
                chain = chain.step(cx, &c, mode, sink, &file(i + 1))?;
                cx.state(&(&chain.want, sink));
            }
            cx.outcome(&chain.want);
            chain.check(cx)?;
            Ok(())
        }
    ).tasks(256));

    v.push(Scenario::new(
        "sources",
        "a path from each kind of source (4 formats by absolute and relative names, searched for or not, nested \
         profiles, texts, environment, serialized, pairs), then the current directory changed and the file removed",
        |cx| {
            let tmp = tree();
            std::env::set_var("MC_REL_P", "v/w");
            let d = &tmp.0;
            fs::write(d.join("top.toml"), "p = 'v/w'\n[n]\np = 'v/w'").unwrap();
            fs::write(d.join("top.json"), r#"{"p": "v/w", "n": {"p": "v/w"}}"#).unwrap();
            fs::write(d.join("top.yml"), "p: v/w\nn:\n  p: v/w\n").unwrap();
            for (n, t) in [("n.toml", "[zone]\np = 'v/w'\nn = {p = 'v/w'}"),
                ("n.json", r#"{"zone": {"p": "v/w", "n": {"p": "v/w"}}}"#), ("n.yml", "zone:\n  p: v/w\n  n: {p: v/w}")] {
                fs::write(d.join("d").join(n), t).unwrap();
            }
            std::env::set_current_dir(d.join("d/e")).unwrap();
            let abs = |s: &str| d.join(s);
            let (top, n) = (|e: &str| Some(d.join(format!("top.{e}"))), |e: &str| Some(d.join(format!("d/n.{e}"))));
            let (name, f, want): (&str, Figment, Option<PathBuf>) = match cx.pick(20) {
                0 => ("Toml searched", Figment::from(Toml::file("top.toml")), top("toml")),
                1 => ("Json searched", Figment::from(Json::file("top.json")), top("json")),
                2 => ("Yaml searched", Figment::from(Yaml::file("top.yml")), top("yml")),
                3 => ("Ext searched", Figment::from(YamlExtended::file("top.yml")), top("yml")),
                4 => ("Toml absolute", Figment::from(Toml::file(abs("top.toml"))), top("toml")),
                5 => ("Json absolute", Figment::from(Json::file(abs("top.json"))), top("json")),
                6 => ("Yaml absolute", Figment::from(Yaml::file(abs("top.yml"))), top("yml")),
                7 => ("Toml nested", Figment::from(Toml::file("n.toml").nested()), n("toml")),
                8 => ("Json nested", Figment::from(Json::file("n.json").nested()), n("json")),
                9 => ("Yaml nested", Figment::from(Yaml::file("n.yml").nested()), n("yml")),
                10 => ("Toml exact", Figment::from(Toml::file_exact("../../top.toml")), Some("../../top.toml".into())),
                11 => ("Json exact", Figment::from(Json::file_exact("../n.json").nested()), Some("../n.json".into())),
                12 => ("Toml text", Figment::from(Toml::string("p = 'v/w'\n[n]\np = 'v/w'")), None),
                13 => ("Json text", Figment::from(Json::string(r#"{"p": "v/w", "n": {"p": "v/w"}}"#)), None),
                14 => ("Yaml text", Figment::from(Yaml::string("p: v/w\nn: {p: v/w}")), None),
                15 => ("Env", Figment::from(Env::prefixed("MC_REL_")).merge(Env::raw().only(&["MC_REL_P"]).map(|_| "n.p".into())), None),
                16 => ("Serialized", Figment::from(Serialized::default("p", "v/w")).merge(Serialized::global("n.p", "v/w")), None),
                17 => ("pairs", Figment::from(("p", "v/w")).merge(("n.p", "v/w")), None),
                18 => ("Toml profile", Figment::from(Toml::file("top.toml").profile("zone")), top("toml")),
                _ => ("over", Figment::from(Toml::file("top.toml")).merge(("p", "v/w")).merge(("n.p", "v/w")), None),
            };
            let f = f.select("zone");
            std::env::set_current_dir(d.join("other")).unwrap();
            let gone = cx.flag();
            if gone { for n in ["top.toml", "top.json", "top.yml", "d/n.toml", "d/n.json", "d/n.yml"] { fs::remove_file(d.join(n)).unwrap(); } }
            let _ = std::env::remove_var("MC_REL_P");
            cx.op(|| format!("{name}, then removed: {gone}"));
            cx.state(&(name, gone));
            let w = Want { text: "v/w".into(), meta: want };
            for p in ["p", "n.p"] {
                match f.extract_inner::<RelativePathBuf>(p) {
                    Ok(r) => w.check(cx, &r)?,
                    Err(e) => return fail("rejected", format!("{name}: {e}")),
                }
                match f.extract_inner::<Either<RelativePathBuf, u8>>(p) {
                    Ok(Either::Left(r)) => w.check(cx, &r)?,
                    e => return fail("either", format!("{name}: {e:?}")),
                }
            }
            Ok(())
        }
    ));

    v.push(Scenario::new(
        "either",
        "a path or else a number, sequence, map, option or boolean: 12 kinds of values, from a file or not",
        |cx| {
            let vals = [N::s("x/y"), N::s(""), N::s("/z"), N::sc(Sc::Char('c')), N::u(3), N::sc(Sc::Bool(true)),
                N::a(vec![N::s("q")]), N::a(vec![]), N::d(vec![("k", N::s("q"))]), N::d(vec![]), N::sc(Sc::Unit), N::sc(Sc::f64(0.5))];
            let i = cx.pick(vals.len());
            let file = *cx.of(&[Some("/x/y/z.toml"), None]);
            let mut fs = Files::new(1);
            fs.add(cx, 0, Op::Merge, "default", one("a", vals[i].clone()), file, 0);
            let f = &fs.m.f[0];
            cx.state(&(i, file));
            let text = ["x/y", "", "/z", "c"].get(i).map(|s| s.to_string());
            let left = |cx: &mut Cx, r: &RelativePathBuf| match &text {
                Some(t) => Want { text: t.clone(), meta: file.map(|f| f.into()) }.check(cx, r),
                None => fail("left", format!("{r:?} for {}", vals[i].show())),
            };
            macro_rules! either {
                ($T:ty, $ok:expr, $want:expr) => {{
                    match f.extract_inner::<Either<RelativePathBuf, $T>>("a") {
                        Ok(Either::Left(r)) => left(cx, &r)?,
                        Ok(Either::Right(x)) => {
                            ensure!($ok.contains(&i), "right", "{x:?} for {}", vals[i].show());
                            let want: $T = $want;
                            ensure_eq!(x, want, "right", "{}", vals[i].show());
                        }
                        Err(e) => ensure!(text.is_none() && !$ok.contains(&i), "neither", "{e} for {}", vals[i].show()),
                    }
                }}
            }
            either!(u8, [4], 3);
            either!(bool, [5], true);
            either!(Vec<String>, [6, 7], if i == 6 { vec!["q".into()] } else { vec![] });
            either!(BTreeMap<String, String>, [8, 9], if i == 8 { [("k".into(), "q".into())].into() } else { [].into() });
            either!((), [10], ());
            either!(f64, [4, 11], if i == 4 { 3.0 } else { 0.5 });
            either!(Option<u8>, [4, 10], if i == 4 { Some(3) } else { None });
            Ok(())
        }
    ));

    v.push(Scenario::new(
        "sizes",
        "sequences, maps and nestings of paths of each size up to 300, from two files in turn",
        |cx| {
            let n = cx.pick(301);
            let kind = cx.pick(3);
            let mut fs = Files::new(1);
            let (a, b) = (Some("/one/f.toml"), Some("/two/f.toml"));
            let ty = match kind {
                0 => {
                    let s = |x: &str, n: usize| one("a", N::a((0..n).map(|i| N::s(&format!("{x}{i}"))).collect()));
                    fs.add(cx, 0, Op::Merge, "default", s("x", n), a, 0);
                    fs.add(cx, 0, Op::Admerge, "default", s("y", 300 - n), b, 0);
                    seq(Ty::Rel)
                }
                1 => {
                    let s = |x: &str, n: usize| one("a", root((0..n).map(|i| (format!("k{i}"), N::s(&format!("{x}{i}")))).collect()));
                    fs.add(cx, 0, Op::Merge, "default", s("x", 300), a, 0);
                    fs.add(cx, 0, Op::Merge, "default", s("y", n), b, 0);
                    map(Ty::Rel)
                }
                _ => {
                    let n = n.min(130);
                    fs.add(cx, 0, Op::Merge, "default", one("a", (0..n).fold(N::s("x"), |t, _| N::a(vec![t]))), a, 0);
                    (0..n).fold(Ty::Rel, |t, _| seq(t))
                }
            };
            cx.state(&(n, kind));
            fs.check(cx, 0, &rc(ty), Some("a"))
        }
    ));

    v.push(Scenario::new(
        "keys",
        "paths at 60 odd keys, in dictionaries from files",
        |cx| {
            let k = cx.of(&odd_keys()).clone();
            let mut fs = Files::new(1);
            fs.add(cx, 0, Op::Merge, "default", one("a", root(one(&k, N::s("x")))), Some("/one/f.toml"), 0);
            if cx.flag() { fs.add(cx, 0, Op::Merge, "default", one("a", root(one(&k, N::s("y")))), Some("/two/f.toml"), 0); }
            cx.state(&k);
            fs.check(cx, 0, &rc(strukt(vec![map(Ty::Rel)])), None)
        }
    ));

    v.push(Scenario::new(
        "many",
        "a path from the last or first of up to 300 files",
        |cx| {
            let n = cx.pick(300) + 1;
            let op = *cx.of(&[Op::Merge, Op::Join]);
            let mut fs = Files::new(1);
            for i in 0..n {
                fs.add(cx, 0, op, "default", one("a", N::s(&format!("t{i}"))), Some(&format!("/d{i}/f.toml")), 0);
            }
            cx.state(&(n, op));
            fs.check(cx, 0, &rc(strukt(vec![Ty::Rel])), None)
        }
    ));

    v.push(Scenario::new(
        "not-utf8",
        "a path configured in a file whose directory's name is not UTF-8",
        |cx| {
            let tmp = tree();
            let d = tmp.0.join(OsString::from_vec(vec![b'd', 0xff]));
            fs::create_dir(&d).unwrap();
            fs::write(d.join("f.toml"), "p = 'x'").unwrap();
            let (name, f) = match cx.pick(2) {
                0 => ("absolute", Figment::from(Toml::file(d.join("f.toml")))),
                _ => {
                    std::env::set_current_dir(&d).unwrap();
                    ("relative", Figment::from(Toml::file("f.toml")))
                }
            };
            cx.op(|| name.to_string());
            let r: RelativePathBuf = f.extract_inner("p").map_err(|e| Stop::Fail { sig: "rejected".into(), msg: e.to_string() })?;
            cx.checked(1);
            let want = d.join("x");
            if r.relative() != want {
                cx.soft("not-utf8", || format!("{:?} instead of {want:?}", r.relative()))?;
            }
            Ok(())
        }
    ));

    v
}

/// The texts in a document, in the order that `Cfg::rels` has them.
fn order(d: &serde_json::Value) -> Vec<String> {
    let s = |v: &serde_json::Value| v.as_str().unwrap().to_string();
    let mut v = vec![s(&d["one"])];
    if let Some(o) = d.get("opt") { v.push(s(o)); }
    v.extend(d["list"].as_array().unwrap().iter().map(s));
    v.extend(d["map"].as_object().unwrap().values().map(s));
    v.push(s(&d["pair"][0]));
    v.push(match d["kind"].get("New") { Some(p) => s(p), None => s(&d["kind"]["Named"]["path"]) });
    v.extend(d["inner"]["deep"].as_array().unwrap().iter().flat_map(|m| m.as_object().unwrap().values().map(s)));
    if let Some(o) = d.get("tag") { v.push(s(o)); }
    v
}

fn doc_len(d: &serde_json::Value) -> usize { 9 + d.get("opt").map_or(0, |_| 2) }
