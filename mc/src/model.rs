//! The reference model: plain trees, with the source of every node.

use std::collections::BTreeMap;
use std::hash::Hash;

use figment::error::{Actual, Error, Kind};
use figment::value::{Dict, Empty, Map, Num, Tag, Value};
use figment::{Figment, Metadata, Profile, Provider};

use crate::engine::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Op { Merge, Join, Admerge, Adjoin }

pub const OPS: [Op; 4] = [Op::Merge, Op::Join, Op::Admerge, Op::Adjoin];

impl Op {
    pub fn newer_wins(self) -> bool { matches!(self, Op::Merge | Op::Admerge) }
    pub fn concats(self) -> bool { matches!(self, Op::Adjoin | Op::Admerge) }

    #[track_caller]
    pub fn apply<P: Provider>(self, f: Figment, p: P) -> Figment {
        match self {
            Op::Merge => f.merge(p),
            Op::Join => f.join(p),
            Op::Admerge => f.admerge(p),
            Op::Adjoin => f.adjoin(p),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Sc {
    Str(String), Char(char), Bool(bool), Unit, None,
    U8(u8), U16(u16), U32(u32), U64(u64), U128(u128), Us(usize),
    I8(i8), I16(i16), I32(i32), I64(i64), I128(i128), Is(isize),
    /// By bits.
    F32(u32), F64(u64),
}

impl Sc {
    pub fn f64(f: f64) -> Sc { Sc::F64(f.to_bits()) }
    pub fn f32(f: f32) -> Sc { Sc::F32(f.to_bits()) }

    pub fn value(&self) -> Value {
        match self.clone() {
            Sc::Str(s) => Value::from(s),
            Sc::Char(s) => Value::from(s),
            Sc::Bool(s) => Value::from(s),
            Sc::Unit => Value::from(Empty::Unit),
            Sc::None => Value::from(Empty::None),
            Sc::U8(v) => Value::from(v),
            Sc::U16(v) => Value::from(v),
            Sc::U32(v) => Value::from(v),
            Sc::U64(v) => Value::from(v),
            Sc::U128(v) => Value::from(v),
            Sc::Us(v) => Value::from(v),
            Sc::I8(v) => Value::from(v),
            Sc::I16(v) => Value::from(v),
            Sc::I32(v) => Value::from(v),
            Sc::I64(v) => Value::from(v),
            Sc::I128(v) => Value::from(v),
            Sc::Is(v) => Value::from(v),
            Sc::F32(v) => Value::from(f32::from_bits(v)),
            Sc::F64(v) => Value::from(f64::from_bits(v)),
        }
    }

    pub fn of(v: &Value) -> Option<Sc> {
        Some(match v {
            Value::String(_, s) => Sc::Str(s.clone()),
            Value::Char(_, c) => Sc::Char(*c),
            Value::Bool(_, b) => Sc::Bool(*b),
            Value::Empty(_, Empty::None) => Sc::None,
            Value::Empty(_, Empty::Unit) => Sc::Unit,
            Value::Num(_, n) => match *n {
                Num::U8(v) => Sc::U8(v),
                Num::U16(v) => Sc::U16(v),
                Num::U32(v) => Sc::U32(v),
                Num::U64(v) => Sc::U64(v),
                Num::U128(v) => Sc::U128(v),
                Num::USize(v) => Sc::Us(v),
                Num::I8(v) => Sc::I8(v),
                Num::I16(v) => Sc::I16(v),
                Num::I32(v) => Sc::I32(v),
                Num::I64(v) => Sc::I64(v),
                Num::I128(v) => Sc::I128(v),
                Num::ISize(v) => Sc::Is(v),
                Num::F32(v) => Sc::f32(v),
                Num::F64(v) => Sc::f64(v),
            },
            _ => return None,
        })
    }
}

/// Where a node comes from: the source's number (0: none) and profile.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Src { pub id: u32, pub prof: Prof }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Prof { Default, Global, Custom }

impl Prof {
    pub fn of(name: &str) -> Prof {
        match name.to_ascii_lowercase().as_str() {
            "default" => Prof::Default,
            "global" => Prof::Global,
            _ => Prof::Custom,
        }
    }
}

pub const NOSRC: Src = Src { id: 0, prof: Prof::Default };

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct N { pub v: M, pub src: Src }

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum M { S(Sc), D(BTreeMap<String, N>), A(Vec<N>) }

pub type Tree = BTreeMap<String, N>;

impl N {
    pub fn new(v: M) -> N { N { v, src: NOSRC } }
    pub fn s(s: &str) -> N { N::new(M::S(Sc::Str(s.into()))) }
    pub fn sc(s: Sc) -> N { N::new(M::S(s)) }
    pub fn i(i: i64) -> N { N::new(M::S(Sc::I64(i))) }
    pub fn u(i: u8) -> N { N::new(M::S(Sc::U8(i))) }
    pub fn a(v: Vec<N>) -> N { N::new(M::A(v)) }
    pub fn d(v: Vec<(&str, N)>) -> N {
        N::new(M::D(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect()))
    }

    pub fn dict(&self) -> Option<&Tree> {
        match &self.v { M::D(d) => Some(d), _ => None }
    }

    pub fn value(&self) -> Value {
        match &self.v {
            M::S(s) => s.value(),
            M::A(v) => Value::Array(Tag::Default, v.iter().map(|n| n.value()).collect()),
            M::D(d) => Value::Dict(Tag::Default, dict_value(d)),
        }
    }

    pub fn of(v: &Value, src: &impl Fn(Tag) -> Src) -> N {
        N {
            src: src(v.tag()),
            v: match v {
                Value::Dict(_, d) => M::D(tree_of(d, src)),
                Value::Array(_, a) => M::A(a.iter().map(|v| N::of(v, src)).collect()),
                v => M::S(Sc::of(v).unwrap()),
            }
        }
    }

    pub fn set_src(&mut self, src: Src) {
        self.src = src;
        match &mut self.v {
            M::S(_) => {}
            M::A(v) => v.iter_mut().for_each(|n| n.set_src(src)),
            M::D(d) => d.values_mut().for_each(|n| n.set_src(src)),
        }
    }

    /// As `set_src`, but only for nodes without a source.
    pub fn fill_src(&mut self, src: Src) {
        if self.src.id == 0 { self.src = src; }
        match &mut self.v {
            M::S(_) => {}
            M::A(v) => v.iter_mut().for_each(|n| n.fill_src(src)),
            M::D(d) => d.values_mut().for_each(|n| n.fill_src(src)),
        }
    }

    pub fn find(&self, path: &[&str]) -> Option<&N> {
        let mut n = self;
        for k in path { n = n.dict()?.get(*k)?; }
        Some(n)
    }

    pub fn bare(&self) -> N {
        let mut n = self.clone();
        n.set_src(NOSRC);
        n
    }

    pub fn show(&self) -> String {
        match &self.v {
            M::S(Sc::Str(s)) => format!("{s:?}"),
            M::S(Sc::F32(v)) => format!("{}f32", f32::from_bits(*v)),
            M::S(Sc::F64(v)) => format!("{}f64", f64::from_bits(*v)),
            M::S(s) => format!("{s:?}"),
            M::A(v) => format!("[{}]", v.iter().map(|n| n.show()).collect::<Vec<_>>().join(", ")),
            M::D(d) => show_tree(d),
        }
    }
}

pub fn show_tree(d: &Tree) -> String {
    let v: Vec<_> = d.iter().map(|(k, v)| format!("{k}: {}", v.show())).collect();
    format!("{{{}}}", v.join(", "))
}

pub fn dict_value(d: &Tree) -> Dict {
    d.iter().map(|(k, v)| (k.clone(), v.value())).collect()
}

pub fn tree_of(d: &Dict, src: &impl Fn(Tag) -> Src) -> Tree {
    d.iter().map(|(k, v)| (k.clone(), N::of(v, src))).collect()
}

pub fn nosrc(_: Tag) -> Src { NOSRC }

pub fn root(d: Tree) -> N { N::new(M::D(d)) }

/// Combines a value and a newer one, per the documented table.
pub fn combine(old: N, new: N, op: Op) -> N {
    match (old.v, new.v) {
        (M::D(a), M::D(b)) => N {
            src: if op.newer_wins() { new.src } else { old.src },
            v: M::D(combine_trees(a, b, op)),
        },
        (M::A(mut a), M::A(b)) if op.concats() => {
            a.extend(b);
            N { src: old.src, v: M::A(a) }
        }
        (a, b) => match op.newer_wins() {
            true => N { src: new.src, v: b },
            false => N { src: old.src, v: a },
        }
    }
}

pub fn combine_trees(mut a: Tree, b: Tree, op: Op) -> Tree {
    for (k, n) in b {
        let n = match a.remove(&k) {
            Some(o) => combine(o, n, op),
            None => n,
        };
        a.insert(k, n);
    }
    a
}

/// The model of a configuration. Profiles are in lowercase.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Conf {
    pub profile: String,
    pub sources: Vec<u32>,
    pub data: BTreeMap<String, Tree>,
    /// The sources that failed, with which of their errors.
    pub errors: Vec<(u32, usize)>,
}

/// What a source provides, in the model. `data` is by profile.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Source {
    pub id: u32,
    /// What is provided or the number of errors.
    pub data: Result<BTreeMap<String, Tree>, usize>,
    pub profile: Option<String>,
}

impl Conf {
    pub fn new() -> Conf {
        Conf { profile: "default".into(), sources: vec![], data: BTreeMap::new(), errors: vec![] }
    }

    pub fn add(&mut self, s: &Source, op: Op) {
        if let Some(p) = &s.profile {
            if op.newer_wins() { self.profile = p.to_ascii_lowercase(); }
        }

        self.sources.push(s.id);
        match &s.data {
            Err(n) => self.errors.extend((0..*n).map(|k| (s.id, k))),
            Ok(data) => {
                let mut data = data.clone();
                for (p, tree) in &mut data {
                    let src = Src { id: s.id, prof: Prof::of(p) };
                    tree.values_mut().for_each(|n| n.fill_src(src));
                }
                self.add_data(data, op);
            }
        }
    }

    pub fn add_data(&mut self, data: BTreeMap<String, Tree>, op: Op) {
        for (p, tree) in data {
            let p = p.to_ascii_lowercase();
            let t = match self.data.remove(&p) {
                Some(old) => combine_trees(old, tree, op),
                None => tree,
            };
            self.data.insert(p, t);
        }
    }

    /// Adds another configuration: `id` is of the source it itself becomes.
    pub fn add_conf(&mut self, other: &Conf, id: u32, op: Op) {
        for s in &other.sources {
            if !self.sources.contains(s) { self.sources.push(*s); }
        }
        self.sources.sort();
        if op.newer_wins() { self.profile = other.profile.clone(); }
        self.sources.push(id);
        if other.errors.is_empty() {
            if self.errors.is_empty() { self.add_data(other.data.clone(), op); }
        } else {
            self.errors.extend(other.errors.iter().copied());
        }
    }

    pub fn effective(&self) -> Tree { self.effective_for(&self.profile) }

    pub fn effective_for(&self, profile: &str) -> Tree {
        let get = |p: &str| self.data.get(p).cloned().unwrap_or_default();
        let p = profile.to_ascii_lowercase();
        let mut t = get("default");
        if p != "default" && p != "global" { t = combine_trees(t, get(&p), Op::Merge); }
        combine_trees(t, get("global"), Op::Merge)
    }
}

/// An error that is of any kind, but only ever the same for one source and number.
pub fn failure(id: u32, k: usize) -> Error {
    let i = id as u128 * 1000 + k as u128;
    let e = Error::from(match (id as usize * 5 + k * 7) % 12 {
        0 | 1 => Kind::Message(format!("failure {k} of P{id}")),
        2 => Kind::MissingField(format!("field{k}.of{id}").into()),
        3 => Kind::InvalidType(Actual::Unsigned(i), "a type".into()),
        4 => Kind::InvalidValue(Actual::Str(format!("{i}")), "a value".into()),
        5 => Kind::InvalidLength(i as usize, "a length".into()),
        6 => Kind::UnknownVariant(format!("variant{i}"), &["A", "B"]),
        7 => Kind::UnknownField(format!("field{i}"), &["a"]),
        8 => Kind::ISizeOutOfRange(i as isize),
        9 => Kind::USizeOutOfRange(i as usize),
        10 => Kind::Unsupported(Actual::Other(format!("{i}"))),
        _ => Kind::UnsupportedKey(Actual::Signed(i as i128), "key".into()),
    });
    if k % 2 == 0 { e } else { e.with_path(&format!("path{k}.of.{id}")) }
}

/// A source for use with the implementation.
#[derive(Clone, Debug)]
pub struct P {
    pub name: String,
    pub data: Result<Map<Profile, Dict>, Error>,
    pub profile: Option<Profile>,
}

impl P {
    pub fn of(s: &Source) -> P {
        P {
            name: format!("P{}", s.id),
            profile: s.profile.as_ref().map(|p| Profile::new(p)),
            data: match &s.data {
                Err(n) => Err((1..*n).fold(failure(s.id, 0), |e, k| failure(s.id, k).chain(e))),
                Ok(d) => Ok(d.iter().map(|(p, t)| (Profile::new(p), dict_value(t))).collect()),
            }
        }
    }

    pub fn ok(id: u32, profile: &str, tree: &Tree) -> P {
        P {
            name: format!("P{id}"), profile: None,
            data: Ok([(Profile::new(profile), dict_value(tree))].into_iter().collect()),
        }
    }
}

impl Provider for P {
    fn metadata(&self) -> Metadata { Metadata::named(self.name.clone()) }
    fn data(&self) -> Result<Map<Profile, Dict>, Error> { self.data.clone() }
    fn profile(&self) -> Option<Profile> { self.profile.clone() }
}

/// The number in `P<number>`, the name of a source's metadata.
pub fn id_of(md: Option<&Metadata>) -> u32 {
    match md {
        None => 0,
        Some(m) => m.name.strip_prefix('P').and_then(|n| n.parse().ok()).unwrap_or(u32::MAX),
    }
}

pub fn src_in<'f>(f: &'f Figment) -> impl Fn(Tag) -> Src + 'f {
    move |t| {
        let prof = match t.profile() {
            Some(p) if p == Profile::Default => Prof::Default,
            Some(p) if p == Profile::Global => Prof::Global,
            Some(_) => Prof::Custom,
            None => Prof::Custom,
        };
        Src { id: id_of(f.get_metadata(t)), prof }
    }
}

pub fn one(k: &str, n: N) -> Tree { [(k.to_string(), n)].into_iter().collect() }

/// The tree with `n` at `path`.
pub fn at(path: &[&str], n: N) -> N {
    path.iter().rev().fold(n, |n, k| root(one(k, n)))
}

/// Any tree over the keys and leaves given, up to the given depth.
pub fn any_tree(cx: &mut Cx, keys: &[&str], leaves: &[N], depth: usize) -> N {
    let c = cx.pick(leaves.len() + (depth > 0) as usize);
    if c < leaves.len() { return leaves[c].clone(); }
    root(any_dict(cx, keys, leaves, depth))
}

pub fn any_dict(cx: &mut Cx, keys: &[&str], leaves: &[N], depth: usize) -> Tree {
    let mut t = Tree::new();
    for k in keys {
        if cx.flag() { t.insert(k.to_string(), any_tree(cx, keys, leaves, depth - 1)); }
    }
    t
}

/// One value of every kind, and of every container shape that matters.
pub fn shapes() -> Vec<N> {
    vec![
        N::u(1), N::s("s"), N::sc(Sc::Char('c')), N::sc(Sc::Bool(true)), N::sc(Sc::None),
        N::sc(Sc::Unit), N::sc(Sc::f64(0.5)), N::i(-7), N::s(""), N::sc(Sc::Bool(false)),
        N::d(vec![]), N::d(vec![("x", N::u(2))]), N::d(vec![("y", N::s("t"))]),
        N::d(vec![("x", N::d(vec![("x", N::u(3))])), ("y", N::a(vec![N::u(4)]))]),
        N::d(vec![("x", N::sc(Sc::None)), ("z", N::d(vec![]))]),
        N::a(vec![]), N::a(vec![N::u(5)]), N::a(vec![N::u(6), N::s("u")]),
        N::a(vec![N::a(vec![N::u(7)])]), N::a(vec![N::d(vec![("x", N::u(8))])]),
        N::a(vec![N::u(5), N::u(5), N::sc(Sc::None)]),
    ]
}

/// Compares a configuration with its model: values only.
pub fn same_data(cx: &mut Cx, f: &Figment, c: &Conf, what: &str) -> R {
    let data = match figment::Provider::data(f) {
        Ok(d) => d,
        Err(e) => return fail("data-error", format!("{what}: data() failed: {e}")),
    };

    let got: BTreeMap<String, Tree> = data.iter()
        .map(|(p, d)| (p.as_str().as_str().to_ascii_lowercase(), tree_of(d, &nosrc))).collect();
    if got.len() != data.len() {
        return fail("profiles", format!("{what}: case variants of one profile: {data:?}"));
    }

    let bare = |d: &BTreeMap<String, Tree>| -> BTreeMap<String, Tree> {
        d.iter().map(|(p, t)| (p.clone(), root(t.clone()).bare().dict().unwrap().clone())).collect()
    };

    let want = bare(&c.data);
    cx.checked(1);
    if got != want {
        let show = |d: &BTreeMap<String, Tree>| d.iter()
            .map(|(p, t)| format!("{p}: {}", show_tree(t))).collect::<Vec<_>>().join("; ");
        return fail("data", format!("{what}: got [{}], expected [{}]", show(&got), show(&want)));
    }

    Ok(())
}

/// What extracting all of the configuration yields, with sources.
pub fn extracted(f: &Figment) -> Result<N, Error> {
    let v: Value = f.extract()?;
    Ok(N::of(&v, &src_in(f)))
}

pub fn same_tree(cx: &mut Cx, got: &N, want: &N, what: &str) -> R {
    cx.checked(1);
    if got.bare() != want.bare() {
        return fail("value", format!("{what}: got {}, expected {}", got.show(), want.show()));
    }
    Ok(())
}

impl Conf {
    /// Only the contents of the dictionaries at the key, in every profile.
    pub fn focus(&mut self, key: &str) {
        let path: Vec<&str> = key.split('.').collect();
        self.data = std::mem::take(&mut self.data).into_iter()
            .filter_map(|(p, t)| Some((p, root(t).find(&path)?.dict()?.clone())))
            .collect();
    }
}

/// Several configurations, on which steps are taken on both sides.
pub struct Machine {
    pub f: Vec<Figment>,
    pub c: Vec<Conf>,
    /// The names of the sources there are, by number.
    pub names: Vec<String>,
}

impl Machine {
    pub fn new(n: usize) -> Machine {
        Machine {
            f: vec![Figment::new(); n], c: vec![Conf::new(); n], names: vec!["?".into()],
        }
    }

    pub fn next_id(&self) -> u32 { self.names.len() as u32 }

    pub fn add(&mut self, cx: &mut Cx, i: usize, op: Op, mut s: Source, by_ref: bool) {
        s.id = self.next_id();
        self.names.push(format!("P{}", s.id));
        cx.op(|| format!("{i}: {op:?}{} P{}: {:?}, selecting {:?}", if by_ref { " &" } else { " " },
            s.id, s.data.as_ref().map(|d| d.iter().map(|(p, t)| format!("{p}: {}", show_tree(t)))
            .collect::<Vec<_>>()), s.profile));
        let f = std::mem::take(&mut self.f[i]);
        let p = P::of(&s);
        self.f[i] = if by_ref { op.apply(f, &p) } else { op.apply(f, p) };
        self.c[i].add(&s, op);
    }

    pub fn add_conf(&mut self, cx: &mut Cx, i: usize, op: Op, j: usize, by_ref: bool) {
        let id = self.next_id();
        self.names.push("Default".into());
        cx.op(|| format!("{i}: {op:?} {}{j}", if by_ref { "&" } else { "" }));
        let f = std::mem::take(&mut self.f[i]);
        let other = if i == j { f.clone() } else { self.f[j].clone() };
        self.f[i] = if by_ref { op.apply(f, &other) } else { op.apply(f, other) };
        let other = self.c[j].clone();
        self.c[i].add_conf(&other, id, op);
    }

    pub fn select(&mut self, cx: &mut Cx, i: usize, profile: &str) {
        cx.op(|| format!("{i}: select {profile}"));
        self.f[i] = std::mem::take(&mut self.f[i]).select(profile);
        self.c[i].profile = profile.to_ascii_lowercase();
    }

    pub fn focus(&mut self, cx: &mut Cx, i: usize, key: &str) {
        cx.op(|| format!("{i}: focus {key}"));
        self.f[i] = self.f[i].focus(key);
        if self.c[i].errors.is_empty() { self.c[i].focus(key); }
    }

    pub fn copy(&mut self, cx: &mut Cx, i: usize, j: usize) {
        cx.op(|| format!("{i} = {j}.clone()"));
        self.f[i] = self.f[j].clone();
        self.c[i] = self.c[j].clone();
    }

    /// Compares all there is to see of each configuration.
    pub fn compare(&self, cx: &mut Cx) -> R {
        for i in 0..self.f.len() { self.compare_one(cx, i)?; }
        Ok(())
    }

    pub fn compare_one(&self, cx: &mut Cx, i: usize) -> R {
        let (f, c) = (&self.f[i], &self.c[i]);
        same_sources(cx, f, c, &self.names)?;
        if f.profile() != c.profile.as_str() {
            return fail("selected", format!("{i}: selected {:?}, expected {:?}", f.profile(), c.profile));
        }

        if !c.errors.is_empty() { return same_errors(cx, f, c); }
        same_data(cx, f, c, &format!("{i}: data"))?;
        same_provenance(cx, f, c)
    }
}

pub fn same_sources(cx: &mut Cx, f: &Figment, c: &Conf, names: &[String]) -> R {
    let got: Vec<String> = f.metadata().map(|m| m.name.to_string()).collect();
    let want: Vec<String> = c.sources.iter().map(|i| names[*i as usize].clone()).collect();
    cx.checked(1);
    if got != want {
        return fail("sources", format!("sources are {got:?}, expected {want:?}"));
    }
    Ok(())
}

pub fn same_errors(cx: &mut Cx, f: &Figment, c: &Conf) -> R {
    match f.extract::<Value>() {
        Ok(_) => fail("masked", "extraction succeeded despite failed sources"),
        Err(e) => these_errors(cx, f, c, e),
    }
}

pub fn these_errors(cx: &mut Cx, f: &Figment, c: &Conf, e: Error) -> R {
    let (count, shown) = (e.count(), e.to_string());
    let all: Vec<Error> = e.into_iter().collect();
    let got: Vec<(String, Vec<String>, u32)> = all.iter()
        .map(|e| (e.kind.to_string(), e.path.clone(), id_of(e.metadata.as_ref()))).collect();
    let want: Vec<(String, Vec<String>, u32)> = c.errors.iter().map(|(i, k)| {
        let e = failure(*i, *k);
        (e.kind.to_string(), e.path, *i)
    }).collect();
    cx.checked(4);
    if got != want {
        return fail("errors", format!("errors with paths and sources are {got:?}, expected {want:?}"));
    }
    if count != want.len() || all.iter().any(|e| e.count() != 1) {
        return fail("count", format!("count {count} of {} errors", want.len()));
    }
    let each: Vec<String> = all.iter().map(|e| e.to_string()).collect();
    if shown != each.join("\n") {
        return fail("display", format!("{shown:?} for {each:?}"));
    }
    for e in &all {
        let at = |m: &Metadata| m.provide_location.map(|l| (l.line(), l.column()));
        let md = f.metadata().find(|m| id_of(Some(m)) == id_of(e.metadata.as_ref()));
        if md != e.metadata.as_ref() || md.and_then(at) != e.metadata.as_ref().and_then(at) {
            return fail("attributed", format!("error {e} has {:?}, not {md:?}", e.metadata));
        }
    }
    Ok(())
}

/// Compares the source and profile of every value of the effective data.
pub fn same_provenance(cx: &mut Cx, f: &Figment, c: &Conf) -> R {
    let want = root(c.effective());
    let src = src_in(f);
    let v: Value = match f.extract() {
        Ok(v) => v,
        Err(e) => return fail("extract", format!("extract failed: {e}")),
    };

    let got = N::of(&v, &src);
    if let Some(d) = differ(&got, &want, "") { return fail("provenance", format!("extracted: {d}")); }
    cx.checked(1);

    // The same by every kind of lookup, at every key path.
    let mut todo: Vec<(String, &N)> = vec![(String::new(), &want)];
    while let Some((path, n)) = todo.pop() {
        if let Some(d) = n.dict() {
            for (k, n) in d {
                if k.is_empty() || k.contains('.') { continue; }
                let path = if path.is_empty() { k.clone() } else { format!("{path}.{k}") };
                todo.push((path, n));
            }
        }

        if path.is_empty() { continue; }
        cx.checked(3);
        let md = f.find_metadata(&path);
        if id_of(md) != n.src.id {
            return fail("find_metadata", format!("find_metadata({path:?}): {md:?}, expected P{}", n.src.id));
        }

        match f.find_value(&path) {
            Ok(v) => if let Some(d) = differ(&N::of(&v, &src), n, &path) {
                return fail("find_value", format!("find_value: {d}"));
            }
            Err(e) => return fail("find_value", format!("find_value({path:?}): {e}")),
        }

        match f.extract_inner::<figment::value::magic::Tagged<Value>>(&path) {
            Ok(t) => {
                if src(t.tag()) != n.src {
                    return fail("tagged", format!("tagged at {path}: {:?}, expected {:?}", src(t.tag()), n.src));
                }
                if let Some(d) = differ(&N::of(&t, &src), n, &path) {
                    return fail("tagged", format!("tagged: {d}"));
                }
            }
            Err(e) => return fail("tagged", format!("tagged at {path:?}: {e}")),
        }
    }

    Ok(())
}

/// Where two trees differ in values or sources, if they do.
pub fn differ(got: &N, want: &N, path: &str) -> Option<String> {
    let sub = |k: &str| if path.is_empty() { k.to_string() } else { format!("{path}.{k}") };
    if got.src != want.src {
        return Some(format!("{path:?} ({}) is from {:?}, expected {:?}", want.show(), got.src, want.src));
    }
    match (&got.v, &want.v) {
        (M::S(a), M::S(b)) if a == b => None,
        (M::A(a), M::A(b)) if a.len() == b.len() => {
            a.iter().zip(b).enumerate().find_map(|(i, (a, b))| differ(a, b, &sub(&i.to_string())))
        }
        (M::D(a), M::D(b)) if a.len() == b.len() && a.keys().eq(b.keys()) => {
            a.iter().find_map(|(k, a)| differ(a, &b[k], &sub(k)))
        }
        _ => Some(format!("{path:?} is {}, expected {}", got.show(), want.show())),
    }
}
