//! Threads that build and read configurations, in every interleaving.

use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

use figment::value::{Dict, Map, Value};
use figment::{Error, Figment, Metadata, Profile, Provider};
use serde::{Deserialize, Deserializer};

use crate::c14::Tmp;
use crate::c19;
use crate::engine::*;
use crate::model::*;
use crate::sched::{self, point};
use crate::{ensure, ensure_eq};

/// A source that lets others go on while it is asked.
struct Slow(P);

impl Provider for Slow {
    fn metadata(&self) -> Metadata {
        point("metadata");
        self.0.metadata()
    }

    fn data(&self) -> Result<Map<Profile, Dict>, Error> {
        point("data");
        let d = self.0.data();
        point("data done");
        d
    }

    fn profile(&self) -> Option<Profile> {
        point("profile");
        self.0.profile()
    }
}

/// A value that lets others go on while it is extracted.
struct SlowValue(Value);

impl<'de> Deserialize<'de> for SlowValue {
    fn deserialize<D: Deserializer<'de>>(de: D) -> Result<SlowValue, D::Error> {
        point("deserialize");
        let v = <Value as Deserialize>::deserialize(de)?;
        point("deserialized");
        Ok(SlowValue(v))
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    /// A source of this kind is added.
    Add(Op, usize),
    /// A configuration of two new sources is added.
    Nest(Op),
    /// The first of them is added to the second again.
    Combine(Op),
    Select,
    Focus,
    /// A copy is changed and dropped.
    Copy,
    Read,
}

use Act::*;

/// What a thread works on: configurations, the first of which is worked on.
struct Work {
    m: Machine,
    /// When each source was added: from, to.
    when: BTreeMap<u32, (u64, u64)>,
    wrong: Vec<String>,
}

const PER: usize = 200;

fn source(id: u32, kind: usize) -> Source {
    let i = N::i(id as i64);
    let t = one("k", N::d(vec![("a", N::a(vec![i.clone()])), (&format!("k{id}"), i.clone()), ("same", i)]));
    let s = |p: &str, profile: Option<&str>| Source {
        id, profile: profile.map(|p| p.into()), data: Ok([(p.to_string(), t.clone())].into()),
    };
    match kind {
        0 => s("default", None),
        1 => s("one", Some("one")),
        2 => s("global", None),
        _ => Source { id, profile: None, data: Err(1) },
    }
}

impl Work {
    fn new(t: usize, base: Option<&Machine>) -> Work {
        let mut m = Machine::new(2);
        if let Some(b) = base {
            m.f[0] = b.f[0].clone();
            m.c[0] = b.c[0].clone();
            m.names = b.names.clone();
        }
        while m.names.len() < (t + 1) * PER { m.names.push("?".into()); }
        Work { m, when: BTreeMap::new(), wrong: vec![] }
    }

    fn add(&mut self, i: usize, op: Op, kind: usize) {
        let s = source(self.m.next_id(), kind);
        self.m.names.push(format!("P{}", s.id));
        let from = sched::now();
        let f = std::mem::take(&mut self.m.f[i]);
        let p = Slow(P::of(&s));
        self.m.f[i] = if s.id % 2 == 0 { op.apply(f, p) } else { op.apply(f, &p) };
        self.when.insert(s.id, (from, sched::now()));
        self.m.c[i].add(&s, op);
    }

    fn act(&mut self, cx: &mut Cx, a: Act) {
        match a {
            Add(op, kind) => self.add(0, op, kind),
            Nest(op) => {
                self.m.f[1] = Figment::new();
                self.m.c[1] = Conf::new();
                self.add(1, Op::Merge, 0);
                self.add(1, Op::Admerge, 2);
                self.combine(cx, 0, op, 1);
            }
            Combine(op) => {
                self.m.copy(cx, 1, 0);
                self.add(1, Op::Join, 1);
                self.combine(cx, 0, op, 1);
            }
            Select => self.m.select(cx, 0, "one"),
            Focus => self.m.focus(cx, 0, "k"),
            Copy => {
                let f = self.m.f[0].clone();
                let id = self.m.next_id();
                self.m.names.push(format!("P{id}"));
                let f = f.merge(Slow(P::of(&source(id, 0)))).adjoin(Slow(P::of(&source(id, 2))));
                point("copied");
                drop(f);
            }
            Read => {
                let want = root(self.m.c[0].effective());
                match self.m.f[0].extract::<SlowValue>() {
                    Ok(v) => {
                        let got = N::of(&v.0, &src_in(&self.m.f[0]));
                        if let Some(d) = differ(&got, &want, "") { self.wrong.push(format!("read: {d}")); }
                    }
                    Err(e) => if self.m.c[0].errors.is_empty() { self.wrong.push(format!("read: {e}")); },
                }
            }
        }
    }

    fn combine(&mut self, cx: &mut Cx, i: usize, op: Op, j: usize) {
        let from = sched::now();
        let id = self.m.next_id();
        self.m.add_conf(cx, i, op, j, true);
        self.when.insert(id, (from, sched::now()));
    }
}

/// Has each thread take its actions; returns what they worked on.
fn threads(cx: &mut Cx, works: Vec<Work>, acts: &[Vec<Act>]) -> R<Vec<Work>> {
    let n = works.len();
    for (k, a) in acts.iter().enumerate() { cx.op(|| format!("thread {k}: {a:?}")); }
    let cells: Vec<Arc<Mutex<Option<Work>>>> = works.into_iter().map(|w| Arc::new(Mutex::new(Some(w)))).collect();
    let tasks: Vec<sched::Task> = (0..n).map(|k| {
        let (cell, acts) = (cells[k].clone(), acts[k].clone());
        let t: sched::Task = Box::new(move || {
            let mut w = cell.lock().unwrap().take().unwrap();
            let mut stats = Stats::default();
            let mut cx = Cx::new(&[], 0, false, &mut stats);
            for a in acts {
                w.act(&mut cx, a);
                point("after an action");
            }
            // Seen by the thread itself, while others go on.
            if let Err(Stop::Fail { sig, msg }) = w.m.compare(&mut cx) { w.wrong.push(format!("in thread {k}: {sig}: {msg}")); }
            *cell.lock().unwrap() = Some(w);
        });
        t
    }).collect();
    let panics = sched::run(cx, tasks)?;
    ensure!(panics.iter().all(|p| p.is_none()), "panic", "a thread panics: {}", last_panic());
    let works: Vec<Work> = cells.iter().map(|c| c.lock().unwrap().take().unwrap()).collect();
    for w in &works {
        if let Some(m) = w.wrong.first() { return fail("thread", m.clone()); }
        w.m.compare(cx)?;
    }
    Ok(works)
}

/// Combines all of them, and compares that to the model.
fn combined(cx: &mut Cx, works: &[Work], order: &[usize], op: Op) -> R {
    let mut f = Figment::new();
    let mut c = Conf::new();
    let mut names: Vec<String> = vec![];
    for w in works {
        for (i, n) in w.m.names.iter().enumerate() {
            if i >= names.len() { names.push(n.clone()); } else if names[i] == "?" { names[i] = n.clone(); }
        }
    }
    let mut own = vec![];
    for k in order {
        let id = names.len() as u32;
        names.push("Default".into());
        own.push(id);
        f = op.apply(f, &works[*k].m.f[0]);
        c.add_conf(&works[*k].m.c[0], id, op);
    }

    // Which source is listed where: in some order of addition.
    let got: Vec<String> = f.metadata().map(|m| m.name.to_string()).collect();
    let mut all: Vec<String> = c.sources.iter().map(|i| names[*i as usize].clone()).collect();
    all.sort();
    let mut sorted = got.clone();
    sorted.sort();
    cx.checked(2);
    ensure_eq!(sorted, all, "identity", "sources of all");
    let place = |id: u32| got.iter().position(|n| *n == names[id as usize]).unwrap();
    let when: BTreeMap<u32, (u64, u64)> = works.iter().flat_map(|w| w.when.clone()).filter(|(id, _)| names[*id as usize] != "Default"
        && c.sources.contains(id)).collect();
    for (a, x) in &when {
        for (b, y) in &when {
            let thread = |id: u32| id as usize / PER;
            let before = if thread(*a) == thread(*b) { a < b } else { x.1 < y.0 };
            cx.checked(1);
            if before && place(*a) > place(*b) {
                return fail("order", format!("{} was added before {}, but listed after it: {got:?}", names[*a as usize], names[*b as usize]));
            }
        }
    }
    if !c.errors.is_empty() { return same_errors(cx, &f, &c); }
    same_data(cx, &f, &c, "combined")?;
    same_provenance(cx, &f, &c)
}

fn orders(n: usize) -> Vec<Vec<usize>> {
    match n {
        2 => vec![vec![0, 1], vec![1, 0]],
        _ => vec![vec![0, 1, 2], vec![2, 1, 0], vec![1, 2, 0]],
    }
}

fn all_combined(cx: &mut Cx, works: &[Work]) -> R {
    for o in orders(works.len()) {
        for op in [Op::Merge, Op::Adjoin] { combined(cx, works, &o, op)?; }
    }
    Ok(())
}

fn programs() -> Vec<Vec<Act>> {
    vec![
        vec![Add(Op::Merge, 0), Add(Op::Adjoin, 0)],
        vec![Add(Op::Admerge, 1), Read],
        vec![Add(Op::Join, 2), Select],
        vec![Nest(Op::Merge)],
        vec![Add(Op::Merge, 0), Copy],
        vec![Add(Op::Merge, 1), Combine(Op::Adjoin)],
        vec![Add(Op::Merge, 0), Add(Op::Merge, 3)],
        vec![Add(Op::Admerge, 0), Focus, Read],
    ]
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![];

    let two = |name, b: usize, of: &'static [usize]| Scenario::new(
        name,
        format!("two threads, each building by any of {} programs a configuration of its own or from a common one, all \
            combined afterwards in any order: every interleaving with up to {b} preemptions", of.len()),
        move |cx| {
            let programs = programs();
            let common = cx.flag();
            let mut base = Machine::new(1);
            if common { base.add(cx, 0, Op::Merge, source(1, 0), false); }
            let acts: Vec<Vec<Act>> = (0..2).map(|_| programs[*cx.of(of)].clone()).collect();
            let works = (0..2).map(|t| Work::new(t, common.then_some(&base))).collect();
            let works = threads(cx, works, &acts)?;
            all_combined(cx, &works)
        }
    ).devs(b).threads();

    let three = |name, b: usize, of: &'static [usize], third: &'static [usize]| Scenario::new(
        name,
        format!("three threads, each building by any of {} programs (the third by {}), all combined: every interleaving \
            with up to {b} preemptions", of.len(), third.len()),
        move |cx| {
            let programs = programs();
            let acts: Vec<Vec<Act>> = (0..3).map(|k| programs[*cx.of(if k < 2 { of } else { third })].clone()).collect();
            let works = (0..3).map(|t| Work::new(t, None)).collect();
            let works = threads(cx, works, &acts)?;
            all_combined(cx, &works)
        }
    ).devs(b).threads();

    const ALL: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7];
    v.push(two("two", 2, ALL));
    match tier {
        Tier::Quick => v.push(three("three", 1, ALL, &[0])),
        Tier::Thorough => {
            v.push(two("two-deep", 3, &[0, 2, 5]));
            v.push(three("three", 1, ALL, &[0, 3, 5]));
            v.push(three("three-deep", 2, &[0, 1], &[0, 2]));
        }
    }

    let (b, some) = (1, tier.sel(4, 8));
    v.push(Scenario::new(
        "handed-over",
        format!("two threads that build by any of {some} programs and then go on with what the other has built by any of 3: \
            every interleaving with up to {b} preemptions"),
        move |cx| {
            let programs = programs();
            let acts: Vec<Vec<Act>> = (0..2).map(|_| cx.of(&programs[8 - some..]).clone()).collect();
            let then: Vec<Vec<Act>> = (0..2).map(|_| programs[[0, 3, 5][cx.pick(3)]].clone()).collect();
            let works = (0..2).map(|t| Work::new(t, None)).collect();
            let mut works = threads(cx, works, &acts)?;
            works.swap(0, 1);
            let works = threads(cx, works, &then)?;
            all_combined(cx, &works)
        }
    ).devs(b).threads());

    let n = tier.sel(8, 14);
    v.push(Scenario::new(
        "many",
        format!("two threads that add up to {n} sources each: every interleaving with one preemption (three threads: up to \
            {} each)", n / 3),
        move |cx| {
            let k = cx.pick(n) + 1;
            let three = cx.flag();
            if three && k > n / 3 { return Err(Stop::Skip); }
            if k > 16 && k % 11 != 0 { return Err(Stop::Skip); }
            let t = if three { 3 } else { 2 };
            let acts: Vec<Vec<Act>> = (0..t).map(|t| (0..k).map(|i| Add(OPS[(i + t) % 4], i % 3)).collect()).collect();
            let works = (0..t).map(|t| Work::new(t, None)).collect();
            let works = threads(cx, works, &acts)?;
            all_combined(cx, &works)
        }
    ).devs(1).threads());

    let b = tier.sel(4, 6);
    v.push(Scenario::new(
        "bare",
        format!("two to four threads that add up to 4 sources each, 8 in all, with no scheduling points but those in Figment: \
            every interleaving with up to {b} preemptions"),
        |cx| {
            const COUNTS: [&[usize]; 8] = [&[1, 1], &[2, 2], &[4, 4], &[1, 1, 1], &[2, 1, 1], &[2, 2, 2], &[1, 1, 1, 1], &[2, 2, 2, 2]];
            let counts = *cx.of(&COUNTS);
            cx.op(|| format!("threads that add {counts:?} sources"));
            let cells: Vec<Arc<Mutex<Figment>>> = counts.iter().map(|_| Default::default()).collect();
            let id = |t: usize, i: usize| (t * 10 + i + 1) as u32;
            let tasks: Vec<sched::Task> = counts.iter().zip(&cells).enumerate().map(|(t, (n, cell))| {
                let (n, cell) = (*n, cell.clone());
                let task: sched::Task = Box::new(move || {
                    let f = (0..n).fold(Figment::new(), |f, i| {
                        let (id, key) = (id(t, i), format!("k{t}{i}"));
                        f.merge(P::ok(id, "default", &one(&key, N::u(id as u8))))
                    });
                    *cell.lock().unwrap() = f;
                });
                task
            }).collect();
            let panics = sched::run(cx, tasks)?;
            ensure!(panics.iter().all(|p| p.is_none()), "panic", "a thread panics: {}", last_panic());
            let all: Vec<Figment> = cells.iter().map(|c| c.lock().unwrap().clone()).collect();
            let f = all.iter().fold(Figment::new(), |f, g| f.merge(g));
            cx.state(&(counts, f.metadata().map(|m| m.name.to_string()).collect::<Vec<_>>()));
            let mut tags = std::collections::BTreeSet::new();
            for (t, n) in counts.iter().enumerate() {
                for i in 0..*n {
                    let key = format!("k{t}{i}");
                    let name = format!("P{}", id(t, i));
                    for (what, f) in [("own", &all[t]), ("combined", &f)] {
                        cx.checked(1);
                        ensure_eq!(f.find_metadata(&key).map(|m| &*m.name), Some(&*name), "source", "of {key}, {what}");
                    }
                    let tag = f.find_value(&key).map_err(|e| Stop::Fail { sig: "find".into(), msg: e.to_string() })?.tag();
                    tags.insert(tag);
                }
            }
            let n = counts.iter().sum::<usize>();
            cx.checked(2);
            ensure_eq!(tags.len(), n, "identity", "distinct sources");
            ensure_eq!(f.metadata().count(), n + counts.len(), "listed", "sources");
            Ok(())
        }
    ).devs(b).threads());

    let b = tier.sel(2, 3);
    v.push(Scenario::new(
        "reading",
        format!("two threads that read one of 8 configurations in any of 16 ways each, or build another from it: every \
            interleaving with up to {b} preemptions"),
        |cx| {
            let tmp = Tmp::new();
            let _guard = crate::c20::Guard::new();
            let all = c19::figments(&tmp.0);
            let (name, f) = cx.of(&all).clone();
            let kinds: Vec<usize> = (0..2).map(|_| cx.pick(c19::READS.len() + 1)).collect();
            let before = c19::seen(&f);
            let read = |f: &Figment, k: usize| -> String {
                if k < c19::READS.len() {
                    let a = c19::read(f, k);
                    point("between reads");
                    return a + &c19::read(f, (k + 3) % c19::READS.len());
                }
                let g = f.clone().merge(Slow(P::of(&source(1, 0)))).select("one");
                let v = g.extract::<SlowValue>();
                format!("{:?}", v.map(|v| N::of(&v.0, &nosrc).show()).map_err(|e| e.kind.to_string()))
            };
            let want: Vec<String> = kinds.iter().map(|k| read(&f, *k)).collect();
            cx.op(|| format!("{name}: {kinds:?}"));
            let got: Vec<Arc<Mutex<Option<String>>>> = kinds.iter().map(|_| Arc::new(Mutex::new(None))).collect();
            let shared = Arc::new(f);
            let tasks: Vec<sched::Task> = kinds.iter().zip(&got).map(|(k, got)| {
                let (k, got, f) = (*k, got.clone(), shared.clone());
                let t: sched::Task = Box::new(move || {
                    point("before the read");
                    let a = read(&f, k);
                    *got.lock().unwrap() = Some(a);
                });
                t
            }).collect();
            let panics = sched::run(cx, tasks)?;
            ensure!(panics.iter().all(|p| p.is_none()), "panic", "a thread panics: {}", last_panic());
            for (g, w) in got.iter().zip(&want) {
                cx.checked(1);
                ensure_eq!(g.lock().unwrap().clone(), Some(w.clone()), "answer", "{kinds:?}");
            }
            ensure_eq!(c19::seen(&shared), before, "changed", "by reading");
            Ok(())
        }
    ).devs(b).threads());

    v
}
