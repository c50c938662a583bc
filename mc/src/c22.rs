//! Threads in jails, in every interleaving.

use std::collections::{BTreeMap, BTreeSet};
use std::env;
use std::fs;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

use figment::{Error, Jail};

use crate::c14::Tmp;
use crate::c20::{diff, end, same, take, tree, vars, Guard, Inside, Step, Vars, Wrong};
use crate::c20::Step::*;
use crate::engine::*;
use crate::sched::{self, point};
use crate::{ensure, ensure_eq};

/// One jail: what is done in it and how it ends.
#[derive(Clone, Debug)]
struct Spec { steps: Vec<Step>, ending: usize, expect: bool }

fn j(steps: &[Step], ending: usize, expect: bool) -> Spec { Spec { steps: steps.to_vec(), ending, expect } }

/// What is shared by the threads of an execution.
struct Shared {
    before: Vars,
    jails: PathBuf,
    inside: AtomicUsize,
    wrong: Mutex<Vec<String>>,
    dirs: Mutex<BTreeSet<PathBuf>>,
}

impl Shared {
    fn wrong(&self, m: String) { self.wrong.lock().unwrap().push(m); }
}

fn jail(sh: &Shared, me: usize, spec: &Spec) {
    let ran = std::cell::Cell::new(false);
    let body = |jail: &mut Jail| -> Result<(), Error> {
        ran.set(true);
        let others = sh.inside.fetch_add(1, Ordering::SeqCst);
        if others != 0 { sh.wrong(format!("{me}: runs beside {others} others")); }
        struct Out<'a>(&'a Shared);
        impl Drop for Out<'_> { fn drop(&mut self) { self.0.inside.fetch_sub(1, Ordering::SeqCst); } }
        let _out = Out(sh);
        let mut m = Inside { vars: sh.before.clone(), jailed: BTreeSet::new(), cwd: "".into(), files: BTreeMap::new() };
        if !jail.directory().starts_with(&sh.jails) { sh.wrong(format!("{me}: in {:?}", jail.directory())); return Ok(()); }
        sh.dirs.lock().unwrap().insert(jail.directory().to_path_buf());
        if let Err(e) = same(jail, &m) { sh.wrong(format!("{me}: in the beginning: {e}")); }
        // No other jail is there, not even an ended one's remains.
        let beside = fs::read_dir(&sh.jails).unwrap().flatten().filter(|e| e.path() != jail.directory())
            .filter(|e| fs::read_dir(e.path()).map_or(false, |mut d| d.next().is_some())).count();
        if beside != 0 { sh.wrong(format!("{me}: {beside} directories beside")); }
        point("in the jail");
        if let Err(e) = same(jail, &m) { sh.wrong(format!("{me}: a moment later: {e}")); }
        for s in &spec.steps {
            let want = m.step(s);
            match catch_unwind(AssertUnwindSafe(|| take(jail, s))) {
                Ok(r) => if r.is_ok() != want { sh.wrong(format!("{me}: {s:?}: {:?}", r.map_err(|e| e.to_string()))); },
                Err(p) => {
                    // The scheduler ends the thread.
                    match p.downcast::<Wrong>() {
                        Ok(w) => sh.wrong(format!("{me}: {s:?}: {}", w.0)),
                        Err(p) => std::panic::resume_unwind(p),
                    }
                }
            }
            point("after a step");
            if let Err(e) = same(jail, &m) { sh.wrong(format!("{me}: after {s:?}: {e}")); }
        }
        end(jail, spec.ending)
    };

    let r = catch_unwind(AssertUnwindSafe(|| match spec.expect {
        true => { Jail::expect_with(body); Ok(()) }
        false => Jail::try_with(body),
    }));

    if !ran.get() { sh.wrong(format!("{me}: did not run: {:?}", r.as_ref().map(|r| r.as_ref().map_err(|e| e.to_string())).map_err(|_| "panic"))); }
    let fine = match (spec.ending, &r) {
        (0, Ok(Ok(()))) => true,
        (1 | 7 | 8, Ok(Err(_))) => !spec.expect,
        (1 | 7 | 8, Err(_)) => spec.expect,
        (2..=6 | 9, Err(_)) => true,
        _ => false,
    };
    if !fine { sh.wrong(format!("{me}: ending {} is {:?}", spec.ending, r.map(|r| r.map_err(|e| e.to_string())).map_err(|_| "panic"))); }
}

/// Threads, each with jails one after another.
fn threads(cx: &mut Cx, specs: &[Vec<Spec>], outside: &[(&str, Option<&str>)]) -> R {
    let tmp = Tmp::new();
    let _guard = Guard::new();
    let jails = tmp.0.join("jails");
    let base = tmp.0.join("base");
    fs::create_dir(&jails).unwrap();
    fs::create_dir(&base).unwrap();
    env::set_current_dir(&base).unwrap();
    // A small environment: each variable takes a step to clear.
    for k in vars().keys() {
        if !["MC_SCRATCH", "PATH"].contains(&k.to_str().unwrap_or("")) { env::remove_var(k); }
    }
    env::set_var("TMPDIR", &jails);
    for (k, v) in outside {
        match v { Some(v) => env::set_var(k, v), None => env::remove_var(k) }
    }
    let before = vars();
    for (k, s) in specs.iter().enumerate() { cx.op(|| format!("thread {k}: {s:?}")); }

    let sh = Arc::new(Shared {
        before: before.clone(), jails: jails.clone(), inside: AtomicUsize::new(0), wrong: Mutex::new(vec![]),
        dirs: Mutex::new(BTreeSet::new()),
    });
    let tasks: Vec<sched::Task> = specs.iter().cloned().enumerate().map(|(k, specs)| {
        let sh = sh.clone();
        let t: sched::Task = Box::new(move || {
            for s in &specs {
                jail(&sh, k, s);
                point("between jails");
            }
        });
        t
    }).collect();
    let panics = sched::run(cx, tasks)?;
    cx.checked(specs.iter().flatten().map(|s| 2 + s.steps.len() as u64).sum::<u64>() + 4);
    let wrong = sh.wrong.lock().unwrap().clone();
    if let Some(w) = wrong.first() { return fail("disturbed", w.clone()); }
    ensure!(panics.iter().all(|p| p.is_none()), "panic", "a thread panics: {}", last_panic());
    let after = vars();
    ensure!(after == before, "environment", "afterwards {:?}, before {:?}", diff(&after, &before), diff(&before, &after));
    ensure_eq!(env::current_dir().ok(), Some(base.clone()), "directory", "afterwards");
    ensure!(tree(&jails).is_empty(), "left", "left behind: {:?}", tree(&jails));
    ensure!(tree(&base).is_empty(), "left", "left outside: {:?}", tree(&base));
    Ok(())
}

const BEFORE: [&[(&str, Option<&str>)]; 2] = [&[("MC_X", None)], &[("MC_X", Some("orig")), ("MC_Y", Some(""))]];

fn programs() -> Vec<Vec<Step>> {
    vec![
        vec![Set("MC_X", "1")],
        vec![Set("MC_X", "2"), Clear],
        vec![Clear, Set("MC_Y", "2"), Set("MC_X", "")],
        vec![File("f", b"one"), Dir("s"), Cd("s")],
        vec![Dir("s/t/u"), Cd("s/t"), File("f", b""), Set("MC_X", "1"), CdHome],
        vec![Set("TMPDIR", "/nope/absent"), Set("MC_Y", "3"), Set("TMPDIR", "elsewhere")],
        vec![Set("MC_X", "1"), Direct("MC_X", Some("direct")), Set("MC_X", "4"), Cd("..")],
        vec![],
    ]
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    let two = |name, b: usize, endings: &'static [usize]| Scenario::new(
        name,
        format!("two threads with a jail each, of any of 8 programs, each ending in any of {} ways (success, a panic, an \
            error or an invalid name), from 2 environments: every interleaving with up to {b} preemptions", endings.len()),
        move |cx| {
            let programs = programs();
            let i = cx.pick(2);
            let mut specs = vec![];
            for k in 0..2 {
                let p = cx.of(&programs);
                let ending = *cx.of(endings);
                specs.push(vec![j(p, ending, k == 1)]);
            }
            threads(cx, &specs, BEFORE[i])
        }
    ).devs(b).threads();

    let three = |name, b: usize, some: usize| Scenario::new(
        name,
        format!("three threads with a jail each, of any of {some} programs, ending in success or a panic: every \
            interleaving with up to {b} preemptions"),
        move |cx| {
            let programs = programs();
            let mut specs = vec![];
            for k in 0..3 {
                let p = &programs[(cx.pick(some) + 1) % 8];
                let ending = *cx.of(&[0, 2]);
                specs.push(vec![j(p, ending, k == 0)]);
            }
            threads(cx, &specs, BEFORE[1])
        }
    ).devs(b).threads();

    match tier {
        Tier::Quick => {
            v.push(two("two", 2, &[0, 2]));
            v.push(three("three", 1, 2));
        }
        Tier::Thorough => {
            v.push(two("two", 2, &[0, 1, 2, 4]));
            v.push(two("two-deep", 3, &[0, 2]));
            v.push(three("three", 1, 4));
            v.push(three("three-deep", 2, 1));
        }
    }

    let ends: &[usize] = tier.sel(&[1, 2, 5], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9]);
    let b = 2;
    v.push(Scenario::new(
        "again",
        format!("two threads, each with two jails one after another, of any of 3 programs, the first ending in any of {} \
            ways: every interleaving with up to {b} preemptions", ends.len()),
        move |cx| {
            let programs = programs();
            let mut specs = vec![];
            for k in 0..2 {
                let p = &programs[[1, 2, 4][cx.pick(3)]];
                let ending = if k == 0 { *cx.of(ends) } else { [0, 2][cx.pick(2)] };
                let q = &programs[[5, 0, 3][cx.pick(2)]];
                specs.push(vec![j(p, ending, k == 0), j(q, 0, k == 1)]);
            }
            threads(cx, &specs, BEFORE[1])
        }
    ).devs(b).threads());

    let n = tier.sel(8, 16);
    v.push(Scenario::new(
        "many",
        format!("up to {n} threads with a jail each, or two threads with up to {n} jails each, with one preemption"),
        move |cx| {
            let programs = programs();
            let k = cx.pick(n) + 1;
            let ending = *cx.of(&[0, 1, 2]);
            let s = |k: usize| j(&programs[k % 8][..programs[k % 8].len().min(2)], if k % 2 == 0 { ending } else { 0 }, k % 3 == 0);
            let specs: Vec<Vec<Spec>> = match cx.flag() {
                // Which one starts is free each time one ends: only some of them.
                true => (0..k.min(4)).map(|k| vec![s(k)]).collect(),
                false => (0..2).map(|t| (0..k).map(|k| s(k + t)).collect()).collect(),
            };
            if specs.len() > 2 && k > 4 { return Err(Stop::Skip); }
            threads(cx, &specs, BEFORE[0])
        }
    ).devs(1).threads());

    v.push(Scenario::new(
        "no-jail",
        "a thread whose jail cannot be made, since the temporary directory is gone, and one that makes it from within \
         a jail fail or not: neither stops the other, whichever comes first",
        |cx| {
            let programs = programs();
            let p = cx.of(&programs).clone();
            let absent = cx.flag();
            let tmp = Tmp::new();
            let _guard = Guard::new();
            let jails = tmp.0.join("jails");
            fs::create_dir(&jails).unwrap();
            env::set_current_dir(&tmp.0).unwrap();
            env::set_var("TMPDIR", if absent { tmp.0.join("absent") } else { jails });
            let before = vars();
            cx.op(|| format!("{p:?}, {absent}"));
            let ok = Arc::new(AtomicUsize::new(0));
            let tasks: Vec<sched::Task> = (0..2).map(|_| {
                let (p, ok) = (p.clone(), ok.clone());
                let t: sched::Task = Box::new(move || {
                    for _ in 0..2 {
                        let r = Jail::try_with(|jail| {
                            for s in &p {
                                let _ = take(jail, s);
                                point("after a step");
                            }
                            Ok(())
                        });
                        if r.is_ok() { ok.fetch_add(1, Ordering::SeqCst); }
                        point("between jails");
                    }
                });
                t
            }).collect();
            sched::run(cx, tasks)?;
            ensure_eq!(ok.load(Ordering::SeqCst), if absent { 0 } else { 4 }, "made", "jails that ran");
            let after = vars();
            ensure!(after == before, "environment", "afterwards {:?}, before {:?}", diff(&after, &before), diff(&before, &after));
            ensure_eq!(env::current_dir().ok(), Some(tmp.0.clone()), "directory", "afterwards");
            Ok(())
        }
    ).devs(2).threads());

    v
}
