//! Histories of operations in jails, however they end: what is inside, and
//! that afterwards everything is as before.

use std::any::Any;
use std::collections::{BTreeMap, BTreeSet};
use std::env;
use std::ffi::{OsStr, OsString};
use std::fs;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::panic::{catch_unwind, panic_any, resume_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};

use figment::{Error, Jail};

use crate::c14::Tmp;
use crate::engine::*;
use crate::{ensure, ensure_eq};

pub type Vars = BTreeMap<OsString, OsString>;

pub fn vars() -> Vars { env::vars_os().collect() }

/// Puts the environment and directory back, whatever happens.
pub struct Guard { vars: Vars, cwd: PathBuf }

impl Guard {
    pub fn new() -> Guard { Guard { vars: vars(), cwd: env::current_dir().unwrap() } }
}

impl Drop for Guard {
    fn drop(&mut self) {
        for k in vars().keys() { if !self.vars.contains_key(k) { env::remove_var(k); } }
        for (k, v) in &self.vars { env::set_var(k, v); }
        let _ = env::set_current_dir(&self.cwd);
    }
}

/// All there is in a directory: files with their contents.
pub fn tree(d: &Path) -> BTreeMap<PathBuf, Option<Vec<u8>>> {
    fn go(d: &Path, root: &Path, t: &mut BTreeMap<PathBuf, Option<Vec<u8>>>) {
        for e in fs::read_dir(d).into_iter().flatten().flatten() {
            let p = e.path();
            let rel = p.strip_prefix(root).unwrap().to_path_buf();
            if e.file_type().map_or(false, |t| t.is_dir()) {
                t.insert(rel, None);
                go(&p, root, t);
            } else {
                t.insert(rel, Some(fs::read(&p).unwrap_or_default()));
            }
        }
    }
    let mut t = BTreeMap::new();
    go(d, d, &mut t);
    t
}

#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    Set(&'static str, &'static str),
    Clear,
    /// A jailed variable changed past the jail.
    Direct(&'static str, Option<&'static str>),
    File(&'static str, &'static [u8]),
    Dir(&'static str),
    Cd(&'static str),
    /// To the jail's directory.
    CdHome,
}

use Step::*;

pub const STEPS: [Step; 18] = [
    Set("MC_X", "1"), Set("MC_X", ""), Set("MC_X", "orig"), Set("MC_Y", "2"), Clear,
    Direct("MC_X", Some("direct")), Direct("MC_X", None),
    File("f", b"one"), File("s/f", b"\xff\0"), File("f", b""), Dir("s"), Dir("s/t/u"),
    Cd("s"), Cd("s/t"), CdHome, Cd(".."), Cd("/"), File("/nope/f", b"x"),
];

/// What is in a jail, in the model. Paths are relative to its directory.
#[derive(Clone, Debug, PartialEq)]
pub struct Inside {
    pub vars: Vars,
    pub jailed: BTreeSet<OsString>,
    pub cwd: PathBuf,
    pub files: BTreeMap<PathBuf, Option<Vec<u8>>>,
}

impl Inside {
    fn is_dir(&self, p: &Path) -> bool { p.as_os_str().is_empty() || self.files.get(p) == Some(&None) }

    /// Takes the step; whether it succeeds.
    pub fn step(&mut self, s: &Step) -> bool {
        match s {
            Set(k, v) => {
                self.vars.insert(k.into(), v.into());
                self.jailed.insert(k.into());
            }
            Clear => self.jailed.extend(std::mem::take(&mut self.vars).into_keys()),
            Direct(k, v) => match v {
                Some(v) => { self.vars.insert(k.into(), v.into()); }
                None => { self.vars.remove(OsStr::new(k)); }
            },
            File(p, _) | Dir(p) | Cd(p) if p.starts_with('/') => return false,
            Cd("..") => return false,
            File(p, c) => {
                let at = self.cwd.join(p);
                if !self.is_dir(at.parent().unwrap()) || self.is_dir(&at) { return false; }
                self.files.insert(at, Some(c.to_vec()));
            }
            Dir(p) => {
                let at = self.cwd.join(p);
                // The shortest first: a file in the way stops it there.
                let mut all: Vec<&Path> = at.ancestors().collect();
                all.reverse();
                if all.iter().any(|p| matches!(self.files.get(*p), Some(Some(_)))) { return false; }
                for p in all { if !self.is_dir(p) { self.files.insert(p.into(), None); } }
            }
            Cd(p) => {
                let at = self.cwd.join(p);
                if !self.is_dir(&at) { return false; }
                self.cwd = at;
            }
            CdHome => self.cwd = "".into(),
        }
        true
    }
}

pub fn take(jail: &mut Jail, s: &Step) -> Result<(), Error> {
    match s {
        Set(k, v) => jail.set_env(k, v),
        Clear => jail.clear_env(),
        Direct(k, Some(v)) => env::set_var(k, v),
        Direct(k, None) => env::remove_var(k),
        File(p, c) => match std::str::from_utf8(c) {
            Ok(c) if c.len() != 1 => drop(jail.create_file(p, c)?),
            _ => drop(jail.create_binary(p, c)?),
        },
        Dir(p) => ensure_path(jail.create_dir(p)?, p),
        Cd(p) => ensure_path(jail.change_dir(p)?, p),
        CdHome => {
            let home = jail.directory().to_path_buf();
            ensure_path(jail.change_dir(&home)?, home.to_str().unwrap());
        }
    }
    Ok(())
}

fn ensure_path(got: PathBuf, want: &str) {
    if got != Path::new(want) { resume_unwind(Box::new(Wrong(format!("returned {got:?} for {want:?}")))); }
}

/// What the closure found to be wrong.
pub struct Wrong(pub String);

pub fn same(jail: &Jail, m: &Inside) -> Result<(), String> {
    let root = jail.directory();
    let cwd = env::current_dir().map_err(|e| format!("no current directory: {e}"))?;
    if cwd.strip_prefix(root).ok() != Some(&m.cwd) { return Err(format!("current directory {cwd:?}, not {:?} in {root:?}", m.cwd)); }
    let v = vars();
    if v != m.vars { return Err(format!("variables {:?}, not {:?}", diff(&v, &m.vars), diff(&m.vars, &v))); }
    let t = tree(root);
    if t != m.files { return Err(format!("files {t:?}, not {:?}", m.files)); }
    Ok(())
}

pub fn diff(a: &Vars, b: &Vars) -> Vars {
    a.iter().filter(|(k, v)| b.get(*k) != Some(v)).map(|(k, v)| (k.clone(), v.clone())).collect()
}

pub const ENDS: [&str; 10] = [
    "success", "error", "panic", "odd panic", "invalid name", "invalid name =", "invalid value", "failing operation",
    "chained error", "invalid new value",
];

const MISCHIEF: [&str; 5] = ["none", "elsewhere", "current directory gone", "jail's directory gone", "into the root"];

pub fn end(jail: &mut Jail, k: usize) -> Result<(), Error> {
    match k {
        0 => Ok(()),
        1 => Err("the error".to_string().into()),
        2 => panic!("the panic"),
        3 => panic_any(7u8),
        4 => { jail.set_env("", "x"); Ok(()) }
        5 => { jail.set_env("MC=X", "x"); Ok(()) }
        6 => { jail.set_env("MC_X", "a\0b"); Ok(()) }
        7 => jail.create_file("absent/dir/f", "").map(|_| ()),
        8 => Err(Error::from("one".to_string()).with_path("a.b").chain("two".to_string().into())),
        _ => { jail.set_env("MC_NEW", "a\0b"); Ok(()) }
    }
}

/// What is outside.
struct Outside { base: PathBuf, jails: PathBuf, _guard: Guard, _tmp: Tmp }

const TMPDIRS: [&str; 4] = ["plain", "relative", "through a link", "with spaces and é"];

impl Outside {
    fn new(cx: &mut Cx, tmpdir: usize, vars: &[(&str, Option<&[u8]>)]) -> Outside {
        let tmp = Tmp::new();
        let guard = Guard::new();
        let base = tmp.0.join("base");
        fs::create_dir(&base).unwrap();
        let jails = tmp.0.join(if tmpdir == 3 { "jails é x" } else { "jails" });
        fs::create_dir(&jails).unwrap();
        env::set_current_dir(&base).unwrap();
        match tmpdir {
            1 => env::set_var("TMPDIR", "../jails"),
            2 => {
                std::os::unix::fs::symlink(&jails, tmp.0.join("link")).unwrap();
                env::set_var("TMPDIR", tmp.0.join("link"));
            }
            _ => env::set_var("TMPDIR", &jails),
        }
        for (k, v) in vars {
            match v {
                Some(v) => env::set_var(k, OsStr::from_bytes(v)),
                None => env::remove_var(k),
            }
        }
        cx.note(|| format!("outside: {vars:?}, temporary directory {}", TMPDIRS[tmpdir]));
        Outside { base, jails, _guard: guard, _tmp: tmp }
    }
}

pub fn text(p: &(dyn Any + Send)) -> Option<String> {
    p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned())
}

pub fn messages(e: Error) -> Vec<(String, Vec<String>)> {
    e.into_iter().map(|e| (e.kind.to_string(), e.path)).collect()
}

/// Runs a jail through the steps, and checks all of it.
fn jail(cx: &mut Cx, out: &Outside, steps: &[Step], ending: usize, mischief: usize, expect: bool) -> R {
    let before = vars();
    let cwd = env::current_dir().unwrap();
    let mut ran = false;
    let mut failed: Option<String> = None;
    let mut states = vec![];
    for s in steps { cx.op(|| format!("{s:?}")); }
    cx.op(|| format!("end with {} after {}{}", ENDS[ending], MISCHIEF[mischief], if expect { ", expected" } else { "" }));
    cx.checked(steps.len() as u64 + 5);

    let body = |jail: &mut Jail| -> Result<(), Error> {
        ran = true;
        let mut m = Inside { vars: before.clone(), jailed: BTreeSet::new(), cwd: "".into(), files: BTreeMap::new() };
        let mut check = |m: &Inside, jail: &Jail, what: &dyn std::fmt::Debug| {
            if let Err(e) = same(jail, m) {
                if failed.is_none() { failed = Some(format!("{what:?}: {e}")); }
            }
        };
        if !jail.directory().starts_with(&out.jails) {
            check(&Inside { cwd: "?".into(), ..m.clone() }, jail, &"elsewhere");
        }
        check(&m, jail, &"in the beginning");
        for s in steps {
            let want = m.step(s);
            let got = match catch_unwind(AssertUnwindSafe(|| take(jail, s))) {
                Ok(r) => r.is_ok(),
                Err(p) => {
                    check(&Inside { cwd: "?".into(), ..m.clone() }, jail, &(s, p.downcast_ref::<Wrong>().map(|w| &w.0)));
                    return Ok(());
                }
            };
            if got != want { check(&Inside { cwd: "?".into(), ..m.clone() }, jail, &(s, "succeeded", got)); }
            check(&m, jail, s);
            states.push(hash(&(&m.vars.iter().filter(|v| v.0 == "MC_X" || v.0 == "MC_Y").collect::<Vec<_>>(), &m.files, &m.cwd)));
        }
        match mischief {
            0 => {}
            1 => env::set_current_dir(&out.jails).unwrap(),
            2 => {
                fs::create_dir("gone").unwrap();
                env::set_current_dir("gone").unwrap();
                fs::remove_dir("../gone").unwrap();
            }
            3 => {
                // Never anything else.
                assert!(jail.directory().starts_with(&out.jails) && jail.directory() != out.jails, "directory");
                fs::remove_dir_all(jail.directory()).unwrap()
            }
            _ => env::set_current_dir("/").unwrap(),
        }
        end(jail, ending)
    };

    let r = catch_unwind(AssertUnwindSafe(|| match expect {
        true => { Jail::expect_with(body); Ok(()) }
        false => Jail::try_with(body),
    }));

    for s in states { cx.state(&s); }
    if let Some(f) = failed { return fail("inside", f); }
    ensure!(ran, "not-run", "the closure did not run: {:?}", r.map(|r| r.map_err(|e| e.to_string())));

    // Everything is as before.
    let now = vars();
    ensure!(now == before, "environment", "afterwards {:?}, before {:?}", diff(&now, &before), diff(&before, &now));
    ensure_eq!(env::current_dir().ok(), Some(cwd), "directory", "afterwards");
    ensure!(tree(&out.jails).is_empty(), "left", "left behind: {:?}", tree(&out.jails));
    ensure!(tree(&out.base).is_empty(), "left", "left in the directory before: {:?}", tree(&out.base));

    // The end is passed on.
    let (error, panic): (Option<Vec<(String, Vec<String>)>>, bool) = match ending {
        0 => (None, false),
        1 => (Some(vec![("the error".into(), vec![])]), false),
        7 => (Some(vec![]), false),
        8 => (Some(vec![("two".into(), vec![]), ("one".into(), vec!["a".into(), "b".into()])]), false),
        _ => (None, true),
    };
    cx.outcome(&(ending, mischief, expect));
    match r {
        Ok(Ok(())) => ensure!(error.is_none() && !panic, "ending", "success"),
        Ok(Err(e)) => match error {
            Some(want) => {
                let got = messages(e);
                let same = if want.is_empty() { got.len() == 1 } else { got.iter().collect::<BTreeSet<_>>() == want.iter().collect() };
                ensure!(same, "ending", "error {got:?}, expected {want:?}");
            }
            None => return fail("ending", format!("error {e}")),
        },
        Err(p) => match (error, expect) {
            (Some(want), true) => {
                let t = text(&*p).unwrap_or_default();
                ensure!(t.starts_with("jail failed: ") && want.iter().all(|w| t.contains(&w.0)), "ending", "panic {t:?} for {want:?}");
            }
            (Some(_), false) => return fail("ending", format!("panic {:?} for an error", text(&*p))),
            (None, _) => {
                ensure!(panic, "ending", "panic {:?}", text(&*p));
                match ending {
                    2 => ensure_eq!(text(&*p), Some("the panic".to_string()), "ending", "panic"),
                    3 => ensure_eq!(p.downcast_ref::<u8>(), Some(&7), "ending", "panic"),
                    _ => {}
                }
            }
        },
    }
    Ok(())
}

pub const INITIAL: [&[(&str, Option<&[u8]>)]; 5] = [
    &[("MC_X", None), ("MC_Y", None)],
    &[("MC_X", Some(b"orig")), ("MC_Y", None)],
    &[("MC_X", Some(b"")), ("MC_Y", Some(b"orig"))],
    &[("MC_X", Some(b"\xff\xfe=")), ("MC_Y", Some(b"2"))],
    &[("MC_X", None), ("MC_Y", Some(b"a=b c\n"))],
];

fn any_steps(cx: &mut Cx, n: usize) -> R<Vec<Step>> {
    let mut steps: Vec<Step> = vec![];
    for _ in 0..n {
        let s = cx.of(&STEPS).clone();
        if let Direct(k, _) = s {
            // Only variables that the jail was asked to change.
            if !steps.iter().any(|s| matches!(s, Set(x, _) if *x == k)) { return Err(Stop::Skip); }
        }
        steps.push(s);
    }
    Ok(steps)
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    let operations = |name, n: usize, devs: usize| Scenario::new(
        name,
        format!("every history of up to {n} of 18 operations from 5 initial environments, the inside compared with a \
            model after each, ending in success, or (as {devs} deviations) any other of 10 ways or after any of 4 mischiefs"),
        move |cx| {
            let i = cx.pick(INITIAL.len());
            let n = cx.pick(n + 1);
            let steps = any_steps(cx, n)?;
            let ending = cx.dev(ENDS.len());
            let mischief = cx.dev(MISCHIEF.len());
            let out = Outside::new(cx, 0, INITIAL[i]);
            jail(cx, &out, &steps, ending, mischief, false)
        }
    ).devs(devs);

    v.push(operations("operations", tier.sel(3, 4), 0));
    if tier == Tier::Thorough { v.push(operations("operations-ended", 3, 1)); }

    let initial = tier.sel(3, 5);
    v.push(Scenario::new(
        "endings",
        format!("every history of up to 2 of 18 operations, every one of 10 endings after every one of 5 mischiefs, \
            by try_with and expect_with, from {initial} initial environments"),
        move |cx| {
            let i = cx.pick(initial);
            let n = cx.pick(3);
            let steps = any_steps(cx, n)?;
            let (ending, mischief, expect) = (cx.pick(ENDS.len()), cx.pick(MISCHIEF.len()), cx.flag());
            let out = Outside::new(cx, 0, INITIAL[i]);
            jail(cx, &out, &steps, ending, mischief, expect)
        }
    ));

    let first = tier.sel(1, 2);
    v.push(Scenario::new(
        "several",
        format!("3 jails after another: one of up to {first} operations and one of up to 1, each with any of 10 endings, and \
            a last one"),
        move |cx| {
            let i = cx.pick(INITIAL.len());
            let out = Outside::new(cx, 0, INITIAL[i]);
            for max in [first, 1] {
                let len = cx.pick(max + 1);
                let steps = any_steps(cx, len)?;
                let ending = cx.dev(ENDS.len());
                jail(cx, &out, &steps, ending, 0, false)?;
            }
            jail(cx, &out, &[Set("MC_X", "1"), Clear, Set("MC_Y", "2"), File("f", b"one")], 0, 0, true)
        }
    ).devs(1));

    v.push(Scenario::new(
        "temporary-directories",
        "up to 2 of 18 operations with temporary directories that are relative, behind a link, or have odd names, with \
         10 endings and 5 mischiefs",
        |cx| {
            let t = cx.pick(TMPDIRS.len());
            let n = cx.pick(3);
            let steps = any_steps(cx, n)?;
            let ending = cx.dev(ENDS.len());
            let mischief = cx.dev(MISCHIEF.len());
            let i = cx.pick(2);
            let out = Outside::new(cx, t, INITIAL[i]);
            jail(cx, &out, &steps, ending, mischief, false)
        }
    ).devs(1));

    v.push(Scenario::new(
        "names",
        "variables of each of 24 odd names, unset or with each of 6 values, set once or twice to each of 9 odd values, \
         before or after or without a clear, in 10 endings",
        |cx| {
            let long = "L".repeat(5000);
            let names = ["A", "a", "MC_x", "mc_X", "MC X", " ", "é", "日本", "MC.X", "MC-X", "1", "MC_X\n", "\t", "_", "PATH",
                "HOME", "TMPDIR", "MC_SCRATCH", "LC_ALL", "\"", "$X", "{", "MC_X_", &long];
            let values: [&str; 9] = ["", " ", "x", "a=b", "=", "é日本", "\n", "\"'$X", &long];
            let name = *cx.of(&names);
            let init = cx.pick(7);
            let (v1, twice, clear) = (*cx.of(&values), cx.flag(), cx.pick(3));
            let ending = cx.dev(ENDS.len());
            let out = Outside::new(cx, 0, &[("MC_X", None)]);
            let keep = env::var_os(name);
            match init {
                0 => env::remove_var(name),
                6 if keep.is_some() => {}
                k => env::set_var(name, OsString::from_vec([b"".as_slice(), b"x", b"y z", b"\x80", "é".as_bytes(), b"=", b"q"][k].to_vec())),
            }
            if name == "TMPDIR" { env::set_var(name, &out.jails); }
            let before = vars();
            cx.op(|| format!("{name:?} was {:?}, set to {v1:?}, twice {twice}, clear {clear}", before.get(OsStr::new(name))));
            cx.state(&(name, init, v1, twice, clear));
            let mut wrong = None;
            let r = catch_unwind(AssertUnwindSafe(|| Jail::try_with(|jail| {
                if clear == 1 { jail.clear_env(); }
                jail.set_env(name, v1);
                if env::var_os(name).as_deref() != Some(OsStr::new(v1)) { wrong = Some("set"); }
                if clear == 2 {
                    jail.clear_env();
                    if env::vars_os().count() != 0 { wrong = Some("clear"); }
                }
                if twice {
                    jail.set_env(name.to_string(), format_args!("{v1}{v1}"));
                    if env::var_os(name) != Some(v1.repeat(2).into()) { wrong = Some("second"); }
                }
                if clear == 1 && env::vars_os().count() != 1 { wrong = Some("count"); }
                end(jail, ending)
            })));
            drop(r);
            if let Some(w) = wrong { return fail("inside", w); }
            let now = vars();
            cx.checked(2);
            ensure!(now == before, "environment", "afterwards {:?}, before {:?}", diff(&now, &before), diff(&before, &now));
            ensure!(tree(&out.jails).is_empty(), "left", "left behind");
            Ok(())
        }
    ).devs(1));

    v.push(Scenario::new(
        "many",
        "up to 300 variables set, some of which were there, once or repeatedly, with and without a clear, and up to \
         300 changes of one variable, files or directories",
        |cx| {
            let n = cx.pick(301);
            let how = cx.pick(7);
            if ![0, 4].contains(&how) && n % 4 != 0 && n > 20 { return Err(Stop::Skip); }
            let out = Outside::new(cx, 0, &[("MC_X", Some(b"orig"))]);
            for i in (0..n).step_by(3) { env::set_var(format!("MC_N{i}"), format!("{i}")); }
            let before = vars();
            cx.op(|| format!("{n} by {how}"));
            cx.state(&(n, how));
            let mut wrong = None;
            let r = Jail::try_with(|jail| {
                match how {
                    0 => for i in 0..n { jail.set_env(format!("MC_N{i}"), i + 1); },
                    1 => for i in 0..n { jail.set_env("MC_X", i); },
                    2 => for i in 0..n { jail.set_env(format!("MC_N{}", i % 7), i); if i % 5 == 0 { jail.clear_env(); } },
                    3 => for i in 0..n { jail.create_file(format!("f{i}"), &i.to_string())?; },
                    4 => jail.clear_env(),
                    5 => for i in 0..n { jail.create_dir(format!("d{i}/e"))?; jail.change_dir(format!("d{i}"))?; if i % 9 == 8 { jail.change_dir(jail.directory().to_path_buf())?; } },
                    _ => for _ in 0..n / 8 { jail.create_dir("d")?; jail.change_dir("d")?; jail.create_file("f", "x")?; jail.set_env("MC_X", "y"); },
                }
                let ok = match how {
                    0 => (0..n).all(|i| env::var(format!("MC_N{i}")) == Ok((i + 1).to_string())),
                    1 => n == 0 || env::var("MC_X") == Ok((n - 1).to_string()),
                    2 => env::vars_os().count() <= 7 || n == 0,
                    3 => tree(jail.directory()).len() == n,
                    4 => env::vars_os().count() == 0,
                    _ => true,
                };
                if !ok { wrong = Some(n); }
                Ok(())
            });
            ensure!(r.is_ok() && wrong.is_none(), "inside", "{:?} {wrong:?}", r.map_err(|e| e.to_string()));
            let now = vars();
            cx.checked(3);
            ensure!(now == before, "environment", "afterwards {:?}, before {:?}", diff(&now, &before), diff(&before, &now));
            ensure_eq!(env::current_dir().ok(), Some(out.base.clone()), "directory", "afterwards");
            ensure!(tree(&out.jails).is_empty(), "left", "left behind");
            Ok(())
        }
    ));

    v.push(Scenario::new(
        "no-jail",
        "a jail that cannot be made (temporary directory absent, a file or closed; current directory gone): an error, \
         nothing run or changed, and others work afterwards",
        |cx| {
            let k = cx.pick(4);
            let before_op = cx.flag();
            let out = Outside::new(cx, 0, INITIAL[1]);
            if before_op { jail(cx, &out, &[Set("MC_X", "1")], 0, 0, false)?; }
            let tmpdir = env::var_os("TMPDIR").unwrap();
            match k {
                0 => env::set_var("TMPDIR", out.jails.join("absent")),
                1 => { fs::write(out.base.join("file"), "").unwrap(); env::set_var("TMPDIR", out.base.join("file")); }
                2 => env::set_var("TMPDIR", out.jails.join("x".repeat(4000))),
                _ => {
                    fs::create_dir(out.base.join("gone")).unwrap();
                    env::set_current_dir(out.base.join("gone")).unwrap();
                    fs::remove_dir(out.base.join("gone")).unwrap();
                }
            }
            cx.op(|| format!("no jail {k}"));
            cx.state(&k);
            let before = vars();
            let mut ran = false;
            let r = Jail::try_with(|_| { ran = true; Ok(()) });
            cx.checked(5);
            ensure!(r.is_err() && !ran, "made", "a jail");
            let p = catch_unwind(AssertUnwindSafe(|| Jail::expect_with(|_| Ok(()))));
            ensure!(p.is_err(), "made", "a jail");
            ensure!(vars() == before, "environment", "changed");
            if k < 3 { ensure_eq!(env::current_dir().ok(), Some(out.base.clone()), "directory", "changed"); }
            else { ensure!(env::current_dir().is_err(), "directory", "changed"); }
            ensure!(tree(&out.jails).is_empty(), "left", "left behind");
            env::set_var("TMPDIR", tmpdir);
            env::set_current_dir(&out.base).unwrap();
            let _ = fs::remove_file(out.base.join("file"));
            jail(cx, &out, &[Set("MC_X", "1"), Clear], 1, 0, false)
        }
    ));

    v
}
