//! Stateless exhaustive exploration: a scenario is a closure that asks for
//! choices; the engine runs it once for every sequence of choices there is,
//! free (`pick`) or bounded in number (`dev`, deviations from a default).

use std::collections::HashSet;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier { Quick, Thorough }

impl Tier {
    pub fn sel<T>(self, quick: T, thorough: T) -> T {
        match self { Tier::Quick => quick, Tier::Thorough => thorough }
    }

    pub fn name(self) -> &'static str { self.sel("quick", "thorough") }
}

#[derive(Debug, Clone)]
pub enum Stop {
    /// This combination of choices is redundant or meaningless: not counted.
    Skip,
    /// The property is broken. `sig` identifies what fails.
    Fail { sig: String, msg: String },
}

pub type R<T = ()> = Result<T, Stop>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> R<T> {
    Err(Stop::Fail { sig: sig.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($fmt:tt)+) => {
        if !$cond { return $crate::engine::fail($sig, format!($($fmt)+)); }
    }
}

#[macro_export]
macro_rules! ensure_eq {
    ($got:expr, $want:expr, $sig:expr, $($fmt:tt)+) => {{
        let (got, want) = (&$got, &$want);
        if got != want {
            return $crate::engine::fail($sig,
                format!("{}: got {:?}, expected {:?}", format!($($fmt)+), got, want));
        }
    }}
}

#[derive(Clone, Copy, Debug)]
pub struct Pt { pub choice: u32, pub arity: u32 }

#[derive(Default)]
pub struct Stats {
    pub executions: u64,
    pub skipped: u64,
    pub transitions: u64,
    pub checks: u64,
    pub max_choices: usize,
    pub states: HashSet<u64>,
    pub outcomes: HashSet<u64>,
    pub samples: Vec<Vec<String>>,
    pub known: BTreeMap<String, (u64, String)>,
}

pub struct Cx<'a> {
    prefix: &'a [u32],
    pub trace: Vec<Pt>,
    devs: usize,
    pub bound: usize,
    pub log: Option<Vec<String>>,
    pub stats: &'a mut Stats,
    pub diverged: bool,
    pub journal: Option<*mut u32>,
}

pub const JOURNAL_CAP: usize = 4000;

impl<'a> Cx<'a> {
    pub fn new(prefix: &'a [u32], bound: usize, log: bool, stats: &'a mut Stats) -> Cx<'a> {
        Cx {
            prefix, trace: vec![], devs: 0, bound, stats,
            log: if log { Some(vec![]) } else { None },
            diverged: false, journal: None,
        }
    }

    fn decide(&mut self, arity: usize) -> usize {
        assert!(arity > 0, "harness: empty choice");
        let i = self.trace.len();
        let choice = match self.prefix.get(i) {
            Some(&c) => {
                if c as usize >= arity {
                    self.diverged = true;
                    std::panic::panic_any(Diverged);
                }
                c
            }
            None => 0,
        };

        self.trace.push(Pt { choice, arity: arity as u32 });
        if let Some(j) = self.journal {
            if i < JOURNAL_CAP {
                unsafe {
                    std::ptr::write_volatile(j.add(1 + i), choice);
                    std::ptr::write_volatile(j, (i + 1) as u32);
                }
            }
        }

        choice as usize
    }

    /// One of `0..n`: all are explored.
    pub fn pick(&mut self, n: usize) -> usize { self.decide(n) }

    pub fn flag(&mut self) -> bool { self.decide(2) == 1 }

    pub fn of<'x, T>(&mut self, items: &'x [T]) -> &'x T {
        let i = self.pick(items.len());
        &items[i]
    }

    /// One of `0..n`: `0` is the default, others cost one deviation each.
    pub fn dev(&mut self, n: usize) -> usize {
        let n = if self.devs >= self.bound { 1 } else { n };
        let c = self.decide(n);
        if c > 0 { self.devs += 1; }
        c
    }

    pub fn dev_of<'x, T>(&mut self, items: &'x [T]) -> &'x T {
        let i = self.dev(items.len());
        &items[i]
    }

    /// Records a step taken on the implementation and the model.
    pub fn op(&mut self, text: impl FnOnce() -> String) {
        self.stats.transitions += 1;
        if let Some(log) = &mut self.log { log.push(text()); }
    }

    pub fn note(&mut self, text: impl FnOnce() -> String) {
        if let Some(log) = &mut self.log { log.push(text()); }
    }

    pub fn state<T: Hash + ?Sized>(&mut self, state: &T) {
        // Beyond that they are no longer counted (but still checked).
        if self.stats.states.len() < 3_000_000 { self.stats.states.insert(hash(state)); }
    }

    pub fn outcome<T: Hash + ?Sized>(&mut self, outcome: &T) {
        let h = hash(outcome);
        if self.stats.outcomes.len() < 1_000_000 { self.stats.outcomes.insert(h); }
    }

    /// A failure that does not end the execution if it is a known one.
    pub fn soft(&mut self, sig: &str, msg: impl FnOnce() -> String) -> R {
        if !KNOWN.get().map_or(false, |k| k.contains(sig)) { return fail(sig, msg()); }
        match self.stats.known.get_mut(sig) {
            Some(e) => e.0 += 1,
            None => { self.stats.known.insert(sig.to_string(), (1, msg())); }
        }
        Ok(())
    }

    pub fn checked(&mut self, n: u64) { self.stats.checks += n; }
}

pub struct Diverged;

/// The signatures of known findings.
pub static KNOWN: std::sync::OnceLock<HashSet<String>> = std::sync::OnceLock::new();

pub fn hash<T: Hash + ?Sized>(v: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

pub type Body = Box<dyn Fn(&mut Cx) -> R>;

pub struct Scenario {
    pub name: &'static str,
    /// What is enumerated, in words, for the evidence.
    pub what: String,
    pub dev_bound: usize,
    pub body: Body,
    /// Depends on threads managed by the scheduler.
    pub tasks: usize,
    /// Run by one worker only.
    pub serial: bool,
    /// Of threads: where they block unknown to the scheduler, an execution
    /// may not be repeatable.
    pub threads: bool,
}

impl Scenario {
    pub fn new(
        name: &'static str,
        what: impl Into<String>,
        body: impl Fn(&mut Cx) -> R + 'static
    ) -> Scenario {
        Scenario {
            name, what: what.into(), dev_bound: 0, body: Box::new(body), tasks: 512, serial: false,
            threads: false,
        }
    }

    pub fn devs(mut self, n: usize) -> Self { self.dev_bound = n; self }

    #[allow(dead_code)]
    pub fn tasks(mut self, n: usize) -> Self { self.tasks = n; self }

    pub fn threads(mut self) -> Self { self.threads = true; self }

    #[allow(dead_code)]
    pub fn serial(mut self) -> Self { self.serial = true; self }
}

#[derive(Debug)]
pub enum Outcome {
    Ok,
    Skipped,
    Fail { sig: String, msg: String },
    Diverged,
}

thread_local! {
    pub static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("MC_TRACE").is_some() {
            eprintln!("panic: {msg} at {loc}");
        }
        let _ = PANIC.try_with(|p| *p.borrow_mut() = format!("{msg} (at {loc})"));
    }));
}

pub fn last_panic() -> String { PANIC.with(|p| p.borrow().clone()) }

/// Runs the scenario once with the given choices, `0` after those.
pub fn run_once(s: &Scenario, cx: &mut Cx) -> Outcome {
    let body = &s.body;
    let result = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| body(cx)));
    match result {
        Ok(Ok(())) => {
            if cx.trace.len() < cx.prefix.len() { return Outcome::Diverged; }
            Outcome::Ok
        }
        Ok(Err(Stop::Skip)) => {
            if cx.trace.len() < cx.prefix.len() { return Outcome::Diverged; }
            Outcome::Skipped
        }
        Ok(Err(Stop::Fail { sig, msg })) => Outcome::Fail { sig, msg },
        Err(e) if e.is::<Diverged>() || cx.diverged => Outcome::Diverged,
        Err(_) => {
            let msg = last_panic();
            Outcome::Fail { sig: "panic".into(), msg: format!("panicked: {msg}") }
        }
    }
}

/// The next sequence of choices after `trace`, keeping its first `fixed`.
pub fn next(trace: &[Pt], fixed: usize) -> Option<Vec<u32>> {
    let mut i = trace.len();
    while i > fixed {
        i -= 1;
        if trace[i].choice + 1 < trace[i].arity {
            let mut p: Vec<u32> = trace[..i].iter().map(|p| p.choice).collect();
            p.push(trace[i].choice + 1);
            return Some(p);
        }
    }

    None
}
