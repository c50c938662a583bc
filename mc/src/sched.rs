//! Explores the interleavings of threads: real ones, of which one at a time
//! runs, from one scheduling point to the next. Which one is a choice; another
//! than the last one while that could go on is a deviation (a preemption).

use std::any::Any;
use std::cell::Cell;
use std::collections::HashMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Condvar, Mutex, MutexGuard, Once};
use std::time::{Duration, Instant};

use crate::engine::*;

#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum St { Running, Ready, Wants(usize), Stuck, Done }

struct Inner {
    st: Vec<St>,
    tids: Vec<i32>,
    what: Vec<&'static str>,
    turn: Option<usize>,
    owner: HashMap<usize, usize>,
    abort: bool,
    /// Of which execution the threads are: others are left alone.
    run: u64,
    panics: Vec<Option<Box<dyn Any + Send>>>,
}

struct Sched { inner: Mutex<Option<Inner>>, main: Condvar, threads: Condvar }

static SCHED: Sched = Sched { inner: Mutex::new(None), main: Condvar::new(), threads: Condvar::new() };

/// How many steps have been taken: a clock.
static CLOCK: AtomicU64 = AtomicU64::new(0);

pub fn now() -> u64 { CLOCK.load(Ordering::SeqCst) }

thread_local! { static ME: Cell<Option<(usize, u64)>> = const { Cell::new(None) } }

struct Aborted;

fn guard() -> MutexGuard<'static, Option<Inner>> {
    SCHED.inner.lock().unwrap_or_else(|e| e.into_inner())
}

impl Sched {
    /// Gives up the processor until it's the thread's turn again.
    fn yield_as(&self, st: St, what: &'static str) {
        let Some((me, run)) = ME.with(|m| m.get()) else { return };
        let mut g = guard();
        let live = |g: &Option<Inner>| matches!(g, Some(i) if i.run == run && !i.abort);
        if !live(&g) {
            drop(g);
            if !std::thread::panicking() { resume_unwind(Box::new(Aborted)); }
            return;
        }
        let i = g.as_mut().unwrap();
        i.st[me] = st;
        i.what[me] = what;
        self.main.notify_all();
        loop {
            if !live(&g) {
                drop(g);
                if !std::thread::panicking() { resume_unwind(Box::new(Aborted)); }
                return;
            }
            let i = g.as_mut().unwrap();
            if i.turn == Some(me) {
                i.turn = None;
                i.st[me] = St::Running;
                if let St::Wants(l) = st { i.owner.insert(l, me); }
                return;
            }
            g = self.threads.wait(g).unwrap_or_else(|e| e.into_inner());
        }
    }
}

/// A scheduling point of the harness.
pub fn point(what: &'static str) { SCHED.yield_as(St::Ready, what) }

#[cfg(figment_mc)]
impl figment::mc::Hook for Sched {
    fn point(&self, what: &'static str) { self.yield_as(St::Ready, what) }

    fn lock(&self, id: usize) { self.yield_as(St::Wants(id), "lock") }

    fn locked(&self, id: usize) {
        let Some((me, run)) = ME.with(|m| m.get()) else { return };
        if let Some(i) = guard().as_mut() { if i.run == run { i.owner.insert(id, me); } }
    }

    fn unlocked(&self, id: usize) {
        let Some((_, run)) = ME.with(|m| m.get()) else { return };
        if let Some(i) = guard().as_mut() { if i.run == run { i.owner.remove(&id); } }
    }
}

fn install() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        #[cfg(figment_mc)]
        assert!(figment::mc::install(&SCHED));
    });
}

/// Whether the code's own points are among the scheduling points.
pub fn hooked() -> bool { cfg!(figment_mc) }

fn asleep(tid: i32) -> bool {
    let Ok(s) = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")) else { return false };
    s.rsplit(") ").next().map_or(false, |s| s.starts_with('S'))
}

static STUCK: AtomicU64 = AtomicU64::new(0);

fn started() -> Instant {
    static START: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    *START.get_or_init(Instant::now)
}

pub type Task = Box<dyn FnOnce() + Send + 'static>;

/// Runs the tasks, interleaved in any one way. Returns their panics.
pub fn run(cx: &mut Cx, tasks: Vec<Task>) -> R<Vec<Option<Box<dyn Any + Send>>>> {
    install();
    // Threads that block where the scheduler doesn't know take time.
    if started().elapsed() > Duration::from_secs(240) && STUCK.load(Ordering::SeqCst) > 0 {
        return Err(Stop::Skip);
    }
    static RUN: AtomicU64 = AtomicU64::new(0);
    let run = RUN.fetch_add(1, Ordering::SeqCst);
    let n = tasks.len();
    *guard() = Some(Inner {
        st: vec![St::Running; n], tids: vec![0; n], what: vec!["start"; n], turn: None, owner: HashMap::new(),
        abort: false, run, panics: (0..n).map(|_| None).collect(),
    });

    // A diverging choice ends this by a panic.
    struct Abort;
    impl Drop for Abort {
        fn drop(&mut self) {
            if let Some(i) = guard().as_mut() { i.abort = true; }
            SCHED.threads.notify_all();
            // They end on their own, unless they block each other.
            for _ in 0..2000 {
                if guard().as_ref().map_or(true, |i| i.st.iter().all(|s| *s == St::Done)) { return; }
                std::thread::sleep(Duration::from_millis(1));
            }
        }
    }
    let abort = Abort;

    let handles: Vec<_> = tasks.into_iter().enumerate().map(|(k, f)| std::thread::spawn(move || {
        ME.with(|m| m.set(Some((k, run))));
        if let Some(i) = guard().as_mut() { i.tids[k] = unsafe { libc::gettid() }; }
        let r = catch_unwind(AssertUnwindSafe(|| {
            SCHED.yield_as(St::Ready, "start");
            f()
        }));
        ME.with(|m| m.set(None));
        if let Some(i) = guard().as_mut() {
            if i.run == run {
                i.st[k] = St::Done;
                if let Err(p) = r { if !p.is::<Aborted>() { i.panics[k] = Some(p); } }
            }
        }
        SCHED.main.notify_all();
    })).collect();

    let mut last: Option<usize> = None;
    let mut idle = 0;
    let mut taken = vec![0u32; n];
    loop {
        let g = quiet()?;
        let i = g.as_ref().unwrap();
        if i.st.iter().all(|s| *s == St::Done) { break; }
        let enabled: Vec<usize> = (0..n).filter(|k| match i.st[*k] {
            St::Ready => true,
            St::Wants(l) => !i.owner.contains_key(&l),
            _ => false,
        }).collect();
        if enabled.is_empty() && i.st.contains(&St::Stuck) && idle < 40 {
            // Perhaps they only sleep.
            idle += 1;
            drop(g);
            std::thread::sleep(Duration::from_millis(50));
            continue;
        }
        idle = 0;
        if enabled.is_empty() {
            let st: Vec<String> = (0..n).map(|k| format!("{:?} at {}", i.st[k], i.what[k])).collect();
            drop(g);
            return fail("deadlock", format!("no thread can go on: {}", st.join(", ")));
        }
        let steps: Vec<(St, &str)> = (0..n).map(|k| (i.st[k], i.what[k])).collect();
        drop(g);
        let key: Vec<_> = steps.iter().zip(&taken).map(|((s, w), n)| (matches!(s, St::Wants(_)), *s == St::Done, *w, *n)).collect();
        cx.state(&(&key, last));
        let next = match last {
            Some(l) if enabled.contains(&l) => {
                let mut order = vec![l];
                order.extend(enabled.iter().copied().filter(|k| *k != l));
                *cx.dev_of(&order)
            }
            _ => *cx.of(&enabled),
        };
        last = Some(next);
        taken[next] += 1;
        CLOCK.fetch_add(1, Ordering::SeqCst);
        cx.op(|| format!("thread {next}: {}", steps[next].1));
        let mut g = guard();
        g.as_mut().unwrap().turn = Some(next);
        // It runs from now on, even if it hasn't noticed.
        let i = g.as_mut().unwrap();
        if let St::Wants(l) = i.st[next] { i.owner.insert(l, next); }
        i.st[next] = St::Running;
        drop(g);
        SCHED.threads.notify_all();
    }

    let panics = std::mem::take(&mut guard().as_mut().unwrap().panics);
    std::mem::forget(abort);
    *guard() = None;
    for h in handles { let _ = h.join(); }
    Ok(panics)
}

/// Waits until no thread runs.
fn quiet() -> R<MutexGuard<'static, Option<Inner>>> {
    let mut g = guard();
    let mut slept = 0;
    let start = Instant::now();
    loop {
        // A thread that was blocked where we don't know may go on. It's not
        // asleep for us: we let go of the lock.
        let stuck: Vec<(usize, i32)> = {
            let i = g.as_ref().unwrap();
            (0..i.st.len()).filter(|k| i.st[*k] == St::Stuck).map(|k| (k, i.tids[k])).collect()
        };
        if !stuck.is_empty() {
            drop(g);
            let mut awake = vec![];
            for _ in 0..3 {
                std::thread::sleep(Duration::from_micros(100));
                awake.extend(stuck.iter().filter(|s| !asleep(s.1)).map(|s| s.0));
            }
            g = guard();
            let i = g.as_mut().unwrap();
            for k in awake { if i.st[k] == St::Stuck { i.st[k] = St::Running; } }
        }
        let i = g.as_mut().unwrap();
        let running: Vec<usize> = (0..i.st.len()).filter(|k| i.st[*k] == St::Running).collect();
        if running.is_empty() { return Ok(g); }
        if start.elapsed() > Duration::from_secs(40) {
            return fail("hangs", format!("threads {running:?} do not go on"));
        }
        let (h, timeout) = SCHED.main.wait_timeout(g, Duration::from_millis(2)).unwrap_or_else(|e| e.into_inner());
        g = h;
        if !timeout.timed_out() { slept = 0; continue; }
        let i = g.as_mut().unwrap();
        // Those that are to run have yet to wake up.
        if i.turn.is_some() { SCHED.threads.notify_all(); continue; }
        if running.iter().all(|k| i.tids[*k] != 0 && i.st[*k] == St::Running && asleep(i.tids[*k])) { slept += 1; } else { slept = 0; }
        if slept >= 10 {
            for k in running { i.st[k] = St::Stuck; }
            STUCK.fetch_add(1, Ordering::SeqCst);
            slept = 0;
        }
    }
}
