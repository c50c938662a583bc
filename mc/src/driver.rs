//! Runs the scenarios of a property in worker processes, confirms what they
//! report by replaying it in fresh processes, and writes the evidence.

use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU32, Ordering};
use std::time::{Duration, Instant};

use serde_json::{json, Value as J};

use crate::engine::*;

pub struct Property {
    pub id: &'static str,
    pub scenarios: fn(Tier) -> Vec<Scenario>,
    pub assumptions: &'static [&'static str],
    /// Run as this unprivileged user, in a scratch directory.
    pub unprivileged: bool,
}

const WORKERS: usize = 8;
const MAX_SCEN: usize = 64;
const HEAD: usize = 128;
const REGION: usize = JOURNAL_CAP + 16;
const WORDS: usize = HEAD + WORKERS * REGION;

struct Shm { ptr: *mut u32 }

impl Shm {
    fn open(path: &Path) -> Shm {
        let file = fs::OpenOptions::new().read(true).write(true).create(true).truncate(false)
            .open(path).expect("shm");
        file.set_len((WORDS * 4) as u64).expect("shm size");
        use std::os::fd::AsRawFd;
        let ptr = unsafe {
            libc::mmap(std::ptr::null_mut(), WORDS * 4, libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED, file.as_raw_fd(), 0)
        };
        assert!(ptr != libc::MAP_FAILED, "mmap");
        Shm { ptr: ptr as *mut u32 }
    }

    fn at(&self, i: usize) -> &AtomicU32 {
        unsafe { &*(self.ptr.add(i) as *const AtomicU32) }
    }

    fn stop(&self) -> &AtomicU32 { self.at(0) }
    fn claim(&self, scen: usize) -> usize {
        self.at(16 + scen).fetch_add(1, Ordering::SeqCst) as usize
    }

    // Region of a worker: [scenario, executions, len, choices..]
    fn region(&self, w: usize) -> usize { HEAD + w * REGION }

    fn journal(&self, w: usize) -> *mut u32 {
        unsafe { self.ptr.add(self.region(w) + 2) }
    }

    fn case(&self, w: usize) -> (usize, u32, Vec<u32>) {
        let r = self.region(w);
        let n = self.at(r + 2).load(Ordering::SeqCst) as usize;
        let choices = (0..n.min(JOURNAL_CAP))
            .map(|i| self.at(r + 3 + i).load(Ordering::SeqCst)).collect();
        (self.at(r).load(Ordering::SeqCst) as usize, self.at(r + 1).load(Ordering::SeqCst), choices)
    }
}

fn root() -> PathBuf { PathBuf::from(std::env::var("MC_ROOT").unwrap_or("/verif".into())) }

fn known(id: &str) -> Vec<(String, String)> {
    // Lines: `finding: property=<id> sig=<signature> :: <what fails>`.
    let text = fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    text.lines().filter_map(|l| {
        let rest = l.strip_prefix("finding: ")?;
        let rest = rest.strip_prefix(&format!("property={id} "))?;
        let (sig, what) = rest.strip_prefix("sig=")?.split_once(" :: ")?;
        Some((sig.to_string(), what.to_string()))
    }).collect()
}

/// Expands the tree of choices, level by level, into at least `target` tasks.
fn expand(s: &Scenario, target: usize, journal: *mut u32) -> Vec<Vec<u32>> {
    let (mut open, mut leaves): (Vec<Vec<u32>>, Vec<Vec<u32>>) = (vec![vec![]], vec![]);
    let mut stats = Stats::default();
    while !open.is_empty() && open.len() + leaves.len() < target {
        let mut next = vec![];
        for p in open.drain(..) {
            let mut cx = Cx::new(&p, s.dev_bound, false, &mut stats);
            cx.journal = Some(journal);
            run_once(s, &mut cx);
            if cx.trace.len() <= p.len() {
                leaves.push(p.clone());
            } else {
                let arity = cx.trace[p.len()].arity;
                for c in 0..arity {
                    let mut q = p.clone();
                    q.push(c);
                    next.push(q);
                }
            }
        }
        open = next;
    }

    open.extend(leaves);
    open
}

struct Found { scen: usize, choices: Vec<u32>, sig: String, msg: String, log: Vec<String> }

fn rerun_logged(s: &Scenario, choices: &[u32]) -> (Outcome, Vec<String>, Vec<Pt>) {
    let mut stats = Stats::default();
    let mut cx = Cx::new(choices, s.dev_bound, true, &mut stats);
    let out = run_once(s, &mut cx);
    let log = cx.log.take().unwrap_or_default();
    let trace = cx.trace.clone();
    (out, log, trace)
}

fn worker(p: &Property, tier: Tier, part: usize, dir: &Path, only: Option<&str>) {
    install_panic_hook();
    let shm = Shm::open(&dir.join("shm"));
    let scens = (p.scenarios)(tier);
    assert!(scens.len() <= MAX_SCEN);
    let known = known(p.id);
    let _ = KNOWN.set(known.iter().map(|(k, _)| k.clone()).collect());
    let mut per: Vec<J> = vec![];
    let mut found: Option<(Found, Vec<(usize, Vec<u32>)>)> = None;
    let mut history: Vec<(usize, Vec<u32>)> = vec![];
    let r = shm.region(part);

    'scen: for (si, s) in scens.iter().enumerate() {
        if only.map_or(false, |o| o != s.name) { continue; }
        if s.serial && part != si % WORKERS { continue; }
        shm.at(r).store(si as u32, Ordering::SeqCst);
        let start = Instant::now();
        let mut stats = Stats::default();
        let tasks = if s.serial { vec![vec![]] } else { expand(s, s.tasks, shm.journal(part)) };
        loop {
            let t = shm.claim(si);
            if t >= tasks.len() { break; }
            let fixed = tasks[t].len();
            history.push((si, tasks[t].clone()));
            let mut prefix = Some(tasks[t].clone());
            while let Some(pre) = prefix {
                if shm.stop().load(Ordering::Relaxed) != 0 { break 'scen; }
                shm.at(r + 2).store(0, Ordering::SeqCst);
                shm.at(r + 1).fetch_add(1, Ordering::SeqCst);
                let mut cx = Cx::new(&pre, s.dev_bound, false, &mut stats);
                cx.journal = Some(shm.journal(part));
                let out = run_once(s, &mut cx);
                let trace = cx.trace.clone();
                let choices: Vec<u32> = trace.iter().map(|p| p.choice).collect();
                stats.max_choices = stats.max_choices.max(trace.len());
                match out {
                    Outcome::Ok => stats.executions += 1,
                    Outcome::Skipped => stats.skipped += 1,
                    Outcome::Diverged if s.threads => {
                        stats.skipped += 1;
                        prefix = next(&trace, fixed.min(trace.len()));
                        continue;
                    }
                    Outcome::Diverged => {
                        eprintln!("harness: diverged: {} {:?}", s.name, pre);
                        std::process::exit(3);
                    }
                    Outcome::Fail { sig, msg } => {
                        stats.executions += 1;
                        if known.iter().any(|(k, _)| *k == sig) {
                            let e = stats.known.entry(sig).or_insert((0, msg));
                            e.0 += 1;
                        } else {
                            let (_, log, _) = rerun_logged(s, &choices);
                            found = Some((
                                Found { scen: si, choices, sig, msg, log }, history.clone()
                            ));
                            shm.stop().store(1, Ordering::SeqCst);
                            break 'scen;
                        }
                    }
                }

                prefix = next(&trace, fixed);
            }

            if t % 97 == 5 && stats.samples.len() < 3 {
                let (_, log, _) = rerun_logged(s, &tasks[t]);
                if !log.is_empty() { stats.samples.push(log); }
            }
        }

        let path = dir.join(format!("states.{part}.{si}"));
        let bytes: Vec<u8> = stats.states.iter().flat_map(|h| h.to_le_bytes()).collect();
        fs::write(path, bytes).expect("states");
        let path = dir.join(format!("outcomes.{part}.{si}"));
        let bytes: Vec<u8> = stats.outcomes.iter().flat_map(|h| h.to_le_bytes()).collect();
        fs::write(path, bytes).expect("outcomes");
        per.push(json!({
            "scen": si, "executions": stats.executions, "skipped": stats.skipped,
            "transitions": stats.transitions, "checks": stats.checks,
            "max_choices": stats.max_choices, "samples": stats.samples,
            "known": stats.known, "tasks": tasks.len(), "secs": start.elapsed().as_secs_f64(),
        }));
    }

    let found = found.map(|(f, h)| json!({
        "scen": f.scen, "choices": f.choices, "sig": f.sig, "msg": f.msg, "log": f.log,
        "history": h,
    }));

    fs::write(dir.join(format!("out.{part}")), json!({"per": per, "found": found}).to_string())
        .expect("worker output");
}

/// Runs one case, or the tasks of a history up to the first failure.
fn single(p: &Property, tier: Tier, scen: usize, choices: Vec<u32>, history: Option<J>) -> ! {
    install_panic_hook();
    let scens = (p.scenarios)(tier);
    let known = known(p.id);
    let _ = KNOWN.set(known.iter().map(|(k, _)| k.clone()).collect());
    let report = |sig: String, msg: String| -> ! {
        println!("\n{}", json!({"sig": sig, "msg": clip(&msg)}));
        std::process::exit(10)
    };

    if let Some(J::Array(tasks)) = history {
        for t in tasks {
            let si = t[0].as_u64().unwrap() as usize;
            let task: Vec<u32> = serde_json::from_value(t[1].clone()).unwrap();
            let s = &scens[si];
            let mut stats = Stats::default();
            let fixed = task.len();
            let mut prefix = Some(task);
            while let Some(pre) = prefix {
                let mut cx = Cx::new(&pre, s.dev_bound, false, &mut stats);
                let out = run_once(s, &mut cx);
                let trace = cx.trace.clone();
                if let Outcome::Fail { sig, msg } = out {
                    if !known.iter().any(|(k, _)| *k == sig) { report(sig, msg) }
                }
                prefix = next(&trace, fixed);
            }
        }

        std::process::exit(0);
    }

    let (out, log, _) = rerun_logged(&scens[scen], &choices);
    if std::env::var_os("MC_LOG").is_some() {
        println!("scenario {}: choices {:?}", scens[scen].name, choices);
        for l in log { println!("  {l}"); }
    }

    match out {
        Outcome::Fail { sig, msg } => report(sig, msg),
        Outcome::Diverged => std::process::exit(3),
        _ => std::process::exit(0),
    }
}

const NOBODY: u32 = 65534;

fn spawn(p: &Property, args: &[String], dir: &Path, output: &Path) -> Child {
    static SPAWNED: AtomicU32 = AtomicU32::new(0);
    let mut exe = std::env::current_exe().expect("exe");
    if p.unprivileged {
        // Where that user can reach it.
        let copy = dir.join("mc");
        if !copy.exists() {
            fs::copy(&exe, &copy).expect("copy");
            use std::os::unix::fs::PermissionsExt;
            fs::set_permissions(&copy, fs::Permissions::from_mode(0o755)).expect("chmod");
        }
        exe = copy;
    }
    let mut cmd = Command::new(exe);
    let scratch = dir.join("scratch").join(SPAWNED.fetch_add(1, Ordering::SeqCst).to_string());
    fs::create_dir_all(&scratch).expect("scratch");
    if p.unprivileged { open_up(&scratch); }
    // A file, so that any amount of output can be written without being read.
    let out = fs::File::create(&output).expect("output file");
    cmd.args(args).stdout(Stdio::from(out)).env("TMPDIR", &scratch).env("MC_SCRATCH", &scratch);
    cmd.current_dir(&scratch);
    cmd.env("RUST_BACKTRACE", "0");
    if p.unprivileged {
        use std::os::unix::process::CommandExt;
        cmd.uid(NOBODY).gid(NOBODY);
    }
    cmd.spawn().expect("spawn worker")
}

fn wait(child: &mut Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let start = Instant::now();
    loop {
        if let Some(s) = child.try_wait().expect("wait") { return Some(s); }
        if start.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

fn clip(s: &str) -> String {
    let n = s.chars().count();
    if n <= 2000 { return s.into(); }
    format!("{} … ({n} characters)", s.chars().take(2000).collect::<String>())
}

#[derive(Debug)]
enum Replay { Fails(String, String), Dies(String), Hangs, Passes, Error }

fn replay(
    p: &Property, tier: Tier, dir: &Path, scen: usize, choices: &[u32], history: Option<&J>
) -> Replay {
    let case = dir.join("case.json");
    fs::write(&case, json!({"choices": choices, "history": history}).to_string()).unwrap();
    let args: Vec<String> = ["single", p.id, tier.name(), &scen.to_string(), case.to_str().unwrap()]
        .iter().map(|s| s.to_string()).collect();
    let output = dir.join("single.out");
    let mut child = spawn(p, &args, dir, &output);
    let limit = if history.is_some() { 240 } else { 60 };
    match wait(&mut child, Duration::from_secs(limit)) {
        None => Replay::Hangs,
        Some(s) if s.code() == Some(0) => Replay::Passes,
        Some(s) if s.code() == Some(10) => {
            let out = fs::read(&output).unwrap_or_default();
            let out = String::from_utf8_lossy(&out);
            let line = out.lines().last().unwrap_or("").to_string();
            match serde_json::from_str::<J>(&line) {
                Ok(j) => Replay::Fails(
                    j["sig"].as_str().unwrap_or("").into(), j["msg"].as_str().unwrap_or("").into()
                ),
                Err(_) => Replay::Error,
            }
        }
        Some(s) => {
            use std::os::unix::process::ExitStatusExt;
            match s.signal() {
                Some(sig) => Replay::Dies(format!("killed by signal {sig}")),
                None => Replay::Error,
            }
        }
    }
}

fn check(p: &Property, tier: Tier, only: Option<&str>) -> i32 {
    let start = Instant::now();
    let root = root();
    let dir = work().join(format!("{}-{}-{}", p.id, tier.name(), std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(dir.join("scratch")).expect("work dir");
    if p.unprivileged { open_up(&dir); }
    let code = check_in(p, tier, only, &root, &dir, start);
    let _ = fs::remove_dir_all(&dir);
    code
}

/// Where to work: in memory if possible, which is far faster.
fn work() -> PathBuf {
    if let Some(d) = std::env::var_os("MC_WORK") { return d.into(); }
    let usable = |d: &Path| {
        let probe = d.join(format!("probe-{}", std::process::id()));
        let ok = fs::create_dir_all(d).is_ok() && fs::copy("/bin/true", &probe).is_ok()
            && Command::new(&probe).status().map_or(false, |s| s.success());
        let _ = fs::remove_file(&probe);
        ok
    };
    let shm = Path::new("/dev/shm/figment-mc");
    if usable(shm) { shm.to_path_buf() } else { std::env::temp_dir().join("figment-mc") }
}

fn open_up(dir: &Path) {
    use std::os::unix::fs::PermissionsExt;
    for d in [dir.to_path_buf(), dir.join("scratch")] {
        if !d.exists() { continue; }
        fs::set_permissions(&d, fs::Permissions::from_mode(0o777)).expect("chmod");
    }
}

fn check_in(
    p: &Property, tier: Tier, only: Option<&str>, root: &Path, dir: &Path, start: Instant
) -> i32 {
    let scens = (p.scenarios)(tier);
    let shm = Shm::open(&dir.join("shm"));
    if p.unprivileged {
        use std::os::unix::fs::PermissionsExt;
        fs::set_permissions(dir.join("shm"), fs::Permissions::from_mode(0o666)).unwrap();
    }

    let mut children: Vec<Option<Child>> = (0..WORKERS).map(|w| {
        let mut args: Vec<String> = vec![
            "worker".into(), p.id.into(), tier.name().into(), w.to_string(),
            dir.to_str().unwrap().into()
        ];
        args.extend(only.map(|s| s.to_string()));
        Some(spawn(p, &args, dir, &dir.join(format!("stdout.{w}"))))
    }).collect();

    // Wait for all, watching for those that die or stop making progress.
    let mut suspects: Vec<(usize, Vec<u32>, String)> = vec![];
    let mut error = None;
    let mut seen: Vec<(u32, Instant)> = vec![(0, Instant::now()); WORKERS];
    while children.iter().any(|c| c.is_some()) {
        std::thread::sleep(Duration::from_millis(10));
        for w in 0..WORKERS {
            let Some(c) = &mut children[w] else { continue };
            if let Some(status) = c.try_wait().expect("wait") {
                children[w] = None;
                if !status.success() {
                    let (scen, _, choices) = shm.case(w);
                    use std::os::unix::process::ExitStatusExt;
                    if status.signal().is_some() {
                        suspects.push((scen, choices, format!("died: {status}")));
                        shm.stop().store(1, Ordering::SeqCst);
                    } else {
                        error = Some(format!("worker {w} failed: {status} in {}", scens[scen].name));
                        shm.stop().store(1, Ordering::SeqCst);
                    }
                }
                continue;
            }

            let (scen, n, choices) = shm.case(w);
            if n != seen[w].0 {
                seen[w] = (n, Instant::now());
            } else if seen[w].1.elapsed() > Duration::from_secs(60) {
                let _ = c.kill();
                let _ = c.wait();
                children[w] = None;
                suspects.push((scen, choices, "no progress for 60 s".into()));
                shm.stop().store(1, Ordering::SeqCst);
            }
        }
    }

    // Collect.
    let mut found: Vec<J> = vec![];
    let mut rows: Vec<Row> = scens.iter().map(|_| Row::default()).collect();
    for w in 0..WORKERS {
        let Ok(text) = fs::read_to_string(dir.join(format!("out.{w}"))) else { continue };
        let out: J = serde_json::from_str(&text).expect("worker output");
        if !out["found"].is_null() { found.push(out["found"].clone()); }
        for s in out["per"].as_array().unwrap() {
            let si = s["scen"].as_u64().unwrap() as usize;
            let row = &mut rows[si];
            row.executions += s["executions"].as_u64().unwrap();
            row.skipped += s["skipped"].as_u64().unwrap();
            row.transitions += s["transitions"].as_u64().unwrap();
            row.checks += s["checks"].as_u64().unwrap();
            row.tasks = s["tasks"].as_u64().unwrap();
            row.max_choices = row.max_choices.max(s["max_choices"].as_u64().unwrap());
            row.secs = row.secs.max(s["secs"].as_f64().unwrap());
            row.samples.extend(s["samples"].as_array().unwrap().iter().cloned());
            for (k, v) in s["known"].as_object().unwrap() {
                let e = row.known.entry(k.clone()).or_insert((0, v[1].as_str().unwrap().into()));
                e.0 += v[0].as_u64().unwrap();
            }
            for (file, set) in [("states", &mut row.states), ("outcomes", &mut row.outcomes)] {
                let bytes = fs::read(dir.join(format!("{file}.{w}.{si}"))).unwrap_or_default();
                for c in bytes.chunks_exact(8) {
                    set.insert(u64::from_le_bytes(c.try_into().unwrap()));
                }
            }
        }
    }

    // Confirm what was found in fresh processes.
    let mut violations: Vec<J> = vec![];
    for f in &found {
        // One that replays is enough, and they may be slow to.
        if !violations.is_empty() && start.elapsed() > Duration::from_secs(300) { break }
        let scen = f["scen"].as_u64().unwrap() as usize;
        let choices: Vec<u32> = serde_json::from_value(f["choices"].clone()).unwrap();
        let mut confirmed = None;
        for _ in 0..3 {
            match replay(p, tier, dir, scen, &choices, None) {
                Replay::Fails(sig, msg) => { confirmed = Some((sig, msg, "alone")); break }
                Replay::Dies(s) => { confirmed = Some(("dies".into(), s, "alone")); break }
                Replay::Hangs => { confirmed = Some(("hangs".into(), "hangs".into(), "alone")); break }
                Replay::Passes | Replay::Error => {}
            }
        }

        if confirmed.is_none() {
            if let Replay::Fails(sig, msg) = replay(p, tier, dir, scen, &choices, Some(&f["history"])) {
                confirmed = Some((sig, msg, "after the executions before it"));
            }
        }

        match confirmed {
            Some((sig, msg, how)) => violations.push(json!({
                "property": p.id, "tier": tier.name(), "scenario": scens[scen].name, "scen": scen,
                "choices": choices, "sig": sig, "msg": msg, "log": f["log"], "replays": how,
                "history": if how == "alone" { J::Null } else { f["history"].clone() },
            })),
            None => error = Some(format!(
                "a failure did not replay: {} {:?}: {} {}",
                scens[scen].name, choices, f["sig"], f["msg"]
            )),
        }
    }

    for (scen, choices, why) in &suspects {
        if !violations.is_empty() { break }
        let (sig, msg) = match replay(p, tier, dir, *scen, choices, None) {
            Replay::Fails(sig, msg) => (sig, msg),
            Replay::Dies(s) => ("dies".to_string(), format!("process {s}")),
            Replay::Hangs => ("hangs".to_string(), "does not terminate".to_string()),
            Replay::Passes | Replay::Error => {
                error = Some(format!("{why}, but not when replayed: {} {:?}", scens[*scen].name, choices));
                continue;
            }
        };

        violations.push(json!({
            "property": p.id, "tier": tier.name(), "scenario": scens[*scen].name, "scen": scen,
            "choices": choices, "sig": sig, "msg": msg, "log": [], "replays": "alone",
        }));
    }

    violations.sort_by_key(|v| v["choices"].as_array().map_or(0, |a| a.len()));

    // Evidence.
    let known = known(p.id);
    let mut known_hits: BTreeMap<String, (u64, String)> = BTreeMap::new();
    for r in &rows {
        for (k, v) in &r.known {
            let e = known_hits.entry(k.clone()).or_insert((0, v.1.clone()));
            e.0 += v.0;
        }
    }

    let complete = error.is_none() && suspects.is_empty() && violations.is_empty() && only.is_none();
    let sum = |f: fn(&Row) -> u64| rows.iter().map(f).sum::<u64>();
    let mut samples: Vec<J> = vec![];
    for (r, s) in rows.iter().zip(&scens) {
        for smp in r.samples.iter().take(2) {
            samples.push(json!({"scenario": s.name, "trace": smp}));
        }
    }

    samples.truncate(24);
    let per: Vec<J> = rows.iter().zip(&scens).map(|(r, s)| json!({
        "scenario": s.name, "enumerates": s.what, "executions": r.executions,
        "skipped_as_redundant": r.skipped, "states": r.states.len(),
        "transitions": r.transitions, "distinct_outcomes": r.outcomes.len(),
        "oracle_comparisons": r.checks, "longest_choice_sequence": r.max_choices,
        "deviation_bound": if s.dev_bound > 0 { json!(s.dev_bound) } else { J::Null },
        "subtrees": r.tasks, "wall_s": r.secs,
    })).collect();

    let evidence = json!({
        "property": p.id, "tier": tier.name(),
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
        "level": "model_checking",
        "coverage": {
            "states": sum(|r| r.states.len() as u64),
            "transitions": sum(|r| r.transitions),
            "traces_validated_against_impl": sum(|r| r.executions),
            "oracle_comparisons": sum(|r| r.checks),
            "samples": samples,
            "exhaustive": complete,
            "scenarios": per,
            "known_findings_seen": known_hits.iter()
                .map(|(k, v)| json!({"sig": k, "times": v.0, "example": v.1})).collect::<Vec<_>>(),
        },
        "assumptions": p.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });

    fs::create_dir_all(root.join("evidence")).expect("evidence dir");
    let path = root.join("evidence").join(format!("{}.json", p.id));
    fs::write(&path, serde_json::to_string_pretty(&evidence).unwrap()).expect("evidence");

    for (r, s) in rows.iter().zip(&scens) {
        if only.map_or(false, |o| o != s.name) { continue; }
        println!(
            "{} {}: {} executions ({} skipped), {} states, {} transitions, {} outcomes, {:.1} s",
            p.id, s.name, r.executions, r.skipped, r.states.len(), r.transitions,
            r.outcomes.len(), r.secs
        );
    }

    for (k, _) in &known_hits {
        let what = known.iter().find(|(s, _)| s == k).map(|(_, w)| w.as_str()).unwrap_or("");
        println!("KNOWN-FINDING: property={} {} :: {}", p.id, k, what);
    }

    if let Some(v) = violations.first() {
        let replays = root.join("replays");
        fs::create_dir_all(&replays).expect("replays dir");
        let path = replays.join(format!("{}-{}.json", p.id, v["scenario"].as_str().unwrap()));
        fs::write(&path, serde_json::to_string_pretty(v).unwrap()).expect("replay");
        println!("{}: {}", v["scenario"].as_str().unwrap(), clip(v["msg"].as_str().unwrap()));
        for l in v["log"].as_array().into_iter().flatten() {
            println!("    {}", clip(l.as_str().unwrap_or("")));
        }
        println!("VIOLATION property={} replay={}", p.id, path.display());
        if let Some(e) = error { println!("also: {e}"); }
        return 1;
    }

    if let Some(e) = error {
        eprintln!("ERROR: {e}");
        return 3;
    }

    // Vacuity: a scenario that explored nothing is an error of the check.
    for (r, s) in rows.iter().zip(&scens) {
        if only.is_none() && r.executions == 0 && !(s.threads && r.skipped > 0) {
            eprintln!("ERROR: scenario {} explored nothing", s.name);
            return 3;
        }
    }

    println!("{} held: {:.1} s", p.id, start.elapsed().as_secs_f64());
    0
}

#[derive(Default)]
struct Row {
    executions: u64, skipped: u64, transitions: u64, checks: u64, tasks: u64, max_choices: u64,
    secs: f64, samples: Vec<J>, known: BTreeMap<String, (u64, String)>,
    states: HashSet<u64>, outcomes: HashSet<u64>,
}

fn tier_of(s: &str) -> Tier {
    match s { "thorough" => Tier::Thorough, _ => Tier::Quick }
}

pub fn main(props: &[Property]) {
    let args: Vec<String> = std::env::args().collect();
    let find = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    });

    let on_big_stack = |f: Box<dyn FnOnce() + Send>| {
        std::thread::Builder::new().stack_size(256 << 20).spawn(f).unwrap().join()
            .unwrap_or_else(|_| {
                eprintln!("harness panicked: {}", "see above");
                std::process::exit(3)
            });
    };

    match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let p = find(&args[2]);
            let code = check(p, tier_of(&args[3]), args.get(4).map(|s| s.as_str()));
            std::io::stdout().flush().unwrap();
            std::process::exit(code);
        }
        Some("worker") => {
            let p: Property = find(&args[2]).clone();
            on_big_stack(Box::new(move || {
                worker(&p, tier_of(&args[3]), args[4].parse().unwrap(), Path::new(&args[5]),
                    args.get(6).map(|s| s.as_str()));
            }));
        }
        Some("single") => {
            let p: Property = find(&args[2]).clone();
            on_big_stack(Box::new(move || {
                let j: J = serde_json::from_str(&fs::read_to_string(&args[5]).unwrap()).unwrap();
                let choices = serde_json::from_value(j["choices"].clone()).unwrap();
                let h = Some(j["history"].clone()).filter(|h| !h.is_null());
                single(&p, tier_of(&args[3]), args[4].parse().unwrap(), choices, h);
            }));
        }
        Some("replay") => {
            let j: J = serde_json::from_str(&fs::read_to_string(&args[2]).unwrap()).unwrap();
            let p = find(j["property"].as_str().unwrap());
            let dir = work().join(format!("mc-replay-{}", std::process::id()));
            fs::create_dir_all(dir.join("scratch")).unwrap();
            if p.unprivileged { open_up(&dir); }
            let choices: Vec<u32> = serde_json::from_value(j["choices"].clone()).unwrap();
            for l in j["log"].as_array().into_iter().flatten() {
                println!("    {}", clip(l.as_str().unwrap_or("")));
            }
            let h = Some(j["history"].clone()).filter(|h| !h.is_null());
            let r = replay(p, tier_of(j["tier"].as_str().unwrap()), &dir,
                j["scen"].as_u64().unwrap() as usize, &choices, h.as_ref());
            println!("{r:?}");
            let _ = fs::remove_dir_all(&dir);
            std::process::exit(if matches!(r, Replay::Passes) { 0 } else { 1 });
        }
        Some("list") => for p in props { println!("{}", p.id); }
        _ => { eprintln!("usage: mc check|replay .."); std::process::exit(2) }
    }
}

impl Clone for Property {
    fn clone(&self) -> Self {
        Property {
            id: self.id, scenarios: self.scenarios, assumptions: self.assumptions,
            unprivileged: self.unprivileged,
        }
    }
}
