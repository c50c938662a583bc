//! File sources over directory trees: which file is read, when its absence is
//! an error, and which file is reported.

use std::cell::{Cell, RefCell};
use std::fs;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::{symlink, MetadataExt, PermissionsExt};
use std::path::{Path, PathBuf};

use figment::providers::{Data, Format, Json, Toml, Yaml, YamlExtended};
use figment::{Figment, Profile, Provider, Source};

use crate::engine::*;
use crate::model::*;
use crate::{ensure, ensure_eq};

/// A fresh directory, removed in the end.
pub struct Tmp(pub PathBuf);

impl Tmp {
    pub fn new() -> Tmp {
        thread_local! { static N: Cell<u32> = const { Cell::new(0) } }
        let scratch = std::env::var_os("MC_SCRATCH").expect("scratch");
        let n = N.with(|n| { n.set(n.get() + 1); n.get() });
        let d = fs::canonicalize(scratch).unwrap().join(format!("d{n}"));
        let _ = fs::remove_dir_all(&d);
        fs::create_dir(&d).unwrap();
        Tmp(d)
    }
}

impl Drop for Tmp {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir(std::env::var_os("MC_SCRATCH").unwrap());
        if fs::remove_dir_all(&self.0).is_err() {
            // Directories that are closed.
            fn open(d: &Path) {
                let _ = fs::set_permissions(d, fs::Permissions::from_mode(0o700));
                for e in fs::read_dir(d).into_iter().flatten().flatten() {
                    if e.file_type().map_or(false, |t| t.is_dir()) { open(&e.path()); }
                }
            }
            open(&self.0);
            let _ = fs::remove_dir_all(&self.0);
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Kind { Absent, Good, Malformed, Dir, Link, Dangling, Fifo, NotUtf8, Closed, Empty, LinkDir, Loop }

use Kind::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Fmt { Toml, Json, Yaml, Ext }

const FMTS: [Fmt; 4] = [Fmt::Toml, Fmt::Json, Fmt::Yaml, Fmt::Ext];

impl Fmt {
    fn good(self, id: u32) -> String {
        match self {
            Fmt::Toml => format!("[default]\nwho = {id}\n[other]\nwhy = {id}\n"),
            Fmt::Json => format!("{{\"default\": {{\"who\": {id}}}, \"other\": {{\"why\": {id}}}}}"),
            _ => format!("default:\n  who: {id}\nother: {{why: {id}}}\n"),
        }
    }

    fn empty(self) -> &'static str { if self == Fmt::Json { "{}" } else if self == Fmt::Toml { "" } else { "{}" } }
}

/// What stands at a place.
fn place(p: &Path, kind: Kind, fmt: Fmt, id: u32) {
    match kind {
        Absent => return,
        Good => fs::write(p, fmt.good(id)).unwrap(),
        Malformed => fs::write(p, format!("{} ] = [", fmt.good(id))).unwrap(),
        Dir => fs::create_dir(p).unwrap(),
        Link => {
            let target = p.parent().unwrap().join(format!("target{id}"));
            fs::write(&target, fmt.good(id)).unwrap();
            symlink(&target, p).unwrap()
        }
        Dangling => symlink("/nowhere/at/all", p).unwrap(),
        LinkDir => symlink(".", p).unwrap(),
        Loop => symlink(p.file_name().unwrap(), p).unwrap(),
        Fifo => {
            let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
            assert_eq!(unsafe { libc::mkfifo(c.as_ptr(), 0o644) }, 0);
        }
        NotUtf8 => {
            let mut b = fmt.good(id).into_bytes();
            b.extend(b"\n# \xff\n");
            fs::write(p, b).unwrap()
        }
        Closed => {
            fs::write(p, fmt.good(id)).unwrap();
            fs::set_permissions(p, fs::Permissions::from_mode(0)).unwrap()
        }
        Empty => fs::write(p, fmt.empty()).unwrap(),
    }
}

/// What reading a regular file gives: its identity and number, or an error.
type Known = RefCell<Vec<((u64, u64), Kind, u32)>>;

fn file_id(p: &Path) -> Option<(u64, u64)> {
    let m = fs::metadata(p).ok()?;
    m.file_type().is_file().then(|| (m.dev(), m.ino()))
}

/// The file that must be read, as found by strings and `stat` alone.
fn resolve(cwd: Option<&Path>, path: &Path, search: bool) -> Option<(PathBuf, (u64, u64))> {
    let p = path.as_os_str().as_bytes();
    let join = |d: &[u8]| {
        let mut v = d.to_vec();
        if !v.ends_with(b"/") { v.push(b'/'); }
        v.extend(p);
        PathBuf::from(std::ffi::OsStr::from_bytes(&v))
    };
    if p.starts_with(b"/") { return file_id(path).map(|i| (path.to_path_buf(), i)); }
    if !search { return file_id(path).map(|i| (path.to_path_buf(), i)); }
    let mut dir = cwd?.as_os_str().as_bytes();
    loop {
        let f = join(dir);
        if p.is_empty() { return None; }
        if let Some(i) = file_id(&f) { return Some((f, i)); }
        if dir == b"/" { return None; }
        let cut = dir.iter().rposition(|b| *b == b'/').unwrap();
        dir = if cut == 0 { b"/" } else { &dir[..cut] };
    }
}

/// Compares a source with what must be read.
fn check<F: Format>(
    cx: &mut Cx, d: &Data<F>, cwd: Option<&Path>, path: &Path, search: bool, required: bool,
    profile: Option<&str>, known: &Known,
) -> R {
    cx.checked(4);
    let what = format!("{path:?} in {cwd:?}{}{} {profile:?}", if search { "" } else { ", no search" },
        if required { ", required" } else { "" });
    let want = resolve(cwd, path, search);
    let found = want.as_ref().map(|(_, id)| {
        let k = known.borrow();
        k.iter().find(|(i, _, _)| i == id).map(|(_, k, n)| (*k, *n)).unwrap_or((Malformed, 0))
    });
    let f = Figment::from(d);
    cx.state(&(&found, required, profile, search));

    // The location reported.
    let md = f.metadata().next().cloned();
    let reported = md.and_then(|m| m.source).and_then(|s| match s { Source::File(p) => Some(p), _ => None });
    let Some(reported) = reported else { return fail("no location", format!("{what}: no file reported")) };
    match &want {
        Some((_, id)) => ensure!(file_id(&reported) == Some(*id), "location",
            "{what}: reported {reported:?}, expected {want:?}"),
        None => ensure!(reported == path, "location of missing", "{what}: reported {reported:?}"),
    }

    // What is provided.
    let good = match found {
        None if required => Err("missing"),
        None => Ok(None),
        Some((Good | Link, n)) => Ok(Some(n)),
        Some((Empty, _)) => Ok(None),
        Some(_) => Err("bad"),
    };
    cx.outcome(&(&good.is_ok(), found.map(|f| f.0)));
    let f = f.select("other");
    let got: Result<N, _> = extracted(&f);
    match (good, got) {
        (Err(why), Err(e)) => {
            let shown = e.to_string();
            if why == "missing" {
                ensure!(shown.contains(&path.display().to_string()), "name", "{what}: not named in {shown}");
            }
            let src = e.metadata.as_ref().and_then(|m| m.source.clone());
            ensure!(src == Some(Source::File(reported.clone())), "error source", "{what}: {shown}: {src:?}");
            ensure!(e.count() == 1, "errors", "{what}: {e}");
            ensure!(d.data().is_err(), "data", "{what}: data");
            for p in ["default", "global", "other", "zone"] {
                ensure!(f.clone().select(p).extract::<figment::value::Value>().is_err(), "partial", "{what}: {p}");
            }
        }
        (Err(why), Ok(n)) => return fail("no error", format!("{what}: {why}, but got {}", n.show())),
        (Ok(_), Err(e)) => return fail("error", format!("{what}: {e}")),
        (Ok(n), Ok(_)) => {
            let num = |n: u32| N::sc(Sc::U128(n as u128));
            let all = match n {
                Some(n) => N::d(vec![("default", N::d(vec![("who", num(n))])), ("other", N::d(vec![("why", num(n))]))]),
                None => N::d(vec![]),
            };
            let want: std::collections::BTreeMap<String, N> = match profile {
                Some(p) => [(p.to_string(), all)].into_iter().collect(),
                None => all.dict().unwrap().clone(),
            };
            let data = d.data();
            let data = match data { Ok(d) => d, Err(e) => return fail("data", format!("{what}: {e}")) };
            let got: std::collections::BTreeMap<String, N> = data.iter()
                .map(|(p, d)| (p.as_str().to_string(), wide(root(tree_of(d, &nosrc))))).collect();
            let full = |m: &std::collections::BTreeMap<String, N>| m.iter()
                .filter(|(_, n)| !n.dict().unwrap().is_empty()).map(|(k, n)| (k.clone(), n.clone())).collect::<Vec<_>>();
            ensure_eq!(full(&got), full(&want), "values", "{what}");
            // Where each value is said to come from.
            for (p, n) in &want {
                let g = Figment::from(d).select(Profile::new(p));
                for k in n.dict().unwrap().keys() {
                    let src = g.find_metadata(k).and_then(|m| m.source.clone());
                    ensure!(src == Some(Source::File(reported.clone())), "value source", "{what}: {k} from {src:?}");
                }
            }
        }
    }
    Ok(())
}

fn wide(mut n: N) -> N {
    match &mut n.v {
        M::S(s) => if let Some((_, mag)) = crate::dynde::int(s) { *s = Sc::U128(mag) },
        M::A(v) => for e in v.iter_mut() { *e = wide(e.clone()); },
        M::D(d) => for e in d.values_mut() { *e = wide(e.clone()); },
    }
    n
}

fn with_format(
    cx: &mut Cx, fmt: Fmt, cwd: Option<&Path>, path: &Path, search: bool, required: bool,
    profile: Option<&'static str>, known: &Known,
) -> R {
    fn mk<F: Format>(path: &Path, search: bool, required: bool, profile: Option<&'static str>) -> Data<F> {
        let d = F::file(path).search(search).required(required);
        match profile { Some("default") => d, Some(p) => d.profile(p), None => d.nested() }
    }
    match fmt {
        Fmt::Toml => check(cx, &mk::<Toml>(path, search, required, profile), cwd, path, search, required, profile, known),
        Fmt::Json => check(cx, &mk::<Json>(path, search, required, profile), cwd, path, search, required, profile, known),
        Fmt::Yaml => check(cx, &mk::<Yaml>(path, search, required, profile), cwd, path, search, required, profile, known),
        Fmt::Ext => check(cx, &mk::<YamlExtended>(path, search, required, profile), cwd, path, search, required, profile, known),
    }
}

/// Places a file and notes what it is.
fn put(cx: &mut Cx, p: &Path, kind: Kind, fmt: Fmt, id: u32, known: &Known) {
    place(p, kind, fmt, id);
    if kind != Absent { cx.op(|| format!("{p:?}: {kind:?}")); }
    if let Some(i) = file_id(p) { known.borrow_mut().push((i, kind, id)); }
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    const KINDS: [Kind; 12] = [Absent, Good, Malformed, Dir, Link, Dangling, Fifo, NotUtf8, Closed, Empty, LinkDir, Loop];

    let levels = 4;
    v.push(Scenario::new(
        "levels",
        format!("each of 12 things (files good, malformed, empty, not UTF-8, unreadable; directories, links, FIFOs, \
            nothing) in each of {levels} directories above one another, 4 formats, searched for from each \
            by 12 forms of path, with and without search, required or not, nested or for 3 profiles"),
        move |cx| {
            let kinds: Vec<Kind> = (0..levels).map(|i| if i < 3 || tier == Tier::Thorough {
                *cx.of(&KINDS)
            } else { *cx.of(&[Absent, Good, Malformed, Dir]) }).collect();
            cx.state(&kinds);
            let dir = Tmp::new();
            let known = Known::default();
            // The format varies with the rest: the code is shared by all.
            let fmt = FMTS[kinds.iter().map(|k| *k as usize).sum::<usize>() % 4];
            let mut dirs = vec![dir.0.clone()];
            for i in 1..levels { dirs.push(dirs[i - 1].join(format!("s{i}"))); fs::create_dir(&dirs[i]).unwrap(); }
            for (i, k) in kinds.iter().enumerate() { put(cx, &dirs[i].join("conf"), *k, fmt, i as u32 + 1, &known); }
            let mut j = 0;
            for from in 0..levels {
                std::env::set_current_dir(&dirs[from]).unwrap();
                let mut paths: Vec<PathBuf> = ["conf", "./conf", "../conf", "s1/conf", "s2/../conf", "s2/./conf", "conf/",
                    "nowhere/../conf", "../../conf"].iter().map(PathBuf::from).collect();
                paths.push(dirs[from].join("conf"));
                paths.push(dirs[levels - 1].join("../conf"));
                paths.push(dirs[0].join("conf").strip_prefix("/").unwrap().to_path_buf());
                for p in &paths {
                    for search in [true, false] {
                        j += 1;
                        let prof = [Some("default"), None, Some("zone"), Some("global")][j % 4];
                        for required in [false, true] {
                            with_format(cx, fmt, Some(&dirs[from]), p, search, required, prof, &known)?;
                        }
                    }
                }
            }
            Ok(())
        }
    ).tasks(1000));

    v.push(Scenario::new(
        "setters",
        "every sequence of up to 4 settings (search, required, profile, nested) on a source of a file that is \
         missing, found here, found above, or malformed",
        |cx| {
            let kinds = *cx.of(&[[Absent, Absent], [Absent, Good], [Good, Absent], [Good, Malformed], [Absent, Malformed]]);
            let n = cx.pick(5);
            let ops: Vec<usize> = (0..n).map(|_| cx.pick(8)).collect();
            let dir = Tmp::new();
            let known = Known::default();
            let inner = dir.0.join("in");
            fs::create_dir(&inner).unwrap();
            put(cx, &dir.0.join("c"), kinds[1], Fmt::Toml, 1, &known);
            put(cx, &inner.join("c"), kinds[0], Fmt::Toml, 2, &known);
            std::env::set_current_dir(&inner).unwrap();
            let (mut search, mut required, mut prof) = (true, false, Some("default"));
            let mut d = Toml::file("c");
            for o in ops {
                cx.op(|| ["search(true)", "search(false)", "required(true)", "required(false)", "profile(zone)",
                    "profile(default)", "nested()", "profile(global)"][o].to_string());
                d = match o {
                    0 => { search = true; d.search(true) }
                    1 => { search = false; d.search(false) }
                    2 => { required = true; d.required(true) }
                    3 => { required = false; d.required(false) }
                    4 => { prof = Some("zone"); d.profile("zone") }
                    5 => { prof = Some("default"); d.profile("default") }
                    6 => { prof = None; d.nested() }
                    _ => { prof = Some("global"); d.profile("global") }
                };
            }
            check(cx, &d, Some(&inner), Path::new("c"), search, required, prof, &known)
        }
    ).tasks(1000));

    v.push(Scenario::new(
        "deep",
        "from directories of any depth up to 40, a file at any level above with something else at any other \
         level, at a path of 1 to 3 parts",
        move |cx| {
            let depth = *cx.of(&[1usize, 2, 3, 4, 8, 16, 17, 32, 40]);
            let mut levels: Vec<usize> = vec![0, 1, 2, depth / 2, depth - 1, depth];
            if tier == Tier::Thorough { levels = (0..=depth).collect(); }
            levels.retain(|l| *l <= depth);
            levels.sort();
            levels.dedup();
            let at = *cx.of(&levels);
            let decoy = *cx.of(&levels);
            cx.state(&(depth, at, decoy));
            let kind = *cx.of(&[Absent, Dir, Dangling, Good]);
            if decoy == at || (kind == Absent && decoy > 0) { return Err(Stop::Skip); }
            let dir = Tmp::new();
            let known = Known::default();
            let mut dirs = vec![dir.0.clone()];
            for i in 1..=depth { dirs.push(dirs[i - 1].join("d")); }
            fs::create_dir_all(&dirs[depth]).unwrap();
            let p = ["c", "p/c", "p/q/c"][(at + decoy) % 3];
            for (i, k) in [(at, Good), (decoy, kind)] {
                let f = dirs[i].join(p);
                fs::create_dir_all(f.parent().unwrap()).unwrap();
                put(cx, &f, k, Fmt::Yaml, i as u32 + 1, &known);
            }
            std::env::set_current_dir(&dirs[depth]).unwrap();
            for search in [true, false] {
                with_format(cx, Fmt::Yaml, Some(&dirs[depth]), Path::new(p), search, true, Some("default"), &known)?;
            }
            Ok(())
        }
    ));

    v.push(Scenario::new(
        "names",
        "names of 24 unusual kinds, in the current directory or above, or absolute",
        |cx| {
            let long = "n".repeat(255);
            let too_long = "n".repeat(256);
            let names: Vec<&[u8]> = vec![b"a", b".c", b"..c", b"...", b"c.toml", b"c.TOML", b" ", b" c", b"c ", b"c\n",
                "é".as_bytes(), b"\xff", b"c\xffd", b"-", b"~", b"$HOME", b"*", b"c:d", b"c\\d", b"%41", long.as_bytes(),
                too_long.as_bytes(), b"", b"."];
            let name = Path::new(std::ffi::OsStr::from_bytes(cx.of(&names)));
            let (kind, above) = (*cx.of(&[Absent, Good, Malformed]), cx.flag());
            let dir = Tmp::new();
            let known = Known::default();
            let inner = dir.0.join("in");
            fs::create_dir(&inner).unwrap();
            let f = if above { dir.0.join(name) } else { inner.join(name) };
            let b = name.as_os_str().as_bytes();
            if b.len() < 256 && !b.is_empty() && b != b"." { put(cx, &f, kind, Fmt::Json, 1, &known); }
            std::env::set_current_dir(&inner).unwrap();
            for search in [true, false] {
                for p in [name.to_path_buf(), f.clone(), Path::new(".").join(name), Path::new("in").join("..").join(name)] {
                    with_format(cx, Fmt::Json, Some(&inner), &p, search, false, None, &known)?;
                    with_format(cx, Fmt::Json, Some(&inner), &p, search, true, None, &known)?;
                }
            }
            Ok(())
        }
    ));

    v.push(Scenario::new(
        "places",
        "current directories that are removed, reached by a link, closed, or the root, and files behind closed \
         directories and links to directories",
        |cx| {
            let dir = Tmp::new();
            let known = Known::default();
            let a = dir.0.join("a");
            let b = a.join("b");
            fs::create_dir_all(&b).unwrap();
            fs::create_dir(dir.0.join("elsewhere")).unwrap();
            let (ka, kd, ke) = (*cx.of(&[Absent, Good]), *cx.of(&[Absent, Good]), *cx.of(&[Absent, Good]));
            put(cx, &a.join("c"), ka, Fmt::Toml, 1, &known);
            put(cx, &dir.0.join("c"), kd, Fmt::Toml, 2, &known);
            put(cx, &dir.0.join("elsewhere/c"), ke, Fmt::Toml, 3, &known);
            symlink(&b, dir.0.join("elsewhere/link")).unwrap();
            let case = cx.pick(5);
            cx.op(|| format!("case {case}"));
            let cwd = match case {
                0 => { std::env::set_current_dir(&b).unwrap(); fs::remove_dir(&b).unwrap(); None }
                // The physical directory counts, not the way to it.
                1 => { std::env::set_current_dir(dir.0.join("elsewhere/link")).unwrap(); Some(b.clone()) }
                2 => {
                    std::env::set_current_dir(&b).unwrap();
                    fs::set_permissions(&b, fs::Permissions::from_mode(0)).unwrap();
                    Some(b.clone())
                }
                3 => {
                    std::env::set_current_dir(&b).unwrap();
                    fs::set_permissions(&a, fs::Permissions::from_mode(0)).unwrap();
                    std::env::current_dir().ok()
                }
                _ => { std::env::set_current_dir("/").unwrap(); Some(PathBuf::from("/")) }
            };
            let abs = dir.0.join("c");
            for search in [true, false] {
                for required in [false, true] {
                    for p in ["c", "./c", "link/c", "../c", &a.join("c").to_string_lossy(), &abs.to_string_lossy(),
                        abs.strip_prefix("/").unwrap().to_str().unwrap()] {
                        with_format(cx, Fmt::Toml, cwd.as_deref(), Path::new(p), search, required, Some("zone"), &known)?;
                    }
                }
            }
            fs::set_permissions(&a, fs::Permissions::from_mode(0o700)).unwrap();
            let _ = fs::set_permissions(&b, fs::Permissions::from_mode(0o700));
            Ok(())
        }
    ));

    v.push(Scenario::new(
        "combined",
        "two file sources, each missing, found here, found above or malformed, required or not, by 4 operations: \
         each value names its own file, and only what fails is an error",
        |cx| {
            let dir = Tmp::new();
            let inner = dir.0.join("in");
            fs::create_dir(&inner).unwrap();
            std::env::set_current_dir(&inner).unwrap();
            let mut srcs = vec![];
            for i in 0..2u32 {
                let state = cx.pick(4);
                let req = cx.flag();
                let name = format!("f{i}");
                let text = |bad| format!("k{i} = {i}\nboth = {i}\n{}", if bad { "=" } else { "" });
                let at = match state {
                    1 => Some(inner.join(&name)), 2 | 3 => Some(dir.0.join(&name)), _ => None,
                };
                if let Some(at) = &at { fs::write(at, text(state == 3)).unwrap(); }
                cx.op(|| format!("{name}: {at:?} {req}"));
                srcs.push((name, state, req, at));
            }
            let op = *cx.of(&OPS);
            cx.state(&(&srcs.iter().map(|s| (s.1, s.2)).collect::<Vec<_>>(), op));
            let mut f = Figment::new();
            for (name, _, req, _) in &srcs { f = op.apply(f, Toml::file(name).required(*req)); }
            let bad: Vec<_> = srcs.iter().filter(|s| s.1 == 3 || (s.1 == 0 && s.2)).collect();
            let got = extracted(&f);
            cx.checked(1);
            if !bad.is_empty() {
                let Err(e) = got else { return fail("no error", format!("{bad:?}")) };
                let n = e.clone().into_iter().count();
                ensure_eq!(n, bad.len(), "errors", "{e}");
                for b in &bad {
                    let p = b.3.clone().unwrap_or(PathBuf::from(&b.0));
                    ensure!(e.clone().into_iter().any(|e| e.metadata.and_then(|m| m.source) == Some(Source::File(p.clone()))),
                        "error source", "{e}: not from {p:?}");
                }
                return Ok(());
            }
            let good: Vec<usize> = (0..2).filter(|i| srcs[*i].1 != 0).collect();
            let mut want: Vec<(String, usize)> = good.iter().map(|i| (format!("k{i}"), *i)).collect();
            let both = if op.newer_wins() { good.last() } else { good.first() };
            if let Some(b) = both { want.push(("both".into(), *b)); }
            want.sort();
            let got = match got { Ok(n) => n, Err(e) => return fail("error", e.to_string()) };
            let keys: Vec<String> = got.dict().unwrap().keys().cloned().collect();
            let mut wk: Vec<String> = want.iter().map(|w| w.0.clone()).collect();
            wk.sort();
            ensure_eq!(keys, wk, "keys", "{op:?}");
            for (k, i) in want {
                ensure_eq!(f.extract_inner::<usize>(&k).map_err(|e| e.to_string()), Ok(i), "value", "{k}");
                let src = f.find_metadata(&k).and_then(|m| m.source.clone());
                ensure_eq!(src, Some(Source::File(srcs[i].3.clone().unwrap())), "source", "{k}");
            }
            Ok(())
        }
    ));

    v
}
