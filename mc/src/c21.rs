//! Where the paths given to a jail lead. Runs as a user who can write in the
//! scratch directory only.

use std::collections::BTreeMap;
use std::env;
use std::ffi::{OsStr, OsString};
use std::fs;
use std::io::Write;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};

use figment::{Error, Jail};

use crate::c14::Tmp;
use crate::c20::{tree, Guard};
use crate::engine::*;
use crate::ensure;

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Kind { File, Binary, Dir, Cd }

const KINDS: [Kind; 4] = [Kind::File, Kind::Binary, Kind::Dir, Kind::Cd];

/// How what there is of the path begins.
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum From { Relative, Jail, AboveJail, BesideJail, LikeJail, Root, Before, OutAndIn, TwoSlashes }

const FROMS: [From; 9] = [From::Relative, From::Jail, From::AboveJail, From::BesideJail, From::LikeJail, From::Root,
    From::Before, From::OutAndIn, From::TwoSlashes];

/// The names in a path without its dots; whether it is absolute.
fn resolved(p: &[u8]) -> (bool, Vec<Vec<u8>>) {
    let mut names: Vec<Vec<u8>> = vec![];
    for c in p.split(|b| *b == b'/') {
        match c {
            b"" | b"." => {}
            b".." => { names.pop(); }
            c => names.push(c.to_vec()),
        }
    }
    (p.first() == Some(&b'/'), names)
}

type Files = BTreeMap<PathBuf, Option<Vec<u8>>>;

/// What there is in the scratch directory, in the model.
#[derive(Clone, Debug)]
struct State { jail: PathBuf, cwd: PathBuf, files: Files }

impl State {
    fn is_dir(&self, p: &Path) -> bool { p == self.jail || self.files.get(p) == Some(&None) }

    /// Takes the step: `None` if it has to fail, else where it leads.
    fn step(&mut self, kind: Kind, path: &[u8], contents: &[u8]) -> Option<PathBuf> {
        let (absolute, names) = resolved(path);
        let mut at = if absolute { PathBuf::from("/") } else { self.cwd.clone() };
        for n in &names { at.push(OsStr::from_bytes(n)); }
        if !at.starts_with(&self.jail) { return None; }
        if names.iter().any(|n| n.len() > 255 || n.contains(&0)) { return None; }
        let nothing = !absolute && names.is_empty();
        match kind {
            Kind::File | Kind::Binary => {
                if nothing || self.is_dir(&at) || !self.is_dir(at.parent().unwrap()) { return None; }
                let c = if kind == Kind::File { contents.to_vec() } else { [contents, b"\xff"].concat() };
                self.files.insert(at.clone(), Some([&c, b"+".as_slice()].concat()));
            }
            Kind::Dir => {
                let above: Vec<&Path> = at.ancestors().take_while(|p| *p != self.jail).collect();
                if above.iter().any(|p| matches!(self.files.get(*p), Some(Some(_)))) { return None; }
                for p in above { self.files.insert(p.into(), None); }
            }
            Kind::Cd => {
                if nothing || !self.is_dir(&at) { return None; }
                self.cwd = at.clone();
            }
        }
        Some(at)
    }
}

fn take(jail: &mut Jail, kind: Kind, path: &OsStr, contents: &[u8]) -> Result<Option<PathBuf>, Error> {
    Ok(match kind {
        Kind::File => {
            let mut f = jail.create_file(path, std::str::from_utf8(contents).unwrap())?;
            f.write_all(b"+").expect("writable");
            None
        }
        Kind::Binary => {
            let mut f = jail.create_binary(path, &[contents, b"\xff"].concat())?;
            f.write_all(b"+").expect("writable");
            None
        }
        Kind::Dir => Some(jail.create_dir(path)?),
        Kind::Cd => Some(jail.change_dir(path)?),
    })
}

fn all(root: &Path) -> Files {
    tree(root).into_iter().map(|(k, v)| (root.join(k), v)).collect()
}

type Path2 = (Kind, From, Vec<u8>);

/// Takes the steps in a jail, from a directory in it.
fn run(cx: &mut Cx, cwd: &str, steps: &[Path2], contents: &[u8]) -> R {
    let tmp = Tmp::new();
    let _guard = Guard::new();
    // Far enough down that leading out of the jail leads to the scratch directory.
    let jails = tmp.0.join("1/2/3/4/5/6/jails");
    let base = tmp.0.join("base");
    fs::create_dir_all(&jails).unwrap();
    fs::create_dir_all(base.join("a")).unwrap();
    fs::write(base.join("f"), "before").unwrap();
    env::set_current_dir(&base).unwrap();
    env::set_var("TMPDIR", &jails);
    let mut bad: Option<String> = None;
    cx.checked(4 * steps.len() as u64);
    cx.op(|| format!("from {cwd:?}"));
    let mut log = vec![];
    let mut states = vec![];

    let r = catch_unwind(AssertUnwindSafe(|| Jail::try_with(|jail| {
        let root = jail.directory().to_path_buf();
        assert!(root.starts_with(&jails) && root != jails, "the directory is elsewhere: {root:?}");
        let mut beside = root.clone().into_os_string();
        beside.push("x");
        let beside = PathBuf::from(beside);
        fs::create_dir_all(beside.join("a")).unwrap();
        fs::create_dir_all(root.join("a/b")).unwrap();
        fs::write(root.join("f"), "old").unwrap();
        fs::write(root.join("a/f"), "old too, but a bit longer").unwrap();
        env::set_current_dir(root.join(cwd)).unwrap();
        let mut s = State { jail: root.clone(), cwd: root.join(cwd), files: all(&tmp.0) };
        if cwd.is_empty() { s.cwd = root.clone(); }

        for (kind, from, path) in steps {
            let name = root.file_name().unwrap().as_bytes();
            let os = |p: &Path| p.as_os_str().as_bytes().to_vec();
            let mut p: Vec<u8> = match from {
                From::Relative => vec![],
                From::Jail => os(&root),
                From::AboveJail => os(&jails),
                From::BesideJail => os(&beside),
                From::LikeJail => [b"/zz".to_vec(), os(&root)].concat(),
                From::Root => vec![],
                From::Before => os(&base),
                From::OutAndIn => [os(&root), b"/../".to_vec(), name.to_vec()].concat(),
                From::TwoSlashes => [b"/".to_vec(), os(&root)].concat(),
            };
            if *from != From::Relative && !(path.is_empty() && !p.is_empty()) { p.push(b'/'); }
            p.extend(path);

            let was = s.clone();
            let want = s.step(*kind, &p, contents);
            let shown = String::from_utf8_lossy(&p).into_owned();
            let got = catch_unwind(AssertUnwindSafe(|| take(jail, *kind, OsStr::from_bytes(&p), contents)));
            log.push(format!("{kind:?} {shown:?}"));
            let mut wrong = |m: String| if bad.is_none() {
                bad = Some(format!("{kind:?} {shown:?} in {:?}: {m}", was.cwd));
            };
            match got {
                Err(_) => wrong(format!("panics: {}", last_panic())),
                Ok(Err(e)) => if let Some(w) = &want { wrong(format!("fails ({e}), expected {w:?}")); },
                Ok(Ok(at)) => match &want {
                    None => wrong(format!("succeeds: {at:?}")),
                    Some(w) => if let Some(at) = at {
                        if &was.cwd.join(&at) != w && !(at.as_os_str().is_empty() && was.cwd == *w) {
                            wrong(format!("returns {at:?} for {w:?}"));
                        }
                    },
                }
            }
            let now = all(&tmp.0);
            if now != s.files {
                let differ: Vec<_> = now.iter().filter(|(k, v)| s.files.get(*k) != Some(v)).collect();
                let gone: Vec<_> = s.files.iter().filter(|(k, v)| now.get(*k) != Some(v)).collect();
                wrong(format!("there is now {differ:?}, expected {gone:?}"));
            }
            match env::current_dir() {
                Ok(d) if d == s.cwd => {}
                d => wrong(format!("in {d:?}, not {:?}", s.cwd)),
            }
            let rel = |p: &Path| p.strip_prefix(&root).map(|p| p.to_path_buf()).ok();
            let files: Vec<_> = s.files.iter().map(|(k, v)| (rel(k), v.is_some())).filter(|f| f.0.is_some()).collect();
            states.push(hash(&(files, rel(&s.cwd))));
        }
        Ok(())
    })));

    for l in log { cx.op(|| l); }
    for s in states { cx.state(&s); }
    if let Some(bad) = bad { return fail("contained", bad); }
    match r {
        Ok(r) => ensure!(r.is_ok(), "jail", "{:?}", r.map_err(|e| e.to_string())),
        Err(_) => return fail("panic", last_panic()),
    }
    Ok(())
}

const NAMES: [&str; 8] = ["a", "b", "..", "f", "n", ".", "...", "é x"];

fn any_path(cx: &mut Cx, names: &[&str], max: usize) -> Vec<u8> {
    let n = cx.pick(max + 1);
    let parts: Vec<&str> = (0..n).map(|_| *cx.of(names)).collect();
    let sep = ["/", "//", "/./"][cx.dev(3)];
    let end = ["", "/", "/."][cx.dev(3)];
    let p = parts.join(sep);
    if p.is_empty() { return p.into_bytes(); }
    (p + end).into_bytes()
}

const CWDS: [&str; 3] = ["", "a", "a/b"];

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![];

    let paths = |name, n: usize, names: &'static [&'static str], devs| Scenario::new(
        name,
        format!("each of 4 operations on every path of up to {n} of {} names (some of files and directories there are, \
            dots, parents), relative to 3 directories in the jail and from 8 absolute beginnings, with odd separators \
            and ends (up to {devs} of them): all effects in the scratch directory the jail is in", names.len()),
        move |cx| {
            let cwd = *cx.of(&CWDS);
            let from = *cx.of(&FROMS);
            // Absolute paths are to lead nowhere else from elsewhere.
            if from != From::Relative && cwd == "a/b" { return Err(Stop::Skip); }
            let kind = *cx.of(&KINDS);
            let p = any_path(cx, names, n);
            run(cx, cwd, &[(kind, from, p)], b"new")
        }
    ).devs(devs);

    v.push(paths("paths", tier.sel(3, 4), &NAMES, tier.sel(1, 0)));
    v.push(paths("parents", tier.sel(5, 7), &["a", "..", "n"], 0));
    if tier == Tier::Thorough { v.push(paths("paths-odd", 3, &NAMES, 2)); }

    let n = tier.sel(1, 2);
    v.push(Scenario::new(
        "sequences",
        format!("every two operations on relative paths of up to 2 of 6 names and then one on up to {n}, and the same \
            with the first one absolute"),
        move |cx| {
            let names = &["a", "b", "..", "f", "n", "c"];
            let mut steps = vec![];
            for i in 0..tier.sel(2, 2) {
                let kind = *cx.of(&[Kind::File, Kind::Dir, Kind::Cd]);
                let from = if i == 0 { *cx.of(&[From::Relative, From::Jail]) } else { From::Relative };
                steps.push((kind, from, any_path(cx, names, 2)));
            }
            let kind = *cx.of(&[Kind::Binary, Kind::Cd]);
            let last = if n == 1 { ["../n", "c"][cx.pick(2)].as_bytes().to_vec() } else { any_path(cx, &["..", "n"], 2) };
            steps.push((kind, From::Relative, last));
            run(cx, "", &steps, b"new")
        }
    ));

    v.push(Scenario::new(
        "many-parents",
        "each of 4 operations on paths with up to 300 parents before, after or between names, from 9 beginnings",
        |cx| {
            let k = cx.pick(301);
            if k > 40 && ![64, 99, 100, 127, 128, 129, 255, 256, 257, 300].contains(&k) { return Err(Stop::Skip); }
            let cwd = *cx.of(&CWDS);
            let from = *cx.of(&FROMS);
            let kind = *cx.of(&KINDS);
            let up = "../".repeat(k);
            let p = match cx.pick(5) {
                0 => format!("{up}n"),
                1 => format!("a/{up}a/n"),
                2 => format!("{}{up}n", "a/".repeat(k)),
                3 => format!("{}{up}n", "q/".repeat(k + 1)),
                _ => format!("n/{up}"),
            };
            // Were it followed, it would lead beyond the scratch directory.
            let depth = env::current_dir().unwrap().components().count() + 9;
            if k + 8 >= depth && k <= depth + 2 { return Err(Stop::Skip); }
            run(cx, cwd, &[(kind, from, p.into_bytes())], b"new")
        }
    ));

    v.push(Scenario::new(
        "odd-names",
        "each of 4 operations on each of 26 odd names, alone, in a directory, and after a parent, from 9 beginnings",
        |cx| {
            let l255 = "x".repeat(255);
            let l256 = "x".repeat(256);
            let names: Vec<OsString> = ["", " ", "~", "~/n", "\\", "a\\b", "C:\\n", "C:", "\\\\?\\n", "..a", "a..", ".a", "a.", ". .", ".. ",
                " ..", "n\0x", "\0", "é", "日本", "\n", "*", "$HOME", &l255, &l256].iter().map(|s| s.into())
                .chain([OsString::from_vec(vec![0xff, b'.', b'.'])]).collect();
            let name = cx.of(&names).as_bytes().to_vec();
            let from = *cx.of(&FROMS);
            let kind = *cx.of(&KINDS);
            let pre: &[u8] = *cx.of(&[b"".as_slice(), b"a/", b"../", b"a/../b/../", b"f/../", b"./"]);
            let post: &[u8] = *cx.of(&[b"".as_slice(), b"/..", b"/../n", b"/"]);
            let p = [pre, &name, post].concat();
            if name.is_empty() && pre.is_empty() && post.starts_with(b"/") && from == From::Relative {
                // That is absolute.
                return Err(Stop::Skip);
            }
            // Directories before an overlong name are made before it fails.
            run(cx, "", &[(kind, from, p)], b"new")
        }
    ));

    v.push(Scenario::new(
        "contents",
        "files with contents of any size up to 300 and around buffer sizes up to 128 KiB, new and over others",
        |cx| {
            let big = [4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 131072];
            let k = cx.pick(301 + big.len());
            let n = if k <= 300 { k } else { big[k - 301] };
            let kind = *cx.of(&[Kind::File, Kind::Binary]);
            let at = *cx.of(&["n", "f", "a/f"]);
            let c: Vec<u8> = (0..n).map(|i| if i % 7 == 0 { b'\n' } else { b'a' + (i % 26) as u8 }).collect();
            run(cx, "", &[(kind, From::Relative, at.into())], &c)
        }
    ));

    v
}
