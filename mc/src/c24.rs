//! Relative paths and displayed source locations: where they lead to.

use std::env::set_current_dir;
use std::ffi::OsString;
use std::fs;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::{symlink, MetadataExt};
use std::panic::Location;
use std::path::{Path, PathBuf};

use figment::providers::{Format, Json, Toml, Yaml, YamlExtended};
use figment::util::diff_paths;
use figment::{Figment, Metadata, Provider, Source};

use crate::c14::Tmp;
use crate::engine::*;
use crate::{ensure, ensure_eq};

type Bytes = Vec<u8>;

fn path(b: &[u8]) -> PathBuf { PathBuf::from(OsString::from_vec(b.to_vec())) }

fn show(b: &[u8]) -> String { format!("`{}`", String::from_utf8_lossy(b)) }

fn rooted(b: &[u8]) -> bool { b.first() == Some(&b'/') }

/// The components, without those that don't do anything.
fn parts(b: &[u8]) -> Vec<Bytes> {
    b.split(|c| *c == b'/').filter(|c| !c.is_empty() && *c != b".").map(|c| c.to_vec()).collect()
}

/// The place a path leads to: how many parents up, then the names down.
fn place(b: &[u8]) -> (bool, usize, Vec<Bytes>) {
    let (root, mut up, mut down) = (rooted(b), 0, vec![]);
    for c in parts(b) {
        if c != b".." {
            down.push(c);
        } else if down.pop().is_none() && !root {
            up += 1;
        }
    }
    (root, up, down)
}

fn joined(base: &[u8], rest: &[u8]) -> Bytes { [base, b"/", rest].concat() }

/// The shortest relative path, of paths without `..` past what they share.
fn shortest(p: &[u8], base: &[u8]) -> Option<Vec<Bytes>> {
    let (p, b) = (parts(p), parts(base));
    let common = p.iter().zip(&b).take_while(|(a, b)| a == b).count();
    if p[common..].iter().chain(&b[common..]).any(|c| c == b"..") { return None; }
    Some(std::iter::repeat(b"..".to_vec()).take(b.len() - common).chain(p[common..].iter().cloned()).collect())
}

/// Whether only names that aren't known lead from `base` to `p`.
fn unknown(p: &[u8], base: &[u8]) -> bool {
    let ((root, up, _), (_, base_up, _)) = (place(p), place(base));
    !root && base_up > up
}

fn check_diff(cx: &mut Cx, p: &[u8], base: &[u8]) -> R {
    cx.checked(1);
    let got = diff_paths(path(p), path(base));
    let got = got.as_ref().map(|g| g.as_os_str().as_bytes());
    let what = format!("{} from {} is {}", show(p), show(base), got.map_or("none".into(), show));
    cx.op(|| what.clone());
    cx.outcome(&got);
    cx.state(&(p, base));
    if rooted(p) != rooted(base) {
        ensure!(got.is_none(), "rooted", "{what}, but only one is absolute");
        return Ok(());
    }
    if unknown(p, base) {
        ensure!(got.is_none(), "unknown", "{what}, but the base leads through unknown parents");
        return Ok(());
    }
    let short = shortest(p, base);
    let Some(got) = got else {
        let base_up = parts(base).iter().zip(parts(p).iter().map(Some).chain(std::iter::repeat(None)))
            .skip_while(|(b, p)| Some(*b) == *p).any(|(b, _)| b == b"..");
        ensure!(base_up, "none", "{what}, but there is one");
        return Ok(());
    };
    ensure!(!rooted(got), "absolute", "{what}: absolute");
    let followed = place(&joined(base, got));
    // A base of nothing is where relative paths start.
    let followed = if base.is_empty() { place(got) } else { followed };
    ensure_eq!(followed, place(p), "leads", "{what}, which leads");
    if let Some(short) = short {
        ensure_eq!(parts(got), short, "longer", "{what}: not the shortest");
    }
    Ok(())
}

/// A path of choices.
fn choose(cx: &mut Cx, names: &[&[u8]], max: usize) -> Bytes {
    let mut b = vec![];
    if cx.flag() { b.push(b'/'); }
    let n = cx.pick(max + 1);
    for i in 0..n {
        if i > 0 {
            b.extend([b"/".as_slice(), b"//", b"/./"][cx.dev(3)]);
        }
        b.extend(*cx.of(names));
    }
    if n > 0 && cx.dev(2) == 1 { b.push(b'/'); }
    b
}

/// Names that look like something else, or are unlike most.
fn odd() -> Vec<Bytes> {
    let mut v: Vec<Bytes> = ["...", "..a", "a..", ".a", "a.", " ", "a b", "é", "日本", "\u{fffd}", "A", "a", "~", "\\", "..\\",
        "*", "C:", "-", "\n", "\t", ".. ", " ..", "'", "\"", "%2e%2e", "\u{301}", "%", "$HOME", "{}", "\u{200b}"]
        .iter().map(|s| s.as_bytes().to_vec()).collect();
    v.push(vec![b'a', 0xff]);
    v.push(vec![0xff]);
    v.push(vec![0xc3]);
    v.push(vec![b'x'; 255]);
    v.push(vec![b'x'; 254]);
    v
}

/// What a file source may be displayed as, by text.
fn check_file(cx: &mut Cx, p: &[u8], cwd: Option<&[u8]>, got: &str) -> R {
    cx.checked(1);
    cx.op(|| format!("{} in {} is {got:?}", show(p), cwd.map_or("nowhere".into(), show)));
    cx.outcome(got);
    let what = format!("{} in {}", show(p), cwd.map_or("nowhere".into(), show));
    let given = path(p).display().to_string();
    let Some(cwd) = cwd.filter(|_| rooted(p)) else {
        ensure_eq!(got, given, "given", "{what}, which has no relative path,");
        return Ok(());
    };
    let count = parts(p).len() + 1;
    match shortest(p, cwd) {
        Some(short) if short.len() < count => {
            let want = path(&short.join(&b'/')).display().to_string();
            ensure_eq!(got.trim_end_matches('/'), want.trim_end_matches('/'), "relative", "{what}");
        }
        Some(_) => ensure_eq!(got, given, "longer", "{what}, which has no shorter path,"),
        None if got == given => {}
        None => {
            ensure!(!got.starts_with('/'), "relative", "{what}: {got:?}");
            ensure_eq!(place(&joined(cwd, got.as_bytes())), place(p), "leads", "{what}: {got:?}, which leads");
            ensure!(parts(got.as_bytes()).len() < count, "longer", "{what}: {got:?} is longer");
        }
    }
    Ok(())
}

fn id(p: &Path) -> Option<(u64, u64)> { fs::metadata(p).ok().map(|m| (m.dev(), m.ino())) }

#[track_caller]
fn here() -> &'static Location<'static> { Location::caller() }

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut all = vec![];

    let len = tier.sel(5, 6);
    all.push(Scenario::new("pairs",
        format!("every pair of absolute and relative paths of up to {len} components over two names, `.` and `..`"),
        move |cx| {
            let names: [&[u8]; 4] = [b"a", b"b", b".", b".."];
            let base = choose(cx, &names, len);
            let p = choose(cx, &names, len);
            check_diff(cx, &p, &base)
        }));

    let len = tier.sel(3, 4);
    all.push(Scenario::new("separators",
        format!("every pair of paths of up to {len} components over a name, `.` and `..`, with up to 2 odd or trailing \
            separators"),
        move |cx| {
            let names: [&[u8]; 3] = [b"a", b".", b".."];
            let base = choose(cx, &names, len);
            let p = choose(cx, &names, len);
            check_diff(cx, &p, &base)
        }).devs(tier.sel(1, 2)));

    all.push(Scenario::new("odd",
        "every pair of odd names at each place in a pair of paths",
        move |cx| {
            let names = odd();
            let (x, y) = (cx.of(&names).clone(), cx.of(&names).clone());
            let of = |cx: &mut Cx, n: &Bytes| -> Bytes {
                let forms: [Vec<&[u8]>; 6] = [vec![n], vec![n, b"/k"], vec![b"k/", n], vec![b"k/", n, b"/j"],
                    vec![b"j/../", n], vec![n, b"/../", n]];
                cx.of(&forms).concat()
            };
            let (p, base) = (of(cx, &x), of(cx, &y));
            let root: &[u8] = if cx.flag() { b"/" } else { b"" };
            check_diff(cx, &[root, &p].concat(), &[root, &base].concat())
        }));

    let max = tier.sel(300, 2000);
    all.push(Scenario::new("long",
        format!("paths of up to {max} components that part at each of a series of places"),
        move |cx| {
            let sizes = [0, 1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, max];
            let (common, p, b) = (*cx.of(&sizes), *cx.of(&sizes), *cx.of(&sizes));
            let kind = cx.pick(3);
            let rep = |s: &str, n: usize| s.repeat(n).into_bytes();
            let shared = if kind == 2 { rep("../", common) } else { rep("s/", common) };
            let root: &[u8] = if kind == 1 { b"/" } else { b"" };
            check_diff(cx, &[root, &shared, &rep("p/", p)].concat(), &[root, &shared, &rep("b/", b)].concat())
        }));

    let depth = tier.sel(5, 7);
    all.push(Scenario::new("display",
        format!("absolute and relative paths of up to {depth} components over two names, `.` and `..`, displayed in each \
            directory of a tree, at the root, and in a removed directory"),
        move |cx| {
            let tmp = Tmp::new();
            let top = tmp.0.as_os_str().as_bytes().to_vec();
            let cwds: [&[u8]; 8] = [b"", b"a", b"a/a", b"a/b", b"a/a/a", b"a/a/b/a", b"gone", b"/"];
            let cwd = *cx.of(&cwds);
            let dir = if cwd == b"/" { PathBuf::from("/") } else { tmp.0.join(path(cwd)) };
            fs::create_dir_all(&dir).unwrap();
            set_current_dir(&dir).unwrap();
            if cwd == b"gone" { fs::remove_dir(&dir).unwrap(); }
            let dir = dir.components().collect::<PathBuf>();
            let dir = dir.as_os_str().as_bytes();
            let names: [&[u8]; 4] = [b"a", b"b", b".", b".."];
            let (form, first) = (cx.pick(3 + parts(&top).len()), cx.pick(5));
            // Everything below is done in the same tree.
            let mut todo: Vec<(usize, Bytes)> = vec![(0, vec![])];
            if first > 0 { todo = vec![(1, names[first - 1].to_vec())]; }
            while let Some((n, rest)) = todo.pop() {
                if n > 0 && n < depth {
                    todo.extend(names.iter().map(|x| (n + 1, [&rest, b"/".as_slice(), x].concat())));
                }
                let p = match form {
                    0 => joined(&top, &rest),
                    1 => rest,
                    2 => [top.as_slice(), b"/a/a/", &rest].concat(),
                    // Beside the tree, from further and further up.
                    n => {
                        let mut p: Bytes = vec![b'/'];
                        for name in &parts(&top)[..n - 3] { p.extend(name); p.push(b'/'); }
                        [p, rest].concat()
                    }
                };
                let source = Source::from(path(&p).as_path());
                check_file(cx, &p, Some(dir).filter(|_| cwd != b"gone"), &source.to_string())?;
                ensure_eq!(source.file_path().map(|p| p.as_os_str().as_bytes().to_vec()), Some(p), "file_path",
                    "the path of a file");
                ensure!(source.code_location().is_none() && source.custom().is_none(), "accessor", "{source:?}");
            }
            Ok(())
        }));

    all.push(Scenario::new("odd-display",
        "odd names in the current directory and displayed files",
        move |cx| {
            let names = odd();
            let (x, y) = (cx.of(&names).clone(), cx.of(&names).clone());
            let tmp = Tmp::new();
            let top = tmp.0.as_os_str().as_bytes().to_vec();
            let cwd = joined(&top, &[b"k/".as_slice(), &x].concat());
            fs::create_dir_all(path(&cwd)).unwrap();
            set_current_dir(path(&cwd)).unwrap();
            for rest in [&[y.as_slice()] as &[&[u8]], &[b"k/", &y], &[b"k/", &y, b"/f"], &[b"k/", &x, b"/", &y], &[b"j/", &y, b"/f"],
                &[b"k/", &x, b"/", &y, b"/f"]] {
                let p = joined(&top, &rest.concat());
                check_file(cx, &p, Some(&cwd), &Source::from(path(&p).as_path()).to_string())?;
                let rel = rest.concat();
                check_file(cx, &rel, Some(&cwd), &Source::from(path(&rel).as_path()).to_string())?;
            }
            Ok(())
        }));

    all.push(Scenario::new("followed",
        "file sources of each format given in each way, in each directory of a tree with links: the displayed location, \
            opened from the current directory, is the file read",
        move |cx| {
            let tmp = Tmp::new();
            let d = &tmp.0;
            for s in ["x/y/z", "x/w", "v"] { fs::create_dir_all(d.join(s)).unwrap(); }
            symlink(d.join("x/y"), d.join("v/down")).unwrap();
            symlink("..", d.join("x/y/up")).unwrap();
            symlink(d.join("x/w/real"), d.join("x/link")).unwrap();
            let ext = cx.pick(4);
            let text = ["k = 1\n", "{\"k\": 1}", "k: 1\n", "k: 1\n"][ext];
            for f in ["x/f", "x/y/f", "x/y/z/f", "x/w/real", "v/f", "f"] { fs::write(d.join(f), text).unwrap(); }
            let cwd = *cx.of(&["", "x", "x/y", "x/y/z", "x/w", "v", "v/down", "v/down/z", "x/y/up/w"]);
            set_current_dir(d.join(cwd)).unwrap();
            let here = fs::canonicalize(".").unwrap();
            let file = *cx.of(&["f", "x/f", "x/y/f", "x/y/z/f", "x/w/real", "x/link", "v/f", "v/down/f", "v/down/up/f",
                "v/down/../f", "x/y/up/link", "x/./f", "x/y/../f", "x/y/z/../../link", "./x//f"]);
            let abs = cx.flag();
            let given = if abs { d.join(file) } else { path(file.as_bytes()) };
            let exact = cx.flag();
            let md = match (ext, exact) {
                (0, false) => Toml::file(&given).metadata(),
                (0, true) => Toml::file_exact(&given).metadata(),
                (1, false) => Json::file(&given).metadata(),
                (1, true) => Json::file_exact(&given).metadata(),
                (2, false) => Yaml::file(&given).metadata(),
                (2, true) => Yaml::file_exact(&given).metadata(),
                (_, false) => YamlExtended::file(&given).metadata(),
                (_, true) => YamlExtended::file_exact(&given).metadata(),
            };
            let source = md.source.clone().expect("source");
            let shown = source.to_string();
            cx.op(|| format!("{given:?} in {cwd:?} is {shown:?}"));
            let read = source.file_path().expect("file").to_path_buf();
            check_file(cx, read.as_os_str().as_bytes(), Some(here.as_os_str().as_bytes()), &shown)?;
            ensure_eq!(id(Path::new(&shown)), id(&read), "another", "{read:?} in {here:?}, shown as {shown:?}, is");
            // As part of an error.
            if abs {
                let f = match ext {
                    0 => Figment::from(Toml::file(&given)),
                    1 => Figment::from(Json::file(&given)),
                    2 => Figment::from(Yaml::file(&given)),
                    _ => Figment::from(YamlExtended::file(&given)),
                };
                let e = f.extract_inner::<bool>("k").expect_err("a bool").to_string();
                let name = ["TOML", "JSON", "YAML", "YAML Extended"][ext];
                ensure!(e.ends_with(&format!(" in {shown} {name} file")), "error", "{e}");
            }
            // Once the current directory is another.
            set_current_dir(d.join("v")).unwrap();
            let here = d.join("v");
            let shown = source.to_string();
            check_file(cx, read.as_os_str().as_bytes(), Some(here.as_os_str().as_bytes()), &shown)?;
            if abs { ensure_eq!(id(Path::new(&shown)), id(&read), "another", "{read:?}, shown as {shown:?} in {here:?}, is"); }
            Ok(())
        }));

    all.push(Scenario::new("sources",
        "code locations and custom texts, from each type, displayed and accessed",
        move |cx| {
            let texts = ["", "a", "a b", "/tmp/../x", "file.toml", "a\nb", "é\u{0}", "{}", "\"", "default.key"];
            let kind = cx.pick(3);
            let source = if kind == 0 {
                let l = here();
                let s = Source::from(l);
                ensure_eq!(s.to_string(), format!("{}:{}:{}", l.file(), l.line(), l.column()), "code", "a code location");
                ensure_eq!(s.code_location(), Some(l), "code_location", "a code location");
                ensure!(s.file_path().is_none() && s.custom().is_none(), "accessor", "{s:?}");
                ensure_eq!(s, Source::Code(l), "from", "a code location");
                ensure!(s != Source::from(here()), "eq", "{s:?} is another");
                s
            } else {
                let t = *cx.of(&texts);
                let s = if kind == 1 { Source::from(t) } else { Source::from(t.to_string()) };
                ensure_eq!(s.to_string(), t, "custom", "a custom source");
                ensure_eq!(s.custom(), Some(t), "custom()", "a custom source");
                ensure!(s.file_path().is_none() && s.code_location().is_none(), "accessor", "{s:?}");
                ensure_eq!(s, Source::Custom(t.to_string()), "from", "a custom source");
                ensure!(s != Source::from(Path::new(t)), "eq", "{s:?} is a file");
                s
            };
            cx.checked(5);
            cx.op(|| format!("{source:?}"));
            cx.outcome(&source.to_string());
            let name = *cx.of(&["", "n", "a b"]);
            let mds = [Metadata::from(name, source.clone()), Metadata::named(name).source(source.clone()),
                Metadata::named(name).source("other").source(source.clone()), Metadata::from(name.to_string(), source.clone())];
            let md = cx.of(&mds);
            ensure_eq!(md.source.as_ref(), Some(&source), "metadata", "the source of {name:?}");
            ensure_eq!(&*md.name, name, "name", "the name");
            ensure!(md == &mds[0] && md != &Metadata::named(name), "eq", "{md:?}");
            Ok(())
        }));

    all
}
