//! Environment sources: chains of selecting and renaming steps over sets of
//! variables, against a model that applies them to plain strings.

use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};

use figment::providers::Env;
use figment::{Figment, Profile, Provider};

use crate::c12::reference;
use crate::engine::*;
use crate::model::*;
use crate::{ensure, ensure_eq};

/// A step of a chain.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Step {
    Only(Vec<&'static str>), Ignore(Vec<&'static str>), Split(&'static str), Lower(bool),
    /// Keeps what contains a letter, in either case.
    Has(char),
    /// Keeps names of an even length.
    Even,
    Upper, Append(&'static str), Prepend(&'static str), Trim,
    /// Without the first character, or nothing.
    Rest,
    /// Drops what starts with it, in either case, keeps the rest reversed.
    DropReverse(&'static str),
    Profile(&'static str), Global,
}

fn lower(s: &str) -> String {
    s.chars().map(|c| if c.is_ascii_uppercase() { (c as u8 + 32) as char } else { c }).collect()
}

fn same_name(a: &str, b: &str) -> bool { lower(a) == lower(b) }

fn replace(s: &str, pat: &str, with: &str) -> String {
    if pat.is_empty() {
        return s.chars().fold(with.to_string(), |o, c| o + &c.to_string() + with);
    }
    let (mut out, mut rest) = (String::new(), s);
    while let Some(c) = rest.chars().next() {
        match rest.strip_prefix(pat) {
            Some(r) => { out += with; rest = r; }
            None => { out.push(c); rest = &rest[c.len_utf8()..]; }
        }
    }
    out
}

impl Step {
    fn apply(&self, env: Env) -> Env {
        match self.clone() {
            Step::Only(k) => env.only(&k),
            Step::Ignore(k) => env.ignore(&k),
            Step::Split(p) => env.split(p),
            Step::Lower(b) => env.lowercase(b),
            Step::Has(c) => env.filter(move |k| k.as_str().to_ascii_lowercase().contains(c)),
            Step::Even => env.filter(|k| k.len() % 2 == 0),
            Step::Upper => env.map(|k| k.as_str().to_ascii_uppercase().into()),
            Step::Append(s) => env.map(move |k| format!("{k}{s}").into()),
            Step::Prepend(s) => env.map(move |k| format!("{s}{k}").into()),
            Step::Trim => env.map(|k| k.as_str().trim().into()),
            Step::Rest => env.filter_map(|k| {
                let mut c = k.as_str().chars();
                c.next()?;
                Some(c.as_str().into())
            }),
            Step::DropReverse(p) => env.filter_map(move |k| match k.starts_with(p) {
                true => None,
                false => Some(k.as_str().chars().rev().collect::<String>().into()),
            }),
            Step::Profile(p) => env.profile(p),
            Step::Global => env.global(),
        }
    }

    fn model(&self, k: String) -> Option<String> {
        Some(match self {
            Step::Only(ks) => if ks.iter().any(|o| same_name(o, &k)) { k } else { return None },
            Step::Ignore(ks) => if ks.iter().any(|o| same_name(o, &k)) { return None } else { k },
            Step::Split(p) => replace(&k, p, "."),
            Step::Has(c) => if lower(&k).contains(*c) { k } else { return None },
            Step::Even => if k.len() % 2 == 0 { k } else { return None },
            Step::Upper => k.to_ascii_uppercase(),
            Step::Append(s) => k + s,
            Step::Prepend(s) => format!("{s}{k}"),
            Step::Trim => k.trim().to_string(),
            Step::Rest => {
                let mut c = k.chars();
                c.next()?;
                c.as_str().to_string()
            }
            Step::DropReverse(p) => {
                if lower(&k).starts_with(&lower(p)) { return None }
                k.chars().rev().collect()
            }
            Step::Lower(_) | Step::Profile(_) | Step::Global => k,
        })
    }
}

fn steps() -> Vec<Step> {
    vec![
        Step::Only(vec!["a", "A_b", "b.a", "É", "a b"]), Step::Only(vec![]), Step::Only(vec!["A.B", "_a", "ab"]),
        Step::Ignore(vec!["A", "b_a", "a.B"]), Step::Ignore(vec![]), Step::Ignore(vec!["ab", "bA", "", " a", "é"]),
        Step::Split("_"), Step::Split("__"), Step::Split("."), Step::Split(" "), Step::Split("A"), Step::Split(""),
        Step::Split("É"),
        Step::Lower(false), Step::Lower(true), Step::Has('a'), Step::Even, Step::Upper, Step::Append(".z"),
        Step::Append("_"), Step::Prepend("a."), Step::Prepend(" "), Step::Trim, Step::Rest, Step::DropReverse("a"),
        Step::Profile("Zone"), Step::Global,
    ]
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Chain { prefix: Option<&'static str>, steps: Vec<Step> }

impl Chain {
    fn env(&self) -> Env {
        let env = match self.prefix { Some(p) => Env::prefixed(p), None => Env::raw() };
        self.steps.iter().fold(env, |e, s| s.apply(e))
    }

    /// The key for a variable of this name.
    fn key(&self, name: &str) -> Option<String> {
        let mut k = name.trim().to_string();
        if let Some(p) = self.prefix {
            if !k.is_char_boundary(p.len()) || !same_name(&k[..p.len()], p) { return None; }
            k = k[p.len()..].to_string();
        }
        for s in &self.steps { k = s.model(k)?; }
        let k = k.trim().to_string();
        if k.split('.').any(|s| s.is_empty()) { return None; }
        let low = self.steps.iter().rev().find_map(|s| match s { Step::Lower(b) => Some(*b), _ => None });
        Some(if low.unwrap_or(true) { lower(&k) } else { k })
    }

    fn profile(&self) -> &'static str {
        self.steps.iter().rev().find_map(|s| match s {
            Step::Profile(p) => Some(*p),
            Step::Global => Some("global"),
            _ => None,
        }).unwrap_or("default")
    }
}

/// Leaves only what the harness itself needs.
pub fn clear() {
    for (k, _) in std::env::vars_os() {
        if !k.as_bytes().starts_with(b"MC_") { std::env::remove_var(k); }
    }
}

fn lossy(s: &OsString) -> String { String::from_utf8_lossy(s.as_bytes()).into_owned() }

/// What the data may be: in any order, if variables conflict.
fn trees(entries: &[(String, String)]) -> Option<Vec<Tree>> {
    let build = |order: &[usize]| {
        let mut t = Tree::new();
        for &i in order {
            let path: Vec<&str> = entries[i].0.split('.').collect();
            let one = at(&path, reference(&entries[i].1));
            t = combine_trees(t, one.dict().unwrap().clone(), Op::Merge);
        }
        t
    };
    let mut at_odds: Vec<usize> = vec![];
    for i in 0..entries.len() {
        for j in 0..entries.len() {
            let (a, b) = (&entries[i].0, &entries[j].0);
            if i != j && (a == b || a.starts_with(&format!("{b}.")) || b.starts_with(&format!("{a}."))) {
                at_odds.push(i);
                break;
            }
        }
    }
    let rest: Vec<usize> = (0..entries.len()).filter(|i| !at_odds.contains(i)).collect();
    if at_odds.len() > 5 { return None; }
    let mut orders = vec![vec![]];
    for _ in 0..at_odds.len() {
        orders = orders.into_iter().flat_map(|o: Vec<usize>| {
            at_odds.iter().filter(|i| !o.contains(i)).map(|&i| {
                let mut o = o.clone();
                o.push(i);
                o
            }).collect::<Vec<_>>()
        }).collect();
    }
    Some(orders.into_iter().map(|o| build(&[rest.clone(), o].concat())).collect())
}

pub fn strip(n: &N) -> N {
    // Numbers by magnitude.
    let mut n = n.bare();
    fn go(n: &mut N) {
        match &mut n.v {
            M::S(s) => if let Some((neg, mag)) = crate::dynde::int(s) {
                *s = if neg { Sc::I128((mag as i128).wrapping_neg()) } else { Sc::U128(mag) };
            },
            M::A(v) => v.iter_mut().for_each(go),
            M::D(d) => d.values_mut().for_each(go),
        }
    }
    go(&mut n);
    n
}

/// Compares all that the source says with the model.
fn check(cx: &mut Cx, chain: &Chain) -> R {
    let vars: Vec<(String, String)> = std::env::vars_os().map(|(k, v)| (lossy(&k), lossy(&v))).collect();
    cx.op(|| format!("{chain:?}"));
    let mut want: Vec<(String, String)> = vars.iter()
        .filter_map(|(k, v)| Some((chain.key(k)?, v.clone()))).collect();
    let env = chain.env();

    cx.checked(3);
    let mut got: Vec<(String, String)> = env.iter().map(|(k, v)| (k.into_string(), v)).collect();
    let in_order = want.clone();
    want.sort();
    got.sort();
    ensure_eq!(got, want, "variables", "{chain:?} of {vars:?}");
    cx.state(&(chain, &want));
    cx.outcome(&(want.len(), chain.profile()));

    let data = match env.data() {
        Ok(d) => d,
        Err(e) => return fail("error", format!("{chain:?} of {vars:?}: {e}")),
    };
    let prof = Profile::new(chain.profile());
    ensure!(data.keys().eq([&prof]), "profiles", "{chain:?}: {:?}", data.keys());
    let tree = strip(&root(tree_of(&data[&prof], &nosrc)));
    if let Some(allowed) = trees(&in_order) {
        ensure!(allowed.iter().any(|t| strip(&root(t.clone())) == tree), "data",
            "{chain:?} of {vars:?}: got {}, expected {}", tree.show(), show_tree(&allowed[0]));
    }

    let f = Figment::new().merge(&env).select(match chain.profile() { "global" => "default", p => p });
    let got = extracted(&f).map(|n| strip(&n)).map_err(|e| e.to_string());
    ensure!(got.as_ref().ok() == Some(&tree), "extracted", "{chain:?} of {vars:?}: got {got:?}, expected {}", tree.show());
    let other = Figment::new().merge(&env).select("elsewhere");
    let got = extracted(&other).map(|n| strip(&n)).map_err(|e| e.to_string());
    let want = if ["Zone", "p"].contains(&chain.profile()) { root(Tree::new()) } else { tree };
    ensure!(got.as_ref().ok() == Some(&want), "other profile", "{chain:?} of {vars:?}: got {got:?}, expected {}", want.show());
    Ok(())
}

struct Vars(Vec<OsString>);

impl Vars {
    fn new() -> Vars { clear(); Vars(vec![]) }

    fn set(&mut self, cx: &mut Cx, k: impl Into<OsString>, v: impl Into<OsString>) {
        let (k, v) = (k.into(), v.into());
        cx.note(|| format!("{k:?}={v:?}"));
        std::env::set_var(&k, &v);
        self.0.push(k);
    }
}

impl Drop for Vars {
    fn drop(&mut self) { for k in &self.0 { std::env::remove_var(k); } }
}

const PREFIXES: [Option<&str>; 8] =
    [None, Some(""), Some("a"), Some("A_"), Some("ab"), Some("É"), Some("_"), Some("a.")];

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![];

    let len = tier.sel(4, 5);
    v.push(Scenario::new(
        "names",
        format!("one variable with every name of up to {len} of the tokens `A b a _ . space é É`, 8 prefixes, \
            no step or each of 27"),
        move |cx| {
            let n = cx.pick(len) + 1;
            let name: String = (0..n).map(|_| *cx.of(&["A", "b", "a", "_", ".", " ", "é", "É"])).collect();
            let prefix = *cx.of(&PREFIXES);
            let all = steps();
            let mut vars = Vars::new();
            vars.set(cx, &name, "[1, x]");
            let steps = match cx.pick(all.len() + 1) { 0 => vec![], i => vec![all[i - 1].clone()] };
            check(cx, &Chain { prefix, steps })
        }
    ).tasks(2000));

    v.push(Scenario::new(
        "chains",
        format!("every chain of up to {} of 27 steps with one of 3 prefixes over a set of 10 variables", tier.sel(3, 4)),
        move |cx| {
            let mut vars = Vars::new();
            for (k, v) in [("A_B", "1"), ("ab_ba", "x"), ("A_b__a", "[2]"), (" a_ ", "\"q\""), ("AÉ_é", "true"),
                ("ba_c.d", "1.5"), ("Ab b", "{k=v}"), ("a__bb", ""), ("A", "'c'"), ("_a_", "-7")] {
                vars.set(cx, k, v);
            }
            let prefix = *cx.of(&[None, Some("A"), Some("a_")]);
            let all = steps();
            let n = cx.pick(tier.sel(4, 5));
            let steps = (0..n).map(|_| cx.of(&all).clone()).collect();
            check(cx, &Chain { prefix, steps })
        }
    ).tasks(2000));

    v.push(Scenario::new(
        "deeper",
        "every chain of up to 5 (thorough: 6) of 8 steps over a set of 6 variables",
        move |cx| {
            let mut vars = Vars::new();
            for (k, v) in [("A_B", "1"), ("a_B_c", "x"), ("AB", "[2]"), ("b.A_", "3"), ("c__B", "4"), ("B", "5")] {
                vars.set(cx, k, v);
            }
            let all = [Step::Split("_"), Step::Lower(false), Step::Only(vec!["a.b", "A_b", "b"]),
                Step::Ignore(vec!["AB", "b.a"]), Step::Rest, Step::Has('b'), Step::Upper, Step::Profile("p")];
            let n = cx.pick(tier.sel(6, 7));
            let steps = (0..n).map(|_| cx.of(&all).clone()).collect();
            check(cx, &Chain { prefix: None, steps })
        }
    ).tasks(2000));

    v.push(Scenario::new(
        "sets",
        format!("every set of up to {} of 18 variables with any of 7 values each, by 6 chains: values sharing \
            parents are combined", tier.sel(2, 3)),
        move |cx| {
            let names = ["A", "a", "A_B", "A_b", "a_c", "A_B_C", "a.b", " A", "A ", "B_A", "A__B", "_A", "A_", ".A",
                "É", "é", "a_É", "A_B_D"];
            let values = ["1", "{b=2,c={d=x}}", "[a, b]", "", " t ", "{\"b\"={c=q}}", "{b.c=1}"];
            let mut vars = Vars::new();
            let n = cx.pick(tier.sel(2, 3)) + 1;
            let mut from = 0;
            for _ in 0..n {
                if from >= names.len() { return Err(Stop::Skip); }
                let i = from + cx.pick(names.len() - from);
                from = i + 1;
                let v = *cx.of(&values);
                vars.set(cx, names[i], v);
            }
            let chains: [(Option<&str>, Vec<Step>); 6] = [
                (None, vec![]), (None, vec![Step::Split("_")]), (Some("A"), vec![]), (Some("a_"), vec![Step::Split("_")]),
                (None, vec![Step::Lower(false), Step::Split("_")]), (None, vec![Step::Only(vec!["A", "a_b", "é"]), Step::Global]),
            ];
            let (prefix, steps) = cx.of(&chains).clone();
            check(cx, &Chain { prefix, steps })
        }
    ).tasks(2000));

    v.push(Scenario::new(
        "bytes",
        "names and values of up to 2 of 12 bytes and sequences, many not UTF-8, by 5 chains",
        |cx| {
            let parts: [&[u8]; 12] = [b"a", b"A", b"_", b".", b" ", b"\xff", b"\xc3\xa9", b"\xc3", b"\xf0\x9f\x98\x80",
                b"\xc2\xa0", b"\x01", b"\xe2\x80\x83"];
            let mut name = b"".to_vec();
            for _ in 0..cx.pick(2) + 1 { name.extend(*cx.of(&parts)); }
            let mut value = b"".to_vec();
            for _ in 0..cx.pick(3) { value.extend(*cx.of(&parts)); }
            let mut vars = Vars::new();
            vars.set(cx, OsString::from_vec(name), OsString::from_vec(value));
            let chains: [(Option<&str>, Vec<Step>); 5] = [
                (None, vec![]), (None, vec![Step::Split("_")]), (Some("a"), vec![]), (Some("\u{fffd}"), vec![]),
                (None, vec![Step::Lower(false)]),
            ];
            let (prefix, steps) = cx.of(&chains).clone();
            check(cx, &Chain { prefix, steps })
        }
    ));

    v.push(Scenario::new(
        "many",
        "1 to 300 variables; names of up to 300 characters, or parts; up to 129 steps; lists of up to 129 names",
        |cx| {
            let n = *cx.of(&[1usize, 2, 3, 5, 7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]);
            let shape = cx.pick(8);
            let (mut vars, mut chain) = (Vars::new(), Chain { prefix: Some("MANY_"), steps: vec![Step::Split("_")] });
            let leak = |s: String| -> &'static str { Box::leak(s.into_boxed_str()) };
            match shape {
                0 => for i in 0..n { vars.set(cx, format!("MANY_K{i}"), i.to_string()); },
                1 => for i in 0..n { vars.set(cx, format!("many_A_K{i}"), i.to_string()); },
                2 => vars.set(cx, format!("MANY_{}", "x".repeat(n)), "v"),
                3 => vars.set(cx, format!("MANY_{}z", "x_".repeat(n)), "v"),
                4 => {
                    vars.set(cx, format!("MANY_{}z", "x_".repeat(n)), "v");
                    vars.set(cx, format!("MANY_{}y", "x_".repeat(n - 1)), "w");
                }
                5 => {
                    vars.set(cx, "MANY_B", "v");
                    for i in 0..n.min(129) {
                        chain.steps.push(if i % 2 == 0 { Step::Append(".x") } else { Step::Ignore(vec!["q"]) });
                    }
                }
                6 => {
                    for i in 0..n { vars.set(cx, format!("MANY_K{i}"), i.to_string()); }
                    chain.steps = vec![Step::Only((0..n).step_by(2).map(|i| leak(format!("k{i}"))).collect())];
                }
                _ => {
                    for i in 0..n { vars.set(cx, format!("MANY_K{i}"), i.to_string()); }
                    chain.steps = vec![Step::Ignore((0..n).skip(1).map(|i| leak(format!("k{i}"))).collect())];
                }
            }
            check(cx, &chain)
        }
    ));

    v.push(Scenario::new(
        "lookup",
        "Env::var and var_or of each of 22 names among every set of up to 2 of 14 variables with 8 values",
        |cx| {
            let names = ["A", "a", " A", "A ", "AB", "aB", "É", "é", "\u{a0}a", "A_B", "A.B", "_", " ", "Ａ"];
            let values = ["", " ", "v", " v ", "\tv\n", "\"v\"", "[1, 2]", "\u{a0}é\u{3000}"];
            let asked = ["A", "a", " a", "a ", "ab", "AB", "aB", "É", "é", "A_B", "a_b", "a.b", "_", "", " ", "zz", "Ａ",
                "ａ", "\u{a0}A", "A\u{0}", "=", "A="];
            let mut vars = Vars::new();
            let mut set: Vec<(&str, &str)> = vec![];
            let mut from = 0;
            for _ in 0..cx.pick(3) {
                if from >= names.len() { return Err(Stop::Skip); }
                let i = from + cx.pick(names.len() - from);
                from = i + 1;
                let v = *cx.of(&values);
                set.push((names[i], v));
                vars.set(cx, names[i], v);
            }
            let name = *cx.of(&asked);
            cx.op(|| format!("var({name:?})"));
            cx.checked(2);
            let allowed: Vec<&str> = set.iter().filter(|(k, _)| same_name(k.trim(), name)).map(|(_, v)| v.trim()).collect();
            let got = Env::var(name);
            cx.state(&(&set, name));
            cx.outcome(&(allowed.len(), got.is_some()));
            let ok = match &got { None => allowed.is_empty(), Some(g) => allowed.contains(&&g[..]) };
            ensure!(ok, "var", "{name:?} in {set:?}: got {got:?}, expected one of {allowed:?}");
            let or = Env::var_or(name, " else ");
            let ok = if allowed.is_empty() { or == " else " } else { allowed.contains(&&or[..]) };
            ensure!(ok, "var_or", "{name:?} in {set:?}: got {or:?}, expected one of {allowed:?}");
            Ok(())
        }
    ));

    v.push(Scenario::new(
        "values",
        "variables whose names share up to 3 parents, with every pair of 40 values",
        |cx| {
            let values = ["", "1", "-1", "1.5", "true", "x", " x ", "\"x\"", "\" x \"", "'x'", "[]", "{}", "[1]", "{a=1}",
                "{a={b=1}}", "[{a=1}]", "[", "{", "\"", "\\", "a,b", "a=b", "a.b", "\"a\\nb\"", "\"\\u00e9\"", "é",
                "\u{a0}1\u{a0}", "0x10", "+1", "18446744073709551616", "{a.b=1}", "{\"a.b\"=1}", "{=1}", "[,]", "true ",
                "True", "null", "~", "[true, \"no\", {k=[]}]", "#"];
            let names = [("A_X", "A_Y"), ("A_B_X", "A_B_Y"), ("A_B_C_X", "A_B_C_Y"), ("X", "A"), ("A_X", "B_X"), ("A", "A_A")];
            let (j, k) = *cx.of(&names);
            let mut vars = Vars::new();
            let (x, y) = (*cx.of(&values), *cx.of(&values));
            vars.set(cx, j, x);
            vars.set(cx, k, y);
            check(cx, &Chain { prefix: None, steps: vec![Step::Split("_")] })
        }
    ));

    v
}
