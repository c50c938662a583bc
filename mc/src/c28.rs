//! Configurations that are written out and read again.

use std::collections::BTreeMap;

use figment::providers::{Format, Json, Serialized, Yaml};
use figment::value::{Dict, Map, Value};
use figment::{Figment, Profile, Provider};
use serde::Serialize;

use crate::c01::{docs, mark, odd_keys};
use crate::c05::{bad_values, extract, types};
use crate::c09::leaf_values;
use crate::dynde::*;
use crate::engine::*;
use crate::model::*;
use crate::{ensure, ensure_eq};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Out_ { Json, Pretty, Tree, Yaml }

const OUTS: [Out_; 4] = [Out_::Json, Out_::Pretty, Out_::Tree, Out_::Yaml];

fn write<T: Serialize>(v: &T, o: Out_) -> Result<String, String> {
    match o {
        Out_::Json => serde_json::to_string(v).map_err(|e| e.to_string()),
        Out_::Pretty => serde_json::to_string_pretty(v).map_err(|e| e.to_string()),
        // By way of another data model.
        Out_::Tree => serde_json::to_value(v).map(|v| v.to_string()).map_err(|e| e.to_string()),
        Out_::Yaml => serde_yaml::to_string(v).map_err(|e| e.to_string()),
    }
}

fn read(text: &str, o: Out_) -> Figment {
    match o {
        Out_::Yaml => Figment::from(Yaml::string(text)),
        _ => Figment::from(Json::string(text)),
    }
}

fn read_nested(text: &str, o: Out_) -> Figment {
    match o {
        Out_::Yaml => Figment::from(Yaml::string(text).nested()),
        _ => Figment::from(Json::string(text).nested()),
    }
}

/// What is left of the distinctions between values: for `text`, what text can
/// tell apart; else, what the data model of serde can.
fn norm(n: &N, text: bool) -> N {
    let mut n = n.bare();
    fn go(n: &mut N, text: bool) {
        match &mut n.v {
            M::S(s) => {
                if let Some((neg, mag)) = int(s) {
                    *s = if neg { Sc::I128((mag as i128).wrapping_neg()) } else { Sc::U128(mag) };
                }
                if text {
                    match s.clone() {
                        Sc::Char(c) => *s = Sc::Str(c.into()),
                        Sc::None => *s = Sc::Unit,
                        Sc::F32(b) => *s = Sc::f64(f32::from_bits(b) as f64),
                        _ => {}
                    }
                }
            }
            M::A(v) => v.iter_mut().for_each(|n| go(n, text)),
            M::D(d) => d.values_mut().for_each(|n| go(n, text)),
        }
    }
    go(&mut n, text);
    n
}

fn json(n: &N) -> serde_json::Value { to_json(&norm(n, true)) }

fn to_json(n: &N) -> serde_json::Value {
    use serde_json::json;
    match &n.v {
        M::S(s) => match s {
            Sc::Str(s) => json!(s),
            Sc::Bool(b) => json!(b),
            Sc::Unit | Sc::None => json!(null),
            Sc::Char(c) => json!(c),
            Sc::F32(b) => json!(f32::from_bits(*b) as f64),
            Sc::U128(v) => json!(*v as u64),
            Sc::I128(v) => json!(*v as i64),
            Sc::F64(b) => json!(f64::from_bits(*b)),
            s => unreachable!("{s:?}"),
        },
        M::A(v) => v.iter().map(to_json).collect(),
        M::D(d) => d.iter().map(|(k, v)| (k.clone(), to_json(v))).collect(),
    }
}

fn same(cx: &mut Cx, got: &N, want: &N, text: bool, what: &str) -> R {
    cx.checked(1);
    let (got, want) = (norm(got, text), norm(want, text));
    ensure!(got == want, "value", "{what}: got {}, expected {}", got.show(), want.show());
    Ok(())
}

fn err<E: std::fmt::Display>(what: &str) -> impl Fn(E) -> Stop + '_ {
    move |e| Stop::Fail { sig: "error".into(), msg: format!("{what}: {e}") }
}

/// All ways to get the data out of a configuration, and in again.
fn around(cx: &mut Cx, f: &Figment, want: &Tree, texts: bool) -> R {
    let n = root(want.clone());
    cx.state(&n);
    let value: Value = f.extract().map_err(err("as value"))?;
    let dict: Dict = f.extract().map_err(err("as dictionary"))?;
    same(cx, &N::of(&value, &nosrc), &n, false, "extracted")?;
    ensure!(root(tree_of(&dict, &nosrc)).bare() == N::of(&value, &nosrc).bare(), "dict", "{dict:?} {value:?}");

    if texts {
        let from_json: serde_json::Value = f.extract().map_err(err("as json"))?;
        ensure_eq!(from_json, to_json(&norm(&n, false)), "json", "extracted as another kind of tree: {}", n.show());
    }

    // Through serialized sources.
    for (k, g) in [
        Figment::from(Serialized::defaults(&value)), Figment::from(Serialized::globals(&dict)),
        Figment::from(("k.v", &value)).focus("k.v"), Figment::from(Serialized::from(&f.extract::<Value>().unwrap(), "Default")),
    ].into_iter().enumerate() {
        let got: Value = g.extract().map_err(err("serialized"))?;
        same(cx, &N::of(&got, &nosrc), &n, false, &format!("by serialized source {k}"))?;
        ensure!(Value::serialize(&got).ok().as_ref() == Some(&got), "again", "{got:?}");
    }

    if !texts { return Ok(()) }
    for o in OUTS {
        let text = write(&value, o).map_err(err("writing"))?;
        ensure_eq!(write(&dict, o).map_err(err("writing"))?, text, "dict text", "{o:?}");
        cx.op(|| format!("{o:?} {text:?}"));
        if o != Out_::Yaml {
            let j: serde_json::Value = serde_json::from_str(&text).map_err(err("parsing"))?;
            ensure_eq!(j, json(&n), "written", "{o:?} {text}");
        }

        let g = read(&text, o);
        let got: Value = g.extract().map_err(err(&format!("reading {o:?} {text}")))?;
        same(cx, &N::of(&got, &nosrc), &n, true, &format!("through {o:?} {text}"))?;

        // Not through a configuration.
        let direct: Value = match o {
            Out_::Yaml => serde_yaml::from_str(&text).map_err(err("as value"))?,
            _ => serde_json::from_str(&text).map_err(err("as value"))?,
        };
        ensure!(direct == got, "direct", "{text}: {direct:?} {got:?}");

        // Again, from what was read.
        let once = write(&got, o).map_err(err("writing again"))?;
        let twice: Value = read(&once, o).extract().map_err(err("reading again"))?;
        ensure!(twice == got, "unstable", "{o:?} {text}: {twice:?} {got:?}");
        cx.checked(4);
    }

    cx.outcome(&n);
    Ok(())
}

/// All data, by profile.
fn by_profile(cx: &mut Cx, f: &Figment, c: &Conf) -> R {
    let data: Map<Profile, Dict> = f.data().map_err(err("data"))?;
    let check = |cx: &mut Cx, g: &Figment, text: bool, what: &str| -> R {
        let got = g.data().map_err(err(what))?;
        let got: BTreeMap<String, Tree> = got.iter()
            .map(|(p, d)| (p.to_string().to_ascii_lowercase(), tree_of(d, &nosrc))).collect();
        ensure_eq!(got.keys().collect::<Vec<_>>(), c.data.keys().collect::<Vec<_>>(), "profiles", "{what}");
        for (p, t) in &got {
            same(cx, &root(t.clone()), &root(c.data[p].clone()), text, &format!("{what}: {p}"))?;
        }
        for sel in ["default", "one", "Two", "none"] {
            let got: Value = g.clone().select(sel).extract().map_err(err(what))?;
            same(cx, &N::of(&got, &nosrc), &root(c.effective_for(&sel.to_ascii_lowercase())), text,
                &format!("{what}: under {sel}"))?;
        }
        Ok(())
    };

    cx.state(c);
    for o in OUTS {
        let text = write(&data, o).map_err(err("writing"))?;
        cx.op(|| format!("{o:?} {text:?}"));
        check(cx, &read_nested(&text, o), true, &format!("{o:?} {text}"))?;
    }

    let g = data.iter().fold(Figment::new(), |g, (p, d)| g.merge(Serialized::from(d, p.clone())));
    check(cx, &g, false, "serialized")?;
    let g = data.iter().rev().fold(Figment::new(), |g, (p, d)| g.adjoin(Serialized::from(d, p.as_str().as_str())));
    check(cx, &g, false, "serialized, in reverse")?;
    cx.outcome(c);
    Ok(())
}

/// Whether the value can be written in every format.
fn writable(s: &Sc) -> bool {
    match s {
        Sc::F64(b) => ok(f64::from_bits(*b)),
        // Unless exact as a short decimal, it may be another one of 64 bits.
        Sc::F32(b) => ok(f32::from_bits(*b) as f64) && f32::from_bits(*b) * 8.0 % 1.0 == 0.0,
        s => match int(s) {
            Some((false, m)) => m <= u64::MAX as u128,
            Some((true, m)) => m <= i64::MAX as u128 + 1,
            None => true,
        }
    }
}

// The readers of JSON needn't be exact in the last place.
fn ok(f: f64) -> bool { f == 0.0 || (f.abs() < 1e15 && f.abs() > 1e-5) }

fn leaves() -> Vec<Sc> {
    let mut v: Vec<Sc> = [
        Ty::Bool, Ty::U8, Ty::U16, Ty::U32, Ty::U64, Ty::U128, Ty::Usize, Ty::I8, Ty::I16, Ty::I32, Ty::I64,
        Ty::I128, Ty::Isize, Ty::F32, Ty::F64, Ty::Char, Ty::Str, Ty::Unit
    ].iter().flat_map(leaf_values).collect();
    // No two of these are equal.
    v.retain(|s| !matches!(s, Sc::F64(b) if f64::from_bits(*b).is_nan()));
    v.retain(|s| !matches!(s, Sc::F32(b) if f32::from_bits(*b).is_nan()));
    v.push(Sc::None);
    v.extend([1.5, -2.25, 100.0, 123456789.5, 0.3, 1e10].map(Sc::f64));
    v.extend([1.5, -2.25, 100.0, 0.3].map(Sc::f32));
    for b in 0..64 {
        v.extend([Sc::U64(1 << b), Sc::U64((1 << b) - 1), Sc::I64(-(1i64 << b.min(62))), Sc::I128(-(1i128 << b))]);
    }
    v.extend(["null", "~", "no", "yes", "on", "0x1", "1e3", "1_000", ".5", "-", "- x", "a: b", "#", "# c", " ",
        "\t", "\r\n", "a\n  b\n", "'", "''", "|", ">", "&a", "*a", "!t", "%", "@", "`", "{", "}", "[", "]", ",",
        "?", ":", "<<", "=", "---", "...", "2020-01-01", "1:30", "NaN", ".inf", "-.inf", "+1", "0o7", "007", "True",
        "\u{7f}", "\u{85}", "\u{a0}", "\u{2028}", "\u{feff}", "\u{fffd}", "\u{10ffff}", "\\", "\\n", "\\u0041", "\u{1b}"]
        .map(|s| Sc::Str(s.into())));
    v
}

/// Keys that could be taken for something else, together.
const KEY_SETS: [&[&str]; 31] = [
    &["0"], &["0", "1"], &["0", "1", "2"], &["1", "2"], &["0", "2"], &["00", "1"], &["-1", "0"], &["0", "1", "a"],
    &["0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10"], &["true", "false"], &["false"], &["null"], &["a", "A"],
    &["start", "end"], &["type", "value"], &["t", "c"], &["tag", "content"], &["k", "v"], &["key", "value"], &["name"],
    &["secs", "nanos"], &["Ok"], &["Err"], &["Some"], &["None"], &["$ref"], &["$serde_json::private::Number"],
    &["<<"], &["<<", "a"], &["=", "!"], &["metadata", "provided"],
];

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![];

    v.push(Scenario::new(
        "leaves",
        "each of some 400 scalars: every width of number with its limits, all powers of two, \
         characters, strings that look like something else in some format; alone, in arrays and \
         dictionaries, beside others",
        |cx| {
            let s = cx.of(&leaves()).clone();
            let texts = writable(&s);
            let n = N::sc(s);
            let t: Tree = match cx.pick(6) {
                0 => one("k", n),
                1 => one("k", N::a(vec![n])),
                2 => one("k", N::a(vec![N::s("b"), n, N::sc(Sc::None)])),
                3 => one("k", N::d(vec![("k", n.clone()), ("l", n)])),
                4 => one("k", N::a(vec![N::a(vec![n.clone()]), N::d(vec![("x", n)])])),
                _ => [("k".to_string(), n.clone()), ("l".to_string(), n)].into_iter().collect(),
            };
            let f = Figment::from(P::ok(1, "default", &t));
            around(cx, &f, &t, texts)
        }
    ));

    v.push(Scenario::new(
        "keys",
        format!("each of those strings as a key, and every string of up to {} of 12 characters with a \
         meaning in some format, as key and as value", tier.sel(4, 5)),
        move |cx| {
            let k = match cx.pick(2) {
                0 => match cx.of(&leaves()).clone() { Sc::Str(s) => s, Sc::Char(c) => c.into(), _ => return Err(Stop::Skip) },
                _ => {
                    let n = cx.pick(tier.sel(5, 6));
                    (0..n).map(|_| *cx.of(&['a', '1', ' ', '\n', ':', '-', '#', '"', '\'', '.', '{', '\\'])).collect::<String>()
                }
            };
            let t: Tree = match cx.pick(3) {
                0 => one(&k, N::s(&k)),
                1 => one("k", root(one(&k, N::a(vec![N::s(&k), root(one(&k, N::u(1)))])))),
                _ => [(k.clone(), N::u(1)), ("z".to_string(), N::d(vec![]))].into_iter().collect(),
            };
            let f = Figment::from(P::ok(1, "default", &t));
            around(cx, &f, &t, true)
        }
    ));

    v.push(Scenario::new(
        "trees",
        "any tree over 2 keys up to depth 2 (3) with 4 leaves, one of them an array",
        move |cx| {
            let leaves = [N::s("l"), N::a(vec![N::u(1), N::d(vec![("a", N::sc(Sc::Unit))])]), N::i(-1), N::a(vec![])];
            let t = match tier {
                Tier::Quick => any_dict(cx, &["a", "b"], &leaves, 2),
                Tier::Thorough => any_dict(cx, &["a", "b"], &leaves[..2], 3),
            };
            let f = Figment::from(P::ok(1, "default", &t));
            around(cx, &f, &t, true)
        }
    ));

    v.push(Scenario::new(
        "layers",
        "each pair of documents by each operation in each pair of profiles, written as selected and by \
         profile",
        |cx| {
            let docs = docs();
            let mut c = Conf::new();
            let mut f = Figment::new();
            for i in 0..2 {
                let p = *cx.of(&["default", "one", "GLOBAL"]);
                let d = mark(cx.of(&docs).clone(), i);
                let op = *cx.of(&OPS);
                f = op.apply(f, P::ok(i as u32 + 1, p, &d));
                c.add_data([(p.to_string(), d)].into_iter().collect(), op);
            }
            if cx.flag() { f = f.select("one"); c.profile = "one".into(); }
            around(cx, &f, &c.effective(), true)?;
            by_profile(cx, &f, &c)
        }
    ));

    v.push(Scenario::new(
        "profiles",
        "any trees over 2 keys in three profiles, some absent or empty",
        move |cx| {
            let leaves = [N::s("l"), N::a(vec![N::sc(Sc::Char('c'))])];
            let mut c = Conf::new();
            let mut f = Figment::new();
            for (i, p) in ["default", "ONE", "two"].into_iter().enumerate() {
                if cx.flag() { continue }
                let t = any_dict(cx, &["a", "b"], &leaves, tier.sel(1, 2).min(if i < 2 { 2 } else { 1 }));
                f = f.merge(P::ok(i as u32 + 1, p, &t));
                c.add_data([(p.to_string(), t)].into_iter().collect(), Op::Merge);
            }
            by_profile(cx, &f, &c)
        }
    ));

    v.push(Scenario::new(
        "typed",
        format!("types of up to {} levels of 15 wrappers with a conforming value or any of 36 others, \
         extracted before and after", tier.sel(2, 3)),
        move |cx| {
            let leaves = [Ty::Bool, Ty::U8, Ty::I64, Ty::F64, Ty::Char, Ty::Str, Ty::Unit];
            let ty = types(cx, tier.sel(2, 3), &leaves);
            let n = match cx.pick(2) {
                0 => conforming(&ty, 1),
                _ => match cx.of(&bad_values()).clone() { Some(n) => n, None => return Err(Stop::Skip) },
            };
            let t = one("a", n);
            let ty = rc(ty);
            let f = Figment::from(P::ok(1, "default", &t));
            let before = extract(&f, &ty, false, Some("a")).ok().map(|o| o.bare());
            cx.op(|| format!("{ty} {}", show_tree(&t)));
            cx.state(&(&t, ty.to_string()));
            let value: Value = f.extract().map_err(err("value"))?;
            let f = Figment::from(Serialized::defaults(&value));
            let after = extract(&f, &ty, false, Some("a")).ok().map(|o| o.bare());
            ensure_eq!(after, before, "serialized", "{ty} from {}", show_tree(&t));

            // What a text cannot tell apart, types may.
            if norm(&root(t.clone()), true) != norm(&root(t.clone()), false) { return Ok(()) }
            let mut ok = true;
            fn all(n: &N, ok: &mut bool) {
                match &n.v {
                    M::S(s) => *ok &= writable(s),
                    M::A(v) => v.iter().for_each(|n| all(n, ok)),
                    M::D(d) => d.values().for_each(|n| all(n, ok)),
                }
            }
            all(&root(t.clone()), &mut ok);
            if !ok { return Ok(()) }
            for o in OUTS {
                let text = write(&value, o).map_err(err("writing"))?;
                let after = extract(&read(&text, o), &ty, false, Some("a")).ok().map(|o| o.bare());
                ensure_eq!(after, before, "text", "{ty} from {o:?} {text}");
            }
            cx.outcome(&before.is_some());
            cx.checked(6);
            Ok(())
        }
    ));

    v.push(Scenario::new(
        "key-sets",
        "dictionaries of keys that could mean something together (positions, bounds, flags, tags, names \
         that some format or library reserves) and of each pair of 28 odd keys, with alike or unlike \
         values, at the root, in a dictionary, in an array, by profile",
        |cx| {
            let keys: Vec<String> = match cx.pick(2) {
                0 => cx.of(&KEY_SETS).iter().map(|k| k.to_string()).collect(),
                _ => {
                    let odd = odd_keys();
                    let (i, j) = (cx.pick(odd.len()), cx.pick(odd.len()));
                    if i >= j { return Err(Stop::Skip) }
                    vec![odd[i].clone(), odd[j].clone()]
                }
            };
            let vals = cx.pick(4);
            let d: Tree = keys.iter().enumerate().map(|(i, k)| (k.clone(), match vals {
                0 => N::u(i as u8),
                1 => N::s(k),
                2 => N::d(vec![("0", N::u(1)), ("1", N::u(2))]),
                _ => [N::sc(Sc::Unit), N::a(vec![N::s("v")]), N::i(-1)][i % 3].clone(),
            })).collect();
            let t: Tree = match cx.pick(3) {
                0 => d,
                1 => one("k", root(d)),
                _ => one("k", N::a(vec![root(d.clone()), root(d)])),
            };
            let f = Figment::from(P::ok(1, "default", &t));
            around(cx, &f, &t, true)?;
            let mut c = Conf::new();
            c.add_data([("default".to_string(), t)].into_iter().collect(), Op::Merge);
            by_profile(cx, &f, &c)
        }
    ));

    v.push(Scenario::new(
        "sizes",
        "arrays and dictionaries of up to 1000 elements, strings of up to 5000 characters, depths of \
         up to 60",
        |cx| {
            let n = *cx.of(&[0, 1, 2, 3, 15, 16, 17, 31, 32, 33, 60]);
            let m = *cx.of(&[0, 1, 2, 127, 128, 129, 255, 256, 257, 1000]);
            let t: Tree = match cx.pick(6) {
                0 => one("k", N::a((0..m).map(|i| N::i(i as i64)).collect())),
                1 => (0..m).map(|i| (format!("k{i}"), N::i(i as i64))).collect(),
                2 => one("k", N::s(&"é ".repeat(m * 2))),
                3 => one("k", (0..n).fold(N::u(1), |v, _| N::a(vec![v]))),
                4 => one("k", (0..n).fold(N::u(1), |v, _| N::d(vec![("k", v)]))),
                _ => one("k", (0..n).fold(N::u(1), |v, i| if i % 2 == 0 { N::d(vec![("k", v)]) } else { N::a(vec![v, N::s("")]) })),
            };
            let f = Figment::from(P::ok(1, "default", &t));
            around(cx, &f, &t, true)?;
            let mut c = Conf::new();
            c.add_data([("default".to_string(), t)].into_iter().collect(), Op::Merge);
            by_profile(cx, &f, &c)
        }
    ));

    v
}
