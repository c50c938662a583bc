//! Numbers: every pair of a source and a target width, over boundary values.

use figment::error::Actual;
use figment::providers::{Env, Format, Json, Toml, Yaml};
use figment::value::{Num, Value};
use figment::{Figment, Provider};

use crate::c05::extract;
use crate::dynde::*;
use crate::engine::*;
use crate::model::*;
use crate::{ensure, ensure_eq};

pub const INTS: [Ty; 12] = [Ty::U8, Ty::U16, Ty::U32, Ty::U64, Ty::U128, Ty::Usize, Ty::I8, Ty::I16, Ty::I32,
    Ty::I64, Ty::I128, Ty::Isize];

fn targets() -> Vec<Ty> {
    let mut v = INTS.to_vec();
    v.extend([Ty::F32, Ty::F64]);
    v
}

fn wide(s: &Sc) -> bool { matches!(s, Sc::U128(_) | Sc::I128(_)) }

fn float(s: &Sc) -> Option<f64> {
    match s {
        Sc::F32(b) => Some(f32::from_bits(*b) as f64),
        Sc::F64(b) => Some(f64::from_bits(*b)),
        _ => None,
    }
}

/// Whether the number may be extracted as this one of the target's type.
fn faithful(from: &Sc, to: &Sc) -> bool {
    if let (Some(a), Some(b)) = (int(from), int(to)) { return a == b || (a.1 == 0 && b.1 == 0); }
    match (from, to) {
        (Sc::F64(a), Sc::F32(b)) => {
            let (a, b) = (f64::from_bits(*a), f32::from_bits(*b));
            a as f32 == b && (a as f32).is_sign_negative() == b.is_sign_negative() || (a.is_nan() && b.is_nan())
        }
        (Sc::F32(a), Sc::F64(b)) => {
            let (a, b) = (f32::from_bits(*a) as f64, f64::from_bits(*b));
            a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
        }
        (Sc::F32(_), Sc::F32(_)) | (Sc::F64(_), Sc::F64(_)) => from == to
            || (float(from).unwrap().is_nan() && float(to).unwrap().is_nan()),
        (i, Sc::F64(b)) if int(i).is_some() => {
            let (neg, m) = int(i).unwrap();
            let f = m as f64;
            (if neg { -f } else { f }) == f64::from_bits(*b)
        }
        (i, Sc::F32(b)) if int(i).is_some() => {
            let (neg, m) = int(i).unwrap();
            let f = m as f32;
            (if neg { -f } else { f }) == f32::from_bits(*b)
        }
        (f, i) if float(f).is_some() => {
            // Only a float that is whole is any integer, exactly.
            let (f, (neg, m)) = (float(f).unwrap(), int(i).unwrap());
            f.is_finite() && f.fract() == 0.0 && f.abs() < 3.4e38 && f.abs() as u128 == m && (neg == (f < 0.0) || m == 0)
        }
        _ => false,
    }
}

/// Whether it has to be accepted.
fn accepted(from: &Sc, ty: &Ty) -> bool {
    let Some((neg, mag)) = int(from) else {
        return matches!((from, ty), (Sc::F32(_), Ty::F32) | (Sc::F64(_), Ty::F64));
    };
    to_int(ty, neg, mag).is_some() && (!wide(from) || matches!(ty, Ty::U128 | Ty::I128))
}

/// The values of an integer type: all, or those around powers of two.
fn values(ty: &Ty, block: usize, blocks: usize) -> Vec<Sc> {
    let mut v: Vec<Sc> = vec![];
    match ty {
        Ty::U8 | Ty::I8 => if block == 0 {
            v.extend((-128..256).filter_map(|i: i32| to_int(ty, i < 0, i.unsigned_abs() as u128)))
        },
        Ty::U16 | Ty::I16 => {
            let n = (98304 + blocks as i32 - 1) / blocks as i32;
            v.extend((block as i32 * n - 32768..((block as i32 + 1) * n - 32768).min(65536))
                .filter_map(|i| to_int(ty, i < 0, i.unsigned_abs() as u128)));
        }
        _ => for bit in (0..128).filter(|b| b % blocks == block) {
            for d in -3..=3i128 {
                let m = (1u128 << bit).wrapping_add(d as u128);
                v.extend(to_int(ty, false, m));
                v.extend(to_int(ty, true, m));
            }
            // All ones, halves and a mix.
            for m in [u128::MAX >> (127 - bit), (1 << bit) | (1 << (bit / 2)), 0x5a5a_5a5a_5a5a_5a5a_a5a5_1234_dead_beef >> (127 - bit)] {
                v.extend(to_int(ty, false, m));
                v.extend(to_int(ty, true, m));
            }
        },
    }
    v
}

pub fn floats() -> Vec<f64> {
    let mut v = vec![0.0, -0.0, 0.1, 0.5, 1.0, 1.5, -1.0, -1.5, 2.0, 127.0, 128.0, 255.0, 256.0, -128.0, -129.0,
        1e10, 1e19, 1e20, 1e38, 1e39, 3.5e38, -1e300, 1e-300, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::EPSILON,
        f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f32::MAX as f64, f32::MIN_POSITIVE as f64,
        f32::MAX as f64 * (1.0 + 2f64.powi(-25)), 16777217.0, 9007199254740993.0, 0.30000000000000004,
        1.0 + 2f64.powi(-24), 1.0 + 2f64.powi(-23), 1.0 + 2f64.powi(-24) + 2f64.powi(-52), 5e-324, 1.4e-45, 7e-46];
    for k in 0..128 {
        let p = 2f64.powi(k);
        v.extend([p, p - 1.0, p + 1.0, -p, -p - 1.0]);
    }
    v
}

fn wrapped(ty: &Ty, n: &N, how: usize) -> (Ty, N) {
    match how {
        0 => (ty.clone(), n.clone()),
        1 => (opt(ty.clone()), n.clone()),
        2 => (seq(ty.clone()), N::a(vec![n.clone()])),
        3 => (map(ty.clone()), N::d(vec![("k", n.clone())])),
        4 => (newtype(ty.clone()), n.clone()),
        5 => (tagged(ty.clone()), n.clone()),
        6 => (Ty::Enum(vec![Var::Newtype(rc(ty.clone()))]), N::d(vec![("Va", n.clone())])),
        _ => (strukt(vec![opt(ty.clone()), ty.clone()]), N::d(vec![("a", n.clone()), ("b", n.clone())])),
    }
}

fn numbers(o: &Out, into: &mut Vec<Sc>) {
    match o {
        Out::S(s) => into.push(s.clone()),
        Out::Some(o) | Out::Newtype(o) | Out::Tagged(_, o) => numbers(o, into),
        Out::Seq(v) | Out::Struct(v) | Out::Var(_, v) => v.iter().for_each(|o| numbers(o, into)),
        Out::Map(m) => m.values().for_each(|o| numbers(o, into)),
        o => unreachable!("{o:?}"),
    }
}

fn number(cx: &mut Cx, s: &Sc, how: usize) -> R {
    let n = N::sc(s.clone());
    for ty in targets() {
        let (t, n) = wrapped(&ty, &n, how);
        let t = rc(t);
        let v = n.value();
        let f = Figment::new().merge(("k", v.clone()));
        let results = [
            ("strict", extract(&f, &t, false, Some("k"))),
            ("lossy", extract(&f, &t, true, Some("k"))),
            ("whole", extract(&f, &rc(map((*t).clone())), false, None).map(|o| match o {
                Out::Map(mut m) => m.remove("k").unwrap(), o => o
            })),
            ("dynamic", with(&t, None, || v.deserialize::<Dyn>()).map(|d| d.0)),
            ("typed", {
                let f = Figment::new().merge(figment::providers::Serialized::global("k.l", Ser(&Ty::Value, &Out::Node(n.clone()))));
                extract(&f, &t, false, Some("k.l"))
            }),
        ];
        for (what, r) in results {
            // Tagged values only come from configurations.
            if how == 5 && what == "dynamic" { continue; }
            cx.checked(1);
            match r {
                Ok(o) => {
                    let mut all = vec![];
                    numbers(&o, &mut all);
                    ensure!(!all.is_empty(), "lost", "{what}: {} as {t}: {o:?}", n.show());
                    for to in all {
                        if !faithful(s, &to) {
                            return fail("altered", format!("{what}: {} as {t} became {to:?}", n.show()));
                        }
                    }
                }
                Err(e) if accepted(s, &ty) => {
                    return fail("rejected", format!("{what}: {} rejected as {t}: {e}", n.show()));
                }
                Err(_) => {}
            }
        }
    }
    Ok(())
}

fn num_of(s: &Sc) -> Num { s.value().to_num().unwrap() }

/// The conversions there are of numbers and dynamic values.
fn conversions(cx: &mut Cx, s: &Sc) -> R {
    let (n, v) = (num_of(s), s.value());
    cx.checked(12);
    ensure!(Sc::of(&v).as_ref() == Some(s), "into", "{s:?} became {v:?}");
    let un = unsigned(s);
    match int(s) {
        Some((neg, m)) => {
            let i = || if neg { (m as i128).wrapping_neg() } else { m as i128 };
            ensure_eq!(n.to_u128(), un.then_some(m), "to_u128", "{s:?}");
            ensure_eq!(v.to_u128(), un.then_some(m), "to_u128", "value {s:?}");
            ensure_eq!(n.to_u128_lossy(), (!neg || m == 0).then_some(m), "to_u128_lossy", "{s:?}");
            ensure_eq!(n.to_i128(), (!un).then(i), "to_i128", "{s:?}");
            ensure_eq!(v.to_i128(), (!un).then(i), "to_i128", "value {s:?}");
            ensure_eq!(n.to_f64(), None, "to_f64", "{s:?}");
            ensure_eq!(v.to_f64(), None, "to_f64", "value {s:?}");
            ensure_eq!(n.to_u32(), matches!(s, Sc::U8(_) | Sc::U16(_) | Sc::U32(_)).then_some(m as u32), "to_u32", "{s:?}");
            let actual = if un { Actual::Unsigned(m) } else { Actual::Signed(i()) };
            ensure_eq!(n.to_actual(), actual, "to_actual", "{s:?}");
            ensure_eq!(v.to_actual(), actual, "to_actual", "value {s:?}");
        }
        None => {
            let f = float(s).unwrap();
            let same = |g: Option<f64>| g.map_or(false, |g| g.to_bits() == f.to_bits() || (f.is_nan() && g.is_nan()));
            ensure!(same(n.to_f64()) && same(v.to_f64()), "to_f64", "{s:?}: {:?}", n.to_f64());
            ensure!(n.to_u128().is_none() && n.to_i128().is_none() && n.to_u128_lossy().is_none()
                && n.to_u32().is_none() && v.to_u128().is_none() && v.to_i128().is_none(), "to_int", "{s:?}");
            match n.to_actual() {
                Actual::Float(g) => ensure!(same(Some(g)), "to_actual", "{s:?}: {g}"),
                a => return fail("to_actual", format!("{s:?}: {a:?}")),
            }
        }
    }
    ensure!(matches!(v.to_num(), Some(m) if Sc::of(&Value::from(m)).as_ref() == Some(s)), "to_num", "{s:?}: {:?}", v.to_num());
    ensure!(matches!(v.to_num_lossy(), Some(m) if Sc::of(&Value::from(m)).as_ref() == Some(s)), "to_num_lossy", "{s:?}");
    Ok(())
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![];

    let blocks = 128;
    v.push(Scenario::new(
        "integers",
        "every 8- and 16-bit integer, and those around every power of two of every wider integer type, as \
         each of 14 numeric types, strictly and lossily, from a configuration and a dynamic value",
        move |cx| {
            let block = cx.pick(blocks);
            let ty = cx.of(&INTS).clone();
            let all = values(&ty, block, blocks);
            if all.is_empty() { return Err(Stop::Skip); }
            cx.op(|| format!("{} values of {ty}", all.len()));
            for (i, s) in all.iter().enumerate() {
                cx.state(s);
                // Each value bare, and in the other ways in turn.
                let narrow = matches!(ty, Ty::U16 | Ty::I16);
                if narrow && tier == Tier::Quick && !(i % 16 < 2) { continue; }
                number(cx, s, 0)?;
                if !narrow { for how in 1..8 { number(cx, s, how)?; } } else { number(cx, s, i / 7 % 8)?; }
            }
            Ok(())
        }
    ));

    v.push(Scenario::new(
        "floats",
        "682 floats of both widths as each of 14 numeric types, in 8 containers",
        |cx| {
            let all = floats();
            let f = *cx.of(&all);
            let s = if cx.flag() { Sc::f32(f as f32) } else { Sc::f64(f) };
            cx.op(|| format!("{s:?} {f}"));
            cx.state(&s);
            for how in 0..8 { number(cx, &s, how)?; }
            conversions(cx, &s)
        }
    ));

    v.push(Scenario::new(
        "conversions",
        "conversions of numbers and dynamic values, for every 8- and 16-bit integer and those around every \
         power of two of wider types",
        move |cx| {
            let block = cx.pick(blocks);
            for ty in INTS {
                let all = values(&ty, block, blocks);
                cx.op(|| format!("{} values of {ty}", all.len()));
                for s in all {
                    cx.state(&s);
                    conversions(cx, &s)?;
                }
            }
            Ok(())
        }
    ));

    v.push(Scenario::new(
        "comparisons",
        "equality of every pair of numbers of 14 types from a list of some 60 values each",
        |cx| {
            let mut all: Vec<Sc> = vec![];
            for ty in INTS {
                for bit in [0, 1, 7, 8, 15, 16, 31, 32, 53, 63, 64, 127] {
                    for d in -1..=1i128 {
                        let m = (1u128 << bit).wrapping_add(d as u128);
                        all.extend(to_int(&ty, false, m));
                        all.extend(to_int(&ty, true, m));
                    }
                }
            }
            for f in floats().into_iter().filter(|f| f.abs() < 300.0 || f.abs() > 1e18) {
                all.extend([Sc::f32(f as f32), Sc::f64(f)]);
            }
            let a = cx.of(&all).clone();
            cx.op(|| format!("{a:?} with {} others", all.len()));
            cx.state(&a);
            for b in &all {
                cx.checked(2);
                let same = match (int(&a), int(b)) {
                    (Some(x), Some(y)) => unsigned(&a) == unsigned(b) && x == y,
                    (None, None) => float(&a) == float(b),
                    _ => false,
                };
                ensure_eq!(num_of(&a) == num_of(b), same, "equal", "{a:?} == {b:?}");
                ensure_eq!(a.value() == b.value(), same, "equal", "values {a:?} == {b:?}");
            }
            Ok(())
        }
    ));

    v.push(Scenario::new(
        "strings",
        "the decimal strings of integers around every power of two up to 2^128, in 6 spellings, and of 682 \
         floats, parsed as a number, by lossy conversion and by lossy extraction as each of 14 numeric types",
        |cx| {
            let bit = cx.pick(130) as u32;
            let mut all: Vec<(String, Option<Sc>)> = vec![];
            if bit == 129 {
                for f in floats() {
                    for t in [format!("{f:?}"), format!("{f}")] {
                        if t.contains('.') { all.push((t, Some(Sc::f64(f)))); }
                    }
                }
            } else {
                for d in -3..=3i128 {
                    let m = match bit {
                        128 => u128::MAX.wrapping_add_signed(d),
                        _ => (1u128 << bit).wrapping_add_signed(d),
                    };
                    let digits = m.to_string();
                    let neg = to_int(&Ty::I128, true, m);
                    let pos = to_int(&Ty::U128, false, m);
                    all.push((digits.clone(), pos.clone()));
                    all.push((format!("00{digits}"), pos.clone()));
                    all.push((format!(" {digits} "), pos.clone()));
                    all.push((format!("+{digits}"), pos));
                    all.push((format!("-{digits}"), neg.clone()));
                    all.push((format!("-0{digits}"), neg));
                }
                if bit == 128 {
                    // Just past the widest.
                    for t in ["340282366920938463463374607431768211456", "-170141183460469231731687303715884105729",
                        "9999999999999999999999999999999999999999999999"] { all.push((t.into(), None)); }
                }
            }
            for (t, want) in all {
                cx.op(|| t.clone());
                cx.state(&t);
                let n: Option<Num> = t.parse().ok();
                let v = Value::from(t.clone());
                let f = Figment::new().merge(("k", t.clone()));
                cx.checked(2);
                for (what, n) in [("parse", n), ("to_num_lossy", v.to_num_lossy())] {
                    match (n.map(|n| Sc::of(&Value::from(n)).unwrap()), &want) {
                        (Some(n), Some(w)) => ensure!(faithful(w, &n), "altered", "{what} of {t:?}: {n:?}"),
                        // Only what is padded or has a sign that is not needed may be refused.
                        (None, Some(_)) => ensure!(t.starts_with(['+', ' ']), "rejected", "{what} of {t:?}"),
                        (None, None) => {}
                        // It cannot be any of the number types.
                        (Some(n), None) => return fail("altered", format!("{what} of {t:?}: {n:?}")),
                    }
                }
                for ty in targets() {
                    cx.checked(1);
                    match (extract(&f, &rc(ty.clone()), true, Some("k")), &want) {
                        (Ok(Out::S(to)), Some(w)) => ensure!(faithful(w, &to), "altered", "lossy {t:?} as {ty}: {to:?}"),
                        (Ok(o), _) => return fail("altered", format!("lossy {t:?} as {ty}: {o:?}")),
                        (Err(_), _) => {}
                    }
                }
            }
            Ok(())
        }
    ));

    v.push(Scenario::new(
        "documents",
        "numbers around every power of two up to 2^64, and floats, written in TOML, JSON, YAML and an \
         environment variable, as each of 14 numeric types",
        |cx| {
            let bit = cx.pick(64) as u32;
            let neg = cx.flag();
            let kind = cx.pick(4);
            let mut texts: Vec<(String, Sc)> = vec![];
            for d in -2..=2i128 {
                let Some(m) = (1u128 << bit).checked_add_signed(d) else { continue };
                let fits = match (kind, neg) { (0, _) | (_, true) => m < 1 << 63 || (neg && m == 1 << 63), _ => m < 1 << 64 };
                // Formats differ in whether that is a float.
                if !fits || (neg && m == 0) { continue; }
                let Some(s) = to_int(if neg { &Ty::I64 } else { &Ty::U64 }, neg, m) else { continue };
                texts.push((format!("{}{m}", if neg { "-" } else { "" }), s));
            }
            for f in [0.5, 0.1, 1.0 / 3.0, 1e15, 123456.789, 2f64.powi(bit as i32 - 20)] {
                let f = if neg { -f } else { f } * (bit + 1) as f64;
                // The JSON parser may be off by one in the last place otherwise.
                if kind == 1 && (f * 8.0).fract() != 0.0 { continue; }
                let t = format!("{f}");
                texts.push((if t.contains('.') { t } else { t + ".0" }, Sc::f64(f)));
            }
            for (t, s) in texts {
                cx.op(|| t.clone());
                cx.state(&(&t, kind));
                let p: Box<dyn Fn() -> Figment> = match kind {
                    0 => Box::new(|| Figment::new().merge(Toml::string(&format!("k = {t}")))),
                    1 => Box::new(|| Figment::new().merge(Json::string(&format!("{{\"k\": {t}}}")))),
                    2 => Box::new(|| Figment::new().merge(Yaml::string(&format!("k: {t}")))),
                    _ => Box::new(|| {
                        std::env::set_var("MCNUM_K", &t);
                        let f = Figment::new().merge(Env::prefixed("MCNUM_"));
                        std::env::remove_var("MCNUM_K");
                        f
                    }),
                };
                let f = p();
                ensure!(f.data().is_ok(), "document", "{t}: {:?}", f.data());
                for ty in targets() {
                    for lossy in [false, true] {
                        cx.checked(1);
                        match extract(&f, &rc(ty.clone()), lossy, Some("k")) {
                            Ok(Out::S(to)) => ensure!(faithful(&s, &to), "altered", "{t} as {ty}: {to:?}"),
                            Ok(o) => return fail("altered", format!("{t} as {ty}: {o:?}")),
                            Err(e) if accepted(&s, &ty) => return fail("rejected", format!("{t} as {ty}: {e}")),
                            Err(_) => {}
                        }
                    }
                }
            }
            Ok(())
        }
    ));

    v
}
