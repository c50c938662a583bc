//! Lossy and strict extraction of every kind of spelling.

use figment::providers::{Env, Format, Json, Toml, Yaml};
use figment::value::Value;
use figment::Figment;

use crate::c05::{extract, replace, types};
use crate::c10::INTS;
use crate::dynde::*;
use crate::engine::*;
use crate::model::*;
use crate::{ensure, ensure_eq};

fn targets() -> Vec<Ty> {
    let mut v = vec![Ty::Bool, Ty::F64, Ty::F32];
    v.extend(INTS);
    v.extend([Ty::Str, Ty::Char, Ty::Unit, opt(Ty::Bool), opt(Ty::I16), opt(Ty::Str), Ty::Value, seq(Ty::U8),
        map(Ty::U8), newtype(Ty::Bool), newtype(Ty::U32), tagged(Ty::Bool), tagged(Ty::F64)]);
    v
}

/// Compares with what must be extracted, or that nothing must be.
fn agree(cx: &mut Cx, what: &str, n: &N, ty: &Ty, lossy: bool, got: Result<Out, figment::Error>) -> R {
    cx.checked(1);
    let want = expect(n, ty, lossy).map(|o| o.bare());
    let got = got.map(|o| o.bare());
    let how = if lossy { "lossy" } else { "strict" };
    match (got, want) {
        (Ok(g), Ok(w)) => ensure!(same(&g, &w), "value", "{what}, {how}: {} as {ty}: got {g:?}, expected {w:?}", n.show()),
        (Err(_), Err(_)) => {}
        (Ok(g), Err(_)) => return fail("accepted", format!("{what}, {how}: {} as {ty}: got {g:?}, expected an error", n.show())),
        (Err(e), Ok(w)) => return fail("rejected", format!("{what}, {how}: {} as {ty}: {e}, expected {w:?}", n.show())),
    }
    Ok(())
}

/// Equal, up to the payload of what is not a number.
fn same(a: &Out, b: &Out) -> bool {
    if let (Out::S(Sc::F32(x)), Out::S(Sc::F32(y))) = (a, b) {
        if f32::from_bits(*x).is_nan() && f32::from_bits(*y).is_nan() { return true; }
    }
    // A dynamic value of what is as wide as a pointer may be of another width.
    if let (Out::Node(N { v: M::S(x), .. }), Out::Node(N { v: M::S(y @ (Sc::Us(_) | Sc::Is(_))), .. })) = (a, b) {
        return int(x) == int(y);
    }
    a == b
}

fn every_target(cx: &mut Cx, n: &N, tys: &[Ty]) -> R {
    let v = n.value();
    cx.checked(2);
    if let M::S(s) = &n.v {
        ensure_eq!(v.to_bool_lossy(), lossy_bool(s), "to_bool_lossy", "{}", n.show());
        let num = match s {
            Sc::Str(t) => lossy_num(t),
            s if v.to_num().is_some() => Some(s.clone()),
            _ => None,
        };
        let got = v.to_num_lossy().map(|m| Sc::of(&Value::from(m)).unwrap());
        ensure_eq!(got, num, "to_num_lossy", "{}", n.show());
        cx.outcome(&(lossy_bool(s), num.is_some()));
    }
    let f = Figment::new().merge(("k", v.clone()));
    for ty in tys {
        let t = rc(ty.clone());
        for lossy in [false, true] {
            agree(cx, "inner", n, ty, lossy, extract(&f, &t, lossy, Some("k")))?;
            let whole = extract(&f, &rc(map(ty.clone())), lossy, None).map(|o| match o {
                Out::Map(mut m) => m.remove("k").unwrap(), o => o
            });
            agree(cx, "whole", n, ty, lossy, whole)?;
        }
        if !format!("{ty}").contains("Tagged") {
            agree(cx, "dynamic", n, ty, false, with(&t, None, || v.deserialize::<Dyn>()).map(|d| d.0))?;
        }
    }
    Ok(())
}

const SPELLINGS: [&str; 8] = ["true", "yes", "1", "on", "false", "no", "0", "off"];

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![];

    v.push(Scenario::new(
        "booleans",
        "every case pattern of the 8 spellings of booleans, and each with any one character added, removed \
         or replaced by one of 30, as each of 28 types",
        |cx| {
            let word = *cx.of(&SPELLINGS);
            let pattern = cx.pick(1 << word.len());
            let mut chars: Vec<char> = word.chars().enumerate()
                .map(|(i, c)| if pattern >> i & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect();
            if chars.iter().collect::<String>() == word && pattern != 0 { return Err(Stop::Skip); }
            let alphabet: Vec<char> = "tTrueysonfal01 \t\n\"'.-+_eéſıＴ１\u{a0}\u{0}\u{212a}".chars().collect();
            match cx.pick(4) {
                0 => {}
                1 => { let i = cx.pick(chars.len()); chars.remove(i); }
                2 => { let (i, c) = (cx.pick(chars.len()), *cx.of(&alphabet)); chars[i] = c; }
                _ => { let (i, c) = (cx.pick(chars.len() + 1), *cx.of(&alphabet)); chars.insert(i, c); }
            }
            let s: String = chars.into_iter().collect();
            cx.op(|| format!("{s:?}"));
            cx.state(&s);
            every_target(cx, &N::s(&s), &[Ty::Bool, opt(Ty::Bool), Ty::U8, Ty::F64, Ty::Str, Ty::Char])
        }
    ));

    v.push(Scenario::new(
        "short",
        "every string of up to 3 of 23 characters as each of 28 types",
        |cx| {
            let alphabet: Vec<char> = "tyYesonNf019-+. eE_x\té²".chars().collect();
            let n = cx.pick(4);
            let s: String = (0..n).map(|_| *cx.of(&alphabet)).collect();
            cx.op(|| format!("{s:?}"));
            cx.state(&s);
            every_target(cx, &N::s(&s), &targets())
        }
    ));

    let len = tier.sel(6, 7);
    v.push(Scenario::new(
        "numbers",
        format!("every string of up to {len} of `0 1 9 - + . e` and space, as numbers of 5 types and a boolean"),
        move |cx| {
            let alphabet: Vec<char> = "019-+.e ".chars().collect();
            let n = cx.pick(len) + 1;
            let s: String = (0..n).map(|_| *cx.of(&alphabet)).collect();
            cx.op(|| format!("{s:?}"));
            cx.state(&s);
            every_target(cx, &N::s(&s), &[Ty::Bool, Ty::U8, Ty::I16, Ty::I64, Ty::F64, Ty::F32])
        }
    ));

    v.push(Scenario::new(
        "boundaries",
        "the integers around every power of two and of ten up to 2^129, with signs, leading zeros, \
         whitespace of 8 kinds and decimals of 12 forms, as each numeric type",
        |cx| {
            let k = cx.pick(130 + 40);
            let d = cx.pick(3) as i64 - 1;
            let base = if k < 130 { big(2, k) } else { big(10, k - 130) };
            let mut digits = add(&base, d);
            if digits.is_empty() { digits = "0".into(); }
            let sign = *cx.of(&["", "-", "+"]);
            let mut s = match cx.pick(2) { 0 => format!("{sign}{digits}"), _ => format!("{sign}{}{digits}", "0".repeat(20)) };
            match cx.pick(20) {
                0 => {}
                i if i <= 8 => {
                    let w = [" ", "\t", "\n", "\r\n", "\u{a0}", "\u{3000}", "\u{2003}  ", "\u{b}\u{c}"][i - 1];
                    s = format!("{w}{s}{w}");
                }
                i => s += [".0", ".5", ".", ".25e2", ".0e-3", ".000000000000000000001", ".0.0", ".0e", "e3", "u8", "_000"][i - 9],
            }
            cx.op(|| format!("{s:?}"));
            cx.state(&s);
            let mut tys = INTS.to_vec();
            tys.extend([Ty::Bool, Ty::F32, Ty::F64]);
            every_target(cx, &N::s(&s), &tys)
        }
    ));

    v.push(Scenario::new(
        "decimals",
        "decimals of up to 3 by 3 digits (of 6 kinds) with 9 exponents, and lists of hard ones: exactly \
         the nearest value, which text prints back",
        |cx| {
            let s = match cx.pick(2) {
                0 => {
                    let whole = *cx.of(&["", "0", "1", "7", "10", "999", "00", "123456789012345678901234567890"]);
                    let frac = *cx.of(&["", "0", "1", "5", "25", "125", "999", "001", "3333333333333333333333", "1000000000000000055511151231257827"]);
                    let exp = *cx.of(&["", "e0", "E1", "e-1", "e+2", "e308", "e-308", "e-400", "e400"]);
                    format!("{}{whole}.{frac}{exp}", cx.of(&["", "-", "+"]))
                }
                _ => cx.of(&["0.1", "0.2", "0.3", "3.14159265358979", "2.718281828459045", "1.7976931348623157e308",
                    "1.7976931348623159.e308", "4.9e-324", "2.2250738585072011e-308", "9007199254740993.0",
                    "9007199254740992.5", "0.1e1", "inf", "nan", "NaN", "infinity", "-inf", ".inf", "inf.", "1.5f32",
                    "1,5", "1.5 5", "0x1.8p1", "١.٥", "1.5\u{0}", "16777217.0", "0.30000000000000004"]).to_string(),
            };
            cx.op(|| format!("{s:?}"));
            cx.state(&s);
            every_target(cx, &N::s(&s), &[Ty::F64, Ty::F32, Ty::U8, Ty::I64, Ty::Bool, Ty::Str])?;
            // Text that prints back needs no trust in how it is parsed.
            if let Some(Sc::F64(b)) = lossy_num(&s) {
                let f = f64::from_bits(b);
                let t = format!("{f:?}");
                if t.contains('.') && f.is_finite() {
                    cx.checked(1);
                    let got = extract(&Figment::new().merge(("k", &t)), &rc(Ty::F64), true, Some("k"));
                    ensure!(matches!(&got, Ok(Out::S(Sc::F64(c))) if *c == b), "printed", "{t}: {got:?}");
                }
            }
            Ok(())
        }
    ));

    v.push(Scenario::new(
        "others",
        "every 8-bit integer and boundary integers of every width, floats, characters, booleans and \
         containers, as each of 28 types",
        |cx| {
            let ns: Vec<N> = match cx.pick(3) {
                0 => {
                    let ty = cx.of(&INTS).clone();
                    let v: Vec<N> = (-128..256i32).filter_map(|i| to_int(&ty, i < 0, i.unsigned_abs() as u128))
                        .chain((8..128).filter_map(|b| to_int(&ty, false, 1u128 << b)))
                        .chain((7..128).filter_map(|b| to_int(&ty, true, 1u128 << b)))
                        .chain((7..128).filter_map(|b| to_int(&ty, false, (1u128 << b) | 1))).map(N::sc).collect();
                    vec![cx.of(&v).clone()]
                }
                1 => vec![N::sc(Sc::Char(*cx.of(&['0', '1', 't', 'y', '-', ' ', 'é'])))],
                _ => {
                    let mut v = shapes();
                    v.extend([0.0, 1.0, -0.0, 0.5, f64::NAN, f64::INFINITY, 2.0].map(|f| N::sc(Sc::f64(f))));
                    v.extend([0.0, 1.0].map(|f| N::sc(Sc::f32(f))));
                    v.extend(["true", "1"].map(|s| N::a(vec![N::s(s)])));
                    v.extend(["yes", "2"].map(|s| N::d(vec![("k", N::s(s))])));
                    vec![cx.of(&v).clone()]
                }
            };
            for n in &ns {
                cx.op(|| n.show());
                cx.state(n);
                // Comparing what is not a number with itself.
                every_target(cx, n, &targets())?;
            }
            Ok(())
        }
    ));

    let depth = tier.sel(2, 3);
    v.push(Scenario::new(
        "depth",
        format!("leaves in up to {depth} of 15 wrappings, with one part replaced by each of 24 spellings, strict \
            and lossy, as a whole, at a key, focused, in each profile"),
        move |cx| {
            let ty = types(cx, depth, &[Ty::Bool, Ty::I16, Ty::F64, Ty::Str]);
            let mut n = conforming(&ty, 0);
            let texts = ["true", "YES", "oN", "1", "0", "Off", "nO", "FALSE", " 1", "1 ", " true", "12", "-3", "+4",
                "1.5", "-0.5 ", ".5", "1e3", "256", "300.", "99999999999999999999", "", "Va", "x"];
            let nested = format!("{ty}");
            let texts: &[&str] = if tier == Tier::Thorough || nested.matches('<').count() < 2 { &texts } else { &texts[..12] };
            let with_ = match cx.pick(texts.len() + 4) {
                i if i < texts.len() => N::s(texts[i]),
                i => [N::u(1), N::i(0), N::sc(Sc::Bool(true)), N::sc(Sc::f64(1.0))][i - texts.len()].clone(),
            };
            let pos = cx.pick(5);
            if !replace(&mut n, &mut { pos }, &Some(with_)) { return Err(Stop::Skip); }
            cx.op(|| format!("{ty} from {}", n.show()));
            cx.state(&(&ty, &n));
            let prof = ["default", "custom", "global"][pos % 3];
            let data = P::ok(1, prof, at(&["k", "l"], n.clone()).dict().unwrap());
            let f = Figment::new().merge(data).select("custom");
            let g = f.focus("k");
            let t = rc(ty.clone());
            let whole = rc(map(map(ty.clone())));
            for lossy in [false, true] {
                agree(cx, "inner", &n, &ty, lossy, extract(&f, &t, lossy, Some("k.l")))?;
                agree(cx, "focused", &n, &ty, lossy, extract(&g, &t, lossy, Some("l")))?;
                agree(cx, "whole", &at(&["k", "l"], n.clone()), &whole, lossy, extract(&f, &whole, lossy, None))?;
            }
            Ok(())
        }
    ));

    v.push(Scenario::new(
        "sources",
        "the spellings as quoted and unquoted text in documents and environment variables",
        |cx| {
            let s = *cx.of(&["true", "TRUE", "yes", "On", "off", "no", "0", "1", "10", "-10", "1.5", "0.1", "x", "1e3"]);
            let kind = cx.pick(4);
            cx.op(|| format!("{s:?} {kind}"));
            cx.state(&(s, kind));
            let f = match kind {
                0 => Figment::new().merge(Toml::string(&format!("k = {s:?}"))),
                1 => Figment::new().merge(Json::string(&format!("{{\"k\": {s:?}}}"))),
                2 => Figment::new().merge(Yaml::string(&format!("k: {s:?}"))),
                _ => {
                    std::env::set_var("MCLOSSY_K", format!("{s:?}"));
                    let f = Figment::new().merge(Env::prefixed("MCLOSSY_"));
                    std::env::remove_var("MCLOSSY_K");
                    f
                }
            };
            for ty in targets() {
                for lossy in [false, true] {
                    agree(cx, "document", &N::s(s), &ty, lossy, extract(&f, &rc(ty.clone()), lossy, Some("k")))?;
                }
            }
            Ok(())
        }
    ));

    v
}

/// `b` to the `k`, in decimal.
pub fn big(b: u32, k: usize) -> String {
    let mut d: Vec<u32> = vec![1];
    for _ in 0..k {
        let mut carry = 0;
        for x in d.iter_mut() { let v = *x * b + carry; *x = v % 10; carry = v / 10; }
        while carry > 0 { d.push(carry % 10); carry /= 10; }
    }
    d.iter().rev().map(|x| char::from_digit(*x, 10).unwrap()).collect()
}

pub fn add(s: &str, d: i64) -> String {
    let mut v: Vec<i64> = s.bytes().rev().map(|b| (b - b'0') as i64).collect();
    v.push(0);
    v[0] += d;
    for i in 0..v.len() - 1 {
        if v[i] < 0 { v[i] += 10; v[i + 1] -= 1; }
        if v[i] > 9 { v[i] -= 10; v[i + 1] += 1; }
    }
    let s: String = v.iter().rev().map(|x| char::from_digit(*x as u32, 10).unwrap()).collect();
    s.trim_start_matches('0').to_string()
}
