//! Environment values: a reference parser of the documented grammar against
//! the implementation's, over every string of tokens.

use figment::providers::Env;
use figment::value::Value;
use figment::{Figment, Provider};

use crate::engine::*;
use crate::model::*;
use crate::{ensure, ensure_eq};

/// The reference: recursive descent over characters; `None` for what is not a
/// complete well-formed value.
struct Ref<'a> { s: &'a [char], i: usize, depth: usize }

/// How deep arrays and dictionaries nest.
const DEPTH: usize = 128;

pub fn reference(text: &str) -> N {
    let text = text.trim();
    let chars: Vec<char> = text.chars().collect();
    if chars.is_empty() { return N::sc(Sc::Unit); }
    let mut r = Ref { s: &chars, i: 0, depth: 0 };
    match r.value() {
        Some(n) if r.i == chars.len() => n,
        _ => N::s(text),
    }
}

impl Ref<'_> {
    fn at(&self) -> Option<char> { self.s.get(self.i).copied() }
    fn skip(&mut self) { while self.at().map_or(false, |c| c.is_whitespace()) { self.i += 1; } }
    fn eat(&mut self, c: char) -> Option<()> {
        if self.at() == Some(c) { self.i += 1; Some(()) } else { None }
    }

    fn value(&mut self) -> Option<N> {
        self.skip();
        let n = match self.at()? {
            '"' => N::s(&self.quoted()?),
            '\'' => {
                let c = *self.s.get(self.i + 1)?;
                if self.s.get(self.i + 2) != Some(&'\'') { return None; }
                self.i += 3;
                N::sc(Sc::Char(c))
            }
            '[' => {
                let mut v = vec![];
                self.items(']', |r| { v.push(r.value()?); Some(()) })?;
                N::a(v)
            }
            '{' => {
                let mut d = Tree::new();
                self.items('}', |r| {
                    let key = match r.at()? {
                        '"' => r.quoted()?,
                        _ => {
                            let from = r.i;
                            while r.at().map_or(false, |c| c.is_ascii_alphanumeric() || c == '_' || c == '-') {
                                r.i += 1;
                            }
                            r.s[from..r.i].iter().collect()
                        }
                    };
                    r.skip();
                    r.eat('=')?;
                    let v = r.value()?;
                    d.insert(key, v);
                    Some(())
                })?;
                root(d)
            }
            _ => {
                let from = self.i;
                while self.at().map_or(false, |c| !",[]{}".contains(c)) { self.i += 1; }
                let s: String = self.s[from..self.i].iter().collect();
                scalar(s.trim())
            }
        };
        self.skip();
        Some(n)
    }

    /// Comma separated, with a final comma allowed.
    fn items(&mut self, end: char, mut one: impl FnMut(&mut Self) -> Option<()>) -> Option<()> {
        if self.depth == DEPTH { return None; }
        self.depth += 1;
        self.i += 1;
        loop {
            self.skip();
            if self.at() == Some(end) { break; }
            one(self)?;
            self.skip();
            if self.eat(',').is_none() { break; }
        }
        self.depth -= 1;
        self.eat(end)
    }

    fn quoted(&mut self) -> Option<String> {
        self.i += 1;
        let mut out = String::new();
        loop {
            let c = self.at()?;
            self.i += 1;
            match c {
                '"' => return Some(out),
                '\\' => {
                    let e = self.at()?;
                    self.i += 1;
                    let digits = match e {
                        'b' => { out.push('\u{8}'); continue }
                        't' => { out.push('\t'); continue }
                        'n' => { out.push('\n'); continue }
                        'f' => { out.push('\u{c}'); continue }
                        'r' => { out.push('\r'); continue }
                        '"' | '\\' => { out.push(e); continue }
                        'u' => 4,
                        'U' => 8,
                        _ => return None,
                    };
                    let mut code = 0u32;
                    for _ in 0..digits {
                        let c = self.at()?;
                        if !c.is_ascii_hexdigit() { return None; }
                        code = code.checked_mul(16)? + c.to_digit(16)?;
                        self.i += 1;
                    }
                    out.push(char::from_u32(code)?);
                }
                '\t' => out.push(c),
                c if c < ' ' || c == '\u{7f}' => return None,
                c => out.push(c),
            }
        }
    }
}

fn scalar(s: &str) -> N {
    if s == "true" { return N::sc(Sc::Bool(true)); }
    if s == "false" { return N::sc(Sc::Bool(false)); }
    let (neg, t) = match s.strip_prefix('-') {
        Some(t) => (true, t),
        None => (false, s.strip_prefix('+').unwrap_or(s)),
    };
    let digits = |s: &str| s.bytes().all(|b| b.is_ascii_digit());
    if let Some((whole, rest)) = t.split_once('.') {
        let (frac, exp) = match rest.find(['e', 'E']) {
            Some(i) => (&rest[..i], Some(&rest[i + 1..])),
            None => (rest, None),
        };
        let exp_ok = exp.map_or(true, |e| {
            let e = e.strip_prefix(['-', '+']).unwrap_or(e);
            !e.is_empty() && digits(e)
        });
        if digits(whole) && digits(frac) && exp_ok && !(whole.is_empty() && frac.is_empty()) {
            // Trusts the standard library for the nearest value.
            if let Ok(f) = s.parse::<f64>() { return N::sc(Sc::f64(f)); }
        }
        return N::s(s);
    }
    if !t.is_empty() && digits(t) {
        let mut mag = Some(0u128);
        for b in t.bytes() {
            mag = mag.and_then(|m| m.checked_mul(10)?.checked_add((b - b'0') as u128));
        }
        match mag {
            Some(m) if !neg && m <= usize::MAX as u128 => return N::sc(Sc::Us(m as usize)),
            Some(m) if neg && m <= 1 << 63 => return N::sc(Sc::Is((-(m as i128)) as isize)),
            _ => {}
        }
    }
    N::s(s)
}

fn parsed(s: &str) -> N {
    let v: Value = s.parse().unwrap();
    N::of(&v, &nosrc)
}

/// Numbers of other widths but the same magnitude are the same to a reader.
fn same(a: &N, b: &N) -> bool {
    match (&a.v, &b.v) {
        (M::S(x), M::S(y)) => x == y || (crate::dynde::int(x).is_some() && crate::dynde::int(x) == crate::dynde::int(y)),
        (M::A(x), M::A(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)),
        (M::D(x), M::D(y)) => x.len() == y.len()
            && x.iter().zip(y).all(|((j, a), (k, b))| j == k && same(a, b)),
        _ => false,
    }
}

fn check(cx: &mut Cx, s: &str) -> R {
    cx.op(|| format!("{s:?}"));
    cx.checked(1);
    let want = reference(s);
    let got = parsed(s);
    ensure!(same(&got, &want), "value", "{s:?}: got {}, expected {}", got.show(), want.show());
    cx.state(&want);
    cx.outcome(&kind(&want, s));
    Ok(())
}

/// What sort of value it is, and whether it is just the text.
fn kind(n: &N, s: &str) -> (u8, bool) {
    let k = match &n.v {
        M::S(Sc::Str(_)) => 0, M::S(Sc::Char(_)) => 1, M::S(Sc::Bool(_)) => 2, M::S(Sc::Us(_)) => 3,
        M::S(Sc::Is(_)) => 4, M::S(Sc::F64(_)) => 5, M::S(_) => 6, M::A(_) => 7, M::D(_) => 8,
    };
    (k, *n == N::s(s.trim()))
}

/// As `check`, but through an environment variable.
fn check_env(cx: &mut Cx, s: &str) -> R {
    check(cx, s)?;
    if s.contains('\0') { return Ok(()); }
    cx.checked(2);
    std::env::set_var("MCVALUE", s);
    let env = Env::raw().only(&["mcvalue"]);
    let data = env.data();
    let f = Figment::new().merge(env);
    std::env::remove_var("MCVALUE");
    let want = reference(s);
    let data = data.map_err(|e| e.to_string());
    let got = data.as_ref().ok().and_then(|m| m.get(&figment::Profile::Default)).and_then(|d| d.get("mcvalue"))
        .map(|v| N::of(v, &nosrc));
    ensure!(got.as_ref().map_or(false, |g| same(g, &want)), "env value",
        "{s:?} in the environment: got {data:?}, expected {}", want.show());
    let got = f.find_value("mcvalue").map(|v| N::of(&v, &nosrc)).map_err(|e| e.to_string());
    ensure!(got.as_ref().map_or(false, |g| same(g, &want)), "found value",
        "{s:?} in the environment: got {got:?}, expected {}", want.show());
    Ok(())
}

fn strings(name: &'static str, tokens: Vec<&'static str>, len: usize) -> Scenario {
    Scenario::new(
        name,
        format!("every sequence of up to {len} of the {} tokens {}", tokens.len(), tokens.join(" ").escape_debug()),
        move |cx| {
            let n = cx.pick(len + 1);
            let mut s = String::new();
            for _ in 0..n { s += cx.of(&tokens); }
            check(cx, &s)
        }
    )
}

/// Ways to write a character inside of quotes.
fn written(c: char, style: usize) -> Option<String> {
    Some(match (style, c) {
        (0, '"' | '\\') => format!("\\{c}"),
        (0, '\t') => "\t".into(),
        (0, c) if c >= ' ' && c != '\u{7f}' => c.to_string(),
        (1, '\u{8}') => "\\b".into(),
        (1, '\t') => "\\t".into(),
        (1, '\n') => "\\n".into(),
        (1, '\u{c}') => "\\f".into(),
        (1, '\r') => "\\r".into(),
        (2, c) if (c as u32) < 0x10000 => format!("\\u{:04x}", c as u32),
        (3, c) => format!("\\U{:08X}", c as u32),
        _ => return None,
    })
}

fn escaped(s: &str, styles: &[usize]) -> String {
    let mut out = String::from('"');
    for (i, c) in s.chars().enumerate() {
        let style = styles[i % styles.len()];
        out += &[style, 0, 1, 2, 3].iter().find_map(|&t| written(c, t)).unwrap();
    }
    out.push('"');
    out
}

/// A value written out: with the whitespace around tokens, and quoting, given.
fn write(n: &N, ws: &str, quote: bool, styles: &[usize]) -> String {
    let key = |k: &str| {
        let plain = !quote && k.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '-');
        if plain { k.to_string() } else { escaped(k, styles) }
    };
    match &n.v {
        M::S(Sc::Str(s)) => {
            let plain = !quote && !s.is_empty() && reference(s) == *n
                && !s.contains([',', '[', ']', '{', '}', '"', '\'']);
            if plain { s.clone() } else { escaped(s, styles) }
        }
        M::S(Sc::Char(c)) => format!("'{c}'"),
        M::S(Sc::Bool(b)) => b.to_string(),
        M::S(Sc::Us(u)) => u.to_string(),
        M::S(Sc::Is(u)) => u.to_string(),
        M::S(Sc::F64(u)) => format!("{:?}", f64::from_bits(*u)),
        M::S(_) => unreachable!(),
        M::A(v) => {
            let v: Vec<_> = v.iter().map(|n| format!("{ws}{}{ws}", write(n, ws, quote, styles))).collect();
            format!("[{}{ws}]", v.join(","))
        }
        M::D(d) => {
            let v: Vec<_> = d.iter()
                .map(|(k, n)| format!("{ws}{}{ws}={ws}{}{ws}", key(k), write(n, ws, quote, styles))).collect();
            format!("{{{}{ws}}}", v.join(","))
        }
    }
}

const HARD: [&str; 22] = [
    "a", "\"", "\\", "'", "[", "]", "{", "}", ",", "=", " ", "\t", "\n", "\r", "\u{8}", "\u{c}", "\u{0}", "\u{7f}",
    "é", "\u{1F600}", "u0041", "\u{a0}",
];

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![];

    v.push(strings("strings", vec![
        "[", "]", "{", "}", ",", "=", "\"", "'", "\\", " ", "a", "1", "-", ".", "true", "é", "u00e9", "\n",
    ], tier.sel(5, 6)));
    v.push(strings("containers", vec!["[", "]", "{", "}", ",", "a", "=", "\"", " ", "1"], tier.sel(6, 8)));
    v.push(strings("nesting", vec!["[", "]", "{a=", "}", ","], tier.sel(8, 10)));
    v.push(strings("escapes", vec![
        "\"", "\\", "n", "u", "U", "0000", "00E9", "D83D", "41", "é", "'",
    ], tier.sel(6, 7)));
    v.push(strings("scalars", vec![
        "0", "1", "9", "-", "+", ".", "e", " ", "_", "true", "false", "inf", "nan", "0x",
    ], tier.sel(5, 6)));
    v.push(strings("quotes", vec!["'", "\"", "a", "é", " ", "[", "]", ",", "\\"], tier.sel(6, 7)));

    v.push(Scenario::new(
        "values",
        "values of every shape (1 or 2 of 17 leaves, containers nested up to 3), written with and \
         without whitespace of 4 kinds and with minimal or full quoting: parse to themselves, also \
         as an environment variable",
        move |cx| {
            let leaves = vec![
                N::s("x"), N::s(""), N::s("a b"), N::s("true"), N::s("1"), N::s("-1"), N::s("1.5"), N::s("[1]"),
                N::s("q\"\\\n,=]}"), N::s(" é "), N::sc(Sc::Char('\'')), N::sc(Sc::Char('é')), N::sc(Sc::Bool(true)),
                N::sc(Sc::Bool(false)), N::sc(Sc::Us(usize::MAX)), N::sc(Sc::Is(-1)), N::sc(Sc::f64(-2.5)),
            ];
            let keys = ["a", "b-1_", "", "é", "k.l", "\"", " "];
            let depth = cx.pick(4);
            let mut n = cx.of(&leaves).clone();
            for _ in 0..depth {
                n = match cx.pick(7) {
                    0 => N::a(vec![n]),
                    1 => N::a(vec![n, N::sc(Sc::Us(1))]),
                    2 => N::a(vec![N::s("z"), n]),
                    3 => N::d(vec![(*cx.of(&keys), n)]),
                    4 => N::d(vec![("a", n), ("b", N::sc(Sc::Is(-5)))]),
                    5 => N::d(vec![("a", N::a(vec![])), ("b", n)]),
                    _ => N::a(vec![N::d(vec![]), n, N::d(vec![("y", N::sc(Sc::Bool(true)))])]),
                };
            }
            let ws = *cx.of(&["", " ", "\t\n ", "\u{3000}"]);
            let quote = cx.flag();
            let s = write(&n, ws, quote, &[0, 1, 2, 3]);
            let s = format!("{ws}{s}{ws}");
            ensure_eq!(reference(&s).show(), n.show(), "harness", "reference: {s:?}");
            let depth_ok = depth < 3 || tier == Tier::Thorough || ws != "\u{3000}";
            if !depth_ok { return Err(Stop::Skip); }
            check_env(cx, &s)
        }
    ));

    v.push(Scenario::new(
        "mutated",
        "well-formed values of 14 shapes with any character removed, doubled or replaced by, or \
         preceded by, any of 17 others; and every two of those changes",
        move |cx| {
            let texts = [
                "[1, \"a\", 'b', {k = v}]", "{a=1,b=[true,-2.5],\"c d\"={e=f}}", "\"a\\n\\u00e9\\\"b\"", "'x'",
                "-12.5e-3", "18446744073709551615", "-9223372036854775808", "[[[]],{},\"\"]", "{a={b={c=[1]}}}",
                "\"\\U0001F600\"", "[ é , 'é' ]", "true", "{ a = b , }", "[,,]",
            ];
            let with = ["[", "]", "{", "}", ",", "=", "\"", "'", "\\", " ", "a", "1", "-", ".", "é", "u", "\n"];
            let mut s: Vec<String> = cx.of(&texts).chars().map(|c| c.to_string()).collect();
            for _ in 0..cx.pick(3) {
                let i = cx.pick(s.len() + 1);
                let how = cx.pick(if i == s.len() { with.len() } else { 2 + 2 * with.len() });
                if i == s.len() { s.push(with[how].into()); continue; }
                match how {
                    0 => { s.remove(i); }
                    1 => { let t = s[i].clone(); s.insert(i, t); }
                    h if h < 2 + with.len() => s[i] = with[h - 2].into(),
                    h => s.insert(i, with[h - 2 - with.len()].into()),
                }
            }
            check(cx, &s.concat())
        }
    ));

    v.push(Scenario::new(
        "characters",
        "every character there is, written in each of 4 ways in quotes, alone, as a key, twice and beside \
         text; in single quotes; and bare: as an environment variable for those below U+0250",
        |cx| {
            let hi = cx.pick(0x1100);
            let lo = cx.pick(0x100);
            let Some(c) = char::from_u32((hi * 0x100 + lo) as u32) else { return Err(Stop::Skip) };
            let env = hi < 2 || (hi == 2 && lo < 0x50);
            for style in 0..4 {
                let Some(w) = written(c, style) else { continue };
                for (s, want) in [(format!("\"{w}\""), c.to_string()), (format!("\"a{w}{w}z\""), format!("a{c}{c}z"))] {
                    ensure_eq!(reference(&s), N::s(&want), "harness", "{s:?}");
                    if env { check_env(cx, &s)?; } else { check(cx, &s)?; }
                }
                check(cx, &format!("{{\"{w}\"=[\"{w}\"]}}"))?;
            }
            for s in [format!("'{c}'"), c.to_string(), format!("{c}1{c}"), format!("a{c}b"), format!("[{c},'{c}']"),
                format!("{{{c}=1}}"), format!("\"{c}\""), format!("\"\\{c}\""), format!("\"\\u{c}\""),
                format!("\"\\u123{c}\""), format!("\"\\U0001234{c}\"")] {
                if env { check_env(cx, &s)?; } else { check(cx, &s)?; }
            }
            Ok(())
        }
    ).tasks(4352));

    v.push(Scenario::new(
        "codes",
        "every 16-bit code in \\u and \\U form, in upper and lower case, the codes around every power of \
         two and the ends of the planes, too large and surrogate ones, and truncated",
        |cx| {
            let k = cx.pick(0x10000 + 200);
            let codes: Vec<u64> = if k < 0x10000 { vec![k as u64] } else {
                let k = k - 0x10000;
                match k {
                    0..=99 => (0..3).map(|d| (1u64 << (k % 33)) + d).map(|c| c.saturating_sub(1)).collect(),
                    _ => vec![((k as u64 - 100) << 16) | 0xffff, (k as u64 - 100) << 16, 0x10ffff + (k as u64 - 100)],
                }
            };
            for c in codes {
                for s in [format!("{c:04x}"), format!("{c:04X}")] {
                    check(cx, &format!("\"\\u{s}\""))?;
                    check(cx, &format!("\"\\u{s}0\""))?;
                    check(cx, &format!("\"\\u{}\"", &s[..s.len().min(3)]))?;
                }
                for s in [format!("{c:08x}"), format!("{c:08X}")] {
                    check(cx, &format!("\"\\U{s}\""))?;
                    check(cx, &format!("[\"\\U{s}z\", 1]"))?;
                    check(cx, &format!("\"\\U{}\"", &s[..7]))?;
                }
            }
            Ok(())
        }
    ).tasks(2000));

    v.push(Scenario::new(
        "round-trip",
        "every string of up to 3 (thorough: 4) of 22 hard characters, quoted and escaped in every \
         combination of 2 ways: parses back to itself, alone, as a key and an element",
        move |cx| {
            let n = cx.pick(tier.sel(4, 5));
            let s: String = (0..n).map(|_| *cx.of(&HARD)).collect();
            let styles = [cx.pick(4), cx.pick(4)];
            if n < 2 && styles[1] > 0 { return Err(Stop::Skip); }
            let e = escaped(&s, &styles);
            for (t, want) in [
                (e.clone(), N::s(&s)), (format!("[{e}]"), N::a(vec![N::s(&s)])),
                (format!("{{{e}={e}}}"), N::d(vec![(&s, N::s(&s))])),
            ] {
                cx.checked(1);
                ensure!(parsed(&t) == want, "round trip", "{t:?}: got {}, expected {}", parsed(&t).show(), want.show());
            }
            check(cx, &e)
        }
    ));

    v.push(Scenario::new(
        "long",
        "strings, arrays, dictionaries, digits and padding of every length up to 300 and around 2^10 to 2^16, \
         with any of 20 endings; nesting up to 120 deep, complete or not",
        |cx| {
            let k = cx.pick(301 + 28);
            let n = if k < 301 { k } else { (1usize << (10 + (k - 301) / 4)) + (k - 301) % 4 - 2 };
            let deep = n.min(120);
            let ends = ["", "\"", "]", "}", ",", "x", " ", "\\", "\\n", "\\\"", "=", "'", "é", "]]", "}}", "[", "{",
                "\\u00e9\"", "1", ".5"];
            let body = match cx.pick(14) {
                0 => format!("\"{}", "a".repeat(n)),
                1 => format!("\"{}", "é".repeat(n)),
                2 => format!("\"{}", "\\n".repeat(n)),
                3 => format!("\"{}", "\\\\".repeat(n)),
                4 => format!("[{}", "1,".repeat(n)),
                5 => format!("[{}", "\"a\",".repeat(n)),
                6 => (0..n).fold("{".to_string(), |s, i| s + &format!("k{i}={i},")),
                7 => "7".repeat(n),
                8 => "0".repeat(n),
                9 => format!("-{}", "0".repeat(n)),
                10 => format!("{}x{}", " ".repeat(n), "\t".repeat(n)),
                11 => format!("{}{}", "[".repeat(deep), "]".repeat(deep.saturating_sub(1))),
                12 => format!("{}1{}", "{a=".repeat(deep), "}".repeat(deep.saturating_sub(1))),
                _ => format!("[{{a={}[1", "[{b=".repeat(deep)) + &"]}".repeat(deep),
            };
            if body.len() > 200_000 { return Err(Stop::Skip); }
            let s = body + cx.of(&ends);
            // Whole environments are limited in size.
            if s.len() < 20_000 { check_env(cx, &s) } else { check(cx, &s) }
        }
    ));

    v.push(Scenario::new(
        "deep",
        "arrays, dictionaries, both in turns and siblings nested to every depth up to 260 and to 2^9 to 2^17, around an \
         empty container or a scalar, in one or repeatedly, completed, cut short by up to two or overfull",
        |cx| {
            let k = cx.pick(261 + 27);
            let n = if k < 261 { k } else { (1usize << (9 + (k - 261) / 3)) + (k - 261) % 3 - 1 };
            let shape = cx.pick(6);
            let open = |i: usize| match (shape, i % 2) {
                (0, _) => "[", (1, _) => "{a=", (2, 0) | (3, 1) => "[", (2, _) => "{a=", (3, _) => "{\"a.b\" = ",
                (4, _) => "[1, ", _ => "[[], {}, [[]], ",
            };
            let close = |i: usize| if open(i).starts_with('[') { "]" } else { "}" };
            let inner = cx.of(&["", "1", "\"x", "[]", "{}", "{a=[]}", "[1],[2]"]);
            let cut = cx.pick(4);
            let times = if n <= 260 { 1 + 130 * cx.pick(2) } else { 1 };
            let mut s = String::new();
            for i in 0..n { s += open(i); }
            s += inner;
            for i in (cut.min(2).min(n)..n).rev() { s += close(i); }
            if cut == 3 { for i in (0..n.min(2)).rev() { s += close(i); } s += "]" }
            if times > 1 { s = format!("[{}]", vec![s; times].join(", ")); }
            check(cx, &s)
        }
    ));

    v.push(Scenario::new(
        "numbers",
        "integers around every power of two and ten up to 2^130 with signs, zeros, spaces and \
         fractions, bare, in arrays and in dictionaries",
        |cx| {
            let k = cx.pick(130 + 40);
            let d = cx.pick(3) as i64 - 1;
            let base = if k < 130 { crate::c11::big(2, k) } else { crate::c11::big(10, k - 130) };
            let mut t = crate::c11::add(&base, d);
            if t.is_empty() { t = "0".into(); }
            let t = format!("{}{}{t}", cx.of(&["", "-", "+", "--", "- "]), cx.of(&["", "0", "0000000000000000000000"]));
            let t = format!("{t}{}", cx.of(&["", ".0", ".", ".5e10", "e5", " ", "_0", "u8", ".0.1", ".e", "f"]));
            check_env(cx, &t)?;
            check(cx, &format!("[{t}, {t}]"))?;
            check(cx, &format!("{{a={t}}}"))
        }
    ));

    v
}
