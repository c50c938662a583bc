//! Documents: the same data written in each format, style and form; nesting
//! and profiles; malformed documents; merge keys.

use std::collections::BTreeMap;
use std::fs;

use figment::providers::{Data, Format, Json, Toml, Yaml, YamlExtended};
use figment::{Figment, Profile, Provider};

use crate::c13::strip;
use crate::c14::Tmp;
use crate::engine::*;
use crate::model::*;
use crate::{ensure, ensure_eq};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fmt { Toml, Json, Yaml, Ext }

pub const FMTS: [Fmt; 4] = [Fmt::Toml, Fmt::Json, Fmt::Yaml, Fmt::Ext];

/// A setting of a source.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Set { Nested, Prof(&'static str), Required(bool), Search(bool) }

type All = BTreeMap<String, Tree>;

/// What a source of this text provides.
fn provide(fmt: Fmt, text: &[u8], sets: &[Set], form: Form) -> Result<All, String> {
    fn go<F: Format>(text: &[u8], sets: &[Set], form: Form) -> Result<All, String> {
        let d: Data<F> = match form {
            Form::String => F::string(std::str::from_utf8(text).unwrap()),
            Form::File => {
                let p = scratch_file();
                fs::write(&p, text).unwrap();
                F::file(p)
            }
        };
        let d = sets.iter().fold(d, |d, s| match *s {
            Set::Nested => d.nested(),
            Set::Prof(p) => d.profile(p),
            Set::Required(b) => d.required(b),
            Set::Search(b) => d.search(b),
        });
        let data = d.data();
        let f = Figment::new().merge(&d);
        let seen = f.data();
        if form == Form::File { let _ = fs::remove_file(scratch_file()); }
        let bare = |m: BTreeMap<Profile, figment::value::Dict>| -> All {
            m.iter().map(|(p, d)| (p.to_string(), tree_of(d, &nosrc))).filter(|(_, t)| !t.is_empty()).collect()
        };
        match (data, seen) {
            (Ok(d), Ok(s)) => {
                let (d, s) = (bare(d), bare(s));
                assert_eq!(show_all(&d), show_all(&s), "merging changes the data");
                // Whatever is selected, the same is seen.
                for p in d.keys() {
                    let got = extracted(&f.clone().select(Profile::new(p))).map_err(|e| e.to_string())?;
                    for (k, v) in &d[p] {
                        // Unless the global profile says otherwise.
                        let over = d.iter().any(|(q, g)| q != p && q.eq_ignore_ascii_case("global") && g.contains_key(k));
                        if !over { assert_eq!(got.dict().unwrap().get(k).map(|n| n.show()), Some(v.show()), "{p}.{k}"); }
                    }
                }
                Ok(d)
            }
            (Err(e), Err(_)) => {
                // Nothing at all is provided.
                for p in ["default", "global", "a", "b", "zone"] {
                    let g = f.clone().select(p);
                    assert!(g.extract::<figment::value::Value>().is_err(), "partial data in {p}");
                    assert!(g.find_value("a").is_err() && !g.contains("a"), "partial data in {p}");
                }
                Err(e.to_string())
            }
            (d, s) => panic!("{d:?} by itself, but {s:?} merged"),
        }
    }
    match fmt {
        Fmt::Toml => go::<Toml>(text, sets, form),
        Fmt::Json => go::<Json>(text, sets, form),
        Fmt::Yaml => go::<Yaml>(text, sets, form),
        Fmt::Ext => go::<YamlExtended>(text, sets, form),
    }
}

fn scratch_file() -> std::path::PathBuf {
    std::path::PathBuf::from(std::env::var_os("MC_SCRATCH").unwrap()).join("doc")
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Form { String, File }

fn show_all(a: &All) -> String {
    a.iter().map(|(p, t)| format!("{p:?}: {}", strip(&root(t.clone())).show())).collect::<Vec<_>>().join("; ")
}

/// What must be provided, given the document's tree.
fn model(t: &Tree, sets: &[Set]) -> Result<All, String> {
    let mut prof = Some("default");
    for s in sets {
        match *s { Set::Nested => prof = None, Set::Prof(p) => prof = Some(p), _ => {} }
    }
    let mut all = All::new();
    match prof {
        Some(p) => { all.insert(Profile::new(p).to_string(), t.clone()); }
        None => for (k, n) in t {
            match n.dict() {
                Some(d) => { all.insert(Profile::new(k).to_string(), d.clone()); }
                None => return Err(format!("{k} is not a dictionary")),
            }
        }
    }
    all.retain(|_, t| !t.is_empty());
    Ok(all)
}

fn compare(cx: &mut Cx, fmt: Fmt, text: &str, sets: &[Set], want: &Result<All, String>) -> R {
    for form in [Form::String, Form::File] {
        cx.checked(1);
        let got = provide(fmt, text.as_bytes(), sets, form);
        match (&got, want) {
            (Ok(g), Ok(w)) => ensure!(show_all(g) == show_all(w), "data",
                "{fmt:?} {form:?} {sets:?}: got {}, expected {}\n{text}", show_all(g), show_all(w)),
            (Err(_), Err(_)) => {}
            (Ok(g), Err(w)) => return fail("no error", format!(
                "{fmt:?} {form:?} {sets:?}: got {}, expected {w}\n{text}", show_all(g))),
            (Err(g), Ok(w)) => return fail("error", format!(
                "{fmt:?} {form:?} {sets:?}: {g}, expected {}\n{text}", show_all(w))),
        }
    }
    Ok(())
}

// Writers.

fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            c if c < ' ' || ('\u{7f}'..'\u{a0}').contains(&c) || c == '\u{feff}' =>
                o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

fn scalar(s: &Sc) -> String {
    match s {
        Sc::Str(s) => quote(s),
        Sc::Bool(b) => b.to_string(),
        Sc::F64(f) => format!("{:?}", f64::from_bits(*f)),
        s => match crate::dynde::int(s).unwrap() { (true, m) => format!("-{m}"), (false, m) => m.to_string() },
    }
}

fn json(n: &N, pretty: bool, ind: usize) -> String {
    let (nl, sp) = if pretty { (format!("\n{}", "  ".repeat(ind + 1)), " ") } else { (String::new(), "") };
    let end = if pretty { format!("\n{}", "  ".repeat(ind)) } else { String::new() };
    match &n.v {
        M::S(s) => scalar(s),
        M::A(v) if v.is_empty() => "[]".into(),
        M::D(v) if v.is_empty() => "{}".into(),
        M::A(v) => format!("[{}{end}]", v.iter().map(|n| format!("{nl}{}", json(n, pretty, ind + 1))).collect::<Vec<_>>().join(",")),
        M::D(d) => format!("{{{}{end}}}", d.iter().map(|(k, n)|
            format!("{nl}{}:{sp}{}", quote(k), json(n, pretty, ind + 1))).collect::<Vec<_>>().join(",")),
    }
}

fn yaml_key(k: &str) -> String {
    let plain = k.chars().next().map_or(false, |c| c.is_ascii_alphabetic()) && k.chars().all(|c| c.is_ascii_alphanumeric())
        && !["true", "false", "null", "y", "n", "yes", "no", "on", "off"].contains(&&*k.to_lowercase());
    if plain { k.into() } else { quote(k) }
}

/// In block style.
fn yaml(n: &N, ind: usize, out: &mut String) {
    let pad = "  ".repeat(ind);
    match &n.v {
        M::D(d) if !d.is_empty() => for (k, n) in d {
            *out += &format!("{pad}{}:", yaml_key(k));
            yaml_value(n, ind, out);
        },
        M::A(v) if !v.is_empty() => for n in v {
            *out += &format!("{pad}-");
            yaml_value(n, ind, out);
        },
        _ => *out += &format!("{pad}{}\n", json(n, false, 0)),
    }
}

fn yaml_value(n: &N, ind: usize, out: &mut String) {
    match &n.v {
        M::S(s) => *out += &format!(" {}\n", scalar(s)),
        M::D(d) if d.is_empty() => *out += " {}\n",
        M::A(d) if d.is_empty() => *out += " []\n",
        _ => { *out += "\n"; yaml(n, ind + 1, out) }
    }
}

fn toml_key(k: &str) -> String {
    let plain = !k.is_empty() && k.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_');
    if plain { k.into() } else { quote(k) }
}

fn toml_inline(n: &N) -> String {
    match &n.v {
        M::S(s) => scalar(s),
        M::A(v) => format!("[{}]", v.iter().map(toml_inline).collect::<Vec<_>>().join(", ")),
        M::D(d) => format!("{{{}}}", d.iter().map(|(k, n)| format!("{} = {}", toml_key(k), toml_inline(n)))
            .collect::<Vec<_>>().join(", ")),
    }
}

/// Written with tables and arrays of tables (1) or dotted keys (2).
fn toml(t: &Tree, path: &str, style: usize, out: &mut String) {
    let dotted = |k: &str| if path.is_empty() { toml_key(k) } else { format!("{path}.{}", toml_key(k)) };
    let tables = |n: &N| matches!(&n.v, M::A(v) if !v.is_empty() && v.iter().all(|n| n.dict().is_some()));
    if style == 2 {
        for (k, n) in t {
            match n.dict() {
                Some(d) if !d.is_empty() => toml(d, &dotted(k), style, out),
                _ => *out += &format!("{} = {}\n", dotted(k), toml_inline(n)),
            }
        }
        return;
    }
    for (k, n) in t {
        if n.dict().is_none() && !tables(n) { *out += &format!("{} = {}\n", toml_key(k), toml_inline(n)); }
    }
    for (k, n) in t {
        match &n.v {
            M::D(d) => {
                *out += &format!("[{}]\n", dotted(k));
                toml(d, &dotted(k), style, out);
            }
            M::A(v) if tables(n) => for n in v {
                *out += &format!("[[{}]]\n", dotted(k));
                toml(n.dict().unwrap(), &dotted(k), style, out);
            },
            _ => {}
        }
    }
}

/// The document in each format and style.
pub fn written(t: &Tree) -> Vec<(Fmt, String)> {
    let n = root(t.clone());
    let mut v = vec![(Fmt::Json, json(&n, false, 0)), (Fmt::Json, json(&n, true, 0))];
    let mut block = String::new();
    yaml(&n, 0, &mut block);
    for f in [Fmt::Yaml, Fmt::Ext] {
        v.push((f, block.clone()));
        v.push((f, format!("---\n{}\n", json(&n, false, 0))));
    }
    v.push((Fmt::Toml, t.iter().map(|(k, n)| format!("{} = {}\n", toml_key(k), toml_inline(n))).collect()));
    for style in [1, 2] {
        let mut s = String::new();
        toml(t, "", style, &mut s);
        v.push((Fmt::Toml, s));
    }
    v
}

fn everywhere(cx: &mut Cx, t: &Tree, sets: &[Set]) -> R {
    cx.op(|| format!("{} {sets:?}", show_tree(t)));
    cx.state(&(t, sets));
    let want = model(t, sets);
    cx.outcome(&want.as_ref().map(|a| a.keys().cloned().collect::<Vec<_>>()).map_err(|_| ()));
    for (fmt, text) in written(t) { compare(cx, fmt, &text, sets, &want)?; }
    Ok(())
}

fn any_sets(cx: &mut Cx, max: usize) -> Vec<Set> {
    let n = cx.pick(max + 1);
    (0..n).map(|_| *cx.of(&[Set::Nested, Set::Prof("zone"), Set::Prof("default"), Set::Prof("GLOBAL"),
        Set::Required(true), Set::Search(false)])).collect()
}

fn sources() -> Vec<Vec<Set>> {
    vec![vec![], vec![Set::Nested], vec![Set::Prof("zone")], vec![Set::Nested, Set::Prof("global")],
        vec![Set::Prof("zone"), Set::Nested]]
}

// A reference for JSON.

struct Js<'a> { s: &'a [u8], i: usize, dup: bool }

impl Js<'_> {
    fn at(&self) -> Option<u8> { self.s.get(self.i).copied() }
    fn ws(&mut self) { while matches!(self.at(), Some(b' ' | b'\t' | b'\n' | b'\r')) { self.i += 1; } }
    fn eat(&mut self, t: &str) -> Option<()> {
        if self.s[self.i..].starts_with(t.as_bytes()) { self.i += t.len(); Some(()) } else { None }
    }

    fn value(&mut self) -> Option<N> {
        self.ws();
        let n = match self.at()? {
            b'{' => {
                self.i += 1;
                let mut d = Tree::new();
                self.ws();
                if self.eat("}").is_none() {
                    loop {
                        self.ws();
                        let k = self.string()?;
                        self.ws();
                        self.eat(":")?;
                        let v = self.value()?;
                        if d.insert(k, v).is_some() { self.dup = true; }
                        if self.eat(",").is_none() { self.eat("}")?; break; }
                    }
                }
                root(d)
            }
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.eat("]").is_none() {
                    loop {
                        v.push(self.value()?);
                        if self.eat(",").is_none() { self.eat("]")?; break; }
                    }
                }
                N::a(v)
            }
            b'"' => N::s(&self.string()?),
            b't' => { self.eat("true")?; N::sc(Sc::Bool(true)) }
            b'f' => { self.eat("false")?; N::sc(Sc::Bool(false)) }
            b'n' => { self.eat("null")?; N::sc(Sc::Unit) }
            _ => self.number()?,
        };
        self.ws();
        Some(n)
    }

    fn digits(&mut self) -> usize {
        let from = self.i;
        while matches!(self.at(), Some(b'0'..=b'9')) { self.i += 1; }
        self.i - from
    }

    fn number(&mut self) -> Option<N> {
        let from = self.i;
        let neg = self.eat("-").is_some();
        let zero = self.at() == Some(b'0');
        let n = self.digits();
        if n == 0 || (zero && n > 1) { return None; }
        let mag = std::str::from_utf8(&self.s[self.i - n..self.i]).unwrap().parse::<u128>();
        let mut float = false;
        if self.eat(".").is_some() { float = true; if self.digits() == 0 { return None; } }
        if matches!(self.at(), Some(b'e' | b'E')) {
            float = true;
            self.i += 1;
            if matches!(self.at(), Some(b'+' | b'-')) { self.i += 1; }
            if self.digits() == 0 { return None; }
        }
        let text = std::str::from_utf8(&self.s[from..self.i]).unwrap();
        match mag {
            Ok(m) if !float && !neg && m <= u64::MAX as u128 => Some(N::sc(Sc::U64(m as u64))),
            Ok(m) if !float && neg && m > 0 && m <= 1 << 63 => Some(N::sc(Sc::I64((-(m as i128)) as i64))),
            _ => {
                // Trusts the parser for the nearest value (it may be one off).
                let f: f64 = serde_json::from_str(text).ok()?;
                f.is_finite().then(|| N::sc(Sc::f64(f)))
            }
        }
    }

    fn string(&mut self) -> Option<String> {
        self.eat("\"")?;
        let mut out = vec![];
        loop {
            let c = self.at()?;
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(out).ok(),
                b'\\' => {
                    let e = self.at()?;
                    self.i += 1;
                    let c = match e {
                        b'"' | b'\\' | b'/' => e as char,
                        b'b' => '\u{8}', b'f' => '\u{c}', b'n' => '\n', b'r' => '\r', b't' => '\t',
                        b'u' => {
                            let a = self.hex()?;
                            if (0xd800..0xdc00).contains(&a) {
                                self.eat("\\u")?;
                                let b = self.hex()?;
                                if !(0xdc00..0xe000).contains(&b) { return None; }
                                char::from_u32(0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00))?
                            } else {
                                char::from_u32(a)?
                            }
                        }
                        _ => return None,
                    };
                    out.extend(c.to_string().bytes());
                }
                c if c < b' ' => return None,
                c => out.push(c),
            }
        }
    }

    fn hex(&mut self) -> Option<u32> {
        let h = self.s.get(self.i..self.i + 4)?;
        if !h.iter().all(|b| b.is_ascii_hexdigit()) { return None; }
        self.i += 4;
        u32::from_str_radix(std::str::from_utf8(h).ok()?, 16).ok()
    }
}

/// The tree of a JSON document: skipped if it has duplicate keys.
fn read_json(s: &str) -> R<Result<Tree, String>> {
    let mut j = Js { s: s.as_bytes(), i: 0, dup: false };
    let n = j.value();
    if j.dup { return Err(Stop::Skip); }
    Ok(match n {
        Some(N { v: M::D(d), .. }) if j.i == s.len() => Ok(d),
        Some(_) if j.i == s.len() => Err("not a dictionary".into()),
        _ => Err("malformed".into()),
    })
}

fn of_yaml(v: &serde_yaml::Value) -> R<N> {
    use serde_yaml::Value as Y;
    Ok(match v {
        Y::Null => N::sc(Sc::Unit),
        Y::Bool(b) => N::sc(Sc::Bool(*b)),
        Y::Number(n) => N::sc(match (n.as_u64(), n.as_i64(), n.as_f64()) {
            (Some(u), _, _) => Sc::U64(u),
            (_, Some(i), _) => Sc::I64(i),
            (_, _, Some(f)) if !f.is_nan() => Sc::f64(f),
            _ => return Err(Stop::Skip),
        }),
        Y::String(s) => N::s(s),
        Y::Sequence(v) => N::a(v.iter().map(of_yaml).collect::<R<_>>()?),
        Y::Mapping(m) => {
            let mut d = Tree::new();
            for (k, v) in m {
                // Keys that are not strings are out of scope.
                let Y::String(k) = k else { return Err(Stop::Skip) };
                d.insert(k.clone(), of_yaml(v)?);
            }
            root(d)
        }
        Y::Tagged(t) => {
            let tag = t.tag.to_string();
            N::d(vec![(tag.strip_prefix('!').unwrap_or(&tag), of_yaml(&t.value)?)])
        }
    })
}

/// The tree of a YAML document, as its parser has it.
fn read_yaml(s: &str) -> R<Result<Tree, String>> {
    match serde_yaml::from_str::<serde_yaml::Value>(s) {
        // A tag on all of the document is the parser's matter.
        Ok(serde_yaml::Value::Tagged(_)) => Err(Stop::Skip),
        Ok(v) => match of_yaml(&v)?.v {
            M::D(d) => Ok(Ok(d)),
            // An empty document is one without keys.
            M::S(Sc::Unit) => Err(Stop::Skip),
            _ => Ok(Err("not a dictionary".into())),
        },
        Err(e) if e.to_string().contains("duplicate") => Err(Stop::Skip),
        Err(e) => Ok(Err(e.to_string())),
    }
}

fn of_toml(v: &toml_edit::Item) -> R<N> {
    use toml_edit::{Item, Value as T};
    fn val(v: &T) -> R<N> {
        Ok(match v {
            T::String(s) => N::s(s.value()),
            T::Integer(i) => N::i(*i.value()),
            T::Float(f) if !f.value().is_nan() => N::sc(Sc::f64(*f.value())),
            T::Boolean(b) => N::sc(Sc::Bool(*b.value())),
            T::Array(a) => N::a(a.iter().map(val).collect::<R<_>>()?),
            T::InlineTable(t) => root(t.iter().map(|(k, v)| Ok((k.to_string(), val(v)?))).collect::<R<_>>()?),
            _ => return Err(Stop::Skip),
        })
    }
    let table = |t: &toml_edit::Table| -> R<N> {
        Ok(root(t.iter().map(|(k, v)| Ok((k.to_string(), of_toml(v)?))).collect::<R<_>>()?))
    };
    Ok(match v {
        Item::None => return Err(Stop::Skip),
        Item::Value(v) => val(v)?,
        Item::Table(t) => table(t)?,
        Item::ArrayOfTables(a) => N::a(a.iter().map(table).collect::<R<_>>()?),
    })
}

fn read_toml(s: &str) -> R<Result<Tree, String>> {
    match s.parse::<toml_edit::DocumentMut>() {
        Ok(d) => match of_toml(d.as_item())?.v {
            M::D(d) => Ok(Ok(d)),
            _ => Ok(Err("not a dictionary".into())),
        },
        Err(e) => Ok(Err(e.to_string())),
    }
}

fn read(fmt: Fmt, s: &str) -> R<Result<Tree, String>> {
    match fmt {
        Fmt::Toml => read_toml(s),
        Fmt::Json => read_json(s),
        Fmt::Yaml => read_yaml(s),
        Fmt::Ext => {
            Ok(match read_yaml(s)? {
                Ok(d) => merged(&root(d)).map(|n| n.dict().unwrap().clone()),
                Err(e) => Err(e),
            })
        }
    }
}

/// Applies merge keys: a mapping's own keys first, then those of what it
/// merges, earlier ones first.
fn merged(n: &N) -> Result<N, String> {
    Ok(match &n.v {
        M::S(_) => n.clone(),
        M::A(v) => N::a(v.iter().map(merged).collect::<Result<_, _>>()?),
        M::D(d) => {
            let mut out = Tree::new();
            for (k, v) in d { if k != "<<" { out.insert(k.clone(), merged(v)?); } }
            let from: Vec<N> = match d.get("<<").map(|n| (&n.v, n)) {
                None => vec![],
                Some((M::D(_), n)) => vec![n.clone()],
                Some((M::A(v), _)) => v.clone(),
                Some(_) => return Err("merges a scalar".into()),
            };
            for f in from {
                let f = merged(&f)?;
                let Some(d) = f.dict() else { return Err("merges what is no mapping".into()) };
                for (k, v) in d { out.entry(k.clone()).or_insert(v.clone()); }
            }
            root(out)
        }
    })
}

/// Reads the text as the reference does, and compares, as a string and a file,
/// un-nested and nested.
fn any_text(cx: &mut Cx, fmt: Fmt, text: &str, forms: &[Form]) -> R {
    let tree = read(fmt, text)?;
    cx.op(|| format!("{fmt:?} {text:?}"));
    cx.state(&(fmt, text));
    cx.outcome(&tree.is_ok());
    for sets in [&[][..], &[Set::Nested]] {
        // A profile with nothing after its colon may well be an empty one.
        let blank = |t: &Tree| fmt != Fmt::Json && t.values().any(|n| n.v == M::S(Sc::Unit));
        if !sets.is_empty() && tree.as_ref().map_or(false, blank) { continue; }
        let want = match &tree { Ok(t) => model(t, sets), Err(e) => Err(e.clone()) };
        for &form in forms {
            cx.checked(1);
            let got = provide(fmt, text.as_bytes(), sets, form);
            match (&got, &want) {
                (Ok(g), Ok(w)) => ensure!(show_all(g) == show_all(w), "data",
                    "{fmt:?} {form:?} {sets:?} {text:?}: got {}, expected {}", show_all(g), show_all(w)),
                (Err(_), Err(_)) => {}
                (g, w) => return fail("malformed", format!("{fmt:?} {form:?} {sets:?} {text:?}: got {g:?}, expected {w:?}")),
            }
        }
    }
    Ok(())
}

fn leaf_list() -> Vec<N> {
    let mut v: Vec<N> = ["", "s", "true", "1", "1.5", "null", "~", " ", " a", "a ", "a: b", "a # b", "- a", "é日\u{1F600}", "\"q\"",
        "'", "\\", "\n", "a\nb\n", "\t", "\u{0}", "\u{7f}", "\u{85}", "\u{feff}", "\r\n", "{a}", "[a]", "&a", "*a", "!a", "%a", "@a", "`",
        "2020-01-01", "0x10", "1e3", ".inf", "yes", "no", "on", "y", "=", "<<", "---", "...", "$x", "${x}", "\u{2028}"]
        .iter().map(|s| N::s(s)).collect();
    v.push(N::s(&"long ".repeat(300)));
    v.extend([0, 1, -1, 127, 128, 255, 256, i64::MAX, i64::MIN, i32::MAX as i64, u32::MAX as i64 + 1].map(N::i));
    v.extend([0.0, 0.5, -2.25, 1e100, 123456.0, 1e-7, 1e15, 1e16, 1e17, -0.0].map(|f| N::sc(Sc::f64(f))));
    v.extend([true, false].map(|b| N::sc(Sc::Bool(b))));
    v.extend([N::a(vec![]), N::d(vec![]), N::a(vec![N::a(vec![]), N::d(vec![])]), N::a(vec![N::i(1), N::s("x"), N::sc(Sc::Bool(true))]),
        N::a(vec![N::d(vec![("a", N::i(1))]), N::d(vec![("b", N::d(vec![("c", N::i(2))]))])]),
        N::a(vec![N::a(vec![N::i(1)]), N::a(vec![N::s("z")])])]);
    v
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![];

    let depth = tier.sel(2, 3);
    v.push(Scenario::new(
        "trees",
        format!("every document over the keys a and b and 5 leaves, nested up to {depth}, in 2 JSON, 4 YAML and 3 \
            TOML styles, as string and file, 5 ways un-nested and nested"),
        move |cx| {
            let leaves = [N::i(1), N::s("x"), N::a(vec![N::d(vec![("a", N::i(2))])]), N::a(vec![]), N::d(vec![])];
            let leaves = if tier == Tier::Thorough { &leaves[..2] } else { &leaves[..] };
            let t = any_dict(cx, &["a", "b"], leaves, depth);
            let sets = cx.of(&sources()).clone();
            everywhere(cx, &t, &sets)
        }
    ).tasks(2000));

    v.push(Scenario::new(
        "leaves",
        "each of 77 leaves at the top, in a dictionary, in an array and in an array of dictionaries",
        |cx| {
            let n = cx.of(&leaf_list()).clone();
            let n = match cx.pick(4) {
                0 => n, 1 => N::d(vec![("d", n)]), 2 => N::a(vec![N::s("z"), n]), _ => N::a(vec![N::d(vec![("d", n)])]),
            };
            let sets = cx.of(&sources()).clone();
            everywhere(cx, &one("k", n), &sets)
        }
    ));

    v.push(Scenario::new(
        "keys",
        "each of 27 unusual keys, and every pair, at the top or nested",
        |cx| {
            let mut keys = crate::c01::odd_keys();
            // A merge key, or not a key in YAML.
            keys.retain(|k| !k.contains('\0'));
            let (a, b) = (cx.of(&keys).clone(), cx.of(&keys).clone());
            let nested = cx.flag();
            let inner = N::d(vec![(&a, N::i(1)), (&b, N::d(vec![(&a, N::s("x"))]))]);
            let t = if nested { one("p", inner) } else { inner.dict().unwrap().clone() };
            let sets = cx.of(&sources()).clone();
            everywhere(cx, &t, &sets)
        }
    ));

    v.push(Scenario::new(
        "profiles",
        "documents of 1 or 2 profiles of 12 names, dictionaries or not, under every sequence of up to 4 settings \
         (nested, 3 profiles, required, search)",
        move |cx| {
            let names = ["default", "global", "debug", "Default", "GLOBAL", "zone", "", " ", "é", "É", "a.b", "DeBug"];
            let what = [N::d(vec![("k", N::i(1))]), N::d(vec![]), N::i(2), N::a(vec![N::d(vec![("k", N::i(3))])]),
                N::d(vec![("default", N::d(vec![("k", N::i(4))]))]), N::s("")];
            let (a, b) = (cx.pick(names.len()), cx.pick(names.len()));
            if b <= a && b > 0 { return Err(Stop::Skip); }
            let mut t = one(names[a], cx.of(&what).clone());
            if b > 0 {
                if names[a].eq_ignore_ascii_case(names[b]) { return Err(Stop::Skip); }
                t.insert(names[b].into(), N::d(vec![("k", N::i(5)), ("l", N::i(6))]));
            }
            let sets = any_sets(cx, tier.sel(2, 4));
            everywhere(cx, &t, &sets)
        }
    ));

    v.push(Scenario::new(
        "histories",
        "every sequence of up to 5 settings on a source of nested data",
        |cx| {
            let t = N::d(vec![("default", N::d(vec![("k", N::i(1))])), ("zone", N::d(vec![("k", N::i(2))])),
                ("global", N::d(vec![("l", N::i(3))]))]);
            let sets = any_sets(cx, 5);
            everywhere(cx, t.dict().unwrap(), &sets)
        }
    ));

    v.push(Scenario::new(
        "sizes",
        "1 to 300 keys, profiles, elements, tables, nested 1 to 60 deep, or characters",
        |cx| {
            let n = *cx.of(&[1usize, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 60, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]);
            let deep = n.min(60);
            let t = match cx.pick(7) {
                0 => (0..n).map(|i| (format!("k{i}"), N::i(i as i64))).collect(),
                1 => (0..n).map(|i| (format!("p{i}"), N::d(vec![("k", N::i(i as i64))]))).collect(),
                2 => one("k", N::a((0..n).map(|i| N::i(i as i64)).collect())),
                3 => one("k", N::a((0..n).map(|i| N::d(vec![("x", N::i(i as i64))])).collect())),
                4 => one("k", at(&vec!["d"; deep], N::i(1))),
                5 => one("k", (0..deep).fold(N::i(1), |n, _| N::a(vec![n]))),
                _ => one(&"k".repeat(n), N::s(&"é".repeat(n))),
            };
            let sets = cx.of(&sources()).clone();
            everywhere(cx, &t, &sets)
        }
    ));

    let len = tier.sel(6, 7);
    v.push(Scenario::new(
        "json",
        format!("every sequence of up to {len} of 12 JSON tokens, against a reference parser of JSON; in files, too, up to 4"),
        move |cx| {
            let tokens = ["{", "}", "[", "]", ":", ",", "\"a\"", "1", "null", "-", "\"", " "];
            let n = cx.pick(len + 1);
            let s: String = (0..n).map(|_| *cx.of(&tokens)).collect();
            any_text(cx, Fmt::Json, &s, if n <= 4 { &[Form::String, Form::File] } else { &[Form::String] })
        }
    ));

    v.push(Scenario::new(
        "json-values",
        "every sequence of up to 5 of 14 pieces of numbers, strings and words as the value of a key, in a JSON document",
        move |cx| {
            let tokens = ["0", "1", "9", "-", "+", ".", "e", "\"", "\\", "u00", "e9", "true", "n", "ull"];
            let n = cx.pick(tier.sel(5, 6));
            let s: String = (0..n).map(|_| *cx.of(&tokens)).collect();
            any_text(cx, Fmt::Json, &format!("{{\"a\": {{\"b\": {s}}}}}"), &[Form::String])
        }
    ));

    for (name, fmt) in [("broken-json", Fmt::Json), ("broken-yaml", Fmt::Yaml), ("broken-yaml-extended", Fmt::Ext), ("broken-toml", Fmt::Toml)] {
        v.push(Scenario::new(
            name,
            "well-formed documents with every 1 or 2 (strings only) changes: a character removed, doubled, replaced by or \
             preceded by any of 14 others, or the document truncated: an error if the format's parser says so, \
             and then nothing is provided, else what it says",
            move |cx| {
                let docs: Vec<String> = match fmt {
                    Fmt::Json => vec!["{\"a\": {\"b\": [1, \"x\", null]}, \"d\": {\"k\": 1.5}}".into(), "{\"a\":{\"b\":{}}}".into(), "{}".into()],
                    Fmt::Toml => vec!["a.b = [1, \"x\", true]\n[d]\nk = 1.5 # c\n".into(), "a = {b = {}}\n".into(), "[[a]]\nb=1\n[[a]]\n[a.c]\n".into()],
                    _ => vec!["a:\n  b: [1, x, null]\nd: {k: 1.5} # c\n".into(), "a: {b: {}}\n".into(),
                        "a: &x\n  b: 1\nd:\n  <<: *x\n  c:\n  - 1\n  - k: 2\n".into()],
                };
                let with = ["{", "}", "[", "]", ":", ",", "\"", "'", "=", " ", "\n", "#", "a", "\t"];
                let mut s: Vec<String> = cx.of(&docs).chars().map(|c| c.to_string()).collect();
                let max = tier.sel(2, 3);
                let n = cx.pick(max);
                let cut = if n == 0 { cx.pick(s.len() + 1) } else { s.len() };
                s.truncate(cut);
                for _ in 0..n {
                    let i = cx.pick(s.len());
                    match cx.pick(2 + 2 * with.len()) {
                        0 => { s.remove(i); }
                        1 => { let t = s[i].clone(); s.insert(i, t); }
                        h if h < 2 + with.len() => s[i] = with[h - 2].into(),
                        h => s.insert(i, with[h - 2 - with.len()].into()),
                    }
                }
                any_text(cx, fmt, &s.concat(), if n < 2 { &[Form::String, Form::File] } else { &[Form::String] })
            }
        ).tasks(1500));
    }

    v.push(Scenario::new(
        "yaml",
        "every sequence of up to 6 (thorough: 7) of 9 YAML tokens, in both YAML formats, against the parser",
        move |cx| {
            let fmt = *cx.of(&[Fmt::Yaml, Fmt::Ext]);
            let tokens = ["a: ", "b", "\n", "  ", "- ", "<<: ", "{", "}", "&x "];
            let n = cx.pick(tier.sel(7, 8));
            let s: String = (0..n).map(|_| *cx.of(&tokens)).collect();
            any_text(cx, fmt, &s, &[Form::String])
        }
    ));

    v.push(Scenario::new(
        "toml",
        "every sequence of up to 6 (thorough: 7) of 11 TOML tokens, against the parser",
        move |cx| {
            let tokens = ["a", "b", " = ", "1", "\n", "[", "]", ".", "{", "}", "\""];
            let n = cx.pick(tier.sel(7, 8));
            let s: String = (0..n).map(|_| *cx.of(&tokens)).collect();
            any_text(cx, Fmt::Toml, &s, &[Form::String])
        }
    ));

    v.push(Scenario::new(
        "merge-keys",
        "3 anchored mappings of any of 7 contents, merging none, any one or any two of those before them, or \
         something that cannot be merged, and a mapping that does, in 3 places, in extended YAML; in plain \
         YAML merge keys are like any other",
        move |cx| {
            let bodies = ["", "x: 1", "y: 2", "x: 3, y: 4", "d: {x: 5}", "d: {y: 6, <<: {z: 7}}", "l: [{<<: {x: 8}}]"];
            let mut defs: Vec<String> = vec![];
            for i in 0..4 {
                let merge: Vec<String> = match i {
                    0 => vec![String::new(), "<<: {m: 0}".into(), "<<: 1".into()],
                    _ => {
                        let mut v = vec![String::new()];
                        for j in 0..i { v.push(format!("<<: *r{j}")); }
                        for j in 0..i { for k in 0..i {
                            if j != k && (j.max(k) == i - 1) { v.push(format!("<<: [*r{j}, *r{k}]")); }
                        } }
                        if i == 1 { v.extend(["<<: []".into(), "<<: [1]".into(), "<<: [[*r0]]".into(), "<<: x".into(), "<<: ".into()]); }
                        v
                    }
                };
                let m = cx.of(&merge).clone();
                let few: &[&str] = match (tier, i) {
                    (_, 3) => &["x: 9"],
                    (Tier::Thorough, 0) => &bodies,
                    (Tier::Thorough, _) => &bodies[..5],
                    (_, 0) => &bodies[2..],
                    (_, 1) => &bodies[..3],
                    _ => &["", "x: 3, y: 4"],
                };
                let b = *cx.of(few);
                let both = if cx.pick(if i < tier.sel(0, 2) { 2 } else { 1 }) == 0 { [m.as_str(), b] } else { [b, m.as_str()] };
                let parts: Vec<&str> = both.into_iter().filter(|s| !s.is_empty()).collect();
                defs.push(format!("&r{i} {{{}}}", parts.join(", ")));
            }
            let place = cx.pick(3);
            let mut s = String::new();
            for (i, d) in defs.iter().enumerate() {
                s += &match (i, place) {
                    (3, 0) => format!("t: {d}\n"),
                    (3, 1) => format!("t: {{u: [{d}]}}\n"),
                    (3, _) => format!("<<: {d}\n"),
                    (i, _) => format!("k{i}: {d}\n"),
                };
            }
            any_text(cx, Fmt::Ext, &s, &[Form::String])?;
            any_text(cx, Fmt::Yaml, &s, &[Form::String])
        }
    ).tasks(2000));

    v.push(Scenario::new(
        "tags",
        "YAML tags of 12 names, some with dots, on each of 9 contents (some tagged themselves), in block or flow style, \
         in 4 places, un-nested or nested, in both YAML formats: what JSON provides with a dictionary of just that name, also for an enumeration",
        |cx| {
            let names = ["A", "a", "v1.0", ".", "a.", ".a", "a.b.c", "..", "-1.5", "true", "A-b_c", "x.y"];
            let contents = [("5", "5"), ("[1, 2]", "[1, 2]"), ("{x: 1}", "{\"x\": 1}"), ("\"5\"", "\"5\""), ("s", "\"s\""),
                ("{x: !B.c 1}", "{\"x\": {\"B.c\": 1}}"), ("[!C. 1, !D 2]", "[{\"C.\": 1}, {\"D\": 2}]"),
                ("{}", "{}"), ("true", "true")];
            let name = *cx.of(&names);
            let (y, j) = *cx.of(&contents);
            let tagged = (format!("!{name} {y}"), format!("{{{name:?}: {j}}}"));
            let (y, j) = match cx.pick(4) {
                0 => tagged,
                1 => (format!("[1, {}]", tagged.0), format!("[1, {}]", tagged.1)),
                2 => (format!("{{k: {}, l: 1}}", tagged.0), format!("{{\"k\": {}, \"l\": 1}}", tagged.1)),
                _ => (format!("!O.p {{k: {}}}", tagged.0), format!("{{\"O.p\": {{\"k\": {}}}}}", tagged.1)),
            };
            let (y, j) = match cx.pick(3) {
                0 => (format!("p:\n  t: {y}\n"), format!("{{\"p\": {{\"t\": {j}}}}}")),
                1 => (format!("{{p: {{t: {y}}}}}"), format!("{{\"p\": {{\"t\": {j}}}}}")),
                _ => (format!("p:\n  u: &x {y}\n  t: *x\n"), format!("{{\"p\": {{\"t\": {j}, \"u\": {j}}}}}")),
            };
            let sets: &[Set] = if cx.pick(2) == 0 { &[] } else { &[Set::Nested] };
            cx.op(|| format!("{y:?} {sets:?}"));
            cx.state(&(&y, sets));
            let want = provide(Fmt::Json, j.as_bytes(), sets, Form::String);
            ensure!(want.is_ok(), "JSON", "{j:?}: {want:?}");
            for fmt in [Fmt::Yaml, Fmt::Ext] { compare(cx, fmt, &y, sets, &want)?; }
            #[derive(Debug, PartialEq, serde::Deserialize)]
            enum E {
                A(serde_json::Value),
                #[serde(rename = "v1.0")] V(u8),
                #[serde(rename = "a.b.c")] Abc { x: u8 },
                #[serde(rename = "x.y")] Xy(u8, u8),
                #[serde(rename = "a.")] Dot(String),
            }
            let as_enum = |f: Figment| f.select("p").extract_inner::<E>(if sets.is_empty() { "p.t" } else { "t" }).ok();
            let want = as_enum(Figment::from(if sets.is_empty() { Json::string(&j) } else { Json::string(&j).nested() }));
            for got in [
                as_enum(Figment::from(if sets.is_empty() { Yaml::string(&y) } else { Yaml::string(&y).nested() })),
                as_enum(Figment::from(if sets.is_empty() { YamlExtended::string(&y) } else { YamlExtended::string(&y).nested() })),
            ] {
                cx.checked(1);
                ensure!(got == want, "enumeration", "{y:?} {sets:?}: {got:?}, but {want:?} from {j:?}");
            }
            cx.outcome(&want.is_some());
            Ok(())
        }
    ));

    v.push(Scenario::new(
        "files",
        "files that are not UTF-8, with a byte order mark, CRLF line ends, no final line end, padding or NULs, in each \
         format: as a string of the same text, or an error",
        |cx| {
            let fmt = *cx.of(&FMTS);
            let doc = match fmt { Fmt::Toml => "a = 1\nb = \"x\"\n", Fmt::Json => "{\"a\": 1,\n\"b\": \"x\"}\n", _ => "a: 1\nb: \"x\"\n" };
            let n = cx.pick(9 + doc.len() + 1);
            let text: Vec<u8> = match n {
                0 => doc.into(),
                1 => [b"\xef\xbb\xbf", doc.as_bytes()].concat(),
                2 => doc.replace('\n', "\r\n").into(),
                3 => doc.trim_end().into(),
                4 => format!("\n\n{doc}\n\n  \n").into(),
                5 => format!("{doc}\0").into(),
                6 => "".into(),
                7 => "\n".into(),
                8 => doc.encode_utf16().flat_map(|u| u.to_le_bytes()).collect(),
                n => { let mut v = doc.as_bytes().to_vec(); v.insert(n - 9, 0xff); v }
            };
            cx.op(|| format!("{fmt:?} {text:?}"));
            cx.state(&text);
            let sets = cx.of(&sources()).clone();
            let file = provide(fmt, &text, &sets, Form::File);
            cx.checked(1);
            match std::str::from_utf8(&text) {
                Err(_) => ensure!(file.is_err(), "not UTF-8", "{fmt:?} {text:?}: {file:?}"),
                Ok(_) => {
                    let string = provide(fmt, &text, &sets, Form::String);
                    let same = match (&file, &string) {
                        (Ok(a), Ok(b)) => show_all(a) == show_all(b),
                        (a, b) => a.is_err() == b.is_err(),
                    };
                    ensure!(same, "file", "{fmt:?} {text:?}: {file:?} as a file, {string:?} as a string");
                }
            }
            let _ = Tmp::new();
            Ok(())
        }
    ));

    v
}
