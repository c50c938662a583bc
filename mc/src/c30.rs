//! Extraction reads what a type's serde definition says, of any document.

use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::fmt::Debug;

use figment::providers::{Format, Json, Serialized};
use figment::value::Value;
use figment::Figment;
use serde::de::{self, DeserializeOwned, Deserializer, IntoDeserializer, Unexpected, Visitor};
use serde::Deserialize;
use serde_json::{json, Error, Value as J};

use crate::engine::*;
use crate::ensure_eq;

/// The reference: what a self-describing format presents to a type. What
/// follows the elements a type reads of an array is ignored, and the tag of an
/// enum may be the position of the variant.
struct Ref<'a>(&'a J);

impl<'a> Ref<'a> {
    fn unexpected(&self) -> Unexpected<'a> {
        match self.0 {
            J::Null => Unexpected::Unit,
            J::Bool(b) => Unexpected::Bool(*b),
            J::Number(_) => Unexpected::Other("number"),
            J::String(s) => Unexpected::Str(s),
            J::Array(_) => Unexpected::Seq,
            J::Object(_) => Unexpected::Map,
        }
    }
}

impl<'de> Deserializer<'de> for Ref<'_> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.0 {
            J::Null => v.visit_unit(),
            J::Bool(b) => v.visit_bool(*b),
            J::Number(n) => match (n.as_u64(), n.as_i64()) {
                (Some(n), _) => v.visit_u64(n),
                (_, Some(n)) => v.visit_i64(n),
                _ => v.visit_f64(n.as_f64().unwrap()),
            },
            J::String(s) => v.visit_str(s),
            J::Array(a) => v.visit_seq(de::value::SeqDeserializer::new(a.iter().map(Item))),
            J::Object(m) => v.visit_map(de::value::MapDeserializer::new(m.iter().map(|(k, v)| (Key(k), Item(v))))),
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        if self.0.is_null() { v.visit_none() } else { v.visit_some(self) }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        match self.0 {
            J::String(s) => v.visit_enum(s.as_str().into_deserializer()),
            J::Object(m) if m.len() == 1 => {
                let (name, content) = m.iter().next().unwrap();
                v.visit_enum(Variant(name, content))
            }
            _ => Err(de::Error::invalid_type(self.unexpected(), &"an enum")),
        }
    }
    serde::forward_to_deserialize_any! {
        bool u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 f32 f64 char str string seq bytes byte_buf map unit struct
        ignored_any unit_struct tuple_struct tuple identifier
    }
}

struct Item<'a>(&'a J);
impl<'de, 'a> IntoDeserializer<'de, Error> for Item<'a> {
    type Deserializer = Ref<'a>;
    fn into_deserializer(self) -> Ref<'a> { Ref(self.0) }
}

/// A key is a string, in as many newtypes and options as are asked for.
struct Key<'a>(&'a str);
impl<'de> IntoDeserializer<'de, Error> for Key<'_> {
    type Deserializer = Self;
    fn into_deserializer(self) -> Self { self }
}
impl<'de> Deserializer<'de> for Key<'_> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { v.visit_str(self.0) }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { v.visit_some(self) }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        v.visit_enum(self.0.into_deserializer())
    }
    serde::forward_to_deserialize_any! {
        bool u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 f32 f64 char str string seq bytes byte_buf map unit struct
        ignored_any unit_struct tuple_struct tuple identifier
    }
}

struct Variant<'a>(&'a str, &'a J);
impl<'de, 'a> de::EnumAccess<'de> for Variant<'a> {
    type Error = Error;
    type Variant = Ref<'a>;
    fn variant_seed<S: de::DeserializeSeed<'de>>(self, seed: S) -> Result<(S::Value, Ref<'a>), Error> {
        Ok((seed.deserialize(Key(self.0))?, Ref(self.1)))
    }
}
impl<'de> de::VariantAccess<'de> for Ref<'_> {
    type Error = Error;
    fn unit_variant(self) -> Result<(), Error> { <()>::deserialize(self) }
    fn newtype_variant_seed<S: de::DeserializeSeed<'de>>(self, seed: S) -> Result<S::Value, Error> { seed.deserialize(self) }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, Error> {
        match self.0 {
            J::Array(_) => self.deserialize_any(v),
            _ => Err(de::Error::invalid_type(self.unexpected(), &"a tuple variant")),
        }
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        match self.0 {
            J::Array(_) | J::Object(_) => self.deserialize_any(v),
            _ => Err(de::Error::invalid_type(self.unexpected(), &"a struct variant")),
        }
    }
}

/// Whether something, within, reads fewer elements than there are.
fn long(j: &J) -> bool {
    match j {
        J::Array(a) => !a.is_empty(),
        J::Object(m) => m.values().any(long),
        _ => false,
    }
}

type Got = Result<String, String>;

fn got<T: Debug, E: Debug>(r: Result<T, E>) -> Got {
    match r { Ok(t) => Ok(format!("{t:?}")), Err(e) => Err(format!("{e:?}")) }
}

/// The ways to read something as a type.
struct Ways {
    name: &'static str,
    reference: fn(&J) -> Got,
    json: fn(&J) -> Got,
    value: fn(&Value) -> Got,
    strict: fn(&Figment, Option<&str>) -> Got,
    lossy: fn(&Figment, Option<&str>) -> Got,
}

fn ways<T: DeserializeOwned + Debug>() -> Ways {
    Ways {
        name: std::any::type_name::<T>(),
        reference: |j| got(T::deserialize(Ref(j))),
        json: |j| got(T::deserialize(j)),
        value: |v| got(v.deserialize::<T>()),
        strict: |f, at| got(match at { Some(at) => f.extract_inner::<T>(at), None => f.extract() }),
        lossy: |f, at| got(match at { Some(at) => f.extract_inner_lossy::<T>(at), None => f.extract_lossy() }),
    }
}

fn reads(cx: &mut Cx, ways: &Ways, j: &J) -> R {
    let name = ways.name;
    cx.op(|| format!("{name} from {j}"));
    cx.state(&(name, j.to_string()));
    let want = (ways.reference)(j);
    // The reference is as `serde_json` is, other than as to such arrays and tags.
    let tagged = ["Int", "Adj", "FlatTag"].iter().any(|t| name.contains(t));
    match ((ways.json)(j), &want) {
        (Ok(a), Ok(b)) => assert_eq!(&a, b, "{name} from {j}"),
        (Ok(_), Err(e)) => panic!("reference: {name} from {j}: {e}"),
        (Err(e), Ok(_)) => assert!(long(j) || tagged, "reference: {name} from {j}: {e}"),
        _ => {}
    }
    cx.outcome(&(name, want.as_ref().ok()));

    let text = json!({ "x": j, "w": 1 }).to_string();
    let v: Value = serde_json::from_value(j.clone()).unwrap();
    let one = Figment::from(Json::string(&text));
    let ser = Figment::new().join(Serialized::global("y.x", j));
    let mut all = vec![
        ("inner", (ways.strict)(&one, Some("x"))),
        ("serialized", (ways.strict)(&ser, Some("y.x"))),
        ("focused", (ways.strict)(&ser.focus("y"), Some("x"))),
        ("by itself", (ways.value)(&v)),
        ("dynamic", (ways.value)(&one.extract_inner::<Value>("x").unwrap())),
    ];
    if let J::Object(m) = j {
        // As all of the configuration, from one source or from two.
        all.push(("root", (ways.strict)(&Figment::from(Json::string(&j.to_string())), None)));
        let split = m.len() / 2;
        let part = |keep: &dyn Fn(usize) -> bool| J::Object(m.iter().enumerate()
            .filter(|(i, _)| keep(*i)).map(|(_, (k, v))| (k.clone(), v.clone())).collect());
        let (a, b) = (part(&|i| i < split), part(&|i| i >= split));
        all.push(("merged", (ways.strict)(&Figment::from(Serialized::defaults(&b)).merge(Json::string(&a.to_string())), None)));
        all.push(("joined", (ways.strict)(&Figment::from(Json::string(&b.to_string())).join(Serialized::globals(&a)), Some(""))));
    }
    if want.is_ok() {
        // What is accepted as it is isn't converted.
        all.push(("lossy", (ways.lossy)(&one, Some("x"))));
        if j.is_object() { all.push(("lossy root", (ways.lossy)(&Figment::from(Serialized::defaults(j)), None))); }
    }
    for (what, got) in all {
        cx.checked(1);
        match (got, &want) {
            (Ok(a), Ok(b)) => ensure_eq!(&a, b, "value", "{what}: {name} from {j}"),
            (Err(_), Err(_)) => {}
            (Ok(a), Err(e)) => return fail("accepted", format!("{what}: {name} from {j}: {a}, though {e}")),
            (Err(e), Ok(b)) => return fail("rejected", format!("{what}: {name} from {j}: {e}, though it is {b}")),
        }
    }
    Ok(())
}

#[derive(Debug, Deserialize)] struct Plain { a: u8, b: Option<String> }
#[derive(Debug, Deserialize)] #[serde(deny_unknown_fields)] struct Deny { a: Option<i8>, b: bool }
#[derive(Debug, Deserialize, Default)] #[serde(default)] struct Dflt { a: u8, b: Vec<u8> }
fn seven() -> u16 { 7 }
#[derive(Debug, Deserialize)] struct FieldDflt { #[serde(default)] a: Option<Option<u8>>, #[serde(default = "seven")] b: u16 }
#[derive(Debug, Deserialize)] struct Alias { #[serde(alias = "b", alias = "c.d")] a: u8 }
#[derive(Debug, Deserialize)] #[serde(rename_all = "kebab-case")] struct Renamed { a_b: u8, #[serde(rename = "c.d")] c: Option<char> }
#[derive(Debug, Deserialize)] struct Skip { #[serde(skip)] a: u8, b: (), #[serde(skip_deserializing, default = "seven")] c: u16 }
#[derive(Debug, Deserialize)] struct In { a: u8 }
#[derive(Debug, Deserialize)] struct Flat { b: Option<u8>, #[serde(flatten)] inner: In, #[serde(flatten)] rest: BTreeMap<String, J> }
#[derive(Debug, Deserialize)] struct FlatOpt { #[serde(flatten)] inner: Option<In>, b: Option<bool> }
#[derive(Debug, Deserialize)] struct FlatEnum { #[serde(flatten)] e: Ext, c: Option<u8> }
#[derive(Debug, Deserialize)] struct FlatTag { #[serde(flatten)] e: Int, #[serde(flatten)] rest: BTreeMap<Name, u8> }
#[derive(Debug, Deserialize)] enum Ext { #[serde(rename = "a")] A, #[serde(rename = "b", alias = "B")] B(u8), #[serde(rename = "c")] C(u8, Option<u8>), #[serde(rename = "d")] D { a: Option<u8> } }
#[derive(Debug, Deserialize)] #[serde(deny_unknown_fields)] enum ExtDeny { #[serde(rename = "a")] A { a: u8 }, #[serde(rename = "b")] B(u8, u8), #[serde(rename = "c")] C { b: Option<u8> }, #[serde(rename = "d")] D(Option<Box<ExtDeny>>) }
#[derive(Debug, Deserialize)] enum Kinds { #[serde(rename = "a")] A, #[serde(rename = "b")] B, #[serde(other)] Other }
#[derive(Debug, Deserialize)] #[serde(tag = "t")] enum Int { #[serde(rename = "a")] A, #[serde(rename = "b")] B { a: Option<u8>, b: Option<bool> }, #[serde(rename = "c")] C(In) }
#[derive(Debug, Deserialize)] #[serde(tag = "t")] enum IntOther { #[serde(rename = "a")] A(BTreeMap<String, u8>), #[serde(rename = "b")] B(Unt), #[serde(other)] Other }
#[derive(Debug, Deserialize)] #[serde(tag = "t", content = "c")] enum Adj { #[serde(rename = "a")] A, #[serde(rename = "b")] B(u8), #[serde(rename = "c")] C(u8, u8), #[serde(rename = "d")] D { a: u8 } }
#[derive(Debug, Deserialize)] #[serde(untagged)] enum Unt { N(u8), P(u8, u8), S { a: u8 }, T { b: Box<Unt> }, F(f32), U, L(Vec<String>), C(char), O(Option<bool>) }
#[derive(Debug, Deserialize)] #[serde(untagged)] enum UntExt { E(Ext), M(BTreeMap<char, Kinds>), I(i64) }
#[derive(Debug, Deserialize, PartialEq, Eq, PartialOrd, Ord, Hash)] struct Name(String);
#[derive(Debug, Deserialize, PartialEq, Eq, PartialOrd, Ord, Hash)] #[serde(transparent)] struct Id { id: Name }
#[derive(Debug, Deserialize, PartialEq, Eq, PartialOrd, Ord, Hash)] enum Which { #[serde(rename = "a")] A, #[serde(rename = "b")] B }
#[derive(Debug, Deserialize)] struct Unit;
#[derive(Debug, Deserialize)] struct Pair(u8, Option<String>);
#[derive(Debug, Deserialize)] struct New<T>(T);
#[derive(Debug, Deserialize)] struct Tree { a: Option<Box<Tree>>, #[serde(default)] b: Vec<Tree> }
#[derive(Debug, Deserialize)] #[serde(from = "u8")] struct From_(u16);
impl From<u8> for From_ { fn from(n: u8) -> Self { From_(n as u16 * 2) } }
#[derive(Debug, Deserialize)] #[serde(try_from = "String")] struct Try(char);
impl TryFrom<String> for Try {
    type Error = &'static str;
    fn try_from(s: String) -> Result<Self, &'static str> { s.chars().last().map(Try).ok_or("empty") }
}
fn twice<'de, D: Deserializer<'de>>(d: D) -> Result<u8, D::Error> { Ok(Option::<u8>::deserialize(d)?.unwrap_or(9)) }
#[derive(Debug, Deserialize)] struct With { #[serde(deserialize_with = "twice")] a: u8, #[serde(default, deserialize_with = "twice")] b: u8 }

/// A document: a leaf, an array, or a dictionary, of up to `width` parts.
fn doc(cx: &mut Cx, keys: &[&str], leaves: &[J], depth: usize, width: usize) -> J {
    let l = leaves.len();
    let i = cx.pick(if depth == 0 { l } else { l + 2 });
    if i < l { return leaves[i].clone(); }
    if i == l {
        let n = cx.pick(width + 1);
        return J::Array((0..n).map(|_| doc(cx, keys, leaves, depth - 1, width)).collect());
    }
    let mut m = serde_json::Map::new();
    for k in keys {
        if m.len() < width && cx.flag() {
            let v = doc(cx, keys, leaves, depth - 1, width);
            m.insert(k.to_string(), v);
        }
    }
    J::Object(m)
}

const COUNT: usize = 64;

#[derive(Clone, Copy, PartialEq, Eq)]
enum Leaves { Few, More, Near }

const ALMOST: usize = 9;

/// A string that isn't `s` but could be taken for it.
fn near(s: &str, how: usize) -> String {
    match how {
        0 => s.to_uppercase(),
        1 => s.to_lowercase() + "_",
        2 => format!(" {s}"),
        3 => format!("{s} "),
        4 => s.chars().skip(1).collect(),
        5 => s.replace('-', "_") + "0",
        6 => format!("{s}{s}"),
        7 => format!("\"{s}\""),
        _ => s.chars().flat_map(|c| [c, '\u{301}']).collect(),
    }
}

/// The keys and strings that matter to the type, and reads a document as it.
fn of_type(cx: &mut Cx, i: usize, depth: usize, leaves: Leaves) -> R {
    let more = leaves == Leaves::More;
    let mut go = |ways: Ways, keys: &[&str], extra: &[J]| {
        if leaves == Leaves::Near {
            // One key, or all strings, not quite as they should be.
            let almost = cx.pick(ALMOST);
            let which = cx.pick(keys.len() + 1);
            let keys: Vec<String> = keys.iter().enumerate()
                .map(|(i, k)| if which == i || which == keys.len() { near(k, almost) } else { k.to_string() })
                .take(3).collect();
            let mut leaves: Vec<J> = extra.iter().map(|j| match j {
                J::String(s) if which == keys.len() || which == 3 => json!(near(s, almost)),
                j => j.clone(),
            }).collect();
            leaves.extend([json!(1), json!(near("a", almost)), json!("1")]);
            let keys: Vec<&str> = keys.iter().map(|k| &**k).collect();
            let j = doc(cx, &keys, &leaves, depth, 2);
            return reads(cx, &ways, &j);
        }
        let mut leaves = extra.to_vec();
        let common = [json!(1), json!(null), json!("a"), json!(true), json!(-1), json!(0.5), json!(300), json!("")];
        for c in &common[..if more { 6 } else { 3 }] { if !leaves.contains(c) { leaves.push(c.clone()); } }
        let j = doc(cx, &keys[..keys.len().min(if more { 4 } else { 3 })], &leaves, depth, 2);
        reads(cx, &ways, &j)
    };
    macro_rules! table { ($($n:literal $t:ty, [$($k:literal),*], [$($l:expr),*];)*) => {
        match i {
            $($n => go(ways::<$t>(), &[$($k),*], &[$(json!($l)),*]),)*
            _ => unreachable!(),
        }
    } }
    table! {
        0 Plain, ["a", "b", "z"], [];
        1 Deny, ["a", "b", "z"], [true];
        2 Dflt, ["a", "b", "z"], [];
        3 FieldDflt, ["a", "b"], [300];
        4 Alias, ["a", "b", "c.d"], [];
        5 Renamed, ["a-b", "c.d", "a_b"], [];
        6 Skip, ["a", "b", "c"], [];
        7 Flat, ["a", "b", "c"], [];
        8 FlatOpt, ["a", "b"], [true];
        9 FlatEnum, ["a", "b", "c", "d"], [];
        10 FlatTag, ["t", "a", "b"], ["b"];
        11 Ext, ["a", "b", "d", "c"], ["b"];
        12 ExtDeny, ["a", "b", "d", "c"], [];
        13 Kinds, ["a", "z"], ["z"];
        14 Int, ["t", "a", "b"], ["b", "c"];
        15 IntOther, ["t", "a", "b"], ["b", "z"];
        16 Adj, ["t", "c", "a"], ["b", "c", "d"];
        17 Unt, ["a", "b"], [0.5];
        18 UntExt, ["a", "b", "c"], [-1];
        19 Unit, ["a"], [];
        20 Pair, ["a"], [];
        21 New<New<Option<u8>>>, ["a"], [];
        22 Tree, ["a", "b"], [];
        23 From_, ["a"], [200];
        24 Try, ["a"], ["", "ab"];
        25 With, ["a", "b"], [];
        26 BTreeMap<Name, u8>, ["a", "", "a.b"], [];
        27 BTreeMap<Id, Option<u8>>, ["a"], [];
        28 BTreeMap<Which, Which>, ["a", "b", "z"], ["b"];
        29 BTreeMap<char, bool>, ["a", "", "ab"], [true];
        30 BTreeMap<Option<String>, u8>, ["a", ""], [];
        31 (u8, Option<u8>, String), ["a"], [];
        32 [u8; 2], ["a"], [255];
        33 Option<Option<Vec<u8>>>, ["a"], [];
        34 BTreeSet<i8>, ["a"], [-1];
        35 VecDeque<Option<Ext>>, ["a", "b"], [];
        36 Result<u8, String>, ["Ok", "Err"], ["Ok"];
        37 std::ops::Bound<u8>, ["Included", "Excluded"], ["Unbounded"];
        38 std::ops::Range<u8>, ["start", "end"], [];
        39 std::time::Duration, ["secs", "nanos", "z"], [1_000_000_000];
        40 std::net::IpAddr, ["V4", "V6"], ["::1"];
        41 std::path::PathBuf, ["a"], [];
        42 std::ffi::OsString, ["Unix", "Windows"], [];
        43 Box<str>, ["a"], [];
        44 std::num::NonZeroU8, ["a"], [0];
        45 std::marker::PhantomData<u8>, ["a"], [];
        46 J, ["a", "b"], [];
        47 (), ["a"], [];
        48 bool, ["a"], [true];
        49 f32, ["a"], [0.5];
        50 f64, ["a"], [1e300];
        51 u64, ["a"], [u64::MAX];
        52 i64, ["a"], [i64::MIN];
        53 char, ["a"], ["ab"];
        54 String, ["a"], [];
        55 BTreeMap<String, Vec<(u8, String)>>, ["a", ""], [];
        56 Option<Unt>, ["a", "b"], [];
        57 Option<Int>, ["t", "a"], [];
        58 BTreeMap<String, Adj>, ["t", "c"], [];
        59 Vec<Plain>, ["a", "b"], [];
        60 Option<()>, ["a"], [];
        61 de::IgnoredAny, ["a"], [];
        62 BTreeMap<Name, Flat>, ["a", "b"], [];
        63 (Unit, New<String>), ["a"], [];
    }
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    vec![
        Scenario::new(
            "documents",
            "each of 64 types (with every kind of serde attribute, enum and standard type) from every document of up to 2 parts \
                2 deep, with up to 3 keys and 3 to 6 leaves that matter to the type",
            |cx| { let i = cx.pick(COUNT); of_type(cx, i, 2, Leaves::Few) }
        ).tasks(3000),
        Scenario::new(
            "more-leaves",
            if matches!(tier, Tier::Quick) { "the same, 1 deep, with up to 4 keys and 6 to 9 leaves" } else { "the same with up to 4 keys and 6 to 9 leaves" },
            move |cx| { let i = cx.pick(COUNT); of_type(cx, i, tier.sel(1, 2), Leaves::More) }
        ).tasks(3000),
        Scenario::new(
            "near-misses",
            "each of the types from every document of up to 2 parts, 1 deep, with one or all of its keys and strings \
                altered in one of 9 ways: case, space, length, quotes, accents",
            |cx| { let i = cx.pick(COUNT); of_type(cx, i, 1, Leaves::Near) }
        ).tasks(3000),
    ]
}
