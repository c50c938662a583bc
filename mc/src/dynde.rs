//! Target types as data: any nesting of the shapes that serde knows can be
//! enumerated. They deserialize and serialize as derived types would, and
//! `expect` says what extracting one from a value must yield.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt;
use std::path::PathBuf;
use std::rc::Rc;

use figment::error::{Actual, Kind};
use figment::value::magic::{Either, RelativePathBuf, Tagged};
use figment::value::{Tag, Value};
use serde::de::{self, Deserialize, DeserializeSeed, Deserializer, Visitor};
use serde::ser::{self, Serialize, Serializer};

use crate::model::*;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Bool, U8, U16, U32, U64, U128, Usize, I8, I16, I32, I64, I128, Isize, F32, F64, Char, Str, Unit,
    Opt(Rc<Ty>),
    Seq(Rc<Ty>),
    Tup(Vec<Rc<Ty>>),
    /// With keys of any string, or of single characters.
    Map(bool, Rc<Ty>),
    /// Whether unknown fields are denied, and the fields, as named in `FIELDS`.
    Struct(bool, Vec<Rc<Ty>>),
    UnitStruct,
    Newtype(Rc<Ty>),
    TupStruct(Vec<Rc<Ty>>),
    /// Variants, as named in `VARIANTS`.
    Enum(Vec<Var>),
    Tagged(Rc<Ty>),
    Value,
    Rel,
    /// Either a tagged first or else the second.
    Either(Rc<Ty>, Rc<Ty>),
    Ignored,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Var { Unit, Newtype(Rc<Ty>), Tup(Vec<Rc<Ty>>), Struct(Vec<Rc<Ty>>) }

pub const FIELDS: [&str; 4] = ["a", "b", "c", "d"];
pub const VARIANTS: [&str; 4] = ["Va", "Vb", "Vc", "Vd"];

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    S(Sc), None, Some(Box<Out>), Seq(Vec<Out>), Map(BTreeMap<String, Out>), Struct(Vec<Out>),
    Newtype(Box<Out>), Var(usize, Vec<Out>), Tagged(Tag, Box<Out>), TaggedSrc(Src, Box<Out>),
    Value(Value), Node(N), Rel(PathBuf, Option<PathBuf>), Left(Box<Out>), Right(Box<Out>), Ignored,
}

impl Out {
    /// Replaces tags by the sources they stand for.
    pub fn resolve(self, src: &impl Fn(Tag) -> Src) -> Out {
        let all = |v: Vec<Out>| v.into_iter().map(|o| o.resolve(src)).collect();
        let one = |o: Box<Out>| Box::new(o.resolve(src));
        match self {
            Out::Some(o) => Out::Some(one(o)),
            Out::Seq(v) => Out::Seq(all(v)),
            Out::Struct(v) => Out::Struct(all(v)),
            Out::Var(i, v) => Out::Var(i, all(v)),
            Out::Map(m) => Out::Map(m.into_iter().map(|(k, o)| (k, o.resolve(src))).collect()),
            Out::Newtype(o) => Out::Newtype(one(o)),
            Out::Left(o) => Out::Left(one(o)),
            Out::Right(o) => Out::Right(one(o)),
            Out::Tagged(t, o) => Out::TaggedSrc(src(t), one(o)),
            Out::Value(v) => Out::Node(N::of(&v, src)),
            o => o,
        }
    }

    /// Without the sources of tagged and dynamic values.
    pub fn bare(self) -> Out {
        let all = |v: Vec<Out>| v.into_iter().map(|o| o.bare()).collect();
        let one = |o: Box<Out>| Box::new(o.bare());
        match self {
            Out::Some(o) => Out::Some(one(o)),
            Out::Seq(v) => Out::Seq(all(v)),
            Out::Struct(v) => Out::Struct(all(v)),
            Out::Var(i, v) => Out::Var(i, all(v)),
            Out::Map(m) => Out::Map(m.into_iter().map(|(k, o)| (k, o.bare())).collect()),
            Out::Newtype(o) => Out::Newtype(one(o)),
            Out::Left(o) => Out::Left(one(o)),
            Out::Right(o) => Out::Right(one(o)),
            Out::Tagged(_, o) | Out::TaggedSrc(_, o) => Out::TaggedSrc(NOSRC, one(o)),
            Out::Value(v) => Out::Node(N::of(&v, &nosrc)),
            Out::Node(n) => Out::Node(n.bare()),
            o => o,
        }
    }
}

thread_local! {
    /// All relative paths deserialized, when kept.
    pub static RELS: RefCell<Option<Vec<RelativePathBuf>>> = const { RefCell::new(None) };
    /// The files that sources are, for `expect`.
    pub static FILES: RefCell<BTreeMap<u32, PathBuf>> = const { RefCell::new(BTreeMap::new()) };
}

/// How a relative path is serialized.
pub const REL: [&str; 2] = ["___figment_relative_metadata_path", "___figment_relative_path"];

thread_local! {
    static SLOTS: RefCell<[Option<Rc<Ty>>; 2]> = const { RefCell::new([None, None]) };
}

/// Sets the types that `Dyn<0>` and `Dyn<1>` are during `f`.
pub fn with<T>(a: &Rc<Ty>, b: Option<&Rc<Ty>>, f: impl FnOnce() -> T) -> T {
    let new = [Some(a.clone()), b.cloned()];
    let old = SLOTS.with(|s| std::mem::replace(&mut *s.borrow_mut(), new));
    struct Restore([Option<Rc<Ty>>; 2]);
    impl Drop for Restore {
        fn drop(&mut self) { SLOTS.with(|s| *s.borrow_mut() = std::mem::take(&mut self.0)); }
    }
    let _restore = Restore(old);
    f()
}

/// A value of the type in a slot.
#[derive(Debug, Clone)]
pub struct Dyn<const I: usize = 0>(pub Out);

impl<'de, const I: usize> Deserialize<'de> for Dyn<I> {
    fn deserialize<D: Deserializer<'de>>(de: D) -> Result<Self, D::Error> {
        let ty = SLOTS.with(|s| s.borrow()[I].clone()).expect("type in slot");
        Seed(ty).deserialize(de).map(Dyn)
    }
}

struct Seed(Rc<Ty>);

macro_rules! leaf {
    ($de:expr, $T:ty, $V:ident) => { <$T>::deserialize($de).map(|v| Out::S(Sc::$V(v))) }
}

impl<'de> DeserializeSeed<'de> for Seed {
    type Value = Out;

    fn deserialize<D: Deserializer<'de>>(self, de: D) -> Result<Out, D::Error> {
        match &*self.0 {
            Ty::Bool => leaf!(de, bool, Bool),
            Ty::U8 => leaf!(de, u8, U8),
            Ty::U16 => leaf!(de, u16, U16),
            Ty::U32 => leaf!(de, u32, U32),
            Ty::U64 => leaf!(de, u64, U64),
            Ty::U128 => leaf!(de, u128, U128),
            Ty::Usize => leaf!(de, usize, Us),
            Ty::I8 => leaf!(de, i8, I8),
            Ty::I16 => leaf!(de, i16, I16),
            Ty::I32 => leaf!(de, i32, I32),
            Ty::I64 => leaf!(de, i64, I64),
            Ty::I128 => leaf!(de, i128, I128),
            Ty::Isize => leaf!(de, isize, Is),
            Ty::F32 => f32::deserialize(de).map(|v| Out::S(Sc::f32(v))),
            Ty::F64 => f64::deserialize(de).map(|v| Out::S(Sc::f64(v))),
            Ty::Char => leaf!(de, char, Char),
            Ty::Str => leaf!(de, String, Str),
            Ty::Unit => <()>::deserialize(de).map(|_| Out::S(Sc::Unit)),
            Ty::Opt(t) => de.deserialize_option(OptV(t.clone())),
            Ty::Seq(t) => de.deserialize_seq(SeqV(t.clone())),
            Ty::Tup(t) => de.deserialize_tuple(t.len(), TupV(t, format!("a tuple of size {}", t.len()))),
            Ty::Map(chars, t) => de.deserialize_map(MapV(*chars, t.clone())),
            Ty::Struct(deny, t) => {
                de.deserialize_struct("S", &FIELDS[..t.len()], StructV(*deny, t, "struct S"))
            }
            Ty::UnitStruct => de.deserialize_unit_struct("U", UnitV).map(|_| Out::S(Sc::Unit)),
            Ty::Newtype(t) => de.deserialize_newtype_struct("N", NewtypeV(t.clone())),
            Ty::TupStruct(t) => de.deserialize_tuple_struct("T", t.len(), TupV(t,
                format!("tuple struct T with {} elements", t.len()))),
            Ty::Enum(v) => de.deserialize_enum("E", &VARIANTS[..v.len()], EnumV(v)),
            Ty::Tagged(t) => with(t, None, || Tagged::<Dyn>::deserialize(de))
                .map(|t| Out::Tagged(t.tag(), Box::new(t.into_inner().0))),
            Ty::Value => <Value as Deserialize>::deserialize(de).map(Out::Value),
            Ty::Rel => RelativePathBuf::deserialize(de).map(|r| {
                let out = Out::Rel(r.original().into(), r.metadata_path().map(|p| p.into()));
                RELS.with(|v| v.borrow_mut().as_mut().map(|v| v.push(r)));
                out
            }),
            Ty::Either(a, b) => {
                with(a, Some(b), || Either::<Tagged<Dyn<0>>, Dyn<1>>::deserialize(de)).map(|e| match e {
                    Either::Left(t) => {
                        Out::Left(Box::new(Out::Tagged(t.tag(), Box::new(t.into_inner().0))))
                    }
                    Either::Right(o) => Out::Right(Box::new(o.0)),
                })
            }
            Ty::Ignored => de::IgnoredAny::deserialize(de).map(|_| Out::Ignored),
        }
    }
}

struct OptV(Rc<Ty>);
impl<'de> Visitor<'de> for OptV {
    type Value = Out;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("option") }
    fn visit_unit<E: de::Error>(self) -> Result<Out, E> { Ok(Out::None) }
    fn visit_none<E: de::Error>(self) -> Result<Out, E> { Ok(Out::None) }
    fn visit_some<D: Deserializer<'de>>(self, de: D) -> Result<Out, D::Error> {
        Seed(self.0).deserialize(de).map(|o| Out::Some(Box::new(o)))
    }
}

struct SeqV(Rc<Ty>);
impl<'de> Visitor<'de> for SeqV {
    type Value = Out;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("a sequence") }
    fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<Out, A::Error> {
        let mut v = vec![];
        while let Some(o) = a.next_element_seed(Seed(self.0.clone()))? { v.push(o); }
        Ok(Out::Seq(v))
    }
}

struct TupV<'a>(&'a [Rc<Ty>], String);
impl<'de, 'a> Visitor<'de> for TupV<'a> {
    type Value = Out;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.1) }
    fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<Out, A::Error> {
        let mut v = vec![];
        for (i, t) in self.0.iter().enumerate() {
            match a.next_element_seed(Seed(t.clone()))? {
                Some(o) => v.push(o),
                None => return Err(de::Error::invalid_length(i, &self)),
            }
        }
        Ok(Out::Seq(v))
    }
}

struct MapV(bool, Rc<Ty>);
impl<'de> Visitor<'de> for MapV {
    type Value = Out;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("a map") }
    fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<Out, A::Error> {
        let mut m = BTreeMap::new();
        if self.0 {
            while let Some(k) = a.next_key::<char>()? {
                m.insert(k.to_string(), a.next_value_seed(Seed(self.1.clone()))?);
            }
        } else {
            while let Some(k) = a.next_key::<String>()? {
                m.insert(k, a.next_value_seed(Seed(self.1.clone()))?);
            }
        }
        Ok(Out::Map(m))
    }
}

struct FieldSeed { deny: bool, n: usize }
impl<'de> DeserializeSeed<'de> for FieldSeed {
    type Value = Option<usize>;
    fn deserialize<D: Deserializer<'de>>(self, de: D) -> Result<Self::Value, D::Error> {
        de.deserialize_identifier(self)
    }
}
impl<'de> Visitor<'de> for FieldSeed {
    type Value = Option<usize>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("field identifier") }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<Self::Value, E> {
        match FIELDS[..self.n].iter().position(|f| *f == s) {
            None if self.deny => Err(E::unknown_field(s, &FIELDS[..self.n])),
            i => Ok(i)
        }
    }
}

/// What a derived struct's field is when there is none.
fn absent<E: de::Error>(ty: &Ty, field: &'static str) -> Result<Out, E> {
    match ty {
        Ty::Opt(_) => Ok(Out::None),
        _ => Err(E::missing_field(field)),
    }
}

struct StructV<'a>(bool, &'a [Rc<Ty>], &'static str);
impl<'de, 'a> Visitor<'de> for StructV<'a> {
    type Value = Out;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(self.2) }
    fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<Out, A::Error> {
        let n = self.1.len();
        let mut got: Vec<Option<Out>> = vec![None; n];
        while let Some(i) = a.next_key_seed(FieldSeed { deny: self.0, n })? {
            match i {
                Some(i) if got[i].is_some() => return Err(de::Error::duplicate_field(FIELDS[i])),
                Some(i) => got[i] = Some(a.next_value_seed(Seed(self.1[i].clone()))?),
                None => { a.next_value::<de::IgnoredAny>()?; }
            }
        }
        let mut v = vec![];
        for (i, o) in got.into_iter().enumerate() {
            v.push(match o { Some(o) => o, None => absent(&self.1[i], FIELDS[i])? });
        }
        Ok(Out::Struct(v))
    }
    fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<Out, A::Error> {
        let mut v = vec![];
        for (i, t) in self.1.iter().enumerate() {
            match a.next_element_seed(Seed(t.clone()))? {
                Some(o) => v.push(o),
                None => return Err(de::Error::invalid_length(i,
                    &&*format!("{} with {} elements", self.2, self.1.len()))),
            }
        }
        Ok(Out::Struct(v))
    }
}

struct UnitV;
impl<'de> Visitor<'de> for UnitV {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("unit struct U") }
    fn visit_unit<E: de::Error>(self) -> Result<(), E> { Ok(()) }
}

struct NewtypeV(Rc<Ty>);
impl<'de> Visitor<'de> for NewtypeV {
    type Value = Out;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("tuple struct N") }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, de: D) -> Result<Out, D::Error> {
        Seed(self.0).deserialize(de).map(|o| Out::Newtype(Box::new(o)))
    }
    fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<Out, A::Error> {
        match a.next_element_seed(Seed(self.0))? {
            Some(o) => Ok(Out::Newtype(Box::new(o))),
            None => Err(de::Error::invalid_length(0, &"tuple struct N with 1 element")),
        }
    }
}

struct VarSeed(usize);
impl<'de> DeserializeSeed<'de> for VarSeed {
    type Value = usize;
    fn deserialize<D: Deserializer<'de>>(self, de: D) -> Result<usize, D::Error> {
        de.deserialize_identifier(self)
    }
}
impl<'de> Visitor<'de> for VarSeed {
    type Value = usize;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("variant identifier") }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<usize, E> {
        if (v as usize) < self.0 { return Ok(v as usize); }
        Err(E::invalid_value(de::Unexpected::Unsigned(v),
            &&*format!("variant index 0 <= i < {}", self.0)))
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<usize, E> {
        VARIANTS[..self.0].iter().position(|v| *v == s)
            .ok_or_else(|| E::unknown_variant(s, &VARIANTS[..self.0]))
    }
}

struct EnumV<'a>(&'a [Var]);
impl<'de, 'a> Visitor<'de> for EnumV<'a> {
    type Value = Out;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("enum E") }
    fn visit_enum<A: de::EnumAccess<'de>>(self, a: A) -> Result<Out, A::Error> {
        use de::VariantAccess;
        let (i, v) = a.variant_seed(VarSeed(self.0.len()))?;
        let inner = |o: Out| match o { Out::Seq(v) | Out::Struct(v) => v, o => vec![o] };
        Ok(Out::Var(i, match &self.0[i] {
            Var::Unit => { v.unit_variant()?; vec![] }
            Var::Newtype(t) => vec![v.newtype_variant_seed(Seed(t.clone()))?],
            Var::Tup(t) => inner(v.tuple_variant(t.len(), TupV(t,
                format!("tuple variant E::{} with {} elements", VARIANTS[i], t.len())))?),
            Var::Struct(t) => inner(v.struct_variant(&FIELDS[..t.len()],
                StructV(false, t, STRUCT_VARIANT[i]))?),
        }))
    }
}

const STRUCT_VARIANT: [&str; 4] =
    ["struct variant E::Va", "struct variant E::Vb", "struct variant E::Vc", "struct variant E::Vd"];

/// A value of a type, for serialization.
pub struct Ser<'a>(pub &'a Ty, pub &'a Out);

impl<'a> Serialize for Ser<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use ser::*;
        let err = || <S::Error as ser::Error>::custom("harness: value of another type");
        match (self.0, self.1) {
            (Ty::Opt(_), Out::None) => s.serialize_none(),
            (Ty::Opt(t), Out::Some(o)) => s.serialize_some(&Ser(t, o)),
            (Ty::Seq(t), Out::Seq(v)) => {
                let mut q = s.serialize_seq(Some(v.len()))?;
                for o in v { q.serialize_element(&Ser(t, o))?; }
                q.end()
            }
            (Ty::Tup(t), Out::Seq(v)) => {
                let mut q = s.serialize_tuple(v.len())?;
                for (t, o) in t.iter().zip(v) { q.serialize_element(&Ser(t, o))?; }
                q.end()
            }
            (Ty::TupStruct(t), Out::Seq(v)) => {
                let mut q = s.serialize_tuple_struct("T", v.len())?;
                for (t, o) in t.iter().zip(v) { q.serialize_field(&Ser(t, o))?; }
                q.end()
            }
            (Ty::Map(_, t), Out::Map(m)) => {
                let mut q = s.serialize_map(Some(m.len()))?;
                for (k, o) in m { q.serialize_entry(k, &Ser(t, o))?; }
                q.end()
            }
            (Ty::Struct(_, t), Out::Struct(v)) => {
                let mut q = s.serialize_struct("S", v.len())?;
                for (i, (t, o)) in t.iter().zip(v).enumerate() {
                    q.serialize_field(FIELDS[i], &Ser(t, o))?;
                }
                q.end()
            }
            (Ty::UnitStruct, Out::S(Sc::Unit)) => s.serialize_unit_struct("U"),
            (Ty::Newtype(t), Out::Newtype(o)) => s.serialize_newtype_struct("N", &Ser(t, o)),
            (Ty::Enum(vs), Out::Var(i, v)) => {
                let (n, name) = (*i as u32, VARIANTS[*i]);
                match &vs[*i] {
                    Var::Unit => s.serialize_unit_variant("E", n, name),
                    Var::Newtype(t) => s.serialize_newtype_variant("E", n, name, &Ser(t, &v[0])),
                    Var::Tup(t) => {
                        let mut q = s.serialize_tuple_variant("E", n, name, v.len())?;
                        for (t, o) in t.iter().zip(v) { q.serialize_field(&Ser(t, o))?; }
                        q.end()
                    }
                    Var::Struct(t) => {
                        let mut q = s.serialize_struct_variant("E", n, name, v.len())?;
                        for (i, (t, o)) in t.iter().zip(v).enumerate() {
                            q.serialize_field(FIELDS[i], &Ser(t, o))?;
                        }
                        q.end()
                    }
                }
            }
            (Ty::Tagged(t), Out::TaggedSrc(_, o)) => Tagged::from(Ser(t, o)).serialize(s),
            (Ty::Value, Out::Node(n)) => n.value().serialize(s),
            (Ty::Rel, Out::Rel(p, None)) => RelativePathBuf::from(p).serialize(s),
            (Ty::Either(a, _), Out::Left(o)) => Ser(&Ty::Tagged(a.clone()), o).serialize(s),
            (Ty::Either(_, b), Out::Right(o)) => Ser(b, o).serialize(s),
            (_, Out::S(v)) => match v {
                Sc::Str(v) => s.serialize_str(v),
                Sc::Char(v) => s.serialize_char(*v),
                Sc::Bool(v) => s.serialize_bool(*v),
                Sc::Unit => s.serialize_unit(),
                Sc::None => s.serialize_none(),
                Sc::U8(v) => v.serialize(s),
                Sc::U16(v) => v.serialize(s),
                Sc::U32(v) => v.serialize(s),
                Sc::U64(v) => v.serialize(s),
                Sc::U128(v) => v.serialize(s),
                Sc::Us(v) => v.serialize(s),
                Sc::I8(v) => v.serialize(s),
                Sc::I16(v) => v.serialize(s),
                Sc::I32(v) => v.serialize(s),
                Sc::I64(v) => v.serialize(s),
                Sc::I128(v) => v.serialize(s),
                Sc::Is(v) => v.serialize(s),
                Sc::F32(v) => f32::from_bits(*v).serialize(s),
                Sc::F64(v) => f64::from_bits(*v).serialize(s),
            },
            _ => Err(err()),
        }
    }
}

/// The error that extraction must yield.
#[derive(Clone, Debug, PartialEq)]
pub struct Bad { pub path: Vec<String>, pub kind: Kind, pub src: Src }

type E = Result<Out, Bad>;

fn bad(n: &N, kind: Kind) -> E { Err(Bad { path: vec![], kind, src: n.src }) }

impl Bad {
    fn within(mut self, key: &str) -> Bad { self.path.insert(0, key.into()); self }
}

pub fn actual(n: &N) -> Actual {
    match &n.v {
        M::D(_) => Actual::Map,
        M::A(_) => Actual::Seq,
        M::S(s) => match s.clone() {
            Sc::Str(s) => Actual::Str(s),
            // By default, visitors see it as a string.
            Sc::Char(c) => Actual::Str(c.to_string()),
            Sc::Bool(b) => Actual::Bool(b),
            Sc::Unit => Actual::Unit,
            Sc::None => Actual::Option,
            Sc::U128(v) => Actual::Other(format!("integer `{v}` as u128")),
            Sc::I128(v) => Actual::Other(format!("integer `{v}` as i128")),
            Sc::F32(v) => Actual::Float(f32::from_bits(v) as f64),
            Sc::F64(v) => Actual::Float(f64::from_bits(v)),
            s => match int(&s).unwrap() {
                // By the type it has.
                _ if unsigned(&s) => Actual::Unsigned(int(&s).unwrap().1),
                (neg, v) => Actual::Signed(if neg { (v as i128).wrapping_neg() } else { v as i128 }),
            }
        }
    }
}

pub fn unsigned(s: &Sc) -> bool {
    matches!(s, Sc::U8(_) | Sc::U16(_) | Sc::U32(_) | Sc::U64(_) | Sc::U128(_) | Sc::Us(_))
}

/// Sign and magnitude of an integer.
pub fn int(s: &Sc) -> Option<(bool, u128)> {
    let i = |v: i128| (v < 0, v.unsigned_abs());
    Some(match *s {
        Sc::U8(v) => (false, v as u128),
        Sc::U16(v) => (false, v as u128),
        Sc::U32(v) => (false, v as u128),
        Sc::U64(v) => (false, v as u128),
        Sc::U128(v) => (false, v),
        Sc::Us(v) => (false, v as u128),
        Sc::I8(v) => i(v as i128),
        Sc::I16(v) => i(v as i128),
        Sc::I32(v) => i(v as i128),
        Sc::I64(v) => i(v as i128),
        Sc::I128(v) => i(v),
        Sc::Is(v) => i(v as i128),
        _ => return None,
    })
}

/// The integer as one of the type, if it is in its range.
pub fn to_int(ty: &Ty, neg: bool, mag: u128) -> Option<Sc> {
    macro_rules! s { ($V:ident, $T:ty) => {{
        let v: i128 = match neg {
            false => i128::try_from(mag).ok()?,
            true if mag <= 1 << 127 => (mag as i128).wrapping_neg(),
            true => return None,
        };
        Sc::$V(<$T>::try_from(v).ok()?)
    }}}
    macro_rules! u { ($V:ident, $T:ty) => {{
        if neg && mag != 0 { return None; }
        Sc::$V(<$T>::try_from(mag).ok()?)
    }}}
    Some(match ty {
        Ty::U8 => u!(U8, u8), Ty::U16 => u!(U16, u16), Ty::U32 => u!(U32, u32),
        Ty::U64 => u!(U64, u64), Ty::U128 => u!(U128, u128), Ty::Usize => u!(Us, usize),
        Ty::I8 => s!(I8, i8), Ty::I16 => s!(I16, i16), Ty::I32 => s!(I32, i32),
        Ty::I64 => s!(I64, i64), Ty::I128 => s!(I128, i128), Ty::Isize => s!(Is, isize),
        _ => return None,
    })
}

fn ty_name(ty: &Ty) -> &'static str {
    match ty {
        Ty::U8 => "u8", Ty::U16 => "u16", Ty::U32 => "u32", Ty::U64 => "u64", Ty::U128 => "u128",
        Ty::I8 => "i8", Ty::I16 => "i16", Ty::I32 => "i32", Ty::I64 => "i64", Ty::I128 => "i128",
        Ty::F32 => "f32", Ty::F64 => "f64", Ty::Usize => "usize", Ty::Isize => "isize",
        _ => unreachable!(),
    }
}

fn invalid_type(n: &N, exp: &str) -> E { bad(n, Kind::InvalidType(actual(n), exp.into())) }

/// What a string or number is as a boolean in lossy extraction.
pub fn lossy_bool(s: &Sc) -> Option<bool> {
    match s {
        Sc::Bool(b) => Some(*b),
        Sc::Str(s) => match &*s.to_ascii_lowercase() {
            "true" | "yes" | "1" | "on" => Some(true),
            "false" | "no" | "0" | "off" => Some(false),
            _ => None,
        },
        s => match int(s)? {
            (false, 1) => Some(true),
            (_, 0) => Some(false),
            _ => None,
        }
    }
}

/// What a string is as a number in lossy extraction: whole numbers of the
/// smallest type; anything with a decimal point is an `f64`.
pub fn lossy_num(s: &str) -> Option<Sc> {
    let s = s.trim();
    let (sign, digits) = match s.as_bytes().first()? {
        b'-' => (true, &s[1..]),
        b'+' => (false, &s[1..]),
        _ => (false, s),
    };

    if s.contains('.') {
        let (whole, rest) = digits.split_once('.')?;
        let (frac, exp) = match rest.find(['e', 'E']) {
            Some(i) => (&rest[..i], Some(&rest[i + 1..])),
            None => (rest, None),
        };
        let num = |s: &str| s.bytes().all(|b| b.is_ascii_digit());
        if !num(whole) || !num(frac) || (whole.is_empty() && frac.is_empty()) { return None; }
        if let Some(e) = exp {
            let e = e.strip_prefix(['-', '+']).unwrap_or(e);
            if e.is_empty() || !num(e) { return None; }
        }
        // Trusts the standard library for the nearest value.
        return Some(Sc::f64(s.parse().ok()?));
    }

    if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) { return None; }
    let mut mag: u128 = 0;
    for b in digits.bytes() {
        mag = mag.checked_mul(10)?.checked_add((b - b'0') as u128)?;
    }

    let tys: [Ty; 5] = match sign {
        true => [Ty::I8, Ty::I16, Ty::I32, Ty::I64, Ty::I128],
        false => [Ty::U8, Ty::U16, Ty::U32, Ty::U64, Ty::U128],
    };
    tys.iter().find_map(|t| to_int(t, sign, mag))
}

fn num(n: &N, ty: &Ty, lossy: bool) -> E {
    let M::S(s) = &n.v else { return invalid_type(n, ty_name(ty)) };
    let mut n = n.clone();
    if lossy {
        if let Sc::Str(t) = s {
            if let Some(v) = lossy_num(t) { n.v = M::S(v); }
        }
    }

    let M::S(s) = &n.v else { unreachable!() };
    let float = matches!(ty, Ty::F32 | Ty::F64);
    let wide = matches!(ty, Ty::U128 | Ty::I128);
    if let Some((neg, mag)) = int(s) {
        if matches!(s, Sc::U128(_) | Sc::I128(_)) && !wide { return invalid_type(&n, ty_name(ty)); }
        if float {
            let v = |m: u128| -> Out {
                let f = |x: f64| if neg { -x } else { x };
                let g = |x: f32| if neg { -x } else { x };
                Out::S(if *ty == Ty::F32 { Sc::f32(g(m as f32)) } else { Sc::f64(f(m as f64)) })
            };
            return Ok(v(mag));
        }

        return match to_int(ty, neg, mag) {
            Some(s) => Ok(Out::S(s)),
            None => {
                // The value as it is described: 128-bit ones are not.
                match s {
                    Sc::U128(_) | Sc::I128(_) => bad(&n, Kind::InvalidValue(
                        Actual::Other(if *ty == Ty::I128 { "u128" } else { "i128" }.into()), ty_name(ty).into()
                    )),
                    _ => bad(&n, Kind::InvalidValue(actual(&n), ty_name(ty).into())),
                }
            }
        };
    }

    match s {
        Sc::F32(v) if *ty == Ty::F32 => Ok(Out::S(Sc::F32(*v))),
        Sc::F32(v) if *ty == Ty::F64 => Ok(Out::S(Sc::f64(f32::from_bits(*v) as f64))),
        Sc::F64(v) if *ty == Ty::F64 => Ok(Out::S(Sc::F64(*v))),
        Sc::F64(v) if *ty == Ty::F32 => Ok(Out::S(Sc::f32(f64::from_bits(*v) as f32))),
        _ => invalid_type(&n, ty_name(ty)),
    }
}

fn elements(n: &N, v: &[N], ts: &[Rc<Ty>], exp: &str, lossy: bool) -> Result<Vec<Out>, Bad> {
    let mut out = vec![];
    for (i, t) in ts.iter().enumerate() {
        match v.get(i) {
            Some(e) => out.push(expect(e, t, lossy).map_err(|b| b.within(&i.to_string()))?),
            None => return Err(bad(n, Kind::InvalidLength(i, exp.into())).unwrap_err()),
        }
    }
    Ok(out)
}

fn fields(n: &N, ts: &[Rc<Ty>], deny: bool, exp: &str, lossy: bool) -> Result<Vec<Out>, Bad> {
    match &n.v {
        M::A(v) => elements(n, v, ts, &format!("{exp} with {} elements", ts.len()), lossy),
        M::D(d) => {
            let mut got: Vec<Option<Out>> = vec![None; ts.len()];
            for (k, v) in d {
                match FIELDS[..ts.len()].iter().position(|f| f == k) {
                    Some(i) => got[i] = Some(expect(v, &ts[i], lossy).map_err(|b| b.within(k))?),
                    None if deny => {
                        let kind = Kind::UnknownField(k.clone(), &FIELDS[..ts.len()]);
                        return Err(bad(v, kind).unwrap_err().within(k));
                    }
                    None => {}
                }
            }
            let mut out = vec![];
            for (i, o) in got.into_iter().enumerate() {
                out.push(match (o, &*ts[i]) {
                    (Some(o), _) => o,
                    (None, Ty::Opt(_)) => Out::None,
                    (None, _) => {
                        return Err(bad(n, Kind::MissingField(FIELDS[i].into())).unwrap_err());
                    }
                });
            }
            Ok(out)
        }
        _ => Err(invalid_type(n, exp).unwrap_err()),
    }
}

/// What extracting `n` as the type must yield.
pub fn expect(n: &N, ty: &Ty, lossy: bool) -> E {
    let empty = matches!(n.v, M::S(Sc::None) | M::S(Sc::Unit));
    match ty {
        Ty::Bool => match &n.v {
            M::S(Sc::Bool(b)) => Ok(Out::S(Sc::Bool(*b))),
            M::S(s) if lossy => match lossy_bool(s) {
                Some(b) => Ok(Out::S(Sc::Bool(b))),
                None => invalid_type(n, "a boolean"),
            },
            _ => invalid_type(n, "a boolean"),
        },
        Ty::U8 | Ty::U16 | Ty::U32 | Ty::U64 | Ty::U128 | Ty::Usize | Ty::I8 | Ty::I16 | Ty::I32
            | Ty::I64 | Ty::I128 | Ty::Isize | Ty::F32 | Ty::F64 => num(n, ty, lossy),
        Ty::Char => match &n.v {
            M::S(Sc::Char(c)) => Ok(Out::S(Sc::Char(*c))),
            M::S(Sc::Str(s)) => match (s.chars().next(), s.chars().nth(1)) {
                (Some(c), None) => Ok(Out::S(Sc::Char(c))),
                _ => bad(n, Kind::InvalidValue(Actual::Str(s.clone()), "a character".into())),
            },
            _ => invalid_type(n, "a character"),
        },
        Ty::Str => match &n.v {
            M::S(Sc::Str(s)) => Ok(Out::S(Sc::Str(s.clone()))),
            M::S(Sc::Char(c)) => Ok(Out::S(Sc::Str(c.to_string()))),
            _ => invalid_type(n, "a string"),
        },
        Ty::Unit => match &n.v {
            M::S(Sc::Unit) => Ok(Out::S(Sc::Unit)),
            _ => invalid_type(n, "unit"),
        },
        Ty::UnitStruct => match &n.v {
            M::S(Sc::Unit) => Ok(Out::S(Sc::Unit)),
            _ => invalid_type(n, "unit struct U"),
        },
        Ty::Opt(_) if empty => Ok(Out::None),
        Ty::Opt(t) => expect(n, t, lossy).map(|o| Out::Some(Box::new(o))),
        Ty::Seq(t) => match &n.v {
            M::A(v) => {
                let mut out = vec![];
                for (i, e) in v.iter().enumerate() {
                    out.push(expect(e, t, lossy).map_err(|b| b.within(&i.to_string()))?);
                }
                Ok(Out::Seq(out))
            }
            _ => invalid_type(n, "a sequence"),
        },
        Ty::Tup(ts) => {
            let exp = format!("a tuple of size {}", ts.len());
            match &n.v {
                M::A(v) => Ok(Out::Seq(elements(n, v, ts, &exp, lossy)?)),
                _ => invalid_type(n, &exp),
            }
        }
        Ty::TupStruct(ts) => {
            let exp = format!("tuple struct T with {} elements", ts.len());
            match &n.v {
                M::A(v) => Ok(Out::Seq(elements(n, v, ts, &exp, lossy)?)),
                _ => invalid_type(n, &exp),
            }
        }
        Ty::Map(chars, t) => match &n.v {
            M::D(d) => {
                let mut m = BTreeMap::new();
                for (k, v) in d {
                    if *chars && k.chars().count() != 1 {
                        let kind = Kind::InvalidValue(Actual::Str(k.clone()), "a character".into());
                        return Err(bad(v, kind).unwrap_err().within(k));
                    }
                    m.insert(k.clone(), expect(v, t, lossy).map_err(|b| b.within(k))?);
                }
                Ok(Out::Map(m))
            }
            _ => invalid_type(n, "a map"),
        },
        Ty::Struct(deny, ts) => fields(n, ts, *deny, "struct S", lossy).map(Out::Struct),
        // `figment` visits the content itself as the newtype.
        Ty::Newtype(t) => expect(n, t, lossy).map(|o| Out::Newtype(Box::new(o))),
        Ty::Enum(vs) => expect_enum(n, vs, lossy),
        Ty::Tagged(t) => expect(n, t, lossy).map(|o| Out::TaggedSrc(n.src, Box::new(o))),
        Ty::Value => Ok(Out::Node(n.clone())),
        Ty::Rel => {
            let file = FILES.with(|f| f.borrow().get(&n.src.id).cloned());
            match &n.v {
                M::S(Sc::Str(s)) => Ok(Out::Rel(s.into(), file)),
                M::S(Sc::Char(c)) => Ok(Out::Rel(c.to_string().into(), file)),
                M::D(d) => match (d.get(REL[0]).map(|n| &n.v), d.get(REL[1])) {
                    (Some(M::S(Sc::Str(m))), Some(N { v: M::S(Sc::Str(p)), .. })) => {
                        Ok(Out::Rel(p.into(), Some(m.into())))
                    }
                    (None | Some(M::S(Sc::None)), Some(p)) => {
                        expect(&N { v: p.v.clone(), src: n.src }, ty, lossy)
                    }
                    _ => invalid_type(n, "path string"),
                }
                _ => invalid_type(n, "path string"),
            }
        }
        Ty::Either(a, b) => match expect(n, a, lossy) {
            Ok(o) => Ok(Out::Left(Box::new(Out::TaggedSrc(n.src, Box::new(o))))),
            Err(_) => expect(n, b, lossy).map(|o| Out::Right(Box::new(o))),
        },
        Ty::Ignored => Ok(Out::Ignored),
    }
}

fn expect_enum(n: &N, vs: &[Var], lossy: bool) -> E {
    let names = &VARIANTS[..vs.len()];
    let unknown = |s: &str| Kind::UnknownVariant(s.to_string(), names);
    let only_unit = |i: usize| match vs[i] {
        Var::Unit => Ok(Out::Var(i, vec![])),
        Var::Newtype(_) => bad(n, Kind::InvalidType(Actual::UnitVariant, "newtype variant".into())),
        Var::Tup(_) => bad(n, Kind::InvalidType(Actual::UnitVariant, "tuple variant".into())),
        Var::Struct(_) => bad(n, Kind::InvalidType(Actual::UnitVariant, "struct variant".into())),
    };

    match &n.v {
        M::S(Sc::Str(s)) => match names.iter().position(|v| v == s) {
            Some(i) => only_unit(i),
            None => bad(n, unknown(s)),
        },
        M::S(s @ (Sc::U8(_) | Sc::U16(_) | Sc::U32(_))) => {
            let i = int(s).unwrap().1;
            if i < vs.len() as u128 { return only_unit(i as usize); }
            bad(n, Kind::InvalidValue(Actual::Unsigned(i), format!("variant index 0 <= i < {}", vs.len())))
        }
        // Which variant is meant?
        M::D(d) if d.len() > 1 => bad(n, Kind::InvalidValue(Actual::Map, "map with a single key".into())),
        M::D(d) => {
            let Some((k, v)) = d.iter().next() else {
                return bad(n, Kind::InvalidType(Actual::Map, "enum".into()));
            };
            let Some(i) = names.iter().position(|v| v == k) else {
                return bad(v, unknown(k)).map_err(|b| b.within(k));
            };
            let inner = match &vs[i] {
                Var::Unit => expect(v, &Ty::Unit, lossy).map(|_| vec![]),
                Var::Newtype(t) => expect(v, t, lossy).map(|o| vec![o]),
                Var::Tup(ts) => {
                    let exp = format!("tuple variant E::{} with {} elements", VARIANTS[i], ts.len());
                    match &v.v {
                        M::A(a) => elements(v, a, ts, &exp, lossy),
                        _ => invalid_type(v, &exp).map(|_| vec![]),
                    }
                }
                Var::Struct(ts) => fields(v, ts, false, STRUCT_VARIANT[i], lossy),
            };
            inner.map(|o| Out::Var(i, o)).map_err(|b| b.within(k))
        }
        _ => invalid_type(n, "enum E"),
    }
}

/// A value that conforms to the type.
pub fn conforming(ty: &Ty, seed: usize) -> N {
    let all = |ts: &[Rc<Ty>]| N::a(ts.iter().enumerate().map(|(i, t)| conforming(t, seed + i)).collect());
    let dict = |ts: &[Rc<Ty>]| N::d(ts.iter().enumerate()
        .map(|(i, t)| (FIELDS[i], conforming(t, seed + i))).collect());
    match ty {
        Ty::Bool => N::sc(Sc::Bool(seed % 2 == 0)),
        Ty::Char => N::sc(Sc::Char((b'a' + (seed % 26) as u8) as char)),
        Ty::Str | Ty::Rel => N::s(&format!("s{seed}")),
        Ty::Unit | Ty::UnitStruct => N::sc(Sc::Unit),
        Ty::F32 | Ty::F64 => N::sc(Sc::f64(seed as f64 + 0.5)),
        Ty::I8 | Ty::I16 | Ty::I32 | Ty::I64 | Ty::I128 | Ty::Isize => N::i(-(seed as i64)),
        Ty::U8 | Ty::U16 | Ty::U32 | Ty::U64 | Ty::U128 | Ty::Usize | Ty::Ignored => N::u(seed as u8),
        Ty::Opt(t) | Ty::Newtype(t) | Ty::Tagged(t) | Ty::Either(t, _) => conforming(t, seed),
        Ty::Seq(t) => N::a(vec![conforming(t, seed), conforming(t, seed + 1)]),
        Ty::Tup(ts) | Ty::TupStruct(ts) => all(ts),
        Ty::Map(_, t) => N::d(vec![("p", conforming(t, seed)), ("q", conforming(t, seed + 1))]),
        Ty::Struct(_, ts) => dict(ts),
        Ty::Enum(vs) => {
            let i = seed % vs.len();
            match &vs[i] {
                Var::Unit => N::s(VARIANTS[i]),
                Var::Newtype(t) => N::d(vec![(VARIANTS[i], conforming(t, seed))]),
                Var::Tup(ts) => N::d(vec![(VARIANTS[i], all(ts))]),
                Var::Struct(ts) => N::d(vec![(VARIANTS[i], dict(ts))]),
            }
        }
        Ty::Value => N::d(vec![("x", N::a(vec![N::u(seed as u8)]))]),
    }
}

pub fn rc(t: Ty) -> Rc<Ty> { Rc::new(t) }
pub fn opt(t: Ty) -> Ty { Ty::Opt(rc(t)) }
pub fn seq(t: Ty) -> Ty { Ty::Seq(rc(t)) }
pub fn map(t: Ty) -> Ty { Ty::Map(false, rc(t)) }
pub fn newtype(t: Ty) -> Ty { Ty::Newtype(rc(t)) }
pub fn tagged(t: Ty) -> Ty { Ty::Tagged(rc(t)) }
pub fn either(a: Ty, b: Ty) -> Ty { Ty::Either(rc(a), rc(b)) }
pub fn tup(t: Vec<Ty>) -> Ty { Ty::Tup(t.into_iter().map(rc).collect()) }
pub fn strukt(t: Vec<Ty>) -> Ty { Ty::Struct(false, t.into_iter().map(rc).collect()) }

pub fn leaves() -> Vec<Ty> {
    vec![Ty::Bool, Ty::U8, Ty::I64, Ty::F64, Ty::Char, Ty::Str, Ty::Unit]
}

/// Every way of wrapping a type once; the other type is beside it.
pub fn wrap(t: &Ty, beside: &Ty) -> Vec<Ty> {
    let (t, b) = (rc(t.clone()), rc(beside.clone()));
    vec![
        Ty::Opt(t.clone()), Ty::Seq(t.clone()), Ty::Tup(vec![b.clone(), t.clone()]),
        Ty::Tup(vec![t.clone()]),
        Ty::Map(false, t.clone()), Ty::Map(true, t.clone()), Ty::Struct(false, vec![t.clone()]),
        Ty::Struct(false, vec![b.clone(), t.clone()]), Ty::Struct(true, vec![t.clone(), b.clone()]),
        Ty::Newtype(t.clone()), Ty::TupStruct(vec![t.clone(), b.clone()]),
        Ty::Enum(vec![Var::Newtype(t.clone()), Var::Unit]),
        Ty::Enum(vec![Var::Tup(vec![b.clone(), t.clone()])]),
        Ty::Enum(vec![Var::Struct(vec![t.clone(), b.clone()])]),
        Ty::Tagged(t.clone()),
    ]
}

impl fmt::Display for Ty {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let list = |v: &[Rc<Ty>]| v.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(", ");
        match self {
            Ty::Opt(t) => write!(f, "Option<{t}>"),
            Ty::Seq(t) => write!(f, "Vec<{t}>"),
            Ty::Tup(v) => write!(f, "({})", list(v)),
            Ty::Map(c, t) => write!(f, "Map<{}, {t}>", if *c { "char" } else { "String" }),
            Ty::Struct(d, v) => write!(f, "struct{} {{{}}}", if *d { "!" } else { "" }, list(v)),
            Ty::Newtype(t) => write!(f, "N({t})"),
            Ty::TupStruct(v) => write!(f, "T({})", list(v)),
            Ty::Enum(v) => write!(f, "enum {{{}}}", v.iter().map(|v| match v {
                Var::Unit => "unit".to_string(),
                Var::Newtype(t) => format!("({t})"),
                Var::Tup(t) => format!("({})", list(t)),
                Var::Struct(t) => format!("{{{}}}", list(t)),
            }).collect::<Vec<_>>().join(", ")),
            Ty::Tagged(t) => write!(f, "Tagged<{t}>"),
            Ty::Either(a, b) => write!(f, "Either<Tagged<{a}>, {b}>"),
            t => write!(f, "{t:?}"),
        }
    }
}
