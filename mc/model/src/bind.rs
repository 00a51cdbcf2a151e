//! Binds model types and values to the real serde_xdr: a value of any model type is serialised by
//! making exactly the serde calls a derived implementation makes, and deserialised likewise.
use crate::ty::*;
use serde::de::{self, DeserializeSeed, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{
    SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple,
    SerializeTupleStruct, SerializeTupleVariant,
};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::cell::RefCell;
use std::fmt;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Arc, OnceLock};

pub use serde_xdr::error::Error;

const NAMES: usize = 1100;
pub fn names(n: usize) -> &'static [&'static str] {
    static N: OnceLock<Vec<&'static str>> = OnceLock::new();
    let v = N.get_or_init(|| {
        (0..NAMES)
            .map(|i| &*Box::leak(format!("n{i}").into_boxed_str()))
            .collect()
    });
    &v[..n]
}

// ---------------------------------------------------------------- encoding

pub struct Pair<'a>(pub &'a Ty, pub &'a Val);

struct RawBytes<'a>(&'a [u8]);
impl AsRef<[u8]> for RawBytes<'_> {
    fn as_ref(&self) -> &[u8] {
        self.0
    }
}
impl Serialize for RawBytes<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(self.0)
    }
}
struct I32Ref(i32);
impl AsRef<i32> for I32Ref {
    fn as_ref(&self) -> &i32 {
        &self.0
    }
}

impl Serialize for Pair<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match (self.0, self.1) {
            (Ty::Bool, Val::Bool(b)) => s.serialize_bool(*b),
            (Ty::I32of(_), Val::I(i)) => s.serialize_i32(*i as i32),
            (Ty::U32of(_), Val::U(i)) => s.serialize_u32(*i as u32),
            (Ty::I8, Val::I(i)) => s.serialize_i8(*i as i8),
            (Ty::I16, Val::I(i)) => s.serialize_i16(*i as i16),
            (Ty::I32, Val::I(i)) => s.serialize_i32(*i as i32),
            (Ty::I64, Val::I(i)) => s.serialize_i64(*i),
            (Ty::U8, Val::U(i)) => s.serialize_u8(*i as u8),
            (Ty::U16, Val::U(i)) => s.serialize_u16(*i as u16),
            (Ty::U32, Val::U(i)) => s.serialize_u32(*i as u32),
            (Ty::U64, Val::U(i)) => s.serialize_u64(*i),
            (Ty::F32, Val::F32(b)) => s.serialize_f32(f32::from_bits(*b)),
            (Ty::F64, Val::F64(b)) => s.serialize_f64(f64::from_bits(*b)),
            (Ty::Char, Val::Char(c)) => s.serialize_char(*c),
            (Ty::Str | Ty::StrRef, Val::Str(x)) => s.serialize_str(x),
            (Ty::Bytes | Ty::BytesRef, Val::Bytes(b)) => s.serialize_bytes(b),
            (Ty::OpVar, Val::Bytes(b)) => serde_xdr::opaque::variable::serialize(&RawBytes(b), s),
            (Ty::OpArr, Val::Bytes(b)) => {
                serde_xdr::opaque::VariableArray { data: b.clone() }.serialize(s)
            }
            (Ty::OpFix(_), Val::Bytes(b)) => serde_xdr::opaque::fixed::serialize(&RawBytes(b), s),
            (Ty::S32(_), Val::I(i)) => {
                serde_xdr::primitive::signed32::serialize(&I32Ref(*i as i32), s)
            }
            (Ty::Unit, Val::Unit) => s.serialize_unit(),
            (Ty::UnitStruct, Val::Unit) => s.serialize_unit_struct("T"),
            (Ty::New(t), v) => s.serialize_newtype_struct("T", &Pair(t, v)),
            (Ty::Opt(_), Val::None) => s.serialize_none(),
            (Ty::Opt(t), Val::Some(v)) => s.serialize_some(&Pair(t, v)),
            (Ty::Seq(t), Val::List(l)) => {
                let mut q = s.serialize_seq(Some(l.len()))?;
                for v in l {
                    q.serialize_element(&Pair(t, v))?;
                }
                q.end()
            }
            (Ty::Map(k, t), Val::Map(l)) => {
                let mut q = s.serialize_map(Some(l.len()))?;
                for (i, (a, b)) in l.iter().enumerate() {
                    // both ways a Serialize implementation may feed a map
                    if i % 2 == 0 {
                        q.serialize_entry(&Pair(k, a), &Pair(t, b))?;
                    } else {
                        q.serialize_key(&Pair(k, a))?;
                        q.serialize_value(&Pair(t, b))?;
                    }
                }
                q.end()
            }
            (Ty::Tuple(ts), Val::List(l)) => {
                let mut q = s.serialize_tuple(l.len())?;
                for (t, v) in ts.iter().zip(l) {
                    q.serialize_element(&Pair(t, v))?;
                }
                q.end()
            }
            (Ty::TupleStruct(ts), Val::List(l)) => {
                let mut q = s.serialize_tuple_struct("T", l.len())?;
                for (t, v) in ts.iter().zip(l) {
                    q.serialize_field(&Pair(t, v))?;
                }
                q.end()
            }
            (Ty::Struct(ts), Val::List(l)) => {
                let ns = names(l.len());
                let mut q = s.serialize_struct("T", l.len())?;
                for (i, (t, v)) in ts.iter().zip(l).enumerate() {
                    q.serialize_field(ns[i], &Pair(t, v))?;
                }
                q.end()
            }
            (Ty::Enum(arms), Val::Var(i, l)) => {
                let name = names(arms.len())[*i as usize];
                match &arms[*i as usize] {
                    Arm::Unit => s.serialize_unit_variant("T", *i, name),
                    Arm::New(t) => s.serialize_newtype_variant("T", *i, name, &Pair(t, &l[0])),
                    Arm::Tuple(ts) => {
                        let mut q = s.serialize_tuple_variant("T", *i, name, l.len())?;
                        for (t, v) in ts.iter().zip(l) {
                            q.serialize_field(&Pair(t, v))?;
                        }
                        q.end()
                    }
                    Arm::Struct(ts) => {
                        let ns = names(l.len());
                        let mut q = s.serialize_struct_variant("T", *i, name, l.len())?;
                        for (j, (t, v)) in ts.iter().zip(l).enumerate() {
                            q.serialize_field(ns[j], &Pair(t, v))?;
                        }
                        q.end()
                    }
                }
            }
            (t, v) => panic!("ill-typed model value {v:?} for {t:?}"),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Enc {
    Bytes(Vec<u8>),
    Err(String),
    Panic(String),
}

pub fn quiet_panics() {
    let loud = std::env::var("MC_LOUD").is_ok();
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        let at = i
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let _ = LAST_PANIC.try_with(|c| c.replace(at));
        if loud {
            old(i);
        }
    }));
}
thread_local! { static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
/// where the current thread panicked last
pub fn last_panic() -> String {
    LAST_PANIC.with(|c| c.borrow().clone())
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

pub fn real_encode<T: Serialize>(v: &T) -> Enc {
    match catch_unwind(AssertUnwindSafe(|| serde_xdr::to_bytes(v))) {
        Ok(Ok(b)) => Enc::Bytes(b),
        Ok(Err(e)) => Enc::Err(format!("{e:?}")),
        Err(p) => Enc::Panic(panic_text(p)),
    }
}

// ---------------------------------------------------------------- decoding

#[derive(Debug)]
pub enum Dec {
    Ok(Val),
    Err(Error),
    Panic(String),
}

thread_local! { static TARGET: RefCell<Option<Arc<Ty>>> = const { RefCell::new(None) }; }

struct Dyn(Val);
impl<'de> Deserialize<'de> for Dyn {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let t = TARGET.with(|t| t.borrow().clone().unwrap());
        Seed(&t).deserialize(d).map(Dyn)
    }
}

pub fn real_decode(t: &Arc<Ty>, b: &[u8]) -> Dec {
    TARGET.with(|x| *x.borrow_mut() = Some(t.clone()));
    match catch_unwind(AssertUnwindSafe(|| serde_xdr::from_bytes::<Dyn>(b))) {
        Ok(Ok(v)) => Dec::Ok(v.0),
        Ok(Err(e)) => Dec::Err(e),
        Err(p) => Dec::Panic(panic_text(p)),
    }
}

thread_local! { static SET: RefCell<Vec<i32>> = const { RefCell::new(vec![]) }; }
struct S32Val(i32);
impl TryFrom<i32> for S32Val {
    type Error = ();
    fn try_from(v: i32) -> Result<Self, ()> {
        SET.with(|s| {
            if s.borrow().contains(&v) {
                Ok(S32Val(v))
            } else {
                Err(())
            }
        })
    }
}

#[derive(Clone, Copy)]
struct Seed<'t>(&'t Arc<Ty>);

macro_rules! opfix {
    ($n:expr, $d:expr, $($k:literal)*) => {
        match $n {
            $( $k => serde_xdr::opaque::fixed::deserialize::<$k, _>($d).map(|a: [u8; $k]| Val::Bytes(a.to_vec())), )*
            n => panic!("no fixed opaque instance of length {n}"),
        }
    };
}
pub const OPFIX_LENGTHS: &[usize] = &[
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25,
    26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 61, 62, 63, 64, 65, 66, 67, 68,
    100, 125, 126, 127, 128, 129, 130, 131, 253, 254, 255, 256, 257, 258, 259, 509, 510, 511, 512,
    513, 514, 1000, 1021, 1022, 1023, 1024, 1025, 1026, 1027, 2047, 2048, 2049, 4093, 4094, 4095,
    4096, 4097, 4098, 8191, 8192, 8193, 65533, 65534, 65535, 65536, 65537, 65538,
];

impl<'de, 't> DeserializeSeed<'de> for Seed<'t> {
    type Value = Val;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        match &**self.0 {
            Ty::Bool => bool::deserialize(d).map(Val::Bool),
            Ty::I8 => i8::deserialize(d).map(|x| Val::I(x as i64)),
            Ty::I16 => i16::deserialize(d).map(|x| Val::I(x as i64)),
            Ty::I32 => i32::deserialize(d).map(|x| Val::I(x as i64)),
            Ty::I64 => i64::deserialize(d).map(Val::I),
            Ty::U8 => u8::deserialize(d).map(|x| Val::U(x as u64)),
            Ty::U16 => u16::deserialize(d).map(|x| Val::U(x as u64)),
            Ty::U32 => u32::deserialize(d).map(|x| Val::U(x as u64)),
            Ty::U64 => u64::deserialize(d).map(Val::U),
            Ty::F32 => f32::deserialize(d).map(|x| Val::F32(x.to_bits())),
            Ty::F64 => f64::deserialize(d).map(|x| Val::F64(x.to_bits())),
            Ty::Char => char::deserialize(d).map(Val::Char),
            Ty::Str => String::deserialize(d).map(Val::Str),
            Ty::StrRef => d.deserialize_str(V(self.0)),
            Ty::Bytes => d.deserialize_byte_buf(V(self.0)),
            Ty::BytesRef => d.deserialize_bytes(V(self.0)),
            Ty::OpVar => serde_xdr::opaque::variable::deserialize(d).map(Val::Bytes),
            Ty::OpArr => {
                serde_xdr::opaque::VariableArray::deserialize(d).map(|a| Val::Bytes(a.data))
            }
            Ty::OpFix(n) => opfix!(*n, d,
                0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32
                33 34 35 36 37 38 39 40 41 61 62 63 64 65 66 67 68 100 125 126 127 128 129 130 131
                253 254 255 256 257 258 259 509 510 511 512 513 514 1000 1021 1022 1023 1024 1025 1026 1027
                2047 2048 2049 4093 4094 4095 4096 4097 4098 8191 8192 8193 65533 65534 65535 65536 65537 65538),
            Ty::S32(set) => {
                SET.with(|s| {
                    let mut s = s.borrow_mut();
                    s.clear();
                    s.extend_from_slice(set);
                });
                serde_xdr::primitive::signed32::deserialize::<S32Val, _>(d)
                    .map(|v| Val::I(v.0 as i64))
            }
            Ty::I32of(_) => i32::deserialize(d).map(|x| Val::I(x as i64)),
            Ty::U32of(_) => u32::deserialize(d).map(|x| Val::U(x as u64)),
            Ty::Union(_) => panic!("unions are compiled types"),
            Ty::Unit => d.deserialize_unit(V(self.0)),
            Ty::UnitStruct => d.deserialize_unit_struct("T", V(self.0)),
            Ty::New(_) => d.deserialize_newtype_struct("T", V(self.0)),
            Ty::Opt(_) => d.deserialize_option(V(self.0)),
            Ty::Seq(_) => d.deserialize_seq(V(self.0)),
            Ty::Map(..) => d.deserialize_map(V(self.0)),
            Ty::Tuple(ts) => d.deserialize_tuple(ts.len(), V(self.0)),
            Ty::TupleStruct(ts) => d.deserialize_tuple_struct("T", ts.len(), V(self.0)),
            Ty::Struct(ts) => d.deserialize_struct("T", names(ts.len()), V(self.0)),
            Ty::E32(..) | Ty::Ref(_) => unreachable!("compiled types only"),
            Ty::Enum(arms) => d.deserialize_enum("T", names(arms.len()), V(self.0)),
        }
    }
}

struct V<'t>(&'t Arc<Ty>);

fn items<'de, A: SeqAccess<'de>>(mut a: A, ts: &[Arc<Ty>]) -> Result<Vec<Val>, A::Error> {
    let mut l = Vec::with_capacity(ts.len().min(4));
    for (i, t) in ts.iter().enumerate() {
        match a.next_element_seed(Seed(t))? {
            Some(v) => l.push(v),
            None => return Err(de::Error::invalid_length(i, &"more items")),
        }
    }
    Ok(l)
}

impl<'de, 't> Visitor<'de> for V<'t> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Val, E> {
        match &**self.0 {
            Ty::StrRef => Ok(Val::Str(v.to_string())),
            _ => Err(E::custom("unexpected string")),
        }
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Val, E> {
        match &**self.0 {
            Ty::Bytes | Ty::BytesRef => Ok(Val::Bytes(v.to_vec())),
            _ => Err(E::custom("unexpected bytes")),
        }
    }
    fn visit_unit<E: de::Error>(self) -> Result<Val, E> {
        match &**self.0 {
            Ty::Unit | Ty::UnitStruct => Ok(Val::Unit),
            Ty::Opt(_) => Ok(Val::None),
            _ => Err(E::custom("unexpected unit")),
        }
    }
    fn visit_none<E: de::Error>(self) -> Result<Val, E> {
        Ok(Val::None)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        match &**self.0 {
            Ty::Opt(t) => Seed(t).deserialize(d).map(|v| Val::Some(Box::new(v))),
            _ => Err(de::Error::custom("unexpected some")),
        }
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        match &**self.0 {
            Ty::New(t) => Seed(t).deserialize(d),
            _ => Err(de::Error::custom("unexpected newtype")),
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        match &**self.0 {
            Ty::Seq(t) => {
                let mut l = vec![];
                while let Some(v) = a.next_element_seed(Seed(t))? {
                    l.push(v);
                }
                Ok(Val::List(l))
            }
            Ty::Tuple(ts) | Ty::TupleStruct(ts) | Ty::Struct(ts) => items(a, ts).map(Val::List),
            Ty::New(t) => Ok(items(a, std::slice::from_ref(t))?.pop().unwrap()),
            _ => Err(de::Error::custom("unexpected sequence")),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        match &**self.0 {
            Ty::Map(k, t) => {
                let mut l = vec![];
                while let Some(x) = a.next_key_seed(Seed(k))? {
                    let y = a.next_value_seed(Seed(t))?;
                    l.push((x, y));
                }
                Ok(Val::Map(l))
            }
            _ => Err(de::Error::custom("unexpected map")),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        match &**self.0 {
            Ty::Enum(arms) => {
                let (i, v) = a.variant_seed(Index(arms.len()))?;
                let l = match &arms[i as usize] {
                    Arm::Unit => {
                        v.unit_variant()?;
                        vec![]
                    }
                    Arm::New(t) => vec![v.newtype_variant_seed(Seed(t))?],
                    Arm::Tuple(ts) => v.tuple_variant(ts.len(), Items(ts))?,
                    Arm::Struct(ts) => v.struct_variant(names(ts.len()), Items(ts))?,
                };
                Ok(Val::Var(i, l))
            }
            _ => Err(de::Error::custom("unexpected enum")),
        }
    }
}

struct Items<'t>(&'t [Arc<Ty>]);
impl<'de, 't> Visitor<'de> for Items<'t> {
    type Value = Vec<Val>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "items")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<Vec<Val>, A::Error> {
        items(a, self.0)
    }
}

/// what serde_derive generates for a variant identifier
struct Index(usize);
impl<'de> DeserializeSeed<'de> for Index {
    type Value = u32;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<u32, D::Error> {
        struct W(usize);
        impl<'de> Visitor<'de> for W {
            type Value = u32;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "variant identifier")
            }
            fn visit_u64<E: de::Error>(self, v: u64) -> Result<u32, E> {
                if (v as u128) < self.0 as u128 {
                    Ok(v as u32)
                } else {
                    Err(E::invalid_value(
                        de::Unexpected::Unsigned(v),
                        &"variant index in range",
                    ))
                }
            }
            fn visit_str<E: de::Error>(self, v: &str) -> Result<u32, E> {
                match names(self.0).iter().position(|n| *n == v) {
                    Some(i) => Ok(i as u32),
                    None => Err(E::custom("unknown variant")),
                }
            }
        }
        d.deserialize_identifier(W(self.0))
    }
}
