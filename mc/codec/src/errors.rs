//! C11: an error of a part is an error of the whole, and what XDR can not describe is not decoded.
use crate::encode::special;
use model::bind::{Enc, Error, panic_text, real_encode};
use model::report::Report;
use model::{guard, sexp};
use serde::Deserialize;
use serde::de::{
    self, DeserializeSeed, Deserializer, EnumAccess, Error as _, IgnoredAny, MapAccess, SeqAccess,
    VariantAccess, Visitor,
};
use serde::ser::{Error as _, *};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, LinkedList, VecDeque};
use std::fmt;
use std::panic::{AssertUnwindSafe, catch_unwind};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ctx {
    SeqFirst,
    SeqLast,
    MapKey,
    MapValue,
    TupleFirst,
    TupleLast,
    TupleStruct,
    Struct,
    Present,
    New,
    NewVariant,
    TupleVariant,
    StructVariant,
}
use Ctx::*;
const CTX: &[Ctx] = &[
    SeqFirst,
    SeqLast,
    MapKey,
    MapValue,
    TupleFirst,
    TupleLast,
    TupleStruct,
    Struct,
    Present,
    New,
    NewVariant,
    TupleVariant,
    StructVariant,
];
const MESSAGE: &str = "user: 17 % of it";

// ---------------------------------------------------------------- encoding

/// fails after a number of words, in one of the ways a user type can
#[derive(Clone, Copy, Debug)]
struct Fails {
    words: usize,
    open: usize,
}
impl Serialize for Fails {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.open {
            0 => Err(S::Error::custom(MESSAGE)),
            1 => {
                let mut q = s.serialize_tuple(self.words + 1)?;
                for i in 0..self.words {
                    q.serialize_element(&(i as u32))?;
                }
                Err(S::Error::custom(MESSAGE))
            }
            2 => {
                let mut q = s.serialize_seq(Some(self.words + 1))?;
                for i in 0..self.words {
                    q.serialize_element(&(i as u8))?;
                }
                Err(S::Error::custom(MESSAGE))
            }
            3 => {
                let mut q = s.serialize_map(Some(self.words + 1))?;
                for i in 0..self.words {
                    q.serialize_entry(&(i as u8), "x")?;
                }
                q.serialize_key(&1u8)?;
                Err(S::Error::custom(MESSAGE))
            }
            4 => {
                let mut q = s.serialize_struct("T", self.words + 1)?;
                for i in 0..self.words {
                    q.serialize_field("a", &(i as i64))?;
                }
                Err(S::Error::custom(MESSAGE))
            }
            _ => {
                let mut q = s.serialize_struct_variant("T", 2, "v", self.words + 1)?;
                for i in 0..self.words {
                    q.serialize_field("a", &(i as i64))?;
                }
                Err(S::Error::custom(MESSAGE))
            }
        }
    }
}

/// asks for what XDR can not say, at once or after a number of words
#[derive(Clone, Copy, Debug)]
struct Asks {
    words: usize,
    what: usize,
}
impl Serialize for Asks {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.words > 0 {
            let mut q = s.serialize_tuple(self.words + 1)?;
            for i in 0..self.words {
                q.serialize_element(&(i as u32))?;
            }
            q.serialize_element(&Asks { words: 0, ..*self })?;
            return q.end();
        }
        let huge = (u32::MAX as usize) + 1;
        match self.what {
            0 => s.serialize_i128(0),
            1 => s.serialize_u128(0),
            2 => s.serialize_seq(None)?.end(),
            3 => s.serialize_map(None)?.end(),
            4 => s.serialize_seq(Some(huge))?.end(),
            5 => s.serialize_map(Some(huge))?.end(),
            6 => s.collect_seq((0..4u32).filter(|x| x % 2 == 0)),
            _ => {
                let mut q = s.serialize_map(None)?;
                q.serialize_entry(&1u8, &2u8)?;
                q.end()
            }
        }
    }
}

struct In<'a, T>(&'a [Ctx], &'a T);
impl<T: Serialize> Serialize for In<'_, T> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let Some(c) = self.0.first() else {
            return self.1.serialize(s);
        };
        let rest = In(&self.0[1..], self.1);
        match c {
            SeqFirst | SeqLast => {
                let mut q = s.serialize_seq(Some(2))?;
                if *c == SeqLast {
                    q.serialize_element(&0u32)?;
                }
                q.serialize_element(&rest)?;
                if *c == SeqFirst {
                    q.serialize_element(&0u32)?;
                }
                q.end()
            }
            MapKey | MapValue => {
                let mut q = s.serialize_map(Some(1))?;
                match c {
                    MapKey => q.serialize_entry(&rest, &0u32)?,
                    _ => q.serialize_entry(&0u32, &rest)?,
                }
                q.end()
            }
            TupleFirst => (rest, 0u32).serialize(s),
            TupleLast => (0u32, rest).serialize(s),
            TupleStruct => {
                let mut q = s.serialize_tuple_struct("T", 2)?;
                q.serialize_field(&rest)?;
                q.serialize_field(&0u32)?;
                q.end()
            }
            Struct => {
                let mut q = s.serialize_struct("T", 2)?;
                q.serialize_field("a", &0u32)?;
                q.serialize_field("b", &rest)?;
                q.end()
            }
            Present => s.serialize_some(&rest),
            New => s.serialize_newtype_struct("T", &rest),
            NewVariant => s.serialize_newtype_variant("T", 1, "v", &rest),
            TupleVariant => {
                let mut q = s.serialize_tuple_variant("T", 1, "v", 2)?;
                q.serialize_field(&0u32)?;
                q.serialize_field(&rest)?;
                q.end()
            }
            StructVariant => {
                let mut q = s.serialize_struct_variant("T", 1, "v", 2)?;
                q.serialize_field("a", &rest)?;
                q.serialize_field("b", &0u32)?;
                q.end()
            }
        }
    }
}

// ---------------------------------------------------------------- decoding

/// a part that refuses
#[derive(Clone, Copy, Debug, PartialEq)]
enum Part {
    /// a user type's own error, after so many words
    Custom(usize),
    /// ... after a string, or within a sequence or tuple
    CustomText,
    CustomSeq,
    CustomTuple,
    /// refuses whatever it is given with its own error, asked for in one of the ways there are
    Own(usize),
    /// a visitor that takes nothing
    NoVisit(usize),
    /// asks what comes
    Any,
    Ignored,
    I128,
    U128,
}
const PARTS: &[Part] = &[
    Part::Custom(0),
    Part::Custom(1),
    Part::Custom(2),
    Part::CustomText,
    Part::CustomSeq,
    Part::CustomTuple,
    Part::Own(0),
    Part::Own(1),
    Part::Own(2),
    Part::Own(3),
    Part::Own(4),
    Part::Own(5),
    Part::Own(6),
    Part::Own(7),
    Part::Own(8),
    Part::Own(9),
    Part::Own(10),
    Part::Own(11),
    Part::Own(12),
    Part::Own(13),
    Part::Own(14),
    Part::Own(15),
    Part::Own(16),
    Part::Own(17),
    Part::Own(18),
    Part::Own(19),
    Part::Own(20),
    Part::Own(21),
    Part::Own(22),
    Part::Own(23),
    Part::Own(24),
    Part::Own(25),
    Part::Own(26),
    Part::Own(27),
    Part::Own(28),
    Part::Own(29),
    Part::NoVisit(0),
    Part::NoVisit(1),
    Part::NoVisit(2),
    Part::NoVisit(3),
    Part::NoVisit(4),
    Part::NoVisit(5),
    Part::NoVisit(6),
    Part::NoVisit(7),
    Part::NoVisit(8),
    Part::NoVisit(9),
    Part::NoVisit(10),
    Part::NoVisit(11),
    Part::NoVisit(12),
    Part::NoVisit(13),
    Part::NoVisit(14),
    Part::NoVisit(15),
    Part::NoVisit(16),
    Part::NoVisit(17),
    Part::NoVisit(18),
    Part::Any,
    Part::Ignored,
    Part::I128,
    Part::U128,
];
impl Part {
    /// its own error must reach the caller
    fn own(self) -> bool {
        matches!(
            self,
            Part::Custom(_) | Part::Own(_) | Part::CustomText | Part::CustomSeq | Part::CustomTuple
        )
    }
}

/// takes whatever it is given: if it is given anything, decoding went on
struct Anything;
impl<'de> Visitor<'de> for Anything {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
    }
    fn visit_bool<E>(self, _: bool) -> Result<(), E> {
        Ok(())
    }
    fn visit_i64<E>(self, _: i64) -> Result<(), E> {
        Ok(())
    }
    fn visit_i128<E>(self, _: i128) -> Result<(), E> {
        Ok(())
    }
    fn visit_u64<E>(self, _: u64) -> Result<(), E> {
        Ok(())
    }
    fn visit_u128<E>(self, _: u128) -> Result<(), E> {
        Ok(())
    }
    fn visit_f64<E>(self, _: f64) -> Result<(), E> {
        Ok(())
    }
    fn visit_str<E>(self, _: &str) -> Result<(), E> {
        Ok(())
    }
    fn visit_bytes<E>(self, _: &[u8]) -> Result<(), E> {
        Ok(())
    }
    fn visit_none<E>(self) -> Result<(), E> {
        Ok(())
    }
    fn visit_some<D: Deserializer<'de>>(self, _: D) -> Result<(), D::Error> {
        Ok(())
    }
    fn visit_unit<E>(self) -> Result<(), E> {
        Ok(())
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, _: D) -> Result<(), D::Error> {
        Ok(())
    }
    fn visit_seq<A: SeqAccess<'de>>(self, _: A) -> Result<(), A::Error> {
        Ok(())
    }
    fn visit_map<A: MapAccess<'de>>(self, _: A) -> Result<(), A::Error> {
        Ok(())
    }
    fn visit_enum<A: EnumAccess<'de>>(self, _: A) -> Result<(), A::Error> {
        Ok(())
    }
}
struct Nothing;
impl<'de> Visitor<'de> for Nothing {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("nothing")
    }
}
struct FailsWithin;
impl<'de> Visitor<'de> for FailsWithin {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a sequence")
    }
    fn visit_str<E: de::Error>(self, _: &str) -> Result<(), E> {
        Err(E::custom(MESSAGE))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        let _: Option<u32> = a.next_element()?;
        Err(A::Error::custom(MESSAGE))
    }
}

/// refuses whatever comes; an enumeration, at its index (0), its arm (1) or after it (2)
struct Refuses(usize);
impl<'de> Visitor<'de> for Refuses {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("something else")
    }
    fn visit_bool<E: de::Error>(self, _: bool) -> Result<(), E> {
        Err(E::custom(MESSAGE))
    }
    fn visit_i8<E: de::Error>(self, _: i8) -> Result<(), E> {
        Err(E::custom(MESSAGE))
    }
    fn visit_i16<E: de::Error>(self, _: i16) -> Result<(), E> {
        Err(E::custom(MESSAGE))
    }
    fn visit_i32<E: de::Error>(self, _: i32) -> Result<(), E> {
        Err(E::custom(MESSAGE))
    }
    fn visit_i64<E: de::Error>(self, _: i64) -> Result<(), E> {
        Err(E::custom(MESSAGE))
    }
    fn visit_u8<E: de::Error>(self, _: u8) -> Result<(), E> {
        Err(E::custom(MESSAGE))
    }
    fn visit_u16<E: de::Error>(self, _: u16) -> Result<(), E> {
        Err(E::custom(MESSAGE))
    }
    fn visit_u32<E: de::Error>(self, _: u32) -> Result<(), E> {
        Err(E::custom(MESSAGE))
    }
    fn visit_u64<E: de::Error>(self, _: u64) -> Result<(), E> {
        Err(E::custom(MESSAGE))
    }
    fn visit_f32<E: de::Error>(self, _: f32) -> Result<(), E> {
        Err(E::custom(MESSAGE))
    }
    fn visit_f64<E: de::Error>(self, _: f64) -> Result<(), E> {
        Err(E::custom(MESSAGE))
    }
    fn visit_char<E: de::Error>(self, _: char) -> Result<(), E> {
        Err(E::custom(MESSAGE))
    }
    fn visit_str<E: de::Error>(self, _: &str) -> Result<(), E> {
        Err(E::custom(MESSAGE))
    }
    fn visit_bytes<E: de::Error>(self, _: &[u8]) -> Result<(), E> {
        Err(E::custom(MESSAGE))
    }
    fn visit_none<E: de::Error>(self) -> Result<(), E> {
        Err(E::custom(MESSAGE))
    }
    fn visit_unit<E: de::Error>(self) -> Result<(), E> {
        Err(E::custom(MESSAGE))
    }
    fn visit_some<D: Deserializer<'de>>(self, _: D) -> Result<(), D::Error> {
        Err(D::Error::custom(MESSAGE))
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, _: D) -> Result<(), D::Error> {
        Err(D::Error::custom(MESSAGE))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, _: A) -> Result<(), A::Error> {
        Err(A::Error::custom(MESSAGE))
    }
    fn visit_map<A: MapAccess<'de>>(self, _: A) -> Result<(), A::Error> {
        Err(A::Error::custom(MESSAGE))
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<(), A::Error> {
        struct Other(usize);
        impl<'de> DeserializeSeed<'de> for Other {
            type Value = ();
            fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
                match self.0 {
                    0 => d.deserialize_identifier(Refuses(0)),
                    1 => d.deserialize_any(Refuses(0)),
                    2 => d.deserialize_u64(Refuses(0)),
                    _ => Err(D::Error::custom(MESSAGE)),
                }
            }
        }
        match self.0 {
            0 => Err(A::Error::custom(MESSAGE)),
            k @ 1..=4 => a.variant_seed(Other(k - 1)).map(|_| ()),
            5 => a.variant::<Index>()?.1.newtype_variant_seed(Other(2)),
            6 => a.variant::<Index>()?.1.tuple_variant(2, Refuses(0)),
            7 => a.variant::<Index>()?.1.struct_variant(&["a"], Refuses(0)),
            _ => {
                a.variant::<Index>()?.1.unit_variant()?;
                Err(A::Error::custom(MESSAGE))
            }
        }
    }
}

fn part<'de, D: Deserializer<'de>>(p: Part, d: D) -> Result<(), D::Error> {
    match p {
        Part::Custom(n) => {
            match n {
                0 => (),
                1 => drop(u32::deserialize(d)?),
                _ => drop(<(u32, u32)>::deserialize(d)?),
            }
            Err(D::Error::custom(MESSAGE))
        }
        Part::CustomText => d.deserialize_str(FailsWithin),
        Part::CustomSeq => d.deserialize_seq(FailsWithin),
        Part::CustomTuple => d.deserialize_tuple(2, FailsWithin),
        Part::Own(k) => match k {
            0 => d.deserialize_bool(Refuses(0)),
            1 => d.deserialize_i8(Refuses(0)),
            2 => d.deserialize_i16(Refuses(0)),
            3 => d.deserialize_i32(Refuses(0)),
            4 => d.deserialize_i64(Refuses(0)),
            5 => d.deserialize_u8(Refuses(0)),
            6 => d.deserialize_u16(Refuses(0)),
            7 => d.deserialize_u32(Refuses(0)),
            8 => d.deserialize_u64(Refuses(0)),
            9 => d.deserialize_f32(Refuses(0)),
            10 => d.deserialize_f64(Refuses(0)),
            11 => d.deserialize_char(Refuses(0)),
            12 => d.deserialize_str(Refuses(0)),
            13 => d.deserialize_string(Refuses(0)),
            14 => d.deserialize_bytes(Refuses(0)),
            15 => d.deserialize_byte_buf(Refuses(0)),
            16 => d.deserialize_option(Refuses(0)),
            17 => d.deserialize_unit(Refuses(0)),
            18 => d.deserialize_unit_struct("T", Refuses(0)),
            19 => d.deserialize_newtype_struct("T", Refuses(0)),
            20 => d.deserialize_map(Refuses(0)),
            _ => d.deserialize_enum("T", &["a", "b"], Refuses(k - 21)),
        },
        Part::NoVisit(k) => match k {
            0 => d.deserialize_bool(Nothing),
            1 => d.deserialize_i8(Nothing),
            2 => d.deserialize_i16(Nothing),
            3 => d.deserialize_i32(Nothing),
            4 => d.deserialize_i64(Nothing),
            5 => d.deserialize_u8(Nothing),
            6 => d.deserialize_u16(Nothing),
            7 => d.deserialize_u32(Nothing),
            8 => d.deserialize_u64(Nothing),
            9 => d.deserialize_f32(Nothing),
            10 => d.deserialize_f64(Nothing),
            11 => d.deserialize_char(Nothing),
            12 => d.deserialize_string(Nothing),
            13 => d.deserialize_byte_buf(Nothing),
            14 => d.deserialize_option(Nothing),
            15 => d.deserialize_unit(Nothing),
            16 => d.deserialize_seq(Nothing),
            17 => d.deserialize_map(Nothing),
            _ => d.deserialize_enum("T", &["a", "b"], Nothing),
        },
        Part::Any => d.deserialize_any(Anything),
        Part::Ignored => d.deserialize_ignored_any(Anything),
        Part::I128 => d.deserialize_i128(Anything),
        Part::U128 => d.deserialize_u128(Anything),
    }
}

thread_local! { static NOW: RefCell<(Vec<Ctx>, Option<Part>)> = const { RefCell::new((vec![], None)) }; }

/// the part of NOW inside its contexts
struct Whole;
impl<'de> Deserialize<'de> for Whole {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let (c, p) = NOW.with(|n| n.borrow().clone());
        Seed(&c, p.unwrap()).deserialize(d).map(|_| Whole)
    }
}
#[derive(Clone, Copy)]
struct Seed<'a>(&'a [Ctx], Part);
impl<'de> DeserializeSeed<'de> for Seed<'_> {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        let Some(c) = self.0.first() else {
            return part(self.1, d);
        };
        let v = Within(*c, Seed(&self.0[1..], self.1));
        match c {
            SeqFirst | SeqLast => d.deserialize_seq(v),
            MapKey | MapValue => d.deserialize_map(v),
            TupleFirst | TupleLast => d.deserialize_tuple(2, v),
            TupleStruct => d.deserialize_tuple_struct("T", 2, v),
            Struct => d.deserialize_struct("T", &["a", "b"], v),
            Present => d.deserialize_option(v),
            New => d.deserialize_newtype_struct("T", v),
            NewVariant | TupleVariant | StructVariant => d.deserialize_enum("T", &["u", "v"], v),
        }
    }
}
struct Within<'a>(Ctx, Seed<'a>);
fn need<T, E: de::Error>(o: Option<T>) -> Result<T, E> {
    o.ok_or_else(|| E::custom("an element is missing"))
}
impl<'de> Visitor<'de> for Within<'_> {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("the context")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        if matches!(self.0, SeqLast | TupleLast | Struct | TupleVariant) {
            let _: u32 = need(a.next_element()?)?;
            need(a.next_element_seed(self.1)?)
        } else {
            need(a.next_element_seed(self.1)?)?;
            need(a.next_element::<u32>()?).map(|_| ())
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        if self.0 == MapKey {
            need(a.next_key_seed(self.1)?)?;
            a.next_value::<u32>().map(|_| ())
        } else {
            let _: u32 = need(a.next_key()?)?;
            a.next_value_seed(self.1)
        }
    }
    fn visit_none<E>(self) -> Result<(), E> {
        Ok(())
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        self.1.deserialize(d)
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        self.1.deserialize(d)
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<(), A::Error> {
        let (_, v) = a.variant::<Index>()?;
        match self.0 {
            NewVariant => v.newtype_variant_seed(self.1),
            TupleVariant => v.tuple_variant(2, self),
            _ => v.struct_variant(&["a", "b"], self),
        }
    }
}
/// reads a variant index as derived implementations do
struct Index;
impl<'de> Deserialize<'de> for Index {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Index;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("an index")
            }
            fn visit_u64<E>(self, _: u64) -> Result<Index, E> {
                Ok(Index)
            }
        }
        d.deserialize_identifier(V)
    }
}

/// what stands before the part
fn prefix(c: &[Ctx]) -> Vec<u8> {
    let mut b = vec![];
    for c in c {
        b.extend(match c {
            SeqFirst => &[0, 0, 0, 2][..],
            SeqLast => &[0, 0, 0, 2, 0, 0, 0, 0],
            MapKey => &[0, 0, 0, 1],
            MapValue => &[0, 0, 0, 1, 0, 0, 0, 0],
            TupleLast | Struct => &[0, 0, 0, 0],
            Present | NewVariant | StructVariant => &[0, 0, 0, 1],
            TupleVariant => &[0, 0, 0, 1, 0, 0, 0, 0],
            _ => &[],
        });
    }
    b
}

fn contexts(depth: usize) -> Vec<Vec<Ctx>> {
    let mut all: Vec<Vec<Ctx>> = vec![vec![]];
    let mut level = all.clone();
    for _ in 0..depth {
        level = level
            .iter()
            .flat_map(|c| CTX.iter().map(|x| [&c[..], &[*x]].concat()))
            .collect();
        all.extend(level.clone());
    }
    all
}

/// every sequence of up to n words of a small alphabet, and none
fn tails(n: usize) -> Vec<Vec<u8>> {
    const WORDS: &[u32] = &[0, 1, 2, 0x61626364, 0xFFFF_FFFF];
    let mut all: Vec<Vec<u8>> = vec![vec![]];
    let mut level = all.clone();
    for _ in 0..n {
        level = level
            .iter()
            .flat_map(|b| WORDS.iter().map(|w| [&b[..], &w.to_be_bytes()].concat()))
            .collect();
        all.extend(level.clone());
    }
    // enough of everything for any part to be read
    all.extend([vec![0; 64], [&[0, 0, 0, 4][..], &[0x61; 60]].concat()]);
    all
}

fn carries(e: &str) -> bool {
    e.contains(MESSAGE)
}

fn encode_side(r: &Report, ctxs: &[Vec<Ctx>]) {
    model::explore::parallel(ctxs, |c| {
        guard::context("kind=special\n");
        let mut n = 0;
        for words in 0..3 {
            for open in 0..6 {
                guard::input(&[]);
                n += 1;
                let f = Fails { words, open };
                let what = match real_encode(&In(c, &f)) {
                    Enc::Err(e) if carries(&e) => continue,
                    Enc::Err(e) => format!("the error it reports is {e}"),
                    Enc::Bytes(b) => format!("it is encoded as {}", sexp::hex(&b)),
                    Enc::Panic(p) => format!("it panics: {p}"),
                };
                special(
                    r,
                    &format!("encode/{c:?}/{words}/{open}"),
                    format!("{f:?} fails with {MESSAGE:?} inside {c:?}: {what}"),
                );
            }
        }
        for words in 0..3 {
            for what in 0..8 {
                guard::input(&[]);
                n += 1;
                let f = Asks { words, what };
                let what = match real_encode(&In(c, &f)) {
                    Enc::Err(_) => continue,
                    Enc::Bytes(b) => format!("it is encoded as {}", sexp::hex(&b)),
                    Enc::Panic(p) => format!("it panics: {p}"),
                };
                special(
                    r,
                    &format!("encode/{c:?}/{f:?}"),
                    format!("{f:?} inside {c:?}: {what}"),
                );
            }
        }
        guard::idle();
        r.add(n, n, n);
    });
}

fn decode_side(r: &Report, ctxs: &[Vec<Ctx>], words: usize) {
    let (short, long) = (tails(1), tails(words));
    model::explore::parallel(ctxs, |c| {
        guard::context("kind=special\n");
        let before = prefix(c);
        let mut n = 0;
        for p in PARTS {
            NOW.with(|x| *x.borrow_mut() = (c.clone(), Some(*p)));
            for t in if c.len() < 3 { &long } else { &short } {
                let input = [&before[..], t].concat();
                guard::input(&input);
                n += 1;
                let got = catch_unwind(AssertUnwindSafe(|| serde_xdr::from_bytes::<Whole>(&input)));
                // the part's own error, once its words are there; a part that never reads needs none
                let reaches = t.len() == 64 || *p == Part::Custom(0);
                let what = match got {
                    Ok(Err(Error::Custom(m))) if p.own() && carries(&m) => continue,
                    Ok(Err(e)) if p.own() && reaches => format!("the error reported is {e:?}"),
                    Ok(Err(_)) => continue,
                    Ok(Ok(_)) => "decoding succeeds".to_string(),
                    Err(x) => format!("decoding panics: {}", panic_text(x)),
                };
                special(
                    r,
                    &format!("decode/{c:?}/{p:?}/{}", sexp::hex(&input)),
                    format!("{p:?} inside {c:?}, input {}: {what}", sexp::hex(&input)),
                );
            }
        }
        guard::idle();
        r.add(n, n, n);
    });
}

// ---------------------------------------------------------------- compiled types

macro_rules! refuses {
    ($name:ident) => {
        impl<'de> Deserialize<'de> for $name {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                u32::deserialize(d)?;
                Err(D::Error::custom(MESSAGE))
            }
        }
    };
}
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Clone, Copy)]
struct Never;
refuses!(Never);
#[allow(dead_code)]
mod shapes {
    use super::*;
    #[derive(Deserialize, Debug)]
    #[serde(untagged)]
    pub enum Untagged {
        A(u32),
        B(String),
        C {},
        D,
    }
    #[derive(Deserialize, Debug)]
    #[serde(tag = "t")]
    pub enum Tagged {
        A { x: u32 },
        B,
    }
    #[derive(Deserialize, Debug)]
    pub struct Skips {
        pub a: u32,
        pub b: IgnoredAny,
    }
    #[derive(Deserialize, Debug)]
    pub struct Holds {
        #[serde(default)]
        pub a: Option<Never>,
        pub b: u32,
    }
    #[derive(Deserialize, Debug)]
    pub enum Chooses {
        A(Never),
        B(u32, Never),
        C { x: Never },
    }
    #[derive(Deserialize, Debug)]
    pub struct With {
        #[serde(deserialize_with = "never")]
        pub a: u8,
    }
    #[derive(Deserialize, Debug)]
    #[serde(try_from = "u32")]
    pub struct Tries;
    impl TryFrom<u32> for Tries {
        type Error = &'static str;
        fn try_from(_: u32) -> Result<Self, &'static str> {
            Err(MESSAGE)
        }
    }
    fn never<'de, D: Deserializer<'de>>(d: D) -> Result<u8, D::Error> {
        <(u32, u32)>::deserialize(d)?;
        Err(D::Error::custom(MESSAGE))
    }
}

fn compiled(r: &Report, words: usize) {
    use shapes::*;
    type Try = fn(&[u8]) -> Result<String, Error>;
    /// the type, and how its inputs must begin for the part that refuses to be reached
    macro_rules! list { ($($t:ty = $b:expr),* $(,)?) => { vec![$((stringify!($t), (|b| serde_xdr::from_bytes::<$t>(b).map(|_| String::new())) as Try, $b)),*] } }
    let types: Vec<(&str, Try, &[u8])> = list![
        Untagged = &[],
        Tagged = &[],
        Skips = &[],
        IgnoredAny = &[],
        i128 = &[],
        u128 = &[],
        (u32, i128) = &[],
        Vec<IgnoredAny> = &[0, 0, 0, 1],
        Option<Untagged> = &[0, 0, 0, 1],
        BTreeMap<u32, Untagged> = &[0, 0, 0, 1],
        Never = &[],
        Holds = &[0, 0, 0, 1],
        Chooses = &[],
        With = &[],
        Tries = &[],
        Box<Never> = &[],
        Option<Never> = &[0, 0, 0, 1],
        Option<Option<Never>> = &[0, 0, 0, 1, 0, 0, 0, 1],
        Vec<Never> = &[0, 0, 0, 1],
        Vec<Option<Never>> = &[0, 0, 0, 1, 0, 0, 0, 1],
        VecDeque<Never> = &[0, 0, 0, 1],
        LinkedList<Never> = &[0, 0, 0, 1],
        [Never; 3] = &[],
        [Tries; 1] = &[],
        (u32, Never) = &[],
        (Never, u32) = &[],
        BTreeMap<u32, Never> = &[0, 0, 0, 1],
        BTreeMap<Never, u32> = &[0, 0, 0, 1],
        HashMap<Never, Never> = &[0, 0, 0, 1],
        Result<Never, Never> = &[],
        std::ops::Bound<Never> = &[0, 0, 0, 1],
    ];
    let tails = tails(words);
    model::explore::parallel(&types, |(name, f, before)| {
        guard::context("kind=special\n");
        let mut n = 0;
        for t in &tails {
            let input = [before, &t[..]].concat();
            guard::input(&input);
            n += 1;
            let what = match catch_unwind(AssertUnwindSafe(|| f(&input))) {
                Ok(Err(_)) => continue,
                Ok(Ok(_)) => "decoding succeeds".to_string(),
                Err(p) => format!("decoding panics: {}", panic_text(p)),
            };
            special(
                r,
                &format!("decode/{name}/{}", sexp::hex(&input)),
                format!("{name} from {}: {what}", sexp::hex(&input)),
            );
        }
        guard::idle();
        r.add(n, n, n);
    });
}

pub fn run(r: &Report) {
    let th = r.thorough();
    let ctxs = contexts(if th { 5 } else { 4 });
    encode_side(r, &ctxs);
    decode_side(r, &ctxs, if th { 5 } else { 4 });
    compiled(r, if th { 6 } else { 5 });
    r.sample(|| format!("{:?} inside {:?}", PARTS[3], ctxs[30]));
}
