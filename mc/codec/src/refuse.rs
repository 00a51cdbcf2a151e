//! C07: parts without an XDR representation, in every context.
use crate::encode::special;
use model::bind::{Enc, real_encode};
use model::report::Report;
use model::{guard, sexp};
use serde::ser::*;

#[derive(Clone, Debug)]
enum Bad {
    SeqUnknown,
    MapUnknown,
    SeqLen(usize),
    MapLen(usize),
    Unit(u32),
    New(u32),
    Tuple(u32),
    Struct(u32),
    I128(i128),
    U128(u128),
    /// text and bytes longer than a length word can say
    Text(usize),
    Blob(usize),
    /// an iterator whose length is not known, collected by serde itself
    Iter,
}

/// zero pages that are never written
fn zeros(n: usize) -> &'static [u8] {
    use std::sync::OnceLock;
    static Z: OnceLock<Vec<u8>> = OnceLock::new();
    &Z.get_or_init(|| vec![0u8; (1usize << 32) + 16])[..n]
}

impl Serialize for Bad {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Bad::SeqUnknown => {
                let mut q = s.serialize_seq(None)?;
                q.serialize_element(&1u8)?;
                q.end()
            }
            Bad::MapUnknown => {
                let mut q = s.serialize_map(None)?;
                q.serialize_entry(&1u8, &2u8)?;
                q.end()
            }
            Bad::SeqLen(n) => s.serialize_seq(Some(*n))?.end(),
            Bad::MapLen(n) => s.serialize_map(Some(*n))?.end(),
            Bad::Unit(i) => s.serialize_unit_variant("T", *i, "v"),
            Bad::New(i) => s.serialize_newtype_variant("T", *i, "v", &1u8),
            Bad::Tuple(i) => {
                let mut q = s.serialize_tuple_variant("T", *i, "v", 1)?;
                q.serialize_field(&1u8)?;
                q.end()
            }
            Bad::Struct(i) => {
                let mut q = s.serialize_struct_variant("T", *i, "v", 1)?;
                q.serialize_field("f", &1u8)?;
                q.end()
            }
            Bad::I128(v) => s.serialize_i128(*v),
            Bad::U128(v) => s.serialize_u128(*v),
            Bad::Text(n) => s.serialize_str(unsafe { std::str::from_utf8_unchecked(zeros(*n)) }),
            Bad::Blob(n) => s.serialize_bytes(zeros(*n)),
            Bad::Iter => s.collect_seq((0..5).filter(|x| x % 2 == 0)),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ctx {
    SeqFirst,
    SeqLast,
    MapKey,
    MapValue,
    TupleFirst,
    TupleLast,
    TupleStruct,
    Struct,
    Some,
    New,
    NewVariant,
    TupleVariant,
    StructVariant,
}
const CTX: &[Ctx] = &[
    Ctx::SeqFirst,
    Ctx::SeqLast,
    Ctx::MapKey,
    Ctx::MapValue,
    Ctx::TupleFirst,
    Ctx::TupleLast,
    Ctx::TupleStruct,
    Ctx::Struct,
    Ctx::Some,
    Ctx::New,
    Ctx::NewVariant,
    Ctx::TupleVariant,
    Ctx::StructVariant,
];

struct In<'a>(&'a [Ctx], &'a Bad);
impl Serialize for In<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let Some(c) = self.0.first() else {
            return self.1.serialize(s);
        };
        let rest = In(&self.0[1..], self.1);
        match c {
            Ctx::SeqFirst => {
                let mut q = s.serialize_seq(Some(2))?;
                q.serialize_element(&rest)?;
                q.serialize_element(&1u8)?;
                q.end()
            }
            Ctx::SeqLast => {
                let mut q = s.serialize_seq(Some(2))?;
                q.serialize_element(&1u8)?;
                q.serialize_element(&rest)?;
                q.end()
            }
            Ctx::MapKey => {
                let mut q = s.serialize_map(Some(1))?;
                q.serialize_entry(&rest, &1u8)?;
                q.end()
            }
            Ctx::MapValue => {
                let mut q = s.serialize_map(Some(1))?;
                q.serialize_key(&1u8)?;
                q.serialize_value(&rest)?;
                q.end()
            }
            Ctx::TupleFirst => (rest, 1u8).serialize(s),
            Ctx::TupleLast => (1u8, rest).serialize(s),
            Ctx::TupleStruct => {
                let mut q = s.serialize_tuple_struct("T", 2)?;
                q.serialize_field(&rest)?;
                q.serialize_field(&1u8)?;
                q.end()
            }
            Ctx::Struct => {
                let mut q = s.serialize_struct("T", 2)?;
                q.serialize_field("a", &1u8)?;
                q.serialize_field("b", &rest)?;
                q.end()
            }
            Ctx::Some => s.serialize_some(&rest),
            Ctx::New => s.serialize_newtype_struct("T", &rest),
            Ctx::NewVariant => s.serialize_newtype_variant("T", 1, "v", &rest),
            Ctx::TupleVariant => {
                let mut q = s.serialize_tuple_variant("T", 1, "v", 2)?;
                q.serialize_field(&rest)?;
                q.serialize_field(&1u8)?;
                q.end()
            }
            Ctx::StructVariant => {
                let mut q = s.serialize_struct_variant("T", 1, "v", 2)?;
                q.serialize_field("a", &1u8)?;
                q.serialize_field("b", &rest)?;
                q.end()
            }
        }
    }
}

fn bads() -> Vec<Bad> {
    let mut v = vec![Bad::SeqUnknown, Bad::MapUnknown, Bad::Iter];
    let mut lens = vec![];
    for k in 32..64 {
        for d in [0usize, 1, 2, 7] {
            lens.push((1usize << k).wrapping_add(d));
        }
        lens.push((1usize << k) | 0xFFFF_FFFF);
        lens.push((1usize << k) + (1 << 31));
    }
    lens.extend([usize::MAX, usize::MAX - 1, isize::MAX as usize]);
    for n in lens {
        v.push(Bad::SeqLen(n));
        v.push(Bad::MapLen(n));
    }
    let mut idx = vec![];
    for k in 0..31 {
        idx.push((1u32 << 31) + (1 << k));
    }
    idx.extend([
        1 << 31,
        (1 << 31) + 3,
        u32::MAX,
        u32::MAX - 1,
        u32::MAX - 255,
        u32::MAX - 65535,
    ]);
    for i in idx {
        v.extend([Bad::Unit(i), Bad::New(i), Bad::Tuple(i), Bad::Struct(i)]);
    }
    for x in [
        0i128,
        1,
        -1,
        5,
        i64::MAX as i128,
        i64::MAX as i128 + 1,
        i64::MIN as i128,
        i128::MAX,
        i128::MIN,
    ] {
        v.push(Bad::I128(x));
    }
    for x in [0u128, 1, u64::MAX as u128, u64::MAX as u128 + 1, u128::MAX] {
        v.push(Bad::U128(x));
    }
    v
}

pub fn run(r: &Report) {
    let depth = if r.thorough() { 5 } else { 4 };
    let mut ctxs: Vec<Vec<Ctx>> = vec![vec![]];
    let mut level: Vec<Vec<Ctx>> = vec![vec![]];
    for _ in 0..depth {
        let mut next = vec![];
        for c in &level {
            for x in CTX {
                let mut y = c.clone();
                y.push(*x);
                next.push(y);
            }
        }
        ctxs.extend(next.clone());
        level = next;
    }
    let bads = bads();
    model::explore::parallel(&ctxs, |c| {
        guard::context("kind=special\n");
        let mut n = 0;
        for b in &bads {
            guard::input(&[]);
            n += 1;
            let got = real_encode(&In(c, b));
            check(r, c, b, got);
        }
        guard::idle();
        r.add(n, n, n);
    });
    // longer than 2^32 - 1 bytes: alone and once nested
    for n in [1usize << 32, (1 << 32) + 1, (1 << 32) + 5] {
        for c in [&[][..], &[Ctx::TupleFirst]] {
            for b in [Bad::Text(n), Bad::Blob(n)] {
                guard::context("kind=special\n");
                guard::input(&[]);
                let got = real_encode(&In(c, &b));
                guard::idle();
                r.add(1, 1, 1);
                check(r, c, &b, got);
            }
        }
    }
    r.sample(|| format!("{:?} in {:?}", bads[3], ctxs[20]));
}

fn check(r: &Report, c: &[Ctx], b: &Bad, got: Enc) {
    let what = match got {
        Enc::Err(_) => return,
        Enc::Bytes(x) => format!(
            "encoded as {} bytes {}…",
            x.len(),
            sexp::hex(&x[..x.len().min(64)])
        ),
        Enc::Panic(p) => format!("panics: {p}"),
    };
    special(
        r,
        &format!("{c:?}/{b:?}"),
        format!("{b:?} inside {c:?} has no XDR form but is {what}"),
    );
}
