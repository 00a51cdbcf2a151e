//! Types, values and the reference encoder, written from RFC 4506 and the README table.
use std::sync::{Arc, RwLock};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Arm {
    Unit,
    New(Arc<Ty>),
    Tuple(Vec<Arc<Ty>>),
    Struct(Vec<Arc<Ty>>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Bool,
    I8,
    I16,
    I32,
    I64,
    U8,
    U16,
    U32,
    U64,
    F32,
    F64,
    Char,
    /// asked for as an owned string
    Str,
    /// asked for as a borrowed string
    StrRef,
    /// asked for as an owned byte buffer
    Bytes,
    /// asked for as borrowed bytes
    BytesRef,
    Unit,
    UnitStruct,
    New(Arc<Ty>),
    Opt(Arc<Ty>),
    Seq(Arc<Ty>),
    Map(Arc<Ty>, Arc<Ty>),
    Tuple(Vec<Arc<Ty>>),
    TupleStruct(Vec<Arc<Ty>>),
    Struct(Vec<Arc<Ty>>),
    Enum(Vec<Arm>),
    /// serde_xdr::opaque::fixed with N bytes
    OpFix(usize),
    /// serde_xdr::opaque::variable
    OpVar,
    /// serde_xdr::opaque::VariableArray
    OpArr,
    /// serde_xdr::primitive::signed32 with these assigned values
    S32(Vec<i32>),
    /// plain 32-bit integers of which these values matter (discriminants)
    I32of(Vec<i32>),
    U32of(Vec<u32>),
    /// 32-bit enumeration value; nothing is specified for the unassigned values of the range
    E32(Vec<i32>, i32, i32),
    /// a type defined with `define` (recursive types)
    Ref(u32),
    /// discriminant, then the items of the arm it selects
    Union(Arc<UnionTy>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct UnionTy {
    pub disc: Ty,
    pub arms: Vec<Vec<Arc<Ty>>>,
    pub cases: Vec<(Val, usize)>,
    pub default: Option<usize>,
}

static DEFINED: RwLock<Vec<Arc<Ty>>> = RwLock::new(vec![]);
/// A name for a type that contains itself; what it is comes with `define`.
pub fn reserve() -> u32 {
    let mut d = DEFINED.write().unwrap();
    d.push(Arc::new(Ty::Unit));
    d.len() as u32 - 1
}
pub fn define(i: u32, t: Arc<Ty>) {
    DEFINED.write().unwrap()[i as usize] = t;
}
pub fn defined(i: u32) -> Arc<Ty> {
    DEFINED.read().unwrap()[i as usize].clone()
}

impl UnionTy {
    pub fn arm(&self, d: &Val) -> Option<usize> {
        self.cases
            .iter()
            .find(|c| c.0 == *d)
            .map(|c| c.1)
            .or(self.default)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Val {
    Bool(bool),
    I(i64),
    U(u64),
    F32(u32),
    F64(u64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    Unit,
    None,
    Some(Box<Val>),
    List(Vec<Val>),
    Map(Vec<(Val, Val)>),
    Var(u32, Vec<Val>),
    /// union: discriminant and items
    Un(Box<Val>, Vec<Val>),
}

pub fn be32(out: &mut Vec<u8>, v: u32) {
    out.push((v >> 24) as u8);
    out.push((v >> 16) as u8);
    out.push((v >> 8) as u8);
    out.push(v as u8);
}
pub fn be64(out: &mut Vec<u8>, v: u64) {
    be32(out, (v >> 32) as u32);
    be32(out, v as u32);
}
fn raw(out: &mut Vec<u8>, b: &[u8]) {
    let mut n = 0;
    for x in b {
        out.push(*x);
        n += 1;
    }
    while n % 4 != 0 {
        out.push(0);
        n += 1;
    }
}

pub fn encode(t: &Ty, v: &Val) -> Vec<u8> {
    let mut o = Vec::new();
    enc(t, v, &mut o);
    o
}

/// RFC 4506 sections 4.1 - 4.19.
pub fn enc(t: &Ty, v: &Val, o: &mut Vec<u8>) {
    match (t, v) {
        (Ty::Bool, Val::Bool(b)) => be32(o, if *b { 1 } else { 0 }),
        (Ty::I8 | Ty::I16 | Ty::I32, Val::I(i)) => be32(o, *i as i32 as u32),
        (Ty::I64, Val::I(i)) => be64(o, *i as u64),
        (Ty::U8 | Ty::U16 | Ty::U32, Val::U(u)) => be32(o, *u as u32),
        (Ty::U64, Val::U(u)) => be64(o, *u),
        (Ty::F32, Val::F32(b)) => be32(o, *b),
        (Ty::F64, Val::F64(b)) => be64(o, *b),
        (Ty::Char, Val::Char(c)) => be32(o, *c as u32),
        (Ty::Str | Ty::StrRef, Val::Str(s)) => {
            be32(o, s.len() as u32);
            raw(o, s.as_bytes());
        }
        (Ty::Bytes | Ty::BytesRef | Ty::OpVar | Ty::OpArr, Val::Bytes(b)) => {
            be32(o, b.len() as u32);
            raw(o, b);
        }
        (Ty::OpFix(n), Val::Bytes(b)) => {
            assert_eq!(*n, b.len());
            raw(o, b);
        }
        (Ty::Unit | Ty::UnitStruct, Val::Unit) => {}
        (Ty::New(t), v) => enc(t, v, o),
        (Ty::Opt(_), Val::None) => be32(o, 0),
        (Ty::Opt(t), Val::Some(v)) => {
            be32(o, 1);
            enc(t, v, o);
        }
        (Ty::Seq(t), Val::List(l)) => {
            be32(o, l.len() as u32);
            for v in l {
                enc(t, v, o);
            }
        }
        (Ty::Map(k, t), Val::Map(l)) => {
            be32(o, l.len() as u32);
            for (a, b) in l {
                enc(k, a, o);
                enc(t, b, o);
            }
        }
        (Ty::Tuple(ts) | Ty::TupleStruct(ts) | Ty::Struct(ts), Val::List(l)) => {
            assert_eq!(ts.len(), l.len());
            for (t, v) in ts.iter().zip(l) {
                enc(t, v, o);
            }
        }
        (Ty::Enum(arms), Val::Var(i, l)) => {
            be32(o, *i);
            let ts = arm_types(&arms[*i as usize]);
            assert_eq!(ts.len(), l.len());
            for (t, v) in ts.iter().zip(l) {
                enc(t, v, o);
            }
        }
        (Ty::Ref(i), v) => enc(&defined(*i), v, o),
        (Ty::S32(_) | Ty::I32of(_) | Ty::E32(..), Val::I(i)) => be32(o, *i as i32 as u32),
        (Ty::U32of(_), Val::U(u)) => be32(o, *u as u32),
        (Ty::Union(u), Val::Un(d, l)) => {
            enc(&u.disc, d, o);
            let ts = &u.arms[u.arm(d).expect("union value outside its cases")];
            assert_eq!(ts.len(), l.len());
            for (t, v) in ts.iter().zip(l) {
                enc(t, v, o);
            }
        }
        (t, v) => panic!("ill-typed model value {v:?} for {t:?}"),
    }
}

pub fn arm_types(a: &Arm) -> Vec<Arc<Ty>> {
    match a {
        Arm::Unit => vec![],
        Arm::New(t) => vec![t.clone()],
        Arm::Tuple(ts) | Arm::Struct(ts) => ts.clone(),
    }
}

/// more than any size: no finite value exists
pub const ENDLESS: u128 = 1 << 90;
/// Smallest number of wire bytes a value of the type occupies.
pub fn min_size(t: &Ty) -> u128 {
    least(t, &mut vec![]).min(ENDLESS)
}
fn least(t: &Ty, open: &mut Vec<u32>) -> u128 {
    if let Ty::Ref(i) = t {
        if open.contains(i) {
            return ENDLESS;
        }
        open.push(*i);
        let n = least(&defined(*i), open);
        open.pop();
        return n;
    }
    let mut min_size = |t: &Ty| least(t, open);
    match t {
        Ty::Ref(_) => unreachable!(),
        Ty::Bool | Ty::I8 | Ty::I16 | Ty::I32 | Ty::U8 | Ty::U16 | Ty::U32 | Ty::F32 | Ty::Char => {
            4
        }
        Ty::I64 | Ty::U64 | Ty::F64 => 8,
        Ty::Str | Ty::StrRef | Ty::Bytes | Ty::BytesRef | Ty::OpVar | Ty::OpArr => 4,
        Ty::Opt(_)
        | Ty::Seq(_)
        | Ty::Map(..)
        | Ty::S32(_)
        | Ty::I32of(_)
        | Ty::U32of(_)
        | Ty::E32(..) => 4,
        Ty::Union(u) => {
            min_size(&u.disc)
                + u.arms
                    .iter()
                    .map(|a| a.iter().map(|t| min_size(t)).sum::<u128>())
                    .min()
                    .unwrap_or(0)
        }
        Ty::Unit | Ty::UnitStruct => 0,
        Ty::New(t) => min_size(t),
        Ty::Tuple(ts) | Ty::TupleStruct(ts) | Ty::Struct(ts) => {
            ts.iter().map(|t| min_size(t)).sum()
        }
        Ty::OpFix(n) => pad4(*n as u128),
        Ty::Enum(arms) => {
            4 + arms
                .iter()
                .map(|a| arm_types(a).iter().map(|t| min_size(t)).sum::<u128>())
                .min()
                .unwrap_or(0)
        }
    }
}

/// does the type contain itself?
pub fn loops(t: &Ty) -> bool {
    match t {
        Ty::Ref(_) => true,
        Ty::Opt(t) | Ty::Seq(t) | Ty::New(t) => loops(t),
        Ty::Map(k, v) => loops(k) || loops(v),
        Ty::Union(u) => loops(&u.disc) || u.arms.iter().flatten().any(|t| loops(t)),
        Ty::Tuple(ts) | Ty::TupleStruct(ts) | Ty::Struct(ts) => ts.iter().any(|t| loops(t)),
        Ty::Enum(arms) => arms.iter().flat_map(arm_types).any(|t| loops(&t)),
        _ => false,
    }
}

pub fn pad4(n: u128) -> u128 {
    n.div_ceil(4) * 4
}
