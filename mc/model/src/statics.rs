//! Ordinary Rust types with derived serde implementations, bound to model types. They show that
//! the model terms drive serde_xdr exactly as compiled user types do.
use crate::bind::{Dec, Enc, panic_text, real_encode};
use crate::explore::Target;
use crate::ty::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap, LinkedList, VecDeque};
use std::marker::PhantomData;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Arc;

pub trait Model: Serialize + DeserializeOwned {
    fn ty() -> Ty;
    fn to_val(&self) -> Val;
    /// None if the model value cannot be held (duplicate map keys)
    fn from_val(v: &Val) -> Option<Self>
    where
        Self: Sized;
}

pub struct Static<T>(pub &'static str, PhantomData<fn() -> T>);
impl<T: Model> Static<T> {
    pub fn new(name: &'static str) -> Self {
        Static(name, PhantomData)
    }
}
pub fn decode_as<T: Model>(b: &[u8]) -> Dec {
    match catch_unwind(AssertUnwindSafe(|| serde_xdr::from_bytes::<T>(b))) {
        Ok(Ok(v)) => Dec::Ok(v.to_val()),
        Ok(Err(e)) => Dec::Err(e),
        Err(p) => Dec::Panic(panic_text(p)),
    }
}
impl<T: Model> Target for Static<T> {
    fn name(&self) -> String {
        self.0.into()
    }
    fn ty(&self) -> Arc<Ty> {
        Arc::new(T::ty())
    }
    fn decode(&self, b: &[u8]) -> Dec {
        decode_as::<T>(b)
    }
    fn hold(&self, v: Val) -> Val {
        hold(v)
    }
    fn encode(&self, v: &Val) -> Enc {
        match T::from_val(v) {
            Some(x) => real_encode(&x),
            None => Enc::Bytes(encode(&T::ty(), v)),
        }
    }
}

/// compiled maps keep the last entry of each key, in key order
fn hold(v: Val) -> Val {
    match v {
        Val::Map(l) => {
            let mut m: Vec<(Val, Val)> = vec![];
            for (a, b) in l {
                let (a, b) = (hold(a), hold(b));
                match m.iter_mut().find(|x| x.0 == a) {
                    Some(x) => x.1 = b,
                    None => m.push((a, b)),
                }
            }
            m.sort_by(|x, y| match (&x.0, &y.0) {
                (Val::I(a), Val::I(b)) => a.cmp(b),
                (Val::U(a), Val::U(b)) => a.cmp(b),
                (Val::Str(a), Val::Str(b)) => a.cmp(b),
                _ => panic!("key type"),
            });
            Val::Map(m)
        }
        Val::List(l) => Val::List(l.into_iter().map(hold).collect()),
        Val::Some(v) => Val::Some(Box::new(hold(*v))),
        Val::Var(i, l) => Val::Var(i, l.into_iter().map(hold).collect()),
        Val::Un(d, l) => Val::Un(d, l.into_iter().map(hold).collect()),
        v => v,
    }
}

macro_rules! int {
    ($($t:ty, $k:ident, $v:ident, $w:ty);*) => { $(
        impl Model for $t {
            fn ty() -> Ty { Ty::$k }
            fn to_val(&self) -> Val { Val::$v(*self as $w) }
            fn from_val(v: &Val) -> Option<Self> { match v { Val::$v(x) => Some(*x as $t), _ => panic!() } }
        }
    )* };
}
int!(i8, I8, I, i64; i16, I16, I, i64; i32, I32, I, i64; i64, I64, I, i64;
     u8, U8, U, u64; u16, U16, U, u64; u32, U32, U, u64; u64, U64, U, u64);
impl Model for bool {
    fn ty() -> Ty {
        Ty::Bool
    }
    fn to_val(&self) -> Val {
        Val::Bool(*self)
    }
    fn from_val(v: &Val) -> Option<Self> {
        match v {
            Val::Bool(b) => Some(*b),
            _ => panic!(),
        }
    }
}
impl Model for char {
    fn ty() -> Ty {
        Ty::Char
    }
    fn to_val(&self) -> Val {
        Val::Char(*self)
    }
    fn from_val(v: &Val) -> Option<Self> {
        match v {
            Val::Char(b) => Some(*b),
            _ => panic!(),
        }
    }
}
impl Model for f32 {
    fn ty() -> Ty {
        Ty::F32
    }
    fn to_val(&self) -> Val {
        Val::F32(self.to_bits())
    }
    fn from_val(v: &Val) -> Option<Self> {
        match v {
            Val::F32(b) => Some(f32::from_bits(*b)),
            _ => panic!(),
        }
    }
}
impl Model for f64 {
    fn ty() -> Ty {
        Ty::F64
    }
    fn to_val(&self) -> Val {
        Val::F64(self.to_bits())
    }
    fn from_val(v: &Val) -> Option<Self> {
        match v {
            Val::F64(b) => Some(f64::from_bits(*b)),
            _ => panic!(),
        }
    }
}
impl Model for String {
    fn ty() -> Ty {
        Ty::Str
    }
    fn to_val(&self) -> Val {
        Val::Str(self.clone())
    }
    fn from_val(v: &Val) -> Option<Self> {
        match v {
            Val::Str(b) => Some(b.clone()),
            _ => panic!(),
        }
    }
}
impl Model for () {
    fn ty() -> Ty {
        Ty::Unit
    }
    fn to_val(&self) -> Val {
        Val::Unit
    }
    fn from_val(_: &Val) -> Option<Self> {
        Some(())
    }
}
impl<T: Model> Model for Box<T> {
    fn ty() -> Ty {
        T::ty()
    }
    fn to_val(&self) -> Val {
        (**self).to_val()
    }
    fn from_val(v: &Val) -> Option<Self> {
        T::from_val(v).map(Box::new)
    }
}
impl<T: Model> Model for Option<T> {
    fn ty() -> Ty {
        Ty::Opt(Arc::new(T::ty()))
    }
    fn to_val(&self) -> Val {
        match self {
            None => Val::None,
            Some(x) => Val::Some(Box::new(x.to_val())),
        }
    }
    fn from_val(v: &Val) -> Option<Self> {
        match v {
            Val::None => Some(None),
            Val::Some(x) => T::from_val(x).map(Some),
            _ => panic!(),
        }
    }
}
macro_rules! seq {
    ($($s:ident),*) => { $(
        impl<T: Model> Model for $s<T> {
            fn ty() -> Ty { Ty::Seq(Arc::new(T::ty())) }
            fn to_val(&self) -> Val { Val::List(self.iter().map(|x| x.to_val()).collect()) }
            fn from_val(v: &Val) -> Option<Self> {
                match v { Val::List(l) => l.iter().map(T::from_val).collect(), _ => panic!() }
            }
        }
    )* };
}
seq!(Vec, VecDeque, LinkedList);
impl<K: Model + Ord, T: Model> Model for BTreeMap<K, T> {
    fn ty() -> Ty {
        Ty::Map(Arc::new(K::ty()), Arc::new(T::ty()))
    }
    fn to_val(&self) -> Val {
        Val::Map(self.iter().map(|(k, v)| (k.to_val(), v.to_val())).collect())
    }
    fn from_val(v: &Val) -> Option<Self> {
        let Val::Map(l) = v else { panic!() };
        let mut m = BTreeMap::new();
        for (a, b) in l {
            m.insert(K::from_val(a)?, T::from_val(b)?);
        }
        if m.to_val() == *v { Some(m) } else { None }
    }
}
macro_rules! array {
    ($($n:literal)*) => { $(
        impl<T: Model> Model for [T; $n] where [T; $n]: Serialize + DeserializeOwned {
            fn ty() -> Ty { Ty::Tuple(vec![Arc::new(T::ty()); $n]) }
            fn to_val(&self) -> Val { Val::List(self.iter().map(|x| x.to_val()).collect()) }
            fn from_val(v: &Val) -> Option<Self> {
                let Val::List(l) = v else { panic!() };
                let x: Option<Vec<T>> = l.iter().map(T::from_val).collect();
                x?.try_into().ok()
            }
        }
    )* };
}
array!(1 2 3 4 7 8 32);
macro_rules! tuple {
    ($($t:ident $i:tt),*) => {
        impl<$($t: Model),*> Model for ($($t,)*) {
            fn ty() -> Ty { Ty::Tuple(vec![$(Arc::new($t::ty())),*]) }
            fn to_val(&self) -> Val { Val::List(vec![$(self.$i.to_val()),*]) }
            fn from_val(v: &Val) -> Option<Self> {
                let Val::List(l) = v else { panic!() };
                Some(($($t::from_val(&l[$i])?,)*))
            }
        }
    };
}
tuple!(A 0);
tuple!(A 0, B 1);
tuple!(A 0, B 1, C 2);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13, O 14, P 15);

macro_rules! record {
    ($(#[$m:meta])* $n:ident { $($f:ident : $t:ty),* }) => {
        $(#[$m])*
        #[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
        pub struct $n { $(pub $f: $t),* }
        impl Model for $n {
            fn ty() -> Ty { Ty::Struct(vec![$(Arc::new(<$t as Model>::ty())),*]) }
            fn to_val(&self) -> Val { Val::List(vec![$(self.$f.to_val()),*]) }
            fn from_val(v: &Val) -> Option<Self> {
                let Val::List(l) = v else { panic!() };
                #[allow(unused_mut, unused_variables)]
                let mut i = l.iter();
                Some($n { $($f: <$t as Model>::from_val(i.next().unwrap())?),* })
            }
        }
    };
}
record!(Empty {});
record!(One { a: u8 });
record!(Mixed { a: i8, b: String, c: Option<u64>, d: Vec<i16>, e: bool, f: (u8, f32), g: [u16; 3], h: char });
record!(Nest { a: One, b: Vec<One>, c: Option<Box<Mixed>>, d: BTreeMap<u16, One> });

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Wrap(pub u16);
impl Model for Wrap {
    fn ty() -> Ty {
        Ty::New(Arc::new(Ty::U16))
    }
    fn to_val(&self) -> Val {
        self.0.to_val()
    }
    fn from_val(v: &Val) -> Option<Self> {
        u16::from_val(v).map(Wrap)
    }
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Pairs(pub i8, pub String, pub Option<u8>);
impl Model for Pairs {
    fn ty() -> Ty {
        Ty::TupleStruct(vec![
            Arc::new(Ty::I8),
            Arc::new(Ty::Str),
            Arc::new(<Option<u8>>::ty()),
        ])
    }
    fn to_val(&self) -> Val {
        Val::List(vec![self.0.to_val(), self.1.to_val(), self.2.to_val()])
    }
    fn from_val(v: &Val) -> Option<Self> {
        let Val::List(l) = v else { panic!() };
        Some(Pairs(
            i8::from_val(&l[0])?,
            String::from_val(&l[1])?,
            <Option<u8>>::from_val(&l[2])?,
        ))
    }
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Nothing;
impl Model for Nothing {
    fn ty() -> Ty {
        Ty::UnitStruct
    }
    fn to_val(&self) -> Val {
        Val::Unit
    }
    fn from_val(_: &Val) -> Option<Self> {
        Some(Nothing)
    }
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Kinds {
    A,
    B(i16),
    C(String, u8),
    D { x: i64, y: Vec<u8> },
    E(Box<Option<Kinds2>>),
    F(()),
    G(Nothing),
    H {},
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Kinds2 {
    P,
    Q(char),
}
impl Model for Kinds2 {
    fn ty() -> Ty {
        Ty::Enum(vec![Arm::Unit, Arm::New(Arc::new(Ty::Char))])
    }
    fn to_val(&self) -> Val {
        match self {
            Kinds2::P => Val::Var(0, vec![]),
            Kinds2::Q(c) => Val::Var(1, vec![c.to_val()]),
        }
    }
    fn from_val(v: &Val) -> Option<Self> {
        let Val::Var(i, l) = v else { panic!() };
        Some(match i {
            0 => Kinds2::P,
            _ => Kinds2::Q(char::from_val(&l[0])?),
        })
    }
}
impl Model for Kinds {
    fn ty() -> Ty {
        let a = |t: Ty| Arc::new(t);
        Ty::Enum(vec![
            Arm::Unit,
            Arm::New(a(Ty::I16)),
            Arm::Tuple(vec![a(Ty::Str), a(Ty::U8)]),
            Arm::Struct(vec![a(Ty::I64), a(<Vec<u8>>::ty())]),
            Arm::New(a(<Option<Kinds2>>::ty())),
            Arm::New(a(Ty::Unit)),
            Arm::New(a(Ty::UnitStruct)),
            Arm::Struct(vec![]),
        ])
    }
    fn to_val(&self) -> Val {
        match self {
            Kinds::A => Val::Var(0, vec![]),
            Kinds::B(x) => Val::Var(1, vec![x.to_val()]),
            Kinds::C(x, y) => Val::Var(2, vec![x.to_val(), y.to_val()]),
            Kinds::D { x, y } => Val::Var(3, vec![x.to_val(), y.to_val()]),
            Kinds::E(x) => Val::Var(4, vec![x.to_val()]),
            Kinds::F(_) => Val::Var(5, vec![Val::Unit]),
            Kinds::G(_) => Val::Var(6, vec![Val::Unit]),
            Kinds::H {} => Val::Var(7, vec![]),
        }
    }
    fn from_val(v: &Val) -> Option<Self> {
        let Val::Var(i, l) = v else { panic!() };
        Some(match i {
            0 => Kinds::A,
            1 => Kinds::B(i16::from_val(&l[0])?),
            2 => Kinds::C(String::from_val(&l[0])?, u8::from_val(&l[1])?),
            3 => Kinds::D {
                x: i64::from_val(&l[0])?,
                y: <Vec<u8>>::from_val(&l[1])?,
            },
            4 => Kinds::E(Box::new(<Option<Kinds2>>::from_val(&l[0])?)),
            5 => Kinds::F(()),
            6 => Kinds::G(Nothing),
            _ => Kinds::H {},
        })
    }
}

// the adapters, used the documented way
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Adapters {
    pub a: u8,
    #[serde(with = "serde_xdr::opaque::fixed")]
    pub b: [u8; 5],
    #[serde(with = "serde_xdr::opaque::variable")]
    pub c: Vec<u8>,
    pub d: Option<serde_xdr::opaque::VariableArray>,
    pub e: Vec<serde_xdr::opaque::VariableArray>,
    #[serde(with = "serde_xdr::primitive::signed32")]
    pub f: Assigned,
    #[serde(with = "serde_xdr::opaque::fixed")]
    pub g: [u8; 0],
    pub h: i64,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Assigned(pub i32);
pub const ASSIGNED: &[i32] = &[-7, 0, 3, 1000];
impl AsRef<i32> for Assigned {
    fn as_ref(&self) -> &i32 {
        &self.0
    }
}
impl TryFrom<i32> for Assigned {
    type Error = ();
    fn try_from(v: i32) -> Result<Self, ()> {
        if ASSIGNED.contains(&v) {
            Ok(Assigned(v))
        } else {
            Err(())
        }
    }
}
impl Model for Adapters {
    fn ty() -> Ty {
        let a = |t: Ty| Arc::new(t);
        Ty::Struct(vec![
            a(Ty::U8),
            a(Ty::OpFix(5)),
            a(Ty::OpVar),
            a(Ty::Opt(a(Ty::OpArr))),
            a(Ty::Seq(a(Ty::OpArr))),
            a(Ty::S32(ASSIGNED.to_vec())),
            a(Ty::OpFix(0)),
            a(Ty::I64),
        ])
    }
    fn to_val(&self) -> Val {
        Val::List(vec![
            self.a.to_val(),
            Val::Bytes(self.b.to_vec()),
            Val::Bytes(self.c.clone()),
            match &self.d {
                None => Val::None,
                Some(x) => Val::Some(Box::new(Val::Bytes(x.data.clone()))),
            },
            Val::List(self.e.iter().map(|x| Val::Bytes(x.data.clone())).collect()),
            Val::I(self.f.0 as i64),
            Val::Bytes(vec![]),
            self.h.to_val(),
        ])
    }
    fn from_val(v: &Val) -> Option<Self> {
        let Val::List(l) = v else { panic!() };
        let b = |v: &Val| match v {
            Val::Bytes(b) => b.clone(),
            _ => panic!(),
        };
        let va = |v: &Val| serde_xdr::opaque::VariableArray { data: b(v) };
        Some(Adapters {
            a: u8::from_val(&l[0])?,
            b: b(&l[1]).try_into().ok()?,
            c: b(&l[2]),
            d: match &l[3] {
                Val::None => None,
                Val::Some(x) => Some(va(x)),
                _ => panic!(),
            },
            e: match &l[4] {
                Val::List(l) => l.iter().map(va).collect(),
                _ => panic!(),
            },
            f: match &l[5] {
                Val::I(x) => Assigned(*x as i32),
                _ => panic!(),
            },
            g: [],
            h: i64::from_val(&l[7])?,
        })
    }
}

pub fn all() -> Vec<Box<dyn Target>> {
    macro_rules! list { ($($t:ty),* $(,)?) => { vec![$(Box::new(Static::<$t>::new(stringify!($t))) as Box<dyn Target>),*] } }
    list![
        bool, char, f32, f64, i8, i16, i32, i64, u8, u16, u32, u64, String, (), Nothing, Wrap, Pairs, Empty, One,
        Mixed, Nest, Kinds, Kinds2, Adapters,
        Vec<u8>, Vec<i16>, Vec<u64>, Vec<String>, Vec<Vec<u8>>, Vec<Option<i8>>, Vec<Kinds>, VecDeque<i32>, LinkedList<u16>,
        Option<u8>, Option<Option<i16>>, Option<String>, Option<Box<Kinds>>, Box<i32>,
        [u8; 1], [i8; 2], [String; 3], [u64; 4], [bool; 7], [u16; 8], [u8; 32], [[u8; 2]; 2], [Option<u8>; 2],
        (u8,), (u8, i64), (String, u8, String), (u8, u8, u8, u8, u8, u8, u8, u8, i16, i16, i16, i16, String, bool, f64, char),
        BTreeMap<u8, String>, BTreeMap<String, Vec<u8>>, BTreeMap<i64, BTreeMap<u8, u8>>,
    ]
}

/// types whose decoded form is a set or hash map: compared by their own equality
pub fn unordered() -> Vec<(String, Vec<u8>, bool)> {
    let mut out = vec![];
    let mut m: HashMap<u16, String> = HashMap::new();
    let mut s: BTreeSet<i16> = BTreeSet::new();
    for n in 0..40u16 {
        let b = real_encode(&m);
        let ok = match &b {
            Enc::Bytes(b) => {
                serde_xdr::from_bytes::<HashMap<u16, String>>(b).is_ok_and(|x| x == m) && {
                    // count, then each entry exactly once
                    let l: Vec<(u16, String)> = m.iter().map(|(a, b)| (*a, b.clone())).collect();
                    let v = Val::Map(l.iter().map(|(a, b)| (a.to_val(), b.to_val())).collect());
                    encode(&Ty::Map(Arc::new(Ty::U16), Arc::new(Ty::Str)), &v) == *b
                }
            }
            _ => false,
        };
        out.push((
            format!("HashMap<u16, String> with {n} entries"),
            if let Enc::Bytes(b) = b { b } else { vec![] },
            ok,
        ));
        let b = real_encode(&s);
        let ok = match &b {
            Enc::Bytes(b) => {
                serde_xdr::from_bytes::<BTreeSet<i16>>(b).is_ok_and(|x| x == s)
                    && encode(
                        &Ty::Seq(Arc::new(Ty::I16)),
                        &Val::List(s.iter().map(|x| x.to_val()).collect()),
                    ) == *b
            }
            _ => false,
        };
        out.push((
            format!("BTreeSet<i16> with {n} items"),
            if let Enc::Bytes(b) = b { b } else { vec![] },
            ok,
        ));
        m.insert(n * 7, crate::enumerate::text(n as usize));
        s.insert(n as i16 * 31 - 500);
    }
    out
}

/// A recursive type: a list of n nodes must encode as n times (value, 1) ending in 0.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Node {
    pub v: u32,
    pub next: Option<Box<Node>>,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Tree {
    Leaf(i8),
    Branch(Vec<Tree>),
}
