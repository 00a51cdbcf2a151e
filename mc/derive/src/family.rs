// Written by tools/gen_derive.py.
#![allow(non_upper_case_globals, dead_code)]
use super::*;

// names that derived code may use for itself
pub const a: i32 = 1;
pub const ser: i32 = 1;
pub const de: i32 = 1;
pub const s: i32 = 1;
pub const d: i32 = 1;
pub const v: i32 = 1;
pub const len: i32 = 1;
pub const i: i32 = 1;
pub const a0: i32 = 1;
pub const a1: i32 = 1;
pub const a2: i32 = 1;
pub const r0: i32 = 1;
pub const r1: i32 = 1;
pub const r2: i32 = 1;
pub const index: i32 = 1;
pub const value: i32 = 1;
pub const variant: i32 = 1;
pub const name: i32 = 1;
pub const seq: i32 = 1;
pub const serializer: i32 = 1;
pub const deserializer: i32 = 1;
pub const formatter: i32 = 1;
pub const first: i32 = 1;
pub const result: i32 = 1;
pub const arg0: i32 = 1;
pub const arg1: i32 = 1;
pub const ret0: i32 = 1;
pub const ret1: i32 = 1;
pub const field0: i32 = 1;
pub const field1: i32 = 1;
pub const item0: i32 = 1;
pub const ident: i32 = 1;
pub const discriminant: i32 = 1;
pub const element: i32 = 1;
pub const tuple: i32 = 1;
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum ISeq1 { V0 }
impl serde_xdr::XdrIndexer for ISeq1 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0,  } }
}
impl Model for ISeq1 {
    fn ty() -> Ty { union(Ty::I32of(vec![0]), vec![vec![], ], vec![(Val::I(0), 0), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(0), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum ISeq2 { V0, V1(String) }
impl serde_xdr::XdrIndexer for ISeq2 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), 1 => Ok("V1"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0, Self::V1{..} => 1,  } }
}
impl Model for ISeq2 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1]), vec![vec![], vec![m::<String>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(0), vec![]), Self::V1(a0_) => un(Val::I(1), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1(x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum ISeq3 { V0, V1(String), V2(i16, u64) }
impl serde_xdr::XdrIndexer for ISeq3 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0, Self::V1{..} => 1, Self::V2{..} => 2,  } }
}
impl Model for ISeq3 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(0), vec![]), Self::V1(a0_) => un(Val::I(1), vec![a0_.to_val()]), Self::V2(a0_, a1_) => un(Val::I(2), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1(x(l_, 0)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum ISeq4 { V0, V1(String), V2(i16, u64), V3(u64, bool, char) }
impl serde_xdr::XdrIndexer for ISeq4 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), 3 => Ok("V3"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0, Self::V1{..} => 1, Self::V2{..} => 2, Self::V3{..} => 3,  } }
}
impl Model for ISeq4 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, 3]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![m::<u64>(), m::<bool>(), m::<char>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(3), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(0), vec![]), Self::V1(a0_) => un(Val::I(1), vec![a0_.to_val()]), Self::V2(a0_, a1_) => un(Val::I(2), vec![a0_.to_val(), a1_.to_val()]), Self::V3(a0_, a1_, a2_) => un(Val::I(3), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1(x(l_, 0)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum ISeq7 { V0, V1(String), V2(i16, u64), V3(u64, bool, char), V4, V5(char), V6(u8, String) }
impl serde_xdr::XdrIndexer for ISeq7 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), 3 => Ok("V3"), 4 => Ok("V4"), 5 => Ok("V5"), 6 => Ok("V6"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0, Self::V1{..} => 1, Self::V2{..} => 2, Self::V3{..} => 3, Self::V4{..} => 4, Self::V5{..} => 5, Self::V6{..} => 6,  } }
}
impl Model for ISeq7 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, 3, 4, 5, 6]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![m::<u64>(), m::<bool>(), m::<char>()], vec![], vec![m::<char>()], vec![m::<u8>(), m::<String>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(3), 3), (Val::I(4), 4), (Val::I(5), 5), (Val::I(6), 6), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(0), vec![]), Self::V1(a0_) => un(Val::I(1), vec![a0_.to_val()]), Self::V2(a0_, a1_) => un(Val::I(2), vec![a0_.to_val(), a1_.to_val()]), Self::V3(a0_, a1_, a2_) => un(Val::I(3), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V4 => un(Val::I(4), vec![]), Self::V5(a0_) => un(Val::I(5), vec![a0_.to_val()]), Self::V6(a0_, a1_) => un(Val::I(6), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1(x(l_, 0)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 4 => Self::V4, 5 => Self::V5(x(l_, 0)?), 6 => Self::V6(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum ISeq12 { V0, V1(String), V2(i16, u64), V3(u64, bool, char), V4, V5(char), V6(u8, String), V7(String, i16, u64), V8, V9(u64), V10(bool, char), V11(char, u8, String) }
impl serde_xdr::XdrIndexer for ISeq12 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), 3 => Ok("V3"), 4 => Ok("V4"), 5 => Ok("V5"), 6 => Ok("V6"), 7 => Ok("V7"), 8 => Ok("V8"), 9 => Ok("V9"), 10 => Ok("V10"), 11 => Ok("V11"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0, Self::V1{..} => 1, Self::V2{..} => 2, Self::V3{..} => 3, Self::V4{..} => 4, Self::V5{..} => 5, Self::V6{..} => 6, Self::V7{..} => 7, Self::V8{..} => 8, Self::V9{..} => 9, Self::V10{..} => 10, Self::V11{..} => 11,  } }
}
impl Model for ISeq12 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![m::<u64>(), m::<bool>(), m::<char>()], vec![], vec![m::<char>()], vec![m::<u8>(), m::<String>()], vec![m::<String>(), m::<i16>(), m::<u64>()], vec![], vec![m::<u64>()], vec![m::<bool>(), m::<char>()], vec![m::<char>(), m::<u8>(), m::<String>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(3), 3), (Val::I(4), 4), (Val::I(5), 5), (Val::I(6), 6), (Val::I(7), 7), (Val::I(8), 8), (Val::I(9), 9), (Val::I(10), 10), (Val::I(11), 11), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(0), vec![]), Self::V1(a0_) => un(Val::I(1), vec![a0_.to_val()]), Self::V2(a0_, a1_) => un(Val::I(2), vec![a0_.to_val(), a1_.to_val()]), Self::V3(a0_, a1_, a2_) => un(Val::I(3), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V4 => un(Val::I(4), vec![]), Self::V5(a0_) => un(Val::I(5), vec![a0_.to_val()]), Self::V6(a0_, a1_) => un(Val::I(6), vec![a0_.to_val(), a1_.to_val()]), Self::V7(a0_, a1_, a2_) => un(Val::I(7), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V8 => un(Val::I(8), vec![]), Self::V9(a0_) => un(Val::I(9), vec![a0_.to_val()]), Self::V10(a0_, a1_) => un(Val::I(10), vec![a0_.to_val(), a1_.to_val()]), Self::V11(a0_, a1_, a2_) => un(Val::I(11), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1(x(l_, 0)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 4 => Self::V4, 5 => Self::V5(x(l_, 0)?), 6 => Self::V6(x(l_, 0)?, x(l_, 1)?), 7 => Self::V7(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 8 => Self::V8, 9 => Self::V9(x(l_, 0)?), 10 => Self::V10(x(l_, 0)?, x(l_, 1)?), 11 => Self::V11(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IOne1 { V0 }
impl serde_xdr::XdrIndexer for IOne1 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 1 => Ok("V0"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 1,  } }
}
impl Model for IOne1 {
    fn ty() -> Ty { union(Ty::I32of(vec![1]), vec![vec![], ], vec![(Val::I(1), 0), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(1), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IOne2 { V0, V1(String) }
impl serde_xdr::XdrIndexer for IOne2 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 1 => Ok("V0"), 2 => Ok("V1"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 1, Self::V1{..} => 2,  } }
}
impl Model for IOne2 {
    fn ty() -> Ty { union(Ty::I32of(vec![1, 2]), vec![vec![], vec![m::<String>()], ], vec![(Val::I(1), 0), (Val::I(2), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(1), vec![]), Self::V1(a0_) => un(Val::I(2), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1(x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IOne3 { V0, V1(String), V2(i16, u64) }
impl serde_xdr::XdrIndexer for IOne3 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 1 => Ok("V0"), 2 => Ok("V1"), 3 => Ok("V2"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 1, Self::V1{..} => 2, Self::V2{..} => 3,  } }
}
impl Model for IOne3 {
    fn ty() -> Ty { union(Ty::I32of(vec![1, 2, 3]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], ], vec![(Val::I(1), 0), (Val::I(2), 1), (Val::I(3), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(1), vec![]), Self::V1(a0_) => un(Val::I(2), vec![a0_.to_val()]), Self::V2(a0_, a1_) => un(Val::I(3), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1(x(l_, 0)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IOne4 { V0, V1(String), V2(i16, u64), V3(u64, bool, char) }
impl serde_xdr::XdrIndexer for IOne4 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 1 => Ok("V0"), 2 => Ok("V1"), 3 => Ok("V2"), 4 => Ok("V3"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 1, Self::V1{..} => 2, Self::V2{..} => 3, Self::V3{..} => 4,  } }
}
impl Model for IOne4 {
    fn ty() -> Ty { union(Ty::I32of(vec![1, 2, 3, 4]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![m::<u64>(), m::<bool>(), m::<char>()], ], vec![(Val::I(1), 0), (Val::I(2), 1), (Val::I(3), 2), (Val::I(4), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(1), vec![]), Self::V1(a0_) => un(Val::I(2), vec![a0_.to_val()]), Self::V2(a0_, a1_) => un(Val::I(3), vec![a0_.to_val(), a1_.to_val()]), Self::V3(a0_, a1_, a2_) => un(Val::I(4), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1(x(l_, 0)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IOne7 { V0, V1(String), V2(i16, u64), V3(u64, bool, char), V4, V5(char), V6(u8, String) }
impl serde_xdr::XdrIndexer for IOne7 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 1 => Ok("V0"), 2 => Ok("V1"), 3 => Ok("V2"), 4 => Ok("V3"), 5 => Ok("V4"), 6 => Ok("V5"), 7 => Ok("V6"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 1, Self::V1{..} => 2, Self::V2{..} => 3, Self::V3{..} => 4, Self::V4{..} => 5, Self::V5{..} => 6, Self::V6{..} => 7,  } }
}
impl Model for IOne7 {
    fn ty() -> Ty { union(Ty::I32of(vec![1, 2, 3, 4, 5, 6, 7]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![m::<u64>(), m::<bool>(), m::<char>()], vec![], vec![m::<char>()], vec![m::<u8>(), m::<String>()], ], vec![(Val::I(1), 0), (Val::I(2), 1), (Val::I(3), 2), (Val::I(4), 3), (Val::I(5), 4), (Val::I(6), 5), (Val::I(7), 6), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(1), vec![]), Self::V1(a0_) => un(Val::I(2), vec![a0_.to_val()]), Self::V2(a0_, a1_) => un(Val::I(3), vec![a0_.to_val(), a1_.to_val()]), Self::V3(a0_, a1_, a2_) => un(Val::I(4), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V4 => un(Val::I(5), vec![]), Self::V5(a0_) => un(Val::I(6), vec![a0_.to_val()]), Self::V6(a0_, a1_) => un(Val::I(7), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1(x(l_, 0)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 4 => Self::V4, 5 => Self::V5(x(l_, 0)?), 6 => Self::V6(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IOne12 { V0, V1(String), V2(i16, u64), V3(u64, bool, char), V4, V5(char), V6(u8, String), V7(String, i16, u64), V8, V9(u64), V10(bool, char), V11(char, u8, String) }
impl serde_xdr::XdrIndexer for IOne12 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 1 => Ok("V0"), 2 => Ok("V1"), 3 => Ok("V2"), 4 => Ok("V3"), 5 => Ok("V4"), 6 => Ok("V5"), 7 => Ok("V6"), 8 => Ok("V7"), 9 => Ok("V8"), 10 => Ok("V9"), 11 => Ok("V10"), 12 => Ok("V11"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 1, Self::V1{..} => 2, Self::V2{..} => 3, Self::V3{..} => 4, Self::V4{..} => 5, Self::V5{..} => 6, Self::V6{..} => 7, Self::V7{..} => 8, Self::V8{..} => 9, Self::V9{..} => 10, Self::V10{..} => 11, Self::V11{..} => 12,  } }
}
impl Model for IOne12 {
    fn ty() -> Ty { union(Ty::I32of(vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![m::<u64>(), m::<bool>(), m::<char>()], vec![], vec![m::<char>()], vec![m::<u8>(), m::<String>()], vec![m::<String>(), m::<i16>(), m::<u64>()], vec![], vec![m::<u64>()], vec![m::<bool>(), m::<char>()], vec![m::<char>(), m::<u8>(), m::<String>()], ], vec![(Val::I(1), 0), (Val::I(2), 1), (Val::I(3), 2), (Val::I(4), 3), (Val::I(5), 4), (Val::I(6), 5), (Val::I(7), 6), (Val::I(8), 7), (Val::I(9), 8), (Val::I(10), 9), (Val::I(11), 10), (Val::I(12), 11), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(1), vec![]), Self::V1(a0_) => un(Val::I(2), vec![a0_.to_val()]), Self::V2(a0_, a1_) => un(Val::I(3), vec![a0_.to_val(), a1_.to_val()]), Self::V3(a0_, a1_, a2_) => un(Val::I(4), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V4 => un(Val::I(5), vec![]), Self::V5(a0_) => un(Val::I(6), vec![a0_.to_val()]), Self::V6(a0_, a1_) => un(Val::I(7), vec![a0_.to_val(), a1_.to_val()]), Self::V7(a0_, a1_, a2_) => un(Val::I(8), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V8 => un(Val::I(9), vec![]), Self::V9(a0_) => un(Val::I(10), vec![a0_.to_val()]), Self::V10(a0_, a1_) => un(Val::I(11), vec![a0_.to_val(), a1_.to_val()]), Self::V11(a0_, a1_, a2_) => un(Val::I(12), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1(x(l_, 0)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 4 => Self::V4, 5 => Self::V5(x(l_, 0)?), 6 => Self::V6(x(l_, 0)?, x(l_, 1)?), 7 => Self::V7(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 8 => Self::V8, 9 => Self::V9(x(l_, 0)?), 10 => Self::V10(x(l_, 0)?, x(l_, 1)?), 11 => Self::V11(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum INeg1 { V0 }
impl serde_xdr::XdrIndexer for INeg1 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { -1 => Ok("V0"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => -1,  } }
}
impl Model for INeg1 {
    fn ty() -> Ty { union(Ty::I32of(vec![-1]), vec![vec![], ], vec![(Val::I(-1), 0), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(-1), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum INeg2 { V0, V1(String) }
impl serde_xdr::XdrIndexer for INeg2 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { -1 => Ok("V0"), -2 => Ok("V1"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => -1, Self::V1{..} => -2,  } }
}
impl Model for INeg2 {
    fn ty() -> Ty { union(Ty::I32of(vec![-1, -2]), vec![vec![], vec![m::<String>()], ], vec![(Val::I(-1), 0), (Val::I(-2), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(-1), vec![]), Self::V1(a0_) => un(Val::I(-2), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1(x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum INeg3 { V0, V1(String), V2(i16, u64) }
impl serde_xdr::XdrIndexer for INeg3 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { -1 => Ok("V0"), -2 => Ok("V1"), -3 => Ok("V2"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => -1, Self::V1{..} => -2, Self::V2{..} => -3,  } }
}
impl Model for INeg3 {
    fn ty() -> Ty { union(Ty::I32of(vec![-1, -2, -3]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], ], vec![(Val::I(-1), 0), (Val::I(-2), 1), (Val::I(-3), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(-1), vec![]), Self::V1(a0_) => un(Val::I(-2), vec![a0_.to_val()]), Self::V2(a0_, a1_) => un(Val::I(-3), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1(x(l_, 0)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum INeg4 { V0, V1(String), V2(i16, u64), V3(u64, bool, char) }
impl serde_xdr::XdrIndexer for INeg4 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { -1 => Ok("V0"), -2 => Ok("V1"), -3 => Ok("V2"), -4 => Ok("V3"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => -1, Self::V1{..} => -2, Self::V2{..} => -3, Self::V3{..} => -4,  } }
}
impl Model for INeg4 {
    fn ty() -> Ty { union(Ty::I32of(vec![-1, -2, -3, -4]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![m::<u64>(), m::<bool>(), m::<char>()], ], vec![(Val::I(-1), 0), (Val::I(-2), 1), (Val::I(-3), 2), (Val::I(-4), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(-1), vec![]), Self::V1(a0_) => un(Val::I(-2), vec![a0_.to_val()]), Self::V2(a0_, a1_) => un(Val::I(-3), vec![a0_.to_val(), a1_.to_val()]), Self::V3(a0_, a1_, a2_) => un(Val::I(-4), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1(x(l_, 0)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum INeg7 { V0, V1(String), V2(i16, u64), V3(u64, bool, char), V4, V5(char), V6(u8, String) }
impl serde_xdr::XdrIndexer for INeg7 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { -1 => Ok("V0"), -2 => Ok("V1"), -3 => Ok("V2"), -4 => Ok("V3"), -5 => Ok("V4"), -6 => Ok("V5"), -7 => Ok("V6"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => -1, Self::V1{..} => -2, Self::V2{..} => -3, Self::V3{..} => -4, Self::V4{..} => -5, Self::V5{..} => -6, Self::V6{..} => -7,  } }
}
impl Model for INeg7 {
    fn ty() -> Ty { union(Ty::I32of(vec![-1, -2, -3, -4, -5, -6, -7]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![m::<u64>(), m::<bool>(), m::<char>()], vec![], vec![m::<char>()], vec![m::<u8>(), m::<String>()], ], vec![(Val::I(-1), 0), (Val::I(-2), 1), (Val::I(-3), 2), (Val::I(-4), 3), (Val::I(-5), 4), (Val::I(-6), 5), (Val::I(-7), 6), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(-1), vec![]), Self::V1(a0_) => un(Val::I(-2), vec![a0_.to_val()]), Self::V2(a0_, a1_) => un(Val::I(-3), vec![a0_.to_val(), a1_.to_val()]), Self::V3(a0_, a1_, a2_) => un(Val::I(-4), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V4 => un(Val::I(-5), vec![]), Self::V5(a0_) => un(Val::I(-6), vec![a0_.to_val()]), Self::V6(a0_, a1_) => un(Val::I(-7), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1(x(l_, 0)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 4 => Self::V4, 5 => Self::V5(x(l_, 0)?), 6 => Self::V6(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum INeg12 { V0, V1(String), V2(i16, u64), V3(u64, bool, char), V4, V5(char), V6(u8, String), V7(String, i16, u64), V8, V9(u64), V10(bool, char), V11(char, u8, String) }
impl serde_xdr::XdrIndexer for INeg12 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { -1 => Ok("V0"), -2 => Ok("V1"), -3 => Ok("V2"), -4 => Ok("V3"), -5 => Ok("V4"), -6 => Ok("V5"), -7 => Ok("V6"), -8 => Ok("V7"), -9 => Ok("V8"), -10 => Ok("V9"), -11 => Ok("V10"), -12 => Ok("V11"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => -1, Self::V1{..} => -2, Self::V2{..} => -3, Self::V3{..} => -4, Self::V4{..} => -5, Self::V5{..} => -6, Self::V6{..} => -7, Self::V7{..} => -8, Self::V8{..} => -9, Self::V9{..} => -10, Self::V10{..} => -11, Self::V11{..} => -12,  } }
}
impl Model for INeg12 {
    fn ty() -> Ty { union(Ty::I32of(vec![-1, -2, -3, -4, -5, -6, -7, -8, -9, -10, -11, -12]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![m::<u64>(), m::<bool>(), m::<char>()], vec![], vec![m::<char>()], vec![m::<u8>(), m::<String>()], vec![m::<String>(), m::<i16>(), m::<u64>()], vec![], vec![m::<u64>()], vec![m::<bool>(), m::<char>()], vec![m::<char>(), m::<u8>(), m::<String>()], ], vec![(Val::I(-1), 0), (Val::I(-2), 1), (Val::I(-3), 2), (Val::I(-4), 3), (Val::I(-5), 4), (Val::I(-6), 5), (Val::I(-7), 6), (Val::I(-8), 7), (Val::I(-9), 8), (Val::I(-10), 9), (Val::I(-11), 10), (Val::I(-12), 11), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(-1), vec![]), Self::V1(a0_) => un(Val::I(-2), vec![a0_.to_val()]), Self::V2(a0_, a1_) => un(Val::I(-3), vec![a0_.to_val(), a1_.to_val()]), Self::V3(a0_, a1_, a2_) => un(Val::I(-4), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V4 => un(Val::I(-5), vec![]), Self::V5(a0_) => un(Val::I(-6), vec![a0_.to_val()]), Self::V6(a0_, a1_) => un(Val::I(-7), vec![a0_.to_val(), a1_.to_val()]), Self::V7(a0_, a1_, a2_) => un(Val::I(-8), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V8 => un(Val::I(-9), vec![]), Self::V9(a0_) => un(Val::I(-10), vec![a0_.to_val()]), Self::V10(a0_, a1_) => un(Val::I(-11), vec![a0_.to_val(), a1_.to_val()]), Self::V11(a0_, a1_, a2_) => un(Val::I(-12), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1(x(l_, 0)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 4 => Self::V4, 5 => Self::V5(x(l_, 0)?), 6 => Self::V6(x(l_, 0)?, x(l_, 1)?), 7 => Self::V7(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 8 => Self::V8, 9 => Self::V9(x(l_, 0)?), 10 => Self::V10(x(l_, 0)?, x(l_, 1)?), 11 => Self::V11(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IDesc1 { V0 }
impl serde_xdr::XdrIndexer for IDesc1 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0,  } }
}
impl Model for IDesc1 {
    fn ty() -> Ty { union(Ty::I32of(vec![0]), vec![vec![], ], vec![(Val::I(0), 0), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(0), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IDesc2 { V0, V1(String) }
impl serde_xdr::XdrIndexer for IDesc2 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 1 => Ok("V0"), 0 => Ok("V1"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 1, Self::V1{..} => 0,  } }
}
impl Model for IDesc2 {
    fn ty() -> Ty { union(Ty::I32of(vec![1, 0]), vec![vec![], vec![m::<String>()], ], vec![(Val::I(1), 0), (Val::I(0), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(1), vec![]), Self::V1(a0_) => un(Val::I(0), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1(x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IDesc3 { V0, V1(String), V2(i16, u64) }
impl serde_xdr::XdrIndexer for IDesc3 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 2 => Ok("V0"), 1 => Ok("V1"), 0 => Ok("V2"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 2, Self::V1{..} => 1, Self::V2{..} => 0,  } }
}
impl Model for IDesc3 {
    fn ty() -> Ty { union(Ty::I32of(vec![2, 1, 0]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], ], vec![(Val::I(2), 0), (Val::I(1), 1), (Val::I(0), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(2), vec![]), Self::V1(a0_) => un(Val::I(1), vec![a0_.to_val()]), Self::V2(a0_, a1_) => un(Val::I(0), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1(x(l_, 0)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IDesc4 { V0, V1(String), V2(i16, u64), V3(u64, bool, char) }
impl serde_xdr::XdrIndexer for IDesc4 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 3 => Ok("V0"), 2 => Ok("V1"), 1 => Ok("V2"), 0 => Ok("V3"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 3, Self::V1{..} => 2, Self::V2{..} => 1, Self::V3{..} => 0,  } }
}
impl Model for IDesc4 {
    fn ty() -> Ty { union(Ty::I32of(vec![3, 2, 1, 0]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![m::<u64>(), m::<bool>(), m::<char>()], ], vec![(Val::I(3), 0), (Val::I(2), 1), (Val::I(1), 2), (Val::I(0), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(3), vec![]), Self::V1(a0_) => un(Val::I(2), vec![a0_.to_val()]), Self::V2(a0_, a1_) => un(Val::I(1), vec![a0_.to_val(), a1_.to_val()]), Self::V3(a0_, a1_, a2_) => un(Val::I(0), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1(x(l_, 0)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IDesc7 { V0, V1(String), V2(i16, u64), V3(u64, bool, char), V4, V5(char), V6(u8, String) }
impl serde_xdr::XdrIndexer for IDesc7 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 6 => Ok("V0"), 5 => Ok("V1"), 4 => Ok("V2"), 3 => Ok("V3"), 2 => Ok("V4"), 1 => Ok("V5"), 0 => Ok("V6"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 6, Self::V1{..} => 5, Self::V2{..} => 4, Self::V3{..} => 3, Self::V4{..} => 2, Self::V5{..} => 1, Self::V6{..} => 0,  } }
}
impl Model for IDesc7 {
    fn ty() -> Ty { union(Ty::I32of(vec![6, 5, 4, 3, 2, 1, 0]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![m::<u64>(), m::<bool>(), m::<char>()], vec![], vec![m::<char>()], vec![m::<u8>(), m::<String>()], ], vec![(Val::I(6), 0), (Val::I(5), 1), (Val::I(4), 2), (Val::I(3), 3), (Val::I(2), 4), (Val::I(1), 5), (Val::I(0), 6), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(6), vec![]), Self::V1(a0_) => un(Val::I(5), vec![a0_.to_val()]), Self::V2(a0_, a1_) => un(Val::I(4), vec![a0_.to_val(), a1_.to_val()]), Self::V3(a0_, a1_, a2_) => un(Val::I(3), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V4 => un(Val::I(2), vec![]), Self::V5(a0_) => un(Val::I(1), vec![a0_.to_val()]), Self::V6(a0_, a1_) => un(Val::I(0), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1(x(l_, 0)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 4 => Self::V4, 5 => Self::V5(x(l_, 0)?), 6 => Self::V6(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IDesc12 { V0, V1(String), V2(i16, u64), V3(u64, bool, char), V4, V5(char), V6(u8, String), V7(String, i16, u64), V8, V9(u64), V10(bool, char), V11(char, u8, String) }
impl serde_xdr::XdrIndexer for IDesc12 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 11 => Ok("V0"), 10 => Ok("V1"), 9 => Ok("V2"), 8 => Ok("V3"), 7 => Ok("V4"), 6 => Ok("V5"), 5 => Ok("V6"), 4 => Ok("V7"), 3 => Ok("V8"), 2 => Ok("V9"), 1 => Ok("V10"), 0 => Ok("V11"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 11, Self::V1{..} => 10, Self::V2{..} => 9, Self::V3{..} => 8, Self::V4{..} => 7, Self::V5{..} => 6, Self::V6{..} => 5, Self::V7{..} => 4, Self::V8{..} => 3, Self::V9{..} => 2, Self::V10{..} => 1, Self::V11{..} => 0,  } }
}
impl Model for IDesc12 {
    fn ty() -> Ty { union(Ty::I32of(vec![11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![m::<u64>(), m::<bool>(), m::<char>()], vec![], vec![m::<char>()], vec![m::<u8>(), m::<String>()], vec![m::<String>(), m::<i16>(), m::<u64>()], vec![], vec![m::<u64>()], vec![m::<bool>(), m::<char>()], vec![m::<char>(), m::<u8>(), m::<String>()], ], vec![(Val::I(11), 0), (Val::I(10), 1), (Val::I(9), 2), (Val::I(8), 3), (Val::I(7), 4), (Val::I(6), 5), (Val::I(5), 6), (Val::I(4), 7), (Val::I(3), 8), (Val::I(2), 9), (Val::I(1), 10), (Val::I(0), 11), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(11), vec![]), Self::V1(a0_) => un(Val::I(10), vec![a0_.to_val()]), Self::V2(a0_, a1_) => un(Val::I(9), vec![a0_.to_val(), a1_.to_val()]), Self::V3(a0_, a1_, a2_) => un(Val::I(8), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V4 => un(Val::I(7), vec![]), Self::V5(a0_) => un(Val::I(6), vec![a0_.to_val()]), Self::V6(a0_, a1_) => un(Val::I(5), vec![a0_.to_val(), a1_.to_val()]), Self::V7(a0_, a1_, a2_) => un(Val::I(4), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V8 => un(Val::I(3), vec![]), Self::V9(a0_) => un(Val::I(2), vec![a0_.to_val()]), Self::V10(a0_, a1_) => un(Val::I(1), vec![a0_.to_val(), a1_.to_val()]), Self::V11(a0_, a1_, a2_) => un(Val::I(0), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1(x(l_, 0)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 4 => Self::V4, 5 => Self::V5(x(l_, 0)?), 6 => Self::V6(x(l_, 0)?, x(l_, 1)?), 7 => Self::V7(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 8 => Self::V8, 9 => Self::V9(x(l_, 0)?), 10 => Self::V10(x(l_, 0)?, x(l_, 1)?), 11 => Self::V11(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum ISparse1 { V0 }
impl serde_xdr::XdrIndexer for ISparse1 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { -50 => Ok("V0"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => -50,  } }
}
impl Model for ISparse1 {
    fn ty() -> Ty { union(Ty::I32of(vec![-50]), vec![vec![], ], vec![(Val::I(-50), 0), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(-50), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum ISparse2 { V0, V1(String) }
impl serde_xdr::XdrIndexer for ISparse2 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { -50 => Ok("V0"), -13 => Ok("V1"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => -50, Self::V1{..} => -13,  } }
}
impl Model for ISparse2 {
    fn ty() -> Ty { union(Ty::I32of(vec![-50, -13]), vec![vec![], vec![m::<String>()], ], vec![(Val::I(-50), 0), (Val::I(-13), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(-50), vec![]), Self::V1(a0_) => un(Val::I(-13), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1(x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum ISparse3 { V0, V1(String), V2(i16, u64) }
impl serde_xdr::XdrIndexer for ISparse3 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { -50 => Ok("V0"), -13 => Ok("V1"), 24 => Ok("V2"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => -50, Self::V1{..} => -13, Self::V2{..} => 24,  } }
}
impl Model for ISparse3 {
    fn ty() -> Ty { union(Ty::I32of(vec![-50, -13, 24]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], ], vec![(Val::I(-50), 0), (Val::I(-13), 1), (Val::I(24), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(-50), vec![]), Self::V1(a0_) => un(Val::I(-13), vec![a0_.to_val()]), Self::V2(a0_, a1_) => un(Val::I(24), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1(x(l_, 0)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum ISparse4 { V0, V1(String), V2(i16, u64), V3(u64, bool, char) }
impl serde_xdr::XdrIndexer for ISparse4 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { -50 => Ok("V0"), -13 => Ok("V1"), 24 => Ok("V2"), 61 => Ok("V3"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => -50, Self::V1{..} => -13, Self::V2{..} => 24, Self::V3{..} => 61,  } }
}
impl Model for ISparse4 {
    fn ty() -> Ty { union(Ty::I32of(vec![-50, -13, 24, 61]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![m::<u64>(), m::<bool>(), m::<char>()], ], vec![(Val::I(-50), 0), (Val::I(-13), 1), (Val::I(24), 2), (Val::I(61), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(-50), vec![]), Self::V1(a0_) => un(Val::I(-13), vec![a0_.to_val()]), Self::V2(a0_, a1_) => un(Val::I(24), vec![a0_.to_val(), a1_.to_val()]), Self::V3(a0_, a1_, a2_) => un(Val::I(61), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1(x(l_, 0)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum ISparse7 { V0, V1(String), V2(i16, u64), V3(u64, bool, char), V4, V5(char), V6(u8, String) }
impl serde_xdr::XdrIndexer for ISparse7 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { -50 => Ok("V0"), -13 => Ok("V1"), 24 => Ok("V2"), 61 => Ok("V3"), 98 => Ok("V4"), 135 => Ok("V5"), 172 => Ok("V6"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => -50, Self::V1{..} => -13, Self::V2{..} => 24, Self::V3{..} => 61, Self::V4{..} => 98, Self::V5{..} => 135, Self::V6{..} => 172,  } }
}
impl Model for ISparse7 {
    fn ty() -> Ty { union(Ty::I32of(vec![-50, -13, 24, 61, 98, 135, 172]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![m::<u64>(), m::<bool>(), m::<char>()], vec![], vec![m::<char>()], vec![m::<u8>(), m::<String>()], ], vec![(Val::I(-50), 0), (Val::I(-13), 1), (Val::I(24), 2), (Val::I(61), 3), (Val::I(98), 4), (Val::I(135), 5), (Val::I(172), 6), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(-50), vec![]), Self::V1(a0_) => un(Val::I(-13), vec![a0_.to_val()]), Self::V2(a0_, a1_) => un(Val::I(24), vec![a0_.to_val(), a1_.to_val()]), Self::V3(a0_, a1_, a2_) => un(Val::I(61), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V4 => un(Val::I(98), vec![]), Self::V5(a0_) => un(Val::I(135), vec![a0_.to_val()]), Self::V6(a0_, a1_) => un(Val::I(172), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1(x(l_, 0)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 4 => Self::V4, 5 => Self::V5(x(l_, 0)?), 6 => Self::V6(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum ISparse12 { V0, V1(String), V2(i16, u64), V3(u64, bool, char), V4, V5(char), V6(u8, String), V7(String, i16, u64), V8, V9(u64), V10(bool, char), V11(char, u8, String) }
impl serde_xdr::XdrIndexer for ISparse12 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { -50 => Ok("V0"), -13 => Ok("V1"), 24 => Ok("V2"), 61 => Ok("V3"), 98 => Ok("V4"), 135 => Ok("V5"), 172 => Ok("V6"), 209 => Ok("V7"), 246 => Ok("V8"), 283 => Ok("V9"), 320 => Ok("V10"), 357 => Ok("V11"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => -50, Self::V1{..} => -13, Self::V2{..} => 24, Self::V3{..} => 61, Self::V4{..} => 98, Self::V5{..} => 135, Self::V6{..} => 172, Self::V7{..} => 209, Self::V8{..} => 246, Self::V9{..} => 283, Self::V10{..} => 320, Self::V11{..} => 357,  } }
}
impl Model for ISparse12 {
    fn ty() -> Ty { union(Ty::I32of(vec![-50, -13, 24, 61, 98, 135, 172, 209, 246, 283, 320, 357]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![m::<u64>(), m::<bool>(), m::<char>()], vec![], vec![m::<char>()], vec![m::<u8>(), m::<String>()], vec![m::<String>(), m::<i16>(), m::<u64>()], vec![], vec![m::<u64>()], vec![m::<bool>(), m::<char>()], vec![m::<char>(), m::<u8>(), m::<String>()], ], vec![(Val::I(-50), 0), (Val::I(-13), 1), (Val::I(24), 2), (Val::I(61), 3), (Val::I(98), 4), (Val::I(135), 5), (Val::I(172), 6), (Val::I(209), 7), (Val::I(246), 8), (Val::I(283), 9), (Val::I(320), 10), (Val::I(357), 11), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(-50), vec![]), Self::V1(a0_) => un(Val::I(-13), vec![a0_.to_val()]), Self::V2(a0_, a1_) => un(Val::I(24), vec![a0_.to_val(), a1_.to_val()]), Self::V3(a0_, a1_, a2_) => un(Val::I(61), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V4 => un(Val::I(98), vec![]), Self::V5(a0_) => un(Val::I(135), vec![a0_.to_val()]), Self::V6(a0_, a1_) => un(Val::I(172), vec![a0_.to_val(), a1_.to_val()]), Self::V7(a0_, a1_, a2_) => un(Val::I(209), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V8 => un(Val::I(246), vec![]), Self::V9(a0_) => un(Val::I(283), vec![a0_.to_val()]), Self::V10(a0_, a1_) => un(Val::I(320), vec![a0_.to_val(), a1_.to_val()]), Self::V11(a0_, a1_, a2_) => un(Val::I(357), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1(x(l_, 0)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 4 => Self::V4, 5 => Self::V5(x(l_, 0)?), 6 => Self::V6(x(l_, 0)?, x(l_, 1)?), 7 => Self::V7(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 8 => Self::V8, 9 => Self::V9(x(l_, 0)?), 10 => Self::V10(x(l_, 0)?, x(l_, 1)?), 11 => Self::V11(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IEnds1 { V0 }
impl serde_xdr::XdrIndexer for IEnds1 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 2147483647 => Ok("V0"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 2147483647,  } }
}
impl Model for IEnds1 {
    fn ty() -> Ty { union(Ty::I32of(vec![2147483647]), vec![vec![], ], vec![(Val::I(2147483647), 0), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(2147483647), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IEnds2 { V0, V1(String) }
impl serde_xdr::XdrIndexer for IEnds2 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 2147483647 => Ok("V0"), -2147483648 => Ok("V1"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 2147483647, Self::V1{..} => -2147483648,  } }
}
impl Model for IEnds2 {
    fn ty() -> Ty { union(Ty::I32of(vec![2147483647, -2147483648]), vec![vec![], vec![m::<String>()], ], vec![(Val::I(2147483647), 0), (Val::I(-2147483648), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(2147483647), vec![]), Self::V1(a0_) => un(Val::I(-2147483648), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1(x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IEnds3 { V0, V1(String), V2(i16, u64) }
impl serde_xdr::XdrIndexer for IEnds3 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 2147483647 => Ok("V0"), -2147483648 => Ok("V1"), 2147483646 => Ok("V2"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 2147483647, Self::V1{..} => -2147483648, Self::V2{..} => 2147483646,  } }
}
impl Model for IEnds3 {
    fn ty() -> Ty { union(Ty::I32of(vec![2147483647, -2147483648, 2147483646]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], ], vec![(Val::I(2147483647), 0), (Val::I(-2147483648), 1), (Val::I(2147483646), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(2147483647), vec![]), Self::V1(a0_) => un(Val::I(-2147483648), vec![a0_.to_val()]), Self::V2(a0_, a1_) => un(Val::I(2147483646), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1(x(l_, 0)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IEnds4 { V0, V1(String), V2(i16, u64), V3(u64, bool, char) }
impl serde_xdr::XdrIndexer for IEnds4 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 2147483647 => Ok("V0"), -2147483648 => Ok("V1"), 2147483646 => Ok("V2"), -2147483647 => Ok("V3"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 2147483647, Self::V1{..} => -2147483648, Self::V2{..} => 2147483646, Self::V3{..} => -2147483647,  } }
}
impl Model for IEnds4 {
    fn ty() -> Ty { union(Ty::I32of(vec![2147483647, -2147483648, 2147483646, -2147483647]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![m::<u64>(), m::<bool>(), m::<char>()], ], vec![(Val::I(2147483647), 0), (Val::I(-2147483648), 1), (Val::I(2147483646), 2), (Val::I(-2147483647), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(2147483647), vec![]), Self::V1(a0_) => un(Val::I(-2147483648), vec![a0_.to_val()]), Self::V2(a0_, a1_) => un(Val::I(2147483646), vec![a0_.to_val(), a1_.to_val()]), Self::V3(a0_, a1_, a2_) => un(Val::I(-2147483647), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1(x(l_, 0)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IEnds7 { V0, V1(String), V2(i16, u64), V3(u64, bool, char), V4, V5(char), V6(u8, String) }
impl serde_xdr::XdrIndexer for IEnds7 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 2147483647 => Ok("V0"), -2147483648 => Ok("V1"), 2147483646 => Ok("V2"), -2147483647 => Ok("V3"), 2147483645 => Ok("V4"), -2147483646 => Ok("V5"), 2147483644 => Ok("V6"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 2147483647, Self::V1{..} => -2147483648, Self::V2{..} => 2147483646, Self::V3{..} => -2147483647, Self::V4{..} => 2147483645, Self::V5{..} => -2147483646, Self::V6{..} => 2147483644,  } }
}
impl Model for IEnds7 {
    fn ty() -> Ty { union(Ty::I32of(vec![2147483647, -2147483648, 2147483646, -2147483647, 2147483645, -2147483646, 2147483644]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![m::<u64>(), m::<bool>(), m::<char>()], vec![], vec![m::<char>()], vec![m::<u8>(), m::<String>()], ], vec![(Val::I(2147483647), 0), (Val::I(-2147483648), 1), (Val::I(2147483646), 2), (Val::I(-2147483647), 3), (Val::I(2147483645), 4), (Val::I(-2147483646), 5), (Val::I(2147483644), 6), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(2147483647), vec![]), Self::V1(a0_) => un(Val::I(-2147483648), vec![a0_.to_val()]), Self::V2(a0_, a1_) => un(Val::I(2147483646), vec![a0_.to_val(), a1_.to_val()]), Self::V3(a0_, a1_, a2_) => un(Val::I(-2147483647), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V4 => un(Val::I(2147483645), vec![]), Self::V5(a0_) => un(Val::I(-2147483646), vec![a0_.to_val()]), Self::V6(a0_, a1_) => un(Val::I(2147483644), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1(x(l_, 0)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 4 => Self::V4, 5 => Self::V5(x(l_, 0)?), 6 => Self::V6(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IEnds12 { V0, V1(String), V2(i16, u64), V3(u64, bool, char), V4, V5(char), V6(u8, String), V7(String, i16, u64), V8, V9(u64), V10(bool, char), V11(char, u8, String) }
impl serde_xdr::XdrIndexer for IEnds12 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 2147483647 => Ok("V0"), -2147483648 => Ok("V1"), 2147483646 => Ok("V2"), -2147483647 => Ok("V3"), 2147483645 => Ok("V4"), -2147483646 => Ok("V5"), 2147483644 => Ok("V6"), -2147483645 => Ok("V7"), 2147483643 => Ok("V8"), -2147483644 => Ok("V9"), 2147483642 => Ok("V10"), -2147483643 => Ok("V11"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 2147483647, Self::V1{..} => -2147483648, Self::V2{..} => 2147483646, Self::V3{..} => -2147483647, Self::V4{..} => 2147483645, Self::V5{..} => -2147483646, Self::V6{..} => 2147483644, Self::V7{..} => -2147483645, Self::V8{..} => 2147483643, Self::V9{..} => -2147483644, Self::V10{..} => 2147483642, Self::V11{..} => -2147483643,  } }
}
impl Model for IEnds12 {
    fn ty() -> Ty { union(Ty::I32of(vec![2147483647, -2147483648, 2147483646, -2147483647, 2147483645, -2147483646, 2147483644, -2147483645, 2147483643, -2147483644, 2147483642, -2147483643]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![m::<u64>(), m::<bool>(), m::<char>()], vec![], vec![m::<char>()], vec![m::<u8>(), m::<String>()], vec![m::<String>(), m::<i16>(), m::<u64>()], vec![], vec![m::<u64>()], vec![m::<bool>(), m::<char>()], vec![m::<char>(), m::<u8>(), m::<String>()], ], vec![(Val::I(2147483647), 0), (Val::I(-2147483648), 1), (Val::I(2147483646), 2), (Val::I(-2147483647), 3), (Val::I(2147483645), 4), (Val::I(-2147483646), 5), (Val::I(2147483644), 6), (Val::I(-2147483645), 7), (Val::I(2147483643), 8), (Val::I(-2147483644), 9), (Val::I(2147483642), 10), (Val::I(-2147483643), 11), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(2147483647), vec![]), Self::V1(a0_) => un(Val::I(-2147483648), vec![a0_.to_val()]), Self::V2(a0_, a1_) => un(Val::I(2147483646), vec![a0_.to_val(), a1_.to_val()]), Self::V3(a0_, a1_, a2_) => un(Val::I(-2147483647), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V4 => un(Val::I(2147483645), vec![]), Self::V5(a0_) => un(Val::I(-2147483646), vec![a0_.to_val()]), Self::V6(a0_, a1_) => un(Val::I(2147483644), vec![a0_.to_val(), a1_.to_val()]), Self::V7(a0_, a1_, a2_) => un(Val::I(-2147483645), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V8 => un(Val::I(2147483643), vec![]), Self::V9(a0_) => un(Val::I(-2147483644), vec![a0_.to_val()]), Self::V10(a0_, a1_) => un(Val::I(2147483642), vec![a0_.to_val(), a1_.to_val()]), Self::V11(a0_, a1_, a2_) => un(Val::I(-2147483643), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1(x(l_, 0)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 4 => Self::V4, 5 => Self::V5(x(l_, 0)?), 6 => Self::V6(x(l_, 0)?, x(l_, 1)?), 7 => Self::V7(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 8 => Self::V8, 9 => Self::V9(x(l_, 0)?), 10 => Self::V10(x(l_, 0)?, x(l_, 1)?), 11 => Self::V11(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IWrap1 { V0 }
impl serde_xdr::XdrIndexer for IWrap1 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0,  } }
}
impl Model for IWrap1 {
    fn ty() -> Ty { union(Ty::I32of(vec![0]), vec![vec![], ], vec![(Val::I(0), 0), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(0), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IWrap2 { V0, V1(String) }
impl serde_xdr::XdrIndexer for IWrap2 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), 256 => Ok("V1"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0, Self::V1{..} => 256,  } }
}
impl Model for IWrap2 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 256]), vec![vec![], vec![m::<String>()], ], vec![(Val::I(0), 0), (Val::I(256), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(0), vec![]), Self::V1(a0_) => un(Val::I(256), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1(x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IWrap3 { V0, V1(String), V2(i16, u64) }
impl serde_xdr::XdrIndexer for IWrap3 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), 256 => Ok("V1"), 65536 => Ok("V2"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0, Self::V1{..} => 256, Self::V2{..} => 65536,  } }
}
impl Model for IWrap3 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 256, 65536]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], ], vec![(Val::I(0), 0), (Val::I(256), 1), (Val::I(65536), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(0), vec![]), Self::V1(a0_) => un(Val::I(256), vec![a0_.to_val()]), Self::V2(a0_, a1_) => un(Val::I(65536), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1(x(l_, 0)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IWrap4 { V0, V1(String), V2(i16, u64), V3(u64, bool, char) }
impl serde_xdr::XdrIndexer for IWrap4 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), 256 => Ok("V1"), 65536 => Ok("V2"), 16777216 => Ok("V3"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0, Self::V1{..} => 256, Self::V2{..} => 65536, Self::V3{..} => 16777216,  } }
}
impl Model for IWrap4 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 256, 65536, 16777216]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![m::<u64>(), m::<bool>(), m::<char>()], ], vec![(Val::I(0), 0), (Val::I(256), 1), (Val::I(65536), 2), (Val::I(16777216), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(0), vec![]), Self::V1(a0_) => un(Val::I(256), vec![a0_.to_val()]), Self::V2(a0_, a1_) => un(Val::I(65536), vec![a0_.to_val(), a1_.to_val()]), Self::V3(a0_, a1_, a2_) => un(Val::I(16777216), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1(x(l_, 0)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IWrap7 { V0, V1(String), V2(i16, u64), V3(u64, bool, char), V4, V5(char), V6(u8, String) }
impl serde_xdr::XdrIndexer for IWrap7 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), 256 => Ok("V1"), 65536 => Ok("V2"), 16777216 => Ok("V3"), -256 => Ok("V4"), -65536 => Ok("V5"), 1 => Ok("V6"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0, Self::V1{..} => 256, Self::V2{..} => 65536, Self::V3{..} => 16777216, Self::V4{..} => -256, Self::V5{..} => -65536, Self::V6{..} => 1,  } }
}
impl Model for IWrap7 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 256, 65536, 16777216, -256, -65536, 1]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![m::<u64>(), m::<bool>(), m::<char>()], vec![], vec![m::<char>()], vec![m::<u8>(), m::<String>()], ], vec![(Val::I(0), 0), (Val::I(256), 1), (Val::I(65536), 2), (Val::I(16777216), 3), (Val::I(-256), 4), (Val::I(-65536), 5), (Val::I(1), 6), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(0), vec![]), Self::V1(a0_) => un(Val::I(256), vec![a0_.to_val()]), Self::V2(a0_, a1_) => un(Val::I(65536), vec![a0_.to_val(), a1_.to_val()]), Self::V3(a0_, a1_, a2_) => un(Val::I(16777216), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V4 => un(Val::I(-256), vec![]), Self::V5(a0_) => un(Val::I(-65536), vec![a0_.to_val()]), Self::V6(a0_, a1_) => un(Val::I(1), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1(x(l_, 0)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 4 => Self::V4, 5 => Self::V5(x(l_, 0)?), 6 => Self::V6(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IWrap12 { V0, V1(String), V2(i16, u64), V3(u64, bool, char), V4, V5(char), V6(u8, String), V7(String, i16, u64), V8, V9(u64), V10(bool, char), V11(char, u8, String) }
impl serde_xdr::XdrIndexer for IWrap12 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), 256 => Ok("V1"), 65536 => Ok("V2"), 16777216 => Ok("V3"), -256 => Ok("V4"), -65536 => Ok("V5"), 1 => Ok("V6"), 257 => Ok("V7"), 65537 => Ok("V8"), -255 => Ok("V9"), 2 => Ok("V10"), 258 => Ok("V11"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0, Self::V1{..} => 256, Self::V2{..} => 65536, Self::V3{..} => 16777216, Self::V4{..} => -256, Self::V5{..} => -65536, Self::V6{..} => 1, Self::V7{..} => 257, Self::V8{..} => 65537, Self::V9{..} => -255, Self::V10{..} => 2, Self::V11{..} => 258,  } }
}
impl Model for IWrap12 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 256, 65536, 16777216, -256, -65536, 1, 257, 65537, -255, 2, 258]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![m::<u64>(), m::<bool>(), m::<char>()], vec![], vec![m::<char>()], vec![m::<u8>(), m::<String>()], vec![m::<String>(), m::<i16>(), m::<u64>()], vec![], vec![m::<u64>()], vec![m::<bool>(), m::<char>()], vec![m::<char>(), m::<u8>(), m::<String>()], ], vec![(Val::I(0), 0), (Val::I(256), 1), (Val::I(65536), 2), (Val::I(16777216), 3), (Val::I(-256), 4), (Val::I(-65536), 5), (Val::I(1), 6), (Val::I(257), 7), (Val::I(65537), 8), (Val::I(-255), 9), (Val::I(2), 10), (Val::I(258), 11), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(0), vec![]), Self::V1(a0_) => un(Val::I(256), vec![a0_.to_val()]), Self::V2(a0_, a1_) => un(Val::I(65536), vec![a0_.to_val(), a1_.to_val()]), Self::V3(a0_, a1_, a2_) => un(Val::I(16777216), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V4 => un(Val::I(-256), vec![]), Self::V5(a0_) => un(Val::I(-65536), vec![a0_.to_val()]), Self::V6(a0_, a1_) => un(Val::I(1), vec![a0_.to_val(), a1_.to_val()]), Self::V7(a0_, a1_, a2_) => un(Val::I(257), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V8 => un(Val::I(65537), vec![]), Self::V9(a0_) => un(Val::I(-255), vec![a0_.to_val()]), Self::V10(a0_, a1_) => un(Val::I(2), vec![a0_.to_val(), a1_.to_val()]), Self::V11(a0_, a1_, a2_) => un(Val::I(258), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1(x(l_, 0)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 4 => Self::V4, 5 => Self::V5(x(l_, 0)?), 6 => Self::V6(x(l_, 0)?, x(l_, 1)?), 7 => Self::V7(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 8 => Self::V8, 9 => Self::V9(x(l_, 0)?), 10 => Self::V10(x(l_, 0)?, x(l_, 1)?), 11 => Self::V11(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IMany26 { V0, V1(String), V2(i16, u64), V3, V4(bool), V5(char, u8), V6, V7(String), V8(i16, u64), V9, V10(bool), V11(char, u8), V12, V13(String), V14(i16, u64), V15, V16(bool), V17(char, u8), V18, V19(String), V20(i16, u64), V21, V22(bool), V23(char, u8), V24, V25(String) }
impl serde_xdr::XdrIndexer for IMany26 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { -200 => Ok("V0"), -197 => Ok("V1"), -194 => Ok("V2"), -191 => Ok("V3"), -188 => Ok("V4"), -185 => Ok("V5"), -182 => Ok("V6"), -179 => Ok("V7"), -176 => Ok("V8"), -173 => Ok("V9"), -170 => Ok("V10"), -167 => Ok("V11"), -164 => Ok("V12"), -161 => Ok("V13"), -158 => Ok("V14"), -155 => Ok("V15"), -152 => Ok("V16"), -149 => Ok("V17"), -146 => Ok("V18"), -143 => Ok("V19"), -140 => Ok("V20"), -137 => Ok("V21"), -134 => Ok("V22"), -131 => Ok("V23"), -128 => Ok("V24"), -125 => Ok("V25"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => -200, Self::V1{..} => -197, Self::V2{..} => -194, Self::V3{..} => -191, Self::V4{..} => -188, Self::V5{..} => -185, Self::V6{..} => -182, Self::V7{..} => -179, Self::V8{..} => -176, Self::V9{..} => -173, Self::V10{..} => -170, Self::V11{..} => -167, Self::V12{..} => -164, Self::V13{..} => -161, Self::V14{..} => -158, Self::V15{..} => -155, Self::V16{..} => -152, Self::V17{..} => -149, Self::V18{..} => -146, Self::V19{..} => -143, Self::V20{..} => -140, Self::V21{..} => -137, Self::V22{..} => -134, Self::V23{..} => -131, Self::V24{..} => -128, Self::V25{..} => -125,  } }
}
impl Model for IMany26 {
    fn ty() -> Ty { union(Ty::I32of(vec![-200, -197, -194, -191, -188, -185, -182, -179, -176, -173, -170, -167, -164, -161, -158, -155, -152, -149, -146, -143, -140, -137, -134, -131, -128, -125]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], ], vec![(Val::I(-200), 0), (Val::I(-197), 1), (Val::I(-194), 2), (Val::I(-191), 3), (Val::I(-188), 4), (Val::I(-185), 5), (Val::I(-182), 6), (Val::I(-179), 7), (Val::I(-176), 8), (Val::I(-173), 9), (Val::I(-170), 10), (Val::I(-167), 11), (Val::I(-164), 12), (Val::I(-161), 13), (Val::I(-158), 14), (Val::I(-155), 15), (Val::I(-152), 16), (Val::I(-149), 17), (Val::I(-146), 18), (Val::I(-143), 19), (Val::I(-140), 20), (Val::I(-137), 21), (Val::I(-134), 22), (Val::I(-131), 23), (Val::I(-128), 24), (Val::I(-125), 25), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(-200), vec![]), Self::V1(a0_) => un(Val::I(-197), vec![a0_.to_val()]), Self::V2(a0_, a1_) => un(Val::I(-194), vec![a0_.to_val(), a1_.to_val()]), Self::V3 => un(Val::I(-191), vec![]), Self::V4(a0_) => un(Val::I(-188), vec![a0_.to_val()]), Self::V5(a0_, a1_) => un(Val::I(-185), vec![a0_.to_val(), a1_.to_val()]), Self::V6 => un(Val::I(-182), vec![]), Self::V7(a0_) => un(Val::I(-179), vec![a0_.to_val()]), Self::V8(a0_, a1_) => un(Val::I(-176), vec![a0_.to_val(), a1_.to_val()]), Self::V9 => un(Val::I(-173), vec![]), Self::V10(a0_) => un(Val::I(-170), vec![a0_.to_val()]), Self::V11(a0_, a1_) => un(Val::I(-167), vec![a0_.to_val(), a1_.to_val()]), Self::V12 => un(Val::I(-164), vec![]), Self::V13(a0_) => un(Val::I(-161), vec![a0_.to_val()]), Self::V14(a0_, a1_) => un(Val::I(-158), vec![a0_.to_val(), a1_.to_val()]), Self::V15 => un(Val::I(-155), vec![]), Self::V16(a0_) => un(Val::I(-152), vec![a0_.to_val()]), Self::V17(a0_, a1_) => un(Val::I(-149), vec![a0_.to_val(), a1_.to_val()]), Self::V18 => un(Val::I(-146), vec![]), Self::V19(a0_) => un(Val::I(-143), vec![a0_.to_val()]), Self::V20(a0_, a1_) => un(Val::I(-140), vec![a0_.to_val(), a1_.to_val()]), Self::V21 => un(Val::I(-137), vec![]), Self::V22(a0_) => un(Val::I(-134), vec![a0_.to_val()]), Self::V23(a0_, a1_) => un(Val::I(-131), vec![a0_.to_val(), a1_.to_val()]), Self::V24 => un(Val::I(-128), vec![]), Self::V25(a0_) => un(Val::I(-125), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1(x(l_, 0)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?), 3 => Self::V3, 4 => Self::V4(x(l_, 0)?), 5 => Self::V5(x(l_, 0)?, x(l_, 1)?), 6 => Self::V6, 7 => Self::V7(x(l_, 0)?), 8 => Self::V8(x(l_, 0)?, x(l_, 1)?), 9 => Self::V9, 10 => Self::V10(x(l_, 0)?), 11 => Self::V11(x(l_, 0)?, x(l_, 1)?), 12 => Self::V12, 13 => Self::V13(x(l_, 0)?), 14 => Self::V14(x(l_, 0)?, x(l_, 1)?), 15 => Self::V15, 16 => Self::V16(x(l_, 0)?), 17 => Self::V17(x(l_, 0)?, x(l_, 1)?), 18 => Self::V18, 19 => Self::V19(x(l_, 0)?), 20 => Self::V20(x(l_, 0)?, x(l_, 1)?), 21 => Self::V21, 22 => Self::V22(x(l_, 0)?), 23 => Self::V23(x(l_, 0)?, x(l_, 1)?), 24 => Self::V24, 25 => Self::V25(x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IMany27 { V0, V1(String), V2(i16, u64), V3, V4(bool), V5(char, u8), V6, V7(String), V8(i16, u64), V9, V10(bool), V11(char, u8), V12, V13(String), V14(i16, u64), V15, V16(bool), V17(char, u8), V18, V19(String), V20(i16, u64), V21, V22(bool), V23(char, u8), V24, V25(String), V26(i16, u64) }
impl serde_xdr::XdrIndexer for IMany27 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { -200 => Ok("V0"), -197 => Ok("V1"), -194 => Ok("V2"), -191 => Ok("V3"), -188 => Ok("V4"), -185 => Ok("V5"), -182 => Ok("V6"), -179 => Ok("V7"), -176 => Ok("V8"), -173 => Ok("V9"), -170 => Ok("V10"), -167 => Ok("V11"), -164 => Ok("V12"), -161 => Ok("V13"), -158 => Ok("V14"), -155 => Ok("V15"), -152 => Ok("V16"), -149 => Ok("V17"), -146 => Ok("V18"), -143 => Ok("V19"), -140 => Ok("V20"), -137 => Ok("V21"), -134 => Ok("V22"), -131 => Ok("V23"), -128 => Ok("V24"), -125 => Ok("V25"), -122 => Ok("V26"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => -200, Self::V1{..} => -197, Self::V2{..} => -194, Self::V3{..} => -191, Self::V4{..} => -188, Self::V5{..} => -185, Self::V6{..} => -182, Self::V7{..} => -179, Self::V8{..} => -176, Self::V9{..} => -173, Self::V10{..} => -170, Self::V11{..} => -167, Self::V12{..} => -164, Self::V13{..} => -161, Self::V14{..} => -158, Self::V15{..} => -155, Self::V16{..} => -152, Self::V17{..} => -149, Self::V18{..} => -146, Self::V19{..} => -143, Self::V20{..} => -140, Self::V21{..} => -137, Self::V22{..} => -134, Self::V23{..} => -131, Self::V24{..} => -128, Self::V25{..} => -125, Self::V26{..} => -122,  } }
}
impl Model for IMany27 {
    fn ty() -> Ty { union(Ty::I32of(vec![-200, -197, -194, -191, -188, -185, -182, -179, -176, -173, -170, -167, -164, -161, -158, -155, -152, -149, -146, -143, -140, -137, -134, -131, -128, -125, -122]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], ], vec![(Val::I(-200), 0), (Val::I(-197), 1), (Val::I(-194), 2), (Val::I(-191), 3), (Val::I(-188), 4), (Val::I(-185), 5), (Val::I(-182), 6), (Val::I(-179), 7), (Val::I(-176), 8), (Val::I(-173), 9), (Val::I(-170), 10), (Val::I(-167), 11), (Val::I(-164), 12), (Val::I(-161), 13), (Val::I(-158), 14), (Val::I(-155), 15), (Val::I(-152), 16), (Val::I(-149), 17), (Val::I(-146), 18), (Val::I(-143), 19), (Val::I(-140), 20), (Val::I(-137), 21), (Val::I(-134), 22), (Val::I(-131), 23), (Val::I(-128), 24), (Val::I(-125), 25), (Val::I(-122), 26), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(-200), vec![]), Self::V1(a0_) => un(Val::I(-197), vec![a0_.to_val()]), Self::V2(a0_, a1_) => un(Val::I(-194), vec![a0_.to_val(), a1_.to_val()]), Self::V3 => un(Val::I(-191), vec![]), Self::V4(a0_) => un(Val::I(-188), vec![a0_.to_val()]), Self::V5(a0_, a1_) => un(Val::I(-185), vec![a0_.to_val(), a1_.to_val()]), Self::V6 => un(Val::I(-182), vec![]), Self::V7(a0_) => un(Val::I(-179), vec![a0_.to_val()]), Self::V8(a0_, a1_) => un(Val::I(-176), vec![a0_.to_val(), a1_.to_val()]), Self::V9 => un(Val::I(-173), vec![]), Self::V10(a0_) => un(Val::I(-170), vec![a0_.to_val()]), Self::V11(a0_, a1_) => un(Val::I(-167), vec![a0_.to_val(), a1_.to_val()]), Self::V12 => un(Val::I(-164), vec![]), Self::V13(a0_) => un(Val::I(-161), vec![a0_.to_val()]), Self::V14(a0_, a1_) => un(Val::I(-158), vec![a0_.to_val(), a1_.to_val()]), Self::V15 => un(Val::I(-155), vec![]), Self::V16(a0_) => un(Val::I(-152), vec![a0_.to_val()]), Self::V17(a0_, a1_) => un(Val::I(-149), vec![a0_.to_val(), a1_.to_val()]), Self::V18 => un(Val::I(-146), vec![]), Self::V19(a0_) => un(Val::I(-143), vec![a0_.to_val()]), Self::V20(a0_, a1_) => un(Val::I(-140), vec![a0_.to_val(), a1_.to_val()]), Self::V21 => un(Val::I(-137), vec![]), Self::V22(a0_) => un(Val::I(-134), vec![a0_.to_val()]), Self::V23(a0_, a1_) => un(Val::I(-131), vec![a0_.to_val(), a1_.to_val()]), Self::V24 => un(Val::I(-128), vec![]), Self::V25(a0_) => un(Val::I(-125), vec![a0_.to_val()]), Self::V26(a0_, a1_) => un(Val::I(-122), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1(x(l_, 0)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?), 3 => Self::V3, 4 => Self::V4(x(l_, 0)?), 5 => Self::V5(x(l_, 0)?, x(l_, 1)?), 6 => Self::V6, 7 => Self::V7(x(l_, 0)?), 8 => Self::V8(x(l_, 0)?, x(l_, 1)?), 9 => Self::V9, 10 => Self::V10(x(l_, 0)?), 11 => Self::V11(x(l_, 0)?, x(l_, 1)?), 12 => Self::V12, 13 => Self::V13(x(l_, 0)?), 14 => Self::V14(x(l_, 0)?, x(l_, 1)?), 15 => Self::V15, 16 => Self::V16(x(l_, 0)?), 17 => Self::V17(x(l_, 0)?, x(l_, 1)?), 18 => Self::V18, 19 => Self::V19(x(l_, 0)?), 20 => Self::V20(x(l_, 0)?, x(l_, 1)?), 21 => Self::V21, 22 => Self::V22(x(l_, 0)?), 23 => Self::V23(x(l_, 0)?, x(l_, 1)?), 24 => Self::V24, 25 => Self::V25(x(l_, 0)?), 26 => Self::V26(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IMany40 { V0, V1(String), V2(i16, u64), V3, V4(bool), V5(char, u8), V6, V7(String), V8(i16, u64), V9, V10(bool), V11(char, u8), V12, V13(String), V14(i16, u64), V15, V16(bool), V17(char, u8), V18, V19(String), V20(i16, u64), V21, V22(bool), V23(char, u8), V24, V25(String), V26(i16, u64), V27, V28(bool), V29(char, u8), V30, V31(String), V32(i16, u64), V33, V34(bool), V35(char, u8), V36, V37(String), V38(i16, u64), V39 }
impl serde_xdr::XdrIndexer for IMany40 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { -200 => Ok("V0"), -197 => Ok("V1"), -194 => Ok("V2"), -191 => Ok("V3"), -188 => Ok("V4"), -185 => Ok("V5"), -182 => Ok("V6"), -179 => Ok("V7"), -176 => Ok("V8"), -173 => Ok("V9"), -170 => Ok("V10"), -167 => Ok("V11"), -164 => Ok("V12"), -161 => Ok("V13"), -158 => Ok("V14"), -155 => Ok("V15"), -152 => Ok("V16"), -149 => Ok("V17"), -146 => Ok("V18"), -143 => Ok("V19"), -140 => Ok("V20"), -137 => Ok("V21"), -134 => Ok("V22"), -131 => Ok("V23"), -128 => Ok("V24"), -125 => Ok("V25"), -122 => Ok("V26"), -119 => Ok("V27"), -116 => Ok("V28"), -113 => Ok("V29"), -110 => Ok("V30"), -107 => Ok("V31"), -104 => Ok("V32"), -101 => Ok("V33"), -98 => Ok("V34"), -95 => Ok("V35"), -92 => Ok("V36"), -89 => Ok("V37"), -86 => Ok("V38"), -83 => Ok("V39"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => -200, Self::V1{..} => -197, Self::V2{..} => -194, Self::V3{..} => -191, Self::V4{..} => -188, Self::V5{..} => -185, Self::V6{..} => -182, Self::V7{..} => -179, Self::V8{..} => -176, Self::V9{..} => -173, Self::V10{..} => -170, Self::V11{..} => -167, Self::V12{..} => -164, Self::V13{..} => -161, Self::V14{..} => -158, Self::V15{..} => -155, Self::V16{..} => -152, Self::V17{..} => -149, Self::V18{..} => -146, Self::V19{..} => -143, Self::V20{..} => -140, Self::V21{..} => -137, Self::V22{..} => -134, Self::V23{..} => -131, Self::V24{..} => -128, Self::V25{..} => -125, Self::V26{..} => -122, Self::V27{..} => -119, Self::V28{..} => -116, Self::V29{..} => -113, Self::V30{..} => -110, Self::V31{..} => -107, Self::V32{..} => -104, Self::V33{..} => -101, Self::V34{..} => -98, Self::V35{..} => -95, Self::V36{..} => -92, Self::V37{..} => -89, Self::V38{..} => -86, Self::V39{..} => -83,  } }
}
impl Model for IMany40 {
    fn ty() -> Ty { union(Ty::I32of(vec![-200, -197, -194, -191, -188, -185, -182, -179, -176, -173, -170, -167, -164, -161, -158, -155, -152, -149, -146, -143, -140, -137, -134, -131, -128, -125, -122, -119, -116, -113, -110, -107, -104, -101, -98, -95, -92, -89, -86, -83]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], ], vec![(Val::I(-200), 0), (Val::I(-197), 1), (Val::I(-194), 2), (Val::I(-191), 3), (Val::I(-188), 4), (Val::I(-185), 5), (Val::I(-182), 6), (Val::I(-179), 7), (Val::I(-176), 8), (Val::I(-173), 9), (Val::I(-170), 10), (Val::I(-167), 11), (Val::I(-164), 12), (Val::I(-161), 13), (Val::I(-158), 14), (Val::I(-155), 15), (Val::I(-152), 16), (Val::I(-149), 17), (Val::I(-146), 18), (Val::I(-143), 19), (Val::I(-140), 20), (Val::I(-137), 21), (Val::I(-134), 22), (Val::I(-131), 23), (Val::I(-128), 24), (Val::I(-125), 25), (Val::I(-122), 26), (Val::I(-119), 27), (Val::I(-116), 28), (Val::I(-113), 29), (Val::I(-110), 30), (Val::I(-107), 31), (Val::I(-104), 32), (Val::I(-101), 33), (Val::I(-98), 34), (Val::I(-95), 35), (Val::I(-92), 36), (Val::I(-89), 37), (Val::I(-86), 38), (Val::I(-83), 39), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(-200), vec![]), Self::V1(a0_) => un(Val::I(-197), vec![a0_.to_val()]), Self::V2(a0_, a1_) => un(Val::I(-194), vec![a0_.to_val(), a1_.to_val()]), Self::V3 => un(Val::I(-191), vec![]), Self::V4(a0_) => un(Val::I(-188), vec![a0_.to_val()]), Self::V5(a0_, a1_) => un(Val::I(-185), vec![a0_.to_val(), a1_.to_val()]), Self::V6 => un(Val::I(-182), vec![]), Self::V7(a0_) => un(Val::I(-179), vec![a0_.to_val()]), Self::V8(a0_, a1_) => un(Val::I(-176), vec![a0_.to_val(), a1_.to_val()]), Self::V9 => un(Val::I(-173), vec![]), Self::V10(a0_) => un(Val::I(-170), vec![a0_.to_val()]), Self::V11(a0_, a1_) => un(Val::I(-167), vec![a0_.to_val(), a1_.to_val()]), Self::V12 => un(Val::I(-164), vec![]), Self::V13(a0_) => un(Val::I(-161), vec![a0_.to_val()]), Self::V14(a0_, a1_) => un(Val::I(-158), vec![a0_.to_val(), a1_.to_val()]), Self::V15 => un(Val::I(-155), vec![]), Self::V16(a0_) => un(Val::I(-152), vec![a0_.to_val()]), Self::V17(a0_, a1_) => un(Val::I(-149), vec![a0_.to_val(), a1_.to_val()]), Self::V18 => un(Val::I(-146), vec![]), Self::V19(a0_) => un(Val::I(-143), vec![a0_.to_val()]), Self::V20(a0_, a1_) => un(Val::I(-140), vec![a0_.to_val(), a1_.to_val()]), Self::V21 => un(Val::I(-137), vec![]), Self::V22(a0_) => un(Val::I(-134), vec![a0_.to_val()]), Self::V23(a0_, a1_) => un(Val::I(-131), vec![a0_.to_val(), a1_.to_val()]), Self::V24 => un(Val::I(-128), vec![]), Self::V25(a0_) => un(Val::I(-125), vec![a0_.to_val()]), Self::V26(a0_, a1_) => un(Val::I(-122), vec![a0_.to_val(), a1_.to_val()]), Self::V27 => un(Val::I(-119), vec![]), Self::V28(a0_) => un(Val::I(-116), vec![a0_.to_val()]), Self::V29(a0_, a1_) => un(Val::I(-113), vec![a0_.to_val(), a1_.to_val()]), Self::V30 => un(Val::I(-110), vec![]), Self::V31(a0_) => un(Val::I(-107), vec![a0_.to_val()]), Self::V32(a0_, a1_) => un(Val::I(-104), vec![a0_.to_val(), a1_.to_val()]), Self::V33 => un(Val::I(-101), vec![]), Self::V34(a0_) => un(Val::I(-98), vec![a0_.to_val()]), Self::V35(a0_, a1_) => un(Val::I(-95), vec![a0_.to_val(), a1_.to_val()]), Self::V36 => un(Val::I(-92), vec![]), Self::V37(a0_) => un(Val::I(-89), vec![a0_.to_val()]), Self::V38(a0_, a1_) => un(Val::I(-86), vec![a0_.to_val(), a1_.to_val()]), Self::V39 => un(Val::I(-83), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1(x(l_, 0)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?), 3 => Self::V3, 4 => Self::V4(x(l_, 0)?), 5 => Self::V5(x(l_, 0)?, x(l_, 1)?), 6 => Self::V6, 7 => Self::V7(x(l_, 0)?), 8 => Self::V8(x(l_, 0)?, x(l_, 1)?), 9 => Self::V9, 10 => Self::V10(x(l_, 0)?), 11 => Self::V11(x(l_, 0)?, x(l_, 1)?), 12 => Self::V12, 13 => Self::V13(x(l_, 0)?), 14 => Self::V14(x(l_, 0)?, x(l_, 1)?), 15 => Self::V15, 16 => Self::V16(x(l_, 0)?), 17 => Self::V17(x(l_, 0)?, x(l_, 1)?), 18 => Self::V18, 19 => Self::V19(x(l_, 0)?), 20 => Self::V20(x(l_, 0)?, x(l_, 1)?), 21 => Self::V21, 22 => Self::V22(x(l_, 0)?), 23 => Self::V23(x(l_, 0)?, x(l_, 1)?), 24 => Self::V24, 25 => Self::V25(x(l_, 0)?), 26 => Self::V26(x(l_, 0)?, x(l_, 1)?), 27 => Self::V27, 28 => Self::V28(x(l_, 0)?), 29 => Self::V29(x(l_, 0)?, x(l_, 1)?), 30 => Self::V30, 31 => Self::V31(x(l_, 0)?), 32 => Self::V32(x(l_, 0)?, x(l_, 1)?), 33 => Self::V33, 34 => Self::V34(x(l_, 0)?), 35 => Self::V35(x(l_, 0)?, x(l_, 1)?), 36 => Self::V36, 37 => Self::V37(x(l_, 0)?), 38 => Self::V38(x(l_, 0)?, x(l_, 1)?), 39 => Self::V39, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IMany130 { V0, V1(String), V2(i16, u64), V3, V4(bool), V5(char, u8), V6, V7(String), V8(i16, u64), V9, V10(bool), V11(char, u8), V12, V13(String), V14(i16, u64), V15, V16(bool), V17(char, u8), V18, V19(String), V20(i16, u64), V21, V22(bool), V23(char, u8), V24, V25(String), V26(i16, u64), V27, V28(bool), V29(char, u8), V30, V31(String), V32(i16, u64), V33, V34(bool), V35(char, u8), V36, V37(String), V38(i16, u64), V39, V40(bool), V41(char, u8), V42, V43(String), V44(i16, u64), V45, V46(bool), V47(char, u8), V48, V49(String), V50(i16, u64), V51, V52(bool), V53(char, u8), V54, V55(String), V56(i16, u64), V57, V58(bool), V59(char, u8), V60, V61(String), V62(i16, u64), V63, V64(bool), V65(char, u8), V66, V67(String), V68(i16, u64), V69, V70(bool), V71(char, u8), V72, V73(String), V74(i16, u64), V75, V76(bool), V77(char, u8), V78, V79(String), V80(i16, u64), V81, V82(bool), V83(char, u8), V84, V85(String), V86(i16, u64), V87, V88(bool), V89(char, u8), V90, V91(String), V92(i16, u64), V93, V94(bool), V95(char, u8), V96, V97(String), V98(i16, u64), V99, V100(bool), V101(char, u8), V102, V103(String), V104(i16, u64), V105, V106(bool), V107(char, u8), V108, V109(String), V110(i16, u64), V111, V112(bool), V113(char, u8), V114, V115(String), V116(i16, u64), V117, V118(bool), V119(char, u8), V120, V121(String), V122(i16, u64), V123, V124(bool), V125(char, u8), V126, V127(String), V128(i16, u64), V129 }
impl serde_xdr::XdrIndexer for IMany130 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { -200 => Ok("V0"), -197 => Ok("V1"), -194 => Ok("V2"), -191 => Ok("V3"), -188 => Ok("V4"), -185 => Ok("V5"), -182 => Ok("V6"), -179 => Ok("V7"), -176 => Ok("V8"), -173 => Ok("V9"), -170 => Ok("V10"), -167 => Ok("V11"), -164 => Ok("V12"), -161 => Ok("V13"), -158 => Ok("V14"), -155 => Ok("V15"), -152 => Ok("V16"), -149 => Ok("V17"), -146 => Ok("V18"), -143 => Ok("V19"), -140 => Ok("V20"), -137 => Ok("V21"), -134 => Ok("V22"), -131 => Ok("V23"), -128 => Ok("V24"), -125 => Ok("V25"), -122 => Ok("V26"), -119 => Ok("V27"), -116 => Ok("V28"), -113 => Ok("V29"), -110 => Ok("V30"), -107 => Ok("V31"), -104 => Ok("V32"), -101 => Ok("V33"), -98 => Ok("V34"), -95 => Ok("V35"), -92 => Ok("V36"), -89 => Ok("V37"), -86 => Ok("V38"), -83 => Ok("V39"), -80 => Ok("V40"), -77 => Ok("V41"), -74 => Ok("V42"), -71 => Ok("V43"), -68 => Ok("V44"), -65 => Ok("V45"), -62 => Ok("V46"), -59 => Ok("V47"), -56 => Ok("V48"), -53 => Ok("V49"), -50 => Ok("V50"), -47 => Ok("V51"), -44 => Ok("V52"), -41 => Ok("V53"), -38 => Ok("V54"), -35 => Ok("V55"), -32 => Ok("V56"), -29 => Ok("V57"), -26 => Ok("V58"), -23 => Ok("V59"), -20 => Ok("V60"), -17 => Ok("V61"), -14 => Ok("V62"), -11 => Ok("V63"), -8 => Ok("V64"), -5 => Ok("V65"), -2 => Ok("V66"), 1 => Ok("V67"), 4 => Ok("V68"), 7 => Ok("V69"), 10 => Ok("V70"), 13 => Ok("V71"), 16 => Ok("V72"), 19 => Ok("V73"), 22 => Ok("V74"), 25 => Ok("V75"), 28 => Ok("V76"), 31 => Ok("V77"), 34 => Ok("V78"), 37 => Ok("V79"), 40 => Ok("V80"), 43 => Ok("V81"), 46 => Ok("V82"), 49 => Ok("V83"), 52 => Ok("V84"), 55 => Ok("V85"), 58 => Ok("V86"), 61 => Ok("V87"), 64 => Ok("V88"), 67 => Ok("V89"), 70 => Ok("V90"), 73 => Ok("V91"), 76 => Ok("V92"), 79 => Ok("V93"), 82 => Ok("V94"), 85 => Ok("V95"), 88 => Ok("V96"), 91 => Ok("V97"), 94 => Ok("V98"), 97 => Ok("V99"), 100 => Ok("V100"), 103 => Ok("V101"), 106 => Ok("V102"), 109 => Ok("V103"), 112 => Ok("V104"), 115 => Ok("V105"), 118 => Ok("V106"), 121 => Ok("V107"), 124 => Ok("V108"), 127 => Ok("V109"), 130 => Ok("V110"), 133 => Ok("V111"), 136 => Ok("V112"), 139 => Ok("V113"), 142 => Ok("V114"), 145 => Ok("V115"), 148 => Ok("V116"), 151 => Ok("V117"), 154 => Ok("V118"), 157 => Ok("V119"), 160 => Ok("V120"), 163 => Ok("V121"), 166 => Ok("V122"), 169 => Ok("V123"), 172 => Ok("V124"), 175 => Ok("V125"), 178 => Ok("V126"), 181 => Ok("V127"), 184 => Ok("V128"), 187 => Ok("V129"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => -200, Self::V1{..} => -197, Self::V2{..} => -194, Self::V3{..} => -191, Self::V4{..} => -188, Self::V5{..} => -185, Self::V6{..} => -182, Self::V7{..} => -179, Self::V8{..} => -176, Self::V9{..} => -173, Self::V10{..} => -170, Self::V11{..} => -167, Self::V12{..} => -164, Self::V13{..} => -161, Self::V14{..} => -158, Self::V15{..} => -155, Self::V16{..} => -152, Self::V17{..} => -149, Self::V18{..} => -146, Self::V19{..} => -143, Self::V20{..} => -140, Self::V21{..} => -137, Self::V22{..} => -134, Self::V23{..} => -131, Self::V24{..} => -128, Self::V25{..} => -125, Self::V26{..} => -122, Self::V27{..} => -119, Self::V28{..} => -116, Self::V29{..} => -113, Self::V30{..} => -110, Self::V31{..} => -107, Self::V32{..} => -104, Self::V33{..} => -101, Self::V34{..} => -98, Self::V35{..} => -95, Self::V36{..} => -92, Self::V37{..} => -89, Self::V38{..} => -86, Self::V39{..} => -83, Self::V40{..} => -80, Self::V41{..} => -77, Self::V42{..} => -74, Self::V43{..} => -71, Self::V44{..} => -68, Self::V45{..} => -65, Self::V46{..} => -62, Self::V47{..} => -59, Self::V48{..} => -56, Self::V49{..} => -53, Self::V50{..} => -50, Self::V51{..} => -47, Self::V52{..} => -44, Self::V53{..} => -41, Self::V54{..} => -38, Self::V55{..} => -35, Self::V56{..} => -32, Self::V57{..} => -29, Self::V58{..} => -26, Self::V59{..} => -23, Self::V60{..} => -20, Self::V61{..} => -17, Self::V62{..} => -14, Self::V63{..} => -11, Self::V64{..} => -8, Self::V65{..} => -5, Self::V66{..} => -2, Self::V67{..} => 1, Self::V68{..} => 4, Self::V69{..} => 7, Self::V70{..} => 10, Self::V71{..} => 13, Self::V72{..} => 16, Self::V73{..} => 19, Self::V74{..} => 22, Self::V75{..} => 25, Self::V76{..} => 28, Self::V77{..} => 31, Self::V78{..} => 34, Self::V79{..} => 37, Self::V80{..} => 40, Self::V81{..} => 43, Self::V82{..} => 46, Self::V83{..} => 49, Self::V84{..} => 52, Self::V85{..} => 55, Self::V86{..} => 58, Self::V87{..} => 61, Self::V88{..} => 64, Self::V89{..} => 67, Self::V90{..} => 70, Self::V91{..} => 73, Self::V92{..} => 76, Self::V93{..} => 79, Self::V94{..} => 82, Self::V95{..} => 85, Self::V96{..} => 88, Self::V97{..} => 91, Self::V98{..} => 94, Self::V99{..} => 97, Self::V100{..} => 100, Self::V101{..} => 103, Self::V102{..} => 106, Self::V103{..} => 109, Self::V104{..} => 112, Self::V105{..} => 115, Self::V106{..} => 118, Self::V107{..} => 121, Self::V108{..} => 124, Self::V109{..} => 127, Self::V110{..} => 130, Self::V111{..} => 133, Self::V112{..} => 136, Self::V113{..} => 139, Self::V114{..} => 142, Self::V115{..} => 145, Self::V116{..} => 148, Self::V117{..} => 151, Self::V118{..} => 154, Self::V119{..} => 157, Self::V120{..} => 160, Self::V121{..} => 163, Self::V122{..} => 166, Self::V123{..} => 169, Self::V124{..} => 172, Self::V125{..} => 175, Self::V126{..} => 178, Self::V127{..} => 181, Self::V128{..} => 184, Self::V129{..} => 187,  } }
}
impl Model for IMany130 {
    fn ty() -> Ty { union(Ty::I32of(vec![-200, -197, -194, -191, -188, -185, -182, -179, -176, -173, -170, -167, -164, -161, -158, -155, -152, -149, -146, -143, -140, -137, -134, -131, -128, -125, -122, -119, -116, -113, -110, -107, -104, -101, -98, -95, -92, -89, -86, -83, -80, -77, -74, -71, -68, -65, -62, -59, -56, -53, -50, -47, -44, -41, -38, -35, -32, -29, -26, -23, -20, -17, -14, -11, -8, -5, -2, 1, 4, 7, 10, 13, 16, 19, 22, 25, 28, 31, 34, 37, 40, 43, 46, 49, 52, 55, 58, 61, 64, 67, 70, 73, 76, 79, 82, 85, 88, 91, 94, 97, 100, 103, 106, 109, 112, 115, 118, 121, 124, 127, 130, 133, 136, 139, 142, 145, 148, 151, 154, 157, 160, 163, 166, 169, 172, 175, 178, 181, 184, 187]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], ], vec![(Val::I(-200), 0), (Val::I(-197), 1), (Val::I(-194), 2), (Val::I(-191), 3), (Val::I(-188), 4), (Val::I(-185), 5), (Val::I(-182), 6), (Val::I(-179), 7), (Val::I(-176), 8), (Val::I(-173), 9), (Val::I(-170), 10), (Val::I(-167), 11), (Val::I(-164), 12), (Val::I(-161), 13), (Val::I(-158), 14), (Val::I(-155), 15), (Val::I(-152), 16), (Val::I(-149), 17), (Val::I(-146), 18), (Val::I(-143), 19), (Val::I(-140), 20), (Val::I(-137), 21), (Val::I(-134), 22), (Val::I(-131), 23), (Val::I(-128), 24), (Val::I(-125), 25), (Val::I(-122), 26), (Val::I(-119), 27), (Val::I(-116), 28), (Val::I(-113), 29), (Val::I(-110), 30), (Val::I(-107), 31), (Val::I(-104), 32), (Val::I(-101), 33), (Val::I(-98), 34), (Val::I(-95), 35), (Val::I(-92), 36), (Val::I(-89), 37), (Val::I(-86), 38), (Val::I(-83), 39), (Val::I(-80), 40), (Val::I(-77), 41), (Val::I(-74), 42), (Val::I(-71), 43), (Val::I(-68), 44), (Val::I(-65), 45), (Val::I(-62), 46), (Val::I(-59), 47), (Val::I(-56), 48), (Val::I(-53), 49), (Val::I(-50), 50), (Val::I(-47), 51), (Val::I(-44), 52), (Val::I(-41), 53), (Val::I(-38), 54), (Val::I(-35), 55), (Val::I(-32), 56), (Val::I(-29), 57), (Val::I(-26), 58), (Val::I(-23), 59), (Val::I(-20), 60), (Val::I(-17), 61), (Val::I(-14), 62), (Val::I(-11), 63), (Val::I(-8), 64), (Val::I(-5), 65), (Val::I(-2), 66), (Val::I(1), 67), (Val::I(4), 68), (Val::I(7), 69), (Val::I(10), 70), (Val::I(13), 71), (Val::I(16), 72), (Val::I(19), 73), (Val::I(22), 74), (Val::I(25), 75), (Val::I(28), 76), (Val::I(31), 77), (Val::I(34), 78), (Val::I(37), 79), (Val::I(40), 80), (Val::I(43), 81), (Val::I(46), 82), (Val::I(49), 83), (Val::I(52), 84), (Val::I(55), 85), (Val::I(58), 86), (Val::I(61), 87), (Val::I(64), 88), (Val::I(67), 89), (Val::I(70), 90), (Val::I(73), 91), (Val::I(76), 92), (Val::I(79), 93), (Val::I(82), 94), (Val::I(85), 95), (Val::I(88), 96), (Val::I(91), 97), (Val::I(94), 98), (Val::I(97), 99), (Val::I(100), 100), (Val::I(103), 101), (Val::I(106), 102), (Val::I(109), 103), (Val::I(112), 104), (Val::I(115), 105), (Val::I(118), 106), (Val::I(121), 107), (Val::I(124), 108), (Val::I(127), 109), (Val::I(130), 110), (Val::I(133), 111), (Val::I(136), 112), (Val::I(139), 113), (Val::I(142), 114), (Val::I(145), 115), (Val::I(148), 116), (Val::I(151), 117), (Val::I(154), 118), (Val::I(157), 119), (Val::I(160), 120), (Val::I(163), 121), (Val::I(166), 122), (Val::I(169), 123), (Val::I(172), 124), (Val::I(175), 125), (Val::I(178), 126), (Val::I(181), 127), (Val::I(184), 128), (Val::I(187), 129), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(-200), vec![]), Self::V1(a0_) => un(Val::I(-197), vec![a0_.to_val()]), Self::V2(a0_, a1_) => un(Val::I(-194), vec![a0_.to_val(), a1_.to_val()]), Self::V3 => un(Val::I(-191), vec![]), Self::V4(a0_) => un(Val::I(-188), vec![a0_.to_val()]), Self::V5(a0_, a1_) => un(Val::I(-185), vec![a0_.to_val(), a1_.to_val()]), Self::V6 => un(Val::I(-182), vec![]), Self::V7(a0_) => un(Val::I(-179), vec![a0_.to_val()]), Self::V8(a0_, a1_) => un(Val::I(-176), vec![a0_.to_val(), a1_.to_val()]), Self::V9 => un(Val::I(-173), vec![]), Self::V10(a0_) => un(Val::I(-170), vec![a0_.to_val()]), Self::V11(a0_, a1_) => un(Val::I(-167), vec![a0_.to_val(), a1_.to_val()]), Self::V12 => un(Val::I(-164), vec![]), Self::V13(a0_) => un(Val::I(-161), vec![a0_.to_val()]), Self::V14(a0_, a1_) => un(Val::I(-158), vec![a0_.to_val(), a1_.to_val()]), Self::V15 => un(Val::I(-155), vec![]), Self::V16(a0_) => un(Val::I(-152), vec![a0_.to_val()]), Self::V17(a0_, a1_) => un(Val::I(-149), vec![a0_.to_val(), a1_.to_val()]), Self::V18 => un(Val::I(-146), vec![]), Self::V19(a0_) => un(Val::I(-143), vec![a0_.to_val()]), Self::V20(a0_, a1_) => un(Val::I(-140), vec![a0_.to_val(), a1_.to_val()]), Self::V21 => un(Val::I(-137), vec![]), Self::V22(a0_) => un(Val::I(-134), vec![a0_.to_val()]), Self::V23(a0_, a1_) => un(Val::I(-131), vec![a0_.to_val(), a1_.to_val()]), Self::V24 => un(Val::I(-128), vec![]), Self::V25(a0_) => un(Val::I(-125), vec![a0_.to_val()]), Self::V26(a0_, a1_) => un(Val::I(-122), vec![a0_.to_val(), a1_.to_val()]), Self::V27 => un(Val::I(-119), vec![]), Self::V28(a0_) => un(Val::I(-116), vec![a0_.to_val()]), Self::V29(a0_, a1_) => un(Val::I(-113), vec![a0_.to_val(), a1_.to_val()]), Self::V30 => un(Val::I(-110), vec![]), Self::V31(a0_) => un(Val::I(-107), vec![a0_.to_val()]), Self::V32(a0_, a1_) => un(Val::I(-104), vec![a0_.to_val(), a1_.to_val()]), Self::V33 => un(Val::I(-101), vec![]), Self::V34(a0_) => un(Val::I(-98), vec![a0_.to_val()]), Self::V35(a0_, a1_) => un(Val::I(-95), vec![a0_.to_val(), a1_.to_val()]), Self::V36 => un(Val::I(-92), vec![]), Self::V37(a0_) => un(Val::I(-89), vec![a0_.to_val()]), Self::V38(a0_, a1_) => un(Val::I(-86), vec![a0_.to_val(), a1_.to_val()]), Self::V39 => un(Val::I(-83), vec![]), Self::V40(a0_) => un(Val::I(-80), vec![a0_.to_val()]), Self::V41(a0_, a1_) => un(Val::I(-77), vec![a0_.to_val(), a1_.to_val()]), Self::V42 => un(Val::I(-74), vec![]), Self::V43(a0_) => un(Val::I(-71), vec![a0_.to_val()]), Self::V44(a0_, a1_) => un(Val::I(-68), vec![a0_.to_val(), a1_.to_val()]), Self::V45 => un(Val::I(-65), vec![]), Self::V46(a0_) => un(Val::I(-62), vec![a0_.to_val()]), Self::V47(a0_, a1_) => un(Val::I(-59), vec![a0_.to_val(), a1_.to_val()]), Self::V48 => un(Val::I(-56), vec![]), Self::V49(a0_) => un(Val::I(-53), vec![a0_.to_val()]), Self::V50(a0_, a1_) => un(Val::I(-50), vec![a0_.to_val(), a1_.to_val()]), Self::V51 => un(Val::I(-47), vec![]), Self::V52(a0_) => un(Val::I(-44), vec![a0_.to_val()]), Self::V53(a0_, a1_) => un(Val::I(-41), vec![a0_.to_val(), a1_.to_val()]), Self::V54 => un(Val::I(-38), vec![]), Self::V55(a0_) => un(Val::I(-35), vec![a0_.to_val()]), Self::V56(a0_, a1_) => un(Val::I(-32), vec![a0_.to_val(), a1_.to_val()]), Self::V57 => un(Val::I(-29), vec![]), Self::V58(a0_) => un(Val::I(-26), vec![a0_.to_val()]), Self::V59(a0_, a1_) => un(Val::I(-23), vec![a0_.to_val(), a1_.to_val()]), Self::V60 => un(Val::I(-20), vec![]), Self::V61(a0_) => un(Val::I(-17), vec![a0_.to_val()]), Self::V62(a0_, a1_) => un(Val::I(-14), vec![a0_.to_val(), a1_.to_val()]), Self::V63 => un(Val::I(-11), vec![]), Self::V64(a0_) => un(Val::I(-8), vec![a0_.to_val()]), Self::V65(a0_, a1_) => un(Val::I(-5), vec![a0_.to_val(), a1_.to_val()]), Self::V66 => un(Val::I(-2), vec![]), Self::V67(a0_) => un(Val::I(1), vec![a0_.to_val()]), Self::V68(a0_, a1_) => un(Val::I(4), vec![a0_.to_val(), a1_.to_val()]), Self::V69 => un(Val::I(7), vec![]), Self::V70(a0_) => un(Val::I(10), vec![a0_.to_val()]), Self::V71(a0_, a1_) => un(Val::I(13), vec![a0_.to_val(), a1_.to_val()]), Self::V72 => un(Val::I(16), vec![]), Self::V73(a0_) => un(Val::I(19), vec![a0_.to_val()]), Self::V74(a0_, a1_) => un(Val::I(22), vec![a0_.to_val(), a1_.to_val()]), Self::V75 => un(Val::I(25), vec![]), Self::V76(a0_) => un(Val::I(28), vec![a0_.to_val()]), Self::V77(a0_, a1_) => un(Val::I(31), vec![a0_.to_val(), a1_.to_val()]), Self::V78 => un(Val::I(34), vec![]), Self::V79(a0_) => un(Val::I(37), vec![a0_.to_val()]), Self::V80(a0_, a1_) => un(Val::I(40), vec![a0_.to_val(), a1_.to_val()]), Self::V81 => un(Val::I(43), vec![]), Self::V82(a0_) => un(Val::I(46), vec![a0_.to_val()]), Self::V83(a0_, a1_) => un(Val::I(49), vec![a0_.to_val(), a1_.to_val()]), Self::V84 => un(Val::I(52), vec![]), Self::V85(a0_) => un(Val::I(55), vec![a0_.to_val()]), Self::V86(a0_, a1_) => un(Val::I(58), vec![a0_.to_val(), a1_.to_val()]), Self::V87 => un(Val::I(61), vec![]), Self::V88(a0_) => un(Val::I(64), vec![a0_.to_val()]), Self::V89(a0_, a1_) => un(Val::I(67), vec![a0_.to_val(), a1_.to_val()]), Self::V90 => un(Val::I(70), vec![]), Self::V91(a0_) => un(Val::I(73), vec![a0_.to_val()]), Self::V92(a0_, a1_) => un(Val::I(76), vec![a0_.to_val(), a1_.to_val()]), Self::V93 => un(Val::I(79), vec![]), Self::V94(a0_) => un(Val::I(82), vec![a0_.to_val()]), Self::V95(a0_, a1_) => un(Val::I(85), vec![a0_.to_val(), a1_.to_val()]), Self::V96 => un(Val::I(88), vec![]), Self::V97(a0_) => un(Val::I(91), vec![a0_.to_val()]), Self::V98(a0_, a1_) => un(Val::I(94), vec![a0_.to_val(), a1_.to_val()]), Self::V99 => un(Val::I(97), vec![]), Self::V100(a0_) => un(Val::I(100), vec![a0_.to_val()]), Self::V101(a0_, a1_) => un(Val::I(103), vec![a0_.to_val(), a1_.to_val()]), Self::V102 => un(Val::I(106), vec![]), Self::V103(a0_) => un(Val::I(109), vec![a0_.to_val()]), Self::V104(a0_, a1_) => un(Val::I(112), vec![a0_.to_val(), a1_.to_val()]), Self::V105 => un(Val::I(115), vec![]), Self::V106(a0_) => un(Val::I(118), vec![a0_.to_val()]), Self::V107(a0_, a1_) => un(Val::I(121), vec![a0_.to_val(), a1_.to_val()]), Self::V108 => un(Val::I(124), vec![]), Self::V109(a0_) => un(Val::I(127), vec![a0_.to_val()]), Self::V110(a0_, a1_) => un(Val::I(130), vec![a0_.to_val(), a1_.to_val()]), Self::V111 => un(Val::I(133), vec![]), Self::V112(a0_) => un(Val::I(136), vec![a0_.to_val()]), Self::V113(a0_, a1_) => un(Val::I(139), vec![a0_.to_val(), a1_.to_val()]), Self::V114 => un(Val::I(142), vec![]), Self::V115(a0_) => un(Val::I(145), vec![a0_.to_val()]), Self::V116(a0_, a1_) => un(Val::I(148), vec![a0_.to_val(), a1_.to_val()]), Self::V117 => un(Val::I(151), vec![]), Self::V118(a0_) => un(Val::I(154), vec![a0_.to_val()]), Self::V119(a0_, a1_) => un(Val::I(157), vec![a0_.to_val(), a1_.to_val()]), Self::V120 => un(Val::I(160), vec![]), Self::V121(a0_) => un(Val::I(163), vec![a0_.to_val()]), Self::V122(a0_, a1_) => un(Val::I(166), vec![a0_.to_val(), a1_.to_val()]), Self::V123 => un(Val::I(169), vec![]), Self::V124(a0_) => un(Val::I(172), vec![a0_.to_val()]), Self::V125(a0_, a1_) => un(Val::I(175), vec![a0_.to_val(), a1_.to_val()]), Self::V126 => un(Val::I(178), vec![]), Self::V127(a0_) => un(Val::I(181), vec![a0_.to_val()]), Self::V128(a0_, a1_) => un(Val::I(184), vec![a0_.to_val(), a1_.to_val()]), Self::V129 => un(Val::I(187), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1(x(l_, 0)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?), 3 => Self::V3, 4 => Self::V4(x(l_, 0)?), 5 => Self::V5(x(l_, 0)?, x(l_, 1)?), 6 => Self::V6, 7 => Self::V7(x(l_, 0)?), 8 => Self::V8(x(l_, 0)?, x(l_, 1)?), 9 => Self::V9, 10 => Self::V10(x(l_, 0)?), 11 => Self::V11(x(l_, 0)?, x(l_, 1)?), 12 => Self::V12, 13 => Self::V13(x(l_, 0)?), 14 => Self::V14(x(l_, 0)?, x(l_, 1)?), 15 => Self::V15, 16 => Self::V16(x(l_, 0)?), 17 => Self::V17(x(l_, 0)?, x(l_, 1)?), 18 => Self::V18, 19 => Self::V19(x(l_, 0)?), 20 => Self::V20(x(l_, 0)?, x(l_, 1)?), 21 => Self::V21, 22 => Self::V22(x(l_, 0)?), 23 => Self::V23(x(l_, 0)?, x(l_, 1)?), 24 => Self::V24, 25 => Self::V25(x(l_, 0)?), 26 => Self::V26(x(l_, 0)?, x(l_, 1)?), 27 => Self::V27, 28 => Self::V28(x(l_, 0)?), 29 => Self::V29(x(l_, 0)?, x(l_, 1)?), 30 => Self::V30, 31 => Self::V31(x(l_, 0)?), 32 => Self::V32(x(l_, 0)?, x(l_, 1)?), 33 => Self::V33, 34 => Self::V34(x(l_, 0)?), 35 => Self::V35(x(l_, 0)?, x(l_, 1)?), 36 => Self::V36, 37 => Self::V37(x(l_, 0)?), 38 => Self::V38(x(l_, 0)?, x(l_, 1)?), 39 => Self::V39, 40 => Self::V40(x(l_, 0)?), 41 => Self::V41(x(l_, 0)?, x(l_, 1)?), 42 => Self::V42, 43 => Self::V43(x(l_, 0)?), 44 => Self::V44(x(l_, 0)?, x(l_, 1)?), 45 => Self::V45, 46 => Self::V46(x(l_, 0)?), 47 => Self::V47(x(l_, 0)?, x(l_, 1)?), 48 => Self::V48, 49 => Self::V49(x(l_, 0)?), 50 => Self::V50(x(l_, 0)?, x(l_, 1)?), 51 => Self::V51, 52 => Self::V52(x(l_, 0)?), 53 => Self::V53(x(l_, 0)?, x(l_, 1)?), 54 => Self::V54, 55 => Self::V55(x(l_, 0)?), 56 => Self::V56(x(l_, 0)?, x(l_, 1)?), 57 => Self::V57, 58 => Self::V58(x(l_, 0)?), 59 => Self::V59(x(l_, 0)?, x(l_, 1)?), 60 => Self::V60, 61 => Self::V61(x(l_, 0)?), 62 => Self::V62(x(l_, 0)?, x(l_, 1)?), 63 => Self::V63, 64 => Self::V64(x(l_, 0)?), 65 => Self::V65(x(l_, 0)?, x(l_, 1)?), 66 => Self::V66, 67 => Self::V67(x(l_, 0)?), 68 => Self::V68(x(l_, 0)?, x(l_, 1)?), 69 => Self::V69, 70 => Self::V70(x(l_, 0)?), 71 => Self::V71(x(l_, 0)?, x(l_, 1)?), 72 => Self::V72, 73 => Self::V73(x(l_, 0)?), 74 => Self::V74(x(l_, 0)?, x(l_, 1)?), 75 => Self::V75, 76 => Self::V76(x(l_, 0)?), 77 => Self::V77(x(l_, 0)?, x(l_, 1)?), 78 => Self::V78, 79 => Self::V79(x(l_, 0)?), 80 => Self::V80(x(l_, 0)?, x(l_, 1)?), 81 => Self::V81, 82 => Self::V82(x(l_, 0)?), 83 => Self::V83(x(l_, 0)?, x(l_, 1)?), 84 => Self::V84, 85 => Self::V85(x(l_, 0)?), 86 => Self::V86(x(l_, 0)?, x(l_, 1)?), 87 => Self::V87, 88 => Self::V88(x(l_, 0)?), 89 => Self::V89(x(l_, 0)?, x(l_, 1)?), 90 => Self::V90, 91 => Self::V91(x(l_, 0)?), 92 => Self::V92(x(l_, 0)?, x(l_, 1)?), 93 => Self::V93, 94 => Self::V94(x(l_, 0)?), 95 => Self::V95(x(l_, 0)?, x(l_, 1)?), 96 => Self::V96, 97 => Self::V97(x(l_, 0)?), 98 => Self::V98(x(l_, 0)?, x(l_, 1)?), 99 => Self::V99, 100 => Self::V100(x(l_, 0)?), 101 => Self::V101(x(l_, 0)?, x(l_, 1)?), 102 => Self::V102, 103 => Self::V103(x(l_, 0)?), 104 => Self::V104(x(l_, 0)?, x(l_, 1)?), 105 => Self::V105, 106 => Self::V106(x(l_, 0)?), 107 => Self::V107(x(l_, 0)?, x(l_, 1)?), 108 => Self::V108, 109 => Self::V109(x(l_, 0)?), 110 => Self::V110(x(l_, 0)?, x(l_, 1)?), 111 => Self::V111, 112 => Self::V112(x(l_, 0)?), 113 => Self::V113(x(l_, 0)?, x(l_, 1)?), 114 => Self::V114, 115 => Self::V115(x(l_, 0)?), 116 => Self::V116(x(l_, 0)?, x(l_, 1)?), 117 => Self::V117, 118 => Self::V118(x(l_, 0)?), 119 => Self::V119(x(l_, 0)?, x(l_, 1)?), 120 => Self::V120, 121 => Self::V121(x(l_, 0)?), 122 => Self::V122(x(l_, 0)?, x(l_, 1)?), 123 => Self::V123, 124 => Self::V124(x(l_, 0)?), 125 => Self::V125(x(l_, 0)?, x(l_, 1)?), 126 => Self::V126, 127 => Self::V127(x(l_, 0)?), 128 => Self::V128(x(l_, 0)?, x(l_, 1)?), 129 => Self::V129, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IMany300 { V0, V1(String), V2(i16, u64), V3, V4(bool), V5(char, u8), V6, V7(String), V8(i16, u64), V9, V10(bool), V11(char, u8), V12, V13(String), V14(i16, u64), V15, V16(bool), V17(char, u8), V18, V19(String), V20(i16, u64), V21, V22(bool), V23(char, u8), V24, V25(String), V26(i16, u64), V27, V28(bool), V29(char, u8), V30, V31(String), V32(i16, u64), V33, V34(bool), V35(char, u8), V36, V37(String), V38(i16, u64), V39, V40(bool), V41(char, u8), V42, V43(String), V44(i16, u64), V45, V46(bool), V47(char, u8), V48, V49(String), V50(i16, u64), V51, V52(bool), V53(char, u8), V54, V55(String), V56(i16, u64), V57, V58(bool), V59(char, u8), V60, V61(String), V62(i16, u64), V63, V64(bool), V65(char, u8), V66, V67(String), V68(i16, u64), V69, V70(bool), V71(char, u8), V72, V73(String), V74(i16, u64), V75, V76(bool), V77(char, u8), V78, V79(String), V80(i16, u64), V81, V82(bool), V83(char, u8), V84, V85(String), V86(i16, u64), V87, V88(bool), V89(char, u8), V90, V91(String), V92(i16, u64), V93, V94(bool), V95(char, u8), V96, V97(String), V98(i16, u64), V99, V100(bool), V101(char, u8), V102, V103(String), V104(i16, u64), V105, V106(bool), V107(char, u8), V108, V109(String), V110(i16, u64), V111, V112(bool), V113(char, u8), V114, V115(String), V116(i16, u64), V117, V118(bool), V119(char, u8), V120, V121(String), V122(i16, u64), V123, V124(bool), V125(char, u8), V126, V127(String), V128(i16, u64), V129, V130(bool), V131(char, u8), V132, V133(String), V134(i16, u64), V135, V136(bool), V137(char, u8), V138, V139(String), V140(i16, u64), V141, V142(bool), V143(char, u8), V144, V145(String), V146(i16, u64), V147, V148(bool), V149(char, u8), V150, V151(String), V152(i16, u64), V153, V154(bool), V155(char, u8), V156, V157(String), V158(i16, u64), V159, V160(bool), V161(char, u8), V162, V163(String), V164(i16, u64), V165, V166(bool), V167(char, u8), V168, V169(String), V170(i16, u64), V171, V172(bool), V173(char, u8), V174, V175(String), V176(i16, u64), V177, V178(bool), V179(char, u8), V180, V181(String), V182(i16, u64), V183, V184(bool), V185(char, u8), V186, V187(String), V188(i16, u64), V189, V190(bool), V191(char, u8), V192, V193(String), V194(i16, u64), V195, V196(bool), V197(char, u8), V198, V199(String), V200(i16, u64), V201, V202(bool), V203(char, u8), V204, V205(String), V206(i16, u64), V207, V208(bool), V209(char, u8), V210, V211(String), V212(i16, u64), V213, V214(bool), V215(char, u8), V216, V217(String), V218(i16, u64), V219, V220(bool), V221(char, u8), V222, V223(String), V224(i16, u64), V225, V226(bool), V227(char, u8), V228, V229(String), V230(i16, u64), V231, V232(bool), V233(char, u8), V234, V235(String), V236(i16, u64), V237, V238(bool), V239(char, u8), V240, V241(String), V242(i16, u64), V243, V244(bool), V245(char, u8), V246, V247(String), V248(i16, u64), V249, V250(bool), V251(char, u8), V252, V253(String), V254(i16, u64), V255, V256(bool), V257(char, u8), V258, V259(String), V260(i16, u64), V261, V262(bool), V263(char, u8), V264, V265(String), V266(i16, u64), V267, V268(bool), V269(char, u8), V270, V271(String), V272(i16, u64), V273, V274(bool), V275(char, u8), V276, V277(String), V278(i16, u64), V279, V280(bool), V281(char, u8), V282, V283(String), V284(i16, u64), V285, V286(bool), V287(char, u8), V288, V289(String), V290(i16, u64), V291, V292(bool), V293(char, u8), V294, V295(String), V296(i16, u64), V297, V298(bool), V299(char, u8) }
impl serde_xdr::XdrIndexer for IMany300 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { -200 => Ok("V0"), -197 => Ok("V1"), -194 => Ok("V2"), -191 => Ok("V3"), -188 => Ok("V4"), -185 => Ok("V5"), -182 => Ok("V6"), -179 => Ok("V7"), -176 => Ok("V8"), -173 => Ok("V9"), -170 => Ok("V10"), -167 => Ok("V11"), -164 => Ok("V12"), -161 => Ok("V13"), -158 => Ok("V14"), -155 => Ok("V15"), -152 => Ok("V16"), -149 => Ok("V17"), -146 => Ok("V18"), -143 => Ok("V19"), -140 => Ok("V20"), -137 => Ok("V21"), -134 => Ok("V22"), -131 => Ok("V23"), -128 => Ok("V24"), -125 => Ok("V25"), -122 => Ok("V26"), -119 => Ok("V27"), -116 => Ok("V28"), -113 => Ok("V29"), -110 => Ok("V30"), -107 => Ok("V31"), -104 => Ok("V32"), -101 => Ok("V33"), -98 => Ok("V34"), -95 => Ok("V35"), -92 => Ok("V36"), -89 => Ok("V37"), -86 => Ok("V38"), -83 => Ok("V39"), -80 => Ok("V40"), -77 => Ok("V41"), -74 => Ok("V42"), -71 => Ok("V43"), -68 => Ok("V44"), -65 => Ok("V45"), -62 => Ok("V46"), -59 => Ok("V47"), -56 => Ok("V48"), -53 => Ok("V49"), -50 => Ok("V50"), -47 => Ok("V51"), -44 => Ok("V52"), -41 => Ok("V53"), -38 => Ok("V54"), -35 => Ok("V55"), -32 => Ok("V56"), -29 => Ok("V57"), -26 => Ok("V58"), -23 => Ok("V59"), -20 => Ok("V60"), -17 => Ok("V61"), -14 => Ok("V62"), -11 => Ok("V63"), -8 => Ok("V64"), -5 => Ok("V65"), -2 => Ok("V66"), 1 => Ok("V67"), 4 => Ok("V68"), 7 => Ok("V69"), 10 => Ok("V70"), 13 => Ok("V71"), 16 => Ok("V72"), 19 => Ok("V73"), 22 => Ok("V74"), 25 => Ok("V75"), 28 => Ok("V76"), 31 => Ok("V77"), 34 => Ok("V78"), 37 => Ok("V79"), 40 => Ok("V80"), 43 => Ok("V81"), 46 => Ok("V82"), 49 => Ok("V83"), 52 => Ok("V84"), 55 => Ok("V85"), 58 => Ok("V86"), 61 => Ok("V87"), 64 => Ok("V88"), 67 => Ok("V89"), 70 => Ok("V90"), 73 => Ok("V91"), 76 => Ok("V92"), 79 => Ok("V93"), 82 => Ok("V94"), 85 => Ok("V95"), 88 => Ok("V96"), 91 => Ok("V97"), 94 => Ok("V98"), 97 => Ok("V99"), 100 => Ok("V100"), 103 => Ok("V101"), 106 => Ok("V102"), 109 => Ok("V103"), 112 => Ok("V104"), 115 => Ok("V105"), 118 => Ok("V106"), 121 => Ok("V107"), 124 => Ok("V108"), 127 => Ok("V109"), 130 => Ok("V110"), 133 => Ok("V111"), 136 => Ok("V112"), 139 => Ok("V113"), 142 => Ok("V114"), 145 => Ok("V115"), 148 => Ok("V116"), 151 => Ok("V117"), 154 => Ok("V118"), 157 => Ok("V119"), 160 => Ok("V120"), 163 => Ok("V121"), 166 => Ok("V122"), 169 => Ok("V123"), 172 => Ok("V124"), 175 => Ok("V125"), 178 => Ok("V126"), 181 => Ok("V127"), 184 => Ok("V128"), 187 => Ok("V129"), 190 => Ok("V130"), 193 => Ok("V131"), 196 => Ok("V132"), 199 => Ok("V133"), 202 => Ok("V134"), 205 => Ok("V135"), 208 => Ok("V136"), 211 => Ok("V137"), 214 => Ok("V138"), 217 => Ok("V139"), 220 => Ok("V140"), 223 => Ok("V141"), 226 => Ok("V142"), 229 => Ok("V143"), 232 => Ok("V144"), 235 => Ok("V145"), 238 => Ok("V146"), 241 => Ok("V147"), 244 => Ok("V148"), 247 => Ok("V149"), 250 => Ok("V150"), 253 => Ok("V151"), 256 => Ok("V152"), 259 => Ok("V153"), 262 => Ok("V154"), 265 => Ok("V155"), 268 => Ok("V156"), 271 => Ok("V157"), 274 => Ok("V158"), 277 => Ok("V159"), 280 => Ok("V160"), 283 => Ok("V161"), 286 => Ok("V162"), 289 => Ok("V163"), 292 => Ok("V164"), 295 => Ok("V165"), 298 => Ok("V166"), 301 => Ok("V167"), 304 => Ok("V168"), 307 => Ok("V169"), 310 => Ok("V170"), 313 => Ok("V171"), 316 => Ok("V172"), 319 => Ok("V173"), 322 => Ok("V174"), 325 => Ok("V175"), 328 => Ok("V176"), 331 => Ok("V177"), 334 => Ok("V178"), 337 => Ok("V179"), 340 => Ok("V180"), 343 => Ok("V181"), 346 => Ok("V182"), 349 => Ok("V183"), 352 => Ok("V184"), 355 => Ok("V185"), 358 => Ok("V186"), 361 => Ok("V187"), 364 => Ok("V188"), 367 => Ok("V189"), 370 => Ok("V190"), 373 => Ok("V191"), 376 => Ok("V192"), 379 => Ok("V193"), 382 => Ok("V194"), 385 => Ok("V195"), 388 => Ok("V196"), 391 => Ok("V197"), 394 => Ok("V198"), 397 => Ok("V199"), 400 => Ok("V200"), 403 => Ok("V201"), 406 => Ok("V202"), 409 => Ok("V203"), 412 => Ok("V204"), 415 => Ok("V205"), 418 => Ok("V206"), 421 => Ok("V207"), 424 => Ok("V208"), 427 => Ok("V209"), 430 => Ok("V210"), 433 => Ok("V211"), 436 => Ok("V212"), 439 => Ok("V213"), 442 => Ok("V214"), 445 => Ok("V215"), 448 => Ok("V216"), 451 => Ok("V217"), 454 => Ok("V218"), 457 => Ok("V219"), 460 => Ok("V220"), 463 => Ok("V221"), 466 => Ok("V222"), 469 => Ok("V223"), 472 => Ok("V224"), 475 => Ok("V225"), 478 => Ok("V226"), 481 => Ok("V227"), 484 => Ok("V228"), 487 => Ok("V229"), 490 => Ok("V230"), 493 => Ok("V231"), 496 => Ok("V232"), 499 => Ok("V233"), 502 => Ok("V234"), 505 => Ok("V235"), 508 => Ok("V236"), 511 => Ok("V237"), 514 => Ok("V238"), 517 => Ok("V239"), 520 => Ok("V240"), 523 => Ok("V241"), 526 => Ok("V242"), 529 => Ok("V243"), 532 => Ok("V244"), 535 => Ok("V245"), 538 => Ok("V246"), 541 => Ok("V247"), 544 => Ok("V248"), 547 => Ok("V249"), 550 => Ok("V250"), 553 => Ok("V251"), 556 => Ok("V252"), 559 => Ok("V253"), 562 => Ok("V254"), 565 => Ok("V255"), 568 => Ok("V256"), 571 => Ok("V257"), 574 => Ok("V258"), 577 => Ok("V259"), 580 => Ok("V260"), 583 => Ok("V261"), 586 => Ok("V262"), 589 => Ok("V263"), 592 => Ok("V264"), 595 => Ok("V265"), 598 => Ok("V266"), 601 => Ok("V267"), 604 => Ok("V268"), 607 => Ok("V269"), 610 => Ok("V270"), 613 => Ok("V271"), 616 => Ok("V272"), 619 => Ok("V273"), 622 => Ok("V274"), 625 => Ok("V275"), 628 => Ok("V276"), 631 => Ok("V277"), 634 => Ok("V278"), 637 => Ok("V279"), 640 => Ok("V280"), 643 => Ok("V281"), 646 => Ok("V282"), 649 => Ok("V283"), 652 => Ok("V284"), 655 => Ok("V285"), 658 => Ok("V286"), 661 => Ok("V287"), 664 => Ok("V288"), 667 => Ok("V289"), 670 => Ok("V290"), 673 => Ok("V291"), 676 => Ok("V292"), 679 => Ok("V293"), 682 => Ok("V294"), 685 => Ok("V295"), 688 => Ok("V296"), 691 => Ok("V297"), 694 => Ok("V298"), 697 => Ok("V299"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => -200, Self::V1{..} => -197, Self::V2{..} => -194, Self::V3{..} => -191, Self::V4{..} => -188, Self::V5{..} => -185, Self::V6{..} => -182, Self::V7{..} => -179, Self::V8{..} => -176, Self::V9{..} => -173, Self::V10{..} => -170, Self::V11{..} => -167, Self::V12{..} => -164, Self::V13{..} => -161, Self::V14{..} => -158, Self::V15{..} => -155, Self::V16{..} => -152, Self::V17{..} => -149, Self::V18{..} => -146, Self::V19{..} => -143, Self::V20{..} => -140, Self::V21{..} => -137, Self::V22{..} => -134, Self::V23{..} => -131, Self::V24{..} => -128, Self::V25{..} => -125, Self::V26{..} => -122, Self::V27{..} => -119, Self::V28{..} => -116, Self::V29{..} => -113, Self::V30{..} => -110, Self::V31{..} => -107, Self::V32{..} => -104, Self::V33{..} => -101, Self::V34{..} => -98, Self::V35{..} => -95, Self::V36{..} => -92, Self::V37{..} => -89, Self::V38{..} => -86, Self::V39{..} => -83, Self::V40{..} => -80, Self::V41{..} => -77, Self::V42{..} => -74, Self::V43{..} => -71, Self::V44{..} => -68, Self::V45{..} => -65, Self::V46{..} => -62, Self::V47{..} => -59, Self::V48{..} => -56, Self::V49{..} => -53, Self::V50{..} => -50, Self::V51{..} => -47, Self::V52{..} => -44, Self::V53{..} => -41, Self::V54{..} => -38, Self::V55{..} => -35, Self::V56{..} => -32, Self::V57{..} => -29, Self::V58{..} => -26, Self::V59{..} => -23, Self::V60{..} => -20, Self::V61{..} => -17, Self::V62{..} => -14, Self::V63{..} => -11, Self::V64{..} => -8, Self::V65{..} => -5, Self::V66{..} => -2, Self::V67{..} => 1, Self::V68{..} => 4, Self::V69{..} => 7, Self::V70{..} => 10, Self::V71{..} => 13, Self::V72{..} => 16, Self::V73{..} => 19, Self::V74{..} => 22, Self::V75{..} => 25, Self::V76{..} => 28, Self::V77{..} => 31, Self::V78{..} => 34, Self::V79{..} => 37, Self::V80{..} => 40, Self::V81{..} => 43, Self::V82{..} => 46, Self::V83{..} => 49, Self::V84{..} => 52, Self::V85{..} => 55, Self::V86{..} => 58, Self::V87{..} => 61, Self::V88{..} => 64, Self::V89{..} => 67, Self::V90{..} => 70, Self::V91{..} => 73, Self::V92{..} => 76, Self::V93{..} => 79, Self::V94{..} => 82, Self::V95{..} => 85, Self::V96{..} => 88, Self::V97{..} => 91, Self::V98{..} => 94, Self::V99{..} => 97, Self::V100{..} => 100, Self::V101{..} => 103, Self::V102{..} => 106, Self::V103{..} => 109, Self::V104{..} => 112, Self::V105{..} => 115, Self::V106{..} => 118, Self::V107{..} => 121, Self::V108{..} => 124, Self::V109{..} => 127, Self::V110{..} => 130, Self::V111{..} => 133, Self::V112{..} => 136, Self::V113{..} => 139, Self::V114{..} => 142, Self::V115{..} => 145, Self::V116{..} => 148, Self::V117{..} => 151, Self::V118{..} => 154, Self::V119{..} => 157, Self::V120{..} => 160, Self::V121{..} => 163, Self::V122{..} => 166, Self::V123{..} => 169, Self::V124{..} => 172, Self::V125{..} => 175, Self::V126{..} => 178, Self::V127{..} => 181, Self::V128{..} => 184, Self::V129{..} => 187, Self::V130{..} => 190, Self::V131{..} => 193, Self::V132{..} => 196, Self::V133{..} => 199, Self::V134{..} => 202, Self::V135{..} => 205, Self::V136{..} => 208, Self::V137{..} => 211, Self::V138{..} => 214, Self::V139{..} => 217, Self::V140{..} => 220, Self::V141{..} => 223, Self::V142{..} => 226, Self::V143{..} => 229, Self::V144{..} => 232, Self::V145{..} => 235, Self::V146{..} => 238, Self::V147{..} => 241, Self::V148{..} => 244, Self::V149{..} => 247, Self::V150{..} => 250, Self::V151{..} => 253, Self::V152{..} => 256, Self::V153{..} => 259, Self::V154{..} => 262, Self::V155{..} => 265, Self::V156{..} => 268, Self::V157{..} => 271, Self::V158{..} => 274, Self::V159{..} => 277, Self::V160{..} => 280, Self::V161{..} => 283, Self::V162{..} => 286, Self::V163{..} => 289, Self::V164{..} => 292, Self::V165{..} => 295, Self::V166{..} => 298, Self::V167{..} => 301, Self::V168{..} => 304, Self::V169{..} => 307, Self::V170{..} => 310, Self::V171{..} => 313, Self::V172{..} => 316, Self::V173{..} => 319, Self::V174{..} => 322, Self::V175{..} => 325, Self::V176{..} => 328, Self::V177{..} => 331, Self::V178{..} => 334, Self::V179{..} => 337, Self::V180{..} => 340, Self::V181{..} => 343, Self::V182{..} => 346, Self::V183{..} => 349, Self::V184{..} => 352, Self::V185{..} => 355, Self::V186{..} => 358, Self::V187{..} => 361, Self::V188{..} => 364, Self::V189{..} => 367, Self::V190{..} => 370, Self::V191{..} => 373, Self::V192{..} => 376, Self::V193{..} => 379, Self::V194{..} => 382, Self::V195{..} => 385, Self::V196{..} => 388, Self::V197{..} => 391, Self::V198{..} => 394, Self::V199{..} => 397, Self::V200{..} => 400, Self::V201{..} => 403, Self::V202{..} => 406, Self::V203{..} => 409, Self::V204{..} => 412, Self::V205{..} => 415, Self::V206{..} => 418, Self::V207{..} => 421, Self::V208{..} => 424, Self::V209{..} => 427, Self::V210{..} => 430, Self::V211{..} => 433, Self::V212{..} => 436, Self::V213{..} => 439, Self::V214{..} => 442, Self::V215{..} => 445, Self::V216{..} => 448, Self::V217{..} => 451, Self::V218{..} => 454, Self::V219{..} => 457, Self::V220{..} => 460, Self::V221{..} => 463, Self::V222{..} => 466, Self::V223{..} => 469, Self::V224{..} => 472, Self::V225{..} => 475, Self::V226{..} => 478, Self::V227{..} => 481, Self::V228{..} => 484, Self::V229{..} => 487, Self::V230{..} => 490, Self::V231{..} => 493, Self::V232{..} => 496, Self::V233{..} => 499, Self::V234{..} => 502, Self::V235{..} => 505, Self::V236{..} => 508, Self::V237{..} => 511, Self::V238{..} => 514, Self::V239{..} => 517, Self::V240{..} => 520, Self::V241{..} => 523, Self::V242{..} => 526, Self::V243{..} => 529, Self::V244{..} => 532, Self::V245{..} => 535, Self::V246{..} => 538, Self::V247{..} => 541, Self::V248{..} => 544, Self::V249{..} => 547, Self::V250{..} => 550, Self::V251{..} => 553, Self::V252{..} => 556, Self::V253{..} => 559, Self::V254{..} => 562, Self::V255{..} => 565, Self::V256{..} => 568, Self::V257{..} => 571, Self::V258{..} => 574, Self::V259{..} => 577, Self::V260{..} => 580, Self::V261{..} => 583, Self::V262{..} => 586, Self::V263{..} => 589, Self::V264{..} => 592, Self::V265{..} => 595, Self::V266{..} => 598, Self::V267{..} => 601, Self::V268{..} => 604, Self::V269{..} => 607, Self::V270{..} => 610, Self::V271{..} => 613, Self::V272{..} => 616, Self::V273{..} => 619, Self::V274{..} => 622, Self::V275{..} => 625, Self::V276{..} => 628, Self::V277{..} => 631, Self::V278{..} => 634, Self::V279{..} => 637, Self::V280{..} => 640, Self::V281{..} => 643, Self::V282{..} => 646, Self::V283{..} => 649, Self::V284{..} => 652, Self::V285{..} => 655, Self::V286{..} => 658, Self::V287{..} => 661, Self::V288{..} => 664, Self::V289{..} => 667, Self::V290{..} => 670, Self::V291{..} => 673, Self::V292{..} => 676, Self::V293{..} => 679, Self::V294{..} => 682, Self::V295{..} => 685, Self::V296{..} => 688, Self::V297{..} => 691, Self::V298{..} => 694, Self::V299{..} => 697,  } }
}
impl Model for IMany300 {
    fn ty() -> Ty { union(Ty::I32of(vec![-200, -197, -194, -191, -188, -185, -182, -179, -176, -173, -170, -167, -164, -161, -158, -155, -152, -149, -146, -143, -140, -137, -134, -131, -128, -125, -122, -119, -116, -113, -110, -107, -104, -101, -98, -95, -92, -89, -86, -83, -80, -77, -74, -71, -68, -65, -62, -59, -56, -53, -50, -47, -44, -41, -38, -35, -32, -29, -26, -23, -20, -17, -14, -11, -8, -5, -2, 1, 4, 7, 10, 13, 16, 19, 22, 25, 28, 31, 34, 37, 40, 43, 46, 49, 52, 55, 58, 61, 64, 67, 70, 73, 76, 79, 82, 85, 88, 91, 94, 97, 100, 103, 106, 109, 112, 115, 118, 121, 124, 127, 130, 133, 136, 139, 142, 145, 148, 151, 154, 157, 160, 163, 166, 169, 172, 175, 178, 181, 184, 187, 190, 193, 196, 199, 202, 205, 208, 211, 214, 217, 220, 223, 226, 229, 232, 235, 238, 241, 244, 247, 250, 253, 256, 259, 262, 265, 268, 271, 274, 277, 280, 283, 286, 289, 292, 295, 298, 301, 304, 307, 310, 313, 316, 319, 322, 325, 328, 331, 334, 337, 340, 343, 346, 349, 352, 355, 358, 361, 364, 367, 370, 373, 376, 379, 382, 385, 388, 391, 394, 397, 400, 403, 406, 409, 412, 415, 418, 421, 424, 427, 430, 433, 436, 439, 442, 445, 448, 451, 454, 457, 460, 463, 466, 469, 472, 475, 478, 481, 484, 487, 490, 493, 496, 499, 502, 505, 508, 511, 514, 517, 520, 523, 526, 529, 532, 535, 538, 541, 544, 547, 550, 553, 556, 559, 562, 565, 568, 571, 574, 577, 580, 583, 586, 589, 592, 595, 598, 601, 604, 607, 610, 613, 616, 619, 622, 625, 628, 631, 634, 637, 640, 643, 646, 649, 652, 655, 658, 661, 664, 667, 670, 673, 676, 679, 682, 685, 688, 691, 694, 697]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], ], vec![(Val::I(-200), 0), (Val::I(-197), 1), (Val::I(-194), 2), (Val::I(-191), 3), (Val::I(-188), 4), (Val::I(-185), 5), (Val::I(-182), 6), (Val::I(-179), 7), (Val::I(-176), 8), (Val::I(-173), 9), (Val::I(-170), 10), (Val::I(-167), 11), (Val::I(-164), 12), (Val::I(-161), 13), (Val::I(-158), 14), (Val::I(-155), 15), (Val::I(-152), 16), (Val::I(-149), 17), (Val::I(-146), 18), (Val::I(-143), 19), (Val::I(-140), 20), (Val::I(-137), 21), (Val::I(-134), 22), (Val::I(-131), 23), (Val::I(-128), 24), (Val::I(-125), 25), (Val::I(-122), 26), (Val::I(-119), 27), (Val::I(-116), 28), (Val::I(-113), 29), (Val::I(-110), 30), (Val::I(-107), 31), (Val::I(-104), 32), (Val::I(-101), 33), (Val::I(-98), 34), (Val::I(-95), 35), (Val::I(-92), 36), (Val::I(-89), 37), (Val::I(-86), 38), (Val::I(-83), 39), (Val::I(-80), 40), (Val::I(-77), 41), (Val::I(-74), 42), (Val::I(-71), 43), (Val::I(-68), 44), (Val::I(-65), 45), (Val::I(-62), 46), (Val::I(-59), 47), (Val::I(-56), 48), (Val::I(-53), 49), (Val::I(-50), 50), (Val::I(-47), 51), (Val::I(-44), 52), (Val::I(-41), 53), (Val::I(-38), 54), (Val::I(-35), 55), (Val::I(-32), 56), (Val::I(-29), 57), (Val::I(-26), 58), (Val::I(-23), 59), (Val::I(-20), 60), (Val::I(-17), 61), (Val::I(-14), 62), (Val::I(-11), 63), (Val::I(-8), 64), (Val::I(-5), 65), (Val::I(-2), 66), (Val::I(1), 67), (Val::I(4), 68), (Val::I(7), 69), (Val::I(10), 70), (Val::I(13), 71), (Val::I(16), 72), (Val::I(19), 73), (Val::I(22), 74), (Val::I(25), 75), (Val::I(28), 76), (Val::I(31), 77), (Val::I(34), 78), (Val::I(37), 79), (Val::I(40), 80), (Val::I(43), 81), (Val::I(46), 82), (Val::I(49), 83), (Val::I(52), 84), (Val::I(55), 85), (Val::I(58), 86), (Val::I(61), 87), (Val::I(64), 88), (Val::I(67), 89), (Val::I(70), 90), (Val::I(73), 91), (Val::I(76), 92), (Val::I(79), 93), (Val::I(82), 94), (Val::I(85), 95), (Val::I(88), 96), (Val::I(91), 97), (Val::I(94), 98), (Val::I(97), 99), (Val::I(100), 100), (Val::I(103), 101), (Val::I(106), 102), (Val::I(109), 103), (Val::I(112), 104), (Val::I(115), 105), (Val::I(118), 106), (Val::I(121), 107), (Val::I(124), 108), (Val::I(127), 109), (Val::I(130), 110), (Val::I(133), 111), (Val::I(136), 112), (Val::I(139), 113), (Val::I(142), 114), (Val::I(145), 115), (Val::I(148), 116), (Val::I(151), 117), (Val::I(154), 118), (Val::I(157), 119), (Val::I(160), 120), (Val::I(163), 121), (Val::I(166), 122), (Val::I(169), 123), (Val::I(172), 124), (Val::I(175), 125), (Val::I(178), 126), (Val::I(181), 127), (Val::I(184), 128), (Val::I(187), 129), (Val::I(190), 130), (Val::I(193), 131), (Val::I(196), 132), (Val::I(199), 133), (Val::I(202), 134), (Val::I(205), 135), (Val::I(208), 136), (Val::I(211), 137), (Val::I(214), 138), (Val::I(217), 139), (Val::I(220), 140), (Val::I(223), 141), (Val::I(226), 142), (Val::I(229), 143), (Val::I(232), 144), (Val::I(235), 145), (Val::I(238), 146), (Val::I(241), 147), (Val::I(244), 148), (Val::I(247), 149), (Val::I(250), 150), (Val::I(253), 151), (Val::I(256), 152), (Val::I(259), 153), (Val::I(262), 154), (Val::I(265), 155), (Val::I(268), 156), (Val::I(271), 157), (Val::I(274), 158), (Val::I(277), 159), (Val::I(280), 160), (Val::I(283), 161), (Val::I(286), 162), (Val::I(289), 163), (Val::I(292), 164), (Val::I(295), 165), (Val::I(298), 166), (Val::I(301), 167), (Val::I(304), 168), (Val::I(307), 169), (Val::I(310), 170), (Val::I(313), 171), (Val::I(316), 172), (Val::I(319), 173), (Val::I(322), 174), (Val::I(325), 175), (Val::I(328), 176), (Val::I(331), 177), (Val::I(334), 178), (Val::I(337), 179), (Val::I(340), 180), (Val::I(343), 181), (Val::I(346), 182), (Val::I(349), 183), (Val::I(352), 184), (Val::I(355), 185), (Val::I(358), 186), (Val::I(361), 187), (Val::I(364), 188), (Val::I(367), 189), (Val::I(370), 190), (Val::I(373), 191), (Val::I(376), 192), (Val::I(379), 193), (Val::I(382), 194), (Val::I(385), 195), (Val::I(388), 196), (Val::I(391), 197), (Val::I(394), 198), (Val::I(397), 199), (Val::I(400), 200), (Val::I(403), 201), (Val::I(406), 202), (Val::I(409), 203), (Val::I(412), 204), (Val::I(415), 205), (Val::I(418), 206), (Val::I(421), 207), (Val::I(424), 208), (Val::I(427), 209), (Val::I(430), 210), (Val::I(433), 211), (Val::I(436), 212), (Val::I(439), 213), (Val::I(442), 214), (Val::I(445), 215), (Val::I(448), 216), (Val::I(451), 217), (Val::I(454), 218), (Val::I(457), 219), (Val::I(460), 220), (Val::I(463), 221), (Val::I(466), 222), (Val::I(469), 223), (Val::I(472), 224), (Val::I(475), 225), (Val::I(478), 226), (Val::I(481), 227), (Val::I(484), 228), (Val::I(487), 229), (Val::I(490), 230), (Val::I(493), 231), (Val::I(496), 232), (Val::I(499), 233), (Val::I(502), 234), (Val::I(505), 235), (Val::I(508), 236), (Val::I(511), 237), (Val::I(514), 238), (Val::I(517), 239), (Val::I(520), 240), (Val::I(523), 241), (Val::I(526), 242), (Val::I(529), 243), (Val::I(532), 244), (Val::I(535), 245), (Val::I(538), 246), (Val::I(541), 247), (Val::I(544), 248), (Val::I(547), 249), (Val::I(550), 250), (Val::I(553), 251), (Val::I(556), 252), (Val::I(559), 253), (Val::I(562), 254), (Val::I(565), 255), (Val::I(568), 256), (Val::I(571), 257), (Val::I(574), 258), (Val::I(577), 259), (Val::I(580), 260), (Val::I(583), 261), (Val::I(586), 262), (Val::I(589), 263), (Val::I(592), 264), (Val::I(595), 265), (Val::I(598), 266), (Val::I(601), 267), (Val::I(604), 268), (Val::I(607), 269), (Val::I(610), 270), (Val::I(613), 271), (Val::I(616), 272), (Val::I(619), 273), (Val::I(622), 274), (Val::I(625), 275), (Val::I(628), 276), (Val::I(631), 277), (Val::I(634), 278), (Val::I(637), 279), (Val::I(640), 280), (Val::I(643), 281), (Val::I(646), 282), (Val::I(649), 283), (Val::I(652), 284), (Val::I(655), 285), (Val::I(658), 286), (Val::I(661), 287), (Val::I(664), 288), (Val::I(667), 289), (Val::I(670), 290), (Val::I(673), 291), (Val::I(676), 292), (Val::I(679), 293), (Val::I(682), 294), (Val::I(685), 295), (Val::I(688), 296), (Val::I(691), 297), (Val::I(694), 298), (Val::I(697), 299), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(-200), vec![]), Self::V1(a0_) => un(Val::I(-197), vec![a0_.to_val()]), Self::V2(a0_, a1_) => un(Val::I(-194), vec![a0_.to_val(), a1_.to_val()]), Self::V3 => un(Val::I(-191), vec![]), Self::V4(a0_) => un(Val::I(-188), vec![a0_.to_val()]), Self::V5(a0_, a1_) => un(Val::I(-185), vec![a0_.to_val(), a1_.to_val()]), Self::V6 => un(Val::I(-182), vec![]), Self::V7(a0_) => un(Val::I(-179), vec![a0_.to_val()]), Self::V8(a0_, a1_) => un(Val::I(-176), vec![a0_.to_val(), a1_.to_val()]), Self::V9 => un(Val::I(-173), vec![]), Self::V10(a0_) => un(Val::I(-170), vec![a0_.to_val()]), Self::V11(a0_, a1_) => un(Val::I(-167), vec![a0_.to_val(), a1_.to_val()]), Self::V12 => un(Val::I(-164), vec![]), Self::V13(a0_) => un(Val::I(-161), vec![a0_.to_val()]), Self::V14(a0_, a1_) => un(Val::I(-158), vec![a0_.to_val(), a1_.to_val()]), Self::V15 => un(Val::I(-155), vec![]), Self::V16(a0_) => un(Val::I(-152), vec![a0_.to_val()]), Self::V17(a0_, a1_) => un(Val::I(-149), vec![a0_.to_val(), a1_.to_val()]), Self::V18 => un(Val::I(-146), vec![]), Self::V19(a0_) => un(Val::I(-143), vec![a0_.to_val()]), Self::V20(a0_, a1_) => un(Val::I(-140), vec![a0_.to_val(), a1_.to_val()]), Self::V21 => un(Val::I(-137), vec![]), Self::V22(a0_) => un(Val::I(-134), vec![a0_.to_val()]), Self::V23(a0_, a1_) => un(Val::I(-131), vec![a0_.to_val(), a1_.to_val()]), Self::V24 => un(Val::I(-128), vec![]), Self::V25(a0_) => un(Val::I(-125), vec![a0_.to_val()]), Self::V26(a0_, a1_) => un(Val::I(-122), vec![a0_.to_val(), a1_.to_val()]), Self::V27 => un(Val::I(-119), vec![]), Self::V28(a0_) => un(Val::I(-116), vec![a0_.to_val()]), Self::V29(a0_, a1_) => un(Val::I(-113), vec![a0_.to_val(), a1_.to_val()]), Self::V30 => un(Val::I(-110), vec![]), Self::V31(a0_) => un(Val::I(-107), vec![a0_.to_val()]), Self::V32(a0_, a1_) => un(Val::I(-104), vec![a0_.to_val(), a1_.to_val()]), Self::V33 => un(Val::I(-101), vec![]), Self::V34(a0_) => un(Val::I(-98), vec![a0_.to_val()]), Self::V35(a0_, a1_) => un(Val::I(-95), vec![a0_.to_val(), a1_.to_val()]), Self::V36 => un(Val::I(-92), vec![]), Self::V37(a0_) => un(Val::I(-89), vec![a0_.to_val()]), Self::V38(a0_, a1_) => un(Val::I(-86), vec![a0_.to_val(), a1_.to_val()]), Self::V39 => un(Val::I(-83), vec![]), Self::V40(a0_) => un(Val::I(-80), vec![a0_.to_val()]), Self::V41(a0_, a1_) => un(Val::I(-77), vec![a0_.to_val(), a1_.to_val()]), Self::V42 => un(Val::I(-74), vec![]), Self::V43(a0_) => un(Val::I(-71), vec![a0_.to_val()]), Self::V44(a0_, a1_) => un(Val::I(-68), vec![a0_.to_val(), a1_.to_val()]), Self::V45 => un(Val::I(-65), vec![]), Self::V46(a0_) => un(Val::I(-62), vec![a0_.to_val()]), Self::V47(a0_, a1_) => un(Val::I(-59), vec![a0_.to_val(), a1_.to_val()]), Self::V48 => un(Val::I(-56), vec![]), Self::V49(a0_) => un(Val::I(-53), vec![a0_.to_val()]), Self::V50(a0_, a1_) => un(Val::I(-50), vec![a0_.to_val(), a1_.to_val()]), Self::V51 => un(Val::I(-47), vec![]), Self::V52(a0_) => un(Val::I(-44), vec![a0_.to_val()]), Self::V53(a0_, a1_) => un(Val::I(-41), vec![a0_.to_val(), a1_.to_val()]), Self::V54 => un(Val::I(-38), vec![]), Self::V55(a0_) => un(Val::I(-35), vec![a0_.to_val()]), Self::V56(a0_, a1_) => un(Val::I(-32), vec![a0_.to_val(), a1_.to_val()]), Self::V57 => un(Val::I(-29), vec![]), Self::V58(a0_) => un(Val::I(-26), vec![a0_.to_val()]), Self::V59(a0_, a1_) => un(Val::I(-23), vec![a0_.to_val(), a1_.to_val()]), Self::V60 => un(Val::I(-20), vec![]), Self::V61(a0_) => un(Val::I(-17), vec![a0_.to_val()]), Self::V62(a0_, a1_) => un(Val::I(-14), vec![a0_.to_val(), a1_.to_val()]), Self::V63 => un(Val::I(-11), vec![]), Self::V64(a0_) => un(Val::I(-8), vec![a0_.to_val()]), Self::V65(a0_, a1_) => un(Val::I(-5), vec![a0_.to_val(), a1_.to_val()]), Self::V66 => un(Val::I(-2), vec![]), Self::V67(a0_) => un(Val::I(1), vec![a0_.to_val()]), Self::V68(a0_, a1_) => un(Val::I(4), vec![a0_.to_val(), a1_.to_val()]), Self::V69 => un(Val::I(7), vec![]), Self::V70(a0_) => un(Val::I(10), vec![a0_.to_val()]), Self::V71(a0_, a1_) => un(Val::I(13), vec![a0_.to_val(), a1_.to_val()]), Self::V72 => un(Val::I(16), vec![]), Self::V73(a0_) => un(Val::I(19), vec![a0_.to_val()]), Self::V74(a0_, a1_) => un(Val::I(22), vec![a0_.to_val(), a1_.to_val()]), Self::V75 => un(Val::I(25), vec![]), Self::V76(a0_) => un(Val::I(28), vec![a0_.to_val()]), Self::V77(a0_, a1_) => un(Val::I(31), vec![a0_.to_val(), a1_.to_val()]), Self::V78 => un(Val::I(34), vec![]), Self::V79(a0_) => un(Val::I(37), vec![a0_.to_val()]), Self::V80(a0_, a1_) => un(Val::I(40), vec![a0_.to_val(), a1_.to_val()]), Self::V81 => un(Val::I(43), vec![]), Self::V82(a0_) => un(Val::I(46), vec![a0_.to_val()]), Self::V83(a0_, a1_) => un(Val::I(49), vec![a0_.to_val(), a1_.to_val()]), Self::V84 => un(Val::I(52), vec![]), Self::V85(a0_) => un(Val::I(55), vec![a0_.to_val()]), Self::V86(a0_, a1_) => un(Val::I(58), vec![a0_.to_val(), a1_.to_val()]), Self::V87 => un(Val::I(61), vec![]), Self::V88(a0_) => un(Val::I(64), vec![a0_.to_val()]), Self::V89(a0_, a1_) => un(Val::I(67), vec![a0_.to_val(), a1_.to_val()]), Self::V90 => un(Val::I(70), vec![]), Self::V91(a0_) => un(Val::I(73), vec![a0_.to_val()]), Self::V92(a0_, a1_) => un(Val::I(76), vec![a0_.to_val(), a1_.to_val()]), Self::V93 => un(Val::I(79), vec![]), Self::V94(a0_) => un(Val::I(82), vec![a0_.to_val()]), Self::V95(a0_, a1_) => un(Val::I(85), vec![a0_.to_val(), a1_.to_val()]), Self::V96 => un(Val::I(88), vec![]), Self::V97(a0_) => un(Val::I(91), vec![a0_.to_val()]), Self::V98(a0_, a1_) => un(Val::I(94), vec![a0_.to_val(), a1_.to_val()]), Self::V99 => un(Val::I(97), vec![]), Self::V100(a0_) => un(Val::I(100), vec![a0_.to_val()]), Self::V101(a0_, a1_) => un(Val::I(103), vec![a0_.to_val(), a1_.to_val()]), Self::V102 => un(Val::I(106), vec![]), Self::V103(a0_) => un(Val::I(109), vec![a0_.to_val()]), Self::V104(a0_, a1_) => un(Val::I(112), vec![a0_.to_val(), a1_.to_val()]), Self::V105 => un(Val::I(115), vec![]), Self::V106(a0_) => un(Val::I(118), vec![a0_.to_val()]), Self::V107(a0_, a1_) => un(Val::I(121), vec![a0_.to_val(), a1_.to_val()]), Self::V108 => un(Val::I(124), vec![]), Self::V109(a0_) => un(Val::I(127), vec![a0_.to_val()]), Self::V110(a0_, a1_) => un(Val::I(130), vec![a0_.to_val(), a1_.to_val()]), Self::V111 => un(Val::I(133), vec![]), Self::V112(a0_) => un(Val::I(136), vec![a0_.to_val()]), Self::V113(a0_, a1_) => un(Val::I(139), vec![a0_.to_val(), a1_.to_val()]), Self::V114 => un(Val::I(142), vec![]), Self::V115(a0_) => un(Val::I(145), vec![a0_.to_val()]), Self::V116(a0_, a1_) => un(Val::I(148), vec![a0_.to_val(), a1_.to_val()]), Self::V117 => un(Val::I(151), vec![]), Self::V118(a0_) => un(Val::I(154), vec![a0_.to_val()]), Self::V119(a0_, a1_) => un(Val::I(157), vec![a0_.to_val(), a1_.to_val()]), Self::V120 => un(Val::I(160), vec![]), Self::V121(a0_) => un(Val::I(163), vec![a0_.to_val()]), Self::V122(a0_, a1_) => un(Val::I(166), vec![a0_.to_val(), a1_.to_val()]), Self::V123 => un(Val::I(169), vec![]), Self::V124(a0_) => un(Val::I(172), vec![a0_.to_val()]), Self::V125(a0_, a1_) => un(Val::I(175), vec![a0_.to_val(), a1_.to_val()]), Self::V126 => un(Val::I(178), vec![]), Self::V127(a0_) => un(Val::I(181), vec![a0_.to_val()]), Self::V128(a0_, a1_) => un(Val::I(184), vec![a0_.to_val(), a1_.to_val()]), Self::V129 => un(Val::I(187), vec![]), Self::V130(a0_) => un(Val::I(190), vec![a0_.to_val()]), Self::V131(a0_, a1_) => un(Val::I(193), vec![a0_.to_val(), a1_.to_val()]), Self::V132 => un(Val::I(196), vec![]), Self::V133(a0_) => un(Val::I(199), vec![a0_.to_val()]), Self::V134(a0_, a1_) => un(Val::I(202), vec![a0_.to_val(), a1_.to_val()]), Self::V135 => un(Val::I(205), vec![]), Self::V136(a0_) => un(Val::I(208), vec![a0_.to_val()]), Self::V137(a0_, a1_) => un(Val::I(211), vec![a0_.to_val(), a1_.to_val()]), Self::V138 => un(Val::I(214), vec![]), Self::V139(a0_) => un(Val::I(217), vec![a0_.to_val()]), Self::V140(a0_, a1_) => un(Val::I(220), vec![a0_.to_val(), a1_.to_val()]), Self::V141 => un(Val::I(223), vec![]), Self::V142(a0_) => un(Val::I(226), vec![a0_.to_val()]), Self::V143(a0_, a1_) => un(Val::I(229), vec![a0_.to_val(), a1_.to_val()]), Self::V144 => un(Val::I(232), vec![]), Self::V145(a0_) => un(Val::I(235), vec![a0_.to_val()]), Self::V146(a0_, a1_) => un(Val::I(238), vec![a0_.to_val(), a1_.to_val()]), Self::V147 => un(Val::I(241), vec![]), Self::V148(a0_) => un(Val::I(244), vec![a0_.to_val()]), Self::V149(a0_, a1_) => un(Val::I(247), vec![a0_.to_val(), a1_.to_val()]), Self::V150 => un(Val::I(250), vec![]), Self::V151(a0_) => un(Val::I(253), vec![a0_.to_val()]), Self::V152(a0_, a1_) => un(Val::I(256), vec![a0_.to_val(), a1_.to_val()]), Self::V153 => un(Val::I(259), vec![]), Self::V154(a0_) => un(Val::I(262), vec![a0_.to_val()]), Self::V155(a0_, a1_) => un(Val::I(265), vec![a0_.to_val(), a1_.to_val()]), Self::V156 => un(Val::I(268), vec![]), Self::V157(a0_) => un(Val::I(271), vec![a0_.to_val()]), Self::V158(a0_, a1_) => un(Val::I(274), vec![a0_.to_val(), a1_.to_val()]), Self::V159 => un(Val::I(277), vec![]), Self::V160(a0_) => un(Val::I(280), vec![a0_.to_val()]), Self::V161(a0_, a1_) => un(Val::I(283), vec![a0_.to_val(), a1_.to_val()]), Self::V162 => un(Val::I(286), vec![]), Self::V163(a0_) => un(Val::I(289), vec![a0_.to_val()]), Self::V164(a0_, a1_) => un(Val::I(292), vec![a0_.to_val(), a1_.to_val()]), Self::V165 => un(Val::I(295), vec![]), Self::V166(a0_) => un(Val::I(298), vec![a0_.to_val()]), Self::V167(a0_, a1_) => un(Val::I(301), vec![a0_.to_val(), a1_.to_val()]), Self::V168 => un(Val::I(304), vec![]), Self::V169(a0_) => un(Val::I(307), vec![a0_.to_val()]), Self::V170(a0_, a1_) => un(Val::I(310), vec![a0_.to_val(), a1_.to_val()]), Self::V171 => un(Val::I(313), vec![]), Self::V172(a0_) => un(Val::I(316), vec![a0_.to_val()]), Self::V173(a0_, a1_) => un(Val::I(319), vec![a0_.to_val(), a1_.to_val()]), Self::V174 => un(Val::I(322), vec![]), Self::V175(a0_) => un(Val::I(325), vec![a0_.to_val()]), Self::V176(a0_, a1_) => un(Val::I(328), vec![a0_.to_val(), a1_.to_val()]), Self::V177 => un(Val::I(331), vec![]), Self::V178(a0_) => un(Val::I(334), vec![a0_.to_val()]), Self::V179(a0_, a1_) => un(Val::I(337), vec![a0_.to_val(), a1_.to_val()]), Self::V180 => un(Val::I(340), vec![]), Self::V181(a0_) => un(Val::I(343), vec![a0_.to_val()]), Self::V182(a0_, a1_) => un(Val::I(346), vec![a0_.to_val(), a1_.to_val()]), Self::V183 => un(Val::I(349), vec![]), Self::V184(a0_) => un(Val::I(352), vec![a0_.to_val()]), Self::V185(a0_, a1_) => un(Val::I(355), vec![a0_.to_val(), a1_.to_val()]), Self::V186 => un(Val::I(358), vec![]), Self::V187(a0_) => un(Val::I(361), vec![a0_.to_val()]), Self::V188(a0_, a1_) => un(Val::I(364), vec![a0_.to_val(), a1_.to_val()]), Self::V189 => un(Val::I(367), vec![]), Self::V190(a0_) => un(Val::I(370), vec![a0_.to_val()]), Self::V191(a0_, a1_) => un(Val::I(373), vec![a0_.to_val(), a1_.to_val()]), Self::V192 => un(Val::I(376), vec![]), Self::V193(a0_) => un(Val::I(379), vec![a0_.to_val()]), Self::V194(a0_, a1_) => un(Val::I(382), vec![a0_.to_val(), a1_.to_val()]), Self::V195 => un(Val::I(385), vec![]), Self::V196(a0_) => un(Val::I(388), vec![a0_.to_val()]), Self::V197(a0_, a1_) => un(Val::I(391), vec![a0_.to_val(), a1_.to_val()]), Self::V198 => un(Val::I(394), vec![]), Self::V199(a0_) => un(Val::I(397), vec![a0_.to_val()]), Self::V200(a0_, a1_) => un(Val::I(400), vec![a0_.to_val(), a1_.to_val()]), Self::V201 => un(Val::I(403), vec![]), Self::V202(a0_) => un(Val::I(406), vec![a0_.to_val()]), Self::V203(a0_, a1_) => un(Val::I(409), vec![a0_.to_val(), a1_.to_val()]), Self::V204 => un(Val::I(412), vec![]), Self::V205(a0_) => un(Val::I(415), vec![a0_.to_val()]), Self::V206(a0_, a1_) => un(Val::I(418), vec![a0_.to_val(), a1_.to_val()]), Self::V207 => un(Val::I(421), vec![]), Self::V208(a0_) => un(Val::I(424), vec![a0_.to_val()]), Self::V209(a0_, a1_) => un(Val::I(427), vec![a0_.to_val(), a1_.to_val()]), Self::V210 => un(Val::I(430), vec![]), Self::V211(a0_) => un(Val::I(433), vec![a0_.to_val()]), Self::V212(a0_, a1_) => un(Val::I(436), vec![a0_.to_val(), a1_.to_val()]), Self::V213 => un(Val::I(439), vec![]), Self::V214(a0_) => un(Val::I(442), vec![a0_.to_val()]), Self::V215(a0_, a1_) => un(Val::I(445), vec![a0_.to_val(), a1_.to_val()]), Self::V216 => un(Val::I(448), vec![]), Self::V217(a0_) => un(Val::I(451), vec![a0_.to_val()]), Self::V218(a0_, a1_) => un(Val::I(454), vec![a0_.to_val(), a1_.to_val()]), Self::V219 => un(Val::I(457), vec![]), Self::V220(a0_) => un(Val::I(460), vec![a0_.to_val()]), Self::V221(a0_, a1_) => un(Val::I(463), vec![a0_.to_val(), a1_.to_val()]), Self::V222 => un(Val::I(466), vec![]), Self::V223(a0_) => un(Val::I(469), vec![a0_.to_val()]), Self::V224(a0_, a1_) => un(Val::I(472), vec![a0_.to_val(), a1_.to_val()]), Self::V225 => un(Val::I(475), vec![]), Self::V226(a0_) => un(Val::I(478), vec![a0_.to_val()]), Self::V227(a0_, a1_) => un(Val::I(481), vec![a0_.to_val(), a1_.to_val()]), Self::V228 => un(Val::I(484), vec![]), Self::V229(a0_) => un(Val::I(487), vec![a0_.to_val()]), Self::V230(a0_, a1_) => un(Val::I(490), vec![a0_.to_val(), a1_.to_val()]), Self::V231 => un(Val::I(493), vec![]), Self::V232(a0_) => un(Val::I(496), vec![a0_.to_val()]), Self::V233(a0_, a1_) => un(Val::I(499), vec![a0_.to_val(), a1_.to_val()]), Self::V234 => un(Val::I(502), vec![]), Self::V235(a0_) => un(Val::I(505), vec![a0_.to_val()]), Self::V236(a0_, a1_) => un(Val::I(508), vec![a0_.to_val(), a1_.to_val()]), Self::V237 => un(Val::I(511), vec![]), Self::V238(a0_) => un(Val::I(514), vec![a0_.to_val()]), Self::V239(a0_, a1_) => un(Val::I(517), vec![a0_.to_val(), a1_.to_val()]), Self::V240 => un(Val::I(520), vec![]), Self::V241(a0_) => un(Val::I(523), vec![a0_.to_val()]), Self::V242(a0_, a1_) => un(Val::I(526), vec![a0_.to_val(), a1_.to_val()]), Self::V243 => un(Val::I(529), vec![]), Self::V244(a0_) => un(Val::I(532), vec![a0_.to_val()]), Self::V245(a0_, a1_) => un(Val::I(535), vec![a0_.to_val(), a1_.to_val()]), Self::V246 => un(Val::I(538), vec![]), Self::V247(a0_) => un(Val::I(541), vec![a0_.to_val()]), Self::V248(a0_, a1_) => un(Val::I(544), vec![a0_.to_val(), a1_.to_val()]), Self::V249 => un(Val::I(547), vec![]), Self::V250(a0_) => un(Val::I(550), vec![a0_.to_val()]), Self::V251(a0_, a1_) => un(Val::I(553), vec![a0_.to_val(), a1_.to_val()]), Self::V252 => un(Val::I(556), vec![]), Self::V253(a0_) => un(Val::I(559), vec![a0_.to_val()]), Self::V254(a0_, a1_) => un(Val::I(562), vec![a0_.to_val(), a1_.to_val()]), Self::V255 => un(Val::I(565), vec![]), Self::V256(a0_) => un(Val::I(568), vec![a0_.to_val()]), Self::V257(a0_, a1_) => un(Val::I(571), vec![a0_.to_val(), a1_.to_val()]), Self::V258 => un(Val::I(574), vec![]), Self::V259(a0_) => un(Val::I(577), vec![a0_.to_val()]), Self::V260(a0_, a1_) => un(Val::I(580), vec![a0_.to_val(), a1_.to_val()]), Self::V261 => un(Val::I(583), vec![]), Self::V262(a0_) => un(Val::I(586), vec![a0_.to_val()]), Self::V263(a0_, a1_) => un(Val::I(589), vec![a0_.to_val(), a1_.to_val()]), Self::V264 => un(Val::I(592), vec![]), Self::V265(a0_) => un(Val::I(595), vec![a0_.to_val()]), Self::V266(a0_, a1_) => un(Val::I(598), vec![a0_.to_val(), a1_.to_val()]), Self::V267 => un(Val::I(601), vec![]), Self::V268(a0_) => un(Val::I(604), vec![a0_.to_val()]), Self::V269(a0_, a1_) => un(Val::I(607), vec![a0_.to_val(), a1_.to_val()]), Self::V270 => un(Val::I(610), vec![]), Self::V271(a0_) => un(Val::I(613), vec![a0_.to_val()]), Self::V272(a0_, a1_) => un(Val::I(616), vec![a0_.to_val(), a1_.to_val()]), Self::V273 => un(Val::I(619), vec![]), Self::V274(a0_) => un(Val::I(622), vec![a0_.to_val()]), Self::V275(a0_, a1_) => un(Val::I(625), vec![a0_.to_val(), a1_.to_val()]), Self::V276 => un(Val::I(628), vec![]), Self::V277(a0_) => un(Val::I(631), vec![a0_.to_val()]), Self::V278(a0_, a1_) => un(Val::I(634), vec![a0_.to_val(), a1_.to_val()]), Self::V279 => un(Val::I(637), vec![]), Self::V280(a0_) => un(Val::I(640), vec![a0_.to_val()]), Self::V281(a0_, a1_) => un(Val::I(643), vec![a0_.to_val(), a1_.to_val()]), Self::V282 => un(Val::I(646), vec![]), Self::V283(a0_) => un(Val::I(649), vec![a0_.to_val()]), Self::V284(a0_, a1_) => un(Val::I(652), vec![a0_.to_val(), a1_.to_val()]), Self::V285 => un(Val::I(655), vec![]), Self::V286(a0_) => un(Val::I(658), vec![a0_.to_val()]), Self::V287(a0_, a1_) => un(Val::I(661), vec![a0_.to_val(), a1_.to_val()]), Self::V288 => un(Val::I(664), vec![]), Self::V289(a0_) => un(Val::I(667), vec![a0_.to_val()]), Self::V290(a0_, a1_) => un(Val::I(670), vec![a0_.to_val(), a1_.to_val()]), Self::V291 => un(Val::I(673), vec![]), Self::V292(a0_) => un(Val::I(676), vec![a0_.to_val()]), Self::V293(a0_, a1_) => un(Val::I(679), vec![a0_.to_val(), a1_.to_val()]), Self::V294 => un(Val::I(682), vec![]), Self::V295(a0_) => un(Val::I(685), vec![a0_.to_val()]), Self::V296(a0_, a1_) => un(Val::I(688), vec![a0_.to_val(), a1_.to_val()]), Self::V297 => un(Val::I(691), vec![]), Self::V298(a0_) => un(Val::I(694), vec![a0_.to_val()]), Self::V299(a0_, a1_) => un(Val::I(697), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1(x(l_, 0)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?), 3 => Self::V3, 4 => Self::V4(x(l_, 0)?), 5 => Self::V5(x(l_, 0)?, x(l_, 1)?), 6 => Self::V6, 7 => Self::V7(x(l_, 0)?), 8 => Self::V8(x(l_, 0)?, x(l_, 1)?), 9 => Self::V9, 10 => Self::V10(x(l_, 0)?), 11 => Self::V11(x(l_, 0)?, x(l_, 1)?), 12 => Self::V12, 13 => Self::V13(x(l_, 0)?), 14 => Self::V14(x(l_, 0)?, x(l_, 1)?), 15 => Self::V15, 16 => Self::V16(x(l_, 0)?), 17 => Self::V17(x(l_, 0)?, x(l_, 1)?), 18 => Self::V18, 19 => Self::V19(x(l_, 0)?), 20 => Self::V20(x(l_, 0)?, x(l_, 1)?), 21 => Self::V21, 22 => Self::V22(x(l_, 0)?), 23 => Self::V23(x(l_, 0)?, x(l_, 1)?), 24 => Self::V24, 25 => Self::V25(x(l_, 0)?), 26 => Self::V26(x(l_, 0)?, x(l_, 1)?), 27 => Self::V27, 28 => Self::V28(x(l_, 0)?), 29 => Self::V29(x(l_, 0)?, x(l_, 1)?), 30 => Self::V30, 31 => Self::V31(x(l_, 0)?), 32 => Self::V32(x(l_, 0)?, x(l_, 1)?), 33 => Self::V33, 34 => Self::V34(x(l_, 0)?), 35 => Self::V35(x(l_, 0)?, x(l_, 1)?), 36 => Self::V36, 37 => Self::V37(x(l_, 0)?), 38 => Self::V38(x(l_, 0)?, x(l_, 1)?), 39 => Self::V39, 40 => Self::V40(x(l_, 0)?), 41 => Self::V41(x(l_, 0)?, x(l_, 1)?), 42 => Self::V42, 43 => Self::V43(x(l_, 0)?), 44 => Self::V44(x(l_, 0)?, x(l_, 1)?), 45 => Self::V45, 46 => Self::V46(x(l_, 0)?), 47 => Self::V47(x(l_, 0)?, x(l_, 1)?), 48 => Self::V48, 49 => Self::V49(x(l_, 0)?), 50 => Self::V50(x(l_, 0)?, x(l_, 1)?), 51 => Self::V51, 52 => Self::V52(x(l_, 0)?), 53 => Self::V53(x(l_, 0)?, x(l_, 1)?), 54 => Self::V54, 55 => Self::V55(x(l_, 0)?), 56 => Self::V56(x(l_, 0)?, x(l_, 1)?), 57 => Self::V57, 58 => Self::V58(x(l_, 0)?), 59 => Self::V59(x(l_, 0)?, x(l_, 1)?), 60 => Self::V60, 61 => Self::V61(x(l_, 0)?), 62 => Self::V62(x(l_, 0)?, x(l_, 1)?), 63 => Self::V63, 64 => Self::V64(x(l_, 0)?), 65 => Self::V65(x(l_, 0)?, x(l_, 1)?), 66 => Self::V66, 67 => Self::V67(x(l_, 0)?), 68 => Self::V68(x(l_, 0)?, x(l_, 1)?), 69 => Self::V69, 70 => Self::V70(x(l_, 0)?), 71 => Self::V71(x(l_, 0)?, x(l_, 1)?), 72 => Self::V72, 73 => Self::V73(x(l_, 0)?), 74 => Self::V74(x(l_, 0)?, x(l_, 1)?), 75 => Self::V75, 76 => Self::V76(x(l_, 0)?), 77 => Self::V77(x(l_, 0)?, x(l_, 1)?), 78 => Self::V78, 79 => Self::V79(x(l_, 0)?), 80 => Self::V80(x(l_, 0)?, x(l_, 1)?), 81 => Self::V81, 82 => Self::V82(x(l_, 0)?), 83 => Self::V83(x(l_, 0)?, x(l_, 1)?), 84 => Self::V84, 85 => Self::V85(x(l_, 0)?), 86 => Self::V86(x(l_, 0)?, x(l_, 1)?), 87 => Self::V87, 88 => Self::V88(x(l_, 0)?), 89 => Self::V89(x(l_, 0)?, x(l_, 1)?), 90 => Self::V90, 91 => Self::V91(x(l_, 0)?), 92 => Self::V92(x(l_, 0)?, x(l_, 1)?), 93 => Self::V93, 94 => Self::V94(x(l_, 0)?), 95 => Self::V95(x(l_, 0)?, x(l_, 1)?), 96 => Self::V96, 97 => Self::V97(x(l_, 0)?), 98 => Self::V98(x(l_, 0)?, x(l_, 1)?), 99 => Self::V99, 100 => Self::V100(x(l_, 0)?), 101 => Self::V101(x(l_, 0)?, x(l_, 1)?), 102 => Self::V102, 103 => Self::V103(x(l_, 0)?), 104 => Self::V104(x(l_, 0)?, x(l_, 1)?), 105 => Self::V105, 106 => Self::V106(x(l_, 0)?), 107 => Self::V107(x(l_, 0)?, x(l_, 1)?), 108 => Self::V108, 109 => Self::V109(x(l_, 0)?), 110 => Self::V110(x(l_, 0)?, x(l_, 1)?), 111 => Self::V111, 112 => Self::V112(x(l_, 0)?), 113 => Self::V113(x(l_, 0)?, x(l_, 1)?), 114 => Self::V114, 115 => Self::V115(x(l_, 0)?), 116 => Self::V116(x(l_, 0)?, x(l_, 1)?), 117 => Self::V117, 118 => Self::V118(x(l_, 0)?), 119 => Self::V119(x(l_, 0)?, x(l_, 1)?), 120 => Self::V120, 121 => Self::V121(x(l_, 0)?), 122 => Self::V122(x(l_, 0)?, x(l_, 1)?), 123 => Self::V123, 124 => Self::V124(x(l_, 0)?), 125 => Self::V125(x(l_, 0)?, x(l_, 1)?), 126 => Self::V126, 127 => Self::V127(x(l_, 0)?), 128 => Self::V128(x(l_, 0)?, x(l_, 1)?), 129 => Self::V129, 130 => Self::V130(x(l_, 0)?), 131 => Self::V131(x(l_, 0)?, x(l_, 1)?), 132 => Self::V132, 133 => Self::V133(x(l_, 0)?), 134 => Self::V134(x(l_, 0)?, x(l_, 1)?), 135 => Self::V135, 136 => Self::V136(x(l_, 0)?), 137 => Self::V137(x(l_, 0)?, x(l_, 1)?), 138 => Self::V138, 139 => Self::V139(x(l_, 0)?), 140 => Self::V140(x(l_, 0)?, x(l_, 1)?), 141 => Self::V141, 142 => Self::V142(x(l_, 0)?), 143 => Self::V143(x(l_, 0)?, x(l_, 1)?), 144 => Self::V144, 145 => Self::V145(x(l_, 0)?), 146 => Self::V146(x(l_, 0)?, x(l_, 1)?), 147 => Self::V147, 148 => Self::V148(x(l_, 0)?), 149 => Self::V149(x(l_, 0)?, x(l_, 1)?), 150 => Self::V150, 151 => Self::V151(x(l_, 0)?), 152 => Self::V152(x(l_, 0)?, x(l_, 1)?), 153 => Self::V153, 154 => Self::V154(x(l_, 0)?), 155 => Self::V155(x(l_, 0)?, x(l_, 1)?), 156 => Self::V156, 157 => Self::V157(x(l_, 0)?), 158 => Self::V158(x(l_, 0)?, x(l_, 1)?), 159 => Self::V159, 160 => Self::V160(x(l_, 0)?), 161 => Self::V161(x(l_, 0)?, x(l_, 1)?), 162 => Self::V162, 163 => Self::V163(x(l_, 0)?), 164 => Self::V164(x(l_, 0)?, x(l_, 1)?), 165 => Self::V165, 166 => Self::V166(x(l_, 0)?), 167 => Self::V167(x(l_, 0)?, x(l_, 1)?), 168 => Self::V168, 169 => Self::V169(x(l_, 0)?), 170 => Self::V170(x(l_, 0)?, x(l_, 1)?), 171 => Self::V171, 172 => Self::V172(x(l_, 0)?), 173 => Self::V173(x(l_, 0)?, x(l_, 1)?), 174 => Self::V174, 175 => Self::V175(x(l_, 0)?), 176 => Self::V176(x(l_, 0)?, x(l_, 1)?), 177 => Self::V177, 178 => Self::V178(x(l_, 0)?), 179 => Self::V179(x(l_, 0)?, x(l_, 1)?), 180 => Self::V180, 181 => Self::V181(x(l_, 0)?), 182 => Self::V182(x(l_, 0)?, x(l_, 1)?), 183 => Self::V183, 184 => Self::V184(x(l_, 0)?), 185 => Self::V185(x(l_, 0)?, x(l_, 1)?), 186 => Self::V186, 187 => Self::V187(x(l_, 0)?), 188 => Self::V188(x(l_, 0)?, x(l_, 1)?), 189 => Self::V189, 190 => Self::V190(x(l_, 0)?), 191 => Self::V191(x(l_, 0)?, x(l_, 1)?), 192 => Self::V192, 193 => Self::V193(x(l_, 0)?), 194 => Self::V194(x(l_, 0)?, x(l_, 1)?), 195 => Self::V195, 196 => Self::V196(x(l_, 0)?), 197 => Self::V197(x(l_, 0)?, x(l_, 1)?), 198 => Self::V198, 199 => Self::V199(x(l_, 0)?), 200 => Self::V200(x(l_, 0)?, x(l_, 1)?), 201 => Self::V201, 202 => Self::V202(x(l_, 0)?), 203 => Self::V203(x(l_, 0)?, x(l_, 1)?), 204 => Self::V204, 205 => Self::V205(x(l_, 0)?), 206 => Self::V206(x(l_, 0)?, x(l_, 1)?), 207 => Self::V207, 208 => Self::V208(x(l_, 0)?), 209 => Self::V209(x(l_, 0)?, x(l_, 1)?), 210 => Self::V210, 211 => Self::V211(x(l_, 0)?), 212 => Self::V212(x(l_, 0)?, x(l_, 1)?), 213 => Self::V213, 214 => Self::V214(x(l_, 0)?), 215 => Self::V215(x(l_, 0)?, x(l_, 1)?), 216 => Self::V216, 217 => Self::V217(x(l_, 0)?), 218 => Self::V218(x(l_, 0)?, x(l_, 1)?), 219 => Self::V219, 220 => Self::V220(x(l_, 0)?), 221 => Self::V221(x(l_, 0)?, x(l_, 1)?), 222 => Self::V222, 223 => Self::V223(x(l_, 0)?), 224 => Self::V224(x(l_, 0)?, x(l_, 1)?), 225 => Self::V225, 226 => Self::V226(x(l_, 0)?), 227 => Self::V227(x(l_, 0)?, x(l_, 1)?), 228 => Self::V228, 229 => Self::V229(x(l_, 0)?), 230 => Self::V230(x(l_, 0)?, x(l_, 1)?), 231 => Self::V231, 232 => Self::V232(x(l_, 0)?), 233 => Self::V233(x(l_, 0)?, x(l_, 1)?), 234 => Self::V234, 235 => Self::V235(x(l_, 0)?), 236 => Self::V236(x(l_, 0)?, x(l_, 1)?), 237 => Self::V237, 238 => Self::V238(x(l_, 0)?), 239 => Self::V239(x(l_, 0)?, x(l_, 1)?), 240 => Self::V240, 241 => Self::V241(x(l_, 0)?), 242 => Self::V242(x(l_, 0)?, x(l_, 1)?), 243 => Self::V243, 244 => Self::V244(x(l_, 0)?), 245 => Self::V245(x(l_, 0)?, x(l_, 1)?), 246 => Self::V246, 247 => Self::V247(x(l_, 0)?), 248 => Self::V248(x(l_, 0)?, x(l_, 1)?), 249 => Self::V249, 250 => Self::V250(x(l_, 0)?), 251 => Self::V251(x(l_, 0)?, x(l_, 1)?), 252 => Self::V252, 253 => Self::V253(x(l_, 0)?), 254 => Self::V254(x(l_, 0)?, x(l_, 1)?), 255 => Self::V255, 256 => Self::V256(x(l_, 0)?), 257 => Self::V257(x(l_, 0)?, x(l_, 1)?), 258 => Self::V258, 259 => Self::V259(x(l_, 0)?), 260 => Self::V260(x(l_, 0)?, x(l_, 1)?), 261 => Self::V261, 262 => Self::V262(x(l_, 0)?), 263 => Self::V263(x(l_, 0)?, x(l_, 1)?), 264 => Self::V264, 265 => Self::V265(x(l_, 0)?), 266 => Self::V266(x(l_, 0)?, x(l_, 1)?), 267 => Self::V267, 268 => Self::V268(x(l_, 0)?), 269 => Self::V269(x(l_, 0)?, x(l_, 1)?), 270 => Self::V270, 271 => Self::V271(x(l_, 0)?), 272 => Self::V272(x(l_, 0)?, x(l_, 1)?), 273 => Self::V273, 274 => Self::V274(x(l_, 0)?), 275 => Self::V275(x(l_, 0)?, x(l_, 1)?), 276 => Self::V276, 277 => Self::V277(x(l_, 0)?), 278 => Self::V278(x(l_, 0)?, x(l_, 1)?), 279 => Self::V279, 280 => Self::V280(x(l_, 0)?), 281 => Self::V281(x(l_, 0)?, x(l_, 1)?), 282 => Self::V282, 283 => Self::V283(x(l_, 0)?), 284 => Self::V284(x(l_, 0)?, x(l_, 1)?), 285 => Self::V285, 286 => Self::V286(x(l_, 0)?), 287 => Self::V287(x(l_, 0)?, x(l_, 1)?), 288 => Self::V288, 289 => Self::V289(x(l_, 0)?), 290 => Self::V290(x(l_, 0)?, x(l_, 1)?), 291 => Self::V291, 292 => Self::V292(x(l_, 0)?), 293 => Self::V293(x(l_, 0)?, x(l_, 1)?), 294 => Self::V294, 295 => Self::V295(x(l_, 0)?), 296 => Self::V296(x(l_, 0)?, x(l_, 1)?), 297 => Self::V297, 298 => Self::V298(x(l_, 0)?), 299 => Self::V299(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IItems0 { V0, V1 }
impl serde_xdr::XdrIndexer for IItems0 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 5 => Ok("V0"), -5 => Ok("V1"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 5, Self::V1{..} => -5,  } }
}
impl Model for IItems0 {
    fn ty() -> Ty { union(Ty::I32of(vec![5, -5]), vec![vec![], vec![], ], vec![(Val::I(5), 0), (Val::I(-5), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(5), vec![]), Self::V1 => un(Val::I(-5), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IItems1 { V0(u8), V1 }
impl serde_xdr::XdrIndexer for IItems1 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 5 => Ok("V0"), -5 => Ok("V1"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 5, Self::V1{..} => -5,  } }
}
impl Model for IItems1 {
    fn ty() -> Ty { union(Ty::I32of(vec![5, -5]), vec![vec![m::<u8>()], vec![], ], vec![(Val::I(5), 0), (Val::I(-5), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_) => un(Val::I(5), vec![a0_.to_val()]), Self::V1 => un(Val::I(-5), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?), 1 => Self::V1, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IItems2 { V0(u8, String), V1 }
impl serde_xdr::XdrIndexer for IItems2 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 5 => Ok("V0"), -5 => Ok("V1"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 5, Self::V1{..} => -5,  } }
}
impl Model for IItems2 {
    fn ty() -> Ty { union(Ty::I32of(vec![5, -5]), vec![vec![m::<u8>(), m::<String>()], vec![], ], vec![(Val::I(5), 0), (Val::I(-5), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_, a1_) => un(Val::I(5), vec![a0_.to_val(), a1_.to_val()]), Self::V1 => un(Val::I(-5), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?, x(l_, 1)?), 1 => Self::V1, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IItems3 { V0(u8, String, i64), V1 }
impl serde_xdr::XdrIndexer for IItems3 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 5 => Ok("V0"), -5 => Ok("V1"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 5, Self::V1{..} => -5,  } }
}
impl Model for IItems3 {
    fn ty() -> Ty { union(Ty::I32of(vec![5, -5]), vec![vec![m::<u8>(), m::<String>(), m::<i64>()], vec![], ], vec![(Val::I(5), 0), (Val::I(-5), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_, a1_, a2_) => un(Val::I(5), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V1 => un(Val::I(-5), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 1 => Self::V1, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IItems4 { V0(u8, String, i64, bool), V1 }
impl serde_xdr::XdrIndexer for IItems4 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 5 => Ok("V0"), -5 => Ok("V1"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 5, Self::V1{..} => -5,  } }
}
impl Model for IItems4 {
    fn ty() -> Ty { union(Ty::I32of(vec![5, -5]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>()], vec![], ], vec![(Val::I(5), 0), (Val::I(-5), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_, a1_, a2_, a3_) => un(Val::I(5), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val()]), Self::V1 => un(Val::I(-5), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?), 1 => Self::V1, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IItems5 { V0(u8, String, i64, bool, Vec<u16>), V1 }
impl serde_xdr::XdrIndexer for IItems5 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 5 => Ok("V0"), -5 => Ok("V1"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 5, Self::V1{..} => -5,  } }
}
impl Model for IItems5 {
    fn ty() -> Ty { union(Ty::I32of(vec![5, -5]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>()], vec![], ], vec![(Val::I(5), 0), (Val::I(-5), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_, a1_, a2_, a3_, a4_) => un(Val::I(5), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val()]), Self::V1 => un(Val::I(-5), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?), 1 => Self::V1, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IItems6 { V0(u8, String, i64, bool, Vec<u16>, i16), V1 }
impl serde_xdr::XdrIndexer for IItems6 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 5 => Ok("V0"), -5 => Ok("V1"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 5, Self::V1{..} => -5,  } }
}
impl Model for IItems6 {
    fn ty() -> Ty { union(Ty::I32of(vec![5, -5]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>()], vec![], ], vec![(Val::I(5), 0), (Val::I(-5), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_, a1_, a2_, a3_, a4_, a5_) => un(Val::I(5), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val()]), Self::V1 => un(Val::I(-5), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?), 1 => Self::V1, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IItems7 { V0(u8, String, i64, bool, Vec<u16>, i16, Option<i8>), V1 }
impl serde_xdr::XdrIndexer for IItems7 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 5 => Ok("V0"), -5 => Ok("V1"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 5, Self::V1{..} => -5,  } }
}
impl Model for IItems7 {
    fn ty() -> Ty { union(Ty::I32of(vec![5, -5]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>()], vec![], ], vec![(Val::I(5), 0), (Val::I(-5), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_, a1_, a2_, a3_, a4_, a5_, a6_) => un(Val::I(5), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val()]), Self::V1 => un(Val::I(-5), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?), 1 => Self::V1, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IItems8 { V0(u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64), V1 }
impl serde_xdr::XdrIndexer for IItems8 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 5 => Ok("V0"), -5 => Ok("V1"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 5, Self::V1{..} => -5,  } }
}
impl Model for IItems8 {
    fn ty() -> Ty { union(Ty::I32of(vec![5, -5]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>()], vec![], ], vec![(Val::I(5), 0), (Val::I(-5), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_) => un(Val::I(5), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val()]), Self::V1 => un(Val::I(-5), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?), 1 => Self::V1, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IItems9 { V0(u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32), V1 }
impl serde_xdr::XdrIndexer for IItems9 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 5 => Ok("V0"), -5 => Ok("V1"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 5, Self::V1{..} => -5,  } }
}
impl Model for IItems9 {
    fn ty() -> Ty { union(Ty::I32of(vec![5, -5]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>()], vec![], ], vec![(Val::I(5), 0), (Val::I(-5), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_) => un(Val::I(5), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val()]), Self::V1 => un(Val::I(-5), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?), 1 => Self::V1, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IItems10 { V0(u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char), V1 }
impl serde_xdr::XdrIndexer for IItems10 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 5 => Ok("V0"), -5 => Ok("V1"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 5, Self::V1{..} => -5,  } }
}
impl Model for IItems10 {
    fn ty() -> Ty { union(Ty::I32of(vec![5, -5]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>()], vec![], ], vec![(Val::I(5), 0), (Val::I(-5), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_) => un(Val::I(5), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val()]), Self::V1 => un(Val::I(-5), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?), 1 => Self::V1, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IItems11 { V0(u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3]), V1 }
impl serde_xdr::XdrIndexer for IItems11 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 5 => Ok("V0"), -5 => Ok("V1"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 5, Self::V1{..} => -5,  } }
}
impl Model for IItems11 {
    fn ty() -> Ty { union(Ty::I32of(vec![5, -5]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>()], vec![], ], vec![(Val::I(5), 0), (Val::I(-5), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_) => un(Val::I(5), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val()]), Self::V1 => un(Val::I(-5), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?), 1 => Self::V1, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IItems12 { V0(u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64), V1 }
impl serde_xdr::XdrIndexer for IItems12 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 5 => Ok("V0"), -5 => Ok("V1"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 5, Self::V1{..} => -5,  } }
}
impl Model for IItems12 {
    fn ty() -> Ty { union(Ty::I32of(vec![5, -5]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>()], vec![], ], vec![(Val::I(5), 0), (Val::I(-5), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_) => un(Val::I(5), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val()]), Self::V1 => un(Val::I(-5), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?), 1 => Self::V1, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IItems13 { V0(u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64)), V1 }
impl serde_xdr::XdrIndexer for IItems13 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 5 => Ok("V0"), -5 => Ok("V1"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 5, Self::V1{..} => -5,  } }
}
impl Model for IItems13 {
    fn ty() -> Ty { union(Ty::I32of(vec![5, -5]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>()], vec![], ], vec![(Val::I(5), 0), (Val::I(-5), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_, a12_) => un(Val::I(5), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val(), a12_.to_val()]), Self::V1 => un(Val::I(-5), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?, x(l_, 12)?), 1 => Self::V1, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IItems14 { V0(u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32), V1 }
impl serde_xdr::XdrIndexer for IItems14 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 5 => Ok("V0"), -5 => Ok("V1"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 5, Self::V1{..} => -5,  } }
}
impl Model for IItems14 {
    fn ty() -> Ty { union(Ty::I32of(vec![5, -5]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>()], vec![], ], vec![(Val::I(5), 0), (Val::I(-5), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_, a12_, a13_) => un(Val::I(5), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val(), a12_.to_val(), a13_.to_val()]), Self::V1 => un(Val::I(-5), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?, x(l_, 12)?, x(l_, 13)?), 1 => Self::V1, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IItems15 { V0(u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8), V1 }
impl serde_xdr::XdrIndexer for IItems15 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 5 => Ok("V0"), -5 => Ok("V1"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 5, Self::V1{..} => -5,  } }
}
impl Model for IItems15 {
    fn ty() -> Ty { union(Ty::I32of(vec![5, -5]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>()], vec![], ], vec![(Val::I(5), 0), (Val::I(-5), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_, a12_, a13_, a14_) => un(Val::I(5), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val(), a12_.to_val(), a13_.to_val(), a14_.to_val()]), Self::V1 => un(Val::I(-5), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?, x(l_, 12)?, x(l_, 13)?, x(l_, 14)?), 1 => Self::V1, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IItems16 { V0(u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String), V1 }
impl serde_xdr::XdrIndexer for IItems16 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 5 => Ok("V0"), -5 => Ok("V1"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 5, Self::V1{..} => -5,  } }
}
impl Model for IItems16 {
    fn ty() -> Ty { union(Ty::I32of(vec![5, -5]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>()], vec![], ], vec![(Val::I(5), 0), (Val::I(-5), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_, a12_, a13_, a14_, a15_) => un(Val::I(5), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val(), a12_.to_val(), a13_.to_val(), a14_.to_val(), a15_.to_val()]), Self::V1 => un(Val::I(-5), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?, x(l_, 12)?, x(l_, 13)?, x(l_, 14)?, x(l_, 15)?), 1 => Self::V1, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IItems17 { V0(u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64), V1 }
impl serde_xdr::XdrIndexer for IItems17 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 5 => Ok("V0"), -5 => Ok("V1"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 5, Self::V1{..} => -5,  } }
}
impl Model for IItems17 {
    fn ty() -> Ty { union(Ty::I32of(vec![5, -5]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>()], vec![], ], vec![(Val::I(5), 0), (Val::I(-5), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_, a12_, a13_, a14_, a15_, a16_) => un(Val::I(5), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val(), a12_.to_val(), a13_.to_val(), a14_.to_val(), a15_.to_val(), a16_.to_val()]), Self::V1 => un(Val::I(-5), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?, x(l_, 12)?, x(l_, 13)?, x(l_, 14)?, x(l_, 15)?, x(l_, 16)?), 1 => Self::V1, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IItems18 { V0(u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64, bool), V1 }
impl serde_xdr::XdrIndexer for IItems18 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 5 => Ok("V0"), -5 => Ok("V1"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 5, Self::V1{..} => -5,  } }
}
impl Model for IItems18 {
    fn ty() -> Ty { union(Ty::I32of(vec![5, -5]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>(), m::<bool>()], vec![], ], vec![(Val::I(5), 0), (Val::I(-5), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_, a12_, a13_, a14_, a15_, a16_, a17_) => un(Val::I(5), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val(), a12_.to_val(), a13_.to_val(), a14_.to_val(), a15_.to_val(), a16_.to_val(), a17_.to_val()]), Self::V1 => un(Val::I(-5), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?, x(l_, 12)?, x(l_, 13)?, x(l_, 14)?, x(l_, 15)?, x(l_, 16)?, x(l_, 17)?), 1 => Self::V1, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IItems19 { V0(u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64, bool, Vec<u16>), V1 }
impl serde_xdr::XdrIndexer for IItems19 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 5 => Ok("V0"), -5 => Ok("V1"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 5, Self::V1{..} => -5,  } }
}
impl Model for IItems19 {
    fn ty() -> Ty { union(Ty::I32of(vec![5, -5]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>()], vec![], ], vec![(Val::I(5), 0), (Val::I(-5), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_, a12_, a13_, a14_, a15_, a16_, a17_, a18_) => un(Val::I(5), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val(), a12_.to_val(), a13_.to_val(), a14_.to_val(), a15_.to_val(), a16_.to_val(), a17_.to_val(), a18_.to_val()]), Self::V1 => un(Val::I(-5), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?, x(l_, 12)?, x(l_, 13)?, x(l_, 14)?, x(l_, 15)?, x(l_, 16)?, x(l_, 17)?, x(l_, 18)?), 1 => Self::V1, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IItems20 { V0(u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64, bool, Vec<u16>, i16), V1 }
impl serde_xdr::XdrIndexer for IItems20 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 5 => Ok("V0"), -5 => Ok("V1"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 5, Self::V1{..} => -5,  } }
}
impl Model for IItems20 {
    fn ty() -> Ty { union(Ty::I32of(vec![5, -5]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>()], vec![], ], vec![(Val::I(5), 0), (Val::I(-5), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_, a12_, a13_, a14_, a15_, a16_, a17_, a18_, a19_) => un(Val::I(5), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val(), a12_.to_val(), a13_.to_val(), a14_.to_val(), a15_.to_val(), a16_.to_val(), a17_.to_val(), a18_.to_val(), a19_.to_val()]), Self::V1 => un(Val::I(-5), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?, x(l_, 12)?, x(l_, 13)?, x(l_, 14)?, x(l_, 15)?, x(l_, 16)?, x(l_, 17)?, x(l_, 18)?, x(l_, 19)?), 1 => Self::V1, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IItems24 { V0(u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char), V1 }
impl serde_xdr::XdrIndexer for IItems24 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 5 => Ok("V0"), -5 => Ok("V1"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 5, Self::V1{..} => -5,  } }
}
impl Model for IItems24 {
    fn ty() -> Ty { union(Ty::I32of(vec![5, -5]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>()], vec![], ], vec![(Val::I(5), 0), (Val::I(-5), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_, a12_, a13_, a14_, a15_, a16_, a17_, a18_, a19_, a20_, a21_, a22_, a23_) => un(Val::I(5), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val(), a12_.to_val(), a13_.to_val(), a14_.to_val(), a15_.to_val(), a16_.to_val(), a17_.to_val(), a18_.to_val(), a19_.to_val(), a20_.to_val(), a21_.to_val(), a22_.to_val(), a23_.to_val()]), Self::V1 => un(Val::I(-5), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?, x(l_, 12)?, x(l_, 13)?, x(l_, 14)?, x(l_, 15)?, x(l_, 16)?, x(l_, 17)?, x(l_, 18)?, x(l_, 19)?, x(l_, 20)?, x(l_, 21)?, x(l_, 22)?, x(l_, 23)?), 1 => Self::V1, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IItems31 { V0(u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64), V1 }
impl serde_xdr::XdrIndexer for IItems31 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 5 => Ok("V0"), -5 => Ok("V1"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 5, Self::V1{..} => -5,  } }
}
impl Model for IItems31 {
    fn ty() -> Ty { union(Ty::I32of(vec![5, -5]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>()], vec![], ], vec![(Val::I(5), 0), (Val::I(-5), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_, a12_, a13_, a14_, a15_, a16_, a17_, a18_, a19_, a20_, a21_, a22_, a23_, a24_, a25_, a26_, a27_, a28_, a29_, a30_) => un(Val::I(5), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val(), a12_.to_val(), a13_.to_val(), a14_.to_val(), a15_.to_val(), a16_.to_val(), a17_.to_val(), a18_.to_val(), a19_.to_val(), a20_.to_val(), a21_.to_val(), a22_.to_val(), a23_.to_val(), a24_.to_val(), a25_.to_val(), a26_.to_val(), a27_.to_val(), a28_.to_val(), a29_.to_val(), a30_.to_val()]), Self::V1 => un(Val::I(-5), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?, x(l_, 12)?, x(l_, 13)?, x(l_, 14)?, x(l_, 15)?, x(l_, 16)?, x(l_, 17)?, x(l_, 18)?, x(l_, 19)?, x(l_, 20)?, x(l_, 21)?, x(l_, 22)?, x(l_, 23)?, x(l_, 24)?, x(l_, 25)?, x(l_, 26)?, x(l_, 27)?, x(l_, 28)?, x(l_, 29)?, x(l_, 30)?), 1 => Self::V1, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IItems32 { V0(u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64, bool), V1 }
impl serde_xdr::XdrIndexer for IItems32 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 5 => Ok("V0"), -5 => Ok("V1"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 5, Self::V1{..} => -5,  } }
}
impl Model for IItems32 {
    fn ty() -> Ty { union(Ty::I32of(vec![5, -5]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>(), m::<bool>()], vec![], ], vec![(Val::I(5), 0), (Val::I(-5), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_, a12_, a13_, a14_, a15_, a16_, a17_, a18_, a19_, a20_, a21_, a22_, a23_, a24_, a25_, a26_, a27_, a28_, a29_, a30_, a31_) => un(Val::I(5), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val(), a12_.to_val(), a13_.to_val(), a14_.to_val(), a15_.to_val(), a16_.to_val(), a17_.to_val(), a18_.to_val(), a19_.to_val(), a20_.to_val(), a21_.to_val(), a22_.to_val(), a23_.to_val(), a24_.to_val(), a25_.to_val(), a26_.to_val(), a27_.to_val(), a28_.to_val(), a29_.to_val(), a30_.to_val(), a31_.to_val()]), Self::V1 => un(Val::I(-5), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?, x(l_, 12)?, x(l_, 13)?, x(l_, 14)?, x(l_, 15)?, x(l_, 16)?, x(l_, 17)?, x(l_, 18)?, x(l_, 19)?, x(l_, 20)?, x(l_, 21)?, x(l_, 22)?, x(l_, 23)?, x(l_, 24)?, x(l_, 25)?, x(l_, 26)?, x(l_, 27)?, x(l_, 28)?, x(l_, 29)?, x(l_, 30)?, x(l_, 31)?), 1 => Self::V1, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IItems33 { V0(u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64, bool, Vec<u16>), V1 }
impl serde_xdr::XdrIndexer for IItems33 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 5 => Ok("V0"), -5 => Ok("V1"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 5, Self::V1{..} => -5,  } }
}
impl Model for IItems33 {
    fn ty() -> Ty { union(Ty::I32of(vec![5, -5]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>()], vec![], ], vec![(Val::I(5), 0), (Val::I(-5), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_, a12_, a13_, a14_, a15_, a16_, a17_, a18_, a19_, a20_, a21_, a22_, a23_, a24_, a25_, a26_, a27_, a28_, a29_, a30_, a31_, a32_) => un(Val::I(5), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val(), a12_.to_val(), a13_.to_val(), a14_.to_val(), a15_.to_val(), a16_.to_val(), a17_.to_val(), a18_.to_val(), a19_.to_val(), a20_.to_val(), a21_.to_val(), a22_.to_val(), a23_.to_val(), a24_.to_val(), a25_.to_val(), a26_.to_val(), a27_.to_val(), a28_.to_val(), a29_.to_val(), a30_.to_val(), a31_.to_val(), a32_.to_val()]), Self::V1 => un(Val::I(-5), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?, x(l_, 12)?, x(l_, 13)?, x(l_, 14)?, x(l_, 15)?, x(l_, 16)?, x(l_, 17)?, x(l_, 18)?, x(l_, 19)?, x(l_, 20)?, x(l_, 21)?, x(l_, 22)?, x(l_, 23)?, x(l_, 24)?, x(l_, 25)?, x(l_, 26)?, x(l_, 27)?, x(l_, 28)?, x(l_, 29)?, x(l_, 30)?, x(l_, 31)?, x(l_, 32)?), 1 => Self::V1, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IItems48 { V0(u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64, bool, Vec<u16>, i16), V1 }
impl serde_xdr::XdrIndexer for IItems48 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 5 => Ok("V0"), -5 => Ok("V1"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 5, Self::V1{..} => -5,  } }
}
impl Model for IItems48 {
    fn ty() -> Ty { union(Ty::I32of(vec![5, -5]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>()], vec![], ], vec![(Val::I(5), 0), (Val::I(-5), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_, a12_, a13_, a14_, a15_, a16_, a17_, a18_, a19_, a20_, a21_, a22_, a23_, a24_, a25_, a26_, a27_, a28_, a29_, a30_, a31_, a32_, a33_, a34_, a35_, a36_, a37_, a38_, a39_, a40_, a41_, a42_, a43_, a44_, a45_, a46_, a47_) => un(Val::I(5), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val(), a12_.to_val(), a13_.to_val(), a14_.to_val(), a15_.to_val(), a16_.to_val(), a17_.to_val(), a18_.to_val(), a19_.to_val(), a20_.to_val(), a21_.to_val(), a22_.to_val(), a23_.to_val(), a24_.to_val(), a25_.to_val(), a26_.to_val(), a27_.to_val(), a28_.to_val(), a29_.to_val(), a30_.to_val(), a31_.to_val(), a32_.to_val(), a33_.to_val(), a34_.to_val(), a35_.to_val(), a36_.to_val(), a37_.to_val(), a38_.to_val(), a39_.to_val(), a40_.to_val(), a41_.to_val(), a42_.to_val(), a43_.to_val(), a44_.to_val(), a45_.to_val(), a46_.to_val(), a47_.to_val()]), Self::V1 => un(Val::I(-5), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?, x(l_, 12)?, x(l_, 13)?, x(l_, 14)?, x(l_, 15)?, x(l_, 16)?, x(l_, 17)?, x(l_, 18)?, x(l_, 19)?, x(l_, 20)?, x(l_, 21)?, x(l_, 22)?, x(l_, 23)?, x(l_, 24)?, x(l_, 25)?, x(l_, 26)?, x(l_, 27)?, x(l_, 28)?, x(l_, 29)?, x(l_, 30)?, x(l_, 31)?, x(l_, 32)?, x(l_, 33)?, x(l_, 34)?, x(l_, 35)?, x(l_, 36)?, x(l_, 37)?, x(l_, 38)?, x(l_, 39)?, x(l_, 40)?, x(l_, 41)?, x(l_, 42)?, x(l_, 43)?, x(l_, 44)?, x(l_, 45)?, x(l_, 46)?, x(l_, 47)?), 1 => Self::V1, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IItems64 { V0(u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64), V1 }
impl serde_xdr::XdrIndexer for IItems64 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 5 => Ok("V0"), -5 => Ok("V1"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 5, Self::V1{..} => -5,  } }
}
impl Model for IItems64 {
    fn ty() -> Ty { union(Ty::I32of(vec![5, -5]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>()], vec![], ], vec![(Val::I(5), 0), (Val::I(-5), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_, a12_, a13_, a14_, a15_, a16_, a17_, a18_, a19_, a20_, a21_, a22_, a23_, a24_, a25_, a26_, a27_, a28_, a29_, a30_, a31_, a32_, a33_, a34_, a35_, a36_, a37_, a38_, a39_, a40_, a41_, a42_, a43_, a44_, a45_, a46_, a47_, a48_, a49_, a50_, a51_, a52_, a53_, a54_, a55_, a56_, a57_, a58_, a59_, a60_, a61_, a62_, a63_) => un(Val::I(5), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val(), a12_.to_val(), a13_.to_val(), a14_.to_val(), a15_.to_val(), a16_.to_val(), a17_.to_val(), a18_.to_val(), a19_.to_val(), a20_.to_val(), a21_.to_val(), a22_.to_val(), a23_.to_val(), a24_.to_val(), a25_.to_val(), a26_.to_val(), a27_.to_val(), a28_.to_val(), a29_.to_val(), a30_.to_val(), a31_.to_val(), a32_.to_val(), a33_.to_val(), a34_.to_val(), a35_.to_val(), a36_.to_val(), a37_.to_val(), a38_.to_val(), a39_.to_val(), a40_.to_val(), a41_.to_val(), a42_.to_val(), a43_.to_val(), a44_.to_val(), a45_.to_val(), a46_.to_val(), a47_.to_val(), a48_.to_val(), a49_.to_val(), a50_.to_val(), a51_.to_val(), a52_.to_val(), a53_.to_val(), a54_.to_val(), a55_.to_val(), a56_.to_val(), a57_.to_val(), a58_.to_val(), a59_.to_val(), a60_.to_val(), a61_.to_val(), a62_.to_val(), a63_.to_val()]), Self::V1 => un(Val::I(-5), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?, x(l_, 12)?, x(l_, 13)?, x(l_, 14)?, x(l_, 15)?, x(l_, 16)?, x(l_, 17)?, x(l_, 18)?, x(l_, 19)?, x(l_, 20)?, x(l_, 21)?, x(l_, 22)?, x(l_, 23)?, x(l_, 24)?, x(l_, 25)?, x(l_, 26)?, x(l_, 27)?, x(l_, 28)?, x(l_, 29)?, x(l_, 30)?, x(l_, 31)?, x(l_, 32)?, x(l_, 33)?, x(l_, 34)?, x(l_, 35)?, x(l_, 36)?, x(l_, 37)?, x(l_, 38)?, x(l_, 39)?, x(l_, 40)?, x(l_, 41)?, x(l_, 42)?, x(l_, 43)?, x(l_, 44)?, x(l_, 45)?, x(l_, 46)?, x(l_, 47)?, x(l_, 48)?, x(l_, 49)?, x(l_, 50)?, x(l_, 51)?, x(l_, 52)?, x(l_, 53)?, x(l_, 54)?, x(l_, 55)?, x(l_, 56)?, x(l_, 57)?, x(l_, 58)?, x(l_, 59)?, x(l_, 60)?, x(l_, 61)?, x(l_, 62)?, x(l_, 63)?), 1 => Self::V1, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IItems100 { V0(u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String), V1 }
impl serde_xdr::XdrIndexer for IItems100 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 5 => Ok("V0"), -5 => Ok("V1"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 5, Self::V1{..} => -5,  } }
}
impl Model for IItems100 {
    fn ty() -> Ty { union(Ty::I32of(vec![5, -5]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>()], vec![], ], vec![(Val::I(5), 0), (Val::I(-5), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_, a12_, a13_, a14_, a15_, a16_, a17_, a18_, a19_, a20_, a21_, a22_, a23_, a24_, a25_, a26_, a27_, a28_, a29_, a30_, a31_, a32_, a33_, a34_, a35_, a36_, a37_, a38_, a39_, a40_, a41_, a42_, a43_, a44_, a45_, a46_, a47_, a48_, a49_, a50_, a51_, a52_, a53_, a54_, a55_, a56_, a57_, a58_, a59_, a60_, a61_, a62_, a63_, a64_, a65_, a66_, a67_, a68_, a69_, a70_, a71_, a72_, a73_, a74_, a75_, a76_, a77_, a78_, a79_, a80_, a81_, a82_, a83_, a84_, a85_, a86_, a87_, a88_, a89_, a90_, a91_, a92_, a93_, a94_, a95_, a96_, a97_, a98_, a99_) => un(Val::I(5), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val(), a12_.to_val(), a13_.to_val(), a14_.to_val(), a15_.to_val(), a16_.to_val(), a17_.to_val(), a18_.to_val(), a19_.to_val(), a20_.to_val(), a21_.to_val(), a22_.to_val(), a23_.to_val(), a24_.to_val(), a25_.to_val(), a26_.to_val(), a27_.to_val(), a28_.to_val(), a29_.to_val(), a30_.to_val(), a31_.to_val(), a32_.to_val(), a33_.to_val(), a34_.to_val(), a35_.to_val(), a36_.to_val(), a37_.to_val(), a38_.to_val(), a39_.to_val(), a40_.to_val(), a41_.to_val(), a42_.to_val(), a43_.to_val(), a44_.to_val(), a45_.to_val(), a46_.to_val(), a47_.to_val(), a48_.to_val(), a49_.to_val(), a50_.to_val(), a51_.to_val(), a52_.to_val(), a53_.to_val(), a54_.to_val(), a55_.to_val(), a56_.to_val(), a57_.to_val(), a58_.to_val(), a59_.to_val(), a60_.to_val(), a61_.to_val(), a62_.to_val(), a63_.to_val(), a64_.to_val(), a65_.to_val(), a66_.to_val(), a67_.to_val(), a68_.to_val(), a69_.to_val(), a70_.to_val(), a71_.to_val(), a72_.to_val(), a73_.to_val(), a74_.to_val(), a75_.to_val(), a76_.to_val(), a77_.to_val(), a78_.to_val(), a79_.to_val(), a80_.to_val(), a81_.to_val(), a82_.to_val(), a83_.to_val(), a84_.to_val(), a85_.to_val(), a86_.to_val(), a87_.to_val(), a88_.to_val(), a89_.to_val(), a90_.to_val(), a91_.to_val(), a92_.to_val(), a93_.to_val(), a94_.to_val(), a95_.to_val(), a96_.to_val(), a97_.to_val(), a98_.to_val(), a99_.to_val()]), Self::V1 => un(Val::I(-5), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?, x(l_, 12)?, x(l_, 13)?, x(l_, 14)?, x(l_, 15)?, x(l_, 16)?, x(l_, 17)?, x(l_, 18)?, x(l_, 19)?, x(l_, 20)?, x(l_, 21)?, x(l_, 22)?, x(l_, 23)?, x(l_, 24)?, x(l_, 25)?, x(l_, 26)?, x(l_, 27)?, x(l_, 28)?, x(l_, 29)?, x(l_, 30)?, x(l_, 31)?, x(l_, 32)?, x(l_, 33)?, x(l_, 34)?, x(l_, 35)?, x(l_, 36)?, x(l_, 37)?, x(l_, 38)?, x(l_, 39)?, x(l_, 40)?, x(l_, 41)?, x(l_, 42)?, x(l_, 43)?, x(l_, 44)?, x(l_, 45)?, x(l_, 46)?, x(l_, 47)?, x(l_, 48)?, x(l_, 49)?, x(l_, 50)?, x(l_, 51)?, x(l_, 52)?, x(l_, 53)?, x(l_, 54)?, x(l_, 55)?, x(l_, 56)?, x(l_, 57)?, x(l_, 58)?, x(l_, 59)?, x(l_, 60)?, x(l_, 61)?, x(l_, 62)?, x(l_, 63)?, x(l_, 64)?, x(l_, 65)?, x(l_, 66)?, x(l_, 67)?, x(l_, 68)?, x(l_, 69)?, x(l_, 70)?, x(l_, 71)?, x(l_, 72)?, x(l_, 73)?, x(l_, 74)?, x(l_, 75)?, x(l_, 76)?, x(l_, 77)?, x(l_, 78)?, x(l_, 79)?, x(l_, 80)?, x(l_, 81)?, x(l_, 82)?, x(l_, 83)?, x(l_, 84)?, x(l_, 85)?, x(l_, 86)?, x(l_, 87)?, x(l_, 88)?, x(l_, 89)?, x(l_, 90)?, x(l_, 91)?, x(l_, 92)?, x(l_, 93)?, x(l_, 94)?, x(l_, 95)?, x(l_, 96)?, x(l_, 97)?, x(l_, 98)?, x(l_, 99)?), 1 => Self::V1, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IOrder0 { V0(u8, String, i16, u64, bool, char, u8, String, i16, u64, bool, char, u8, String, i16, u64, bool, char, u8, String), V1(String, i16), V2 }
impl serde_xdr::XdrIndexer for IOrder0 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 10 => Ok("V0"), 11 => Ok("V1"), 12 => Ok("V2"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 10, Self::V1{..} => 11, Self::V2{..} => 12,  } }
}
impl Model for IOrder0 {
    fn ty() -> Ty { union(Ty::I32of(vec![10, 11, 12]), vec![vec![m::<u8>(), m::<String>(), m::<i16>(), m::<u64>(), m::<bool>(), m::<char>(), m::<u8>(), m::<String>(), m::<i16>(), m::<u64>(), m::<bool>(), m::<char>(), m::<u8>(), m::<String>(), m::<i16>(), m::<u64>(), m::<bool>(), m::<char>(), m::<u8>(), m::<String>()], vec![m::<String>(), m::<i16>()], vec![], ], vec![(Val::I(10), 0), (Val::I(11), 1), (Val::I(12), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_, a12_, a13_, a14_, a15_, a16_, a17_, a18_, a19_) => un(Val::I(10), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val(), a12_.to_val(), a13_.to_val(), a14_.to_val(), a15_.to_val(), a16_.to_val(), a17_.to_val(), a18_.to_val(), a19_.to_val()]), Self::V1(a0_, a1_) => un(Val::I(11), vec![a0_.to_val(), a1_.to_val()]), Self::V2 => un(Val::I(12), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?, x(l_, 12)?, x(l_, 13)?, x(l_, 14)?, x(l_, 15)?, x(l_, 16)?, x(l_, 17)?, x(l_, 18)?, x(l_, 19)?), 1 => Self::V1(x(l_, 0)?, x(l_, 1)?), 2 => Self::V2, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IOrder1 { V0(u8, String), V1(String, i16, u64, bool, char, u8, String, i16, u64, bool, char, u8, String, i16, u64, bool, char, u8, String, i16), V2 }
impl serde_xdr::XdrIndexer for IOrder1 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 10 => Ok("V0"), 11 => Ok("V1"), 12 => Ok("V2"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 10, Self::V1{..} => 11, Self::V2{..} => 12,  } }
}
impl Model for IOrder1 {
    fn ty() -> Ty { union(Ty::I32of(vec![10, 11, 12]), vec![vec![m::<u8>(), m::<String>()], vec![m::<String>(), m::<i16>(), m::<u64>(), m::<bool>(), m::<char>(), m::<u8>(), m::<String>(), m::<i16>(), m::<u64>(), m::<bool>(), m::<char>(), m::<u8>(), m::<String>(), m::<i16>(), m::<u64>(), m::<bool>(), m::<char>(), m::<u8>(), m::<String>(), m::<i16>()], vec![], ], vec![(Val::I(10), 0), (Val::I(11), 1), (Val::I(12), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_, a1_) => un(Val::I(10), vec![a0_.to_val(), a1_.to_val()]), Self::V1(a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_, a12_, a13_, a14_, a15_, a16_, a17_, a18_, a19_) => un(Val::I(11), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val(), a12_.to_val(), a13_.to_val(), a14_.to_val(), a15_.to_val(), a16_.to_val(), a17_.to_val(), a18_.to_val(), a19_.to_val()]), Self::V2 => un(Val::I(12), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?, x(l_, 1)?), 1 => Self::V1(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?, x(l_, 12)?, x(l_, 13)?, x(l_, 14)?, x(l_, 15)?, x(l_, 16)?, x(l_, 17)?, x(l_, 18)?, x(l_, 19)?), 2 => Self::V2, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IOrder2 { V0, V1(String, i16), V2(i16, u64, bool, char, u8, String, i16, u64, bool, char, u8, String, i16, u64, bool, char, u8, String, i16, u64) }
impl serde_xdr::XdrIndexer for IOrder2 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 10 => Ok("V0"), 11 => Ok("V1"), 12 => Ok("V2"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 10, Self::V1{..} => 11, Self::V2{..} => 12,  } }
}
impl Model for IOrder2 {
    fn ty() -> Ty { union(Ty::I32of(vec![10, 11, 12]), vec![vec![], vec![m::<String>(), m::<i16>()], vec![m::<i16>(), m::<u64>(), m::<bool>(), m::<char>(), m::<u8>(), m::<String>(), m::<i16>(), m::<u64>(), m::<bool>(), m::<char>(), m::<u8>(), m::<String>(), m::<i16>(), m::<u64>(), m::<bool>(), m::<char>(), m::<u8>(), m::<String>(), m::<i16>(), m::<u64>()], ], vec![(Val::I(10), 0), (Val::I(11), 1), (Val::I(12), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(10), vec![]), Self::V1(a0_, a1_) => un(Val::I(11), vec![a0_.to_val(), a1_.to_val()]), Self::V2(a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_, a12_, a13_, a14_, a15_, a16_, a17_, a18_, a19_) => un(Val::I(12), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val(), a12_.to_val(), a13_.to_val(), a14_.to_val(), a15_.to_val(), a16_.to_val(), a17_.to_val(), a18_.to_val(), a19_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1(x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?, x(l_, 12)?, x(l_, 13)?, x(l_, 14)?, x(l_, 15)?, x(l_, 16)?, x(l_, 17)?, x(l_, 18)?, x(l_, 19)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IOrder3 { V0(u8, String, i16, u64, bool, char, u8, String, i16, u64, bool, char), V1, V2(i16, u64, bool, char, u8, String, i16, u64, bool, char, u8) }
impl serde_xdr::XdrIndexer for IOrder3 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 10 => Ok("V0"), 11 => Ok("V1"), 12 => Ok("V2"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 10, Self::V1{..} => 11, Self::V2{..} => 12,  } }
}
impl Model for IOrder3 {
    fn ty() -> Ty { union(Ty::I32of(vec![10, 11, 12]), vec![vec![m::<u8>(), m::<String>(), m::<i16>(), m::<u64>(), m::<bool>(), m::<char>(), m::<u8>(), m::<String>(), m::<i16>(), m::<u64>(), m::<bool>(), m::<char>()], vec![], vec![m::<i16>(), m::<u64>(), m::<bool>(), m::<char>(), m::<u8>(), m::<String>(), m::<i16>(), m::<u64>(), m::<bool>(), m::<char>(), m::<u8>()], ], vec![(Val::I(10), 0), (Val::I(11), 1), (Val::I(12), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_) => un(Val::I(10), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val()]), Self::V1 => un(Val::I(11), vec![]), Self::V2(a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_) => un(Val::I(12), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?), 1 => Self::V1, 2 => Self::V2(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IOrder4 { V0(u8), V1(String, i16, u64, bool, char, u8, String, i16, u64, bool, char, u8, String), V2(i16, u64, bool) }
impl serde_xdr::XdrIndexer for IOrder4 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 10 => Ok("V0"), 11 => Ok("V1"), 12 => Ok("V2"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 10, Self::V1{..} => 11, Self::V2{..} => 12,  } }
}
impl Model for IOrder4 {
    fn ty() -> Ty { union(Ty::I32of(vec![10, 11, 12]), vec![vec![m::<u8>()], vec![m::<String>(), m::<i16>(), m::<u64>(), m::<bool>(), m::<char>(), m::<u8>(), m::<String>(), m::<i16>(), m::<u64>(), m::<bool>(), m::<char>(), m::<u8>(), m::<String>()], vec![m::<i16>(), m::<u64>(), m::<bool>()], ], vec![(Val::I(10), 0), (Val::I(11), 1), (Val::I(12), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_) => un(Val::I(10), vec![a0_.to_val()]), Self::V1(a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_, a12_) => un(Val::I(11), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val(), a12_.to_val()]), Self::V2(a0_, a1_, a2_) => un(Val::I(12), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?), 1 => Self::V1(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?, x(l_, 12)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum ILeaf0 { V0(bool), V1(bool, u8), V2(String, bool, String), V3(bool, bool) }
impl serde_xdr::XdrIndexer for ILeaf0 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), -1 => Ok("V3"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0, Self::V1{..} => 1, Self::V2{..} => 2, Self::V3{..} => -1,  } }
}
impl Model for ILeaf0 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, -1]), vec![vec![m::<bool>()], vec![m::<bool>(), m::<u8>()], vec![m::<String>(), m::<bool>(), m::<String>()], vec![m::<bool>(), m::<bool>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(-1), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_) => un(Val::I(0), vec![a0_.to_val()]), Self::V1(a0_, a1_) => un(Val::I(1), vec![a0_.to_val(), a1_.to_val()]), Self::V2(a0_, a1_, a2_) => un(Val::I(2), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(a0_, a1_) => un(Val::I(-1), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?), 1 => Self::V1(x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum ILeaf1 { V0(i8), V1(i8, u8), V2(String, i8, String), V3(i8, i8) }
impl serde_xdr::XdrIndexer for ILeaf1 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), -1 => Ok("V3"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0, Self::V1{..} => 1, Self::V2{..} => 2, Self::V3{..} => -1,  } }
}
impl Model for ILeaf1 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, -1]), vec![vec![m::<i8>()], vec![m::<i8>(), m::<u8>()], vec![m::<String>(), m::<i8>(), m::<String>()], vec![m::<i8>(), m::<i8>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(-1), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_) => un(Val::I(0), vec![a0_.to_val()]), Self::V1(a0_, a1_) => un(Val::I(1), vec![a0_.to_val(), a1_.to_val()]), Self::V2(a0_, a1_, a2_) => un(Val::I(2), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(a0_, a1_) => un(Val::I(-1), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?), 1 => Self::V1(x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum ILeaf2 { V0(i16), V1(i16, u8), V2(String, i16, String), V3(i16, i16) }
impl serde_xdr::XdrIndexer for ILeaf2 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), -1 => Ok("V3"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0, Self::V1{..} => 1, Self::V2{..} => 2, Self::V3{..} => -1,  } }
}
impl Model for ILeaf2 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, -1]), vec![vec![m::<i16>()], vec![m::<i16>(), m::<u8>()], vec![m::<String>(), m::<i16>(), m::<String>()], vec![m::<i16>(), m::<i16>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(-1), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_) => un(Val::I(0), vec![a0_.to_val()]), Self::V1(a0_, a1_) => un(Val::I(1), vec![a0_.to_val(), a1_.to_val()]), Self::V2(a0_, a1_, a2_) => un(Val::I(2), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(a0_, a1_) => un(Val::I(-1), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?), 1 => Self::V1(x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum ILeaf3 { V0(i32), V1(i32, u8), V2(String, i32, String), V3(i32, i32) }
impl serde_xdr::XdrIndexer for ILeaf3 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), -1 => Ok("V3"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0, Self::V1{..} => 1, Self::V2{..} => 2, Self::V3{..} => -1,  } }
}
impl Model for ILeaf3 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, -1]), vec![vec![m::<i32>()], vec![m::<i32>(), m::<u8>()], vec![m::<String>(), m::<i32>(), m::<String>()], vec![m::<i32>(), m::<i32>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(-1), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_) => un(Val::I(0), vec![a0_.to_val()]), Self::V1(a0_, a1_) => un(Val::I(1), vec![a0_.to_val(), a1_.to_val()]), Self::V2(a0_, a1_, a2_) => un(Val::I(2), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(a0_, a1_) => un(Val::I(-1), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?), 1 => Self::V1(x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum ILeaf4 { V0(i64), V1(i64, u8), V2(String, i64, String), V3(i64, i64) }
impl serde_xdr::XdrIndexer for ILeaf4 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), -1 => Ok("V3"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0, Self::V1{..} => 1, Self::V2{..} => 2, Self::V3{..} => -1,  } }
}
impl Model for ILeaf4 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, -1]), vec![vec![m::<i64>()], vec![m::<i64>(), m::<u8>()], vec![m::<String>(), m::<i64>(), m::<String>()], vec![m::<i64>(), m::<i64>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(-1), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_) => un(Val::I(0), vec![a0_.to_val()]), Self::V1(a0_, a1_) => un(Val::I(1), vec![a0_.to_val(), a1_.to_val()]), Self::V2(a0_, a1_, a2_) => un(Val::I(2), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(a0_, a1_) => un(Val::I(-1), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?), 1 => Self::V1(x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum ILeaf5 { V0(u8), V1(u8, u8), V2(String, u8, String), V3(u8, u8) }
impl serde_xdr::XdrIndexer for ILeaf5 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), -1 => Ok("V3"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0, Self::V1{..} => 1, Self::V2{..} => 2, Self::V3{..} => -1,  } }
}
impl Model for ILeaf5 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, -1]), vec![vec![m::<u8>()], vec![m::<u8>(), m::<u8>()], vec![m::<String>(), m::<u8>(), m::<String>()], vec![m::<u8>(), m::<u8>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(-1), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_) => un(Val::I(0), vec![a0_.to_val()]), Self::V1(a0_, a1_) => un(Val::I(1), vec![a0_.to_val(), a1_.to_val()]), Self::V2(a0_, a1_, a2_) => un(Val::I(2), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(a0_, a1_) => un(Val::I(-1), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?), 1 => Self::V1(x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum ILeaf6 { V0(u16), V1(u16, u8), V2(String, u16, String), V3(u16, u16) }
impl serde_xdr::XdrIndexer for ILeaf6 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), -1 => Ok("V3"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0, Self::V1{..} => 1, Self::V2{..} => 2, Self::V3{..} => -1,  } }
}
impl Model for ILeaf6 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, -1]), vec![vec![m::<u16>()], vec![m::<u16>(), m::<u8>()], vec![m::<String>(), m::<u16>(), m::<String>()], vec![m::<u16>(), m::<u16>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(-1), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_) => un(Val::I(0), vec![a0_.to_val()]), Self::V1(a0_, a1_) => un(Val::I(1), vec![a0_.to_val(), a1_.to_val()]), Self::V2(a0_, a1_, a2_) => un(Val::I(2), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(a0_, a1_) => un(Val::I(-1), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?), 1 => Self::V1(x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum ILeaf7 { V0(u32), V1(u32, u8), V2(String, u32, String), V3(u32, u32) }
impl serde_xdr::XdrIndexer for ILeaf7 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), -1 => Ok("V3"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0, Self::V1{..} => 1, Self::V2{..} => 2, Self::V3{..} => -1,  } }
}
impl Model for ILeaf7 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, -1]), vec![vec![m::<u32>()], vec![m::<u32>(), m::<u8>()], vec![m::<String>(), m::<u32>(), m::<String>()], vec![m::<u32>(), m::<u32>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(-1), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_) => un(Val::I(0), vec![a0_.to_val()]), Self::V1(a0_, a1_) => un(Val::I(1), vec![a0_.to_val(), a1_.to_val()]), Self::V2(a0_, a1_, a2_) => un(Val::I(2), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(a0_, a1_) => un(Val::I(-1), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?), 1 => Self::V1(x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum ILeaf8 { V0(u64), V1(u64, u8), V2(String, u64, String), V3(u64, u64) }
impl serde_xdr::XdrIndexer for ILeaf8 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), -1 => Ok("V3"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0, Self::V1{..} => 1, Self::V2{..} => 2, Self::V3{..} => -1,  } }
}
impl Model for ILeaf8 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, -1]), vec![vec![m::<u64>()], vec![m::<u64>(), m::<u8>()], vec![m::<String>(), m::<u64>(), m::<String>()], vec![m::<u64>(), m::<u64>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(-1), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_) => un(Val::I(0), vec![a0_.to_val()]), Self::V1(a0_, a1_) => un(Val::I(1), vec![a0_.to_val(), a1_.to_val()]), Self::V2(a0_, a1_, a2_) => un(Val::I(2), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(a0_, a1_) => un(Val::I(-1), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?), 1 => Self::V1(x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum ILeaf9 { V0(f32), V1(f32, u8), V2(String, f32, String), V3(f32, f32) }
impl serde_xdr::XdrIndexer for ILeaf9 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), -1 => Ok("V3"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0, Self::V1{..} => 1, Self::V2{..} => 2, Self::V3{..} => -1,  } }
}
impl Model for ILeaf9 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, -1]), vec![vec![m::<f32>()], vec![m::<f32>(), m::<u8>()], vec![m::<String>(), m::<f32>(), m::<String>()], vec![m::<f32>(), m::<f32>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(-1), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_) => un(Val::I(0), vec![a0_.to_val()]), Self::V1(a0_, a1_) => un(Val::I(1), vec![a0_.to_val(), a1_.to_val()]), Self::V2(a0_, a1_, a2_) => un(Val::I(2), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(a0_, a1_) => un(Val::I(-1), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?), 1 => Self::V1(x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum ILeaf10 { V0(f64), V1(f64, u8), V2(String, f64, String), V3(f64, f64) }
impl serde_xdr::XdrIndexer for ILeaf10 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), -1 => Ok("V3"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0, Self::V1{..} => 1, Self::V2{..} => 2, Self::V3{..} => -1,  } }
}
impl Model for ILeaf10 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, -1]), vec![vec![m::<f64>()], vec![m::<f64>(), m::<u8>()], vec![m::<String>(), m::<f64>(), m::<String>()], vec![m::<f64>(), m::<f64>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(-1), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_) => un(Val::I(0), vec![a0_.to_val()]), Self::V1(a0_, a1_) => un(Val::I(1), vec![a0_.to_val(), a1_.to_val()]), Self::V2(a0_, a1_, a2_) => un(Val::I(2), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(a0_, a1_) => un(Val::I(-1), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?), 1 => Self::V1(x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum ILeaf11 { V0(char), V1(char, u8), V2(String, char, String), V3(char, char) }
impl serde_xdr::XdrIndexer for ILeaf11 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), -1 => Ok("V3"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0, Self::V1{..} => 1, Self::V2{..} => 2, Self::V3{..} => -1,  } }
}
impl Model for ILeaf11 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, -1]), vec![vec![m::<char>()], vec![m::<char>(), m::<u8>()], vec![m::<String>(), m::<char>(), m::<String>()], vec![m::<char>(), m::<char>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(-1), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_) => un(Val::I(0), vec![a0_.to_val()]), Self::V1(a0_, a1_) => un(Val::I(1), vec![a0_.to_val(), a1_.to_val()]), Self::V2(a0_, a1_, a2_) => un(Val::I(2), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(a0_, a1_) => un(Val::I(-1), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?), 1 => Self::V1(x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum ILeaf12 { V0(String), V1(String, u8), V2(String, String, String), V3(String, String) }
impl serde_xdr::XdrIndexer for ILeaf12 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), -1 => Ok("V3"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0, Self::V1{..} => 1, Self::V2{..} => 2, Self::V3{..} => -1,  } }
}
impl Model for ILeaf12 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, -1]), vec![vec![m::<String>()], vec![m::<String>(), m::<u8>()], vec![m::<String>(), m::<String>(), m::<String>()], vec![m::<String>(), m::<String>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(-1), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_) => un(Val::I(0), vec![a0_.to_val()]), Self::V1(a0_, a1_) => un(Val::I(1), vec![a0_.to_val(), a1_.to_val()]), Self::V2(a0_, a1_, a2_) => un(Val::I(2), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(a0_, a1_) => un(Val::I(-1), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?), 1 => Self::V1(x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum ILeaf13 { V0(()), V1((), u8), V2(String, (), String), V3((), ()) }
impl serde_xdr::XdrIndexer for ILeaf13 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), -1 => Ok("V3"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0, Self::V1{..} => 1, Self::V2{..} => 2, Self::V3{..} => -1,  } }
}
impl Model for ILeaf13 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, -1]), vec![vec![m::<()>()], vec![m::<()>(), m::<u8>()], vec![m::<String>(), m::<()>(), m::<String>()], vec![m::<()>(), m::<()>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(-1), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_) => un(Val::I(0), vec![a0_.to_val()]), Self::V1(a0_, a1_) => un(Val::I(1), vec![a0_.to_val(), a1_.to_val()]), Self::V2(a0_, a1_, a2_) => un(Val::I(2), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(a0_, a1_) => un(Val::I(-1), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?), 1 => Self::V1(x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum ILeaf14 { V0(Option<u8>), V1(Option<u8>, u8), V2(String, Option<u8>, String), V3(Option<u8>, Option<u8>) }
impl serde_xdr::XdrIndexer for ILeaf14 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), -1 => Ok("V3"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0, Self::V1{..} => 1, Self::V2{..} => 2, Self::V3{..} => -1,  } }
}
impl Model for ILeaf14 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, -1]), vec![vec![m::<Option<u8>>()], vec![m::<Option<u8>>(), m::<u8>()], vec![m::<String>(), m::<Option<u8>>(), m::<String>()], vec![m::<Option<u8>>(), m::<Option<u8>>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(-1), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_) => un(Val::I(0), vec![a0_.to_val()]), Self::V1(a0_, a1_) => un(Val::I(1), vec![a0_.to_val(), a1_.to_val()]), Self::V2(a0_, a1_, a2_) => un(Val::I(2), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(a0_, a1_) => un(Val::I(-1), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?), 1 => Self::V1(x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum ILeaf15 { V0(Option<String>), V1(Option<String>, u8), V2(String, Option<String>, String), V3(Option<String>, Option<String>) }
impl serde_xdr::XdrIndexer for ILeaf15 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), -1 => Ok("V3"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0, Self::V1{..} => 1, Self::V2{..} => 2, Self::V3{..} => -1,  } }
}
impl Model for ILeaf15 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, -1]), vec![vec![m::<Option<String>>()], vec![m::<Option<String>>(), m::<u8>()], vec![m::<String>(), m::<Option<String>>(), m::<String>()], vec![m::<Option<String>>(), m::<Option<String>>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(-1), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_) => un(Val::I(0), vec![a0_.to_val()]), Self::V1(a0_, a1_) => un(Val::I(1), vec![a0_.to_val(), a1_.to_val()]), Self::V2(a0_, a1_, a2_) => un(Val::I(2), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(a0_, a1_) => un(Val::I(-1), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?), 1 => Self::V1(x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum ILeaf16 { V0(Vec<u8>), V1(Vec<u8>, u8), V2(String, Vec<u8>, String), V3(Vec<u8>, Vec<u8>) }
impl serde_xdr::XdrIndexer for ILeaf16 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), -1 => Ok("V3"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0, Self::V1{..} => 1, Self::V2{..} => 2, Self::V3{..} => -1,  } }
}
impl Model for ILeaf16 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, -1]), vec![vec![m::<Vec<u8>>()], vec![m::<Vec<u8>>(), m::<u8>()], vec![m::<String>(), m::<Vec<u8>>(), m::<String>()], vec![m::<Vec<u8>>(), m::<Vec<u8>>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(-1), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_) => un(Val::I(0), vec![a0_.to_val()]), Self::V1(a0_, a1_) => un(Val::I(1), vec![a0_.to_val(), a1_.to_val()]), Self::V2(a0_, a1_, a2_) => un(Val::I(2), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(a0_, a1_) => un(Val::I(-1), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?), 1 => Self::V1(x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum ILeaf17 { V0(Vec<String>), V1(Vec<String>, u8), V2(String, Vec<String>, String), V3(Vec<String>, Vec<String>) }
impl serde_xdr::XdrIndexer for ILeaf17 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), -1 => Ok("V3"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0, Self::V1{..} => 1, Self::V2{..} => 2, Self::V3{..} => -1,  } }
}
impl Model for ILeaf17 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, -1]), vec![vec![m::<Vec<String>>()], vec![m::<Vec<String>>(), m::<u8>()], vec![m::<String>(), m::<Vec<String>>(), m::<String>()], vec![m::<Vec<String>>(), m::<Vec<String>>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(-1), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_) => un(Val::I(0), vec![a0_.to_val()]), Self::V1(a0_, a1_) => un(Val::I(1), vec![a0_.to_val(), a1_.to_val()]), Self::V2(a0_, a1_, a2_) => un(Val::I(2), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(a0_, a1_) => un(Val::I(-1), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?), 1 => Self::V1(x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum ILeaf18 { V0([u8; 3]), V1([u8; 3], u8), V2(String, [u8; 3], String), V3([u8; 3], [u8; 3]) }
impl serde_xdr::XdrIndexer for ILeaf18 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), -1 => Ok("V3"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0, Self::V1{..} => 1, Self::V2{..} => 2, Self::V3{..} => -1,  } }
}
impl Model for ILeaf18 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, -1]), vec![vec![m::<[u8; 3]>()], vec![m::<[u8; 3]>(), m::<u8>()], vec![m::<String>(), m::<[u8; 3]>(), m::<String>()], vec![m::<[u8; 3]>(), m::<[u8; 3]>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(-1), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_) => un(Val::I(0), vec![a0_.to_val()]), Self::V1(a0_, a1_) => un(Val::I(1), vec![a0_.to_val(), a1_.to_val()]), Self::V2(a0_, a1_, a2_) => un(Val::I(2), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(a0_, a1_) => un(Val::I(-1), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?), 1 => Self::V1(x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum ILeaf19 { V0((u8, i64)), V1((u8, i64), u8), V2(String, (u8, i64), String), V3((u8, i64), (u8, i64)) }
impl serde_xdr::XdrIndexer for ILeaf19 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), -1 => Ok("V3"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0, Self::V1{..} => 1, Self::V2{..} => 2, Self::V3{..} => -1,  } }
}
impl Model for ILeaf19 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, -1]), vec![vec![m::<(u8, i64)>()], vec![m::<(u8, i64)>(), m::<u8>()], vec![m::<String>(), m::<(u8, i64)>(), m::<String>()], vec![m::<(u8, i64)>(), m::<(u8, i64)>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(-1), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_) => un(Val::I(0), vec![a0_.to_val()]), Self::V1(a0_, a1_) => un(Val::I(1), vec![a0_.to_val(), a1_.to_val()]), Self::V2(a0_, a1_, a2_) => un(Val::I(2), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(a0_, a1_) => un(Val::I(-1), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?), 1 => Self::V1(x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum ILeaf20 { V0(BTreeMap<u16, String>), V1(BTreeMap<u16, String>, u8), V2(String, BTreeMap<u16, String>, String), V3(BTreeMap<u16, String>, BTreeMap<u16, String>) }
impl serde_xdr::XdrIndexer for ILeaf20 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), -1 => Ok("V3"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0, Self::V1{..} => 1, Self::V2{..} => 2, Self::V3{..} => -1,  } }
}
impl Model for ILeaf20 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, -1]), vec![vec![m::<BTreeMap<u16, String>>()], vec![m::<BTreeMap<u16, String>>(), m::<u8>()], vec![m::<String>(), m::<BTreeMap<u16, String>>(), m::<String>()], vec![m::<BTreeMap<u16, String>>(), m::<BTreeMap<u16, String>>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(-1), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_) => un(Val::I(0), vec![a0_.to_val()]), Self::V1(a0_, a1_) => un(Val::I(1), vec![a0_.to_val(), a1_.to_val()]), Self::V2(a0_, a1_, a2_) => un(Val::I(2), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(a0_, a1_) => un(Val::I(-1), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?), 1 => Self::V1(x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum ILeaf21 { V0(Kinds), V1(Kinds, u8), V2(String, Kinds, String), V3(Kinds, Kinds) }
impl serde_xdr::XdrIndexer for ILeaf21 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), -1 => Ok("V3"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0, Self::V1{..} => 1, Self::V2{..} => 2, Self::V3{..} => -1,  } }
}
impl Model for ILeaf21 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, -1]), vec![vec![m::<Kinds>()], vec![m::<Kinds>(), m::<u8>()], vec![m::<String>(), m::<Kinds>(), m::<String>()], vec![m::<Kinds>(), m::<Kinds>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(-1), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_) => un(Val::I(0), vec![a0_.to_val()]), Self::V1(a0_, a1_) => un(Val::I(1), vec![a0_.to_val(), a1_.to_val()]), Self::V2(a0_, a1_, a2_) => un(Val::I(2), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(a0_, a1_) => un(Val::I(-1), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?), 1 => Self::V1(x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum ILeaf22 { V0(Mixed), V1(Mixed, u8), V2(String, Mixed, String), V3(Mixed, Mixed) }
impl serde_xdr::XdrIndexer for ILeaf22 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), -1 => Ok("V3"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0, Self::V1{..} => 1, Self::V2{..} => 2, Self::V3{..} => -1,  } }
}
impl Model for ILeaf22 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, -1]), vec![vec![m::<Mixed>()], vec![m::<Mixed>(), m::<u8>()], vec![m::<String>(), m::<Mixed>(), m::<String>()], vec![m::<Mixed>(), m::<Mixed>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(-1), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_) => un(Val::I(0), vec![a0_.to_val()]), Self::V1(a0_, a1_) => un(Val::I(1), vec![a0_.to_val(), a1_.to_val()]), Self::V2(a0_, a1_, a2_) => un(Val::I(2), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(a0_, a1_) => un(Val::I(-1), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?), 1 => Self::V1(x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum ILeaf23 { V0(One), V1(One, u8), V2(String, One, String), V3(One, One) }
impl serde_xdr::XdrIndexer for ILeaf23 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), -1 => Ok("V3"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0, Self::V1{..} => 1, Self::V2{..} => 2, Self::V3{..} => -1,  } }
}
impl Model for ILeaf23 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, -1]), vec![vec![m::<One>()], vec![m::<One>(), m::<u8>()], vec![m::<String>(), m::<One>(), m::<String>()], vec![m::<One>(), m::<One>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(-1), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_) => un(Val::I(0), vec![a0_.to_val()]), Self::V1(a0_, a1_) => un(Val::I(1), vec![a0_.to_val(), a1_.to_val()]), Self::V2(a0_, a1_, a2_) => un(Val::I(2), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(a0_, a1_) => un(Val::I(-1), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?), 1 => Self::V1(x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum ILeaf24 { V0(Empty), V1(Empty, u8), V2(String, Empty, String), V3(Empty, Empty) }
impl serde_xdr::XdrIndexer for ILeaf24 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), -1 => Ok("V3"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0, Self::V1{..} => 1, Self::V2{..} => 2, Self::V3{..} => -1,  } }
}
impl Model for ILeaf24 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, -1]), vec![vec![m::<Empty>()], vec![m::<Empty>(), m::<u8>()], vec![m::<String>(), m::<Empty>(), m::<String>()], vec![m::<Empty>(), m::<Empty>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(-1), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_) => un(Val::I(0), vec![a0_.to_val()]), Self::V1(a0_, a1_) => un(Val::I(1), vec![a0_.to_val(), a1_.to_val()]), Self::V2(a0_, a1_, a2_) => un(Val::I(2), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(a0_, a1_) => un(Val::I(-1), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?), 1 => Self::V1(x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum ILeaf25 { V0(Nothing), V1(Nothing, u8), V2(String, Nothing, String), V3(Nothing, Nothing) }
impl serde_xdr::XdrIndexer for ILeaf25 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), -1 => Ok("V3"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0, Self::V1{..} => 1, Self::V2{..} => 2, Self::V3{..} => -1,  } }
}
impl Model for ILeaf25 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, -1]), vec![vec![m::<Nothing>()], vec![m::<Nothing>(), m::<u8>()], vec![m::<String>(), m::<Nothing>(), m::<String>()], vec![m::<Nothing>(), m::<Nothing>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(-1), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_) => un(Val::I(0), vec![a0_.to_val()]), Self::V1(a0_, a1_) => un(Val::I(1), vec![a0_.to_val(), a1_.to_val()]), Self::V2(a0_, a1_, a2_) => un(Val::I(2), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(a0_, a1_) => un(Val::I(-1), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?), 1 => Self::V1(x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum ILeaf26 { V0(Wrap), V1(Wrap, u8), V2(String, Wrap, String), V3(Wrap, Wrap) }
impl serde_xdr::XdrIndexer for ILeaf26 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), -1 => Ok("V3"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0, Self::V1{..} => 1, Self::V2{..} => 2, Self::V3{..} => -1,  } }
}
impl Model for ILeaf26 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, -1]), vec![vec![m::<Wrap>()], vec![m::<Wrap>(), m::<u8>()], vec![m::<String>(), m::<Wrap>(), m::<String>()], vec![m::<Wrap>(), m::<Wrap>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(-1), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_) => un(Val::I(0), vec![a0_.to_val()]), Self::V1(a0_, a1_) => un(Val::I(1), vec![a0_.to_val(), a1_.to_val()]), Self::V2(a0_, a1_, a2_) => un(Val::I(2), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(a0_, a1_) => un(Val::I(-1), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?), 1 => Self::V1(x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum ILeaf27 { V0(Box<i32>), V1(Box<i32>, u8), V2(String, Box<i32>, String), V3(Box<i32>, Box<i32>) }
impl serde_xdr::XdrIndexer for ILeaf27 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), -1 => Ok("V3"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0, Self::V1{..} => 1, Self::V2{..} => 2, Self::V3{..} => -1,  } }
}
impl Model for ILeaf27 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, -1]), vec![vec![m::<Box<i32>>()], vec![m::<Box<i32>>(), m::<u8>()], vec![m::<String>(), m::<Box<i32>>(), m::<String>()], vec![m::<Box<i32>>(), m::<Box<i32>>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(-1), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_) => un(Val::I(0), vec![a0_.to_val()]), Self::V1(a0_, a1_) => un(Val::I(1), vec![a0_.to_val(), a1_.to_val()]), Self::V2(a0_, a1_, a2_) => un(Val::I(2), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(a0_, a1_) => un(Val::I(-1), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?), 1 => Self::V1(x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum ILeaf28 { V0(Adapters), V1(Adapters, u8), V2(String, Adapters, String), V3(Adapters, Adapters) }
impl serde_xdr::XdrIndexer for ILeaf28 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), -1 => Ok("V3"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0, Self::V1{..} => 1, Self::V2{..} => 2, Self::V3{..} => -1,  } }
}
impl Model for ILeaf28 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, -1]), vec![vec![m::<Adapters>()], vec![m::<Adapters>(), m::<u8>()], vec![m::<String>(), m::<Adapters>(), m::<String>()], vec![m::<Adapters>(), m::<Adapters>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(-1), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_) => un(Val::I(0), vec![a0_.to_val()]), Self::V1(a0_, a1_) => un(Val::I(1), vec![a0_.to_val(), a1_.to_val()]), Self::V2(a0_, a1_, a2_) => un(Val::I(2), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(a0_, a1_) => un(Val::I(-1), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?), 1 => Self::V1(x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IUnits { V0, V1, V2, V3, V4, V5 }
impl serde_xdr::XdrIndexer for IUnits {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 2 => Ok("V0"), 3 => Ok("V1"), 5 => Ok("V2"), -9 => Ok("V3"), -2147483648 => Ok("V4"), 2147483647 => Ok("V5"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 2, Self::V1{..} => 3, Self::V2{..} => 5, Self::V3{..} => -9, Self::V4{..} => -2147483648, Self::V5{..} => 2147483647,  } }
}
impl Model for IUnits {
    fn ty() -> Ty { union(Ty::I32of(vec![2, 3, 5, -9, -2147483648, 2147483647]), vec![vec![], vec![], vec![], vec![], vec![], vec![], ], vec![(Val::I(2), 0), (Val::I(3), 1), (Val::I(5), 2), (Val::I(-9), 3), (Val::I(-2147483648), 4), (Val::I(2147483647), 5), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(2), vec![]), Self::V1 => un(Val::I(3), vec![]), Self::V2 => un(Val::I(5), vec![]), Self::V3 => un(Val::I(-9), vec![]), Self::V4 => un(Val::I(-2147483648), vec![]), Self::V5 => un(Val::I(2147483647), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1, 2 => Self::V2, 3 => Self::V3, 4 => Self::V4, 5 => Self::V5, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IEmpty { V0, V1(), V2, V3() }
impl serde_xdr::XdrIndexer for IEmpty {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 2 => Ok("V0"), 3 => Ok("V1"), 5 => Ok("V2"), -9 => Ok("V3"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 2, Self::V1{..} => 3, Self::V2{..} => 5, Self::V3{..} => -9,  } }
}
impl Model for IEmpty {
    fn ty() -> Ty { union(Ty::I32of(vec![2, 3, 5, -9]), vec![vec![], vec![], vec![], vec![], ], vec![(Val::I(2), 0), (Val::I(3), 1), (Val::I(5), 2), (Val::I(-9), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0 => un(Val::I(2), vec![]), Self::V1() => un(Val::I(3), vec![]), Self::V2 => un(Val::I(5), vec![]), Self::V3() => un(Val::I(-9), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0, 1 => Self::V1(), 2 => Self::V2, 3 => Self::V3(), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum INames { A, AB(String), Ab(i16, u64), ABC, B(bool), Ok(char, u8), Err, Some(String), None(i16, u64), Index, Ser(bool), Value(char, u8), __V, A1(String), A11(i16, u64), Ä }
impl serde_xdr::XdrIndexer for INames {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("A"), 1 => Ok("AB"), 2 => Ok("Ab"), 3 => Ok("ABC"), 4 => Ok("B"), 5 => Ok("Ok"), 6 => Ok("Err"), 7 => Ok("Some"), 8 => Ok("None"), 9 => Ok("Index"), 10 => Ok("Ser"), 11 => Ok("Value"), 12 => Ok("__V"), 13 => Ok("A1"), 14 => Ok("A11"), 15 => Ok("Ä"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::A{..} => 0, Self::AB{..} => 1, Self::Ab{..} => 2, Self::ABC{..} => 3, Self::B{..} => 4, Self::Ok{..} => 5, Self::Err{..} => 6, Self::Some{..} => 7, Self::None{..} => 8, Self::Index{..} => 9, Self::Ser{..} => 10, Self::Value{..} => 11, Self::__V{..} => 12, Self::A1{..} => 13, Self::A11{..} => 14, Self::Ä{..} => 15,  } }
}
impl Model for INames {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(3), 3), (Val::I(4), 4), (Val::I(5), 5), (Val::I(6), 6), (Val::I(7), 7), (Val::I(8), 8), (Val::I(9), 9), (Val::I(10), 10), (Val::I(11), 11), (Val::I(12), 12), (Val::I(13), 13), (Val::I(14), 14), (Val::I(15), 15), ], None) }
    fn to_val(&self) -> Val { match self { Self::A => un(Val::I(0), vec![]), Self::AB(a0_) => un(Val::I(1), vec![a0_.to_val()]), Self::Ab(a0_, a1_) => un(Val::I(2), vec![a0_.to_val(), a1_.to_val()]), Self::ABC => un(Val::I(3), vec![]), Self::B(a0_) => un(Val::I(4), vec![a0_.to_val()]), Self::Ok(a0_, a1_) => un(Val::I(5), vec![a0_.to_val(), a1_.to_val()]), Self::Err => un(Val::I(6), vec![]), Self::Some(a0_) => un(Val::I(7), vec![a0_.to_val()]), Self::None(a0_, a1_) => un(Val::I(8), vec![a0_.to_val(), a1_.to_val()]), Self::Index => un(Val::I(9), vec![]), Self::Ser(a0_) => un(Val::I(10), vec![a0_.to_val()]), Self::Value(a0_, a1_) => un(Val::I(11), vec![a0_.to_val(), a1_.to_val()]), Self::__V => un(Val::I(12), vec![]), Self::A1(a0_) => un(Val::I(13), vec![a0_.to_val()]), Self::A11(a0_, a1_) => un(Val::I(14), vec![a0_.to_val(), a1_.to_val()]), Self::Ä => un(Val::I(15), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::A, 1 => Self::AB(x(l_, 0)?), 2 => Self::Ab(x(l_, 0)?, x(l_, 1)?), 3 => Self::ABC, 4 => Self::B(x(l_, 0)?), 5 => Self::Ok(x(l_, 0)?, x(l_, 1)?), 6 => Self::Err, 7 => Self::Some(x(l_, 0)?), 8 => Self::None(x(l_, 0)?, x(l_, 1)?), 9 => Self::Index, 10 => Self::Ser(x(l_, 0)?), 11 => Self::Value(x(l_, 0)?, x(l_, 1)?), 12 => Self::__V, 13 => Self::A1(x(l_, 0)?), 14 => Self::A11(x(l_, 0)?, x(l_, 1)?), 15 => Self::Ä, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum INamesAll { A, a(String), AA(i16, u64), Aa, A_(bool), A1(char, u8), aA, aa(String), a_(i16, u64), a1, _A(bool), _a(char, u8), __, _1(String), AAA(i16, u64), AAa, AA_(bool), AA1(char, u8), AaA, Aaa(String), Aa_(i16, u64), Aa1, A_A(bool), A_a(char, u8), A__, A_1(String), A1A(i16, u64), A1a, A1_(bool), A11(char, u8), aAA, aAa(String), aA_(i16, u64), aA1, aaA(bool), aaa(char, u8), aa_, aa1(String), a_A(i16, u64), a_a, a__(bool), a_1(char, u8), a1A, a1a(String), a1_(i16, u64), a11, _AA(bool), _Aa(char, u8), _A_, _A1(String), _aA(i16, u64), _aa, _a_(bool), _a1(char, u8), __A, __a(String), ___(i16, u64), __1, _1A(bool), _1a(char, u8), _1_, _11(String), V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_(i16, u64), AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA, Z__Z(bool), __Z__(char, u8), Zz_Zz_, É_é_(String), Number_10(i16, u64), Number10_, x10(bool), X10(char, u8) }
impl serde_xdr::XdrIndexer for INamesAll {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { -60 => Ok("A"), -58 => Ok("a"), -56 => Ok("AA"), -54 => Ok("Aa"), -52 => Ok("A_"), -50 => Ok("A1"), -48 => Ok("aA"), -46 => Ok("aa"), -44 => Ok("a_"), -42 => Ok("a1"), -40 => Ok("_A"), -38 => Ok("_a"), -36 => Ok("__"), -34 => Ok("_1"), -32 => Ok("AAA"), -30 => Ok("AAa"), -28 => Ok("AA_"), -26 => Ok("AA1"), -24 => Ok("AaA"), -22 => Ok("Aaa"), -20 => Ok("Aa_"), -18 => Ok("Aa1"), -16 => Ok("A_A"), -14 => Ok("A_a"), -12 => Ok("A__"), -10 => Ok("A_1"), -8 => Ok("A1A"), -6 => Ok("A1a"), -4 => Ok("A1_"), -2 => Ok("A11"), 0 => Ok("aAA"), 2 => Ok("aAa"), 4 => Ok("aA_"), 6 => Ok("aA1"), 8 => Ok("aaA"), 10 => Ok("aaa"), 12 => Ok("aa_"), 14 => Ok("aa1"), 16 => Ok("a_A"), 18 => Ok("a_a"), 20 => Ok("a__"), 22 => Ok("a_1"), 24 => Ok("a1A"), 26 => Ok("a1a"), 28 => Ok("a1_"), 30 => Ok("a11"), 32 => Ok("_AA"), 34 => Ok("_Aa"), 36 => Ok("_A_"), 38 => Ok("_A1"), 40 => Ok("_aA"), 42 => Ok("_aa"), 44 => Ok("_a_"), 46 => Ok("_a1"), 48 => Ok("__A"), 50 => Ok("__a"), 52 => Ok("___"), 54 => Ok("__1"), 56 => Ok("_1A"), 58 => Ok("_1a"), 60 => Ok("_1_"), 62 => Ok("_11"), 64 => Ok("V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_"), 66 => Ok("AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA"), 68 => Ok("Z__Z"), 70 => Ok("__Z__"), 72 => Ok("Zz_Zz_"), 74 => Ok("É_é_"), 76 => Ok("Number_10"), 78 => Ok("Number10_"), 80 => Ok("x10"), 82 => Ok("X10"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::A{..} => -60, Self::a{..} => -58, Self::AA{..} => -56, Self::Aa{..} => -54, Self::A_{..} => -52, Self::A1{..} => -50, Self::aA{..} => -48, Self::aa{..} => -46, Self::a_{..} => -44, Self::a1{..} => -42, Self::_A{..} => -40, Self::_a{..} => -38, Self::__{..} => -36, Self::_1{..} => -34, Self::AAA{..} => -32, Self::AAa{..} => -30, Self::AA_{..} => -28, Self::AA1{..} => -26, Self::AaA{..} => -24, Self::Aaa{..} => -22, Self::Aa_{..} => -20, Self::Aa1{..} => -18, Self::A_A{..} => -16, Self::A_a{..} => -14, Self::A__{..} => -12, Self::A_1{..} => -10, Self::A1A{..} => -8, Self::A1a{..} => -6, Self::A1_{..} => -4, Self::A11{..} => -2, Self::aAA{..} => 0, Self::aAa{..} => 2, Self::aA_{..} => 4, Self::aA1{..} => 6, Self::aaA{..} => 8, Self::aaa{..} => 10, Self::aa_{..} => 12, Self::aa1{..} => 14, Self::a_A{..} => 16, Self::a_a{..} => 18, Self::a__{..} => 20, Self::a_1{..} => 22, Self::a1A{..} => 24, Self::a1a{..} => 26, Self::a1_{..} => 28, Self::a11{..} => 30, Self::_AA{..} => 32, Self::_Aa{..} => 34, Self::_A_{..} => 36, Self::_A1{..} => 38, Self::_aA{..} => 40, Self::_aa{..} => 42, Self::_a_{..} => 44, Self::_a1{..} => 46, Self::__A{..} => 48, Self::__a{..} => 50, Self::___{..} => 52, Self::__1{..} => 54, Self::_1A{..} => 56, Self::_1a{..} => 58, Self::_1_{..} => 60, Self::_11{..} => 62, Self::V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_{..} => 64, Self::AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA{..} => 66, Self::Z__Z{..} => 68, Self::__Z__{..} => 70, Self::Zz_Zz_{..} => 72, Self::É_é_{..} => 74, Self::Number_10{..} => 76, Self::Number10_{..} => 78, Self::x10{..} => 80, Self::X10{..} => 82,  } }
}
impl Model for INamesAll {
    fn ty() -> Ty { union(Ty::I32of(vec![-60, -58, -56, -54, -52, -50, -48, -46, -44, -42, -40, -38, -36, -34, -32, -30, -28, -26, -24, -22, -20, -18, -16, -14, -12, -10, -8, -6, -4, -2, 0, 2, 4, 6, 8, 10, 12, 14, 16, 18, 20, 22, 24, 26, 28, 30, 32, 34, 36, 38, 40, 42, 44, 46, 48, 50, 52, 54, 56, 58, 60, 62, 64, 66, 68, 70, 72, 74, 76, 78, 80, 82]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], ], vec![(Val::I(-60), 0), (Val::I(-58), 1), (Val::I(-56), 2), (Val::I(-54), 3), (Val::I(-52), 4), (Val::I(-50), 5), (Val::I(-48), 6), (Val::I(-46), 7), (Val::I(-44), 8), (Val::I(-42), 9), (Val::I(-40), 10), (Val::I(-38), 11), (Val::I(-36), 12), (Val::I(-34), 13), (Val::I(-32), 14), (Val::I(-30), 15), (Val::I(-28), 16), (Val::I(-26), 17), (Val::I(-24), 18), (Val::I(-22), 19), (Val::I(-20), 20), (Val::I(-18), 21), (Val::I(-16), 22), (Val::I(-14), 23), (Val::I(-12), 24), (Val::I(-10), 25), (Val::I(-8), 26), (Val::I(-6), 27), (Val::I(-4), 28), (Val::I(-2), 29), (Val::I(0), 30), (Val::I(2), 31), (Val::I(4), 32), (Val::I(6), 33), (Val::I(8), 34), (Val::I(10), 35), (Val::I(12), 36), (Val::I(14), 37), (Val::I(16), 38), (Val::I(18), 39), (Val::I(20), 40), (Val::I(22), 41), (Val::I(24), 42), (Val::I(26), 43), (Val::I(28), 44), (Val::I(30), 45), (Val::I(32), 46), (Val::I(34), 47), (Val::I(36), 48), (Val::I(38), 49), (Val::I(40), 50), (Val::I(42), 51), (Val::I(44), 52), (Val::I(46), 53), (Val::I(48), 54), (Val::I(50), 55), (Val::I(52), 56), (Val::I(54), 57), (Val::I(56), 58), (Val::I(58), 59), (Val::I(60), 60), (Val::I(62), 61), (Val::I(64), 62), (Val::I(66), 63), (Val::I(68), 64), (Val::I(70), 65), (Val::I(72), 66), (Val::I(74), 67), (Val::I(76), 68), (Val::I(78), 69), (Val::I(80), 70), (Val::I(82), 71), ], None) }
    fn to_val(&self) -> Val { match self { Self::A => un(Val::I(-60), vec![]), Self::a(a0_) => un(Val::I(-58), vec![a0_.to_val()]), Self::AA(a0_, a1_) => un(Val::I(-56), vec![a0_.to_val(), a1_.to_val()]), Self::Aa => un(Val::I(-54), vec![]), Self::A_(a0_) => un(Val::I(-52), vec![a0_.to_val()]), Self::A1(a0_, a1_) => un(Val::I(-50), vec![a0_.to_val(), a1_.to_val()]), Self::aA => un(Val::I(-48), vec![]), Self::aa(a0_) => un(Val::I(-46), vec![a0_.to_val()]), Self::a_(a0_, a1_) => un(Val::I(-44), vec![a0_.to_val(), a1_.to_val()]), Self::a1 => un(Val::I(-42), vec![]), Self::_A(a0_) => un(Val::I(-40), vec![a0_.to_val()]), Self::_a(a0_, a1_) => un(Val::I(-38), vec![a0_.to_val(), a1_.to_val()]), Self::__ => un(Val::I(-36), vec![]), Self::_1(a0_) => un(Val::I(-34), vec![a0_.to_val()]), Self::AAA(a0_, a1_) => un(Val::I(-32), vec![a0_.to_val(), a1_.to_val()]), Self::AAa => un(Val::I(-30), vec![]), Self::AA_(a0_) => un(Val::I(-28), vec![a0_.to_val()]), Self::AA1(a0_, a1_) => un(Val::I(-26), vec![a0_.to_val(), a1_.to_val()]), Self::AaA => un(Val::I(-24), vec![]), Self::Aaa(a0_) => un(Val::I(-22), vec![a0_.to_val()]), Self::Aa_(a0_, a1_) => un(Val::I(-20), vec![a0_.to_val(), a1_.to_val()]), Self::Aa1 => un(Val::I(-18), vec![]), Self::A_A(a0_) => un(Val::I(-16), vec![a0_.to_val()]), Self::A_a(a0_, a1_) => un(Val::I(-14), vec![a0_.to_val(), a1_.to_val()]), Self::A__ => un(Val::I(-12), vec![]), Self::A_1(a0_) => un(Val::I(-10), vec![a0_.to_val()]), Self::A1A(a0_, a1_) => un(Val::I(-8), vec![a0_.to_val(), a1_.to_val()]), Self::A1a => un(Val::I(-6), vec![]), Self::A1_(a0_) => un(Val::I(-4), vec![a0_.to_val()]), Self::A11(a0_, a1_) => un(Val::I(-2), vec![a0_.to_val(), a1_.to_val()]), Self::aAA => un(Val::I(0), vec![]), Self::aAa(a0_) => un(Val::I(2), vec![a0_.to_val()]), Self::aA_(a0_, a1_) => un(Val::I(4), vec![a0_.to_val(), a1_.to_val()]), Self::aA1 => un(Val::I(6), vec![]), Self::aaA(a0_) => un(Val::I(8), vec![a0_.to_val()]), Self::aaa(a0_, a1_) => un(Val::I(10), vec![a0_.to_val(), a1_.to_val()]), Self::aa_ => un(Val::I(12), vec![]), Self::aa1(a0_) => un(Val::I(14), vec![a0_.to_val()]), Self::a_A(a0_, a1_) => un(Val::I(16), vec![a0_.to_val(), a1_.to_val()]), Self::a_a => un(Val::I(18), vec![]), Self::a__(a0_) => un(Val::I(20), vec![a0_.to_val()]), Self::a_1(a0_, a1_) => un(Val::I(22), vec![a0_.to_val(), a1_.to_val()]), Self::a1A => un(Val::I(24), vec![]), Self::a1a(a0_) => un(Val::I(26), vec![a0_.to_val()]), Self::a1_(a0_, a1_) => un(Val::I(28), vec![a0_.to_val(), a1_.to_val()]), Self::a11 => un(Val::I(30), vec![]), Self::_AA(a0_) => un(Val::I(32), vec![a0_.to_val()]), Self::_Aa(a0_, a1_) => un(Val::I(34), vec![a0_.to_val(), a1_.to_val()]), Self::_A_ => un(Val::I(36), vec![]), Self::_A1(a0_) => un(Val::I(38), vec![a0_.to_val()]), Self::_aA(a0_, a1_) => un(Val::I(40), vec![a0_.to_val(), a1_.to_val()]), Self::_aa => un(Val::I(42), vec![]), Self::_a_(a0_) => un(Val::I(44), vec![a0_.to_val()]), Self::_a1(a0_, a1_) => un(Val::I(46), vec![a0_.to_val(), a1_.to_val()]), Self::__A => un(Val::I(48), vec![]), Self::__a(a0_) => un(Val::I(50), vec![a0_.to_val()]), Self::___(a0_, a1_) => un(Val::I(52), vec![a0_.to_val(), a1_.to_val()]), Self::__1 => un(Val::I(54), vec![]), Self::_1A(a0_) => un(Val::I(56), vec![a0_.to_val()]), Self::_1a(a0_, a1_) => un(Val::I(58), vec![a0_.to_val(), a1_.to_val()]), Self::_1_ => un(Val::I(60), vec![]), Self::_11(a0_) => un(Val::I(62), vec![a0_.to_val()]), Self::V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_(a0_, a1_) => un(Val::I(64), vec![a0_.to_val(), a1_.to_val()]), Self::AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA => un(Val::I(66), vec![]), Self::Z__Z(a0_) => un(Val::I(68), vec![a0_.to_val()]), Self::__Z__(a0_, a1_) => un(Val::I(70), vec![a0_.to_val(), a1_.to_val()]), Self::Zz_Zz_ => un(Val::I(72), vec![]), Self::É_é_(a0_) => un(Val::I(74), vec![a0_.to_val()]), Self::Number_10(a0_, a1_) => un(Val::I(76), vec![a0_.to_val(), a1_.to_val()]), Self::Number10_ => un(Val::I(78), vec![]), Self::x10(a0_) => un(Val::I(80), vec![a0_.to_val()]), Self::X10(a0_, a1_) => un(Val::I(82), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::A, 1 => Self::a(x(l_, 0)?), 2 => Self::AA(x(l_, 0)?, x(l_, 1)?), 3 => Self::Aa, 4 => Self::A_(x(l_, 0)?), 5 => Self::A1(x(l_, 0)?, x(l_, 1)?), 6 => Self::aA, 7 => Self::aa(x(l_, 0)?), 8 => Self::a_(x(l_, 0)?, x(l_, 1)?), 9 => Self::a1, 10 => Self::_A(x(l_, 0)?), 11 => Self::_a(x(l_, 0)?, x(l_, 1)?), 12 => Self::__, 13 => Self::_1(x(l_, 0)?), 14 => Self::AAA(x(l_, 0)?, x(l_, 1)?), 15 => Self::AAa, 16 => Self::AA_(x(l_, 0)?), 17 => Self::AA1(x(l_, 0)?, x(l_, 1)?), 18 => Self::AaA, 19 => Self::Aaa(x(l_, 0)?), 20 => Self::Aa_(x(l_, 0)?, x(l_, 1)?), 21 => Self::Aa1, 22 => Self::A_A(x(l_, 0)?), 23 => Self::A_a(x(l_, 0)?, x(l_, 1)?), 24 => Self::A__, 25 => Self::A_1(x(l_, 0)?), 26 => Self::A1A(x(l_, 0)?, x(l_, 1)?), 27 => Self::A1a, 28 => Self::A1_(x(l_, 0)?), 29 => Self::A11(x(l_, 0)?, x(l_, 1)?), 30 => Self::aAA, 31 => Self::aAa(x(l_, 0)?), 32 => Self::aA_(x(l_, 0)?, x(l_, 1)?), 33 => Self::aA1, 34 => Self::aaA(x(l_, 0)?), 35 => Self::aaa(x(l_, 0)?, x(l_, 1)?), 36 => Self::aa_, 37 => Self::aa1(x(l_, 0)?), 38 => Self::a_A(x(l_, 0)?, x(l_, 1)?), 39 => Self::a_a, 40 => Self::a__(x(l_, 0)?), 41 => Self::a_1(x(l_, 0)?, x(l_, 1)?), 42 => Self::a1A, 43 => Self::a1a(x(l_, 0)?), 44 => Self::a1_(x(l_, 0)?, x(l_, 1)?), 45 => Self::a11, 46 => Self::_AA(x(l_, 0)?), 47 => Self::_Aa(x(l_, 0)?, x(l_, 1)?), 48 => Self::_A_, 49 => Self::_A1(x(l_, 0)?), 50 => Self::_aA(x(l_, 0)?, x(l_, 1)?), 51 => Self::_aa, 52 => Self::_a_(x(l_, 0)?), 53 => Self::_a1(x(l_, 0)?, x(l_, 1)?), 54 => Self::__A, 55 => Self::__a(x(l_, 0)?), 56 => Self::___(x(l_, 0)?, x(l_, 1)?), 57 => Self::__1, 58 => Self::_1A(x(l_, 0)?), 59 => Self::_1a(x(l_, 0)?, x(l_, 1)?), 60 => Self::_1_, 61 => Self::_11(x(l_, 0)?), 62 => Self::V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_(x(l_, 0)?, x(l_, 1)?), 63 => Self::AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA, 64 => Self::Z__Z(x(l_, 0)?), 65 => Self::__Z__(x(l_, 0)?, x(l_, 1)?), 66 => Self::Zz_Zz_, 67 => Self::É_é_(x(l_, 0)?), 68 => Self::Number_10(x(l_, 0)?, x(l_, 1)?), 69 => Self::Number10_, 70 => Self::x10(x(l_, 0)?), 71 => Self::X10(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum _T { A, a(u8), AA(u8, String) }
impl serde_xdr::XdrIndexer for _T {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("A"), 1 => Ok("a"), 2 => Ok("AA"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::A{..} => 0, Self::a{..} => 1, Self::AA{..} => 2,  } }
}
impl Model for _T {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2]), vec![vec![], vec![m::<u8>()], vec![m::<u8>(), m::<String>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::A => un(Val::I(0), vec![]), Self::a(a0_) => un(Val::I(1), vec![a0_.to_val()]), Self::AA(a0_, a1_) => un(Val::I(2), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::A, 1 => Self::a(x(l_, 0)?), 2 => Self::AA(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum T_ { a1(String), _A(String, i16), _a(String, i16, u64) }
impl serde_xdr::XdrIndexer for T_ {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("a1"), 1 => Ok("_A"), 2 => Ok("_a"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::a1{..} => 0, Self::_A{..} => 1, Self::_a{..} => 2,  } }
}
impl Model for T_ {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2]), vec![vec![m::<String>()], vec![m::<String>(), m::<i16>()], vec![m::<String>(), m::<i16>(), m::<u64>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::a1(a0_) => un(Val::I(0), vec![a0_.to_val()]), Self::_A(a0_, a1_) => un(Val::I(1), vec![a0_.to_val(), a1_.to_val()]), Self::_a(a0_, a1_, a2_) => un(Val::I(2), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::a1(x(l_, 0)?), 1 => Self::_A(x(l_, 0)?, x(l_, 1)?), 2 => Self::_a(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum t { AaA, Aaa(i16), Aa_(i16, u64) }
impl serde_xdr::XdrIndexer for t {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("AaA"), 1 => Ok("Aaa"), 2 => Ok("Aa_"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::AaA{..} => 0, Self::Aaa{..} => 1, Self::Aa_{..} => 2,  } }
}
impl Model for t {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2]), vec![vec![], vec![m::<i16>()], vec![m::<i16>(), m::<u64>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::AaA => un(Val::I(0), vec![]), Self::Aaa(a0_) => un(Val::I(1), vec![a0_.to_val()]), Self::Aa_(a0_, a1_) => un(Val::I(2), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::AaA, 1 => Self::Aaa(x(l_, 0)?), 2 => Self::Aa_(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum _t_ { A1a(u64), A1_(u64, bool), A11(u64, bool, char) }
impl serde_xdr::XdrIndexer for _t_ {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("A1a"), 1 => Ok("A1_"), 2 => Ok("A11"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::A1a{..} => 0, Self::A1_{..} => 1, Self::A11{..} => 2,  } }
}
impl Model for _t_ {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2]), vec![vec![m::<u64>()], vec![m::<u64>(), m::<bool>()], vec![m::<u64>(), m::<bool>(), m::<char>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::A1a(a0_) => un(Val::I(0), vec![a0_.to_val()]), Self::A1_(a0_, a1_) => un(Val::I(1), vec![a0_.to_val(), a1_.to_val()]), Self::A11(a0_, a1_, a2_) => un(Val::I(2), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::A1a(x(l_, 0)?), 1 => Self::A1_(x(l_, 0)?, x(l_, 1)?), 2 => Self::A11(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum T1_ { aa_, aa1(bool), a_A(bool, char) }
impl serde_xdr::XdrIndexer for T1_ {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("aa_"), 1 => Ok("aa1"), 2 => Ok("a_A"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::aa_{..} => 0, Self::aa1{..} => 1, Self::a_A{..} => 2,  } }
}
impl Model for T1_ {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2]), vec![vec![], vec![m::<bool>()], vec![m::<bool>(), m::<char>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::aa_ => un(Val::I(0), vec![]), Self::aa1(a0_) => un(Val::I(1), vec![a0_.to_val()]), Self::a_A(a0_, a1_) => un(Val::I(2), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::aa_, 1 => Self::aa1(x(l_, 0)?), 2 => Self::a_A(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum Ünion { a11(char), _AA(char, u8), _Aa(char, u8, String) }
impl serde_xdr::XdrIndexer for Ünion {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("a11"), 1 => Ok("_AA"), 2 => Ok("_Aa"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::a11{..} => 0, Self::_AA{..} => 1, Self::_Aa{..} => 2,  } }
}
impl Model for Ünion {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2]), vec![vec![m::<char>()], vec![m::<char>(), m::<u8>()], vec![m::<char>(), m::<u8>(), m::<String>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::a11(a0_) => un(Val::I(0), vec![a0_.to_val()]), Self::_AA(a0_, a1_) => un(Val::I(1), vec![a0_.to_val(), a1_.to_val()]), Self::_Aa(a0_, a1_, a2_) => un(Val::I(2), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::a11(x(l_, 0)?), 1 => Self::_AA(x(l_, 0)?, x(l_, 1)?), 2 => Self::_Aa(x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum A { A(u8, String), B, AX(String) }
impl serde_xdr::XdrIndexer for A {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 4 => Ok("A"), -4 => Ok("B"), 9 => Ok("AX"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::A{..} => 4, Self::B{..} => -4, Self::AX{..} => 9,  } }
}
impl Model for A {
    fn ty() -> Ty { union(Ty::I32of(vec![4, -4, 9]), vec![vec![m::<u8>(), m::<String>()], vec![], vec![m::<String>()], ], vec![(Val::I(4), 0), (Val::I(-4), 1), (Val::I(9), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::A(a0_, a1_) => un(Val::I(4), vec![a0_.to_val(), a1_.to_val()]), Self::B => un(Val::I(-4), vec![]), Self::AX(a0_) => un(Val::I(9), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::A(x(l_, 0)?, x(l_, 1)?), 1 => Self::B, 2 => Self::AX(x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum S { A(u8, String), B, S(String) }
impl serde_xdr::XdrIndexer for S {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 4 => Ok("A"), -4 => Ok("B"), 9 => Ok("S"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::A{..} => 4, Self::B{..} => -4, Self::S{..} => 9,  } }
}
impl Model for S {
    fn ty() -> Ty { union(Ty::I32of(vec![4, -4, 9]), vec![vec![m::<u8>(), m::<String>()], vec![], vec![m::<String>()], ], vec![(Val::I(4), 0), (Val::I(-4), 1), (Val::I(9), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::A(a0_, a1_) => un(Val::I(4), vec![a0_.to_val(), a1_.to_val()]), Self::B => un(Val::I(-4), vec![]), Self::S(a0_) => un(Val::I(9), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::A(x(l_, 0)?, x(l_, 1)?), 1 => Self::B, 2 => Self::S(x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum V { A(u8, String), B, V(String) }
impl serde_xdr::XdrIndexer for V {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 4 => Ok("A"), -4 => Ok("B"), 9 => Ok("V"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::A{..} => 4, Self::B{..} => -4, Self::V{..} => 9,  } }
}
impl Model for V {
    fn ty() -> Ty { union(Ty::I32of(vec![4, -4, 9]), vec![vec![m::<u8>(), m::<String>()], vec![], vec![m::<String>()], ], vec![(Val::I(4), 0), (Val::I(-4), 1), (Val::I(9), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::A(a0_, a1_) => un(Val::I(4), vec![a0_.to_val(), a1_.to_val()]), Self::B => un(Val::I(-4), vec![]), Self::V(a0_) => un(Val::I(9), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::A(x(l_, 0)?, x(l_, 1)?), 1 => Self::B, 2 => Self::V(x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum M { A(u8, String), B, M(String) }
impl serde_xdr::XdrIndexer for M {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 4 => Ok("A"), -4 => Ok("B"), 9 => Ok("M"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::A{..} => 4, Self::B{..} => -4, Self::M{..} => 9,  } }
}
impl Model for M {
    fn ty() -> Ty { union(Ty::I32of(vec![4, -4, 9]), vec![vec![m::<u8>(), m::<String>()], vec![], vec![m::<String>()], ], vec![(Val::I(4), 0), (Val::I(-4), 1), (Val::I(9), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::A(a0_, a1_) => un(Val::I(4), vec![a0_.to_val(), a1_.to_val()]), Self::B => un(Val::I(-4), vec![]), Self::M(a0_) => un(Val::I(9), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::A(x(l_, 0)?, x(l_, 1)?), 1 => Self::B, 2 => Self::M(x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum XdrIndexerVisitor { A(u8, String), B, XdrIndexerVisitor(String) }
impl serde_xdr::XdrIndexer for XdrIndexerVisitor {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 4 => Ok("A"), -4 => Ok("B"), 9 => Ok("XdrIndexerVisitor"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::A{..} => 4, Self::B{..} => -4, Self::XdrIndexerVisitor{..} => 9,  } }
}
impl Model for XdrIndexerVisitor {
    fn ty() -> Ty { union(Ty::I32of(vec![4, -4, 9]), vec![vec![m::<u8>(), m::<String>()], vec![], vec![m::<String>()], ], vec![(Val::I(4), 0), (Val::I(-4), 1), (Val::I(9), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::A(a0_, a1_) => un(Val::I(4), vec![a0_.to_val(), a1_.to_val()]), Self::B => un(Val::I(-4), vec![]), Self::XdrIndexerVisitor(a0_) => un(Val::I(9), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::A(x(l_, 0)?, x(l_, 1)?), 1 => Self::B, 2 => Self::XdrIndexerVisitor(x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum Visitor { A(u8, String), B, Visitor(String) }
impl serde_xdr::XdrIndexer for Visitor {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 4 => Ok("A"), -4 => Ok("B"), 9 => Ok("Visitor"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::A{..} => 4, Self::B{..} => -4, Self::Visitor{..} => 9,  } }
}
impl Model for Visitor {
    fn ty() -> Ty { union(Ty::I32of(vec![4, -4, 9]), vec![vec![m::<u8>(), m::<String>()], vec![], vec![m::<String>()], ], vec![(Val::I(4), 0), (Val::I(-4), 1), (Val::I(9), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::A(a0_, a1_) => un(Val::I(4), vec![a0_.to_val(), a1_.to_val()]), Self::B => un(Val::I(-4), vec![]), Self::Visitor(a0_) => un(Val::I(9), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::A(x(l_, 0)?, x(l_, 1)?), 1 => Self::B, 2 => Self::Visitor(x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum SeqAccess { A(u8, String), B, SeqAccess(String) }
impl serde_xdr::XdrIndexer for SeqAccess {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 4 => Ok("A"), -4 => Ok("B"), 9 => Ok("SeqAccess"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::A{..} => 4, Self::B{..} => -4, Self::SeqAccess{..} => 9,  } }
}
impl Model for SeqAccess {
    fn ty() -> Ty { union(Ty::I32of(vec![4, -4, 9]), vec![vec![m::<u8>(), m::<String>()], vec![], vec![m::<String>()], ], vec![(Val::I(4), 0), (Val::I(-4), 1), (Val::I(9), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::A(a0_, a1_) => un(Val::I(4), vec![a0_.to_val(), a1_.to_val()]), Self::B => un(Val::I(-4), vec![]), Self::SeqAccess(a0_) => un(Val::I(9), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::A(x(l_, 0)?, x(l_, 1)?), 1 => Self::B, 2 => Self::SeqAccess(x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum Value { A(u8, String), B, Value(String) }
impl serde_xdr::XdrIndexer for Value {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 4 => Ok("A"), -4 => Ok("B"), 9 => Ok("Value"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::A{..} => 4, Self::B{..} => -4, Self::Value{..} => 9,  } }
}
impl Model for Value {
    fn ty() -> Ty { union(Ty::I32of(vec![4, -4, 9]), vec![vec![m::<u8>(), m::<String>()], vec![], vec![m::<String>()], ], vec![(Val::I(4), 0), (Val::I(-4), 1), (Val::I(9), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::A(a0_, a1_) => un(Val::I(4), vec![a0_.to_val(), a1_.to_val()]), Self::B => un(Val::I(-4), vec![]), Self::Value(a0_) => un(Val::I(9), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::A(x(l_, 0)?, x(l_, 1)?), 1 => Self::B, 2 => Self::Value(x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum ITaken { A(A, u8), S(S, u8), V(V, u8), M(M, u8), XdrIndexerVisitor(XdrIndexerVisitor, u8), Visitor(Visitor, u8), SeqAccess(SeqAccess, u8), Value(Value, u8) }
impl serde_xdr::XdrIndexer for ITaken {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("A"), 1 => Ok("S"), 2 => Ok("V"), 3 => Ok("M"), 4 => Ok("XdrIndexerVisitor"), 5 => Ok("Visitor"), 6 => Ok("SeqAccess"), 7 => Ok("Value"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::A{..} => 0, Self::S{..} => 1, Self::V{..} => 2, Self::M{..} => 3, Self::XdrIndexerVisitor{..} => 4, Self::Visitor{..} => 5, Self::SeqAccess{..} => 6, Self::Value{..} => 7,  } }
}
impl Model for ITaken {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, 3, 4, 5, 6, 7]), vec![vec![m::<A>(), m::<u8>()], vec![m::<S>(), m::<u8>()], vec![m::<V>(), m::<u8>()], vec![m::<M>(), m::<u8>()], vec![m::<XdrIndexerVisitor>(), m::<u8>()], vec![m::<Visitor>(), m::<u8>()], vec![m::<SeqAccess>(), m::<u8>()], vec![m::<Value>(), m::<u8>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(3), 3), (Val::I(4), 4), (Val::I(5), 5), (Val::I(6), 6), (Val::I(7), 7), ], None) }
    fn to_val(&self) -> Val { match self { Self::A(a0_, a1_) => un(Val::I(0), vec![a0_.to_val(), a1_.to_val()]), Self::S(a0_, a1_) => un(Val::I(1), vec![a0_.to_val(), a1_.to_val()]), Self::V(a0_, a1_) => un(Val::I(2), vec![a0_.to_val(), a1_.to_val()]), Self::M(a0_, a1_) => un(Val::I(3), vec![a0_.to_val(), a1_.to_val()]), Self::XdrIndexerVisitor(a0_, a1_) => un(Val::I(4), vec![a0_.to_val(), a1_.to_val()]), Self::Visitor(a0_, a1_) => un(Val::I(5), vec![a0_.to_val(), a1_.to_val()]), Self::SeqAccess(a0_, a1_) => un(Val::I(6), vec![a0_.to_val(), a1_.to_val()]), Self::Value(a0_, a1_) => un(Val::I(7), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::A(x(l_, 0)?, x(l_, 1)?), 1 => Self::S(x(l_, 0)?, x(l_, 1)?), 2 => Self::V(x(l_, 0)?, x(l_, 1)?), 3 => Self::M(x(l_, 0)?, x(l_, 1)?), 4 => Self::XdrIndexerVisitor(x(l_, 0)?, x(l_, 1)?), 5 => Self::Visitor(x(l_, 0)?, x(l_, 1)?), 6 => Self::SeqAccess(x(l_, 0)?, x(l_, 1)?), 7 => Self::Value(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IAlias { V0(u8), V1(String), V2 }
impl serde_xdr::XdrIndexer for IAlias {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 1 => Ok("V0"), 5 => Ok("V1"), -3 => Ok("V2"), 2 => Ok("V0"), 3 => Ok("V0"), -2 => Ok("V1"), 2147483647 => Ok("V2"), -2147483648 => Ok("V0"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 1, Self::V1{..} => 5, Self::V2{..} => -3,  } }
}
impl Model for IAlias {
    fn ty() -> Ty { union(Ty::I32of(vec![1, 5, -3, 2, 3, -2, 2147483647, -2147483648]), vec![vec![m::<u8>()], vec![m::<String>()], vec![], ], vec![(Val::I(1), 0), (Val::I(5), 1), (Val::I(-3), 2), (Val::I(2), 0), (Val::I(3), 0), (Val::I(-2), 1), (Val::I(2147483647), 2), (Val::I(-2147483648), 0), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_) => un(Val::I(1), vec![a0_.to_val()]), Self::V1(a0_) => un(Val::I(5), vec![a0_.to_val()]), Self::V2 => un(Val::I(-3), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?), 1 => Self::V1(x(l_, 0)?), 2 => Self::V2, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum INest1 { V0(IUnits), V1(ISparse3, IItems12), V2(Vec<ISeq4>) }
impl serde_xdr::XdrIndexer for INest1 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), 7 => Ok("V1"), -7 => Ok("V2"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0, Self::V1{..} => 7, Self::V2{..} => -7,  } }
}
impl Model for INest1 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 7, -7]), vec![vec![m::<IUnits>()], vec![m::<ISparse3>(), m::<IItems12>()], vec![m::<Vec<ISeq4>>()], ], vec![(Val::I(0), 0), (Val::I(7), 1), (Val::I(-7), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_) => un(Val::I(0), vec![a0_.to_val()]), Self::V1(a0_, a1_) => un(Val::I(7), vec![a0_.to_val(), a1_.to_val()]), Self::V2(a0_) => un(Val::I(-7), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?), 1 => Self::V1(x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum INest2 { V0(INest1), V1(Option<IItems11>, u8) }
impl serde_xdr::XdrIndexer for INest2 {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("V0"), 9 => Ok("V1"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::V0{..} => 0, Self::V1{..} => 9,  } }
}
impl Model for INest2 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 9]), vec![vec![m::<INest1>()], vec![m::<Option<IItems11>>(), m::<u8>()], ], vec![(Val::I(0), 0), (Val::I(9), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(a0_) => un(Val::I(0), vec![a0_.to_val()]), Self::V1(a0_, a1_) => un(Val::I(9), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(x(l_, 0)?), 1 => Self::V1(x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum Cases { A, B, C, D }
impl serde_xdr::XdrIndexer for Cases {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 2 => Ok("A"), 3 => Ok("B"), -5 => Ok("C"), 1000 => Ok("D"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::A{..} => 2, Self::B{..} => 3, Self::C{..} => -5, Self::D{..} => 1000,  } }
}
impl Model for Cases {
    fn ty() -> Ty { union(Ty::I32of(vec![2, 3, -5, 1000]), vec![vec![], vec![], vec![], vec![], ], vec![(Val::I(2), 0), (Val::I(3), 1), (Val::I(-5), 2), (Val::I(1000), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::A => un(Val::I(2), vec![]), Self::B => un(Val::I(3), vec![]), Self::C => un(Val::I(-5), vec![]), Self::D => un(Val::I(1000), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::A, 1 => Self::B, 2 => Self::C, 3 => Self::D, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum CasesSeq { A, B, C }
impl serde_xdr::XdrIndexer for CasesSeq {
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> { match ix_ { 0 => Ok("A"), 1 => Ok("B"), 2 => Ok("C"), _ => Err("no".into()) } }
    fn index(&self) -> i32 { match self { Self::A{..} => 0, Self::B{..} => 1, Self::C{..} => 2,  } }
}
impl Model for CasesSeq {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2]), vec![vec![], vec![], vec![], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::A => un(Val::I(0), vec![]), Self::B => un(Val::I(1), vec![]), Self::C => un(Val::I(2), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::A, 1 => Self::B, 2 => Self::C, _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32N1 { V0(i32) }
impl serde_xdr::XdrUnion<i32> for UI32N1 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), _ => Err(()) } }
}
impl Model for UI32N1 {
    fn ty() -> Ty { union(Ty::I32of(vec![0]), vec![vec![], ], vec![(Val::I(0), 0), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32Rev1 { V0(i32) }
impl serde_xdr::XdrUnion<i32> for UI32Rev1 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 65536 => Ok("V0"), _ => Err(()) } }
}
impl Model for UI32Rev1 {
    fn ty() -> Ty { union(Ty::I32of(vec![65536]), vec![vec![], ], vec![(Val::I(65536), 0), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32N2 { V0(i32), V1(i32, String) }
impl serde_xdr::XdrUnion<i32> for UI32N2 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 1 => Ok("V1"), _ => Err(()) } }
}
impl Model for UI32N2 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1]), vec![vec![], vec![m::<String>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32Rev2 { V0(i32), V1(i32, String) }
impl serde_xdr::XdrUnion<i32> for UI32Rev2 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 65536 => Ok("V0"), -256 => Ok("V1"), _ => Err(()) } }
}
impl Model for UI32Rev2 {
    fn ty() -> Ty { union(Ty::I32of(vec![65536, -256]), vec![vec![], vec![m::<String>()], ], vec![(Val::I(65536), 0), (Val::I(-256), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32N3 { V0(i32), V1(i32, String), V2(i32, i16, u64) }
impl serde_xdr::XdrUnion<i32> for UI32N3 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), _ => Err(()) } }
}
impl Model for UI32N3 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V2(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32Rev3 { V0(i32), V1(i32, String), V2(i32, i16, u64) }
impl serde_xdr::XdrUnion<i32> for UI32Rev3 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 65536 => Ok("V0"), -256 => Ok("V1"), 256 => Ok("V2"), _ => Err(()) } }
}
impl Model for UI32Rev3 {
    fn ty() -> Ty { union(Ty::I32of(vec![65536, -256, 256]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], ], vec![(Val::I(65536), 0), (Val::I(-256), 1), (Val::I(256), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V2(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32N5 { V0(i32), V1(i32, String), V2(i32, i16, u64), V3(i32, u64, bool, char), V4(i32) }
impl serde_xdr::XdrUnion<i32> for UI32N5 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), -1 => Ok("V3"), -2 => Ok("V4"), _ => Err(()) } }
}
impl Model for UI32N5 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, -1, -2]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![m::<u64>(), m::<bool>(), m::<char>()], vec![], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(-1), 3), (Val::I(-2), 4), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V2(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V3(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V4(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 3 => Self::V3(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 4 => Self::V4(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32Rev5 { V0(i32), V1(i32, String), V2(i32, i16, u64), V3(i32), V4(i32, bool) }
impl serde_xdr::XdrUnion<i32> for UI32Rev5 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 65536 => Ok("V0"), -256 => Ok("V1"), 256 => Ok("V2"), 2147483647 => Ok("V3"), -2147483648 => Ok("V4"), _ => Err(()) } }
}
impl Model for UI32Rev5 {
    fn ty() -> Ty { union(Ty::I32of(vec![65536, -256, 256, 2147483647, -2147483648]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], ], vec![(Val::I(65536), 0), (Val::I(-256), 1), (Val::I(256), 2), (Val::I(2147483647), 3), (Val::I(-2147483648), 4), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V2(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V3(d_) => un(d_.to_val(), vec![]), Self::V4(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 3 => Self::V3(disc(v_)?), 4 => Self::V4(disc(v_)?, x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32N12 { V0(i32), V1(i32, String), V2(i32, i16, u64), V3(i32, u64, bool, char), V4(i32), V5(i32, char), V6(i32, u8, String), V7(i32, String, i16, u64), V8(i32), V9(i32, u64), V10(i32, bool, char), V11(i32, char, u8, String) }
impl serde_xdr::XdrUnion<i32> for UI32N12 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), -1 => Ok("V3"), -2 => Ok("V4"), 5 => Ok("V5"), 100 => Ok("V6"), -2147483648 => Ok("V7"), 2147483647 => Ok("V8"), 256 => Ok("V9"), -256 => Ok("V10"), 65536 => Ok("V11"), _ => Err(()) } }
}
impl Model for UI32N12 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, -1, -2, 5, 100, -2147483648, 2147483647, 256, -256, 65536]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![m::<u64>(), m::<bool>(), m::<char>()], vec![], vec![m::<char>()], vec![m::<u8>(), m::<String>()], vec![m::<String>(), m::<i16>(), m::<u64>()], vec![], vec![m::<u64>()], vec![m::<bool>(), m::<char>()], vec![m::<char>(), m::<u8>(), m::<String>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(-1), 3), (Val::I(-2), 4), (Val::I(5), 5), (Val::I(100), 6), (Val::I(-2147483648), 7), (Val::I(2147483647), 8), (Val::I(256), 9), (Val::I(-256), 10), (Val::I(65536), 11), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V2(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V3(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V4(d_) => un(d_.to_val(), vec![]), Self::V5(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V6(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V7(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V8(d_) => un(d_.to_val(), vec![]), Self::V9(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V10(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V11(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 3 => Self::V3(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 4 => Self::V4(disc(v_)?), 5 => Self::V5(disc(v_)?, x(l_, 0)?), 6 => Self::V6(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 7 => Self::V7(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 8 => Self::V8(disc(v_)?), 9 => Self::V9(disc(v_)?, x(l_, 0)?), 10 => Self::V10(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 11 => Self::V11(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32Rev12 { V0(i32), V1(i32, String), V2(i32, i16, u64), V3(i32), V4(i32, bool), V5(i32, char, u8), V6(i32), V7(i32, String), V8(i32, i16, u64), V9(i32), V10(i32, bool), V11(i32, char, u8) }
impl serde_xdr::XdrUnion<i32> for UI32Rev12 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 65536 => Ok("V0"), -256 => Ok("V1"), 256 => Ok("V2"), 2147483647 => Ok("V3"), -2147483648 => Ok("V4"), 100 => Ok("V5"), 5 => Ok("V6"), -2 => Ok("V7"), -1 => Ok("V8"), 2 => Ok("V9"), 1 => Ok("V10"), 0 => Ok("V11"), _ => Err(()) } }
}
impl Model for UI32Rev12 {
    fn ty() -> Ty { union(Ty::I32of(vec![65536, -256, 256, 2147483647, -2147483648, 100, 5, -2, -1, 2, 1, 0]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], ], vec![(Val::I(65536), 0), (Val::I(-256), 1), (Val::I(256), 2), (Val::I(2147483647), 3), (Val::I(-2147483648), 4), (Val::I(100), 5), (Val::I(5), 6), (Val::I(-2), 7), (Val::I(-1), 8), (Val::I(2), 9), (Val::I(1), 10), (Val::I(0), 11), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V2(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V3(d_) => un(d_.to_val(), vec![]), Self::V4(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V5(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V6(d_) => un(d_.to_val(), vec![]), Self::V7(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V8(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V9(d_) => un(d_.to_val(), vec![]), Self::V10(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V11(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 3 => Self::V3(disc(v_)?), 4 => Self::V4(disc(v_)?, x(l_, 0)?), 5 => Self::V5(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 6 => Self::V6(disc(v_)?), 7 => Self::V7(disc(v_)?, x(l_, 0)?), 8 => Self::V8(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 9 => Self::V9(disc(v_)?), 10 => Self::V10(disc(v_)?, x(l_, 0)?), 11 => Self::V11(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32Items0 { V0(i32), V1(i32) }
impl serde_xdr::XdrUnion<i32> for UI32Items0 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 7 => Ok("V0"), 8 => Ok("V1"), _ => Err(()) } }
}
impl Model for UI32Items0 {
    fn ty() -> Ty { union(Ty::I32of(vec![7, 8]), vec![vec![], vec![], ], vec![(Val::I(7), 0), (Val::I(8), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32Items1 { V0(i32, u8), V1(i32) }
impl serde_xdr::XdrUnion<i32> for UI32Items1 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 7 => Ok("V0"), 8 => Ok("V1"), _ => Err(()) } }
}
impl Model for UI32Items1 {
    fn ty() -> Ty { union(Ty::I32of(vec![7, 8]), vec![vec![m::<u8>()], vec![], ], vec![(Val::I(7), 0), (Val::I(8), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32Items2 { V0(i32, u8, String), V1(i32) }
impl serde_xdr::XdrUnion<i32> for UI32Items2 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 7 => Ok("V0"), 8 => Ok("V1"), _ => Err(()) } }
}
impl Model for UI32Items2 {
    fn ty() -> Ty { union(Ty::I32of(vec![7, 8]), vec![vec![m::<u8>(), m::<String>()], vec![], ], vec![(Val::I(7), 0), (Val::I(8), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32Items3 { V0(i32, u8, String, i64), V1(i32) }
impl serde_xdr::XdrUnion<i32> for UI32Items3 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 7 => Ok("V0"), 8 => Ok("V1"), _ => Err(()) } }
}
impl Model for UI32Items3 {
    fn ty() -> Ty { union(Ty::I32of(vec![7, 8]), vec![vec![m::<u8>(), m::<String>(), m::<i64>()], vec![], ], vec![(Val::I(7), 0), (Val::I(8), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32Items4 { V0(i32, u8, String, i64, bool), V1(i32) }
impl serde_xdr::XdrUnion<i32> for UI32Items4 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 7 => Ok("V0"), 8 => Ok("V1"), _ => Err(()) } }
}
impl Model for UI32Items4 {
    fn ty() -> Ty { union(Ty::I32of(vec![7, 8]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>()], vec![], ], vec![(Val::I(7), 0), (Val::I(8), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_, a2_, a3_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32Items5 { V0(i32, u8, String, i64, bool, Vec<u16>), V1(i32) }
impl serde_xdr::XdrUnion<i32> for UI32Items5 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 7 => Ok("V0"), 8 => Ok("V1"), _ => Err(()) } }
}
impl Model for UI32Items5 {
    fn ty() -> Ty { union(Ty::I32of(vec![7, 8]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>()], vec![], ], vec![(Val::I(7), 0), (Val::I(8), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_, a2_, a3_, a4_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32Items6 { V0(i32, u8, String, i64, bool, Vec<u16>, i16), V1(i32) }
impl serde_xdr::XdrUnion<i32> for UI32Items6 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 7 => Ok("V0"), 8 => Ok("V1"), _ => Err(()) } }
}
impl Model for UI32Items6 {
    fn ty() -> Ty { union(Ty::I32of(vec![7, 8]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>()], vec![], ], vec![(Val::I(7), 0), (Val::I(8), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_, a2_, a3_, a4_, a5_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32Items7 { V0(i32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>), V1(i32) }
impl serde_xdr::XdrUnion<i32> for UI32Items7 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 7 => Ok("V0"), 8 => Ok("V1"), _ => Err(()) } }
}
impl Model for UI32Items7 {
    fn ty() -> Ty { union(Ty::I32of(vec![7, 8]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>()], vec![], ], vec![(Val::I(7), 0), (Val::I(8), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_, a2_, a3_, a4_, a5_, a6_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32Items8 { V0(i32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64), V1(i32) }
impl serde_xdr::XdrUnion<i32> for UI32Items8 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 7 => Ok("V0"), 8 => Ok("V1"), _ => Err(()) } }
}
impl Model for UI32Items8 {
    fn ty() -> Ty { union(Ty::I32of(vec![7, 8]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>()], vec![], ], vec![(Val::I(7), 0), (Val::I(8), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32Items9 { V0(i32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32), V1(i32) }
impl serde_xdr::XdrUnion<i32> for UI32Items9 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 7 => Ok("V0"), 8 => Ok("V1"), _ => Err(()) } }
}
impl Model for UI32Items9 {
    fn ty() -> Ty { union(Ty::I32of(vec![7, 8]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>()], vec![], ], vec![(Val::I(7), 0), (Val::I(8), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32Items10 { V0(i32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char), V1(i32) }
impl serde_xdr::XdrUnion<i32> for UI32Items10 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 7 => Ok("V0"), 8 => Ok("V1"), _ => Err(()) } }
}
impl Model for UI32Items10 {
    fn ty() -> Ty { union(Ty::I32of(vec![7, 8]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>()], vec![], ], vec![(Val::I(7), 0), (Val::I(8), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32Items11 { V0(i32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3]), V1(i32) }
impl serde_xdr::XdrUnion<i32> for UI32Items11 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 7 => Ok("V0"), 8 => Ok("V1"), _ => Err(()) } }
}
impl Model for UI32Items11 {
    fn ty() -> Ty { union(Ty::I32of(vec![7, 8]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>()], vec![], ], vec![(Val::I(7), 0), (Val::I(8), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32Items12 { V0(i32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64), V1(i32) }
impl serde_xdr::XdrUnion<i32> for UI32Items12 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 7 => Ok("V0"), 8 => Ok("V1"), _ => Err(()) } }
}
impl Model for UI32Items12 {
    fn ty() -> Ty { union(Ty::I32of(vec![7, 8]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>()], vec![], ], vec![(Val::I(7), 0), (Val::I(8), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32Items15 { V0(i32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8), V1(i32) }
impl serde_xdr::XdrUnion<i32> for UI32Items15 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 7 => Ok("V0"), 8 => Ok("V1"), _ => Err(()) } }
}
impl Model for UI32Items15 {
    fn ty() -> Ty { union(Ty::I32of(vec![7, 8]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>()], vec![], ], vec![(Val::I(7), 0), (Val::I(8), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_, a12_, a13_, a14_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val(), a12_.to_val(), a13_.to_val(), a14_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?, x(l_, 12)?, x(l_, 13)?, x(l_, 14)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32Items16 { V0(i32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String), V1(i32) }
impl serde_xdr::XdrUnion<i32> for UI32Items16 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 7 => Ok("V0"), 8 => Ok("V1"), _ => Err(()) } }
}
impl Model for UI32Items16 {
    fn ty() -> Ty { union(Ty::I32of(vec![7, 8]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>()], vec![], ], vec![(Val::I(7), 0), (Val::I(8), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_, a12_, a13_, a14_, a15_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val(), a12_.to_val(), a13_.to_val(), a14_.to_val(), a15_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?, x(l_, 12)?, x(l_, 13)?, x(l_, 14)?, x(l_, 15)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32Items17 { V0(i32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64), V1(i32) }
impl serde_xdr::XdrUnion<i32> for UI32Items17 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 7 => Ok("V0"), 8 => Ok("V1"), _ => Err(()) } }
}
impl Model for UI32Items17 {
    fn ty() -> Ty { union(Ty::I32of(vec![7, 8]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>()], vec![], ], vec![(Val::I(7), 0), (Val::I(8), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_, a12_, a13_, a14_, a15_, a16_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val(), a12_.to_val(), a13_.to_val(), a14_.to_val(), a15_.to_val(), a16_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?, x(l_, 12)?, x(l_, 13)?, x(l_, 14)?, x(l_, 15)?, x(l_, 16)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32Items31 { V0(i32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64), V1(i32) }
impl serde_xdr::XdrUnion<i32> for UI32Items31 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 7 => Ok("V0"), 8 => Ok("V1"), _ => Err(()) } }
}
impl Model for UI32Items31 {
    fn ty() -> Ty { union(Ty::I32of(vec![7, 8]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>()], vec![], ], vec![(Val::I(7), 0), (Val::I(8), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_, a12_, a13_, a14_, a15_, a16_, a17_, a18_, a19_, a20_, a21_, a22_, a23_, a24_, a25_, a26_, a27_, a28_, a29_, a30_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val(), a12_.to_val(), a13_.to_val(), a14_.to_val(), a15_.to_val(), a16_.to_val(), a17_.to_val(), a18_.to_val(), a19_.to_val(), a20_.to_val(), a21_.to_val(), a22_.to_val(), a23_.to_val(), a24_.to_val(), a25_.to_val(), a26_.to_val(), a27_.to_val(), a28_.to_val(), a29_.to_val(), a30_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?, x(l_, 12)?, x(l_, 13)?, x(l_, 14)?, x(l_, 15)?, x(l_, 16)?, x(l_, 17)?, x(l_, 18)?, x(l_, 19)?, x(l_, 20)?, x(l_, 21)?, x(l_, 22)?, x(l_, 23)?, x(l_, 24)?, x(l_, 25)?, x(l_, 26)?, x(l_, 27)?, x(l_, 28)?, x(l_, 29)?, x(l_, 30)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32Items32 { V0(i32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64, bool), V1(i32) }
impl serde_xdr::XdrUnion<i32> for UI32Items32 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 7 => Ok("V0"), 8 => Ok("V1"), _ => Err(()) } }
}
impl Model for UI32Items32 {
    fn ty() -> Ty { union(Ty::I32of(vec![7, 8]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>(), m::<bool>()], vec![], ], vec![(Val::I(7), 0), (Val::I(8), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_, a12_, a13_, a14_, a15_, a16_, a17_, a18_, a19_, a20_, a21_, a22_, a23_, a24_, a25_, a26_, a27_, a28_, a29_, a30_, a31_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val(), a12_.to_val(), a13_.to_val(), a14_.to_val(), a15_.to_val(), a16_.to_val(), a17_.to_val(), a18_.to_val(), a19_.to_val(), a20_.to_val(), a21_.to_val(), a22_.to_val(), a23_.to_val(), a24_.to_val(), a25_.to_val(), a26_.to_val(), a27_.to_val(), a28_.to_val(), a29_.to_val(), a30_.to_val(), a31_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?, x(l_, 12)?, x(l_, 13)?, x(l_, 14)?, x(l_, 15)?, x(l_, 16)?, x(l_, 17)?, x(l_, 18)?, x(l_, 19)?, x(l_, 20)?, x(l_, 21)?, x(l_, 22)?, x(l_, 23)?, x(l_, 24)?, x(l_, 25)?, x(l_, 26)?, x(l_, 27)?, x(l_, 28)?, x(l_, 29)?, x(l_, 30)?, x(l_, 31)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32Items33 { V0(i32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64, bool, Vec<u16>), V1(i32) }
impl serde_xdr::XdrUnion<i32> for UI32Items33 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 7 => Ok("V0"), 8 => Ok("V1"), _ => Err(()) } }
}
impl Model for UI32Items33 {
    fn ty() -> Ty { union(Ty::I32of(vec![7, 8]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>()], vec![], ], vec![(Val::I(7), 0), (Val::I(8), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_, a12_, a13_, a14_, a15_, a16_, a17_, a18_, a19_, a20_, a21_, a22_, a23_, a24_, a25_, a26_, a27_, a28_, a29_, a30_, a31_, a32_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val(), a12_.to_val(), a13_.to_val(), a14_.to_val(), a15_.to_val(), a16_.to_val(), a17_.to_val(), a18_.to_val(), a19_.to_val(), a20_.to_val(), a21_.to_val(), a22_.to_val(), a23_.to_val(), a24_.to_val(), a25_.to_val(), a26_.to_val(), a27_.to_val(), a28_.to_val(), a29_.to_val(), a30_.to_val(), a31_.to_val(), a32_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?, x(l_, 12)?, x(l_, 13)?, x(l_, 14)?, x(l_, 15)?, x(l_, 16)?, x(l_, 17)?, x(l_, 18)?, x(l_, 19)?, x(l_, 20)?, x(l_, 21)?, x(l_, 22)?, x(l_, 23)?, x(l_, 24)?, x(l_, 25)?, x(l_, 26)?, x(l_, 27)?, x(l_, 28)?, x(l_, 29)?, x(l_, 30)?, x(l_, 31)?, x(l_, 32)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32Items64 { V0(i32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64), V1(i32) }
impl serde_xdr::XdrUnion<i32> for UI32Items64 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 7 => Ok("V0"), 8 => Ok("V1"), _ => Err(()) } }
}
impl Model for UI32Items64 {
    fn ty() -> Ty { union(Ty::I32of(vec![7, 8]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>()], vec![], ], vec![(Val::I(7), 0), (Val::I(8), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_, a12_, a13_, a14_, a15_, a16_, a17_, a18_, a19_, a20_, a21_, a22_, a23_, a24_, a25_, a26_, a27_, a28_, a29_, a30_, a31_, a32_, a33_, a34_, a35_, a36_, a37_, a38_, a39_, a40_, a41_, a42_, a43_, a44_, a45_, a46_, a47_, a48_, a49_, a50_, a51_, a52_, a53_, a54_, a55_, a56_, a57_, a58_, a59_, a60_, a61_, a62_, a63_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val(), a12_.to_val(), a13_.to_val(), a14_.to_val(), a15_.to_val(), a16_.to_val(), a17_.to_val(), a18_.to_val(), a19_.to_val(), a20_.to_val(), a21_.to_val(), a22_.to_val(), a23_.to_val(), a24_.to_val(), a25_.to_val(), a26_.to_val(), a27_.to_val(), a28_.to_val(), a29_.to_val(), a30_.to_val(), a31_.to_val(), a32_.to_val(), a33_.to_val(), a34_.to_val(), a35_.to_val(), a36_.to_val(), a37_.to_val(), a38_.to_val(), a39_.to_val(), a40_.to_val(), a41_.to_val(), a42_.to_val(), a43_.to_val(), a44_.to_val(), a45_.to_val(), a46_.to_val(), a47_.to_val(), a48_.to_val(), a49_.to_val(), a50_.to_val(), a51_.to_val(), a52_.to_val(), a53_.to_val(), a54_.to_val(), a55_.to_val(), a56_.to_val(), a57_.to_val(), a58_.to_val(), a59_.to_val(), a60_.to_val(), a61_.to_val(), a62_.to_val(), a63_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?, x(l_, 12)?, x(l_, 13)?, x(l_, 14)?, x(l_, 15)?, x(l_, 16)?, x(l_, 17)?, x(l_, 18)?, x(l_, 19)?, x(l_, 20)?, x(l_, 21)?, x(l_, 22)?, x(l_, 23)?, x(l_, 24)?, x(l_, 25)?, x(l_, 26)?, x(l_, 27)?, x(l_, 28)?, x(l_, 29)?, x(l_, 30)?, x(l_, 31)?, x(l_, 32)?, x(l_, 33)?, x(l_, 34)?, x(l_, 35)?, x(l_, 36)?, x(l_, 37)?, x(l_, 38)?, x(l_, 39)?, x(l_, 40)?, x(l_, 41)?, x(l_, 42)?, x(l_, 43)?, x(l_, 44)?, x(l_, 45)?, x(l_, 46)?, x(l_, 47)?, x(l_, 48)?, x(l_, 49)?, x(l_, 50)?, x(l_, 51)?, x(l_, 52)?, x(l_, 53)?, x(l_, 54)?, x(l_, 55)?, x(l_, 56)?, x(l_, 57)?, x(l_, 58)?, x(l_, 59)?, x(l_, 60)?, x(l_, 61)?, x(l_, 62)?, x(l_, 63)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32Many26 { V0(i32), V1(i32, String), V2(i32, i16, u64), V3(i32), V4(i32, bool), V5(i32, char, u8), V6(i32), V7(i32, String), V8(i32, i16, u64), V9(i32), V10(i32, bool), V11(i32, char, u8), V12(i32), V13(i32, String), V14(i32, i16, u64), V15(i32), V16(i32, bool), V17(i32, char, u8), V18(i32), V19(i32, String), V20(i32, i16, u64), V21(i32), V22(i32, bool), V23(i32, char, u8), V24(i32), V25(i32, String) }
impl serde_xdr::XdrUnion<i32> for UI32Many26 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 3 => Ok("V1"), 6 => Ok("V2"), 9 => Ok("V3"), 12 => Ok("V4"), 15 => Ok("V5"), 18 => Ok("V6"), 21 => Ok("V7"), 24 => Ok("V8"), 27 => Ok("V9"), 30 => Ok("V10"), 33 => Ok("V11"), 36 => Ok("V12"), 39 => Ok("V13"), 42 => Ok("V14"), 45 => Ok("V15"), 48 => Ok("V16"), 51 => Ok("V17"), 54 => Ok("V18"), 57 => Ok("V19"), 60 => Ok("V20"), 63 => Ok("V21"), 66 => Ok("V22"), 69 => Ok("V23"), 72 => Ok("V24"), 75 => Ok("V25"), _ => Err(()) } }
}
impl Model for UI32Many26 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 3, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33, 36, 39, 42, 45, 48, 51, 54, 57, 60, 63, 66, 69, 72, 75]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], ], vec![(Val::I(0), 0), (Val::I(3), 1), (Val::I(6), 2), (Val::I(9), 3), (Val::I(12), 4), (Val::I(15), 5), (Val::I(18), 6), (Val::I(21), 7), (Val::I(24), 8), (Val::I(27), 9), (Val::I(30), 10), (Val::I(33), 11), (Val::I(36), 12), (Val::I(39), 13), (Val::I(42), 14), (Val::I(45), 15), (Val::I(48), 16), (Val::I(51), 17), (Val::I(54), 18), (Val::I(57), 19), (Val::I(60), 20), (Val::I(63), 21), (Val::I(66), 22), (Val::I(69), 23), (Val::I(72), 24), (Val::I(75), 25), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V2(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V3(d_) => un(d_.to_val(), vec![]), Self::V4(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V5(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V6(d_) => un(d_.to_val(), vec![]), Self::V7(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V8(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V9(d_) => un(d_.to_val(), vec![]), Self::V10(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V11(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V12(d_) => un(d_.to_val(), vec![]), Self::V13(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V14(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V15(d_) => un(d_.to_val(), vec![]), Self::V16(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V17(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V18(d_) => un(d_.to_val(), vec![]), Self::V19(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V20(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V21(d_) => un(d_.to_val(), vec![]), Self::V22(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V23(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V24(d_) => un(d_.to_val(), vec![]), Self::V25(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 3 => Self::V3(disc(v_)?), 4 => Self::V4(disc(v_)?, x(l_, 0)?), 5 => Self::V5(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 6 => Self::V6(disc(v_)?), 7 => Self::V7(disc(v_)?, x(l_, 0)?), 8 => Self::V8(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 9 => Self::V9(disc(v_)?), 10 => Self::V10(disc(v_)?, x(l_, 0)?), 11 => Self::V11(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 12 => Self::V12(disc(v_)?), 13 => Self::V13(disc(v_)?, x(l_, 0)?), 14 => Self::V14(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 15 => Self::V15(disc(v_)?), 16 => Self::V16(disc(v_)?, x(l_, 0)?), 17 => Self::V17(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 18 => Self::V18(disc(v_)?), 19 => Self::V19(disc(v_)?, x(l_, 0)?), 20 => Self::V20(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 21 => Self::V21(disc(v_)?), 22 => Self::V22(disc(v_)?, x(l_, 0)?), 23 => Self::V23(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 24 => Self::V24(disc(v_)?), 25 => Self::V25(disc(v_)?, x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32Many40 { V0(i32), V1(i32, String), V2(i32, i16, u64), V3(i32), V4(i32, bool), V5(i32, char, u8), V6(i32), V7(i32, String), V8(i32, i16, u64), V9(i32), V10(i32, bool), V11(i32, char, u8), V12(i32), V13(i32, String), V14(i32, i16, u64), V15(i32), V16(i32, bool), V17(i32, char, u8), V18(i32), V19(i32, String), V20(i32, i16, u64), V21(i32), V22(i32, bool), V23(i32, char, u8), V24(i32), V25(i32, String), V26(i32, i16, u64), V27(i32), V28(i32, bool), V29(i32, char, u8), V30(i32), V31(i32, String), V32(i32, i16, u64), V33(i32), V34(i32, bool), V35(i32, char, u8), V36(i32), V37(i32, String), V38(i32, i16, u64), V39(i32) }
impl serde_xdr::XdrUnion<i32> for UI32Many40 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 3 => Ok("V1"), 6 => Ok("V2"), 9 => Ok("V3"), 12 => Ok("V4"), 15 => Ok("V5"), 18 => Ok("V6"), 21 => Ok("V7"), 24 => Ok("V8"), 27 => Ok("V9"), 30 => Ok("V10"), 33 => Ok("V11"), 36 => Ok("V12"), 39 => Ok("V13"), 42 => Ok("V14"), 45 => Ok("V15"), 48 => Ok("V16"), 51 => Ok("V17"), 54 => Ok("V18"), 57 => Ok("V19"), 60 => Ok("V20"), 63 => Ok("V21"), 66 => Ok("V22"), 69 => Ok("V23"), 72 => Ok("V24"), 75 => Ok("V25"), 78 => Ok("V26"), 81 => Ok("V27"), 84 => Ok("V28"), 87 => Ok("V29"), 90 => Ok("V30"), 93 => Ok("V31"), 96 => Ok("V32"), 99 => Ok("V33"), 102 => Ok("V34"), 105 => Ok("V35"), 108 => Ok("V36"), 111 => Ok("V37"), 114 => Ok("V38"), 117 => Ok("V39"), _ => Err(()) } }
}
impl Model for UI32Many40 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 3, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33, 36, 39, 42, 45, 48, 51, 54, 57, 60, 63, 66, 69, 72, 75, 78, 81, 84, 87, 90, 93, 96, 99, 102, 105, 108, 111, 114, 117]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], ], vec![(Val::I(0), 0), (Val::I(3), 1), (Val::I(6), 2), (Val::I(9), 3), (Val::I(12), 4), (Val::I(15), 5), (Val::I(18), 6), (Val::I(21), 7), (Val::I(24), 8), (Val::I(27), 9), (Val::I(30), 10), (Val::I(33), 11), (Val::I(36), 12), (Val::I(39), 13), (Val::I(42), 14), (Val::I(45), 15), (Val::I(48), 16), (Val::I(51), 17), (Val::I(54), 18), (Val::I(57), 19), (Val::I(60), 20), (Val::I(63), 21), (Val::I(66), 22), (Val::I(69), 23), (Val::I(72), 24), (Val::I(75), 25), (Val::I(78), 26), (Val::I(81), 27), (Val::I(84), 28), (Val::I(87), 29), (Val::I(90), 30), (Val::I(93), 31), (Val::I(96), 32), (Val::I(99), 33), (Val::I(102), 34), (Val::I(105), 35), (Val::I(108), 36), (Val::I(111), 37), (Val::I(114), 38), (Val::I(117), 39), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V2(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V3(d_) => un(d_.to_val(), vec![]), Self::V4(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V5(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V6(d_) => un(d_.to_val(), vec![]), Self::V7(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V8(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V9(d_) => un(d_.to_val(), vec![]), Self::V10(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V11(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V12(d_) => un(d_.to_val(), vec![]), Self::V13(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V14(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V15(d_) => un(d_.to_val(), vec![]), Self::V16(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V17(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V18(d_) => un(d_.to_val(), vec![]), Self::V19(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V20(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V21(d_) => un(d_.to_val(), vec![]), Self::V22(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V23(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V24(d_) => un(d_.to_val(), vec![]), Self::V25(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V26(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V27(d_) => un(d_.to_val(), vec![]), Self::V28(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V29(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V30(d_) => un(d_.to_val(), vec![]), Self::V31(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V32(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V33(d_) => un(d_.to_val(), vec![]), Self::V34(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V35(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V36(d_) => un(d_.to_val(), vec![]), Self::V37(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V38(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V39(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 3 => Self::V3(disc(v_)?), 4 => Self::V4(disc(v_)?, x(l_, 0)?), 5 => Self::V5(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 6 => Self::V6(disc(v_)?), 7 => Self::V7(disc(v_)?, x(l_, 0)?), 8 => Self::V8(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 9 => Self::V9(disc(v_)?), 10 => Self::V10(disc(v_)?, x(l_, 0)?), 11 => Self::V11(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 12 => Self::V12(disc(v_)?), 13 => Self::V13(disc(v_)?, x(l_, 0)?), 14 => Self::V14(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 15 => Self::V15(disc(v_)?), 16 => Self::V16(disc(v_)?, x(l_, 0)?), 17 => Self::V17(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 18 => Self::V18(disc(v_)?), 19 => Self::V19(disc(v_)?, x(l_, 0)?), 20 => Self::V20(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 21 => Self::V21(disc(v_)?), 22 => Self::V22(disc(v_)?, x(l_, 0)?), 23 => Self::V23(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 24 => Self::V24(disc(v_)?), 25 => Self::V25(disc(v_)?, x(l_, 0)?), 26 => Self::V26(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 27 => Self::V27(disc(v_)?), 28 => Self::V28(disc(v_)?, x(l_, 0)?), 29 => Self::V29(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 30 => Self::V30(disc(v_)?), 31 => Self::V31(disc(v_)?, x(l_, 0)?), 32 => Self::V32(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 33 => Self::V33(disc(v_)?), 34 => Self::V34(disc(v_)?, x(l_, 0)?), 35 => Self::V35(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 36 => Self::V36(disc(v_)?), 37 => Self::V37(disc(v_)?, x(l_, 0)?), 38 => Self::V38(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 39 => Self::V39(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32Many130 { V0(i32), V1(i32, String), V2(i32, i16, u64), V3(i32), V4(i32, bool), V5(i32, char, u8), V6(i32), V7(i32, String), V8(i32, i16, u64), V9(i32), V10(i32, bool), V11(i32, char, u8), V12(i32), V13(i32, String), V14(i32, i16, u64), V15(i32), V16(i32, bool), V17(i32, char, u8), V18(i32), V19(i32, String), V20(i32, i16, u64), V21(i32), V22(i32, bool), V23(i32, char, u8), V24(i32), V25(i32, String), V26(i32, i16, u64), V27(i32), V28(i32, bool), V29(i32, char, u8), V30(i32), V31(i32, String), V32(i32, i16, u64), V33(i32), V34(i32, bool), V35(i32, char, u8), V36(i32), V37(i32, String), V38(i32, i16, u64), V39(i32), V40(i32, bool), V41(i32, char, u8), V42(i32), V43(i32, String), V44(i32, i16, u64), V45(i32), V46(i32, bool), V47(i32, char, u8), V48(i32), V49(i32, String), V50(i32, i16, u64), V51(i32), V52(i32, bool), V53(i32, char, u8), V54(i32), V55(i32, String), V56(i32, i16, u64), V57(i32), V58(i32, bool), V59(i32, char, u8), V60(i32), V61(i32, String), V62(i32, i16, u64), V63(i32), V64(i32, bool), V65(i32, char, u8), V66(i32), V67(i32, String), V68(i32, i16, u64), V69(i32), V70(i32, bool), V71(i32, char, u8), V72(i32), V73(i32, String), V74(i32, i16, u64), V75(i32), V76(i32, bool), V77(i32, char, u8), V78(i32), V79(i32, String), V80(i32, i16, u64), V81(i32), V82(i32, bool), V83(i32, char, u8), V84(i32), V85(i32, String), V86(i32, i16, u64), V87(i32), V88(i32, bool), V89(i32, char, u8), V90(i32), V91(i32, String), V92(i32, i16, u64), V93(i32), V94(i32, bool), V95(i32, char, u8), V96(i32), V97(i32, String), V98(i32, i16, u64), V99(i32), V100(i32, bool), V101(i32, char, u8), V102(i32), V103(i32, String), V104(i32, i16, u64), V105(i32), V106(i32, bool), V107(i32, char, u8), V108(i32), V109(i32, String), V110(i32, i16, u64), V111(i32), V112(i32, bool), V113(i32, char, u8), V114(i32), V115(i32, String), V116(i32, i16, u64), V117(i32), V118(i32, bool), V119(i32, char, u8), V120(i32), V121(i32, String), V122(i32, i16, u64), V123(i32), V124(i32, bool), V125(i32, char, u8), V126(i32), V127(i32, String), V128(i32, i16, u64), V129(i32) }
impl serde_xdr::XdrUnion<i32> for UI32Many130 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 3 => Ok("V1"), 6 => Ok("V2"), 9 => Ok("V3"), 12 => Ok("V4"), 15 => Ok("V5"), 18 => Ok("V6"), 21 => Ok("V7"), 24 => Ok("V8"), 27 => Ok("V9"), 30 => Ok("V10"), 33 => Ok("V11"), 36 => Ok("V12"), 39 => Ok("V13"), 42 => Ok("V14"), 45 => Ok("V15"), 48 => Ok("V16"), 51 => Ok("V17"), 54 => Ok("V18"), 57 => Ok("V19"), 60 => Ok("V20"), 63 => Ok("V21"), 66 => Ok("V22"), 69 => Ok("V23"), 72 => Ok("V24"), 75 => Ok("V25"), 78 => Ok("V26"), 81 => Ok("V27"), 84 => Ok("V28"), 87 => Ok("V29"), 90 => Ok("V30"), 93 => Ok("V31"), 96 => Ok("V32"), 99 => Ok("V33"), 102 => Ok("V34"), 105 => Ok("V35"), 108 => Ok("V36"), 111 => Ok("V37"), 114 => Ok("V38"), 117 => Ok("V39"), 120 => Ok("V40"), 123 => Ok("V41"), 126 => Ok("V42"), 129 => Ok("V43"), 132 => Ok("V44"), 135 => Ok("V45"), 138 => Ok("V46"), 141 => Ok("V47"), 144 => Ok("V48"), 147 => Ok("V49"), 150 => Ok("V50"), 153 => Ok("V51"), 156 => Ok("V52"), 159 => Ok("V53"), 162 => Ok("V54"), 165 => Ok("V55"), 168 => Ok("V56"), 171 => Ok("V57"), 174 => Ok("V58"), 177 => Ok("V59"), 180 => Ok("V60"), 183 => Ok("V61"), 186 => Ok("V62"), 189 => Ok("V63"), 192 => Ok("V64"), 195 => Ok("V65"), 198 => Ok("V66"), 201 => Ok("V67"), 204 => Ok("V68"), 207 => Ok("V69"), 210 => Ok("V70"), 213 => Ok("V71"), 216 => Ok("V72"), 219 => Ok("V73"), 222 => Ok("V74"), 225 => Ok("V75"), 228 => Ok("V76"), 231 => Ok("V77"), 234 => Ok("V78"), 237 => Ok("V79"), 240 => Ok("V80"), 243 => Ok("V81"), 246 => Ok("V82"), 249 => Ok("V83"), 252 => Ok("V84"), 255 => Ok("V85"), 258 => Ok("V86"), 261 => Ok("V87"), 264 => Ok("V88"), 267 => Ok("V89"), 270 => Ok("V90"), 273 => Ok("V91"), 276 => Ok("V92"), 279 => Ok("V93"), 282 => Ok("V94"), 285 => Ok("V95"), 288 => Ok("V96"), 291 => Ok("V97"), 294 => Ok("V98"), 297 => Ok("V99"), 300 => Ok("V100"), 303 => Ok("V101"), 306 => Ok("V102"), 309 => Ok("V103"), 312 => Ok("V104"), 315 => Ok("V105"), 318 => Ok("V106"), 321 => Ok("V107"), 324 => Ok("V108"), 327 => Ok("V109"), 330 => Ok("V110"), 333 => Ok("V111"), 336 => Ok("V112"), 339 => Ok("V113"), 342 => Ok("V114"), 345 => Ok("V115"), 348 => Ok("V116"), 351 => Ok("V117"), 354 => Ok("V118"), 357 => Ok("V119"), 360 => Ok("V120"), 363 => Ok("V121"), 366 => Ok("V122"), 369 => Ok("V123"), 372 => Ok("V124"), 375 => Ok("V125"), 378 => Ok("V126"), 381 => Ok("V127"), 384 => Ok("V128"), 387 => Ok("V129"), _ => Err(()) } }
}
impl Model for UI32Many130 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 3, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33, 36, 39, 42, 45, 48, 51, 54, 57, 60, 63, 66, 69, 72, 75, 78, 81, 84, 87, 90, 93, 96, 99, 102, 105, 108, 111, 114, 117, 120, 123, 126, 129, 132, 135, 138, 141, 144, 147, 150, 153, 156, 159, 162, 165, 168, 171, 174, 177, 180, 183, 186, 189, 192, 195, 198, 201, 204, 207, 210, 213, 216, 219, 222, 225, 228, 231, 234, 237, 240, 243, 246, 249, 252, 255, 258, 261, 264, 267, 270, 273, 276, 279, 282, 285, 288, 291, 294, 297, 300, 303, 306, 309, 312, 315, 318, 321, 324, 327, 330, 333, 336, 339, 342, 345, 348, 351, 354, 357, 360, 363, 366, 369, 372, 375, 378, 381, 384, 387]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], ], vec![(Val::I(0), 0), (Val::I(3), 1), (Val::I(6), 2), (Val::I(9), 3), (Val::I(12), 4), (Val::I(15), 5), (Val::I(18), 6), (Val::I(21), 7), (Val::I(24), 8), (Val::I(27), 9), (Val::I(30), 10), (Val::I(33), 11), (Val::I(36), 12), (Val::I(39), 13), (Val::I(42), 14), (Val::I(45), 15), (Val::I(48), 16), (Val::I(51), 17), (Val::I(54), 18), (Val::I(57), 19), (Val::I(60), 20), (Val::I(63), 21), (Val::I(66), 22), (Val::I(69), 23), (Val::I(72), 24), (Val::I(75), 25), (Val::I(78), 26), (Val::I(81), 27), (Val::I(84), 28), (Val::I(87), 29), (Val::I(90), 30), (Val::I(93), 31), (Val::I(96), 32), (Val::I(99), 33), (Val::I(102), 34), (Val::I(105), 35), (Val::I(108), 36), (Val::I(111), 37), (Val::I(114), 38), (Val::I(117), 39), (Val::I(120), 40), (Val::I(123), 41), (Val::I(126), 42), (Val::I(129), 43), (Val::I(132), 44), (Val::I(135), 45), (Val::I(138), 46), (Val::I(141), 47), (Val::I(144), 48), (Val::I(147), 49), (Val::I(150), 50), (Val::I(153), 51), (Val::I(156), 52), (Val::I(159), 53), (Val::I(162), 54), (Val::I(165), 55), (Val::I(168), 56), (Val::I(171), 57), (Val::I(174), 58), (Val::I(177), 59), (Val::I(180), 60), (Val::I(183), 61), (Val::I(186), 62), (Val::I(189), 63), (Val::I(192), 64), (Val::I(195), 65), (Val::I(198), 66), (Val::I(201), 67), (Val::I(204), 68), (Val::I(207), 69), (Val::I(210), 70), (Val::I(213), 71), (Val::I(216), 72), (Val::I(219), 73), (Val::I(222), 74), (Val::I(225), 75), (Val::I(228), 76), (Val::I(231), 77), (Val::I(234), 78), (Val::I(237), 79), (Val::I(240), 80), (Val::I(243), 81), (Val::I(246), 82), (Val::I(249), 83), (Val::I(252), 84), (Val::I(255), 85), (Val::I(258), 86), (Val::I(261), 87), (Val::I(264), 88), (Val::I(267), 89), (Val::I(270), 90), (Val::I(273), 91), (Val::I(276), 92), (Val::I(279), 93), (Val::I(282), 94), (Val::I(285), 95), (Val::I(288), 96), (Val::I(291), 97), (Val::I(294), 98), (Val::I(297), 99), (Val::I(300), 100), (Val::I(303), 101), (Val::I(306), 102), (Val::I(309), 103), (Val::I(312), 104), (Val::I(315), 105), (Val::I(318), 106), (Val::I(321), 107), (Val::I(324), 108), (Val::I(327), 109), (Val::I(330), 110), (Val::I(333), 111), (Val::I(336), 112), (Val::I(339), 113), (Val::I(342), 114), (Val::I(345), 115), (Val::I(348), 116), (Val::I(351), 117), (Val::I(354), 118), (Val::I(357), 119), (Val::I(360), 120), (Val::I(363), 121), (Val::I(366), 122), (Val::I(369), 123), (Val::I(372), 124), (Val::I(375), 125), (Val::I(378), 126), (Val::I(381), 127), (Val::I(384), 128), (Val::I(387), 129), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V2(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V3(d_) => un(d_.to_val(), vec![]), Self::V4(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V5(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V6(d_) => un(d_.to_val(), vec![]), Self::V7(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V8(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V9(d_) => un(d_.to_val(), vec![]), Self::V10(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V11(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V12(d_) => un(d_.to_val(), vec![]), Self::V13(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V14(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V15(d_) => un(d_.to_val(), vec![]), Self::V16(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V17(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V18(d_) => un(d_.to_val(), vec![]), Self::V19(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V20(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V21(d_) => un(d_.to_val(), vec![]), Self::V22(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V23(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V24(d_) => un(d_.to_val(), vec![]), Self::V25(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V26(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V27(d_) => un(d_.to_val(), vec![]), Self::V28(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V29(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V30(d_) => un(d_.to_val(), vec![]), Self::V31(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V32(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V33(d_) => un(d_.to_val(), vec![]), Self::V34(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V35(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V36(d_) => un(d_.to_val(), vec![]), Self::V37(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V38(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V39(d_) => un(d_.to_val(), vec![]), Self::V40(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V41(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V42(d_) => un(d_.to_val(), vec![]), Self::V43(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V44(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V45(d_) => un(d_.to_val(), vec![]), Self::V46(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V47(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V48(d_) => un(d_.to_val(), vec![]), Self::V49(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V50(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V51(d_) => un(d_.to_val(), vec![]), Self::V52(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V53(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V54(d_) => un(d_.to_val(), vec![]), Self::V55(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V56(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V57(d_) => un(d_.to_val(), vec![]), Self::V58(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V59(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V60(d_) => un(d_.to_val(), vec![]), Self::V61(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V62(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V63(d_) => un(d_.to_val(), vec![]), Self::V64(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V65(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V66(d_) => un(d_.to_val(), vec![]), Self::V67(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V68(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V69(d_) => un(d_.to_val(), vec![]), Self::V70(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V71(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V72(d_) => un(d_.to_val(), vec![]), Self::V73(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V74(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V75(d_) => un(d_.to_val(), vec![]), Self::V76(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V77(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V78(d_) => un(d_.to_val(), vec![]), Self::V79(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V80(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V81(d_) => un(d_.to_val(), vec![]), Self::V82(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V83(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V84(d_) => un(d_.to_val(), vec![]), Self::V85(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V86(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V87(d_) => un(d_.to_val(), vec![]), Self::V88(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V89(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V90(d_) => un(d_.to_val(), vec![]), Self::V91(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V92(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V93(d_) => un(d_.to_val(), vec![]), Self::V94(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V95(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V96(d_) => un(d_.to_val(), vec![]), Self::V97(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V98(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V99(d_) => un(d_.to_val(), vec![]), Self::V100(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V101(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V102(d_) => un(d_.to_val(), vec![]), Self::V103(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V104(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V105(d_) => un(d_.to_val(), vec![]), Self::V106(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V107(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V108(d_) => un(d_.to_val(), vec![]), Self::V109(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V110(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V111(d_) => un(d_.to_val(), vec![]), Self::V112(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V113(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V114(d_) => un(d_.to_val(), vec![]), Self::V115(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V116(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V117(d_) => un(d_.to_val(), vec![]), Self::V118(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V119(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V120(d_) => un(d_.to_val(), vec![]), Self::V121(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V122(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V123(d_) => un(d_.to_val(), vec![]), Self::V124(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V125(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V126(d_) => un(d_.to_val(), vec![]), Self::V127(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V128(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V129(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 3 => Self::V3(disc(v_)?), 4 => Self::V4(disc(v_)?, x(l_, 0)?), 5 => Self::V5(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 6 => Self::V6(disc(v_)?), 7 => Self::V7(disc(v_)?, x(l_, 0)?), 8 => Self::V8(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 9 => Self::V9(disc(v_)?), 10 => Self::V10(disc(v_)?, x(l_, 0)?), 11 => Self::V11(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 12 => Self::V12(disc(v_)?), 13 => Self::V13(disc(v_)?, x(l_, 0)?), 14 => Self::V14(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 15 => Self::V15(disc(v_)?), 16 => Self::V16(disc(v_)?, x(l_, 0)?), 17 => Self::V17(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 18 => Self::V18(disc(v_)?), 19 => Self::V19(disc(v_)?, x(l_, 0)?), 20 => Self::V20(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 21 => Self::V21(disc(v_)?), 22 => Self::V22(disc(v_)?, x(l_, 0)?), 23 => Self::V23(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 24 => Self::V24(disc(v_)?), 25 => Self::V25(disc(v_)?, x(l_, 0)?), 26 => Self::V26(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 27 => Self::V27(disc(v_)?), 28 => Self::V28(disc(v_)?, x(l_, 0)?), 29 => Self::V29(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 30 => Self::V30(disc(v_)?), 31 => Self::V31(disc(v_)?, x(l_, 0)?), 32 => Self::V32(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 33 => Self::V33(disc(v_)?), 34 => Self::V34(disc(v_)?, x(l_, 0)?), 35 => Self::V35(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 36 => Self::V36(disc(v_)?), 37 => Self::V37(disc(v_)?, x(l_, 0)?), 38 => Self::V38(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 39 => Self::V39(disc(v_)?), 40 => Self::V40(disc(v_)?, x(l_, 0)?), 41 => Self::V41(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 42 => Self::V42(disc(v_)?), 43 => Self::V43(disc(v_)?, x(l_, 0)?), 44 => Self::V44(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 45 => Self::V45(disc(v_)?), 46 => Self::V46(disc(v_)?, x(l_, 0)?), 47 => Self::V47(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 48 => Self::V48(disc(v_)?), 49 => Self::V49(disc(v_)?, x(l_, 0)?), 50 => Self::V50(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 51 => Self::V51(disc(v_)?), 52 => Self::V52(disc(v_)?, x(l_, 0)?), 53 => Self::V53(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 54 => Self::V54(disc(v_)?), 55 => Self::V55(disc(v_)?, x(l_, 0)?), 56 => Self::V56(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 57 => Self::V57(disc(v_)?), 58 => Self::V58(disc(v_)?, x(l_, 0)?), 59 => Self::V59(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 60 => Self::V60(disc(v_)?), 61 => Self::V61(disc(v_)?, x(l_, 0)?), 62 => Self::V62(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 63 => Self::V63(disc(v_)?), 64 => Self::V64(disc(v_)?, x(l_, 0)?), 65 => Self::V65(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 66 => Self::V66(disc(v_)?), 67 => Self::V67(disc(v_)?, x(l_, 0)?), 68 => Self::V68(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 69 => Self::V69(disc(v_)?), 70 => Self::V70(disc(v_)?, x(l_, 0)?), 71 => Self::V71(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 72 => Self::V72(disc(v_)?), 73 => Self::V73(disc(v_)?, x(l_, 0)?), 74 => Self::V74(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 75 => Self::V75(disc(v_)?), 76 => Self::V76(disc(v_)?, x(l_, 0)?), 77 => Self::V77(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 78 => Self::V78(disc(v_)?), 79 => Self::V79(disc(v_)?, x(l_, 0)?), 80 => Self::V80(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 81 => Self::V81(disc(v_)?), 82 => Self::V82(disc(v_)?, x(l_, 0)?), 83 => Self::V83(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 84 => Self::V84(disc(v_)?), 85 => Self::V85(disc(v_)?, x(l_, 0)?), 86 => Self::V86(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 87 => Self::V87(disc(v_)?), 88 => Self::V88(disc(v_)?, x(l_, 0)?), 89 => Self::V89(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 90 => Self::V90(disc(v_)?), 91 => Self::V91(disc(v_)?, x(l_, 0)?), 92 => Self::V92(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 93 => Self::V93(disc(v_)?), 94 => Self::V94(disc(v_)?, x(l_, 0)?), 95 => Self::V95(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 96 => Self::V96(disc(v_)?), 97 => Self::V97(disc(v_)?, x(l_, 0)?), 98 => Self::V98(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 99 => Self::V99(disc(v_)?), 100 => Self::V100(disc(v_)?, x(l_, 0)?), 101 => Self::V101(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 102 => Self::V102(disc(v_)?), 103 => Self::V103(disc(v_)?, x(l_, 0)?), 104 => Self::V104(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 105 => Self::V105(disc(v_)?), 106 => Self::V106(disc(v_)?, x(l_, 0)?), 107 => Self::V107(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 108 => Self::V108(disc(v_)?), 109 => Self::V109(disc(v_)?, x(l_, 0)?), 110 => Self::V110(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 111 => Self::V111(disc(v_)?), 112 => Self::V112(disc(v_)?, x(l_, 0)?), 113 => Self::V113(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 114 => Self::V114(disc(v_)?), 115 => Self::V115(disc(v_)?, x(l_, 0)?), 116 => Self::V116(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 117 => Self::V117(disc(v_)?), 118 => Self::V118(disc(v_)?, x(l_, 0)?), 119 => Self::V119(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 120 => Self::V120(disc(v_)?), 121 => Self::V121(disc(v_)?, x(l_, 0)?), 122 => Self::V122(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 123 => Self::V123(disc(v_)?), 124 => Self::V124(disc(v_)?, x(l_, 0)?), 125 => Self::V125(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 126 => Self::V126(disc(v_)?), 127 => Self::V127(disc(v_)?, x(l_, 0)?), 128 => Self::V128(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 129 => Self::V129(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32Many300 { V0(i32), V1(i32, String), V2(i32, i16, u64), V3(i32), V4(i32, bool), V5(i32, char, u8), V6(i32), V7(i32, String), V8(i32, i16, u64), V9(i32), V10(i32, bool), V11(i32, char, u8), V12(i32), V13(i32, String), V14(i32, i16, u64), V15(i32), V16(i32, bool), V17(i32, char, u8), V18(i32), V19(i32, String), V20(i32, i16, u64), V21(i32), V22(i32, bool), V23(i32, char, u8), V24(i32), V25(i32, String), V26(i32, i16, u64), V27(i32), V28(i32, bool), V29(i32, char, u8), V30(i32), V31(i32, String), V32(i32, i16, u64), V33(i32), V34(i32, bool), V35(i32, char, u8), V36(i32), V37(i32, String), V38(i32, i16, u64), V39(i32), V40(i32, bool), V41(i32, char, u8), V42(i32), V43(i32, String), V44(i32, i16, u64), V45(i32), V46(i32, bool), V47(i32, char, u8), V48(i32), V49(i32, String), V50(i32, i16, u64), V51(i32), V52(i32, bool), V53(i32, char, u8), V54(i32), V55(i32, String), V56(i32, i16, u64), V57(i32), V58(i32, bool), V59(i32, char, u8), V60(i32), V61(i32, String), V62(i32, i16, u64), V63(i32), V64(i32, bool), V65(i32, char, u8), V66(i32), V67(i32, String), V68(i32, i16, u64), V69(i32), V70(i32, bool), V71(i32, char, u8), V72(i32), V73(i32, String), V74(i32, i16, u64), V75(i32), V76(i32, bool), V77(i32, char, u8), V78(i32), V79(i32, String), V80(i32, i16, u64), V81(i32), V82(i32, bool), V83(i32, char, u8), V84(i32), V85(i32, String), V86(i32, i16, u64), V87(i32), V88(i32, bool), V89(i32, char, u8), V90(i32), V91(i32, String), V92(i32, i16, u64), V93(i32), V94(i32, bool), V95(i32, char, u8), V96(i32), V97(i32, String), V98(i32, i16, u64), V99(i32), V100(i32, bool), V101(i32, char, u8), V102(i32), V103(i32, String), V104(i32, i16, u64), V105(i32), V106(i32, bool), V107(i32, char, u8), V108(i32), V109(i32, String), V110(i32, i16, u64), V111(i32), V112(i32, bool), V113(i32, char, u8), V114(i32), V115(i32, String), V116(i32, i16, u64), V117(i32), V118(i32, bool), V119(i32, char, u8), V120(i32), V121(i32, String), V122(i32, i16, u64), V123(i32), V124(i32, bool), V125(i32, char, u8), V126(i32), V127(i32, String), V128(i32, i16, u64), V129(i32), V130(i32, bool), V131(i32, char, u8), V132(i32), V133(i32, String), V134(i32, i16, u64), V135(i32), V136(i32, bool), V137(i32, char, u8), V138(i32), V139(i32, String), V140(i32, i16, u64), V141(i32), V142(i32, bool), V143(i32, char, u8), V144(i32), V145(i32, String), V146(i32, i16, u64), V147(i32), V148(i32, bool), V149(i32, char, u8), V150(i32), V151(i32, String), V152(i32, i16, u64), V153(i32), V154(i32, bool), V155(i32, char, u8), V156(i32), V157(i32, String), V158(i32, i16, u64), V159(i32), V160(i32, bool), V161(i32, char, u8), V162(i32), V163(i32, String), V164(i32, i16, u64), V165(i32), V166(i32, bool), V167(i32, char, u8), V168(i32), V169(i32, String), V170(i32, i16, u64), V171(i32), V172(i32, bool), V173(i32, char, u8), V174(i32), V175(i32, String), V176(i32, i16, u64), V177(i32), V178(i32, bool), V179(i32, char, u8), V180(i32), V181(i32, String), V182(i32, i16, u64), V183(i32), V184(i32, bool), V185(i32, char, u8), V186(i32), V187(i32, String), V188(i32, i16, u64), V189(i32), V190(i32, bool), V191(i32, char, u8), V192(i32), V193(i32, String), V194(i32, i16, u64), V195(i32), V196(i32, bool), V197(i32, char, u8), V198(i32), V199(i32, String), V200(i32, i16, u64), V201(i32), V202(i32, bool), V203(i32, char, u8), V204(i32), V205(i32, String), V206(i32, i16, u64), V207(i32), V208(i32, bool), V209(i32, char, u8), V210(i32), V211(i32, String), V212(i32, i16, u64), V213(i32), V214(i32, bool), V215(i32, char, u8), V216(i32), V217(i32, String), V218(i32, i16, u64), V219(i32), V220(i32, bool), V221(i32, char, u8), V222(i32), V223(i32, String), V224(i32, i16, u64), V225(i32), V226(i32, bool), V227(i32, char, u8), V228(i32), V229(i32, String), V230(i32, i16, u64), V231(i32), V232(i32, bool), V233(i32, char, u8), V234(i32), V235(i32, String), V236(i32, i16, u64), V237(i32), V238(i32, bool), V239(i32, char, u8), V240(i32), V241(i32, String), V242(i32, i16, u64), V243(i32), V244(i32, bool), V245(i32, char, u8), V246(i32), V247(i32, String), V248(i32, i16, u64), V249(i32), V250(i32, bool), V251(i32, char, u8), V252(i32), V253(i32, String), V254(i32, i16, u64), V255(i32), V256(i32, bool), V257(i32, char, u8), V258(i32), V259(i32, String), V260(i32, i16, u64), V261(i32), V262(i32, bool), V263(i32, char, u8), V264(i32), V265(i32, String), V266(i32, i16, u64), V267(i32), V268(i32, bool), V269(i32, char, u8), V270(i32), V271(i32, String), V272(i32, i16, u64), V273(i32), V274(i32, bool), V275(i32, char, u8), V276(i32), V277(i32, String), V278(i32, i16, u64), V279(i32), V280(i32, bool), V281(i32, char, u8), V282(i32), V283(i32, String), V284(i32, i16, u64), V285(i32), V286(i32, bool), V287(i32, char, u8), V288(i32), V289(i32, String), V290(i32, i16, u64), V291(i32), V292(i32, bool), V293(i32, char, u8), V294(i32), V295(i32, String), V296(i32, i16, u64), V297(i32), V298(i32, bool), V299(i32, char, u8) }
impl serde_xdr::XdrUnion<i32> for UI32Many300 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 3 => Ok("V1"), 6 => Ok("V2"), 9 => Ok("V3"), 12 => Ok("V4"), 15 => Ok("V5"), 18 => Ok("V6"), 21 => Ok("V7"), 24 => Ok("V8"), 27 => Ok("V9"), 30 => Ok("V10"), 33 => Ok("V11"), 36 => Ok("V12"), 39 => Ok("V13"), 42 => Ok("V14"), 45 => Ok("V15"), 48 => Ok("V16"), 51 => Ok("V17"), 54 => Ok("V18"), 57 => Ok("V19"), 60 => Ok("V20"), 63 => Ok("V21"), 66 => Ok("V22"), 69 => Ok("V23"), 72 => Ok("V24"), 75 => Ok("V25"), 78 => Ok("V26"), 81 => Ok("V27"), 84 => Ok("V28"), 87 => Ok("V29"), 90 => Ok("V30"), 93 => Ok("V31"), 96 => Ok("V32"), 99 => Ok("V33"), 102 => Ok("V34"), 105 => Ok("V35"), 108 => Ok("V36"), 111 => Ok("V37"), 114 => Ok("V38"), 117 => Ok("V39"), 120 => Ok("V40"), 123 => Ok("V41"), 126 => Ok("V42"), 129 => Ok("V43"), 132 => Ok("V44"), 135 => Ok("V45"), 138 => Ok("V46"), 141 => Ok("V47"), 144 => Ok("V48"), 147 => Ok("V49"), 150 => Ok("V50"), 153 => Ok("V51"), 156 => Ok("V52"), 159 => Ok("V53"), 162 => Ok("V54"), 165 => Ok("V55"), 168 => Ok("V56"), 171 => Ok("V57"), 174 => Ok("V58"), 177 => Ok("V59"), 180 => Ok("V60"), 183 => Ok("V61"), 186 => Ok("V62"), 189 => Ok("V63"), 192 => Ok("V64"), 195 => Ok("V65"), 198 => Ok("V66"), 201 => Ok("V67"), 204 => Ok("V68"), 207 => Ok("V69"), 210 => Ok("V70"), 213 => Ok("V71"), 216 => Ok("V72"), 219 => Ok("V73"), 222 => Ok("V74"), 225 => Ok("V75"), 228 => Ok("V76"), 231 => Ok("V77"), 234 => Ok("V78"), 237 => Ok("V79"), 240 => Ok("V80"), 243 => Ok("V81"), 246 => Ok("V82"), 249 => Ok("V83"), 252 => Ok("V84"), 255 => Ok("V85"), 258 => Ok("V86"), 261 => Ok("V87"), 264 => Ok("V88"), 267 => Ok("V89"), 270 => Ok("V90"), 273 => Ok("V91"), 276 => Ok("V92"), 279 => Ok("V93"), 282 => Ok("V94"), 285 => Ok("V95"), 288 => Ok("V96"), 291 => Ok("V97"), 294 => Ok("V98"), 297 => Ok("V99"), 300 => Ok("V100"), 303 => Ok("V101"), 306 => Ok("V102"), 309 => Ok("V103"), 312 => Ok("V104"), 315 => Ok("V105"), 318 => Ok("V106"), 321 => Ok("V107"), 324 => Ok("V108"), 327 => Ok("V109"), 330 => Ok("V110"), 333 => Ok("V111"), 336 => Ok("V112"), 339 => Ok("V113"), 342 => Ok("V114"), 345 => Ok("V115"), 348 => Ok("V116"), 351 => Ok("V117"), 354 => Ok("V118"), 357 => Ok("V119"), 360 => Ok("V120"), 363 => Ok("V121"), 366 => Ok("V122"), 369 => Ok("V123"), 372 => Ok("V124"), 375 => Ok("V125"), 378 => Ok("V126"), 381 => Ok("V127"), 384 => Ok("V128"), 387 => Ok("V129"), 390 => Ok("V130"), 393 => Ok("V131"), 396 => Ok("V132"), 399 => Ok("V133"), 402 => Ok("V134"), 405 => Ok("V135"), 408 => Ok("V136"), 411 => Ok("V137"), 414 => Ok("V138"), 417 => Ok("V139"), 420 => Ok("V140"), 423 => Ok("V141"), 426 => Ok("V142"), 429 => Ok("V143"), 432 => Ok("V144"), 435 => Ok("V145"), 438 => Ok("V146"), 441 => Ok("V147"), 444 => Ok("V148"), 447 => Ok("V149"), 450 => Ok("V150"), 453 => Ok("V151"), 456 => Ok("V152"), 459 => Ok("V153"), 462 => Ok("V154"), 465 => Ok("V155"), 468 => Ok("V156"), 471 => Ok("V157"), 474 => Ok("V158"), 477 => Ok("V159"), 480 => Ok("V160"), 483 => Ok("V161"), 486 => Ok("V162"), 489 => Ok("V163"), 492 => Ok("V164"), 495 => Ok("V165"), 498 => Ok("V166"), 501 => Ok("V167"), 504 => Ok("V168"), 507 => Ok("V169"), 510 => Ok("V170"), 513 => Ok("V171"), 516 => Ok("V172"), 519 => Ok("V173"), 522 => Ok("V174"), 525 => Ok("V175"), 528 => Ok("V176"), 531 => Ok("V177"), 534 => Ok("V178"), 537 => Ok("V179"), 540 => Ok("V180"), 543 => Ok("V181"), 546 => Ok("V182"), 549 => Ok("V183"), 552 => Ok("V184"), 555 => Ok("V185"), 558 => Ok("V186"), 561 => Ok("V187"), 564 => Ok("V188"), 567 => Ok("V189"), 570 => Ok("V190"), 573 => Ok("V191"), 576 => Ok("V192"), 579 => Ok("V193"), 582 => Ok("V194"), 585 => Ok("V195"), 588 => Ok("V196"), 591 => Ok("V197"), 594 => Ok("V198"), 597 => Ok("V199"), 600 => Ok("V200"), 603 => Ok("V201"), 606 => Ok("V202"), 609 => Ok("V203"), 612 => Ok("V204"), 615 => Ok("V205"), 618 => Ok("V206"), 621 => Ok("V207"), 624 => Ok("V208"), 627 => Ok("V209"), 630 => Ok("V210"), 633 => Ok("V211"), 636 => Ok("V212"), 639 => Ok("V213"), 642 => Ok("V214"), 645 => Ok("V215"), 648 => Ok("V216"), 651 => Ok("V217"), 654 => Ok("V218"), 657 => Ok("V219"), 660 => Ok("V220"), 663 => Ok("V221"), 666 => Ok("V222"), 669 => Ok("V223"), 672 => Ok("V224"), 675 => Ok("V225"), 678 => Ok("V226"), 681 => Ok("V227"), 684 => Ok("V228"), 687 => Ok("V229"), 690 => Ok("V230"), 693 => Ok("V231"), 696 => Ok("V232"), 699 => Ok("V233"), 702 => Ok("V234"), 705 => Ok("V235"), 708 => Ok("V236"), 711 => Ok("V237"), 714 => Ok("V238"), 717 => Ok("V239"), 720 => Ok("V240"), 723 => Ok("V241"), 726 => Ok("V242"), 729 => Ok("V243"), 732 => Ok("V244"), 735 => Ok("V245"), 738 => Ok("V246"), 741 => Ok("V247"), 744 => Ok("V248"), 747 => Ok("V249"), 750 => Ok("V250"), 753 => Ok("V251"), 756 => Ok("V252"), 759 => Ok("V253"), 762 => Ok("V254"), 765 => Ok("V255"), 768 => Ok("V256"), 771 => Ok("V257"), 774 => Ok("V258"), 777 => Ok("V259"), 780 => Ok("V260"), 783 => Ok("V261"), 786 => Ok("V262"), 789 => Ok("V263"), 792 => Ok("V264"), 795 => Ok("V265"), 798 => Ok("V266"), 801 => Ok("V267"), 804 => Ok("V268"), 807 => Ok("V269"), 810 => Ok("V270"), 813 => Ok("V271"), 816 => Ok("V272"), 819 => Ok("V273"), 822 => Ok("V274"), 825 => Ok("V275"), 828 => Ok("V276"), 831 => Ok("V277"), 834 => Ok("V278"), 837 => Ok("V279"), 840 => Ok("V280"), 843 => Ok("V281"), 846 => Ok("V282"), 849 => Ok("V283"), 852 => Ok("V284"), 855 => Ok("V285"), 858 => Ok("V286"), 861 => Ok("V287"), 864 => Ok("V288"), 867 => Ok("V289"), 870 => Ok("V290"), 873 => Ok("V291"), 876 => Ok("V292"), 879 => Ok("V293"), 882 => Ok("V294"), 885 => Ok("V295"), 888 => Ok("V296"), 891 => Ok("V297"), 894 => Ok("V298"), 897 => Ok("V299"), _ => Err(()) } }
}
impl Model for UI32Many300 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 3, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33, 36, 39, 42, 45, 48, 51, 54, 57, 60, 63, 66, 69, 72, 75, 78, 81, 84, 87, 90, 93, 96, 99, 102, 105, 108, 111, 114, 117, 120, 123, 126, 129, 132, 135, 138, 141, 144, 147, 150, 153, 156, 159, 162, 165, 168, 171, 174, 177, 180, 183, 186, 189, 192, 195, 198, 201, 204, 207, 210, 213, 216, 219, 222, 225, 228, 231, 234, 237, 240, 243, 246, 249, 252, 255, 258, 261, 264, 267, 270, 273, 276, 279, 282, 285, 288, 291, 294, 297, 300, 303, 306, 309, 312, 315, 318, 321, 324, 327, 330, 333, 336, 339, 342, 345, 348, 351, 354, 357, 360, 363, 366, 369, 372, 375, 378, 381, 384, 387, 390, 393, 396, 399, 402, 405, 408, 411, 414, 417, 420, 423, 426, 429, 432, 435, 438, 441, 444, 447, 450, 453, 456, 459, 462, 465, 468, 471, 474, 477, 480, 483, 486, 489, 492, 495, 498, 501, 504, 507, 510, 513, 516, 519, 522, 525, 528, 531, 534, 537, 540, 543, 546, 549, 552, 555, 558, 561, 564, 567, 570, 573, 576, 579, 582, 585, 588, 591, 594, 597, 600, 603, 606, 609, 612, 615, 618, 621, 624, 627, 630, 633, 636, 639, 642, 645, 648, 651, 654, 657, 660, 663, 666, 669, 672, 675, 678, 681, 684, 687, 690, 693, 696, 699, 702, 705, 708, 711, 714, 717, 720, 723, 726, 729, 732, 735, 738, 741, 744, 747, 750, 753, 756, 759, 762, 765, 768, 771, 774, 777, 780, 783, 786, 789, 792, 795, 798, 801, 804, 807, 810, 813, 816, 819, 822, 825, 828, 831, 834, 837, 840, 843, 846, 849, 852, 855, 858, 861, 864, 867, 870, 873, 876, 879, 882, 885, 888, 891, 894, 897]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], ], vec![(Val::I(0), 0), (Val::I(3), 1), (Val::I(6), 2), (Val::I(9), 3), (Val::I(12), 4), (Val::I(15), 5), (Val::I(18), 6), (Val::I(21), 7), (Val::I(24), 8), (Val::I(27), 9), (Val::I(30), 10), (Val::I(33), 11), (Val::I(36), 12), (Val::I(39), 13), (Val::I(42), 14), (Val::I(45), 15), (Val::I(48), 16), (Val::I(51), 17), (Val::I(54), 18), (Val::I(57), 19), (Val::I(60), 20), (Val::I(63), 21), (Val::I(66), 22), (Val::I(69), 23), (Val::I(72), 24), (Val::I(75), 25), (Val::I(78), 26), (Val::I(81), 27), (Val::I(84), 28), (Val::I(87), 29), (Val::I(90), 30), (Val::I(93), 31), (Val::I(96), 32), (Val::I(99), 33), (Val::I(102), 34), (Val::I(105), 35), (Val::I(108), 36), (Val::I(111), 37), (Val::I(114), 38), (Val::I(117), 39), (Val::I(120), 40), (Val::I(123), 41), (Val::I(126), 42), (Val::I(129), 43), (Val::I(132), 44), (Val::I(135), 45), (Val::I(138), 46), (Val::I(141), 47), (Val::I(144), 48), (Val::I(147), 49), (Val::I(150), 50), (Val::I(153), 51), (Val::I(156), 52), (Val::I(159), 53), (Val::I(162), 54), (Val::I(165), 55), (Val::I(168), 56), (Val::I(171), 57), (Val::I(174), 58), (Val::I(177), 59), (Val::I(180), 60), (Val::I(183), 61), (Val::I(186), 62), (Val::I(189), 63), (Val::I(192), 64), (Val::I(195), 65), (Val::I(198), 66), (Val::I(201), 67), (Val::I(204), 68), (Val::I(207), 69), (Val::I(210), 70), (Val::I(213), 71), (Val::I(216), 72), (Val::I(219), 73), (Val::I(222), 74), (Val::I(225), 75), (Val::I(228), 76), (Val::I(231), 77), (Val::I(234), 78), (Val::I(237), 79), (Val::I(240), 80), (Val::I(243), 81), (Val::I(246), 82), (Val::I(249), 83), (Val::I(252), 84), (Val::I(255), 85), (Val::I(258), 86), (Val::I(261), 87), (Val::I(264), 88), (Val::I(267), 89), (Val::I(270), 90), (Val::I(273), 91), (Val::I(276), 92), (Val::I(279), 93), (Val::I(282), 94), (Val::I(285), 95), (Val::I(288), 96), (Val::I(291), 97), (Val::I(294), 98), (Val::I(297), 99), (Val::I(300), 100), (Val::I(303), 101), (Val::I(306), 102), (Val::I(309), 103), (Val::I(312), 104), (Val::I(315), 105), (Val::I(318), 106), (Val::I(321), 107), (Val::I(324), 108), (Val::I(327), 109), (Val::I(330), 110), (Val::I(333), 111), (Val::I(336), 112), (Val::I(339), 113), (Val::I(342), 114), (Val::I(345), 115), (Val::I(348), 116), (Val::I(351), 117), (Val::I(354), 118), (Val::I(357), 119), (Val::I(360), 120), (Val::I(363), 121), (Val::I(366), 122), (Val::I(369), 123), (Val::I(372), 124), (Val::I(375), 125), (Val::I(378), 126), (Val::I(381), 127), (Val::I(384), 128), (Val::I(387), 129), (Val::I(390), 130), (Val::I(393), 131), (Val::I(396), 132), (Val::I(399), 133), (Val::I(402), 134), (Val::I(405), 135), (Val::I(408), 136), (Val::I(411), 137), (Val::I(414), 138), (Val::I(417), 139), (Val::I(420), 140), (Val::I(423), 141), (Val::I(426), 142), (Val::I(429), 143), (Val::I(432), 144), (Val::I(435), 145), (Val::I(438), 146), (Val::I(441), 147), (Val::I(444), 148), (Val::I(447), 149), (Val::I(450), 150), (Val::I(453), 151), (Val::I(456), 152), (Val::I(459), 153), (Val::I(462), 154), (Val::I(465), 155), (Val::I(468), 156), (Val::I(471), 157), (Val::I(474), 158), (Val::I(477), 159), (Val::I(480), 160), (Val::I(483), 161), (Val::I(486), 162), (Val::I(489), 163), (Val::I(492), 164), (Val::I(495), 165), (Val::I(498), 166), (Val::I(501), 167), (Val::I(504), 168), (Val::I(507), 169), (Val::I(510), 170), (Val::I(513), 171), (Val::I(516), 172), (Val::I(519), 173), (Val::I(522), 174), (Val::I(525), 175), (Val::I(528), 176), (Val::I(531), 177), (Val::I(534), 178), (Val::I(537), 179), (Val::I(540), 180), (Val::I(543), 181), (Val::I(546), 182), (Val::I(549), 183), (Val::I(552), 184), (Val::I(555), 185), (Val::I(558), 186), (Val::I(561), 187), (Val::I(564), 188), (Val::I(567), 189), (Val::I(570), 190), (Val::I(573), 191), (Val::I(576), 192), (Val::I(579), 193), (Val::I(582), 194), (Val::I(585), 195), (Val::I(588), 196), (Val::I(591), 197), (Val::I(594), 198), (Val::I(597), 199), (Val::I(600), 200), (Val::I(603), 201), (Val::I(606), 202), (Val::I(609), 203), (Val::I(612), 204), (Val::I(615), 205), (Val::I(618), 206), (Val::I(621), 207), (Val::I(624), 208), (Val::I(627), 209), (Val::I(630), 210), (Val::I(633), 211), (Val::I(636), 212), (Val::I(639), 213), (Val::I(642), 214), (Val::I(645), 215), (Val::I(648), 216), (Val::I(651), 217), (Val::I(654), 218), (Val::I(657), 219), (Val::I(660), 220), (Val::I(663), 221), (Val::I(666), 222), (Val::I(669), 223), (Val::I(672), 224), (Val::I(675), 225), (Val::I(678), 226), (Val::I(681), 227), (Val::I(684), 228), (Val::I(687), 229), (Val::I(690), 230), (Val::I(693), 231), (Val::I(696), 232), (Val::I(699), 233), (Val::I(702), 234), (Val::I(705), 235), (Val::I(708), 236), (Val::I(711), 237), (Val::I(714), 238), (Val::I(717), 239), (Val::I(720), 240), (Val::I(723), 241), (Val::I(726), 242), (Val::I(729), 243), (Val::I(732), 244), (Val::I(735), 245), (Val::I(738), 246), (Val::I(741), 247), (Val::I(744), 248), (Val::I(747), 249), (Val::I(750), 250), (Val::I(753), 251), (Val::I(756), 252), (Val::I(759), 253), (Val::I(762), 254), (Val::I(765), 255), (Val::I(768), 256), (Val::I(771), 257), (Val::I(774), 258), (Val::I(777), 259), (Val::I(780), 260), (Val::I(783), 261), (Val::I(786), 262), (Val::I(789), 263), (Val::I(792), 264), (Val::I(795), 265), (Val::I(798), 266), (Val::I(801), 267), (Val::I(804), 268), (Val::I(807), 269), (Val::I(810), 270), (Val::I(813), 271), (Val::I(816), 272), (Val::I(819), 273), (Val::I(822), 274), (Val::I(825), 275), (Val::I(828), 276), (Val::I(831), 277), (Val::I(834), 278), (Val::I(837), 279), (Val::I(840), 280), (Val::I(843), 281), (Val::I(846), 282), (Val::I(849), 283), (Val::I(852), 284), (Val::I(855), 285), (Val::I(858), 286), (Val::I(861), 287), (Val::I(864), 288), (Val::I(867), 289), (Val::I(870), 290), (Val::I(873), 291), (Val::I(876), 292), (Val::I(879), 293), (Val::I(882), 294), (Val::I(885), 295), (Val::I(888), 296), (Val::I(891), 297), (Val::I(894), 298), (Val::I(897), 299), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V2(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V3(d_) => un(d_.to_val(), vec![]), Self::V4(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V5(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V6(d_) => un(d_.to_val(), vec![]), Self::V7(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V8(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V9(d_) => un(d_.to_val(), vec![]), Self::V10(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V11(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V12(d_) => un(d_.to_val(), vec![]), Self::V13(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V14(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V15(d_) => un(d_.to_val(), vec![]), Self::V16(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V17(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V18(d_) => un(d_.to_val(), vec![]), Self::V19(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V20(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V21(d_) => un(d_.to_val(), vec![]), Self::V22(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V23(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V24(d_) => un(d_.to_val(), vec![]), Self::V25(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V26(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V27(d_) => un(d_.to_val(), vec![]), Self::V28(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V29(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V30(d_) => un(d_.to_val(), vec![]), Self::V31(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V32(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V33(d_) => un(d_.to_val(), vec![]), Self::V34(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V35(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V36(d_) => un(d_.to_val(), vec![]), Self::V37(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V38(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V39(d_) => un(d_.to_val(), vec![]), Self::V40(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V41(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V42(d_) => un(d_.to_val(), vec![]), Self::V43(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V44(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V45(d_) => un(d_.to_val(), vec![]), Self::V46(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V47(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V48(d_) => un(d_.to_val(), vec![]), Self::V49(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V50(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V51(d_) => un(d_.to_val(), vec![]), Self::V52(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V53(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V54(d_) => un(d_.to_val(), vec![]), Self::V55(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V56(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V57(d_) => un(d_.to_val(), vec![]), Self::V58(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V59(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V60(d_) => un(d_.to_val(), vec![]), Self::V61(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V62(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V63(d_) => un(d_.to_val(), vec![]), Self::V64(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V65(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V66(d_) => un(d_.to_val(), vec![]), Self::V67(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V68(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V69(d_) => un(d_.to_val(), vec![]), Self::V70(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V71(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V72(d_) => un(d_.to_val(), vec![]), Self::V73(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V74(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V75(d_) => un(d_.to_val(), vec![]), Self::V76(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V77(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V78(d_) => un(d_.to_val(), vec![]), Self::V79(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V80(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V81(d_) => un(d_.to_val(), vec![]), Self::V82(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V83(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V84(d_) => un(d_.to_val(), vec![]), Self::V85(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V86(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V87(d_) => un(d_.to_val(), vec![]), Self::V88(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V89(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V90(d_) => un(d_.to_val(), vec![]), Self::V91(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V92(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V93(d_) => un(d_.to_val(), vec![]), Self::V94(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V95(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V96(d_) => un(d_.to_val(), vec![]), Self::V97(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V98(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V99(d_) => un(d_.to_val(), vec![]), Self::V100(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V101(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V102(d_) => un(d_.to_val(), vec![]), Self::V103(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V104(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V105(d_) => un(d_.to_val(), vec![]), Self::V106(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V107(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V108(d_) => un(d_.to_val(), vec![]), Self::V109(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V110(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V111(d_) => un(d_.to_val(), vec![]), Self::V112(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V113(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V114(d_) => un(d_.to_val(), vec![]), Self::V115(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V116(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V117(d_) => un(d_.to_val(), vec![]), Self::V118(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V119(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V120(d_) => un(d_.to_val(), vec![]), Self::V121(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V122(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V123(d_) => un(d_.to_val(), vec![]), Self::V124(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V125(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V126(d_) => un(d_.to_val(), vec![]), Self::V127(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V128(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V129(d_) => un(d_.to_val(), vec![]), Self::V130(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V131(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V132(d_) => un(d_.to_val(), vec![]), Self::V133(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V134(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V135(d_) => un(d_.to_val(), vec![]), Self::V136(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V137(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V138(d_) => un(d_.to_val(), vec![]), Self::V139(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V140(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V141(d_) => un(d_.to_val(), vec![]), Self::V142(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V143(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V144(d_) => un(d_.to_val(), vec![]), Self::V145(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V146(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V147(d_) => un(d_.to_val(), vec![]), Self::V148(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V149(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V150(d_) => un(d_.to_val(), vec![]), Self::V151(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V152(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V153(d_) => un(d_.to_val(), vec![]), Self::V154(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V155(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V156(d_) => un(d_.to_val(), vec![]), Self::V157(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V158(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V159(d_) => un(d_.to_val(), vec![]), Self::V160(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V161(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V162(d_) => un(d_.to_val(), vec![]), Self::V163(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V164(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V165(d_) => un(d_.to_val(), vec![]), Self::V166(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V167(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V168(d_) => un(d_.to_val(), vec![]), Self::V169(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V170(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V171(d_) => un(d_.to_val(), vec![]), Self::V172(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V173(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V174(d_) => un(d_.to_val(), vec![]), Self::V175(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V176(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V177(d_) => un(d_.to_val(), vec![]), Self::V178(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V179(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V180(d_) => un(d_.to_val(), vec![]), Self::V181(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V182(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V183(d_) => un(d_.to_val(), vec![]), Self::V184(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V185(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V186(d_) => un(d_.to_val(), vec![]), Self::V187(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V188(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V189(d_) => un(d_.to_val(), vec![]), Self::V190(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V191(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V192(d_) => un(d_.to_val(), vec![]), Self::V193(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V194(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V195(d_) => un(d_.to_val(), vec![]), Self::V196(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V197(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V198(d_) => un(d_.to_val(), vec![]), Self::V199(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V200(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V201(d_) => un(d_.to_val(), vec![]), Self::V202(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V203(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V204(d_) => un(d_.to_val(), vec![]), Self::V205(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V206(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V207(d_) => un(d_.to_val(), vec![]), Self::V208(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V209(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V210(d_) => un(d_.to_val(), vec![]), Self::V211(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V212(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V213(d_) => un(d_.to_val(), vec![]), Self::V214(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V215(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V216(d_) => un(d_.to_val(), vec![]), Self::V217(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V218(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V219(d_) => un(d_.to_val(), vec![]), Self::V220(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V221(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V222(d_) => un(d_.to_val(), vec![]), Self::V223(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V224(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V225(d_) => un(d_.to_val(), vec![]), Self::V226(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V227(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V228(d_) => un(d_.to_val(), vec![]), Self::V229(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V230(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V231(d_) => un(d_.to_val(), vec![]), Self::V232(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V233(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V234(d_) => un(d_.to_val(), vec![]), Self::V235(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V236(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V237(d_) => un(d_.to_val(), vec![]), Self::V238(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V239(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V240(d_) => un(d_.to_val(), vec![]), Self::V241(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V242(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V243(d_) => un(d_.to_val(), vec![]), Self::V244(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V245(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V246(d_) => un(d_.to_val(), vec![]), Self::V247(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V248(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V249(d_) => un(d_.to_val(), vec![]), Self::V250(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V251(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V252(d_) => un(d_.to_val(), vec![]), Self::V253(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V254(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V255(d_) => un(d_.to_val(), vec![]), Self::V256(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V257(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V258(d_) => un(d_.to_val(), vec![]), Self::V259(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V260(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V261(d_) => un(d_.to_val(), vec![]), Self::V262(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V263(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V264(d_) => un(d_.to_val(), vec![]), Self::V265(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V266(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V267(d_) => un(d_.to_val(), vec![]), Self::V268(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V269(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V270(d_) => un(d_.to_val(), vec![]), Self::V271(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V272(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V273(d_) => un(d_.to_val(), vec![]), Self::V274(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V275(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V276(d_) => un(d_.to_val(), vec![]), Self::V277(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V278(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V279(d_) => un(d_.to_val(), vec![]), Self::V280(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V281(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V282(d_) => un(d_.to_val(), vec![]), Self::V283(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V284(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V285(d_) => un(d_.to_val(), vec![]), Self::V286(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V287(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V288(d_) => un(d_.to_val(), vec![]), Self::V289(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V290(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V291(d_) => un(d_.to_val(), vec![]), Self::V292(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V293(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V294(d_) => un(d_.to_val(), vec![]), Self::V295(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V296(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V297(d_) => un(d_.to_val(), vec![]), Self::V298(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V299(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 3 => Self::V3(disc(v_)?), 4 => Self::V4(disc(v_)?, x(l_, 0)?), 5 => Self::V5(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 6 => Self::V6(disc(v_)?), 7 => Self::V7(disc(v_)?, x(l_, 0)?), 8 => Self::V8(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 9 => Self::V9(disc(v_)?), 10 => Self::V10(disc(v_)?, x(l_, 0)?), 11 => Self::V11(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 12 => Self::V12(disc(v_)?), 13 => Self::V13(disc(v_)?, x(l_, 0)?), 14 => Self::V14(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 15 => Self::V15(disc(v_)?), 16 => Self::V16(disc(v_)?, x(l_, 0)?), 17 => Self::V17(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 18 => Self::V18(disc(v_)?), 19 => Self::V19(disc(v_)?, x(l_, 0)?), 20 => Self::V20(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 21 => Self::V21(disc(v_)?), 22 => Self::V22(disc(v_)?, x(l_, 0)?), 23 => Self::V23(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 24 => Self::V24(disc(v_)?), 25 => Self::V25(disc(v_)?, x(l_, 0)?), 26 => Self::V26(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 27 => Self::V27(disc(v_)?), 28 => Self::V28(disc(v_)?, x(l_, 0)?), 29 => Self::V29(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 30 => Self::V30(disc(v_)?), 31 => Self::V31(disc(v_)?, x(l_, 0)?), 32 => Self::V32(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 33 => Self::V33(disc(v_)?), 34 => Self::V34(disc(v_)?, x(l_, 0)?), 35 => Self::V35(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 36 => Self::V36(disc(v_)?), 37 => Self::V37(disc(v_)?, x(l_, 0)?), 38 => Self::V38(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 39 => Self::V39(disc(v_)?), 40 => Self::V40(disc(v_)?, x(l_, 0)?), 41 => Self::V41(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 42 => Self::V42(disc(v_)?), 43 => Self::V43(disc(v_)?, x(l_, 0)?), 44 => Self::V44(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 45 => Self::V45(disc(v_)?), 46 => Self::V46(disc(v_)?, x(l_, 0)?), 47 => Self::V47(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 48 => Self::V48(disc(v_)?), 49 => Self::V49(disc(v_)?, x(l_, 0)?), 50 => Self::V50(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 51 => Self::V51(disc(v_)?), 52 => Self::V52(disc(v_)?, x(l_, 0)?), 53 => Self::V53(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 54 => Self::V54(disc(v_)?), 55 => Self::V55(disc(v_)?, x(l_, 0)?), 56 => Self::V56(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 57 => Self::V57(disc(v_)?), 58 => Self::V58(disc(v_)?, x(l_, 0)?), 59 => Self::V59(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 60 => Self::V60(disc(v_)?), 61 => Self::V61(disc(v_)?, x(l_, 0)?), 62 => Self::V62(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 63 => Self::V63(disc(v_)?), 64 => Self::V64(disc(v_)?, x(l_, 0)?), 65 => Self::V65(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 66 => Self::V66(disc(v_)?), 67 => Self::V67(disc(v_)?, x(l_, 0)?), 68 => Self::V68(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 69 => Self::V69(disc(v_)?), 70 => Self::V70(disc(v_)?, x(l_, 0)?), 71 => Self::V71(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 72 => Self::V72(disc(v_)?), 73 => Self::V73(disc(v_)?, x(l_, 0)?), 74 => Self::V74(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 75 => Self::V75(disc(v_)?), 76 => Self::V76(disc(v_)?, x(l_, 0)?), 77 => Self::V77(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 78 => Self::V78(disc(v_)?), 79 => Self::V79(disc(v_)?, x(l_, 0)?), 80 => Self::V80(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 81 => Self::V81(disc(v_)?), 82 => Self::V82(disc(v_)?, x(l_, 0)?), 83 => Self::V83(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 84 => Self::V84(disc(v_)?), 85 => Self::V85(disc(v_)?, x(l_, 0)?), 86 => Self::V86(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 87 => Self::V87(disc(v_)?), 88 => Self::V88(disc(v_)?, x(l_, 0)?), 89 => Self::V89(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 90 => Self::V90(disc(v_)?), 91 => Self::V91(disc(v_)?, x(l_, 0)?), 92 => Self::V92(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 93 => Self::V93(disc(v_)?), 94 => Self::V94(disc(v_)?, x(l_, 0)?), 95 => Self::V95(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 96 => Self::V96(disc(v_)?), 97 => Self::V97(disc(v_)?, x(l_, 0)?), 98 => Self::V98(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 99 => Self::V99(disc(v_)?), 100 => Self::V100(disc(v_)?, x(l_, 0)?), 101 => Self::V101(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 102 => Self::V102(disc(v_)?), 103 => Self::V103(disc(v_)?, x(l_, 0)?), 104 => Self::V104(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 105 => Self::V105(disc(v_)?), 106 => Self::V106(disc(v_)?, x(l_, 0)?), 107 => Self::V107(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 108 => Self::V108(disc(v_)?), 109 => Self::V109(disc(v_)?, x(l_, 0)?), 110 => Self::V110(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 111 => Self::V111(disc(v_)?), 112 => Self::V112(disc(v_)?, x(l_, 0)?), 113 => Self::V113(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 114 => Self::V114(disc(v_)?), 115 => Self::V115(disc(v_)?, x(l_, 0)?), 116 => Self::V116(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 117 => Self::V117(disc(v_)?), 118 => Self::V118(disc(v_)?, x(l_, 0)?), 119 => Self::V119(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 120 => Self::V120(disc(v_)?), 121 => Self::V121(disc(v_)?, x(l_, 0)?), 122 => Self::V122(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 123 => Self::V123(disc(v_)?), 124 => Self::V124(disc(v_)?, x(l_, 0)?), 125 => Self::V125(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 126 => Self::V126(disc(v_)?), 127 => Self::V127(disc(v_)?, x(l_, 0)?), 128 => Self::V128(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 129 => Self::V129(disc(v_)?), 130 => Self::V130(disc(v_)?, x(l_, 0)?), 131 => Self::V131(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 132 => Self::V132(disc(v_)?), 133 => Self::V133(disc(v_)?, x(l_, 0)?), 134 => Self::V134(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 135 => Self::V135(disc(v_)?), 136 => Self::V136(disc(v_)?, x(l_, 0)?), 137 => Self::V137(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 138 => Self::V138(disc(v_)?), 139 => Self::V139(disc(v_)?, x(l_, 0)?), 140 => Self::V140(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 141 => Self::V141(disc(v_)?), 142 => Self::V142(disc(v_)?, x(l_, 0)?), 143 => Self::V143(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 144 => Self::V144(disc(v_)?), 145 => Self::V145(disc(v_)?, x(l_, 0)?), 146 => Self::V146(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 147 => Self::V147(disc(v_)?), 148 => Self::V148(disc(v_)?, x(l_, 0)?), 149 => Self::V149(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 150 => Self::V150(disc(v_)?), 151 => Self::V151(disc(v_)?, x(l_, 0)?), 152 => Self::V152(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 153 => Self::V153(disc(v_)?), 154 => Self::V154(disc(v_)?, x(l_, 0)?), 155 => Self::V155(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 156 => Self::V156(disc(v_)?), 157 => Self::V157(disc(v_)?, x(l_, 0)?), 158 => Self::V158(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 159 => Self::V159(disc(v_)?), 160 => Self::V160(disc(v_)?, x(l_, 0)?), 161 => Self::V161(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 162 => Self::V162(disc(v_)?), 163 => Self::V163(disc(v_)?, x(l_, 0)?), 164 => Self::V164(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 165 => Self::V165(disc(v_)?), 166 => Self::V166(disc(v_)?, x(l_, 0)?), 167 => Self::V167(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 168 => Self::V168(disc(v_)?), 169 => Self::V169(disc(v_)?, x(l_, 0)?), 170 => Self::V170(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 171 => Self::V171(disc(v_)?), 172 => Self::V172(disc(v_)?, x(l_, 0)?), 173 => Self::V173(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 174 => Self::V174(disc(v_)?), 175 => Self::V175(disc(v_)?, x(l_, 0)?), 176 => Self::V176(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 177 => Self::V177(disc(v_)?), 178 => Self::V178(disc(v_)?, x(l_, 0)?), 179 => Self::V179(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 180 => Self::V180(disc(v_)?), 181 => Self::V181(disc(v_)?, x(l_, 0)?), 182 => Self::V182(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 183 => Self::V183(disc(v_)?), 184 => Self::V184(disc(v_)?, x(l_, 0)?), 185 => Self::V185(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 186 => Self::V186(disc(v_)?), 187 => Self::V187(disc(v_)?, x(l_, 0)?), 188 => Self::V188(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 189 => Self::V189(disc(v_)?), 190 => Self::V190(disc(v_)?, x(l_, 0)?), 191 => Self::V191(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 192 => Self::V192(disc(v_)?), 193 => Self::V193(disc(v_)?, x(l_, 0)?), 194 => Self::V194(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 195 => Self::V195(disc(v_)?), 196 => Self::V196(disc(v_)?, x(l_, 0)?), 197 => Self::V197(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 198 => Self::V198(disc(v_)?), 199 => Self::V199(disc(v_)?, x(l_, 0)?), 200 => Self::V200(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 201 => Self::V201(disc(v_)?), 202 => Self::V202(disc(v_)?, x(l_, 0)?), 203 => Self::V203(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 204 => Self::V204(disc(v_)?), 205 => Self::V205(disc(v_)?, x(l_, 0)?), 206 => Self::V206(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 207 => Self::V207(disc(v_)?), 208 => Self::V208(disc(v_)?, x(l_, 0)?), 209 => Self::V209(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 210 => Self::V210(disc(v_)?), 211 => Self::V211(disc(v_)?, x(l_, 0)?), 212 => Self::V212(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 213 => Self::V213(disc(v_)?), 214 => Self::V214(disc(v_)?, x(l_, 0)?), 215 => Self::V215(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 216 => Self::V216(disc(v_)?), 217 => Self::V217(disc(v_)?, x(l_, 0)?), 218 => Self::V218(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 219 => Self::V219(disc(v_)?), 220 => Self::V220(disc(v_)?, x(l_, 0)?), 221 => Self::V221(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 222 => Self::V222(disc(v_)?), 223 => Self::V223(disc(v_)?, x(l_, 0)?), 224 => Self::V224(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 225 => Self::V225(disc(v_)?), 226 => Self::V226(disc(v_)?, x(l_, 0)?), 227 => Self::V227(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 228 => Self::V228(disc(v_)?), 229 => Self::V229(disc(v_)?, x(l_, 0)?), 230 => Self::V230(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 231 => Self::V231(disc(v_)?), 232 => Self::V232(disc(v_)?, x(l_, 0)?), 233 => Self::V233(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 234 => Self::V234(disc(v_)?), 235 => Self::V235(disc(v_)?, x(l_, 0)?), 236 => Self::V236(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 237 => Self::V237(disc(v_)?), 238 => Self::V238(disc(v_)?, x(l_, 0)?), 239 => Self::V239(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 240 => Self::V240(disc(v_)?), 241 => Self::V241(disc(v_)?, x(l_, 0)?), 242 => Self::V242(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 243 => Self::V243(disc(v_)?), 244 => Self::V244(disc(v_)?, x(l_, 0)?), 245 => Self::V245(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 246 => Self::V246(disc(v_)?), 247 => Self::V247(disc(v_)?, x(l_, 0)?), 248 => Self::V248(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 249 => Self::V249(disc(v_)?), 250 => Self::V250(disc(v_)?, x(l_, 0)?), 251 => Self::V251(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 252 => Self::V252(disc(v_)?), 253 => Self::V253(disc(v_)?, x(l_, 0)?), 254 => Self::V254(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 255 => Self::V255(disc(v_)?), 256 => Self::V256(disc(v_)?, x(l_, 0)?), 257 => Self::V257(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 258 => Self::V258(disc(v_)?), 259 => Self::V259(disc(v_)?, x(l_, 0)?), 260 => Self::V260(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 261 => Self::V261(disc(v_)?), 262 => Self::V262(disc(v_)?, x(l_, 0)?), 263 => Self::V263(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 264 => Self::V264(disc(v_)?), 265 => Self::V265(disc(v_)?, x(l_, 0)?), 266 => Self::V266(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 267 => Self::V267(disc(v_)?), 268 => Self::V268(disc(v_)?, x(l_, 0)?), 269 => Self::V269(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 270 => Self::V270(disc(v_)?), 271 => Self::V271(disc(v_)?, x(l_, 0)?), 272 => Self::V272(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 273 => Self::V273(disc(v_)?), 274 => Self::V274(disc(v_)?, x(l_, 0)?), 275 => Self::V275(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 276 => Self::V276(disc(v_)?), 277 => Self::V277(disc(v_)?, x(l_, 0)?), 278 => Self::V278(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 279 => Self::V279(disc(v_)?), 280 => Self::V280(disc(v_)?, x(l_, 0)?), 281 => Self::V281(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 282 => Self::V282(disc(v_)?), 283 => Self::V283(disc(v_)?, x(l_, 0)?), 284 => Self::V284(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 285 => Self::V285(disc(v_)?), 286 => Self::V286(disc(v_)?, x(l_, 0)?), 287 => Self::V287(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 288 => Self::V288(disc(v_)?), 289 => Self::V289(disc(v_)?, x(l_, 0)?), 290 => Self::V290(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 291 => Self::V291(disc(v_)?), 292 => Self::V292(disc(v_)?, x(l_, 0)?), 293 => Self::V293(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 294 => Self::V294(disc(v_)?), 295 => Self::V295(disc(v_)?, x(l_, 0)?), 296 => Self::V296(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 297 => Self::V297(disc(v_)?), 298 => Self::V298(disc(v_)?, x(l_, 0)?), 299 => Self::V299(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32Order0 { V0(i32, u8, String, i16, u64, bool, char, u8, String, i16, u64, bool, char, u8, String, i16, u64, bool, char, u8, String), V1(i32, String, i16), V2(i32) }
impl serde_xdr::XdrUnion<i32> for UI32Order0 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 10 => Ok("V0"), 11 => Ok("V1"), 12 => Ok("V2"), _ => Err(()) } }
}
impl Model for UI32Order0 {
    fn ty() -> Ty { union(Ty::I32of(vec![10, 11, 12]), vec![vec![m::<u8>(), m::<String>(), m::<i16>(), m::<u64>(), m::<bool>(), m::<char>(), m::<u8>(), m::<String>(), m::<i16>(), m::<u64>(), m::<bool>(), m::<char>(), m::<u8>(), m::<String>(), m::<i16>(), m::<u64>(), m::<bool>(), m::<char>(), m::<u8>(), m::<String>()], vec![m::<String>(), m::<i16>()], vec![], ], vec![(Val::I(10), 0), (Val::I(11), 1), (Val::I(12), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_, a12_, a13_, a14_, a15_, a16_, a17_, a18_, a19_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val(), a12_.to_val(), a13_.to_val(), a14_.to_val(), a15_.to_val(), a16_.to_val(), a17_.to_val(), a18_.to_val(), a19_.to_val()]), Self::V1(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V2(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?, x(l_, 12)?, x(l_, 13)?, x(l_, 14)?, x(l_, 15)?, x(l_, 16)?, x(l_, 17)?, x(l_, 18)?, x(l_, 19)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32Order1 { V0(i32, u8, String), V1(i32, String, i16, u64, bool, char, u8, String, i16, u64, bool, char, u8, String, i16, u64, bool, char, u8, String, i16), V2(i32) }
impl serde_xdr::XdrUnion<i32> for UI32Order1 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 10 => Ok("V0"), 11 => Ok("V1"), 12 => Ok("V2"), _ => Err(()) } }
}
impl Model for UI32Order1 {
    fn ty() -> Ty { union(Ty::I32of(vec![10, 11, 12]), vec![vec![m::<u8>(), m::<String>()], vec![m::<String>(), m::<i16>(), m::<u64>(), m::<bool>(), m::<char>(), m::<u8>(), m::<String>(), m::<i16>(), m::<u64>(), m::<bool>(), m::<char>(), m::<u8>(), m::<String>(), m::<i16>(), m::<u64>(), m::<bool>(), m::<char>(), m::<u8>(), m::<String>(), m::<i16>()], vec![], ], vec![(Val::I(10), 0), (Val::I(11), 1), (Val::I(12), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V1(d_, a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_, a12_, a13_, a14_, a15_, a16_, a17_, a18_, a19_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val(), a12_.to_val(), a13_.to_val(), a14_.to_val(), a15_.to_val(), a16_.to_val(), a17_.to_val(), a18_.to_val(), a19_.to_val()]), Self::V2(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?, x(l_, 12)?, x(l_, 13)?, x(l_, 14)?, x(l_, 15)?, x(l_, 16)?, x(l_, 17)?, x(l_, 18)?, x(l_, 19)?), 2 => Self::V2(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32Order2 { V0(i32), V1(i32, String, i16), V2(i32, i16, u64, bool, char, u8, String, i16, u64, bool, char, u8, String, i16, u64, bool, char, u8, String, i16, u64) }
impl serde_xdr::XdrUnion<i32> for UI32Order2 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 10 => Ok("V0"), 11 => Ok("V1"), 12 => Ok("V2"), _ => Err(()) } }
}
impl Model for UI32Order2 {
    fn ty() -> Ty { union(Ty::I32of(vec![10, 11, 12]), vec![vec![], vec![m::<String>(), m::<i16>()], vec![m::<i16>(), m::<u64>(), m::<bool>(), m::<char>(), m::<u8>(), m::<String>(), m::<i16>(), m::<u64>(), m::<bool>(), m::<char>(), m::<u8>(), m::<String>(), m::<i16>(), m::<u64>(), m::<bool>(), m::<char>(), m::<u8>(), m::<String>(), m::<i16>(), m::<u64>()], ], vec![(Val::I(10), 0), (Val::I(11), 1), (Val::I(12), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]), Self::V1(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V2(d_, a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_, a12_, a13_, a14_, a15_, a16_, a17_, a18_, a19_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val(), a12_.to_val(), a13_.to_val(), a14_.to_val(), a15_.to_val(), a16_.to_val(), a17_.to_val(), a18_.to_val(), a19_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?, x(l_, 12)?, x(l_, 13)?, x(l_, 14)?, x(l_, 15)?, x(l_, 16)?, x(l_, 17)?, x(l_, 18)?, x(l_, 19)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32Order3 { V0(i32, u8, String, i16, u64, bool, char, u8, String, i16, u64, bool, char), V1(i32), V2(i32, i16, u64, bool, char, u8, String, i16, u64, bool, char, u8) }
impl serde_xdr::XdrUnion<i32> for UI32Order3 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 10 => Ok("V0"), 11 => Ok("V1"), 12 => Ok("V2"), _ => Err(()) } }
}
impl Model for UI32Order3 {
    fn ty() -> Ty { union(Ty::I32of(vec![10, 11, 12]), vec![vec![m::<u8>(), m::<String>(), m::<i16>(), m::<u64>(), m::<bool>(), m::<char>(), m::<u8>(), m::<String>(), m::<i16>(), m::<u64>(), m::<bool>(), m::<char>()], vec![], vec![m::<i16>(), m::<u64>(), m::<bool>(), m::<char>(), m::<u8>(), m::<String>(), m::<i16>(), m::<u64>(), m::<bool>(), m::<char>(), m::<u8>()], ], vec![(Val::I(10), 0), (Val::I(11), 1), (Val::I(12), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]), Self::V2(d_, a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?), 1 => Self::V1(disc(v_)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32Shared { V0(i32, u8), V1(i32, String), V2(i32) }
impl serde_xdr::XdrUnion<i32> for UI32Shared {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 0 | 1 | 2 | -1 | -2 => Ok("V0"), 5 | 100 | -2147483648 => Ok("V1"), 2147483647 => Ok("V2"), _ => Err(()) } }
}
impl Model for UI32Shared {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, -1, -2, 5, 100, -2147483648, 2147483647]), vec![vec![m::<u8>()], vec![m::<String>()], vec![], ], vec![(Val::I(0), 0), (Val::I(1), 0), (Val::I(2), 0), (Val::I(-1), 0), (Val::I(-2), 0), (Val::I(5), 1), (Val::I(100), 1), (Val::I(-2147483648), 1), (Val::I(2147483647), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V2(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), 2 => Self::V2(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32Shared2 { V0(i32), V1(i32, String), V2(i32, i64, bool) }
impl serde_xdr::XdrUnion<i32> for UI32Shared2 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 0 | -1 => Ok("V0"), 1 | -2 => Ok("V1"), 1000 | 1001 | 1002 | 1003 | 1004 | 1005 | 1006 | 1007 | 1008 | 1009 | 1010 | 1011 | 1012 | 1013 | 1014 | 1015 | 1016 | 1017 | 1018 | 1019 | 1020 | 1021 | 1022 | 1023 | 1024 | 1025 | 1026 | 1027 | 1028 | 1029 | 1030 | 1031 | 1032 | 1033 | 1034 | 1035 | 1036 | 1037 | 1038 | 1039 | 1040 | 1041 | 1042 | 1043 | 1044 | 1045 | 1046 | 1047 | 1048 | 1049 | 1050 | 1051 | 1052 | 1053 | 1054 | 1055 | 1056 | 1057 | 1058 | 1059 | 1060 | 1061 | 1062 | 1063 | 1064 | 1065 | 1066 | 1067 | 1068 | 1069 | 1070 | 1071 | 1072 | 1073 | 1074 | 1075 | 1076 | 1077 | 1078 | 1079 | 1080 | 1081 | 1082 | 1083 | 1084 | 1085 | 1086 | 1087 | 1088 | 1089 | 1090 | 1091 | 1092 | 1093 | 1094 | 1095 | 1096 | 1097 | 1098 | 1099 => Ok("V2"), _ => Err(()) } }
}
impl Model for UI32Shared2 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, -1, 1, -2, 1000, 1001, 1002, 1003, 1004, 1005, 1006, 1007, 1008, 1009, 1010, 1011, 1012, 1013, 1014, 1015, 1016, 1017, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1027, 1028, 1029, 1030, 1031, 1032, 1033, 1034, 1035, 1036, 1037, 1038, 1039, 1040, 1041, 1042, 1043, 1044, 1045, 1046, 1047, 1048, 1049, 1050, 1051, 1052, 1053, 1054, 1055, 1056, 1057, 1058, 1059, 1060, 1061, 1062, 1063, 1064, 1065, 1066, 1067, 1068, 1069, 1070, 1071, 1072, 1073, 1074, 1075, 1076, 1077, 1078, 1079, 1080, 1081, 1082, 1083, 1084, 1085, 1086, 1087, 1088, 1089, 1090, 1091, 1092, 1093, 1094, 1095, 1096, 1097, 1098, 1099]), vec![vec![], vec![m::<String>()], vec![m::<i64>(), m::<bool>()], ], vec![(Val::I(0), 0), (Val::I(-1), 0), (Val::I(1), 1), (Val::I(-2), 1), (Val::I(1000), 2), (Val::I(1001), 2), (Val::I(1002), 2), (Val::I(1003), 2), (Val::I(1004), 2), (Val::I(1005), 2), (Val::I(1006), 2), (Val::I(1007), 2), (Val::I(1008), 2), (Val::I(1009), 2), (Val::I(1010), 2), (Val::I(1011), 2), (Val::I(1012), 2), (Val::I(1013), 2), (Val::I(1014), 2), (Val::I(1015), 2), (Val::I(1016), 2), (Val::I(1017), 2), (Val::I(1018), 2), (Val::I(1019), 2), (Val::I(1020), 2), (Val::I(1021), 2), (Val::I(1022), 2), (Val::I(1023), 2), (Val::I(1024), 2), (Val::I(1025), 2), (Val::I(1026), 2), (Val::I(1027), 2), (Val::I(1028), 2), (Val::I(1029), 2), (Val::I(1030), 2), (Val::I(1031), 2), (Val::I(1032), 2), (Val::I(1033), 2), (Val::I(1034), 2), (Val::I(1035), 2), (Val::I(1036), 2), (Val::I(1037), 2), (Val::I(1038), 2), (Val::I(1039), 2), (Val::I(1040), 2), (Val::I(1041), 2), (Val::I(1042), 2), (Val::I(1043), 2), (Val::I(1044), 2), (Val::I(1045), 2), (Val::I(1046), 2), (Val::I(1047), 2), (Val::I(1048), 2), (Val::I(1049), 2), (Val::I(1050), 2), (Val::I(1051), 2), (Val::I(1052), 2), (Val::I(1053), 2), (Val::I(1054), 2), (Val::I(1055), 2), (Val::I(1056), 2), (Val::I(1057), 2), (Val::I(1058), 2), (Val::I(1059), 2), (Val::I(1060), 2), (Val::I(1061), 2), (Val::I(1062), 2), (Val::I(1063), 2), (Val::I(1064), 2), (Val::I(1065), 2), (Val::I(1066), 2), (Val::I(1067), 2), (Val::I(1068), 2), (Val::I(1069), 2), (Val::I(1070), 2), (Val::I(1071), 2), (Val::I(1072), 2), (Val::I(1073), 2), (Val::I(1074), 2), (Val::I(1075), 2), (Val::I(1076), 2), (Val::I(1077), 2), (Val::I(1078), 2), (Val::I(1079), 2), (Val::I(1080), 2), (Val::I(1081), 2), (Val::I(1082), 2), (Val::I(1083), 2), (Val::I(1084), 2), (Val::I(1085), 2), (Val::I(1086), 2), (Val::I(1087), 2), (Val::I(1088), 2), (Val::I(1089), 2), (Val::I(1090), 2), (Val::I(1091), 2), (Val::I(1092), 2), (Val::I(1093), 2), (Val::I(1094), 2), (Val::I(1095), 2), (Val::I(1096), 2), (Val::I(1097), 2), (Val::I(1098), 2), (Val::I(1099), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V2(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32Default { V0(i32, u8), V1(i32, String), V2(i32, i64) }
impl serde_xdr::XdrUnion<i32> for UI32Default {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 1 => Ok("V0"), 3 | 4 => Ok("V1"), _ => Ok("V2") } }
}
impl Model for UI32Default {
    fn ty() -> Ty { union(Ty::I32of(vec![1, 3, 4]), vec![vec![m::<u8>()], vec![m::<String>()], vec![m::<i64>()], ], vec![(Val::I(1), 0), (Val::I(3), 1), (Val::I(4), 1), ], Some(2)) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V2(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32DefaultVoid { V0(i32, u8), V1(i32) }
impl serde_xdr::XdrUnion<i32> for UI32DefaultVoid {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 1 => Ok("V0"), _ => Ok("V1") } }
}
impl Model for UI32DefaultVoid {
    fn ty() -> Ty { union(Ty::I32of(vec![1]), vec![vec![m::<u8>()], vec![], ], vec![(Val::I(1), 0), ], Some(1)) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32DefaultOnly { V0(i32, String, u8) }
impl serde_xdr::XdrUnion<i32> for UI32DefaultOnly {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { _ => Ok("V0") } }
}
impl Model for UI32DefaultOnly {
    fn ty() -> Ty { union(Ty::I32of(vec![]), vec![vec![m::<String>(), m::<u8>()], ], vec![], Some(0)) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI32DefaultShared { V0(i32, u8), V1(i32, String) }
impl serde_xdr::XdrUnion<i32> for UI32DefaultShared {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 1 => Ok("V0"), 3 | 4 => Ok("V1"), _ => Ok("V1") } }
}
impl Model for UI32DefaultShared {
    fn ty() -> Ty { union(Ty::I32of(vec![1, 3, 4]), vec![vec![m::<u8>()], vec![m::<String>()], ], vec![(Val::I(1), 0), (Val::I(3), 1), (Val::I(4), 1), ], Some(1)) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32N1 { V0(u32) }
impl serde_xdr::XdrUnion<u32> for UU32N1 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), _ => Err(()) } }
}
impl Model for UU32N1 {
    fn ty() -> Ty { union(Ty::U32of(vec![0]), vec![vec![], ], vec![(Val::U(0), 0), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32Rev1 { V0(u32) }
impl serde_xdr::XdrUnion<u32> for UU32Rev1 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 16777216 => Ok("V0"), _ => Err(()) } }
}
impl Model for UU32Rev1 {
    fn ty() -> Ty { union(Ty::U32of(vec![16777216]), vec![vec![], ], vec![(Val::U(16777216), 0), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32N2 { V0(u32), V1(u32, String) }
impl serde_xdr::XdrUnion<u32> for UU32N2 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 1 => Ok("V1"), _ => Err(()) } }
}
impl Model for UU32N2 {
    fn ty() -> Ty { union(Ty::U32of(vec![0, 1]), vec![vec![], vec![m::<String>()], ], vec![(Val::U(0), 0), (Val::U(1), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32Rev2 { V0(u32), V1(u32, String) }
impl serde_xdr::XdrUnion<u32> for UU32Rev2 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 16777216 => Ok("V0"), 2147483649 => Ok("V1"), _ => Err(()) } }
}
impl Model for UU32Rev2 {
    fn ty() -> Ty { union(Ty::U32of(vec![16777216, 2147483649]), vec![vec![], vec![m::<String>()], ], vec![(Val::U(16777216), 0), (Val::U(2147483649), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32N3 { V0(u32), V1(u32, String), V2(u32, i16, u64) }
impl serde_xdr::XdrUnion<u32> for UU32N3 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), _ => Err(()) } }
}
impl Model for UU32N3 {
    fn ty() -> Ty { union(Ty::U32of(vec![0, 1, 2]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], ], vec![(Val::U(0), 0), (Val::U(1), 1), (Val::U(2), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V2(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32Rev3 { V0(u32), V1(u32, String), V2(u32, i16, u64) }
impl serde_xdr::XdrUnion<u32> for UU32Rev3 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 16777216 => Ok("V0"), 2147483649 => Ok("V1"), 65536 => Ok("V2"), _ => Err(()) } }
}
impl Model for UU32Rev3 {
    fn ty() -> Ty { union(Ty::U32of(vec![16777216, 2147483649, 65536]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], ], vec![(Val::U(16777216), 0), (Val::U(2147483649), 1), (Val::U(65536), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V2(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32N5 { V0(u32), V1(u32, String), V2(u32, i16, u64), V3(u32, u64, bool, char), V4(u32) }
impl serde_xdr::XdrUnion<u32> for UU32N5 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), 4294967295 => Ok("V3"), 2147483648 => Ok("V4"), _ => Err(()) } }
}
impl Model for UU32N5 {
    fn ty() -> Ty { union(Ty::U32of(vec![0, 1, 2, 4294967295, 2147483648]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![m::<u64>(), m::<bool>(), m::<char>()], vec![], ], vec![(Val::U(0), 0), (Val::U(1), 1), (Val::U(2), 2), (Val::U(4294967295), 3), (Val::U(2147483648), 4), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V2(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V3(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V4(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 3 => Self::V3(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 4 => Self::V4(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32Rev5 { V0(u32), V1(u32, String), V2(u32, i16, u64), V3(u32), V4(u32, bool) }
impl serde_xdr::XdrUnion<u32> for UU32Rev5 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 16777216 => Ok("V0"), 2147483649 => Ok("V1"), 65536 => Ok("V2"), 256 => Ok("V3"), 100 => Ok("V4"), _ => Err(()) } }
}
impl Model for UU32Rev5 {
    fn ty() -> Ty { union(Ty::U32of(vec![16777216, 2147483649, 65536, 256, 100]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], ], vec![(Val::U(16777216), 0), (Val::U(2147483649), 1), (Val::U(65536), 2), (Val::U(256), 3), (Val::U(100), 4), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V2(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V3(d_) => un(d_.to_val(), vec![]), Self::V4(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 3 => Self::V3(disc(v_)?), 4 => Self::V4(disc(v_)?, x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32N12 { V0(u32), V1(u32, String), V2(u32, i16, u64), V3(u32, u64, bool, char), V4(u32), V5(u32, char), V6(u32, u8, String), V7(u32, String, i16, u64), V8(u32), V9(u32, u64), V10(u32, bool, char), V11(u32, char, u8, String) }
impl serde_xdr::XdrUnion<u32> for UU32N12 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), 4294967295 => Ok("V3"), 2147483648 => Ok("V4"), 2147483647 => Ok("V5"), 5 => Ok("V6"), 100 => Ok("V7"), 256 => Ok("V8"), 65536 => Ok("V9"), 2147483649 => Ok("V10"), 16777216 => Ok("V11"), _ => Err(()) } }
}
impl Model for UU32N12 {
    fn ty() -> Ty { union(Ty::U32of(vec![0, 1, 2, 4294967295, 2147483648, 2147483647, 5, 100, 256, 65536, 2147483649, 16777216]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![m::<u64>(), m::<bool>(), m::<char>()], vec![], vec![m::<char>()], vec![m::<u8>(), m::<String>()], vec![m::<String>(), m::<i16>(), m::<u64>()], vec![], vec![m::<u64>()], vec![m::<bool>(), m::<char>()], vec![m::<char>(), m::<u8>(), m::<String>()], ], vec![(Val::U(0), 0), (Val::U(1), 1), (Val::U(2), 2), (Val::U(4294967295), 3), (Val::U(2147483648), 4), (Val::U(2147483647), 5), (Val::U(5), 6), (Val::U(100), 7), (Val::U(256), 8), (Val::U(65536), 9), (Val::U(2147483649), 10), (Val::U(16777216), 11), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V2(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V3(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V4(d_) => un(d_.to_val(), vec![]), Self::V5(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V6(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V7(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V8(d_) => un(d_.to_val(), vec![]), Self::V9(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V10(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V11(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 3 => Self::V3(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 4 => Self::V4(disc(v_)?), 5 => Self::V5(disc(v_)?, x(l_, 0)?), 6 => Self::V6(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 7 => Self::V7(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 8 => Self::V8(disc(v_)?), 9 => Self::V9(disc(v_)?, x(l_, 0)?), 10 => Self::V10(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 11 => Self::V11(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32Rev12 { V0(u32), V1(u32, String), V2(u32, i16, u64), V3(u32), V4(u32, bool), V5(u32, char, u8), V6(u32), V7(u32, String), V8(u32, i16, u64), V9(u32), V10(u32, bool), V11(u32, char, u8) }
impl serde_xdr::XdrUnion<u32> for UU32Rev12 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 16777216 => Ok("V0"), 2147483649 => Ok("V1"), 65536 => Ok("V2"), 256 => Ok("V3"), 100 => Ok("V4"), 5 => Ok("V5"), 2147483647 => Ok("V6"), 2147483648 => Ok("V7"), 4294967295 => Ok("V8"), 2 => Ok("V9"), 1 => Ok("V10"), 0 => Ok("V11"), _ => Err(()) } }
}
impl Model for UU32Rev12 {
    fn ty() -> Ty { union(Ty::U32of(vec![16777216, 2147483649, 65536, 256, 100, 5, 2147483647, 2147483648, 4294967295, 2, 1, 0]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], ], vec![(Val::U(16777216), 0), (Val::U(2147483649), 1), (Val::U(65536), 2), (Val::U(256), 3), (Val::U(100), 4), (Val::U(5), 5), (Val::U(2147483647), 6), (Val::U(2147483648), 7), (Val::U(4294967295), 8), (Val::U(2), 9), (Val::U(1), 10), (Val::U(0), 11), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V2(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V3(d_) => un(d_.to_val(), vec![]), Self::V4(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V5(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V6(d_) => un(d_.to_val(), vec![]), Self::V7(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V8(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V9(d_) => un(d_.to_val(), vec![]), Self::V10(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V11(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 3 => Self::V3(disc(v_)?), 4 => Self::V4(disc(v_)?, x(l_, 0)?), 5 => Self::V5(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 6 => Self::V6(disc(v_)?), 7 => Self::V7(disc(v_)?, x(l_, 0)?), 8 => Self::V8(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 9 => Self::V9(disc(v_)?), 10 => Self::V10(disc(v_)?, x(l_, 0)?), 11 => Self::V11(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32Items0 { V0(u32), V1(u32) }
impl serde_xdr::XdrUnion<u32> for UU32Items0 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 7 => Ok("V0"), 8 => Ok("V1"), _ => Err(()) } }
}
impl Model for UU32Items0 {
    fn ty() -> Ty { union(Ty::U32of(vec![7, 8]), vec![vec![], vec![], ], vec![(Val::U(7), 0), (Val::U(8), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32Items1 { V0(u32, u8), V1(u32) }
impl serde_xdr::XdrUnion<u32> for UU32Items1 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 7 => Ok("V0"), 8 => Ok("V1"), _ => Err(()) } }
}
impl Model for UU32Items1 {
    fn ty() -> Ty { union(Ty::U32of(vec![7, 8]), vec![vec![m::<u8>()], vec![], ], vec![(Val::U(7), 0), (Val::U(8), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32Items2 { V0(u32, u8, String), V1(u32) }
impl serde_xdr::XdrUnion<u32> for UU32Items2 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 7 => Ok("V0"), 8 => Ok("V1"), _ => Err(()) } }
}
impl Model for UU32Items2 {
    fn ty() -> Ty { union(Ty::U32of(vec![7, 8]), vec![vec![m::<u8>(), m::<String>()], vec![], ], vec![(Val::U(7), 0), (Val::U(8), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32Items3 { V0(u32, u8, String, i64), V1(u32) }
impl serde_xdr::XdrUnion<u32> for UU32Items3 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 7 => Ok("V0"), 8 => Ok("V1"), _ => Err(()) } }
}
impl Model for UU32Items3 {
    fn ty() -> Ty { union(Ty::U32of(vec![7, 8]), vec![vec![m::<u8>(), m::<String>(), m::<i64>()], vec![], ], vec![(Val::U(7), 0), (Val::U(8), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32Items4 { V0(u32, u8, String, i64, bool), V1(u32) }
impl serde_xdr::XdrUnion<u32> for UU32Items4 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 7 => Ok("V0"), 8 => Ok("V1"), _ => Err(()) } }
}
impl Model for UU32Items4 {
    fn ty() -> Ty { union(Ty::U32of(vec![7, 8]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>()], vec![], ], vec![(Val::U(7), 0), (Val::U(8), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_, a2_, a3_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32Items5 { V0(u32, u8, String, i64, bool, Vec<u16>), V1(u32) }
impl serde_xdr::XdrUnion<u32> for UU32Items5 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 7 => Ok("V0"), 8 => Ok("V1"), _ => Err(()) } }
}
impl Model for UU32Items5 {
    fn ty() -> Ty { union(Ty::U32of(vec![7, 8]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>()], vec![], ], vec![(Val::U(7), 0), (Val::U(8), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_, a2_, a3_, a4_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32Items6 { V0(u32, u8, String, i64, bool, Vec<u16>, i16), V1(u32) }
impl serde_xdr::XdrUnion<u32> for UU32Items6 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 7 => Ok("V0"), 8 => Ok("V1"), _ => Err(()) } }
}
impl Model for UU32Items6 {
    fn ty() -> Ty { union(Ty::U32of(vec![7, 8]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>()], vec![], ], vec![(Val::U(7), 0), (Val::U(8), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_, a2_, a3_, a4_, a5_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32Items7 { V0(u32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>), V1(u32) }
impl serde_xdr::XdrUnion<u32> for UU32Items7 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 7 => Ok("V0"), 8 => Ok("V1"), _ => Err(()) } }
}
impl Model for UU32Items7 {
    fn ty() -> Ty { union(Ty::U32of(vec![7, 8]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>()], vec![], ], vec![(Val::U(7), 0), (Val::U(8), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_, a2_, a3_, a4_, a5_, a6_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32Items8 { V0(u32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64), V1(u32) }
impl serde_xdr::XdrUnion<u32> for UU32Items8 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 7 => Ok("V0"), 8 => Ok("V1"), _ => Err(()) } }
}
impl Model for UU32Items8 {
    fn ty() -> Ty { union(Ty::U32of(vec![7, 8]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>()], vec![], ], vec![(Val::U(7), 0), (Val::U(8), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32Items9 { V0(u32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32), V1(u32) }
impl serde_xdr::XdrUnion<u32> for UU32Items9 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 7 => Ok("V0"), 8 => Ok("V1"), _ => Err(()) } }
}
impl Model for UU32Items9 {
    fn ty() -> Ty { union(Ty::U32of(vec![7, 8]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>()], vec![], ], vec![(Val::U(7), 0), (Val::U(8), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32Items10 { V0(u32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char), V1(u32) }
impl serde_xdr::XdrUnion<u32> for UU32Items10 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 7 => Ok("V0"), 8 => Ok("V1"), _ => Err(()) } }
}
impl Model for UU32Items10 {
    fn ty() -> Ty { union(Ty::U32of(vec![7, 8]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>()], vec![], ], vec![(Val::U(7), 0), (Val::U(8), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32Items11 { V0(u32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3]), V1(u32) }
impl serde_xdr::XdrUnion<u32> for UU32Items11 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 7 => Ok("V0"), 8 => Ok("V1"), _ => Err(()) } }
}
impl Model for UU32Items11 {
    fn ty() -> Ty { union(Ty::U32of(vec![7, 8]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>()], vec![], ], vec![(Val::U(7), 0), (Val::U(8), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32Items12 { V0(u32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64), V1(u32) }
impl serde_xdr::XdrUnion<u32> for UU32Items12 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 7 => Ok("V0"), 8 => Ok("V1"), _ => Err(()) } }
}
impl Model for UU32Items12 {
    fn ty() -> Ty { union(Ty::U32of(vec![7, 8]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>()], vec![], ], vec![(Val::U(7), 0), (Val::U(8), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32Items15 { V0(u32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8), V1(u32) }
impl serde_xdr::XdrUnion<u32> for UU32Items15 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 7 => Ok("V0"), 8 => Ok("V1"), _ => Err(()) } }
}
impl Model for UU32Items15 {
    fn ty() -> Ty { union(Ty::U32of(vec![7, 8]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>()], vec![], ], vec![(Val::U(7), 0), (Val::U(8), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_, a12_, a13_, a14_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val(), a12_.to_val(), a13_.to_val(), a14_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?, x(l_, 12)?, x(l_, 13)?, x(l_, 14)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32Items16 { V0(u32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String), V1(u32) }
impl serde_xdr::XdrUnion<u32> for UU32Items16 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 7 => Ok("V0"), 8 => Ok("V1"), _ => Err(()) } }
}
impl Model for UU32Items16 {
    fn ty() -> Ty { union(Ty::U32of(vec![7, 8]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>()], vec![], ], vec![(Val::U(7), 0), (Val::U(8), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_, a12_, a13_, a14_, a15_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val(), a12_.to_val(), a13_.to_val(), a14_.to_val(), a15_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?, x(l_, 12)?, x(l_, 13)?, x(l_, 14)?, x(l_, 15)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32Items17 { V0(u32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64), V1(u32) }
impl serde_xdr::XdrUnion<u32> for UU32Items17 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 7 => Ok("V0"), 8 => Ok("V1"), _ => Err(()) } }
}
impl Model for UU32Items17 {
    fn ty() -> Ty { union(Ty::U32of(vec![7, 8]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>()], vec![], ], vec![(Val::U(7), 0), (Val::U(8), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_, a12_, a13_, a14_, a15_, a16_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val(), a12_.to_val(), a13_.to_val(), a14_.to_val(), a15_.to_val(), a16_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?, x(l_, 12)?, x(l_, 13)?, x(l_, 14)?, x(l_, 15)?, x(l_, 16)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32Items31 { V0(u32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64), V1(u32) }
impl serde_xdr::XdrUnion<u32> for UU32Items31 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 7 => Ok("V0"), 8 => Ok("V1"), _ => Err(()) } }
}
impl Model for UU32Items31 {
    fn ty() -> Ty { union(Ty::U32of(vec![7, 8]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>()], vec![], ], vec![(Val::U(7), 0), (Val::U(8), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_, a12_, a13_, a14_, a15_, a16_, a17_, a18_, a19_, a20_, a21_, a22_, a23_, a24_, a25_, a26_, a27_, a28_, a29_, a30_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val(), a12_.to_val(), a13_.to_val(), a14_.to_val(), a15_.to_val(), a16_.to_val(), a17_.to_val(), a18_.to_val(), a19_.to_val(), a20_.to_val(), a21_.to_val(), a22_.to_val(), a23_.to_val(), a24_.to_val(), a25_.to_val(), a26_.to_val(), a27_.to_val(), a28_.to_val(), a29_.to_val(), a30_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?, x(l_, 12)?, x(l_, 13)?, x(l_, 14)?, x(l_, 15)?, x(l_, 16)?, x(l_, 17)?, x(l_, 18)?, x(l_, 19)?, x(l_, 20)?, x(l_, 21)?, x(l_, 22)?, x(l_, 23)?, x(l_, 24)?, x(l_, 25)?, x(l_, 26)?, x(l_, 27)?, x(l_, 28)?, x(l_, 29)?, x(l_, 30)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32Items32 { V0(u32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64, bool), V1(u32) }
impl serde_xdr::XdrUnion<u32> for UU32Items32 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 7 => Ok("V0"), 8 => Ok("V1"), _ => Err(()) } }
}
impl Model for UU32Items32 {
    fn ty() -> Ty { union(Ty::U32of(vec![7, 8]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>(), m::<bool>()], vec![], ], vec![(Val::U(7), 0), (Val::U(8), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_, a12_, a13_, a14_, a15_, a16_, a17_, a18_, a19_, a20_, a21_, a22_, a23_, a24_, a25_, a26_, a27_, a28_, a29_, a30_, a31_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val(), a12_.to_val(), a13_.to_val(), a14_.to_val(), a15_.to_val(), a16_.to_val(), a17_.to_val(), a18_.to_val(), a19_.to_val(), a20_.to_val(), a21_.to_val(), a22_.to_val(), a23_.to_val(), a24_.to_val(), a25_.to_val(), a26_.to_val(), a27_.to_val(), a28_.to_val(), a29_.to_val(), a30_.to_val(), a31_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?, x(l_, 12)?, x(l_, 13)?, x(l_, 14)?, x(l_, 15)?, x(l_, 16)?, x(l_, 17)?, x(l_, 18)?, x(l_, 19)?, x(l_, 20)?, x(l_, 21)?, x(l_, 22)?, x(l_, 23)?, x(l_, 24)?, x(l_, 25)?, x(l_, 26)?, x(l_, 27)?, x(l_, 28)?, x(l_, 29)?, x(l_, 30)?, x(l_, 31)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32Items33 { V0(u32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64, bool, Vec<u16>), V1(u32) }
impl serde_xdr::XdrUnion<u32> for UU32Items33 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 7 => Ok("V0"), 8 => Ok("V1"), _ => Err(()) } }
}
impl Model for UU32Items33 {
    fn ty() -> Ty { union(Ty::U32of(vec![7, 8]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>()], vec![], ], vec![(Val::U(7), 0), (Val::U(8), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_, a12_, a13_, a14_, a15_, a16_, a17_, a18_, a19_, a20_, a21_, a22_, a23_, a24_, a25_, a26_, a27_, a28_, a29_, a30_, a31_, a32_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val(), a12_.to_val(), a13_.to_val(), a14_.to_val(), a15_.to_val(), a16_.to_val(), a17_.to_val(), a18_.to_val(), a19_.to_val(), a20_.to_val(), a21_.to_val(), a22_.to_val(), a23_.to_val(), a24_.to_val(), a25_.to_val(), a26_.to_val(), a27_.to_val(), a28_.to_val(), a29_.to_val(), a30_.to_val(), a31_.to_val(), a32_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?, x(l_, 12)?, x(l_, 13)?, x(l_, 14)?, x(l_, 15)?, x(l_, 16)?, x(l_, 17)?, x(l_, 18)?, x(l_, 19)?, x(l_, 20)?, x(l_, 21)?, x(l_, 22)?, x(l_, 23)?, x(l_, 24)?, x(l_, 25)?, x(l_, 26)?, x(l_, 27)?, x(l_, 28)?, x(l_, 29)?, x(l_, 30)?, x(l_, 31)?, x(l_, 32)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32Items64 { V0(u32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64), V1(u32) }
impl serde_xdr::XdrUnion<u32> for UU32Items64 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 7 => Ok("V0"), 8 => Ok("V1"), _ => Err(()) } }
}
impl Model for UU32Items64 {
    fn ty() -> Ty { union(Ty::U32of(vec![7, 8]), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>()], vec![], ], vec![(Val::U(7), 0), (Val::U(8), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_, a12_, a13_, a14_, a15_, a16_, a17_, a18_, a19_, a20_, a21_, a22_, a23_, a24_, a25_, a26_, a27_, a28_, a29_, a30_, a31_, a32_, a33_, a34_, a35_, a36_, a37_, a38_, a39_, a40_, a41_, a42_, a43_, a44_, a45_, a46_, a47_, a48_, a49_, a50_, a51_, a52_, a53_, a54_, a55_, a56_, a57_, a58_, a59_, a60_, a61_, a62_, a63_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val(), a12_.to_val(), a13_.to_val(), a14_.to_val(), a15_.to_val(), a16_.to_val(), a17_.to_val(), a18_.to_val(), a19_.to_val(), a20_.to_val(), a21_.to_val(), a22_.to_val(), a23_.to_val(), a24_.to_val(), a25_.to_val(), a26_.to_val(), a27_.to_val(), a28_.to_val(), a29_.to_val(), a30_.to_val(), a31_.to_val(), a32_.to_val(), a33_.to_val(), a34_.to_val(), a35_.to_val(), a36_.to_val(), a37_.to_val(), a38_.to_val(), a39_.to_val(), a40_.to_val(), a41_.to_val(), a42_.to_val(), a43_.to_val(), a44_.to_val(), a45_.to_val(), a46_.to_val(), a47_.to_val(), a48_.to_val(), a49_.to_val(), a50_.to_val(), a51_.to_val(), a52_.to_val(), a53_.to_val(), a54_.to_val(), a55_.to_val(), a56_.to_val(), a57_.to_val(), a58_.to_val(), a59_.to_val(), a60_.to_val(), a61_.to_val(), a62_.to_val(), a63_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?, x(l_, 12)?, x(l_, 13)?, x(l_, 14)?, x(l_, 15)?, x(l_, 16)?, x(l_, 17)?, x(l_, 18)?, x(l_, 19)?, x(l_, 20)?, x(l_, 21)?, x(l_, 22)?, x(l_, 23)?, x(l_, 24)?, x(l_, 25)?, x(l_, 26)?, x(l_, 27)?, x(l_, 28)?, x(l_, 29)?, x(l_, 30)?, x(l_, 31)?, x(l_, 32)?, x(l_, 33)?, x(l_, 34)?, x(l_, 35)?, x(l_, 36)?, x(l_, 37)?, x(l_, 38)?, x(l_, 39)?, x(l_, 40)?, x(l_, 41)?, x(l_, 42)?, x(l_, 43)?, x(l_, 44)?, x(l_, 45)?, x(l_, 46)?, x(l_, 47)?, x(l_, 48)?, x(l_, 49)?, x(l_, 50)?, x(l_, 51)?, x(l_, 52)?, x(l_, 53)?, x(l_, 54)?, x(l_, 55)?, x(l_, 56)?, x(l_, 57)?, x(l_, 58)?, x(l_, 59)?, x(l_, 60)?, x(l_, 61)?, x(l_, 62)?, x(l_, 63)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32Many26 { V0(u32), V1(u32, String), V2(u32, i16, u64), V3(u32), V4(u32, bool), V5(u32, char, u8), V6(u32), V7(u32, String), V8(u32, i16, u64), V9(u32), V10(u32, bool), V11(u32, char, u8), V12(u32), V13(u32, String), V14(u32, i16, u64), V15(u32), V16(u32, bool), V17(u32, char, u8), V18(u32), V19(u32, String), V20(u32, i16, u64), V21(u32), V22(u32, bool), V23(u32, char, u8), V24(u32), V25(u32, String) }
impl serde_xdr::XdrUnion<u32> for UU32Many26 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 3 => Ok("V1"), 6 => Ok("V2"), 9 => Ok("V3"), 12 => Ok("V4"), 15 => Ok("V5"), 18 => Ok("V6"), 21 => Ok("V7"), 24 => Ok("V8"), 27 => Ok("V9"), 30 => Ok("V10"), 33 => Ok("V11"), 36 => Ok("V12"), 39 => Ok("V13"), 42 => Ok("V14"), 45 => Ok("V15"), 48 => Ok("V16"), 51 => Ok("V17"), 54 => Ok("V18"), 57 => Ok("V19"), 60 => Ok("V20"), 63 => Ok("V21"), 66 => Ok("V22"), 69 => Ok("V23"), 72 => Ok("V24"), 75 => Ok("V25"), _ => Err(()) } }
}
impl Model for UU32Many26 {
    fn ty() -> Ty { union(Ty::U32of(vec![0, 3, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33, 36, 39, 42, 45, 48, 51, 54, 57, 60, 63, 66, 69, 72, 75]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], ], vec![(Val::U(0), 0), (Val::U(3), 1), (Val::U(6), 2), (Val::U(9), 3), (Val::U(12), 4), (Val::U(15), 5), (Val::U(18), 6), (Val::U(21), 7), (Val::U(24), 8), (Val::U(27), 9), (Val::U(30), 10), (Val::U(33), 11), (Val::U(36), 12), (Val::U(39), 13), (Val::U(42), 14), (Val::U(45), 15), (Val::U(48), 16), (Val::U(51), 17), (Val::U(54), 18), (Val::U(57), 19), (Val::U(60), 20), (Val::U(63), 21), (Val::U(66), 22), (Val::U(69), 23), (Val::U(72), 24), (Val::U(75), 25), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V2(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V3(d_) => un(d_.to_val(), vec![]), Self::V4(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V5(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V6(d_) => un(d_.to_val(), vec![]), Self::V7(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V8(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V9(d_) => un(d_.to_val(), vec![]), Self::V10(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V11(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V12(d_) => un(d_.to_val(), vec![]), Self::V13(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V14(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V15(d_) => un(d_.to_val(), vec![]), Self::V16(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V17(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V18(d_) => un(d_.to_val(), vec![]), Self::V19(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V20(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V21(d_) => un(d_.to_val(), vec![]), Self::V22(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V23(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V24(d_) => un(d_.to_val(), vec![]), Self::V25(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 3 => Self::V3(disc(v_)?), 4 => Self::V4(disc(v_)?, x(l_, 0)?), 5 => Self::V5(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 6 => Self::V6(disc(v_)?), 7 => Self::V7(disc(v_)?, x(l_, 0)?), 8 => Self::V8(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 9 => Self::V9(disc(v_)?), 10 => Self::V10(disc(v_)?, x(l_, 0)?), 11 => Self::V11(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 12 => Self::V12(disc(v_)?), 13 => Self::V13(disc(v_)?, x(l_, 0)?), 14 => Self::V14(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 15 => Self::V15(disc(v_)?), 16 => Self::V16(disc(v_)?, x(l_, 0)?), 17 => Self::V17(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 18 => Self::V18(disc(v_)?), 19 => Self::V19(disc(v_)?, x(l_, 0)?), 20 => Self::V20(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 21 => Self::V21(disc(v_)?), 22 => Self::V22(disc(v_)?, x(l_, 0)?), 23 => Self::V23(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 24 => Self::V24(disc(v_)?), 25 => Self::V25(disc(v_)?, x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32Many40 { V0(u32), V1(u32, String), V2(u32, i16, u64), V3(u32), V4(u32, bool), V5(u32, char, u8), V6(u32), V7(u32, String), V8(u32, i16, u64), V9(u32), V10(u32, bool), V11(u32, char, u8), V12(u32), V13(u32, String), V14(u32, i16, u64), V15(u32), V16(u32, bool), V17(u32, char, u8), V18(u32), V19(u32, String), V20(u32, i16, u64), V21(u32), V22(u32, bool), V23(u32, char, u8), V24(u32), V25(u32, String), V26(u32, i16, u64), V27(u32), V28(u32, bool), V29(u32, char, u8), V30(u32), V31(u32, String), V32(u32, i16, u64), V33(u32), V34(u32, bool), V35(u32, char, u8), V36(u32), V37(u32, String), V38(u32, i16, u64), V39(u32) }
impl serde_xdr::XdrUnion<u32> for UU32Many40 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 3 => Ok("V1"), 6 => Ok("V2"), 9 => Ok("V3"), 12 => Ok("V4"), 15 => Ok("V5"), 18 => Ok("V6"), 21 => Ok("V7"), 24 => Ok("V8"), 27 => Ok("V9"), 30 => Ok("V10"), 33 => Ok("V11"), 36 => Ok("V12"), 39 => Ok("V13"), 42 => Ok("V14"), 45 => Ok("V15"), 48 => Ok("V16"), 51 => Ok("V17"), 54 => Ok("V18"), 57 => Ok("V19"), 60 => Ok("V20"), 63 => Ok("V21"), 66 => Ok("V22"), 69 => Ok("V23"), 72 => Ok("V24"), 75 => Ok("V25"), 78 => Ok("V26"), 81 => Ok("V27"), 84 => Ok("V28"), 87 => Ok("V29"), 90 => Ok("V30"), 93 => Ok("V31"), 96 => Ok("V32"), 99 => Ok("V33"), 102 => Ok("V34"), 105 => Ok("V35"), 108 => Ok("V36"), 111 => Ok("V37"), 114 => Ok("V38"), 117 => Ok("V39"), _ => Err(()) } }
}
impl Model for UU32Many40 {
    fn ty() -> Ty { union(Ty::U32of(vec![0, 3, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33, 36, 39, 42, 45, 48, 51, 54, 57, 60, 63, 66, 69, 72, 75, 78, 81, 84, 87, 90, 93, 96, 99, 102, 105, 108, 111, 114, 117]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], ], vec![(Val::U(0), 0), (Val::U(3), 1), (Val::U(6), 2), (Val::U(9), 3), (Val::U(12), 4), (Val::U(15), 5), (Val::U(18), 6), (Val::U(21), 7), (Val::U(24), 8), (Val::U(27), 9), (Val::U(30), 10), (Val::U(33), 11), (Val::U(36), 12), (Val::U(39), 13), (Val::U(42), 14), (Val::U(45), 15), (Val::U(48), 16), (Val::U(51), 17), (Val::U(54), 18), (Val::U(57), 19), (Val::U(60), 20), (Val::U(63), 21), (Val::U(66), 22), (Val::U(69), 23), (Val::U(72), 24), (Val::U(75), 25), (Val::U(78), 26), (Val::U(81), 27), (Val::U(84), 28), (Val::U(87), 29), (Val::U(90), 30), (Val::U(93), 31), (Val::U(96), 32), (Val::U(99), 33), (Val::U(102), 34), (Val::U(105), 35), (Val::U(108), 36), (Val::U(111), 37), (Val::U(114), 38), (Val::U(117), 39), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V2(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V3(d_) => un(d_.to_val(), vec![]), Self::V4(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V5(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V6(d_) => un(d_.to_val(), vec![]), Self::V7(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V8(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V9(d_) => un(d_.to_val(), vec![]), Self::V10(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V11(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V12(d_) => un(d_.to_val(), vec![]), Self::V13(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V14(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V15(d_) => un(d_.to_val(), vec![]), Self::V16(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V17(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V18(d_) => un(d_.to_val(), vec![]), Self::V19(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V20(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V21(d_) => un(d_.to_val(), vec![]), Self::V22(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V23(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V24(d_) => un(d_.to_val(), vec![]), Self::V25(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V26(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V27(d_) => un(d_.to_val(), vec![]), Self::V28(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V29(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V30(d_) => un(d_.to_val(), vec![]), Self::V31(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V32(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V33(d_) => un(d_.to_val(), vec![]), Self::V34(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V35(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V36(d_) => un(d_.to_val(), vec![]), Self::V37(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V38(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V39(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 3 => Self::V3(disc(v_)?), 4 => Self::V4(disc(v_)?, x(l_, 0)?), 5 => Self::V5(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 6 => Self::V6(disc(v_)?), 7 => Self::V7(disc(v_)?, x(l_, 0)?), 8 => Self::V8(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 9 => Self::V9(disc(v_)?), 10 => Self::V10(disc(v_)?, x(l_, 0)?), 11 => Self::V11(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 12 => Self::V12(disc(v_)?), 13 => Self::V13(disc(v_)?, x(l_, 0)?), 14 => Self::V14(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 15 => Self::V15(disc(v_)?), 16 => Self::V16(disc(v_)?, x(l_, 0)?), 17 => Self::V17(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 18 => Self::V18(disc(v_)?), 19 => Self::V19(disc(v_)?, x(l_, 0)?), 20 => Self::V20(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 21 => Self::V21(disc(v_)?), 22 => Self::V22(disc(v_)?, x(l_, 0)?), 23 => Self::V23(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 24 => Self::V24(disc(v_)?), 25 => Self::V25(disc(v_)?, x(l_, 0)?), 26 => Self::V26(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 27 => Self::V27(disc(v_)?), 28 => Self::V28(disc(v_)?, x(l_, 0)?), 29 => Self::V29(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 30 => Self::V30(disc(v_)?), 31 => Self::V31(disc(v_)?, x(l_, 0)?), 32 => Self::V32(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 33 => Self::V33(disc(v_)?), 34 => Self::V34(disc(v_)?, x(l_, 0)?), 35 => Self::V35(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 36 => Self::V36(disc(v_)?), 37 => Self::V37(disc(v_)?, x(l_, 0)?), 38 => Self::V38(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 39 => Self::V39(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32Many130 { V0(u32), V1(u32, String), V2(u32, i16, u64), V3(u32), V4(u32, bool), V5(u32, char, u8), V6(u32), V7(u32, String), V8(u32, i16, u64), V9(u32), V10(u32, bool), V11(u32, char, u8), V12(u32), V13(u32, String), V14(u32, i16, u64), V15(u32), V16(u32, bool), V17(u32, char, u8), V18(u32), V19(u32, String), V20(u32, i16, u64), V21(u32), V22(u32, bool), V23(u32, char, u8), V24(u32), V25(u32, String), V26(u32, i16, u64), V27(u32), V28(u32, bool), V29(u32, char, u8), V30(u32), V31(u32, String), V32(u32, i16, u64), V33(u32), V34(u32, bool), V35(u32, char, u8), V36(u32), V37(u32, String), V38(u32, i16, u64), V39(u32), V40(u32, bool), V41(u32, char, u8), V42(u32), V43(u32, String), V44(u32, i16, u64), V45(u32), V46(u32, bool), V47(u32, char, u8), V48(u32), V49(u32, String), V50(u32, i16, u64), V51(u32), V52(u32, bool), V53(u32, char, u8), V54(u32), V55(u32, String), V56(u32, i16, u64), V57(u32), V58(u32, bool), V59(u32, char, u8), V60(u32), V61(u32, String), V62(u32, i16, u64), V63(u32), V64(u32, bool), V65(u32, char, u8), V66(u32), V67(u32, String), V68(u32, i16, u64), V69(u32), V70(u32, bool), V71(u32, char, u8), V72(u32), V73(u32, String), V74(u32, i16, u64), V75(u32), V76(u32, bool), V77(u32, char, u8), V78(u32), V79(u32, String), V80(u32, i16, u64), V81(u32), V82(u32, bool), V83(u32, char, u8), V84(u32), V85(u32, String), V86(u32, i16, u64), V87(u32), V88(u32, bool), V89(u32, char, u8), V90(u32), V91(u32, String), V92(u32, i16, u64), V93(u32), V94(u32, bool), V95(u32, char, u8), V96(u32), V97(u32, String), V98(u32, i16, u64), V99(u32), V100(u32, bool), V101(u32, char, u8), V102(u32), V103(u32, String), V104(u32, i16, u64), V105(u32), V106(u32, bool), V107(u32, char, u8), V108(u32), V109(u32, String), V110(u32, i16, u64), V111(u32), V112(u32, bool), V113(u32, char, u8), V114(u32), V115(u32, String), V116(u32, i16, u64), V117(u32), V118(u32, bool), V119(u32, char, u8), V120(u32), V121(u32, String), V122(u32, i16, u64), V123(u32), V124(u32, bool), V125(u32, char, u8), V126(u32), V127(u32, String), V128(u32, i16, u64), V129(u32) }
impl serde_xdr::XdrUnion<u32> for UU32Many130 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 3 => Ok("V1"), 6 => Ok("V2"), 9 => Ok("V3"), 12 => Ok("V4"), 15 => Ok("V5"), 18 => Ok("V6"), 21 => Ok("V7"), 24 => Ok("V8"), 27 => Ok("V9"), 30 => Ok("V10"), 33 => Ok("V11"), 36 => Ok("V12"), 39 => Ok("V13"), 42 => Ok("V14"), 45 => Ok("V15"), 48 => Ok("V16"), 51 => Ok("V17"), 54 => Ok("V18"), 57 => Ok("V19"), 60 => Ok("V20"), 63 => Ok("V21"), 66 => Ok("V22"), 69 => Ok("V23"), 72 => Ok("V24"), 75 => Ok("V25"), 78 => Ok("V26"), 81 => Ok("V27"), 84 => Ok("V28"), 87 => Ok("V29"), 90 => Ok("V30"), 93 => Ok("V31"), 96 => Ok("V32"), 99 => Ok("V33"), 102 => Ok("V34"), 105 => Ok("V35"), 108 => Ok("V36"), 111 => Ok("V37"), 114 => Ok("V38"), 117 => Ok("V39"), 120 => Ok("V40"), 123 => Ok("V41"), 126 => Ok("V42"), 129 => Ok("V43"), 132 => Ok("V44"), 135 => Ok("V45"), 138 => Ok("V46"), 141 => Ok("V47"), 144 => Ok("V48"), 147 => Ok("V49"), 150 => Ok("V50"), 153 => Ok("V51"), 156 => Ok("V52"), 159 => Ok("V53"), 162 => Ok("V54"), 165 => Ok("V55"), 168 => Ok("V56"), 171 => Ok("V57"), 174 => Ok("V58"), 177 => Ok("V59"), 180 => Ok("V60"), 183 => Ok("V61"), 186 => Ok("V62"), 189 => Ok("V63"), 192 => Ok("V64"), 195 => Ok("V65"), 198 => Ok("V66"), 201 => Ok("V67"), 204 => Ok("V68"), 207 => Ok("V69"), 210 => Ok("V70"), 213 => Ok("V71"), 216 => Ok("V72"), 219 => Ok("V73"), 222 => Ok("V74"), 225 => Ok("V75"), 228 => Ok("V76"), 231 => Ok("V77"), 234 => Ok("V78"), 237 => Ok("V79"), 240 => Ok("V80"), 243 => Ok("V81"), 246 => Ok("V82"), 249 => Ok("V83"), 252 => Ok("V84"), 255 => Ok("V85"), 258 => Ok("V86"), 261 => Ok("V87"), 264 => Ok("V88"), 267 => Ok("V89"), 270 => Ok("V90"), 273 => Ok("V91"), 276 => Ok("V92"), 279 => Ok("V93"), 282 => Ok("V94"), 285 => Ok("V95"), 288 => Ok("V96"), 291 => Ok("V97"), 294 => Ok("V98"), 297 => Ok("V99"), 300 => Ok("V100"), 303 => Ok("V101"), 306 => Ok("V102"), 309 => Ok("V103"), 312 => Ok("V104"), 315 => Ok("V105"), 318 => Ok("V106"), 321 => Ok("V107"), 324 => Ok("V108"), 327 => Ok("V109"), 330 => Ok("V110"), 333 => Ok("V111"), 336 => Ok("V112"), 339 => Ok("V113"), 342 => Ok("V114"), 345 => Ok("V115"), 348 => Ok("V116"), 351 => Ok("V117"), 354 => Ok("V118"), 357 => Ok("V119"), 360 => Ok("V120"), 363 => Ok("V121"), 366 => Ok("V122"), 369 => Ok("V123"), 372 => Ok("V124"), 375 => Ok("V125"), 378 => Ok("V126"), 381 => Ok("V127"), 384 => Ok("V128"), 387 => Ok("V129"), _ => Err(()) } }
}
impl Model for UU32Many130 {
    fn ty() -> Ty { union(Ty::U32of(vec![0, 3, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33, 36, 39, 42, 45, 48, 51, 54, 57, 60, 63, 66, 69, 72, 75, 78, 81, 84, 87, 90, 93, 96, 99, 102, 105, 108, 111, 114, 117, 120, 123, 126, 129, 132, 135, 138, 141, 144, 147, 150, 153, 156, 159, 162, 165, 168, 171, 174, 177, 180, 183, 186, 189, 192, 195, 198, 201, 204, 207, 210, 213, 216, 219, 222, 225, 228, 231, 234, 237, 240, 243, 246, 249, 252, 255, 258, 261, 264, 267, 270, 273, 276, 279, 282, 285, 288, 291, 294, 297, 300, 303, 306, 309, 312, 315, 318, 321, 324, 327, 330, 333, 336, 339, 342, 345, 348, 351, 354, 357, 360, 363, 366, 369, 372, 375, 378, 381, 384, 387]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], ], vec![(Val::U(0), 0), (Val::U(3), 1), (Val::U(6), 2), (Val::U(9), 3), (Val::U(12), 4), (Val::U(15), 5), (Val::U(18), 6), (Val::U(21), 7), (Val::U(24), 8), (Val::U(27), 9), (Val::U(30), 10), (Val::U(33), 11), (Val::U(36), 12), (Val::U(39), 13), (Val::U(42), 14), (Val::U(45), 15), (Val::U(48), 16), (Val::U(51), 17), (Val::U(54), 18), (Val::U(57), 19), (Val::U(60), 20), (Val::U(63), 21), (Val::U(66), 22), (Val::U(69), 23), (Val::U(72), 24), (Val::U(75), 25), (Val::U(78), 26), (Val::U(81), 27), (Val::U(84), 28), (Val::U(87), 29), (Val::U(90), 30), (Val::U(93), 31), (Val::U(96), 32), (Val::U(99), 33), (Val::U(102), 34), (Val::U(105), 35), (Val::U(108), 36), (Val::U(111), 37), (Val::U(114), 38), (Val::U(117), 39), (Val::U(120), 40), (Val::U(123), 41), (Val::U(126), 42), (Val::U(129), 43), (Val::U(132), 44), (Val::U(135), 45), (Val::U(138), 46), (Val::U(141), 47), (Val::U(144), 48), (Val::U(147), 49), (Val::U(150), 50), (Val::U(153), 51), (Val::U(156), 52), (Val::U(159), 53), (Val::U(162), 54), (Val::U(165), 55), (Val::U(168), 56), (Val::U(171), 57), (Val::U(174), 58), (Val::U(177), 59), (Val::U(180), 60), (Val::U(183), 61), (Val::U(186), 62), (Val::U(189), 63), (Val::U(192), 64), (Val::U(195), 65), (Val::U(198), 66), (Val::U(201), 67), (Val::U(204), 68), (Val::U(207), 69), (Val::U(210), 70), (Val::U(213), 71), (Val::U(216), 72), (Val::U(219), 73), (Val::U(222), 74), (Val::U(225), 75), (Val::U(228), 76), (Val::U(231), 77), (Val::U(234), 78), (Val::U(237), 79), (Val::U(240), 80), (Val::U(243), 81), (Val::U(246), 82), (Val::U(249), 83), (Val::U(252), 84), (Val::U(255), 85), (Val::U(258), 86), (Val::U(261), 87), (Val::U(264), 88), (Val::U(267), 89), (Val::U(270), 90), (Val::U(273), 91), (Val::U(276), 92), (Val::U(279), 93), (Val::U(282), 94), (Val::U(285), 95), (Val::U(288), 96), (Val::U(291), 97), (Val::U(294), 98), (Val::U(297), 99), (Val::U(300), 100), (Val::U(303), 101), (Val::U(306), 102), (Val::U(309), 103), (Val::U(312), 104), (Val::U(315), 105), (Val::U(318), 106), (Val::U(321), 107), (Val::U(324), 108), (Val::U(327), 109), (Val::U(330), 110), (Val::U(333), 111), (Val::U(336), 112), (Val::U(339), 113), (Val::U(342), 114), (Val::U(345), 115), (Val::U(348), 116), (Val::U(351), 117), (Val::U(354), 118), (Val::U(357), 119), (Val::U(360), 120), (Val::U(363), 121), (Val::U(366), 122), (Val::U(369), 123), (Val::U(372), 124), (Val::U(375), 125), (Val::U(378), 126), (Val::U(381), 127), (Val::U(384), 128), (Val::U(387), 129), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V2(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V3(d_) => un(d_.to_val(), vec![]), Self::V4(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V5(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V6(d_) => un(d_.to_val(), vec![]), Self::V7(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V8(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V9(d_) => un(d_.to_val(), vec![]), Self::V10(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V11(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V12(d_) => un(d_.to_val(), vec![]), Self::V13(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V14(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V15(d_) => un(d_.to_val(), vec![]), Self::V16(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V17(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V18(d_) => un(d_.to_val(), vec![]), Self::V19(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V20(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V21(d_) => un(d_.to_val(), vec![]), Self::V22(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V23(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V24(d_) => un(d_.to_val(), vec![]), Self::V25(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V26(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V27(d_) => un(d_.to_val(), vec![]), Self::V28(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V29(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V30(d_) => un(d_.to_val(), vec![]), Self::V31(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V32(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V33(d_) => un(d_.to_val(), vec![]), Self::V34(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V35(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V36(d_) => un(d_.to_val(), vec![]), Self::V37(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V38(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V39(d_) => un(d_.to_val(), vec![]), Self::V40(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V41(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V42(d_) => un(d_.to_val(), vec![]), Self::V43(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V44(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V45(d_) => un(d_.to_val(), vec![]), Self::V46(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V47(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V48(d_) => un(d_.to_val(), vec![]), Self::V49(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V50(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V51(d_) => un(d_.to_val(), vec![]), Self::V52(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V53(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V54(d_) => un(d_.to_val(), vec![]), Self::V55(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V56(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V57(d_) => un(d_.to_val(), vec![]), Self::V58(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V59(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V60(d_) => un(d_.to_val(), vec![]), Self::V61(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V62(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V63(d_) => un(d_.to_val(), vec![]), Self::V64(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V65(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V66(d_) => un(d_.to_val(), vec![]), Self::V67(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V68(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V69(d_) => un(d_.to_val(), vec![]), Self::V70(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V71(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V72(d_) => un(d_.to_val(), vec![]), Self::V73(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V74(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V75(d_) => un(d_.to_val(), vec![]), Self::V76(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V77(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V78(d_) => un(d_.to_val(), vec![]), Self::V79(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V80(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V81(d_) => un(d_.to_val(), vec![]), Self::V82(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V83(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V84(d_) => un(d_.to_val(), vec![]), Self::V85(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V86(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V87(d_) => un(d_.to_val(), vec![]), Self::V88(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V89(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V90(d_) => un(d_.to_val(), vec![]), Self::V91(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V92(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V93(d_) => un(d_.to_val(), vec![]), Self::V94(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V95(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V96(d_) => un(d_.to_val(), vec![]), Self::V97(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V98(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V99(d_) => un(d_.to_val(), vec![]), Self::V100(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V101(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V102(d_) => un(d_.to_val(), vec![]), Self::V103(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V104(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V105(d_) => un(d_.to_val(), vec![]), Self::V106(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V107(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V108(d_) => un(d_.to_val(), vec![]), Self::V109(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V110(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V111(d_) => un(d_.to_val(), vec![]), Self::V112(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V113(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V114(d_) => un(d_.to_val(), vec![]), Self::V115(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V116(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V117(d_) => un(d_.to_val(), vec![]), Self::V118(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V119(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V120(d_) => un(d_.to_val(), vec![]), Self::V121(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V122(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V123(d_) => un(d_.to_val(), vec![]), Self::V124(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V125(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V126(d_) => un(d_.to_val(), vec![]), Self::V127(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V128(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V129(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 3 => Self::V3(disc(v_)?), 4 => Self::V4(disc(v_)?, x(l_, 0)?), 5 => Self::V5(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 6 => Self::V6(disc(v_)?), 7 => Self::V7(disc(v_)?, x(l_, 0)?), 8 => Self::V8(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 9 => Self::V9(disc(v_)?), 10 => Self::V10(disc(v_)?, x(l_, 0)?), 11 => Self::V11(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 12 => Self::V12(disc(v_)?), 13 => Self::V13(disc(v_)?, x(l_, 0)?), 14 => Self::V14(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 15 => Self::V15(disc(v_)?), 16 => Self::V16(disc(v_)?, x(l_, 0)?), 17 => Self::V17(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 18 => Self::V18(disc(v_)?), 19 => Self::V19(disc(v_)?, x(l_, 0)?), 20 => Self::V20(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 21 => Self::V21(disc(v_)?), 22 => Self::V22(disc(v_)?, x(l_, 0)?), 23 => Self::V23(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 24 => Self::V24(disc(v_)?), 25 => Self::V25(disc(v_)?, x(l_, 0)?), 26 => Self::V26(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 27 => Self::V27(disc(v_)?), 28 => Self::V28(disc(v_)?, x(l_, 0)?), 29 => Self::V29(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 30 => Self::V30(disc(v_)?), 31 => Self::V31(disc(v_)?, x(l_, 0)?), 32 => Self::V32(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 33 => Self::V33(disc(v_)?), 34 => Self::V34(disc(v_)?, x(l_, 0)?), 35 => Self::V35(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 36 => Self::V36(disc(v_)?), 37 => Self::V37(disc(v_)?, x(l_, 0)?), 38 => Self::V38(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 39 => Self::V39(disc(v_)?), 40 => Self::V40(disc(v_)?, x(l_, 0)?), 41 => Self::V41(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 42 => Self::V42(disc(v_)?), 43 => Self::V43(disc(v_)?, x(l_, 0)?), 44 => Self::V44(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 45 => Self::V45(disc(v_)?), 46 => Self::V46(disc(v_)?, x(l_, 0)?), 47 => Self::V47(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 48 => Self::V48(disc(v_)?), 49 => Self::V49(disc(v_)?, x(l_, 0)?), 50 => Self::V50(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 51 => Self::V51(disc(v_)?), 52 => Self::V52(disc(v_)?, x(l_, 0)?), 53 => Self::V53(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 54 => Self::V54(disc(v_)?), 55 => Self::V55(disc(v_)?, x(l_, 0)?), 56 => Self::V56(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 57 => Self::V57(disc(v_)?), 58 => Self::V58(disc(v_)?, x(l_, 0)?), 59 => Self::V59(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 60 => Self::V60(disc(v_)?), 61 => Self::V61(disc(v_)?, x(l_, 0)?), 62 => Self::V62(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 63 => Self::V63(disc(v_)?), 64 => Self::V64(disc(v_)?, x(l_, 0)?), 65 => Self::V65(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 66 => Self::V66(disc(v_)?), 67 => Self::V67(disc(v_)?, x(l_, 0)?), 68 => Self::V68(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 69 => Self::V69(disc(v_)?), 70 => Self::V70(disc(v_)?, x(l_, 0)?), 71 => Self::V71(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 72 => Self::V72(disc(v_)?), 73 => Self::V73(disc(v_)?, x(l_, 0)?), 74 => Self::V74(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 75 => Self::V75(disc(v_)?), 76 => Self::V76(disc(v_)?, x(l_, 0)?), 77 => Self::V77(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 78 => Self::V78(disc(v_)?), 79 => Self::V79(disc(v_)?, x(l_, 0)?), 80 => Self::V80(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 81 => Self::V81(disc(v_)?), 82 => Self::V82(disc(v_)?, x(l_, 0)?), 83 => Self::V83(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 84 => Self::V84(disc(v_)?), 85 => Self::V85(disc(v_)?, x(l_, 0)?), 86 => Self::V86(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 87 => Self::V87(disc(v_)?), 88 => Self::V88(disc(v_)?, x(l_, 0)?), 89 => Self::V89(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 90 => Self::V90(disc(v_)?), 91 => Self::V91(disc(v_)?, x(l_, 0)?), 92 => Self::V92(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 93 => Self::V93(disc(v_)?), 94 => Self::V94(disc(v_)?, x(l_, 0)?), 95 => Self::V95(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 96 => Self::V96(disc(v_)?), 97 => Self::V97(disc(v_)?, x(l_, 0)?), 98 => Self::V98(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 99 => Self::V99(disc(v_)?), 100 => Self::V100(disc(v_)?, x(l_, 0)?), 101 => Self::V101(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 102 => Self::V102(disc(v_)?), 103 => Self::V103(disc(v_)?, x(l_, 0)?), 104 => Self::V104(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 105 => Self::V105(disc(v_)?), 106 => Self::V106(disc(v_)?, x(l_, 0)?), 107 => Self::V107(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 108 => Self::V108(disc(v_)?), 109 => Self::V109(disc(v_)?, x(l_, 0)?), 110 => Self::V110(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 111 => Self::V111(disc(v_)?), 112 => Self::V112(disc(v_)?, x(l_, 0)?), 113 => Self::V113(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 114 => Self::V114(disc(v_)?), 115 => Self::V115(disc(v_)?, x(l_, 0)?), 116 => Self::V116(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 117 => Self::V117(disc(v_)?), 118 => Self::V118(disc(v_)?, x(l_, 0)?), 119 => Self::V119(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 120 => Self::V120(disc(v_)?), 121 => Self::V121(disc(v_)?, x(l_, 0)?), 122 => Self::V122(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 123 => Self::V123(disc(v_)?), 124 => Self::V124(disc(v_)?, x(l_, 0)?), 125 => Self::V125(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 126 => Self::V126(disc(v_)?), 127 => Self::V127(disc(v_)?, x(l_, 0)?), 128 => Self::V128(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 129 => Self::V129(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32Many300 { V0(u32), V1(u32, String), V2(u32, i16, u64), V3(u32), V4(u32, bool), V5(u32, char, u8), V6(u32), V7(u32, String), V8(u32, i16, u64), V9(u32), V10(u32, bool), V11(u32, char, u8), V12(u32), V13(u32, String), V14(u32, i16, u64), V15(u32), V16(u32, bool), V17(u32, char, u8), V18(u32), V19(u32, String), V20(u32, i16, u64), V21(u32), V22(u32, bool), V23(u32, char, u8), V24(u32), V25(u32, String), V26(u32, i16, u64), V27(u32), V28(u32, bool), V29(u32, char, u8), V30(u32), V31(u32, String), V32(u32, i16, u64), V33(u32), V34(u32, bool), V35(u32, char, u8), V36(u32), V37(u32, String), V38(u32, i16, u64), V39(u32), V40(u32, bool), V41(u32, char, u8), V42(u32), V43(u32, String), V44(u32, i16, u64), V45(u32), V46(u32, bool), V47(u32, char, u8), V48(u32), V49(u32, String), V50(u32, i16, u64), V51(u32), V52(u32, bool), V53(u32, char, u8), V54(u32), V55(u32, String), V56(u32, i16, u64), V57(u32), V58(u32, bool), V59(u32, char, u8), V60(u32), V61(u32, String), V62(u32, i16, u64), V63(u32), V64(u32, bool), V65(u32, char, u8), V66(u32), V67(u32, String), V68(u32, i16, u64), V69(u32), V70(u32, bool), V71(u32, char, u8), V72(u32), V73(u32, String), V74(u32, i16, u64), V75(u32), V76(u32, bool), V77(u32, char, u8), V78(u32), V79(u32, String), V80(u32, i16, u64), V81(u32), V82(u32, bool), V83(u32, char, u8), V84(u32), V85(u32, String), V86(u32, i16, u64), V87(u32), V88(u32, bool), V89(u32, char, u8), V90(u32), V91(u32, String), V92(u32, i16, u64), V93(u32), V94(u32, bool), V95(u32, char, u8), V96(u32), V97(u32, String), V98(u32, i16, u64), V99(u32), V100(u32, bool), V101(u32, char, u8), V102(u32), V103(u32, String), V104(u32, i16, u64), V105(u32), V106(u32, bool), V107(u32, char, u8), V108(u32), V109(u32, String), V110(u32, i16, u64), V111(u32), V112(u32, bool), V113(u32, char, u8), V114(u32), V115(u32, String), V116(u32, i16, u64), V117(u32), V118(u32, bool), V119(u32, char, u8), V120(u32), V121(u32, String), V122(u32, i16, u64), V123(u32), V124(u32, bool), V125(u32, char, u8), V126(u32), V127(u32, String), V128(u32, i16, u64), V129(u32), V130(u32, bool), V131(u32, char, u8), V132(u32), V133(u32, String), V134(u32, i16, u64), V135(u32), V136(u32, bool), V137(u32, char, u8), V138(u32), V139(u32, String), V140(u32, i16, u64), V141(u32), V142(u32, bool), V143(u32, char, u8), V144(u32), V145(u32, String), V146(u32, i16, u64), V147(u32), V148(u32, bool), V149(u32, char, u8), V150(u32), V151(u32, String), V152(u32, i16, u64), V153(u32), V154(u32, bool), V155(u32, char, u8), V156(u32), V157(u32, String), V158(u32, i16, u64), V159(u32), V160(u32, bool), V161(u32, char, u8), V162(u32), V163(u32, String), V164(u32, i16, u64), V165(u32), V166(u32, bool), V167(u32, char, u8), V168(u32), V169(u32, String), V170(u32, i16, u64), V171(u32), V172(u32, bool), V173(u32, char, u8), V174(u32), V175(u32, String), V176(u32, i16, u64), V177(u32), V178(u32, bool), V179(u32, char, u8), V180(u32), V181(u32, String), V182(u32, i16, u64), V183(u32), V184(u32, bool), V185(u32, char, u8), V186(u32), V187(u32, String), V188(u32, i16, u64), V189(u32), V190(u32, bool), V191(u32, char, u8), V192(u32), V193(u32, String), V194(u32, i16, u64), V195(u32), V196(u32, bool), V197(u32, char, u8), V198(u32), V199(u32, String), V200(u32, i16, u64), V201(u32), V202(u32, bool), V203(u32, char, u8), V204(u32), V205(u32, String), V206(u32, i16, u64), V207(u32), V208(u32, bool), V209(u32, char, u8), V210(u32), V211(u32, String), V212(u32, i16, u64), V213(u32), V214(u32, bool), V215(u32, char, u8), V216(u32), V217(u32, String), V218(u32, i16, u64), V219(u32), V220(u32, bool), V221(u32, char, u8), V222(u32), V223(u32, String), V224(u32, i16, u64), V225(u32), V226(u32, bool), V227(u32, char, u8), V228(u32), V229(u32, String), V230(u32, i16, u64), V231(u32), V232(u32, bool), V233(u32, char, u8), V234(u32), V235(u32, String), V236(u32, i16, u64), V237(u32), V238(u32, bool), V239(u32, char, u8), V240(u32), V241(u32, String), V242(u32, i16, u64), V243(u32), V244(u32, bool), V245(u32, char, u8), V246(u32), V247(u32, String), V248(u32, i16, u64), V249(u32), V250(u32, bool), V251(u32, char, u8), V252(u32), V253(u32, String), V254(u32, i16, u64), V255(u32), V256(u32, bool), V257(u32, char, u8), V258(u32), V259(u32, String), V260(u32, i16, u64), V261(u32), V262(u32, bool), V263(u32, char, u8), V264(u32), V265(u32, String), V266(u32, i16, u64), V267(u32), V268(u32, bool), V269(u32, char, u8), V270(u32), V271(u32, String), V272(u32, i16, u64), V273(u32), V274(u32, bool), V275(u32, char, u8), V276(u32), V277(u32, String), V278(u32, i16, u64), V279(u32), V280(u32, bool), V281(u32, char, u8), V282(u32), V283(u32, String), V284(u32, i16, u64), V285(u32), V286(u32, bool), V287(u32, char, u8), V288(u32), V289(u32, String), V290(u32, i16, u64), V291(u32), V292(u32, bool), V293(u32, char, u8), V294(u32), V295(u32, String), V296(u32, i16, u64), V297(u32), V298(u32, bool), V299(u32, char, u8) }
impl serde_xdr::XdrUnion<u32> for UU32Many300 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 3 => Ok("V1"), 6 => Ok("V2"), 9 => Ok("V3"), 12 => Ok("V4"), 15 => Ok("V5"), 18 => Ok("V6"), 21 => Ok("V7"), 24 => Ok("V8"), 27 => Ok("V9"), 30 => Ok("V10"), 33 => Ok("V11"), 36 => Ok("V12"), 39 => Ok("V13"), 42 => Ok("V14"), 45 => Ok("V15"), 48 => Ok("V16"), 51 => Ok("V17"), 54 => Ok("V18"), 57 => Ok("V19"), 60 => Ok("V20"), 63 => Ok("V21"), 66 => Ok("V22"), 69 => Ok("V23"), 72 => Ok("V24"), 75 => Ok("V25"), 78 => Ok("V26"), 81 => Ok("V27"), 84 => Ok("V28"), 87 => Ok("V29"), 90 => Ok("V30"), 93 => Ok("V31"), 96 => Ok("V32"), 99 => Ok("V33"), 102 => Ok("V34"), 105 => Ok("V35"), 108 => Ok("V36"), 111 => Ok("V37"), 114 => Ok("V38"), 117 => Ok("V39"), 120 => Ok("V40"), 123 => Ok("V41"), 126 => Ok("V42"), 129 => Ok("V43"), 132 => Ok("V44"), 135 => Ok("V45"), 138 => Ok("V46"), 141 => Ok("V47"), 144 => Ok("V48"), 147 => Ok("V49"), 150 => Ok("V50"), 153 => Ok("V51"), 156 => Ok("V52"), 159 => Ok("V53"), 162 => Ok("V54"), 165 => Ok("V55"), 168 => Ok("V56"), 171 => Ok("V57"), 174 => Ok("V58"), 177 => Ok("V59"), 180 => Ok("V60"), 183 => Ok("V61"), 186 => Ok("V62"), 189 => Ok("V63"), 192 => Ok("V64"), 195 => Ok("V65"), 198 => Ok("V66"), 201 => Ok("V67"), 204 => Ok("V68"), 207 => Ok("V69"), 210 => Ok("V70"), 213 => Ok("V71"), 216 => Ok("V72"), 219 => Ok("V73"), 222 => Ok("V74"), 225 => Ok("V75"), 228 => Ok("V76"), 231 => Ok("V77"), 234 => Ok("V78"), 237 => Ok("V79"), 240 => Ok("V80"), 243 => Ok("V81"), 246 => Ok("V82"), 249 => Ok("V83"), 252 => Ok("V84"), 255 => Ok("V85"), 258 => Ok("V86"), 261 => Ok("V87"), 264 => Ok("V88"), 267 => Ok("V89"), 270 => Ok("V90"), 273 => Ok("V91"), 276 => Ok("V92"), 279 => Ok("V93"), 282 => Ok("V94"), 285 => Ok("V95"), 288 => Ok("V96"), 291 => Ok("V97"), 294 => Ok("V98"), 297 => Ok("V99"), 300 => Ok("V100"), 303 => Ok("V101"), 306 => Ok("V102"), 309 => Ok("V103"), 312 => Ok("V104"), 315 => Ok("V105"), 318 => Ok("V106"), 321 => Ok("V107"), 324 => Ok("V108"), 327 => Ok("V109"), 330 => Ok("V110"), 333 => Ok("V111"), 336 => Ok("V112"), 339 => Ok("V113"), 342 => Ok("V114"), 345 => Ok("V115"), 348 => Ok("V116"), 351 => Ok("V117"), 354 => Ok("V118"), 357 => Ok("V119"), 360 => Ok("V120"), 363 => Ok("V121"), 366 => Ok("V122"), 369 => Ok("V123"), 372 => Ok("V124"), 375 => Ok("V125"), 378 => Ok("V126"), 381 => Ok("V127"), 384 => Ok("V128"), 387 => Ok("V129"), 390 => Ok("V130"), 393 => Ok("V131"), 396 => Ok("V132"), 399 => Ok("V133"), 402 => Ok("V134"), 405 => Ok("V135"), 408 => Ok("V136"), 411 => Ok("V137"), 414 => Ok("V138"), 417 => Ok("V139"), 420 => Ok("V140"), 423 => Ok("V141"), 426 => Ok("V142"), 429 => Ok("V143"), 432 => Ok("V144"), 435 => Ok("V145"), 438 => Ok("V146"), 441 => Ok("V147"), 444 => Ok("V148"), 447 => Ok("V149"), 450 => Ok("V150"), 453 => Ok("V151"), 456 => Ok("V152"), 459 => Ok("V153"), 462 => Ok("V154"), 465 => Ok("V155"), 468 => Ok("V156"), 471 => Ok("V157"), 474 => Ok("V158"), 477 => Ok("V159"), 480 => Ok("V160"), 483 => Ok("V161"), 486 => Ok("V162"), 489 => Ok("V163"), 492 => Ok("V164"), 495 => Ok("V165"), 498 => Ok("V166"), 501 => Ok("V167"), 504 => Ok("V168"), 507 => Ok("V169"), 510 => Ok("V170"), 513 => Ok("V171"), 516 => Ok("V172"), 519 => Ok("V173"), 522 => Ok("V174"), 525 => Ok("V175"), 528 => Ok("V176"), 531 => Ok("V177"), 534 => Ok("V178"), 537 => Ok("V179"), 540 => Ok("V180"), 543 => Ok("V181"), 546 => Ok("V182"), 549 => Ok("V183"), 552 => Ok("V184"), 555 => Ok("V185"), 558 => Ok("V186"), 561 => Ok("V187"), 564 => Ok("V188"), 567 => Ok("V189"), 570 => Ok("V190"), 573 => Ok("V191"), 576 => Ok("V192"), 579 => Ok("V193"), 582 => Ok("V194"), 585 => Ok("V195"), 588 => Ok("V196"), 591 => Ok("V197"), 594 => Ok("V198"), 597 => Ok("V199"), 600 => Ok("V200"), 603 => Ok("V201"), 606 => Ok("V202"), 609 => Ok("V203"), 612 => Ok("V204"), 615 => Ok("V205"), 618 => Ok("V206"), 621 => Ok("V207"), 624 => Ok("V208"), 627 => Ok("V209"), 630 => Ok("V210"), 633 => Ok("V211"), 636 => Ok("V212"), 639 => Ok("V213"), 642 => Ok("V214"), 645 => Ok("V215"), 648 => Ok("V216"), 651 => Ok("V217"), 654 => Ok("V218"), 657 => Ok("V219"), 660 => Ok("V220"), 663 => Ok("V221"), 666 => Ok("V222"), 669 => Ok("V223"), 672 => Ok("V224"), 675 => Ok("V225"), 678 => Ok("V226"), 681 => Ok("V227"), 684 => Ok("V228"), 687 => Ok("V229"), 690 => Ok("V230"), 693 => Ok("V231"), 696 => Ok("V232"), 699 => Ok("V233"), 702 => Ok("V234"), 705 => Ok("V235"), 708 => Ok("V236"), 711 => Ok("V237"), 714 => Ok("V238"), 717 => Ok("V239"), 720 => Ok("V240"), 723 => Ok("V241"), 726 => Ok("V242"), 729 => Ok("V243"), 732 => Ok("V244"), 735 => Ok("V245"), 738 => Ok("V246"), 741 => Ok("V247"), 744 => Ok("V248"), 747 => Ok("V249"), 750 => Ok("V250"), 753 => Ok("V251"), 756 => Ok("V252"), 759 => Ok("V253"), 762 => Ok("V254"), 765 => Ok("V255"), 768 => Ok("V256"), 771 => Ok("V257"), 774 => Ok("V258"), 777 => Ok("V259"), 780 => Ok("V260"), 783 => Ok("V261"), 786 => Ok("V262"), 789 => Ok("V263"), 792 => Ok("V264"), 795 => Ok("V265"), 798 => Ok("V266"), 801 => Ok("V267"), 804 => Ok("V268"), 807 => Ok("V269"), 810 => Ok("V270"), 813 => Ok("V271"), 816 => Ok("V272"), 819 => Ok("V273"), 822 => Ok("V274"), 825 => Ok("V275"), 828 => Ok("V276"), 831 => Ok("V277"), 834 => Ok("V278"), 837 => Ok("V279"), 840 => Ok("V280"), 843 => Ok("V281"), 846 => Ok("V282"), 849 => Ok("V283"), 852 => Ok("V284"), 855 => Ok("V285"), 858 => Ok("V286"), 861 => Ok("V287"), 864 => Ok("V288"), 867 => Ok("V289"), 870 => Ok("V290"), 873 => Ok("V291"), 876 => Ok("V292"), 879 => Ok("V293"), 882 => Ok("V294"), 885 => Ok("V295"), 888 => Ok("V296"), 891 => Ok("V297"), 894 => Ok("V298"), 897 => Ok("V299"), _ => Err(()) } }
}
impl Model for UU32Many300 {
    fn ty() -> Ty { union(Ty::U32of(vec![0, 3, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33, 36, 39, 42, 45, 48, 51, 54, 57, 60, 63, 66, 69, 72, 75, 78, 81, 84, 87, 90, 93, 96, 99, 102, 105, 108, 111, 114, 117, 120, 123, 126, 129, 132, 135, 138, 141, 144, 147, 150, 153, 156, 159, 162, 165, 168, 171, 174, 177, 180, 183, 186, 189, 192, 195, 198, 201, 204, 207, 210, 213, 216, 219, 222, 225, 228, 231, 234, 237, 240, 243, 246, 249, 252, 255, 258, 261, 264, 267, 270, 273, 276, 279, 282, 285, 288, 291, 294, 297, 300, 303, 306, 309, 312, 315, 318, 321, 324, 327, 330, 333, 336, 339, 342, 345, 348, 351, 354, 357, 360, 363, 366, 369, 372, 375, 378, 381, 384, 387, 390, 393, 396, 399, 402, 405, 408, 411, 414, 417, 420, 423, 426, 429, 432, 435, 438, 441, 444, 447, 450, 453, 456, 459, 462, 465, 468, 471, 474, 477, 480, 483, 486, 489, 492, 495, 498, 501, 504, 507, 510, 513, 516, 519, 522, 525, 528, 531, 534, 537, 540, 543, 546, 549, 552, 555, 558, 561, 564, 567, 570, 573, 576, 579, 582, 585, 588, 591, 594, 597, 600, 603, 606, 609, 612, 615, 618, 621, 624, 627, 630, 633, 636, 639, 642, 645, 648, 651, 654, 657, 660, 663, 666, 669, 672, 675, 678, 681, 684, 687, 690, 693, 696, 699, 702, 705, 708, 711, 714, 717, 720, 723, 726, 729, 732, 735, 738, 741, 744, 747, 750, 753, 756, 759, 762, 765, 768, 771, 774, 777, 780, 783, 786, 789, 792, 795, 798, 801, 804, 807, 810, 813, 816, 819, 822, 825, 828, 831, 834, 837, 840, 843, 846, 849, 852, 855, 858, 861, 864, 867, 870, 873, 876, 879, 882, 885, 888, 891, 894, 897]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], ], vec![(Val::U(0), 0), (Val::U(3), 1), (Val::U(6), 2), (Val::U(9), 3), (Val::U(12), 4), (Val::U(15), 5), (Val::U(18), 6), (Val::U(21), 7), (Val::U(24), 8), (Val::U(27), 9), (Val::U(30), 10), (Val::U(33), 11), (Val::U(36), 12), (Val::U(39), 13), (Val::U(42), 14), (Val::U(45), 15), (Val::U(48), 16), (Val::U(51), 17), (Val::U(54), 18), (Val::U(57), 19), (Val::U(60), 20), (Val::U(63), 21), (Val::U(66), 22), (Val::U(69), 23), (Val::U(72), 24), (Val::U(75), 25), (Val::U(78), 26), (Val::U(81), 27), (Val::U(84), 28), (Val::U(87), 29), (Val::U(90), 30), (Val::U(93), 31), (Val::U(96), 32), (Val::U(99), 33), (Val::U(102), 34), (Val::U(105), 35), (Val::U(108), 36), (Val::U(111), 37), (Val::U(114), 38), (Val::U(117), 39), (Val::U(120), 40), (Val::U(123), 41), (Val::U(126), 42), (Val::U(129), 43), (Val::U(132), 44), (Val::U(135), 45), (Val::U(138), 46), (Val::U(141), 47), (Val::U(144), 48), (Val::U(147), 49), (Val::U(150), 50), (Val::U(153), 51), (Val::U(156), 52), (Val::U(159), 53), (Val::U(162), 54), (Val::U(165), 55), (Val::U(168), 56), (Val::U(171), 57), (Val::U(174), 58), (Val::U(177), 59), (Val::U(180), 60), (Val::U(183), 61), (Val::U(186), 62), (Val::U(189), 63), (Val::U(192), 64), (Val::U(195), 65), (Val::U(198), 66), (Val::U(201), 67), (Val::U(204), 68), (Val::U(207), 69), (Val::U(210), 70), (Val::U(213), 71), (Val::U(216), 72), (Val::U(219), 73), (Val::U(222), 74), (Val::U(225), 75), (Val::U(228), 76), (Val::U(231), 77), (Val::U(234), 78), (Val::U(237), 79), (Val::U(240), 80), (Val::U(243), 81), (Val::U(246), 82), (Val::U(249), 83), (Val::U(252), 84), (Val::U(255), 85), (Val::U(258), 86), (Val::U(261), 87), (Val::U(264), 88), (Val::U(267), 89), (Val::U(270), 90), (Val::U(273), 91), (Val::U(276), 92), (Val::U(279), 93), (Val::U(282), 94), (Val::U(285), 95), (Val::U(288), 96), (Val::U(291), 97), (Val::U(294), 98), (Val::U(297), 99), (Val::U(300), 100), (Val::U(303), 101), (Val::U(306), 102), (Val::U(309), 103), (Val::U(312), 104), (Val::U(315), 105), (Val::U(318), 106), (Val::U(321), 107), (Val::U(324), 108), (Val::U(327), 109), (Val::U(330), 110), (Val::U(333), 111), (Val::U(336), 112), (Val::U(339), 113), (Val::U(342), 114), (Val::U(345), 115), (Val::U(348), 116), (Val::U(351), 117), (Val::U(354), 118), (Val::U(357), 119), (Val::U(360), 120), (Val::U(363), 121), (Val::U(366), 122), (Val::U(369), 123), (Val::U(372), 124), (Val::U(375), 125), (Val::U(378), 126), (Val::U(381), 127), (Val::U(384), 128), (Val::U(387), 129), (Val::U(390), 130), (Val::U(393), 131), (Val::U(396), 132), (Val::U(399), 133), (Val::U(402), 134), (Val::U(405), 135), (Val::U(408), 136), (Val::U(411), 137), (Val::U(414), 138), (Val::U(417), 139), (Val::U(420), 140), (Val::U(423), 141), (Val::U(426), 142), (Val::U(429), 143), (Val::U(432), 144), (Val::U(435), 145), (Val::U(438), 146), (Val::U(441), 147), (Val::U(444), 148), (Val::U(447), 149), (Val::U(450), 150), (Val::U(453), 151), (Val::U(456), 152), (Val::U(459), 153), (Val::U(462), 154), (Val::U(465), 155), (Val::U(468), 156), (Val::U(471), 157), (Val::U(474), 158), (Val::U(477), 159), (Val::U(480), 160), (Val::U(483), 161), (Val::U(486), 162), (Val::U(489), 163), (Val::U(492), 164), (Val::U(495), 165), (Val::U(498), 166), (Val::U(501), 167), (Val::U(504), 168), (Val::U(507), 169), (Val::U(510), 170), (Val::U(513), 171), (Val::U(516), 172), (Val::U(519), 173), (Val::U(522), 174), (Val::U(525), 175), (Val::U(528), 176), (Val::U(531), 177), (Val::U(534), 178), (Val::U(537), 179), (Val::U(540), 180), (Val::U(543), 181), (Val::U(546), 182), (Val::U(549), 183), (Val::U(552), 184), (Val::U(555), 185), (Val::U(558), 186), (Val::U(561), 187), (Val::U(564), 188), (Val::U(567), 189), (Val::U(570), 190), (Val::U(573), 191), (Val::U(576), 192), (Val::U(579), 193), (Val::U(582), 194), (Val::U(585), 195), (Val::U(588), 196), (Val::U(591), 197), (Val::U(594), 198), (Val::U(597), 199), (Val::U(600), 200), (Val::U(603), 201), (Val::U(606), 202), (Val::U(609), 203), (Val::U(612), 204), (Val::U(615), 205), (Val::U(618), 206), (Val::U(621), 207), (Val::U(624), 208), (Val::U(627), 209), (Val::U(630), 210), (Val::U(633), 211), (Val::U(636), 212), (Val::U(639), 213), (Val::U(642), 214), (Val::U(645), 215), (Val::U(648), 216), (Val::U(651), 217), (Val::U(654), 218), (Val::U(657), 219), (Val::U(660), 220), (Val::U(663), 221), (Val::U(666), 222), (Val::U(669), 223), (Val::U(672), 224), (Val::U(675), 225), (Val::U(678), 226), (Val::U(681), 227), (Val::U(684), 228), (Val::U(687), 229), (Val::U(690), 230), (Val::U(693), 231), (Val::U(696), 232), (Val::U(699), 233), (Val::U(702), 234), (Val::U(705), 235), (Val::U(708), 236), (Val::U(711), 237), (Val::U(714), 238), (Val::U(717), 239), (Val::U(720), 240), (Val::U(723), 241), (Val::U(726), 242), (Val::U(729), 243), (Val::U(732), 244), (Val::U(735), 245), (Val::U(738), 246), (Val::U(741), 247), (Val::U(744), 248), (Val::U(747), 249), (Val::U(750), 250), (Val::U(753), 251), (Val::U(756), 252), (Val::U(759), 253), (Val::U(762), 254), (Val::U(765), 255), (Val::U(768), 256), (Val::U(771), 257), (Val::U(774), 258), (Val::U(777), 259), (Val::U(780), 260), (Val::U(783), 261), (Val::U(786), 262), (Val::U(789), 263), (Val::U(792), 264), (Val::U(795), 265), (Val::U(798), 266), (Val::U(801), 267), (Val::U(804), 268), (Val::U(807), 269), (Val::U(810), 270), (Val::U(813), 271), (Val::U(816), 272), (Val::U(819), 273), (Val::U(822), 274), (Val::U(825), 275), (Val::U(828), 276), (Val::U(831), 277), (Val::U(834), 278), (Val::U(837), 279), (Val::U(840), 280), (Val::U(843), 281), (Val::U(846), 282), (Val::U(849), 283), (Val::U(852), 284), (Val::U(855), 285), (Val::U(858), 286), (Val::U(861), 287), (Val::U(864), 288), (Val::U(867), 289), (Val::U(870), 290), (Val::U(873), 291), (Val::U(876), 292), (Val::U(879), 293), (Val::U(882), 294), (Val::U(885), 295), (Val::U(888), 296), (Val::U(891), 297), (Val::U(894), 298), (Val::U(897), 299), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V2(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V3(d_) => un(d_.to_val(), vec![]), Self::V4(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V5(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V6(d_) => un(d_.to_val(), vec![]), Self::V7(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V8(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V9(d_) => un(d_.to_val(), vec![]), Self::V10(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V11(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V12(d_) => un(d_.to_val(), vec![]), Self::V13(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V14(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V15(d_) => un(d_.to_val(), vec![]), Self::V16(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V17(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V18(d_) => un(d_.to_val(), vec![]), Self::V19(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V20(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V21(d_) => un(d_.to_val(), vec![]), Self::V22(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V23(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V24(d_) => un(d_.to_val(), vec![]), Self::V25(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V26(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V27(d_) => un(d_.to_val(), vec![]), Self::V28(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V29(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V30(d_) => un(d_.to_val(), vec![]), Self::V31(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V32(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V33(d_) => un(d_.to_val(), vec![]), Self::V34(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V35(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V36(d_) => un(d_.to_val(), vec![]), Self::V37(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V38(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V39(d_) => un(d_.to_val(), vec![]), Self::V40(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V41(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V42(d_) => un(d_.to_val(), vec![]), Self::V43(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V44(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V45(d_) => un(d_.to_val(), vec![]), Self::V46(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V47(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V48(d_) => un(d_.to_val(), vec![]), Self::V49(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V50(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V51(d_) => un(d_.to_val(), vec![]), Self::V52(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V53(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V54(d_) => un(d_.to_val(), vec![]), Self::V55(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V56(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V57(d_) => un(d_.to_val(), vec![]), Self::V58(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V59(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V60(d_) => un(d_.to_val(), vec![]), Self::V61(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V62(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V63(d_) => un(d_.to_val(), vec![]), Self::V64(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V65(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V66(d_) => un(d_.to_val(), vec![]), Self::V67(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V68(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V69(d_) => un(d_.to_val(), vec![]), Self::V70(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V71(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V72(d_) => un(d_.to_val(), vec![]), Self::V73(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V74(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V75(d_) => un(d_.to_val(), vec![]), Self::V76(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V77(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V78(d_) => un(d_.to_val(), vec![]), Self::V79(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V80(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V81(d_) => un(d_.to_val(), vec![]), Self::V82(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V83(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V84(d_) => un(d_.to_val(), vec![]), Self::V85(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V86(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V87(d_) => un(d_.to_val(), vec![]), Self::V88(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V89(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V90(d_) => un(d_.to_val(), vec![]), Self::V91(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V92(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V93(d_) => un(d_.to_val(), vec![]), Self::V94(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V95(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V96(d_) => un(d_.to_val(), vec![]), Self::V97(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V98(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V99(d_) => un(d_.to_val(), vec![]), Self::V100(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V101(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V102(d_) => un(d_.to_val(), vec![]), Self::V103(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V104(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V105(d_) => un(d_.to_val(), vec![]), Self::V106(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V107(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V108(d_) => un(d_.to_val(), vec![]), Self::V109(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V110(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V111(d_) => un(d_.to_val(), vec![]), Self::V112(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V113(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V114(d_) => un(d_.to_val(), vec![]), Self::V115(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V116(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V117(d_) => un(d_.to_val(), vec![]), Self::V118(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V119(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V120(d_) => un(d_.to_val(), vec![]), Self::V121(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V122(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V123(d_) => un(d_.to_val(), vec![]), Self::V124(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V125(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V126(d_) => un(d_.to_val(), vec![]), Self::V127(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V128(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V129(d_) => un(d_.to_val(), vec![]), Self::V130(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V131(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V132(d_) => un(d_.to_val(), vec![]), Self::V133(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V134(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V135(d_) => un(d_.to_val(), vec![]), Self::V136(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V137(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V138(d_) => un(d_.to_val(), vec![]), Self::V139(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V140(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V141(d_) => un(d_.to_val(), vec![]), Self::V142(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V143(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V144(d_) => un(d_.to_val(), vec![]), Self::V145(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V146(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V147(d_) => un(d_.to_val(), vec![]), Self::V148(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V149(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V150(d_) => un(d_.to_val(), vec![]), Self::V151(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V152(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V153(d_) => un(d_.to_val(), vec![]), Self::V154(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V155(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V156(d_) => un(d_.to_val(), vec![]), Self::V157(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V158(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V159(d_) => un(d_.to_val(), vec![]), Self::V160(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V161(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V162(d_) => un(d_.to_val(), vec![]), Self::V163(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V164(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V165(d_) => un(d_.to_val(), vec![]), Self::V166(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V167(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V168(d_) => un(d_.to_val(), vec![]), Self::V169(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V170(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V171(d_) => un(d_.to_val(), vec![]), Self::V172(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V173(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V174(d_) => un(d_.to_val(), vec![]), Self::V175(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V176(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V177(d_) => un(d_.to_val(), vec![]), Self::V178(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V179(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V180(d_) => un(d_.to_val(), vec![]), Self::V181(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V182(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V183(d_) => un(d_.to_val(), vec![]), Self::V184(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V185(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V186(d_) => un(d_.to_val(), vec![]), Self::V187(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V188(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V189(d_) => un(d_.to_val(), vec![]), Self::V190(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V191(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V192(d_) => un(d_.to_val(), vec![]), Self::V193(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V194(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V195(d_) => un(d_.to_val(), vec![]), Self::V196(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V197(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V198(d_) => un(d_.to_val(), vec![]), Self::V199(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V200(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V201(d_) => un(d_.to_val(), vec![]), Self::V202(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V203(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V204(d_) => un(d_.to_val(), vec![]), Self::V205(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V206(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V207(d_) => un(d_.to_val(), vec![]), Self::V208(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V209(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V210(d_) => un(d_.to_val(), vec![]), Self::V211(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V212(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V213(d_) => un(d_.to_val(), vec![]), Self::V214(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V215(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V216(d_) => un(d_.to_val(), vec![]), Self::V217(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V218(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V219(d_) => un(d_.to_val(), vec![]), Self::V220(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V221(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V222(d_) => un(d_.to_val(), vec![]), Self::V223(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V224(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V225(d_) => un(d_.to_val(), vec![]), Self::V226(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V227(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V228(d_) => un(d_.to_val(), vec![]), Self::V229(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V230(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V231(d_) => un(d_.to_val(), vec![]), Self::V232(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V233(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V234(d_) => un(d_.to_val(), vec![]), Self::V235(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V236(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V237(d_) => un(d_.to_val(), vec![]), Self::V238(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V239(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V240(d_) => un(d_.to_val(), vec![]), Self::V241(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V242(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V243(d_) => un(d_.to_val(), vec![]), Self::V244(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V245(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V246(d_) => un(d_.to_val(), vec![]), Self::V247(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V248(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V249(d_) => un(d_.to_val(), vec![]), Self::V250(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V251(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V252(d_) => un(d_.to_val(), vec![]), Self::V253(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V254(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V255(d_) => un(d_.to_val(), vec![]), Self::V256(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V257(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V258(d_) => un(d_.to_val(), vec![]), Self::V259(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V260(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V261(d_) => un(d_.to_val(), vec![]), Self::V262(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V263(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V264(d_) => un(d_.to_val(), vec![]), Self::V265(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V266(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V267(d_) => un(d_.to_val(), vec![]), Self::V268(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V269(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V270(d_) => un(d_.to_val(), vec![]), Self::V271(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V272(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V273(d_) => un(d_.to_val(), vec![]), Self::V274(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V275(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V276(d_) => un(d_.to_val(), vec![]), Self::V277(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V278(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V279(d_) => un(d_.to_val(), vec![]), Self::V280(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V281(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V282(d_) => un(d_.to_val(), vec![]), Self::V283(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V284(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V285(d_) => un(d_.to_val(), vec![]), Self::V286(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V287(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V288(d_) => un(d_.to_val(), vec![]), Self::V289(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V290(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V291(d_) => un(d_.to_val(), vec![]), Self::V292(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V293(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V294(d_) => un(d_.to_val(), vec![]), Self::V295(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V296(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V297(d_) => un(d_.to_val(), vec![]), Self::V298(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V299(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 3 => Self::V3(disc(v_)?), 4 => Self::V4(disc(v_)?, x(l_, 0)?), 5 => Self::V5(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 6 => Self::V6(disc(v_)?), 7 => Self::V7(disc(v_)?, x(l_, 0)?), 8 => Self::V8(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 9 => Self::V9(disc(v_)?), 10 => Self::V10(disc(v_)?, x(l_, 0)?), 11 => Self::V11(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 12 => Self::V12(disc(v_)?), 13 => Self::V13(disc(v_)?, x(l_, 0)?), 14 => Self::V14(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 15 => Self::V15(disc(v_)?), 16 => Self::V16(disc(v_)?, x(l_, 0)?), 17 => Self::V17(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 18 => Self::V18(disc(v_)?), 19 => Self::V19(disc(v_)?, x(l_, 0)?), 20 => Self::V20(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 21 => Self::V21(disc(v_)?), 22 => Self::V22(disc(v_)?, x(l_, 0)?), 23 => Self::V23(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 24 => Self::V24(disc(v_)?), 25 => Self::V25(disc(v_)?, x(l_, 0)?), 26 => Self::V26(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 27 => Self::V27(disc(v_)?), 28 => Self::V28(disc(v_)?, x(l_, 0)?), 29 => Self::V29(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 30 => Self::V30(disc(v_)?), 31 => Self::V31(disc(v_)?, x(l_, 0)?), 32 => Self::V32(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 33 => Self::V33(disc(v_)?), 34 => Self::V34(disc(v_)?, x(l_, 0)?), 35 => Self::V35(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 36 => Self::V36(disc(v_)?), 37 => Self::V37(disc(v_)?, x(l_, 0)?), 38 => Self::V38(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 39 => Self::V39(disc(v_)?), 40 => Self::V40(disc(v_)?, x(l_, 0)?), 41 => Self::V41(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 42 => Self::V42(disc(v_)?), 43 => Self::V43(disc(v_)?, x(l_, 0)?), 44 => Self::V44(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 45 => Self::V45(disc(v_)?), 46 => Self::V46(disc(v_)?, x(l_, 0)?), 47 => Self::V47(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 48 => Self::V48(disc(v_)?), 49 => Self::V49(disc(v_)?, x(l_, 0)?), 50 => Self::V50(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 51 => Self::V51(disc(v_)?), 52 => Self::V52(disc(v_)?, x(l_, 0)?), 53 => Self::V53(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 54 => Self::V54(disc(v_)?), 55 => Self::V55(disc(v_)?, x(l_, 0)?), 56 => Self::V56(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 57 => Self::V57(disc(v_)?), 58 => Self::V58(disc(v_)?, x(l_, 0)?), 59 => Self::V59(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 60 => Self::V60(disc(v_)?), 61 => Self::V61(disc(v_)?, x(l_, 0)?), 62 => Self::V62(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 63 => Self::V63(disc(v_)?), 64 => Self::V64(disc(v_)?, x(l_, 0)?), 65 => Self::V65(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 66 => Self::V66(disc(v_)?), 67 => Self::V67(disc(v_)?, x(l_, 0)?), 68 => Self::V68(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 69 => Self::V69(disc(v_)?), 70 => Self::V70(disc(v_)?, x(l_, 0)?), 71 => Self::V71(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 72 => Self::V72(disc(v_)?), 73 => Self::V73(disc(v_)?, x(l_, 0)?), 74 => Self::V74(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 75 => Self::V75(disc(v_)?), 76 => Self::V76(disc(v_)?, x(l_, 0)?), 77 => Self::V77(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 78 => Self::V78(disc(v_)?), 79 => Self::V79(disc(v_)?, x(l_, 0)?), 80 => Self::V80(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 81 => Self::V81(disc(v_)?), 82 => Self::V82(disc(v_)?, x(l_, 0)?), 83 => Self::V83(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 84 => Self::V84(disc(v_)?), 85 => Self::V85(disc(v_)?, x(l_, 0)?), 86 => Self::V86(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 87 => Self::V87(disc(v_)?), 88 => Self::V88(disc(v_)?, x(l_, 0)?), 89 => Self::V89(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 90 => Self::V90(disc(v_)?), 91 => Self::V91(disc(v_)?, x(l_, 0)?), 92 => Self::V92(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 93 => Self::V93(disc(v_)?), 94 => Self::V94(disc(v_)?, x(l_, 0)?), 95 => Self::V95(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 96 => Self::V96(disc(v_)?), 97 => Self::V97(disc(v_)?, x(l_, 0)?), 98 => Self::V98(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 99 => Self::V99(disc(v_)?), 100 => Self::V100(disc(v_)?, x(l_, 0)?), 101 => Self::V101(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 102 => Self::V102(disc(v_)?), 103 => Self::V103(disc(v_)?, x(l_, 0)?), 104 => Self::V104(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 105 => Self::V105(disc(v_)?), 106 => Self::V106(disc(v_)?, x(l_, 0)?), 107 => Self::V107(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 108 => Self::V108(disc(v_)?), 109 => Self::V109(disc(v_)?, x(l_, 0)?), 110 => Self::V110(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 111 => Self::V111(disc(v_)?), 112 => Self::V112(disc(v_)?, x(l_, 0)?), 113 => Self::V113(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 114 => Self::V114(disc(v_)?), 115 => Self::V115(disc(v_)?, x(l_, 0)?), 116 => Self::V116(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 117 => Self::V117(disc(v_)?), 118 => Self::V118(disc(v_)?, x(l_, 0)?), 119 => Self::V119(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 120 => Self::V120(disc(v_)?), 121 => Self::V121(disc(v_)?, x(l_, 0)?), 122 => Self::V122(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 123 => Self::V123(disc(v_)?), 124 => Self::V124(disc(v_)?, x(l_, 0)?), 125 => Self::V125(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 126 => Self::V126(disc(v_)?), 127 => Self::V127(disc(v_)?, x(l_, 0)?), 128 => Self::V128(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 129 => Self::V129(disc(v_)?), 130 => Self::V130(disc(v_)?, x(l_, 0)?), 131 => Self::V131(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 132 => Self::V132(disc(v_)?), 133 => Self::V133(disc(v_)?, x(l_, 0)?), 134 => Self::V134(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 135 => Self::V135(disc(v_)?), 136 => Self::V136(disc(v_)?, x(l_, 0)?), 137 => Self::V137(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 138 => Self::V138(disc(v_)?), 139 => Self::V139(disc(v_)?, x(l_, 0)?), 140 => Self::V140(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 141 => Self::V141(disc(v_)?), 142 => Self::V142(disc(v_)?, x(l_, 0)?), 143 => Self::V143(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 144 => Self::V144(disc(v_)?), 145 => Self::V145(disc(v_)?, x(l_, 0)?), 146 => Self::V146(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 147 => Self::V147(disc(v_)?), 148 => Self::V148(disc(v_)?, x(l_, 0)?), 149 => Self::V149(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 150 => Self::V150(disc(v_)?), 151 => Self::V151(disc(v_)?, x(l_, 0)?), 152 => Self::V152(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 153 => Self::V153(disc(v_)?), 154 => Self::V154(disc(v_)?, x(l_, 0)?), 155 => Self::V155(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 156 => Self::V156(disc(v_)?), 157 => Self::V157(disc(v_)?, x(l_, 0)?), 158 => Self::V158(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 159 => Self::V159(disc(v_)?), 160 => Self::V160(disc(v_)?, x(l_, 0)?), 161 => Self::V161(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 162 => Self::V162(disc(v_)?), 163 => Self::V163(disc(v_)?, x(l_, 0)?), 164 => Self::V164(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 165 => Self::V165(disc(v_)?), 166 => Self::V166(disc(v_)?, x(l_, 0)?), 167 => Self::V167(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 168 => Self::V168(disc(v_)?), 169 => Self::V169(disc(v_)?, x(l_, 0)?), 170 => Self::V170(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 171 => Self::V171(disc(v_)?), 172 => Self::V172(disc(v_)?, x(l_, 0)?), 173 => Self::V173(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 174 => Self::V174(disc(v_)?), 175 => Self::V175(disc(v_)?, x(l_, 0)?), 176 => Self::V176(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 177 => Self::V177(disc(v_)?), 178 => Self::V178(disc(v_)?, x(l_, 0)?), 179 => Self::V179(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 180 => Self::V180(disc(v_)?), 181 => Self::V181(disc(v_)?, x(l_, 0)?), 182 => Self::V182(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 183 => Self::V183(disc(v_)?), 184 => Self::V184(disc(v_)?, x(l_, 0)?), 185 => Self::V185(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 186 => Self::V186(disc(v_)?), 187 => Self::V187(disc(v_)?, x(l_, 0)?), 188 => Self::V188(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 189 => Self::V189(disc(v_)?), 190 => Self::V190(disc(v_)?, x(l_, 0)?), 191 => Self::V191(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 192 => Self::V192(disc(v_)?), 193 => Self::V193(disc(v_)?, x(l_, 0)?), 194 => Self::V194(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 195 => Self::V195(disc(v_)?), 196 => Self::V196(disc(v_)?, x(l_, 0)?), 197 => Self::V197(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 198 => Self::V198(disc(v_)?), 199 => Self::V199(disc(v_)?, x(l_, 0)?), 200 => Self::V200(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 201 => Self::V201(disc(v_)?), 202 => Self::V202(disc(v_)?, x(l_, 0)?), 203 => Self::V203(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 204 => Self::V204(disc(v_)?), 205 => Self::V205(disc(v_)?, x(l_, 0)?), 206 => Self::V206(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 207 => Self::V207(disc(v_)?), 208 => Self::V208(disc(v_)?, x(l_, 0)?), 209 => Self::V209(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 210 => Self::V210(disc(v_)?), 211 => Self::V211(disc(v_)?, x(l_, 0)?), 212 => Self::V212(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 213 => Self::V213(disc(v_)?), 214 => Self::V214(disc(v_)?, x(l_, 0)?), 215 => Self::V215(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 216 => Self::V216(disc(v_)?), 217 => Self::V217(disc(v_)?, x(l_, 0)?), 218 => Self::V218(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 219 => Self::V219(disc(v_)?), 220 => Self::V220(disc(v_)?, x(l_, 0)?), 221 => Self::V221(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 222 => Self::V222(disc(v_)?), 223 => Self::V223(disc(v_)?, x(l_, 0)?), 224 => Self::V224(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 225 => Self::V225(disc(v_)?), 226 => Self::V226(disc(v_)?, x(l_, 0)?), 227 => Self::V227(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 228 => Self::V228(disc(v_)?), 229 => Self::V229(disc(v_)?, x(l_, 0)?), 230 => Self::V230(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 231 => Self::V231(disc(v_)?), 232 => Self::V232(disc(v_)?, x(l_, 0)?), 233 => Self::V233(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 234 => Self::V234(disc(v_)?), 235 => Self::V235(disc(v_)?, x(l_, 0)?), 236 => Self::V236(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 237 => Self::V237(disc(v_)?), 238 => Self::V238(disc(v_)?, x(l_, 0)?), 239 => Self::V239(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 240 => Self::V240(disc(v_)?), 241 => Self::V241(disc(v_)?, x(l_, 0)?), 242 => Self::V242(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 243 => Self::V243(disc(v_)?), 244 => Self::V244(disc(v_)?, x(l_, 0)?), 245 => Self::V245(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 246 => Self::V246(disc(v_)?), 247 => Self::V247(disc(v_)?, x(l_, 0)?), 248 => Self::V248(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 249 => Self::V249(disc(v_)?), 250 => Self::V250(disc(v_)?, x(l_, 0)?), 251 => Self::V251(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 252 => Self::V252(disc(v_)?), 253 => Self::V253(disc(v_)?, x(l_, 0)?), 254 => Self::V254(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 255 => Self::V255(disc(v_)?), 256 => Self::V256(disc(v_)?, x(l_, 0)?), 257 => Self::V257(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 258 => Self::V258(disc(v_)?), 259 => Self::V259(disc(v_)?, x(l_, 0)?), 260 => Self::V260(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 261 => Self::V261(disc(v_)?), 262 => Self::V262(disc(v_)?, x(l_, 0)?), 263 => Self::V263(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 264 => Self::V264(disc(v_)?), 265 => Self::V265(disc(v_)?, x(l_, 0)?), 266 => Self::V266(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 267 => Self::V267(disc(v_)?), 268 => Self::V268(disc(v_)?, x(l_, 0)?), 269 => Self::V269(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 270 => Self::V270(disc(v_)?), 271 => Self::V271(disc(v_)?, x(l_, 0)?), 272 => Self::V272(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 273 => Self::V273(disc(v_)?), 274 => Self::V274(disc(v_)?, x(l_, 0)?), 275 => Self::V275(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 276 => Self::V276(disc(v_)?), 277 => Self::V277(disc(v_)?, x(l_, 0)?), 278 => Self::V278(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 279 => Self::V279(disc(v_)?), 280 => Self::V280(disc(v_)?, x(l_, 0)?), 281 => Self::V281(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 282 => Self::V282(disc(v_)?), 283 => Self::V283(disc(v_)?, x(l_, 0)?), 284 => Self::V284(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 285 => Self::V285(disc(v_)?), 286 => Self::V286(disc(v_)?, x(l_, 0)?), 287 => Self::V287(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 288 => Self::V288(disc(v_)?), 289 => Self::V289(disc(v_)?, x(l_, 0)?), 290 => Self::V290(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 291 => Self::V291(disc(v_)?), 292 => Self::V292(disc(v_)?, x(l_, 0)?), 293 => Self::V293(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 294 => Self::V294(disc(v_)?), 295 => Self::V295(disc(v_)?, x(l_, 0)?), 296 => Self::V296(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 297 => Self::V297(disc(v_)?), 298 => Self::V298(disc(v_)?, x(l_, 0)?), 299 => Self::V299(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32Order0 { V0(u32, u8, String, i16, u64, bool, char, u8, String, i16, u64, bool, char, u8, String, i16, u64, bool, char, u8, String), V1(u32, String, i16), V2(u32) }
impl serde_xdr::XdrUnion<u32> for UU32Order0 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 10 => Ok("V0"), 11 => Ok("V1"), 12 => Ok("V2"), _ => Err(()) } }
}
impl Model for UU32Order0 {
    fn ty() -> Ty { union(Ty::U32of(vec![10, 11, 12]), vec![vec![m::<u8>(), m::<String>(), m::<i16>(), m::<u64>(), m::<bool>(), m::<char>(), m::<u8>(), m::<String>(), m::<i16>(), m::<u64>(), m::<bool>(), m::<char>(), m::<u8>(), m::<String>(), m::<i16>(), m::<u64>(), m::<bool>(), m::<char>(), m::<u8>(), m::<String>()], vec![m::<String>(), m::<i16>()], vec![], ], vec![(Val::U(10), 0), (Val::U(11), 1), (Val::U(12), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_, a12_, a13_, a14_, a15_, a16_, a17_, a18_, a19_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val(), a12_.to_val(), a13_.to_val(), a14_.to_val(), a15_.to_val(), a16_.to_val(), a17_.to_val(), a18_.to_val(), a19_.to_val()]), Self::V1(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V2(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?, x(l_, 12)?, x(l_, 13)?, x(l_, 14)?, x(l_, 15)?, x(l_, 16)?, x(l_, 17)?, x(l_, 18)?, x(l_, 19)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32Order1 { V0(u32, u8, String), V1(u32, String, i16, u64, bool, char, u8, String, i16, u64, bool, char, u8, String, i16, u64, bool, char, u8, String, i16), V2(u32) }
impl serde_xdr::XdrUnion<u32> for UU32Order1 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 10 => Ok("V0"), 11 => Ok("V1"), 12 => Ok("V2"), _ => Err(()) } }
}
impl Model for UU32Order1 {
    fn ty() -> Ty { union(Ty::U32of(vec![10, 11, 12]), vec![vec![m::<u8>(), m::<String>()], vec![m::<String>(), m::<i16>(), m::<u64>(), m::<bool>(), m::<char>(), m::<u8>(), m::<String>(), m::<i16>(), m::<u64>(), m::<bool>(), m::<char>(), m::<u8>(), m::<String>(), m::<i16>(), m::<u64>(), m::<bool>(), m::<char>(), m::<u8>(), m::<String>(), m::<i16>()], vec![], ], vec![(Val::U(10), 0), (Val::U(11), 1), (Val::U(12), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V1(d_, a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_, a12_, a13_, a14_, a15_, a16_, a17_, a18_, a19_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val(), a12_.to_val(), a13_.to_val(), a14_.to_val(), a15_.to_val(), a16_.to_val(), a17_.to_val(), a18_.to_val(), a19_.to_val()]), Self::V2(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?, x(l_, 12)?, x(l_, 13)?, x(l_, 14)?, x(l_, 15)?, x(l_, 16)?, x(l_, 17)?, x(l_, 18)?, x(l_, 19)?), 2 => Self::V2(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32Order2 { V0(u32), V1(u32, String, i16), V2(u32, i16, u64, bool, char, u8, String, i16, u64, bool, char, u8, String, i16, u64, bool, char, u8, String, i16, u64) }
impl serde_xdr::XdrUnion<u32> for UU32Order2 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 10 => Ok("V0"), 11 => Ok("V1"), 12 => Ok("V2"), _ => Err(()) } }
}
impl Model for UU32Order2 {
    fn ty() -> Ty { union(Ty::U32of(vec![10, 11, 12]), vec![vec![], vec![m::<String>(), m::<i16>()], vec![m::<i16>(), m::<u64>(), m::<bool>(), m::<char>(), m::<u8>(), m::<String>(), m::<i16>(), m::<u64>(), m::<bool>(), m::<char>(), m::<u8>(), m::<String>(), m::<i16>(), m::<u64>(), m::<bool>(), m::<char>(), m::<u8>(), m::<String>(), m::<i16>(), m::<u64>()], ], vec![(Val::U(10), 0), (Val::U(11), 1), (Val::U(12), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]), Self::V1(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V2(d_, a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_, a12_, a13_, a14_, a15_, a16_, a17_, a18_, a19_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val(), a12_.to_val(), a13_.to_val(), a14_.to_val(), a15_.to_val(), a16_.to_val(), a17_.to_val(), a18_.to_val(), a19_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?, x(l_, 12)?, x(l_, 13)?, x(l_, 14)?, x(l_, 15)?, x(l_, 16)?, x(l_, 17)?, x(l_, 18)?, x(l_, 19)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32Order3 { V0(u32, u8, String, i16, u64, bool, char, u8, String, i16, u64, bool, char), V1(u32), V2(u32, i16, u64, bool, char, u8, String, i16, u64, bool, char, u8) }
impl serde_xdr::XdrUnion<u32> for UU32Order3 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 10 => Ok("V0"), 11 => Ok("V1"), 12 => Ok("V2"), _ => Err(()) } }
}
impl Model for UU32Order3 {
    fn ty() -> Ty { union(Ty::U32of(vec![10, 11, 12]), vec![vec![m::<u8>(), m::<String>(), m::<i16>(), m::<u64>(), m::<bool>(), m::<char>(), m::<u8>(), m::<String>(), m::<i16>(), m::<u64>(), m::<bool>(), m::<char>()], vec![], vec![m::<i16>(), m::<u64>(), m::<bool>(), m::<char>(), m::<u8>(), m::<String>(), m::<i16>(), m::<u64>(), m::<bool>(), m::<char>(), m::<u8>()], ], vec![(Val::U(10), 0), (Val::U(11), 1), (Val::U(12), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]), Self::V2(d_, a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?), 1 => Self::V1(disc(v_)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32Shared { V0(u32, u8), V1(u32, String), V2(u32) }
impl serde_xdr::XdrUnion<u32> for UU32Shared {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 0 | 1 | 2 | 4294967295 | 2147483648 => Ok("V0"), 2147483647 | 5 | 100 => Ok("V1"), 256 => Ok("V2"), _ => Err(()) } }
}
impl Model for UU32Shared {
    fn ty() -> Ty { union(Ty::U32of(vec![0, 1, 2, 4294967295, 2147483648, 2147483647, 5, 100, 256]), vec![vec![m::<u8>()], vec![m::<String>()], vec![], ], vec![(Val::U(0), 0), (Val::U(1), 0), (Val::U(2), 0), (Val::U(4294967295), 0), (Val::U(2147483648), 0), (Val::U(2147483647), 1), (Val::U(5), 1), (Val::U(100), 1), (Val::U(256), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V2(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), 2 => Self::V2(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32Shared2 { V0(u32), V1(u32, String), V2(u32, i64, bool) }
impl serde_xdr::XdrUnion<u32> for UU32Shared2 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 0 | 4294967295 => Ok("V0"), 1 | 2147483648 => Ok("V1"), 1000 | 1001 | 1002 | 1003 | 1004 | 1005 | 1006 | 1007 | 1008 | 1009 | 1010 | 1011 | 1012 | 1013 | 1014 | 1015 | 1016 | 1017 | 1018 | 1019 | 1020 | 1021 | 1022 | 1023 | 1024 | 1025 | 1026 | 1027 | 1028 | 1029 | 1030 | 1031 | 1032 | 1033 | 1034 | 1035 | 1036 | 1037 | 1038 | 1039 | 1040 | 1041 | 1042 | 1043 | 1044 | 1045 | 1046 | 1047 | 1048 | 1049 | 1050 | 1051 | 1052 | 1053 | 1054 | 1055 | 1056 | 1057 | 1058 | 1059 | 1060 | 1061 | 1062 | 1063 | 1064 | 1065 | 1066 | 1067 | 1068 | 1069 | 1070 | 1071 | 1072 | 1073 | 1074 | 1075 | 1076 | 1077 | 1078 | 1079 | 1080 | 1081 | 1082 | 1083 | 1084 | 1085 | 1086 | 1087 | 1088 | 1089 | 1090 | 1091 | 1092 | 1093 | 1094 | 1095 | 1096 | 1097 | 1098 | 1099 => Ok("V2"), _ => Err(()) } }
}
impl Model for UU32Shared2 {
    fn ty() -> Ty { union(Ty::U32of(vec![0, 4294967295, 1, 2147483648, 1000, 1001, 1002, 1003, 1004, 1005, 1006, 1007, 1008, 1009, 1010, 1011, 1012, 1013, 1014, 1015, 1016, 1017, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1027, 1028, 1029, 1030, 1031, 1032, 1033, 1034, 1035, 1036, 1037, 1038, 1039, 1040, 1041, 1042, 1043, 1044, 1045, 1046, 1047, 1048, 1049, 1050, 1051, 1052, 1053, 1054, 1055, 1056, 1057, 1058, 1059, 1060, 1061, 1062, 1063, 1064, 1065, 1066, 1067, 1068, 1069, 1070, 1071, 1072, 1073, 1074, 1075, 1076, 1077, 1078, 1079, 1080, 1081, 1082, 1083, 1084, 1085, 1086, 1087, 1088, 1089, 1090, 1091, 1092, 1093, 1094, 1095, 1096, 1097, 1098, 1099]), vec![vec![], vec![m::<String>()], vec![m::<i64>(), m::<bool>()], ], vec![(Val::U(0), 0), (Val::U(4294967295), 0), (Val::U(1), 1), (Val::U(2147483648), 1), (Val::U(1000), 2), (Val::U(1001), 2), (Val::U(1002), 2), (Val::U(1003), 2), (Val::U(1004), 2), (Val::U(1005), 2), (Val::U(1006), 2), (Val::U(1007), 2), (Val::U(1008), 2), (Val::U(1009), 2), (Val::U(1010), 2), (Val::U(1011), 2), (Val::U(1012), 2), (Val::U(1013), 2), (Val::U(1014), 2), (Val::U(1015), 2), (Val::U(1016), 2), (Val::U(1017), 2), (Val::U(1018), 2), (Val::U(1019), 2), (Val::U(1020), 2), (Val::U(1021), 2), (Val::U(1022), 2), (Val::U(1023), 2), (Val::U(1024), 2), (Val::U(1025), 2), (Val::U(1026), 2), (Val::U(1027), 2), (Val::U(1028), 2), (Val::U(1029), 2), (Val::U(1030), 2), (Val::U(1031), 2), (Val::U(1032), 2), (Val::U(1033), 2), (Val::U(1034), 2), (Val::U(1035), 2), (Val::U(1036), 2), (Val::U(1037), 2), (Val::U(1038), 2), (Val::U(1039), 2), (Val::U(1040), 2), (Val::U(1041), 2), (Val::U(1042), 2), (Val::U(1043), 2), (Val::U(1044), 2), (Val::U(1045), 2), (Val::U(1046), 2), (Val::U(1047), 2), (Val::U(1048), 2), (Val::U(1049), 2), (Val::U(1050), 2), (Val::U(1051), 2), (Val::U(1052), 2), (Val::U(1053), 2), (Val::U(1054), 2), (Val::U(1055), 2), (Val::U(1056), 2), (Val::U(1057), 2), (Val::U(1058), 2), (Val::U(1059), 2), (Val::U(1060), 2), (Val::U(1061), 2), (Val::U(1062), 2), (Val::U(1063), 2), (Val::U(1064), 2), (Val::U(1065), 2), (Val::U(1066), 2), (Val::U(1067), 2), (Val::U(1068), 2), (Val::U(1069), 2), (Val::U(1070), 2), (Val::U(1071), 2), (Val::U(1072), 2), (Val::U(1073), 2), (Val::U(1074), 2), (Val::U(1075), 2), (Val::U(1076), 2), (Val::U(1077), 2), (Val::U(1078), 2), (Val::U(1079), 2), (Val::U(1080), 2), (Val::U(1081), 2), (Val::U(1082), 2), (Val::U(1083), 2), (Val::U(1084), 2), (Val::U(1085), 2), (Val::U(1086), 2), (Val::U(1087), 2), (Val::U(1088), 2), (Val::U(1089), 2), (Val::U(1090), 2), (Val::U(1091), 2), (Val::U(1092), 2), (Val::U(1093), 2), (Val::U(1094), 2), (Val::U(1095), 2), (Val::U(1096), 2), (Val::U(1097), 2), (Val::U(1098), 2), (Val::U(1099), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V2(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32Default { V0(u32, u8), V1(u32, String), V2(u32, i64) }
impl serde_xdr::XdrUnion<u32> for UU32Default {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 1 => Ok("V0"), 3 | 4 => Ok("V1"), _ => Ok("V2") } }
}
impl Model for UU32Default {
    fn ty() -> Ty { union(Ty::U32of(vec![1, 3, 4]), vec![vec![m::<u8>()], vec![m::<String>()], vec![m::<i64>()], ], vec![(Val::U(1), 0), (Val::U(3), 1), (Val::U(4), 1), ], Some(2)) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V2(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32DefaultVoid { V0(u32, u8), V1(u32) }
impl serde_xdr::XdrUnion<u32> for UU32DefaultVoid {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 1 => Ok("V0"), _ => Ok("V1") } }
}
impl Model for UU32DefaultVoid {
    fn ty() -> Ty { union(Ty::U32of(vec![1]), vec![vec![m::<u8>()], vec![], ], vec![(Val::U(1), 0), ], Some(1)) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32DefaultOnly { V0(u32, String, u8) }
impl serde_xdr::XdrUnion<u32> for UU32DefaultOnly {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { _ => Ok("V0") } }
}
impl Model for UU32DefaultOnly {
    fn ty() -> Ty { union(Ty::U32of(vec![]), vec![vec![m::<String>(), m::<u8>()], ], vec![], Some(0)) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU32DefaultShared { V0(u32, u8), V1(u32, String) }
impl serde_xdr::XdrUnion<u32> for UU32DefaultShared {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 1 => Ok("V0"), 3 | 4 => Ok("V1"), _ => Ok("V1") } }
}
impl Model for UU32DefaultShared {
    fn ty() -> Ty { union(Ty::U32of(vec![1, 3, 4]), vec![vec![m::<u8>()], vec![m::<String>()], ], vec![(Val::U(1), 0), (Val::U(3), 1), (Val::U(4), 1), ], Some(1)) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum ULeaf0 { V0(i32, bool), V1(i32, bool, u8), V2(i32, String, bool, String), V3(i32, bool, bool) }
impl serde_xdr::XdrUnion<i32> for ULeaf0 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), 9 => Ok("V3"), _ => Err(()) } }
}
impl Model for ULeaf0 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, 9]), vec![vec![m::<bool>()], vec![m::<bool>(), m::<u8>()], vec![m::<String>(), m::<bool>(), m::<String>()], vec![m::<bool>(), m::<bool>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(9), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V2(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum ULeaf1 { V0(u32, i8), V1(u32, i8, u8), V2(u32, String, i8, String), V3(u32, i8, i8) }
impl serde_xdr::XdrUnion<u32> for ULeaf1 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), 9 => Ok("V3"), _ => Err(()) } }
}
impl Model for ULeaf1 {
    fn ty() -> Ty { union(Ty::U32of(vec![0, 1, 2, 9]), vec![vec![m::<i8>()], vec![m::<i8>(), m::<u8>()], vec![m::<String>(), m::<i8>(), m::<String>()], vec![m::<i8>(), m::<i8>()], ], vec![(Val::U(0), 0), (Val::U(1), 1), (Val::U(2), 2), (Val::U(9), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V2(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum ULeaf2 { V0(i32, i16), V1(i32, i16, u8), V2(i32, String, i16, String), V3(i32, i16, i16) }
impl serde_xdr::XdrUnion<i32> for ULeaf2 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), 9 => Ok("V3"), _ => Err(()) } }
}
impl Model for ULeaf2 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, 9]), vec![vec![m::<i16>()], vec![m::<i16>(), m::<u8>()], vec![m::<String>(), m::<i16>(), m::<String>()], vec![m::<i16>(), m::<i16>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(9), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V2(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum ULeaf3 { V0(u32, i32), V1(u32, i32, u8), V2(u32, String, i32, String), V3(u32, i32, i32) }
impl serde_xdr::XdrUnion<u32> for ULeaf3 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), 9 => Ok("V3"), _ => Err(()) } }
}
impl Model for ULeaf3 {
    fn ty() -> Ty { union(Ty::U32of(vec![0, 1, 2, 9]), vec![vec![m::<i32>()], vec![m::<i32>(), m::<u8>()], vec![m::<String>(), m::<i32>(), m::<String>()], vec![m::<i32>(), m::<i32>()], ], vec![(Val::U(0), 0), (Val::U(1), 1), (Val::U(2), 2), (Val::U(9), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V2(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum ULeaf4 { V0(i32, i64), V1(i32, i64, u8), V2(i32, String, i64, String), V3(i32, i64, i64) }
impl serde_xdr::XdrUnion<i32> for ULeaf4 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), 9 => Ok("V3"), _ => Err(()) } }
}
impl Model for ULeaf4 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, 9]), vec![vec![m::<i64>()], vec![m::<i64>(), m::<u8>()], vec![m::<String>(), m::<i64>(), m::<String>()], vec![m::<i64>(), m::<i64>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(9), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V2(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum ULeaf5 { V0(u32, u8), V1(u32, u8, u8), V2(u32, String, u8, String), V3(u32, u8, u8) }
impl serde_xdr::XdrUnion<u32> for ULeaf5 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), 9 => Ok("V3"), _ => Err(()) } }
}
impl Model for ULeaf5 {
    fn ty() -> Ty { union(Ty::U32of(vec![0, 1, 2, 9]), vec![vec![m::<u8>()], vec![m::<u8>(), m::<u8>()], vec![m::<String>(), m::<u8>(), m::<String>()], vec![m::<u8>(), m::<u8>()], ], vec![(Val::U(0), 0), (Val::U(1), 1), (Val::U(2), 2), (Val::U(9), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V2(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum ULeaf6 { V0(i32, u16), V1(i32, u16, u8), V2(i32, String, u16, String), V3(i32, u16, u16) }
impl serde_xdr::XdrUnion<i32> for ULeaf6 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), 9 => Ok("V3"), _ => Err(()) } }
}
impl Model for ULeaf6 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, 9]), vec![vec![m::<u16>()], vec![m::<u16>(), m::<u8>()], vec![m::<String>(), m::<u16>(), m::<String>()], vec![m::<u16>(), m::<u16>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(9), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V2(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum ULeaf7 { V0(u32, u32), V1(u32, u32, u8), V2(u32, String, u32, String), V3(u32, u32, u32) }
impl serde_xdr::XdrUnion<u32> for ULeaf7 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), 9 => Ok("V3"), _ => Err(()) } }
}
impl Model for ULeaf7 {
    fn ty() -> Ty { union(Ty::U32of(vec![0, 1, 2, 9]), vec![vec![m::<u32>()], vec![m::<u32>(), m::<u8>()], vec![m::<String>(), m::<u32>(), m::<String>()], vec![m::<u32>(), m::<u32>()], ], vec![(Val::U(0), 0), (Val::U(1), 1), (Val::U(2), 2), (Val::U(9), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V2(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum ULeaf8 { V0(i32, u64), V1(i32, u64, u8), V2(i32, String, u64, String), V3(i32, u64, u64) }
impl serde_xdr::XdrUnion<i32> for ULeaf8 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), 9 => Ok("V3"), _ => Err(()) } }
}
impl Model for ULeaf8 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, 9]), vec![vec![m::<u64>()], vec![m::<u64>(), m::<u8>()], vec![m::<String>(), m::<u64>(), m::<String>()], vec![m::<u64>(), m::<u64>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(9), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V2(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum ULeaf9 { V0(u32, f32), V1(u32, f32, u8), V2(u32, String, f32, String), V3(u32, f32, f32) }
impl serde_xdr::XdrUnion<u32> for ULeaf9 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), 9 => Ok("V3"), _ => Err(()) } }
}
impl Model for ULeaf9 {
    fn ty() -> Ty { union(Ty::U32of(vec![0, 1, 2, 9]), vec![vec![m::<f32>()], vec![m::<f32>(), m::<u8>()], vec![m::<String>(), m::<f32>(), m::<String>()], vec![m::<f32>(), m::<f32>()], ], vec![(Val::U(0), 0), (Val::U(1), 1), (Val::U(2), 2), (Val::U(9), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V2(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum ULeaf10 { V0(i32, f64), V1(i32, f64, u8), V2(i32, String, f64, String), V3(i32, f64, f64) }
impl serde_xdr::XdrUnion<i32> for ULeaf10 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), 9 => Ok("V3"), _ => Err(()) } }
}
impl Model for ULeaf10 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, 9]), vec![vec![m::<f64>()], vec![m::<f64>(), m::<u8>()], vec![m::<String>(), m::<f64>(), m::<String>()], vec![m::<f64>(), m::<f64>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(9), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V2(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum ULeaf11 { V0(u32, char), V1(u32, char, u8), V2(u32, String, char, String), V3(u32, char, char) }
impl serde_xdr::XdrUnion<u32> for ULeaf11 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), 9 => Ok("V3"), _ => Err(()) } }
}
impl Model for ULeaf11 {
    fn ty() -> Ty { union(Ty::U32of(vec![0, 1, 2, 9]), vec![vec![m::<char>()], vec![m::<char>(), m::<u8>()], vec![m::<String>(), m::<char>(), m::<String>()], vec![m::<char>(), m::<char>()], ], vec![(Val::U(0), 0), (Val::U(1), 1), (Val::U(2), 2), (Val::U(9), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V2(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum ULeaf12 { V0(i32, String), V1(i32, String, u8), V2(i32, String, String, String), V3(i32, String, String) }
impl serde_xdr::XdrUnion<i32> for ULeaf12 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), 9 => Ok("V3"), _ => Err(()) } }
}
impl Model for ULeaf12 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, 9]), vec![vec![m::<String>()], vec![m::<String>(), m::<u8>()], vec![m::<String>(), m::<String>(), m::<String>()], vec![m::<String>(), m::<String>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(9), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V2(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum ULeaf13 { V0(u32, ()), V1(u32, (), u8), V2(u32, String, (), String), V3(u32, (), ()) }
impl serde_xdr::XdrUnion<u32> for ULeaf13 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), 9 => Ok("V3"), _ => Err(()) } }
}
impl Model for ULeaf13 {
    fn ty() -> Ty { union(Ty::U32of(vec![0, 1, 2, 9]), vec![vec![m::<()>()], vec![m::<()>(), m::<u8>()], vec![m::<String>(), m::<()>(), m::<String>()], vec![m::<()>(), m::<()>()], ], vec![(Val::U(0), 0), (Val::U(1), 1), (Val::U(2), 2), (Val::U(9), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V2(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum ULeaf14 { V0(i32, Option<u8>), V1(i32, Option<u8>, u8), V2(i32, String, Option<u8>, String), V3(i32, Option<u8>, Option<u8>) }
impl serde_xdr::XdrUnion<i32> for ULeaf14 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), 9 => Ok("V3"), _ => Err(()) } }
}
impl Model for ULeaf14 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, 9]), vec![vec![m::<Option<u8>>()], vec![m::<Option<u8>>(), m::<u8>()], vec![m::<String>(), m::<Option<u8>>(), m::<String>()], vec![m::<Option<u8>>(), m::<Option<u8>>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(9), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V2(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum ULeaf15 { V0(u32, Option<String>), V1(u32, Option<String>, u8), V2(u32, String, Option<String>, String), V3(u32, Option<String>, Option<String>) }
impl serde_xdr::XdrUnion<u32> for ULeaf15 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), 9 => Ok("V3"), _ => Err(()) } }
}
impl Model for ULeaf15 {
    fn ty() -> Ty { union(Ty::U32of(vec![0, 1, 2, 9]), vec![vec![m::<Option<String>>()], vec![m::<Option<String>>(), m::<u8>()], vec![m::<String>(), m::<Option<String>>(), m::<String>()], vec![m::<Option<String>>(), m::<Option<String>>()], ], vec![(Val::U(0), 0), (Val::U(1), 1), (Val::U(2), 2), (Val::U(9), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V2(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum ULeaf16 { V0(i32, Vec<u8>), V1(i32, Vec<u8>, u8), V2(i32, String, Vec<u8>, String), V3(i32, Vec<u8>, Vec<u8>) }
impl serde_xdr::XdrUnion<i32> for ULeaf16 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), 9 => Ok("V3"), _ => Err(()) } }
}
impl Model for ULeaf16 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, 9]), vec![vec![m::<Vec<u8>>()], vec![m::<Vec<u8>>(), m::<u8>()], vec![m::<String>(), m::<Vec<u8>>(), m::<String>()], vec![m::<Vec<u8>>(), m::<Vec<u8>>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(9), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V2(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum ULeaf17 { V0(u32, Vec<String>), V1(u32, Vec<String>, u8), V2(u32, String, Vec<String>, String), V3(u32, Vec<String>, Vec<String>) }
impl serde_xdr::XdrUnion<u32> for ULeaf17 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), 9 => Ok("V3"), _ => Err(()) } }
}
impl Model for ULeaf17 {
    fn ty() -> Ty { union(Ty::U32of(vec![0, 1, 2, 9]), vec![vec![m::<Vec<String>>()], vec![m::<Vec<String>>(), m::<u8>()], vec![m::<String>(), m::<Vec<String>>(), m::<String>()], vec![m::<Vec<String>>(), m::<Vec<String>>()], ], vec![(Val::U(0), 0), (Val::U(1), 1), (Val::U(2), 2), (Val::U(9), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V2(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum ULeaf18 { V0(i32, [u8; 3]), V1(i32, [u8; 3], u8), V2(i32, String, [u8; 3], String), V3(i32, [u8; 3], [u8; 3]) }
impl serde_xdr::XdrUnion<i32> for ULeaf18 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), 9 => Ok("V3"), _ => Err(()) } }
}
impl Model for ULeaf18 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, 9]), vec![vec![m::<[u8; 3]>()], vec![m::<[u8; 3]>(), m::<u8>()], vec![m::<String>(), m::<[u8; 3]>(), m::<String>()], vec![m::<[u8; 3]>(), m::<[u8; 3]>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(9), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V2(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum ULeaf19 { V0(u32, (u8, i64)), V1(u32, (u8, i64), u8), V2(u32, String, (u8, i64), String), V3(u32, (u8, i64), (u8, i64)) }
impl serde_xdr::XdrUnion<u32> for ULeaf19 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), 9 => Ok("V3"), _ => Err(()) } }
}
impl Model for ULeaf19 {
    fn ty() -> Ty { union(Ty::U32of(vec![0, 1, 2, 9]), vec![vec![m::<(u8, i64)>()], vec![m::<(u8, i64)>(), m::<u8>()], vec![m::<String>(), m::<(u8, i64)>(), m::<String>()], vec![m::<(u8, i64)>(), m::<(u8, i64)>()], ], vec![(Val::U(0), 0), (Val::U(1), 1), (Val::U(2), 2), (Val::U(9), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V2(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum ULeaf20 { V0(i32, BTreeMap<u16, String>), V1(i32, BTreeMap<u16, String>, u8), V2(i32, String, BTreeMap<u16, String>, String), V3(i32, BTreeMap<u16, String>, BTreeMap<u16, String>) }
impl serde_xdr::XdrUnion<i32> for ULeaf20 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), 9 => Ok("V3"), _ => Err(()) } }
}
impl Model for ULeaf20 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, 9]), vec![vec![m::<BTreeMap<u16, String>>()], vec![m::<BTreeMap<u16, String>>(), m::<u8>()], vec![m::<String>(), m::<BTreeMap<u16, String>>(), m::<String>()], vec![m::<BTreeMap<u16, String>>(), m::<BTreeMap<u16, String>>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(9), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V2(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum ULeaf21 { V0(u32, Kinds), V1(u32, Kinds, u8), V2(u32, String, Kinds, String), V3(u32, Kinds, Kinds) }
impl serde_xdr::XdrUnion<u32> for ULeaf21 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), 9 => Ok("V3"), _ => Err(()) } }
}
impl Model for ULeaf21 {
    fn ty() -> Ty { union(Ty::U32of(vec![0, 1, 2, 9]), vec![vec![m::<Kinds>()], vec![m::<Kinds>(), m::<u8>()], vec![m::<String>(), m::<Kinds>(), m::<String>()], vec![m::<Kinds>(), m::<Kinds>()], ], vec![(Val::U(0), 0), (Val::U(1), 1), (Val::U(2), 2), (Val::U(9), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V2(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum ULeaf22 { V0(i32, Mixed), V1(i32, Mixed, u8), V2(i32, String, Mixed, String), V3(i32, Mixed, Mixed) }
impl serde_xdr::XdrUnion<i32> for ULeaf22 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), 9 => Ok("V3"), _ => Err(()) } }
}
impl Model for ULeaf22 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, 9]), vec![vec![m::<Mixed>()], vec![m::<Mixed>(), m::<u8>()], vec![m::<String>(), m::<Mixed>(), m::<String>()], vec![m::<Mixed>(), m::<Mixed>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(9), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V2(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum ULeaf23 { V0(u32, One), V1(u32, One, u8), V2(u32, String, One, String), V3(u32, One, One) }
impl serde_xdr::XdrUnion<u32> for ULeaf23 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), 9 => Ok("V3"), _ => Err(()) } }
}
impl Model for ULeaf23 {
    fn ty() -> Ty { union(Ty::U32of(vec![0, 1, 2, 9]), vec![vec![m::<One>()], vec![m::<One>(), m::<u8>()], vec![m::<String>(), m::<One>(), m::<String>()], vec![m::<One>(), m::<One>()], ], vec![(Val::U(0), 0), (Val::U(1), 1), (Val::U(2), 2), (Val::U(9), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V2(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum ULeaf24 { V0(i32, Empty), V1(i32, Empty, u8), V2(i32, String, Empty, String), V3(i32, Empty, Empty) }
impl serde_xdr::XdrUnion<i32> for ULeaf24 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), 9 => Ok("V3"), _ => Err(()) } }
}
impl Model for ULeaf24 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, 9]), vec![vec![m::<Empty>()], vec![m::<Empty>(), m::<u8>()], vec![m::<String>(), m::<Empty>(), m::<String>()], vec![m::<Empty>(), m::<Empty>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(9), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V2(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum ULeaf25 { V0(u32, Nothing), V1(u32, Nothing, u8), V2(u32, String, Nothing, String), V3(u32, Nothing, Nothing) }
impl serde_xdr::XdrUnion<u32> for ULeaf25 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), 9 => Ok("V3"), _ => Err(()) } }
}
impl Model for ULeaf25 {
    fn ty() -> Ty { union(Ty::U32of(vec![0, 1, 2, 9]), vec![vec![m::<Nothing>()], vec![m::<Nothing>(), m::<u8>()], vec![m::<String>(), m::<Nothing>(), m::<String>()], vec![m::<Nothing>(), m::<Nothing>()], ], vec![(Val::U(0), 0), (Val::U(1), 1), (Val::U(2), 2), (Val::U(9), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V2(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum ULeaf26 { V0(i32, Wrap), V1(i32, Wrap, u8), V2(i32, String, Wrap, String), V3(i32, Wrap, Wrap) }
impl serde_xdr::XdrUnion<i32> for ULeaf26 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), 9 => Ok("V3"), _ => Err(()) } }
}
impl Model for ULeaf26 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, 9]), vec![vec![m::<Wrap>()], vec![m::<Wrap>(), m::<u8>()], vec![m::<String>(), m::<Wrap>(), m::<String>()], vec![m::<Wrap>(), m::<Wrap>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(9), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V2(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum ULeaf27 { V0(u32, Box<i32>), V1(u32, Box<i32>, u8), V2(u32, String, Box<i32>, String), V3(u32, Box<i32>, Box<i32>) }
impl serde_xdr::XdrUnion<u32> for ULeaf27 {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), 9 => Ok("V3"), _ => Err(()) } }
}
impl Model for ULeaf27 {
    fn ty() -> Ty { union(Ty::U32of(vec![0, 1, 2, 9]), vec![vec![m::<Box<i32>>()], vec![m::<Box<i32>>(), m::<u8>()], vec![m::<String>(), m::<Box<i32>>(), m::<String>()], vec![m::<Box<i32>>(), m::<Box<i32>>()], ], vec![(Val::U(0), 0), (Val::U(1), 1), (Val::U(2), 2), (Val::U(9), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V2(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum ULeaf28 { V0(i32, Adapters), V1(i32, Adapters, u8), V2(i32, String, Adapters, String), V3(i32, Adapters, Adapters) }
impl serde_xdr::XdrUnion<i32> for ULeaf28 {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 1 => Ok("V1"), 2 => Ok("V2"), 9 => Ok("V3"), _ => Err(()) } }
}
impl Model for ULeaf28 {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, 9]), vec![vec![m::<Adapters>()], vec![m::<Adapters>(), m::<u8>()], vec![m::<String>(), m::<Adapters>(), m::<String>()], vec![m::<Adapters>(), m::<Adapters>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(9), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V2(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]), Self::V3(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), 3 => Self::V3(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UBool117 { V0(bool), V1(bool, u8) }
impl serde_xdr::XdrUnion<bool> for UBool117 {
    type Error = ();
    fn name_by_value(value_: &bool) -> Result<&'static str, ()> { match value_ { true => Ok("V0"), false => Ok("V1"),  } }
}
impl Model for UBool117 {
    fn ty() -> Ty { union(<bool as Model>::ty(), vec![vec![], vec![m::<u8>()], ], vec![(Val::Bool(true), 0), (Val::Bool(false), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UBoolR117 { V0(bool), V1(bool, u8) }
impl serde_xdr::XdrUnion<bool> for UBoolR117 {
    type Error = ();
    fn name_by_value(value_: &bool) -> Result<&'static str, ()> { match value_ { false => Ok("V0"), true => Ok("V1"),  } }
}
impl Model for UBoolR117 {
    fn ty() -> Ty { union(<bool as Model>::ty(), vec![vec![], vec![m::<u8>()], ], vec![(Val::Bool(false), 0), (Val::Bool(true), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UBool119 { V0(bool, String), V1(bool) }
impl serde_xdr::XdrUnion<bool> for UBool119 {
    type Error = ();
    fn name_by_value(value_: &bool) -> Result<&'static str, ()> { match value_ { true => Ok("V0"), false => Ok("V1"),  } }
}
impl Model for UBool119 {
    fn ty() -> Ty { union(<bool as Model>::ty(), vec![vec![m::<String>()], vec![], ], vec![(Val::Bool(true), 0), (Val::Bool(false), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UBoolR119 { V0(bool, String), V1(bool) }
impl serde_xdr::XdrUnion<bool> for UBoolR119 {
    type Error = ();
    fn name_by_value(value_: &bool) -> Result<&'static str, ()> { match value_ { false => Ok("V0"), true => Ok("V1"),  } }
}
impl Model for UBoolR119 {
    fn ty() -> Ty { union(<bool as Model>::ty(), vec![vec![m::<String>()], vec![], ], vec![(Val::Bool(false), 0), (Val::Bool(true), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UBool121 { V0(bool, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3]), V1(bool, String, i64, bool) }
impl serde_xdr::XdrUnion<bool> for UBool121 {
    type Error = ();
    fn name_by_value(value_: &bool) -> Result<&'static str, ()> { match value_ { true => Ok("V0"), false => Ok("V1"),  } }
}
impl Model for UBool121 {
    fn ty() -> Ty { union(<bool as Model>::ty(), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>()], vec![m::<String>(), m::<i64>(), m::<bool>()], ], vec![(Val::Bool(true), 0), (Val::Bool(false), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val()]), Self::V1(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UBoolR121 { V0(bool, u8, String, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3]), V1(bool, String, i64, bool) }
impl serde_xdr::XdrUnion<bool> for UBoolR121 {
    type Error = ();
    fn name_by_value(value_: &bool) -> Result<&'static str, ()> { match value_ { false => Ok("V0"), true => Ok("V1"),  } }
}
impl Model for UBoolR121 {
    fn ty() -> Ty { union(<bool as Model>::ty(), vec![vec![m::<u8>(), m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>()], vec![m::<String>(), m::<i64>(), m::<bool>()], ], vec![(Val::Bool(false), 0), (Val::Bool(true), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val()]), Self::V1(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UBool123 { V0(bool, bool), V1(bool, u64, bool) }
impl serde_xdr::XdrUnion<bool> for UBool123 {
    type Error = ();
    fn name_by_value(value_: &bool) -> Result<&'static str, ()> { match value_ { true => Ok("V0"), false => Ok("V1"),  } }
}
impl Model for UBool123 {
    fn ty() -> Ty { union(<bool as Model>::ty(), vec![vec![m::<bool>()], vec![m::<u64>(), m::<bool>()], ], vec![(Val::Bool(true), 0), (Val::Bool(false), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UBoolR123 { V0(bool, bool), V1(bool, u64, bool) }
impl serde_xdr::XdrUnion<bool> for UBoolR123 {
    type Error = ();
    fn name_by_value(value_: &bool) -> Result<&'static str, ()> { match value_ { false => Ok("V0"), true => Ok("V1"),  } }
}
impl Model for UBoolR123 {
    fn ty() -> Ty { union(<bool as Model>::ty(), vec![vec![m::<bool>()], vec![m::<u64>(), m::<bool>()], ], vec![(Val::Bool(false), 0), (Val::Bool(true), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UBoolOne { V0(bool, String) }
impl serde_xdr::XdrUnion<bool> for UBoolOne {
    type Error = ();
    fn name_by_value(value_: &bool) -> Result<&'static str, ()> { match value_ { true => Ok("V0"), _ => Err(()) } }
}
impl Model for UBoolOne {
    fn ty() -> Ty { union(<bool as Model>::ty(), vec![vec![m::<String>()], ], vec![(Val::Bool(true), 0), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UBoolZero { V0(bool, String) }
impl serde_xdr::XdrUnion<bool> for UBoolZero {
    type Error = ();
    fn name_by_value(value_: &bool) -> Result<&'static str, ()> { match value_ { false => Ok("V0"), _ => Err(()) } }
}
impl Model for UBoolZero {
    fn ty() -> Ty { union(<bool as Model>::ty(), vec![vec![m::<String>()], ], vec![(Val::Bool(false), 0), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UBoolDefault { V0(bool, String), V1(bool, u8) }
impl serde_xdr::XdrUnion<bool> for UBoolDefault {
    type Error = ();
    fn name_by_value(value_: &bool) -> Result<&'static str, ()> { match value_ { true => Ok("V0"), _ => Ok("V1") } }
}
impl Model for UBoolDefault {
    fn ty() -> Ty { union(<bool as Model>::ty(), vec![vec![m::<String>()], vec![m::<u8>()], ], vec![(Val::Bool(true), 0), ], Some(1)) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UBoolShared { V0(bool, String) }
impl serde_xdr::XdrUnion<bool> for UBoolShared {
    type Error = ();
    fn name_by_value(value_: &bool) -> Result<&'static str, ()> { match value_ { false | true => Ok("V0"),  } }
}
impl Model for UBoolShared {
    fn ty() -> Ty { union(<bool as Model>::ty(), vec![vec![m::<String>()], ], vec![(Val::Bool(false), 0), (Val::Bool(true), 0), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UCases { V0(Cases, u8), V1(Cases, String), V2(Cases) }
impl serde_xdr::XdrUnion<Cases> for UCases {
    type Error = ();
    fn name_by_value(value_: &Cases) -> Result<&'static str, ()> { match value_ { Cases::A => Ok("V0"), Cases::B => Ok("V1"), Cases::C => Ok("V2"), _ => Err(()) } }
}
impl Model for UCases {
    fn ty() -> Ty { union(<Cases as Model>::ty(), vec![vec![m::<u8>()], vec![m::<String>()], vec![], ], vec![(un(Val::I(2), vec![]), 0), (un(Val::I(3), vec![]), 1), (un(Val::I(-5), vec![]), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V2(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), 2 => Self::V2(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UCasesAll { V0(Cases), V1(Cases, String, i64, bool, Vec<u16>, i16), V2(Cases, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64), V3(Cases, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64, (u8, i64), f32, u8, String, i64, bool) }
impl serde_xdr::XdrUnion<Cases> for UCasesAll {
    type Error = ();
    fn name_by_value(value_: &Cases) -> Result<&'static str, ()> { match value_ { Cases::A => Ok("V0"), Cases::B => Ok("V1"), Cases::C => Ok("V2"), Cases::D => Ok("V3"),  } }
}
impl Model for UCasesAll {
    fn ty() -> Ty { union(<Cases as Model>::ty(), vec![vec![], vec![m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>()], vec![m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>()], vec![m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>(), m::<(u8, i64)>(), m::<f32>(), m::<u8>(), m::<String>(), m::<i64>(), m::<bool>()], ], vec![(un(Val::I(2), vec![]), 0), (un(Val::I(3), vec![]), 1), (un(Val::I(-5), vec![]), 2), (un(Val::I(1000), vec![]), 3), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]), Self::V1(d_, a0_, a1_, a2_, a3_, a4_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val()]), Self::V2(d_, a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val()]), Self::V3(d_, a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_, a10_, a11_, a12_, a13_, a14_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val(), a10_.to_val(), a11_.to_val(), a12_.to_val(), a13_.to_val(), a14_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?), 3 => Self::V3(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?, x(l_, 10)?, x(l_, 11)?, x(l_, 12)?, x(l_, 13)?, x(l_, 14)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UCasesShared { V0(Cases, u8), V1(Cases, String) }
impl serde_xdr::XdrUnion<Cases> for UCasesShared {
    type Error = ();
    fn name_by_value(value_: &Cases) -> Result<&'static str, ()> { match value_ { Cases::A | Cases::C => Ok("V0"), Cases::B => Ok("V1"), _ => Err(()) } }
}
impl Model for UCasesShared {
    fn ty() -> Ty { union(<Cases as Model>::ty(), vec![vec![m::<u8>()], vec![m::<String>()], ], vec![(un(Val::I(2), vec![]), 0), (un(Val::I(-5), vec![]), 0), (un(Val::I(3), vec![]), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UCasesDefault { V0(Cases, u8), V1(Cases, String, i64) }
impl serde_xdr::XdrUnion<Cases> for UCasesDefault {
    type Error = ();
    fn name_by_value(value_: &Cases) -> Result<&'static str, ()> { match value_ { Cases::B => Ok("V0"), _ => Ok("V1") } }
}
impl Model for UCasesDefault {
    fn ty() -> Ty { union(<Cases as Model>::ty(), vec![vec![m::<u8>()], vec![m::<String>(), m::<i64>()], ], vec![(un(Val::I(3), vec![]), 0), ], Some(1)) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UCasesSeq { V0(CasesSeq, u8), V1(CasesSeq, String), V2(CasesSeq) }
impl serde_xdr::XdrUnion<CasesSeq> for UCasesSeq {
    type Error = ();
    fn name_by_value(value_: &CasesSeq) -> Result<&'static str, ()> { match value_ { CasesSeq::A => Ok("V0"), CasesSeq::B => Ok("V1"), CasesSeq::C => Ok("V2"),  } }
}
impl Model for UCasesSeq {
    fn ty() -> Ty { union(<CasesSeq as Model>::ty(), vec![vec![m::<u8>()], vec![m::<String>()], vec![], ], vec![(un(Val::I(0), vec![]), 0), (un(Val::I(1), vec![]), 1), (un(Val::I(2), vec![]), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V2(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), 2 => Self::V2(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UCasesSeqAll { V0(CasesSeq), V1(CasesSeq, String, i64, bool, Vec<u16>, i16), V2(CasesSeq, i64, bool, Vec<u16>, i16, Option<i8>, f64, u32, char, [u8; 3], u64) }
impl serde_xdr::XdrUnion<CasesSeq> for UCasesSeqAll {
    type Error = ();
    fn name_by_value(value_: &CasesSeq) -> Result<&'static str, ()> { match value_ { CasesSeq::A => Ok("V0"), CasesSeq::B => Ok("V1"), CasesSeq::C => Ok("V2"),  } }
}
impl Model for UCasesSeqAll {
    fn ty() -> Ty { union(<CasesSeq as Model>::ty(), vec![vec![], vec![m::<String>(), m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>()], vec![m::<i64>(), m::<bool>(), m::<Vec<u16>>(), m::<i16>(), m::<Option<i8>>(), m::<f64>(), m::<u32>(), m::<char>(), m::<[u8; 3]>(), m::<u64>()], ], vec![(un(Val::I(0), vec![]), 0), (un(Val::I(1), vec![]), 1), (un(Val::I(2), vec![]), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]), Self::V1(d_, a0_, a1_, a2_, a3_, a4_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val()]), Self::V2(d_, a0_, a1_, a2_, a3_, a4_, a5_, a6_, a7_, a8_, a9_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val(), a3_.to_val(), a4_.to_val(), a5_.to_val(), a6_.to_val(), a7_.to_val(), a8_.to_val(), a9_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?, x(l_, 3)?, x(l_, 4)?, x(l_, 5)?, x(l_, 6)?, x(l_, 7)?, x(l_, 8)?, x(l_, 9)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UCasesSeqShared { V0(CasesSeq, u8), V1(CasesSeq, String) }
impl serde_xdr::XdrUnion<CasesSeq> for UCasesSeqShared {
    type Error = ();
    fn name_by_value(value_: &CasesSeq) -> Result<&'static str, ()> { match value_ { CasesSeq::A | CasesSeq::C => Ok("V0"), CasesSeq::B => Ok("V1"),  } }
}
impl Model for UCasesSeqShared {
    fn ty() -> Ty { union(<CasesSeq as Model>::ty(), vec![vec![m::<u8>()], vec![m::<String>()], ], vec![(un(Val::I(0), vec![]), 0), (un(Val::I(2), vec![]), 0), (un(Val::I(1), vec![]), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UCasesSeqDefault { V0(CasesSeq, u8), V1(CasesSeq, String, i64) }
impl serde_xdr::XdrUnion<CasesSeq> for UCasesSeqDefault {
    type Error = ();
    fn name_by_value(value_: &CasesSeq) -> Result<&'static str, ()> { match value_ { CasesSeq::B => Ok("V0"), _ => Ok("V1") } }
}
impl Model for UCasesSeqDefault {
    fn ty() -> Ty { union(<CasesSeq as Model>::ty(), vec![vec![m::<u8>()], vec![m::<String>(), m::<i64>()], ], vec![(un(Val::I(1), vec![]), 0), ], Some(1)) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UPlain { V0(Plain, u8), V1(Plain, String), V2(Plain) }
impl serde_xdr::XdrUnion<Plain> for UPlain {
    type Error = ();
    fn name_by_value(value_: &Plain) -> Result<&'static str, ()> { match value_ { Plain::A => Ok("V0"), Plain::B | Plain::D => Ok("V1"), Plain::C => Ok("V2"), _ => Err(()) } }
}
impl Model for UPlain {
    fn ty() -> Ty { union(<Plain as Model>::ty(), vec![vec![m::<u8>()], vec![m::<String>()], vec![], ], vec![(Val::Var(0, vec![]), 0), (Val::Var(1, vec![]), 1), (Val::Var(3, vec![]), 1), (Val::Var(2, vec![]), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V2(d_) => un(d_.to_val(), vec![]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), 2 => Self::V2(disc(v_)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UPlainDefault { V0(Plain, u8), V1(Plain, i64) }
impl serde_xdr::XdrUnion<Plain> for UPlainDefault {
    type Error = ();
    fn name_by_value(value_: &Plain) -> Result<&'static str, ()> { match value_ { Plain::E => Ok("V0"), _ => Ok("V1") } }
}
impl Model for UPlainDefault {
    fn ty() -> Ty { union(<Plain as Model>::ty(), vec![vec![m::<u8>()], vec![m::<i64>()], ], vec![(Val::Var(4, vec![]), 0), ], Some(1)) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI8 { V0(i8), V1(i8, String), V2(i8, i64, bool) }
impl serde_xdr::XdrUnion<i8> for UI8 {
    type Error = ();
    fn name_by_value(value_: &i8) -> Result<&'static str, ()> { match value_ { -1 => Ok("V0"), 0 => Ok("V1"), 127 => Ok("V2"), _ => Err(()) } }
}
impl Model for UI8 {
    fn ty() -> Ty { union(<i8 as Model>::ty(), vec![vec![], vec![m::<String>()], vec![m::<i64>(), m::<bool>()], ], vec![(Val::I(-1), 0), (Val::I(0), 1), (Val::I(127), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V2(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU8 { V0(u8), V1(u8, String), V2(u8, i64, bool) }
impl serde_xdr::XdrUnion<u8> for UU8 {
    type Error = ();
    fn name_by_value(value_: &u8) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 1 => Ok("V1"), 255 => Ok("V2"), _ => Err(()) } }
}
impl Model for UU8 {
    fn ty() -> Ty { union(<u8 as Model>::ty(), vec![vec![], vec![m::<String>()], vec![m::<i64>(), m::<bool>()], ], vec![(Val::U(0), 0), (Val::U(1), 1), (Val::U(255), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V2(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI16 { V0(i16), V1(i16, String) }
impl serde_xdr::XdrUnion<i16> for UI16 {
    type Error = ();
    fn name_by_value(value_: &i16) -> Result<&'static str, ()> { match value_ { -1 => Ok("V0"), 300 => Ok("V1"), _ => Err(()) } }
}
impl Model for UI16 {
    fn ty() -> Ty { union(<i16 as Model>::ty(), vec![vec![], vec![m::<String>()], ], vec![(Val::I(-1), 0), (Val::I(300), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU16 { V0(u16), V1(u16, String) }
impl serde_xdr::XdrUnion<u16> for UU16 {
    type Error = ();
    fn name_by_value(value_: &u16) -> Result<&'static str, ()> { match value_ { 1 => Ok("V0"), 65535 => Ok("V1"), _ => Err(()) } }
}
impl Model for UU16 {
    fn ty() -> Ty { union(<u16 as Model>::ty(), vec![vec![], vec![m::<String>()], ], vec![(Val::U(1), 0), (Val::U(65535), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UI64 { V0(i64), V1(i64, String), V2(i64, i64, bool) }
impl serde_xdr::XdrUnion<i64> for UI64 {
    type Error = ();
    fn name_by_value(value_: &i64) -> Result<&'static str, ()> { match value_ { -1 => Ok("V0"), 0 => Ok("V1"), 1099511627776 => Ok("V2"), _ => Err(()) } }
}
impl Model for UI64 {
    fn ty() -> Ty { union(<i64 as Model>::ty(), vec![vec![], vec![m::<String>()], vec![m::<i64>(), m::<bool>()], ], vec![(Val::I(-1), 0), (Val::I(0), 1), (Val::I(1099511627776), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V2(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UU64 { V0(u64), V1(u64, String), V2(u64, i64, bool) }
impl serde_xdr::XdrUnion<u64> for UU64 {
    type Error = ();
    fn name_by_value(value_: &u64) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 1 => Ok("V1"), 9223372036854775808 => Ok("V2"), _ => Err(()) } }
}
impl Model for UU64 {
    fn ty() -> Ty { union(<u64 as Model>::ty(), vec![vec![], vec![m::<String>()], vec![m::<i64>(), m::<bool>()], ], vec![(Val::U(0), 0), (Val::U(1), 1), (Val::U(9223372036854775808), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V2(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UCHAR { V0(char), V1(char, String) }
impl serde_xdr::XdrUnion<char> for UCHAR {
    type Error = ();
    fn name_by_value(value_: &char) -> Result<&'static str, ()> { match value_ { 'a' => Ok("V0"), 'z' => Ok("V1"), _ => Err(()) } }
}
impl Model for UCHAR {
    fn ty() -> Ty { union(<char as Model>::ty(), vec![vec![], vec![m::<String>()], ], vec![(Val::Char('a'), 0), (Val::Char('z'), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_) => un(d_.to_val(), vec![]), Self::V1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UNames { A(i32), AB(i32, String), Ab(i32, i16, u64), ABC(i32), B(i32, bool), Ok(i32, char, u8), Err(i32), Some(i32, String), None(i32, i16, u64), Value(i32), Ser(i32, bool), __V(i32, char, u8), A1(i32), A11(i32, String) }
impl serde_xdr::XdrUnion<i32> for UNames {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 0 => Ok("A"), 1 => Ok("AB"), 2 => Ok("Ab"), 3 => Ok("ABC"), 4 => Ok("B"), 5 => Ok("Ok"), 6 => Ok("Err"), 7 => Ok("Some"), 8 => Ok("None"), 9 => Ok("Value"), 10 => Ok("Ser"), 11 => Ok("__V"), 12 => Ok("A1"), 13 => Ok("A11"), _ => Err(()) } }
}
impl Model for UNames {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(3), 3), (Val::I(4), 4), (Val::I(5), 5), (Val::I(6), 6), (Val::I(7), 7), (Val::I(8), 8), (Val::I(9), 9), (Val::I(10), 10), (Val::I(11), 11), (Val::I(12), 12), (Val::I(13), 13), ], None) }
    fn to_val(&self) -> Val { match self { Self::A(d_) => un(d_.to_val(), vec![]), Self::AB(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::Ab(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::ABC(d_) => un(d_.to_val(), vec![]), Self::B(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::Ok(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::Err(d_) => un(d_.to_val(), vec![]), Self::Some(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::None(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::Value(d_) => un(d_.to_val(), vec![]), Self::Ser(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::__V(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::A1(d_) => un(d_.to_val(), vec![]), Self::A11(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::A(disc(v_)?), 1 => Self::AB(disc(v_)?, x(l_, 0)?), 2 => Self::Ab(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 3 => Self::ABC(disc(v_)?), 4 => Self::B(disc(v_)?, x(l_, 0)?), 5 => Self::Ok(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 6 => Self::Err(disc(v_)?), 7 => Self::Some(disc(v_)?, x(l_, 0)?), 8 => Self::None(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 9 => Self::Value(disc(v_)?), 10 => Self::Ser(disc(v_)?, x(l_, 0)?), 11 => Self::__V(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 12 => Self::A1(disc(v_)?), 13 => Self::A11(disc(v_)?, x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UNamesAll { A(i32), a(i32, String), AA(i32, i16, u64), Aa(i32), A_(i32, bool), A1(i32, char, u8), aA(i32), aa(i32, String), a_(i32, i16, u64), a1(i32), _A(i32, bool), _a(i32, char, u8), __(i32), _1(i32, String), AAA(i32, i16, u64), AAa(i32), AA_(i32, bool), AA1(i32, char, u8), AaA(i32), Aaa(i32, String), Aa_(i32, i16, u64), Aa1(i32), A_A(i32, bool), A_a(i32, char, u8), A__(i32), A_1(i32, String), A1A(i32, i16, u64), A1a(i32), A1_(i32, bool), A11(i32, char, u8), aAA(i32), aAa(i32, String), aA_(i32, i16, u64), aA1(i32), aaA(i32, bool), aaa(i32, char, u8), aa_(i32), aa1(i32, String), a_A(i32, i16, u64), a_a(i32), a__(i32, bool), a_1(i32, char, u8), a1A(i32), a1a(i32, String), a1_(i32, i16, u64), a11(i32), _AA(i32, bool), _Aa(i32, char, u8), _A_(i32), _A1(i32, String), _aA(i32, i16, u64), _aa(i32), _a_(i32, bool), _a1(i32, char, u8), __A(i32), __a(i32, String), ___(i32, i16, u64), __1(i32), _1A(i32, bool), _1a(i32, char, u8), _1_(i32), _11(i32, String), V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_(i32, i16, u64), AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA(i32), Z__Z(i32, bool), __Z__(i32, char, u8), Zz_Zz_(i32), É_é_(i32, String), Number_10(i32, i16, u64), Number10_(i32), x10(i32, bool), X10(i32, char, u8) }
impl serde_xdr::XdrUnion<i32> for UNamesAll {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { -60 => Ok("A"), -58 => Ok("a"), -56 => Ok("AA"), -54 => Ok("Aa"), -52 => Ok("A_"), -50 => Ok("A1"), -48 => Ok("aA"), -46 => Ok("aa"), -44 => Ok("a_"), -42 => Ok("a1"), -40 => Ok("_A"), -38 => Ok("_a"), -36 => Ok("__"), -34 => Ok("_1"), -32 => Ok("AAA"), -30 => Ok("AAa"), -28 => Ok("AA_"), -26 => Ok("AA1"), -24 => Ok("AaA"), -22 => Ok("Aaa"), -20 => Ok("Aa_"), -18 => Ok("Aa1"), -16 => Ok("A_A"), -14 => Ok("A_a"), -12 => Ok("A__"), -10 => Ok("A_1"), -8 => Ok("A1A"), -6 => Ok("A1a"), -4 => Ok("A1_"), -2 => Ok("A11"), 0 => Ok("aAA"), 2 => Ok("aAa"), 4 => Ok("aA_"), 6 => Ok("aA1"), 8 => Ok("aaA"), 10 => Ok("aaa"), 12 => Ok("aa_"), 14 => Ok("aa1"), 16 => Ok("a_A"), 18 => Ok("a_a"), 20 => Ok("a__"), 22 => Ok("a_1"), 24 => Ok("a1A"), 26 => Ok("a1a"), 28 => Ok("a1_"), 30 => Ok("a11"), 32 => Ok("_AA"), 34 => Ok("_Aa"), 36 => Ok("_A_"), 38 => Ok("_A1"), 40 => Ok("_aA"), 42 => Ok("_aa"), 44 => Ok("_a_"), 46 => Ok("_a1"), 48 => Ok("__A"), 50 => Ok("__a"), 52 => Ok("___"), 54 => Ok("__1"), 56 => Ok("_1A"), 58 => Ok("_1a"), 60 => Ok("_1_"), 62 => Ok("_11"), 64 => Ok("V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_"), 66 => Ok("AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA"), 68 => Ok("Z__Z"), 70 => Ok("__Z__"), 72 => Ok("Zz_Zz_"), 74 => Ok("É_é_"), 76 => Ok("Number_10"), 78 => Ok("Number10_"), 80 => Ok("x10"), 82 => Ok("X10"), _ => Err(()) } }
}
impl Model for UNamesAll {
    fn ty() -> Ty { union(Ty::I32of(vec![-60, -58, -56, -54, -52, -50, -48, -46, -44, -42, -40, -38, -36, -34, -32, -30, -28, -26, -24, -22, -20, -18, -16, -14, -12, -10, -8, -6, -4, -2, 0, 2, 4, 6, 8, 10, 12, 14, 16, 18, 20, 22, 24, 26, 28, 30, 32, 34, 36, 38, 40, 42, 44, 46, 48, 50, 52, 54, 56, 58, 60, 62, 64, 66, 68, 70, 72, 74, 76, 78, 80, 82]), vec![vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], vec![], vec![m::<String>()], vec![m::<i16>(), m::<u64>()], vec![], vec![m::<bool>()], vec![m::<char>(), m::<u8>()], ], vec![(Val::I(-60), 0), (Val::I(-58), 1), (Val::I(-56), 2), (Val::I(-54), 3), (Val::I(-52), 4), (Val::I(-50), 5), (Val::I(-48), 6), (Val::I(-46), 7), (Val::I(-44), 8), (Val::I(-42), 9), (Val::I(-40), 10), (Val::I(-38), 11), (Val::I(-36), 12), (Val::I(-34), 13), (Val::I(-32), 14), (Val::I(-30), 15), (Val::I(-28), 16), (Val::I(-26), 17), (Val::I(-24), 18), (Val::I(-22), 19), (Val::I(-20), 20), (Val::I(-18), 21), (Val::I(-16), 22), (Val::I(-14), 23), (Val::I(-12), 24), (Val::I(-10), 25), (Val::I(-8), 26), (Val::I(-6), 27), (Val::I(-4), 28), (Val::I(-2), 29), (Val::I(0), 30), (Val::I(2), 31), (Val::I(4), 32), (Val::I(6), 33), (Val::I(8), 34), (Val::I(10), 35), (Val::I(12), 36), (Val::I(14), 37), (Val::I(16), 38), (Val::I(18), 39), (Val::I(20), 40), (Val::I(22), 41), (Val::I(24), 42), (Val::I(26), 43), (Val::I(28), 44), (Val::I(30), 45), (Val::I(32), 46), (Val::I(34), 47), (Val::I(36), 48), (Val::I(38), 49), (Val::I(40), 50), (Val::I(42), 51), (Val::I(44), 52), (Val::I(46), 53), (Val::I(48), 54), (Val::I(50), 55), (Val::I(52), 56), (Val::I(54), 57), (Val::I(56), 58), (Val::I(58), 59), (Val::I(60), 60), (Val::I(62), 61), (Val::I(64), 62), (Val::I(66), 63), (Val::I(68), 64), (Val::I(70), 65), (Val::I(72), 66), (Val::I(74), 67), (Val::I(76), 68), (Val::I(78), 69), (Val::I(80), 70), (Val::I(82), 71), ], None) }
    fn to_val(&self) -> Val { match self { Self::A(d_) => un(d_.to_val(), vec![]), Self::a(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::AA(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::Aa(d_) => un(d_.to_val(), vec![]), Self::A_(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::A1(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::aA(d_) => un(d_.to_val(), vec![]), Self::aa(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::a_(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::a1(d_) => un(d_.to_val(), vec![]), Self::_A(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::_a(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::__(d_) => un(d_.to_val(), vec![]), Self::_1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::AAA(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::AAa(d_) => un(d_.to_val(), vec![]), Self::AA_(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::AA1(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::AaA(d_) => un(d_.to_val(), vec![]), Self::Aaa(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::Aa_(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::Aa1(d_) => un(d_.to_val(), vec![]), Self::A_A(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::A_a(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::A__(d_) => un(d_.to_val(), vec![]), Self::A_1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::A1A(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::A1a(d_) => un(d_.to_val(), vec![]), Self::A1_(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::A11(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::aAA(d_) => un(d_.to_val(), vec![]), Self::aAa(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::aA_(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::aA1(d_) => un(d_.to_val(), vec![]), Self::aaA(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::aaa(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::aa_(d_) => un(d_.to_val(), vec![]), Self::aa1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::a_A(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::a_a(d_) => un(d_.to_val(), vec![]), Self::a__(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::a_1(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::a1A(d_) => un(d_.to_val(), vec![]), Self::a1a(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::a1_(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::a11(d_) => un(d_.to_val(), vec![]), Self::_AA(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::_Aa(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::_A_(d_) => un(d_.to_val(), vec![]), Self::_A1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::_aA(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::_aa(d_) => un(d_.to_val(), vec![]), Self::_a_(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::_a1(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::__A(d_) => un(d_.to_val(), vec![]), Self::__a(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::___(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::__1(d_) => un(d_.to_val(), vec![]), Self::_1A(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::_1a(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::_1_(d_) => un(d_.to_val(), vec![]), Self::_11(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA(d_) => un(d_.to_val(), vec![]), Self::Z__Z(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::__Z__(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::Zz_Zz_(d_) => un(d_.to_val(), vec![]), Self::É_é_(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::Number_10(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::Number10_(d_) => un(d_.to_val(), vec![]), Self::x10(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::X10(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::A(disc(v_)?), 1 => Self::a(disc(v_)?, x(l_, 0)?), 2 => Self::AA(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 3 => Self::Aa(disc(v_)?), 4 => Self::A_(disc(v_)?, x(l_, 0)?), 5 => Self::A1(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 6 => Self::aA(disc(v_)?), 7 => Self::aa(disc(v_)?, x(l_, 0)?), 8 => Self::a_(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 9 => Self::a1(disc(v_)?), 10 => Self::_A(disc(v_)?, x(l_, 0)?), 11 => Self::_a(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 12 => Self::__(disc(v_)?), 13 => Self::_1(disc(v_)?, x(l_, 0)?), 14 => Self::AAA(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 15 => Self::AAa(disc(v_)?), 16 => Self::AA_(disc(v_)?, x(l_, 0)?), 17 => Self::AA1(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 18 => Self::AaA(disc(v_)?), 19 => Self::Aaa(disc(v_)?, x(l_, 0)?), 20 => Self::Aa_(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 21 => Self::Aa1(disc(v_)?), 22 => Self::A_A(disc(v_)?, x(l_, 0)?), 23 => Self::A_a(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 24 => Self::A__(disc(v_)?), 25 => Self::A_1(disc(v_)?, x(l_, 0)?), 26 => Self::A1A(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 27 => Self::A1a(disc(v_)?), 28 => Self::A1_(disc(v_)?, x(l_, 0)?), 29 => Self::A11(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 30 => Self::aAA(disc(v_)?), 31 => Self::aAa(disc(v_)?, x(l_, 0)?), 32 => Self::aA_(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 33 => Self::aA1(disc(v_)?), 34 => Self::aaA(disc(v_)?, x(l_, 0)?), 35 => Self::aaa(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 36 => Self::aa_(disc(v_)?), 37 => Self::aa1(disc(v_)?, x(l_, 0)?), 38 => Self::a_A(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 39 => Self::a_a(disc(v_)?), 40 => Self::a__(disc(v_)?, x(l_, 0)?), 41 => Self::a_1(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 42 => Self::a1A(disc(v_)?), 43 => Self::a1a(disc(v_)?, x(l_, 0)?), 44 => Self::a1_(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 45 => Self::a11(disc(v_)?), 46 => Self::_AA(disc(v_)?, x(l_, 0)?), 47 => Self::_Aa(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 48 => Self::_A_(disc(v_)?), 49 => Self::_A1(disc(v_)?, x(l_, 0)?), 50 => Self::_aA(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 51 => Self::_aa(disc(v_)?), 52 => Self::_a_(disc(v_)?, x(l_, 0)?), 53 => Self::_a1(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 54 => Self::__A(disc(v_)?), 55 => Self::__a(disc(v_)?, x(l_, 0)?), 56 => Self::___(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 57 => Self::__1(disc(v_)?), 58 => Self::_1A(disc(v_)?, x(l_, 0)?), 59 => Self::_1a(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 60 => Self::_1_(disc(v_)?), 61 => Self::_11(disc(v_)?, x(l_, 0)?), 62 => Self::V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_V_(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 63 => Self::AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA(disc(v_)?), 64 => Self::Z__Z(disc(v_)?, x(l_, 0)?), 65 => Self::__Z__(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 66 => Self::Zz_Zz_(disc(v_)?), 67 => Self::É_é_(disc(v_)?, x(l_, 0)?), 68 => Self::Number_10(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 69 => Self::Number10_(disc(v_)?), 70 => Self::x10(disc(v_)?, x(l_, 0)?), 71 => Self::X10(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum _U { A(u32), a(u32, u8), AA(u32, u8, String) }
impl serde_xdr::XdrUnion<u32> for _U {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 0 => Ok("A"), 1 => Ok("a"), 2 => Ok("AA"), _ => Err(()) } }
}
impl Model for _U {
    fn ty() -> Ty { union(Ty::U32of(vec![0, 1, 2]), vec![vec![], vec![m::<u8>()], vec![m::<u8>(), m::<String>()], ], vec![(Val::U(0), 0), (Val::U(1), 1), (Val::U(2), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::A(d_) => un(d_.to_val(), vec![]), Self::a(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::AA(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::A(disc(v_)?), 1 => Self::a(disc(v_)?, x(l_, 0)?), 2 => Self::AA(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum U_ { a1(u32, String), _A(u32, String, i16), _a(u32, String, i16, u64) }
impl serde_xdr::XdrUnion<u32> for U_ {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 0 => Ok("a1"), 1 => Ok("_A"), 2 => Ok("_a"), _ => Err(()) } }
}
impl Model for U_ {
    fn ty() -> Ty { union(Ty::U32of(vec![0, 1, 2]), vec![vec![m::<String>()], vec![m::<String>(), m::<i16>()], vec![m::<String>(), m::<i16>(), m::<u64>()], ], vec![(Val::U(0), 0), (Val::U(1), 1), (Val::U(2), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::a1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::_A(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::_a(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::a1(disc(v_)?, x(l_, 0)?), 1 => Self::_A(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 2 => Self::_a(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum u { AaA(u32), Aaa(u32, i16), Aa_(u32, i16, u64) }
impl serde_xdr::XdrUnion<u32> for u {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 0 => Ok("AaA"), 1 => Ok("Aaa"), 2 => Ok("Aa_"), _ => Err(()) } }
}
impl Model for u {
    fn ty() -> Ty { union(Ty::U32of(vec![0, 1, 2]), vec![vec![], vec![m::<i16>()], vec![m::<i16>(), m::<u64>()], ], vec![(Val::U(0), 0), (Val::U(1), 1), (Val::U(2), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::AaA(d_) => un(d_.to_val(), vec![]), Self::Aaa(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::Aa_(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::AaA(disc(v_)?), 1 => Self::Aaa(disc(v_)?, x(l_, 0)?), 2 => Self::Aa_(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum _u_ { A1a(u32, u64), A1_(u32, u64, bool), A11(u32, u64, bool, char) }
impl serde_xdr::XdrUnion<u32> for _u_ {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 0 => Ok("A1a"), 1 => Ok("A1_"), 2 => Ok("A11"), _ => Err(()) } }
}
impl Model for _u_ {
    fn ty() -> Ty { union(Ty::U32of(vec![0, 1, 2]), vec![vec![m::<u64>()], vec![m::<u64>(), m::<bool>()], vec![m::<u64>(), m::<bool>(), m::<char>()], ], vec![(Val::U(0), 0), (Val::U(1), 1), (Val::U(2), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::A1a(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::A1_(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::A11(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::A1a(disc(v_)?, x(l_, 0)?), 1 => Self::A1_(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 2 => Self::A11(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum U1_ { aa_(u32), aa1(u32, bool), a_A(u32, bool, char) }
impl serde_xdr::XdrUnion<u32> for U1_ {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 0 => Ok("aa_"), 1 => Ok("aa1"), 2 => Ok("a_A"), _ => Err(()) } }
}
impl Model for U1_ {
    fn ty() -> Ty { union(Ty::U32of(vec![0, 1, 2]), vec![vec![], vec![m::<bool>()], vec![m::<bool>(), m::<char>()], ], vec![(Val::U(0), 0), (Val::U(1), 1), (Val::U(2), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::aa_(d_) => un(d_.to_val(), vec![]), Self::aa1(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::a_A(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::aa_(disc(v_)?), 1 => Self::aa1(disc(v_)?, x(l_, 0)?), 2 => Self::a_A(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum Ünion_ { a11(u32, char), _AA(u32, char, u8), _Aa(u32, char, u8, String) }
impl serde_xdr::XdrUnion<u32> for Ünion_ {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 0 => Ok("a11"), 1 => Ok("_AA"), 2 => Ok("_Aa"), _ => Err(()) } }
}
impl Model for Ünion_ {
    fn ty() -> Ty { union(Ty::U32of(vec![0, 1, 2]), vec![vec![m::<char>()], vec![m::<char>(), m::<u8>()], vec![m::<char>(), m::<u8>(), m::<String>()], ], vec![(Val::U(0), 0), (Val::U(1), 1), (Val::U(2), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::a11(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::_AA(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::_Aa(d_, a0_, a1_, a2_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val(), a2_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::a11(disc(v_)?, x(l_, 0)?), 1 => Self::_AA(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 2 => Self::_Aa(disc(v_)?, x(l_, 0)?, x(l_, 1)?, x(l_, 2)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum D { A(i32, u8, String), B(i32), D(i32, String) }
impl serde_xdr::XdrUnion<i32> for D {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 4 => Ok("A"), -4 => Ok("B"), 9 => Ok("D"), _ => Err(()) } }
}
impl Model for D {
    fn ty() -> Ty { union(Ty::I32of(vec![4, -4, 9]), vec![vec![m::<u8>(), m::<String>()], vec![], vec![m::<String>()], ], vec![(Val::I(4), 0), (Val::I(-4), 1), (Val::I(9), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::A(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::B(d_) => un(d_.to_val(), vec![]), Self::D(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::A(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 1 => Self::B(disc(v_)?), 2 => Self::D(disc(v_)?, x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum E { A(i32, u8, String), B(i32), E(i32, String) }
impl serde_xdr::XdrUnion<i32> for E {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 4 => Ok("A"), -4 => Ok("B"), 9 => Ok("E"), _ => Err(()) } }
}
impl Model for E {
    fn ty() -> Ty { union(Ty::I32of(vec![4, -4, 9]), vec![vec![m::<u8>(), m::<String>()], vec![], vec![m::<String>()], ], vec![(Val::I(4), 0), (Val::I(-4), 1), (Val::I(9), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::A(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::B(d_) => un(d_.to_val(), vec![]), Self::E(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::A(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 1 => Self::B(disc(v_)?), 2 => Self::E(disc(v_)?, x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum T { A(i32, u8, String), B(i32), T(i32, String) }
impl serde_xdr::XdrUnion<i32> for T {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 4 => Ok("A"), -4 => Ok("B"), 9 => Ok("T"), _ => Err(()) } }
}
impl Model for T {
    fn ty() -> Ty { union(Ty::I32of(vec![4, -4, 9]), vec![vec![m::<u8>(), m::<String>()], vec![], vec![m::<String>()], ], vec![(Val::I(4), 0), (Val::I(-4), 1), (Val::I(9), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::A(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::B(d_) => un(d_.to_val(), vec![]), Self::T(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::A(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 1 => Self::B(disc(v_)?), 2 => Self::T(disc(v_)?, x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum K { A(i32, u8, String), B(i32), K(i32, String) }
impl serde_xdr::XdrUnion<i32> for K {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 4 => Ok("A"), -4 => Ok("B"), 9 => Ok("K"), _ => Err(()) } }
}
impl Model for K {
    fn ty() -> Ty { union(Ty::I32of(vec![4, -4, 9]), vec![vec![m::<u8>(), m::<String>()], vec![], vec![m::<String>()], ], vec![(Val::I(4), 0), (Val::I(-4), 1), (Val::I(9), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::A(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::B(d_) => un(d_.to_val(), vec![]), Self::K(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::A(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 1 => Self::B(disc(v_)?), 2 => Self::K(disc(v_)?, x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum XdrUnionVisitor { A(i32, u8, String), B(i32), XdrUnionVisitor(i32, String) }
impl serde_xdr::XdrUnion<i32> for XdrUnionVisitor {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 4 => Ok("A"), -4 => Ok("B"), 9 => Ok("XdrUnionVisitor"), _ => Err(()) } }
}
impl Model for XdrUnionVisitor {
    fn ty() -> Ty { union(Ty::I32of(vec![4, -4, 9]), vec![vec![m::<u8>(), m::<String>()], vec![], vec![m::<String>()], ], vec![(Val::I(4), 0), (Val::I(-4), 1), (Val::I(9), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::A(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::B(d_) => un(d_.to_val(), vec![]), Self::XdrUnionVisitor(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::A(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 1 => Self::B(disc(v_)?), 2 => Self::XdrUnionVisitor(disc(v_)?, x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum Formatter { A(i32, u8, String), B(i32), Formatter(i32, String) }
impl serde_xdr::XdrUnion<i32> for Formatter {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 4 => Ok("A"), -4 => Ok("B"), 9 => Ok("Formatter"), _ => Err(()) } }
}
impl Model for Formatter {
    fn ty() -> Ty { union(Ty::I32of(vec![4, -4, 9]), vec![vec![m::<u8>(), m::<String>()], vec![], vec![m::<String>()], ], vec![(Val::I(4), 0), (Val::I(-4), 1), (Val::I(9), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::A(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::B(d_) => un(d_.to_val(), vec![]), Self::Formatter(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::A(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 1 => Self::B(disc(v_)?), 2 => Self::Formatter(disc(v_)?, x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum Error { A(i32, u8, String), B(i32), Error(i32, String) }
impl serde_xdr::XdrUnion<i32> for Error {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 4 => Ok("A"), -4 => Ok("B"), 9 => Ok("Error"), _ => Err(()) } }
}
impl Model for Error {
    fn ty() -> Ty { union(Ty::I32of(vec![4, -4, 9]), vec![vec![m::<u8>(), m::<String>()], vec![], vec![m::<String>()], ], vec![(Val::I(4), 0), (Val::I(-4), 1), (Val::I(9), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::A(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::B(d_) => un(d_.to_val(), vec![]), Self::Error(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::A(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 1 => Self::B(disc(v_)?), 2 => Self::Error(disc(v_)?, x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UTaken { A(i32, A, u8), D(i32, D, u8), S(i32, S, u8), E(i32, E, u8), V(i32, V, u8), T(i32, T, u8), M(i32, M, u8), K(i32, K, u8), XdrIndexerVisitor(i32, XdrIndexerVisitor, u8), XdrUnionVisitor(i32, XdrUnionVisitor, u8), Visitor(i32, Visitor, u8), Formatter(i32, Formatter, u8), SeqAccess(i32, SeqAccess, u8), Error(i32, Error, u8), Value(i32, Value, u8) }
impl serde_xdr::XdrUnion<i32> for UTaken {
    type Error = ();
    fn name_by_value(value_: &i32) -> Result<&'static str, ()> { match value_ { 0 => Ok("A"), 1 => Ok("D"), 2 => Ok("S"), 3 => Ok("E"), 4 => Ok("V"), 5 => Ok("T"), 6 => Ok("M"), 7 => Ok("K"), 8 => Ok("XdrIndexerVisitor"), 9 => Ok("XdrUnionVisitor"), 10 => Ok("Visitor"), 11 => Ok("Formatter"), 12 => Ok("SeqAccess"), 13 => Ok("Error"), 14 => Ok("Value"), _ => Err(()) } }
}
impl Model for UTaken {
    fn ty() -> Ty { union(Ty::I32of(vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14]), vec![vec![m::<A>(), m::<u8>()], vec![m::<D>(), m::<u8>()], vec![m::<S>(), m::<u8>()], vec![m::<E>(), m::<u8>()], vec![m::<V>(), m::<u8>()], vec![m::<T>(), m::<u8>()], vec![m::<M>(), m::<u8>()], vec![m::<K>(), m::<u8>()], vec![m::<XdrIndexerVisitor>(), m::<u8>()], vec![m::<XdrUnionVisitor>(), m::<u8>()], vec![m::<Visitor>(), m::<u8>()], vec![m::<Formatter>(), m::<u8>()], vec![m::<SeqAccess>(), m::<u8>()], vec![m::<Error>(), m::<u8>()], vec![m::<Value>(), m::<u8>()], ], vec![(Val::I(0), 0), (Val::I(1), 1), (Val::I(2), 2), (Val::I(3), 3), (Val::I(4), 4), (Val::I(5), 5), (Val::I(6), 6), (Val::I(7), 7), (Val::I(8), 8), (Val::I(9), 9), (Val::I(10), 10), (Val::I(11), 11), (Val::I(12), 12), (Val::I(13), 13), (Val::I(14), 14), ], None) }
    fn to_val(&self) -> Val { match self { Self::A(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::D(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::S(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::E(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::T(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::M(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::K(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::XdrIndexerVisitor(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::XdrUnionVisitor(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::Visitor(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::Formatter(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::SeqAccess(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::Error(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::Value(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::A(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 1 => Self::D(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 2 => Self::S(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 3 => Self::E(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 4 => Self::V(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 5 => Self::T(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 6 => Self::M(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 7 => Self::K(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 8 => Self::XdrIndexerVisitor(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 9 => Self::XdrUnionVisitor(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 10 => Self::Visitor(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 11 => Self::Formatter(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 12 => Self::SeqAccess(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 13 => Self::Error(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 14 => Self::Value(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UNest { V0(u32, UI32Default), V1(u32, UBoolShared, INest1), V2(u32, Vec<UCases>) }
impl serde_xdr::XdrUnion<u32> for UNest {
    type Error = ();
    fn name_by_value(value_: &u32) -> Result<&'static str, ()> { match value_ { 0 => Ok("V0"), 7 => Ok("V1"), 9 => Ok("V2"), _ => Err(()) } }
}
impl Model for UNest {
    fn ty() -> Ty { union(Ty::U32of(vec![0, 7, 9]), vec![vec![m::<UI32Default>()], vec![m::<UBoolShared>(), m::<INest1>()], vec![m::<Vec<UCases>>()], ], vec![(Val::U(0), 0), (Val::U(7), 1), (Val::U(9), 2), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]), Self::V2(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?), 2 => Self::V2(disc(v_)?, x(l_, 0)?), _ => unreachable!() }) }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UNest2 { V0(bool, UNest), V1(bool, Option<UI32Items11>, u8) }
impl serde_xdr::XdrUnion<bool> for UNest2 {
    type Error = ();
    fn name_by_value(value_: &bool) -> Result<&'static str, ()> { match value_ { false => Ok("V0"), true => Ok("V1"),  } }
}
impl Model for UNest2 {
    fn ty() -> Ty { union(<bool as Model>::ty(), vec![vec![m::<UNest>()], vec![m::<Option<UI32Items11>>(), m::<u8>()], ], vec![(Val::Bool(false), 0), (Val::Bool(true), 1), ], None) }
    fn to_val(&self) -> Val { match self { Self::V0(d_, a0_) => un(d_.to_val(), vec![a0_.to_val()]), Self::V1(d_, a0_, a1_) => un(d_.to_val(), vec![a0_.to_val(), a1_.to_val()]),  } }
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> { let (k_, l_) = arm::<Self>(v_); Some(match k_ { 0 => Self::V0(disc(v_)?, x(l_, 0)?), 1 => Self::V1(disc(v_)?, x(l_, 0)?, x(l_, 1)?), _ => unreachable!() }) }
}
pub fn indexed() -> Vec<Box<dyn Target>> {
    vec![
        t::<ISeq1>("ISeq1"),
        t::<ISeq2>("ISeq2"),
        t::<ISeq3>("ISeq3"),
        t::<ISeq4>("ISeq4"),
        t::<Vec<ISeq4>>("Vec<ISeq4>"),
        t::<Option<ISeq4>>("Option<ISeq4>"),
        t::<Box<ISeq4>>("Box<ISeq4>"),
        t::<(ISeq4, u8)>("(ISeq4, u8)"),
        t::<(String, ISeq4, String)>("(String, ISeq4, String)"),
        t::<[ISeq4; 2]>("[ISeq4; 2]"),
        t::<BTreeMap<u16, ISeq4>>("BTreeMap<u16, ISeq4>"),
        t::<Field<ISeq4>>("Field<ISeq4>"),
        t::<Option<Vec<ISeq4>>>("Option<Vec<ISeq4>>"),
        t::<Vec<(ISeq4, ISeq4)>>("Vec<(ISeq4, ISeq4)>"),
        t::<Arms<ISeq4>>("Arms<ISeq4>"),
        t::<ISeq7>("ISeq7"),
        t::<ISeq12>("ISeq12"),
        t::<IOne1>("IOne1"),
        t::<IOne2>("IOne2"),
        t::<IOne3>("IOne3"),
        t::<IOne4>("IOne4"),
        t::<IOne7>("IOne7"),
        t::<IOne12>("IOne12"),
        t::<INeg1>("INeg1"),
        t::<INeg2>("INeg2"),
        t::<INeg3>("INeg3"),
        t::<INeg4>("INeg4"),
        t::<INeg7>("INeg7"),
        t::<INeg12>("INeg12"),
        t::<IDesc1>("IDesc1"),
        t::<IDesc2>("IDesc2"),
        t::<IDesc3>("IDesc3"),
        t::<IDesc4>("IDesc4"),
        t::<IDesc7>("IDesc7"),
        t::<IDesc12>("IDesc12"),
        t::<ISparse1>("ISparse1"),
        t::<ISparse2>("ISparse2"),
        t::<ISparse3>("ISparse3"),
        t::<ISparse4>("ISparse4"),
        t::<ISparse7>("ISparse7"),
        t::<Vec<ISparse7>>("Vec<ISparse7>"),
        t::<Option<ISparse7>>("Option<ISparse7>"),
        t::<Box<ISparse7>>("Box<ISparse7>"),
        t::<(ISparse7, u8)>("(ISparse7, u8)"),
        t::<(String, ISparse7, String)>("(String, ISparse7, String)"),
        t::<[ISparse7; 2]>("[ISparse7; 2]"),
        t::<BTreeMap<u16, ISparse7>>("BTreeMap<u16, ISparse7>"),
        t::<Field<ISparse7>>("Field<ISparse7>"),
        t::<Option<Vec<ISparse7>>>("Option<Vec<ISparse7>>"),
        t::<Vec<(ISparse7, ISparse7)>>("Vec<(ISparse7, ISparse7)>"),
        t::<Arms<ISparse7>>("Arms<ISparse7>"),
        t::<ISparse12>("ISparse12"),
        t::<IEnds1>("IEnds1"),
        t::<IEnds2>("IEnds2"),
        t::<IEnds3>("IEnds3"),
        t::<IEnds4>("IEnds4"),
        t::<Vec<IEnds4>>("Vec<IEnds4>"),
        t::<Option<IEnds4>>("Option<IEnds4>"),
        t::<Box<IEnds4>>("Box<IEnds4>"),
        t::<(IEnds4, u8)>("(IEnds4, u8)"),
        t::<(String, IEnds4, String)>("(String, IEnds4, String)"),
        t::<[IEnds4; 2]>("[IEnds4; 2]"),
        t::<BTreeMap<u16, IEnds4>>("BTreeMap<u16, IEnds4>"),
        t::<Field<IEnds4>>("Field<IEnds4>"),
        t::<Option<Vec<IEnds4>>>("Option<Vec<IEnds4>>"),
        t::<Vec<(IEnds4, IEnds4)>>("Vec<(IEnds4, IEnds4)>"),
        t::<Arms<IEnds4>>("Arms<IEnds4>"),
        t::<IEnds7>("IEnds7"),
        t::<IEnds12>("IEnds12"),
        t::<IWrap1>("IWrap1"),
        t::<IWrap2>("IWrap2"),
        t::<IWrap3>("IWrap3"),
        t::<IWrap4>("IWrap4"),
        t::<IWrap7>("IWrap7"),
        t::<IWrap12>("IWrap12"),
        t::<IMany26>("IMany26"),
        t::<IMany27>("IMany27"),
        t::<IMany40>("IMany40"),
        t::<Vec<IMany40>>("Vec<IMany40>"),
        t::<Option<IMany40>>("Option<IMany40>"),
        t::<Box<IMany40>>("Box<IMany40>"),
        t::<(IMany40, u8)>("(IMany40, u8)"),
        t::<(String, IMany40, String)>("(String, IMany40, String)"),
        t::<[IMany40; 2]>("[IMany40; 2]"),
        t::<BTreeMap<u16, IMany40>>("BTreeMap<u16, IMany40>"),
        t::<Field<IMany40>>("Field<IMany40>"),
        t::<Option<Vec<IMany40>>>("Option<Vec<IMany40>>"),
        t::<Vec<(IMany40, IMany40)>>("Vec<(IMany40, IMany40)>"),
        t::<Arms<IMany40>>("Arms<IMany40>"),
        t::<IMany130>("IMany130"),
        t::<IMany300>("IMany300"),
        t::<IItems0>("IItems0"),
        t::<Vec<IItems0>>("Vec<IItems0>"),
        t::<Option<IItems0>>("Option<IItems0>"),
        t::<Box<IItems0>>("Box<IItems0>"),
        t::<(IItems0, u8)>("(IItems0, u8)"),
        t::<(String, IItems0, String)>("(String, IItems0, String)"),
        t::<[IItems0; 2]>("[IItems0; 2]"),
        t::<BTreeMap<u16, IItems0>>("BTreeMap<u16, IItems0>"),
        t::<Field<IItems0>>("Field<IItems0>"),
        t::<Option<Vec<IItems0>>>("Option<Vec<IItems0>>"),
        t::<Vec<(IItems0, IItems0)>>("Vec<(IItems0, IItems0)>"),
        t::<Arms<IItems0>>("Arms<IItems0>"),
        t::<IItems1>("IItems1"),
        t::<IItems2>("IItems2"),
        t::<IItems3>("IItems3"),
        t::<IItems4>("IItems4"),
        t::<IItems5>("IItems5"),
        t::<IItems6>("IItems6"),
        t::<IItems7>("IItems7"),
        t::<IItems8>("IItems8"),
        t::<IItems9>("IItems9"),
        t::<Vec<IItems9>>("Vec<IItems9>"),
        t::<Option<IItems9>>("Option<IItems9>"),
        t::<Box<IItems9>>("Box<IItems9>"),
        t::<(IItems9, u8)>("(IItems9, u8)"),
        t::<(String, IItems9, String)>("(String, IItems9, String)"),
        t::<[IItems9; 2]>("[IItems9; 2]"),
        t::<BTreeMap<u16, IItems9>>("BTreeMap<u16, IItems9>"),
        t::<Field<IItems9>>("Field<IItems9>"),
        t::<Option<Vec<IItems9>>>("Option<Vec<IItems9>>"),
        t::<Vec<(IItems9, IItems9)>>("Vec<(IItems9, IItems9)>"),
        t::<Arms<IItems9>>("Arms<IItems9>"),
        t::<IItems10>("IItems10"),
        t::<Vec<IItems10>>("Vec<IItems10>"),
        t::<Option<IItems10>>("Option<IItems10>"),
        t::<Box<IItems10>>("Box<IItems10>"),
        t::<(IItems10, u8)>("(IItems10, u8)"),
        t::<(String, IItems10, String)>("(String, IItems10, String)"),
        t::<[IItems10; 2]>("[IItems10; 2]"),
        t::<BTreeMap<u16, IItems10>>("BTreeMap<u16, IItems10>"),
        t::<Field<IItems10>>("Field<IItems10>"),
        t::<Option<Vec<IItems10>>>("Option<Vec<IItems10>>"),
        t::<Vec<(IItems10, IItems10)>>("Vec<(IItems10, IItems10)>"),
        t::<Arms<IItems10>>("Arms<IItems10>"),
        t::<IItems11>("IItems11"),
        t::<IItems12>("IItems12"),
        t::<IItems13>("IItems13"),
        t::<IItems14>("IItems14"),
        t::<IItems15>("IItems15"),
        t::<IItems16>("IItems16"),
        t::<IItems17>("IItems17"),
        t::<IItems18>("IItems18"),
        t::<IItems19>("IItems19"),
        t::<IItems20>("IItems20"),
        t::<Vec<IItems20>>("Vec<IItems20>"),
        t::<Option<IItems20>>("Option<IItems20>"),
        t::<Box<IItems20>>("Box<IItems20>"),
        t::<(IItems20, u8)>("(IItems20, u8)"),
        t::<(String, IItems20, String)>("(String, IItems20, String)"),
        t::<[IItems20; 2]>("[IItems20; 2]"),
        t::<BTreeMap<u16, IItems20>>("BTreeMap<u16, IItems20>"),
        t::<Field<IItems20>>("Field<IItems20>"),
        t::<Option<Vec<IItems20>>>("Option<Vec<IItems20>>"),
        t::<Vec<(IItems20, IItems20)>>("Vec<(IItems20, IItems20)>"),
        t::<Arms<IItems20>>("Arms<IItems20>"),
        t::<IItems24>("IItems24"),
        t::<IItems31>("IItems31"),
        t::<IItems32>("IItems32"),
        t::<IItems33>("IItems33"),
        t::<IItems48>("IItems48"),
        t::<IItems64>("IItems64"),
        t::<IItems100>("IItems100"),
        t::<IOrder0>("IOrder0"),
        t::<IOrder1>("IOrder1"),
        t::<Vec<IOrder1>>("Vec<IOrder1>"),
        t::<Option<IOrder1>>("Option<IOrder1>"),
        t::<Box<IOrder1>>("Box<IOrder1>"),
        t::<(IOrder1, u8)>("(IOrder1, u8)"),
        t::<(String, IOrder1, String)>("(String, IOrder1, String)"),
        t::<[IOrder1; 2]>("[IOrder1; 2]"),
        t::<BTreeMap<u16, IOrder1>>("BTreeMap<u16, IOrder1>"),
        t::<Field<IOrder1>>("Field<IOrder1>"),
        t::<Option<Vec<IOrder1>>>("Option<Vec<IOrder1>>"),
        t::<Vec<(IOrder1, IOrder1)>>("Vec<(IOrder1, IOrder1)>"),
        t::<Arms<IOrder1>>("Arms<IOrder1>"),
        t::<IOrder2>("IOrder2"),
        t::<IOrder3>("IOrder3"),
        t::<IOrder4>("IOrder4"),
        t::<ILeaf0>("ILeaf0"),
        t::<ILeaf1>("ILeaf1"),
        t::<ILeaf2>("ILeaf2"),
        t::<ILeaf3>("ILeaf3"),
        t::<ILeaf4>("ILeaf4"),
        t::<ILeaf5>("ILeaf5"),
        t::<ILeaf6>("ILeaf6"),
        t::<ILeaf7>("ILeaf7"),
        t::<ILeaf8>("ILeaf8"),
        t::<ILeaf9>("ILeaf9"),
        t::<ILeaf10>("ILeaf10"),
        t::<ILeaf11>("ILeaf11"),
        t::<ILeaf12>("ILeaf12"),
        t::<Vec<ILeaf12>>("Vec<ILeaf12>"),
        t::<Option<ILeaf12>>("Option<ILeaf12>"),
        t::<Box<ILeaf12>>("Box<ILeaf12>"),
        t::<(ILeaf12, u8)>("(ILeaf12, u8)"),
        t::<(String, ILeaf12, String)>("(String, ILeaf12, String)"),
        t::<[ILeaf12; 2]>("[ILeaf12; 2]"),
        t::<BTreeMap<u16, ILeaf12>>("BTreeMap<u16, ILeaf12>"),
        t::<Field<ILeaf12>>("Field<ILeaf12>"),
        t::<Option<Vec<ILeaf12>>>("Option<Vec<ILeaf12>>"),
        t::<Vec<(ILeaf12, ILeaf12)>>("Vec<(ILeaf12, ILeaf12)>"),
        t::<Arms<ILeaf12>>("Arms<ILeaf12>"),
        t::<ILeaf13>("ILeaf13"),
        t::<ILeaf14>("ILeaf14"),
        t::<ILeaf15>("ILeaf15"),
        t::<ILeaf16>("ILeaf16"),
        t::<ILeaf17>("ILeaf17"),
        t::<Vec<ILeaf17>>("Vec<ILeaf17>"),
        t::<Option<ILeaf17>>("Option<ILeaf17>"),
        t::<Box<ILeaf17>>("Box<ILeaf17>"),
        t::<(ILeaf17, u8)>("(ILeaf17, u8)"),
        t::<(String, ILeaf17, String)>("(String, ILeaf17, String)"),
        t::<[ILeaf17; 2]>("[ILeaf17; 2]"),
        t::<BTreeMap<u16, ILeaf17>>("BTreeMap<u16, ILeaf17>"),
        t::<Field<ILeaf17>>("Field<ILeaf17>"),
        t::<Option<Vec<ILeaf17>>>("Option<Vec<ILeaf17>>"),
        t::<Vec<(ILeaf17, ILeaf17)>>("Vec<(ILeaf17, ILeaf17)>"),
        t::<Arms<ILeaf17>>("Arms<ILeaf17>"),
        t::<ILeaf18>("ILeaf18"),
        t::<ILeaf19>("ILeaf19"),
        t::<ILeaf20>("ILeaf20"),
        t::<ILeaf21>("ILeaf21"),
        t::<ILeaf22>("ILeaf22"),
        t::<ILeaf23>("ILeaf23"),
        t::<ILeaf24>("ILeaf24"),
        t::<ILeaf25>("ILeaf25"),
        t::<ILeaf26>("ILeaf26"),
        t::<ILeaf27>("ILeaf27"),
        t::<ILeaf28>("ILeaf28"),
        t::<IUnits>("IUnits"),
        t::<Vec<IUnits>>("Vec<IUnits>"),
        t::<Option<IUnits>>("Option<IUnits>"),
        t::<Box<IUnits>>("Box<IUnits>"),
        t::<(IUnits, u8)>("(IUnits, u8)"),
        t::<(String, IUnits, String)>("(String, IUnits, String)"),
        t::<[IUnits; 2]>("[IUnits; 2]"),
        t::<BTreeMap<u16, IUnits>>("BTreeMap<u16, IUnits>"),
        t::<Field<IUnits>>("Field<IUnits>"),
        t::<Option<Vec<IUnits>>>("Option<Vec<IUnits>>"),
        t::<Vec<(IUnits, IUnits)>>("Vec<(IUnits, IUnits)>"),
        t::<Arms<IUnits>>("Arms<IUnits>"),
        t::<IEmpty>("IEmpty"),
        t::<INames>("INames"),
        t::<INamesAll>("INamesAll"),
        t::<_T>("_T"),
        t::<T_>("T_"),
        t::<t>("t"),
        t::<_t_>("_t_"),
        t::<T1_>("T1_"),
        t::<Ünion>("Ünion"),
        t::<A>("A"),
        t::<S>("S"),
        t::<V>("V"),
        t::<M>("M"),
        t::<XdrIndexerVisitor>("XdrIndexerVisitor"),
        t::<Visitor>("Visitor"),
        t::<SeqAccess>("SeqAccess"),
        t::<Value>("Value"),
        t::<ITaken>("ITaken"),
        t::<IAlias>("IAlias"),
        t::<INest1>("INest1"),
        t::<INest2>("INest2"),
        t::<Vec<INest2>>("Vec<INest2>"),
        t::<Option<INest2>>("Option<INest2>"),
        t::<Box<INest2>>("Box<INest2>"),
        t::<(INest2, u8)>("(INest2, u8)"),
        t::<(String, INest2, String)>("(String, INest2, String)"),
        t::<[INest2; 2]>("[INest2; 2]"),
        t::<BTreeMap<u16, INest2>>("BTreeMap<u16, INest2>"),
        t::<Field<INest2>>("Field<INest2>"),
        t::<Option<Vec<INest2>>>("Option<Vec<INest2>>"),
        t::<Vec<(INest2, INest2)>>("Vec<(INest2, INest2)>"),
        t::<Arms<INest2>>("Arms<INest2>"),
    ]
}
pub fn valued() -> Vec<Box<dyn Target>> {
    vec![
        t::<UI32N1>("UI32N1"),
        t::<UI32Rev1>("UI32Rev1"),
        t::<UI32N2>("UI32N2"),
        t::<UI32Rev2>("UI32Rev2"),
        t::<UI32N3>("UI32N3"),
        t::<UI32Rev3>("UI32Rev3"),
        t::<UI32N5>("UI32N5"),
        t::<Vec<UI32N5>>("Vec<UI32N5>"),
        t::<Option<UI32N5>>("Option<UI32N5>"),
        t::<Box<UI32N5>>("Box<UI32N5>"),
        t::<(UI32N5, u8)>("(UI32N5, u8)"),
        t::<(String, UI32N5, String)>("(String, UI32N5, String)"),
        t::<[UI32N5; 2]>("[UI32N5; 2]"),
        t::<BTreeMap<u16, UI32N5>>("BTreeMap<u16, UI32N5>"),
        t::<Field<UI32N5>>("Field<UI32N5>"),
        t::<Option<Vec<UI32N5>>>("Option<Vec<UI32N5>>"),
        t::<Vec<(UI32N5, UI32N5)>>("Vec<(UI32N5, UI32N5)>"),
        t::<Arms<UI32N5>>("Arms<UI32N5>"),
        t::<UI32Rev5>("UI32Rev5"),
        t::<UI32N12>("UI32N12"),
        t::<UI32Rev12>("UI32Rev12"),
        t::<UI32Items0>("UI32Items0"),
        t::<Vec<UI32Items0>>("Vec<UI32Items0>"),
        t::<Option<UI32Items0>>("Option<UI32Items0>"),
        t::<Box<UI32Items0>>("Box<UI32Items0>"),
        t::<(UI32Items0, u8)>("(UI32Items0, u8)"),
        t::<(String, UI32Items0, String)>("(String, UI32Items0, String)"),
        t::<[UI32Items0; 2]>("[UI32Items0; 2]"),
        t::<BTreeMap<u16, UI32Items0>>("BTreeMap<u16, UI32Items0>"),
        t::<Field<UI32Items0>>("Field<UI32Items0>"),
        t::<Option<Vec<UI32Items0>>>("Option<Vec<UI32Items0>>"),
        t::<Vec<(UI32Items0, UI32Items0)>>("Vec<(UI32Items0, UI32Items0)>"),
        t::<Arms<UI32Items0>>("Arms<UI32Items0>"),
        t::<UI32Items1>("UI32Items1"),
        t::<UI32Items2>("UI32Items2"),
        t::<UI32Items3>("UI32Items3"),
        t::<UI32Items4>("UI32Items4"),
        t::<UI32Items5>("UI32Items5"),
        t::<UI32Items6>("UI32Items6"),
        t::<UI32Items7>("UI32Items7"),
        t::<UI32Items8>("UI32Items8"),
        t::<UI32Items9>("UI32Items9"),
        t::<UI32Items10>("UI32Items10"),
        t::<Vec<UI32Items10>>("Vec<UI32Items10>"),
        t::<Option<UI32Items10>>("Option<UI32Items10>"),
        t::<Box<UI32Items10>>("Box<UI32Items10>"),
        t::<(UI32Items10, u8)>("(UI32Items10, u8)"),
        t::<(String, UI32Items10, String)>("(String, UI32Items10, String)"),
        t::<[UI32Items10; 2]>("[UI32Items10; 2]"),
        t::<BTreeMap<u16, UI32Items10>>("BTreeMap<u16, UI32Items10>"),
        t::<Field<UI32Items10>>("Field<UI32Items10>"),
        t::<Option<Vec<UI32Items10>>>("Option<Vec<UI32Items10>>"),
        t::<Vec<(UI32Items10, UI32Items10)>>("Vec<(UI32Items10, UI32Items10)>"),
        t::<Arms<UI32Items10>>("Arms<UI32Items10>"),
        t::<UI32Items11>("UI32Items11"),
        t::<UI32Items12>("UI32Items12"),
        t::<UI32Items15>("UI32Items15"),
        t::<UI32Items16>("UI32Items16"),
        t::<UI32Items17>("UI32Items17"),
        t::<UI32Items31>("UI32Items31"),
        t::<UI32Items32>("UI32Items32"),
        t::<UI32Items33>("UI32Items33"),
        t::<UI32Items64>("UI32Items64"),
        t::<UI32Many26>("UI32Many26"),
        t::<UI32Many40>("UI32Many40"),
        t::<UI32Many130>("UI32Many130"),
        t::<UI32Many300>("UI32Many300"),
        t::<UI32Order0>("UI32Order0"),
        t::<UI32Order1>("UI32Order1"),
        t::<UI32Order2>("UI32Order2"),
        t::<UI32Order3>("UI32Order3"),
        t::<UI32Shared>("UI32Shared"),
        t::<UI32Shared2>("UI32Shared2"),
        t::<UI32Default>("UI32Default"),
        t::<Vec<UI32Default>>("Vec<UI32Default>"),
        t::<Option<UI32Default>>("Option<UI32Default>"),
        t::<Box<UI32Default>>("Box<UI32Default>"),
        t::<(UI32Default, u8)>("(UI32Default, u8)"),
        t::<(String, UI32Default, String)>("(String, UI32Default, String)"),
        t::<[UI32Default; 2]>("[UI32Default; 2]"),
        t::<BTreeMap<u16, UI32Default>>("BTreeMap<u16, UI32Default>"),
        t::<Field<UI32Default>>("Field<UI32Default>"),
        t::<Option<Vec<UI32Default>>>("Option<Vec<UI32Default>>"),
        t::<Vec<(UI32Default, UI32Default)>>("Vec<(UI32Default, UI32Default)>"),
        t::<Arms<UI32Default>>("Arms<UI32Default>"),
        t::<UI32DefaultVoid>("UI32DefaultVoid"),
        t::<Vec<UI32DefaultVoid>>("Vec<UI32DefaultVoid>"),
        t::<Option<UI32DefaultVoid>>("Option<UI32DefaultVoid>"),
        t::<Box<UI32DefaultVoid>>("Box<UI32DefaultVoid>"),
        t::<(UI32DefaultVoid, u8)>("(UI32DefaultVoid, u8)"),
        t::<(String, UI32DefaultVoid, String)>("(String, UI32DefaultVoid, String)"),
        t::<[UI32DefaultVoid; 2]>("[UI32DefaultVoid; 2]"),
        t::<BTreeMap<u16, UI32DefaultVoid>>("BTreeMap<u16, UI32DefaultVoid>"),
        t::<Field<UI32DefaultVoid>>("Field<UI32DefaultVoid>"),
        t::<Option<Vec<UI32DefaultVoid>>>("Option<Vec<UI32DefaultVoid>>"),
        t::<Vec<(UI32DefaultVoid, UI32DefaultVoid)>>("Vec<(UI32DefaultVoid, UI32DefaultVoid)>"),
        t::<Arms<UI32DefaultVoid>>("Arms<UI32DefaultVoid>"),
        t::<UI32DefaultOnly>("UI32DefaultOnly"),
        t::<UI32DefaultShared>("UI32DefaultShared"),
        t::<UU32N1>("UU32N1"),
        t::<UU32Rev1>("UU32Rev1"),
        t::<UU32N2>("UU32N2"),
        t::<UU32Rev2>("UU32Rev2"),
        t::<UU32N3>("UU32N3"),
        t::<UU32Rev3>("UU32Rev3"),
        t::<UU32N5>("UU32N5"),
        t::<Vec<UU32N5>>("Vec<UU32N5>"),
        t::<Option<UU32N5>>("Option<UU32N5>"),
        t::<Box<UU32N5>>("Box<UU32N5>"),
        t::<(UU32N5, u8)>("(UU32N5, u8)"),
        t::<(String, UU32N5, String)>("(String, UU32N5, String)"),
        t::<[UU32N5; 2]>("[UU32N5; 2]"),
        t::<BTreeMap<u16, UU32N5>>("BTreeMap<u16, UU32N5>"),
        t::<Field<UU32N5>>("Field<UU32N5>"),
        t::<Option<Vec<UU32N5>>>("Option<Vec<UU32N5>>"),
        t::<Vec<(UU32N5, UU32N5)>>("Vec<(UU32N5, UU32N5)>"),
        t::<Arms<UU32N5>>("Arms<UU32N5>"),
        t::<UU32Rev5>("UU32Rev5"),
        t::<UU32N12>("UU32N12"),
        t::<UU32Rev12>("UU32Rev12"),
        t::<UU32Items0>("UU32Items0"),
        t::<UU32Items1>("UU32Items1"),
        t::<UU32Items2>("UU32Items2"),
        t::<UU32Items3>("UU32Items3"),
        t::<UU32Items4>("UU32Items4"),
        t::<UU32Items5>("UU32Items5"),
        t::<UU32Items6>("UU32Items6"),
        t::<UU32Items7>("UU32Items7"),
        t::<UU32Items8>("UU32Items8"),
        t::<UU32Items9>("UU32Items9"),
        t::<UU32Items10>("UU32Items10"),
        t::<UU32Items11>("UU32Items11"),
        t::<UU32Items12>("UU32Items12"),
        t::<UU32Items15>("UU32Items15"),
        t::<UU32Items16>("UU32Items16"),
        t::<Vec<UU32Items16>>("Vec<UU32Items16>"),
        t::<Option<UU32Items16>>("Option<UU32Items16>"),
        t::<Box<UU32Items16>>("Box<UU32Items16>"),
        t::<(UU32Items16, u8)>("(UU32Items16, u8)"),
        t::<(String, UU32Items16, String)>("(String, UU32Items16, String)"),
        t::<[UU32Items16; 2]>("[UU32Items16; 2]"),
        t::<BTreeMap<u16, UU32Items16>>("BTreeMap<u16, UU32Items16>"),
        t::<Field<UU32Items16>>("Field<UU32Items16>"),
        t::<Option<Vec<UU32Items16>>>("Option<Vec<UU32Items16>>"),
        t::<Vec<(UU32Items16, UU32Items16)>>("Vec<(UU32Items16, UU32Items16)>"),
        t::<Arms<UU32Items16>>("Arms<UU32Items16>"),
        t::<UU32Items17>("UU32Items17"),
        t::<UU32Items31>("UU32Items31"),
        t::<UU32Items32>("UU32Items32"),
        t::<UU32Items33>("UU32Items33"),
        t::<UU32Items64>("UU32Items64"),
        t::<UU32Many26>("UU32Many26"),
        t::<UU32Many40>("UU32Many40"),
        t::<UU32Many130>("UU32Many130"),
        t::<UU32Many300>("UU32Many300"),
        t::<UU32Order0>("UU32Order0"),
        t::<UU32Order1>("UU32Order1"),
        t::<UU32Order2>("UU32Order2"),
        t::<UU32Order3>("UU32Order3"),
        t::<UU32Shared>("UU32Shared"),
        t::<Vec<UU32Shared>>("Vec<UU32Shared>"),
        t::<Option<UU32Shared>>("Option<UU32Shared>"),
        t::<Box<UU32Shared>>("Box<UU32Shared>"),
        t::<(UU32Shared, u8)>("(UU32Shared, u8)"),
        t::<(String, UU32Shared, String)>("(String, UU32Shared, String)"),
        t::<[UU32Shared; 2]>("[UU32Shared; 2]"),
        t::<BTreeMap<u16, UU32Shared>>("BTreeMap<u16, UU32Shared>"),
        t::<Field<UU32Shared>>("Field<UU32Shared>"),
        t::<Option<Vec<UU32Shared>>>("Option<Vec<UU32Shared>>"),
        t::<Vec<(UU32Shared, UU32Shared)>>("Vec<(UU32Shared, UU32Shared)>"),
        t::<Arms<UU32Shared>>("Arms<UU32Shared>"),
        t::<UU32Shared2>("UU32Shared2"),
        t::<UU32Default>("UU32Default"),
        t::<UU32DefaultVoid>("UU32DefaultVoid"),
        t::<UU32DefaultOnly>("UU32DefaultOnly"),
        t::<UU32DefaultShared>("UU32DefaultShared"),
        t::<ULeaf0>("ULeaf0"),
        t::<ULeaf1>("ULeaf1"),
        t::<ULeaf2>("ULeaf2"),
        t::<ULeaf3>("ULeaf3"),
        t::<ULeaf4>("ULeaf4"),
        t::<ULeaf5>("ULeaf5"),
        t::<ULeaf6>("ULeaf6"),
        t::<ULeaf7>("ULeaf7"),
        t::<ULeaf8>("ULeaf8"),
        t::<ULeaf9>("ULeaf9"),
        t::<ULeaf10>("ULeaf10"),
        t::<ULeaf11>("ULeaf11"),
        t::<ULeaf12>("ULeaf12"),
        t::<ULeaf13>("ULeaf13"),
        t::<ULeaf14>("ULeaf14"),
        t::<ULeaf15>("ULeaf15"),
        t::<ULeaf16>("ULeaf16"),
        t::<ULeaf17>("ULeaf17"),
        t::<Vec<ULeaf17>>("Vec<ULeaf17>"),
        t::<Option<ULeaf17>>("Option<ULeaf17>"),
        t::<Box<ULeaf17>>("Box<ULeaf17>"),
        t::<(ULeaf17, u8)>("(ULeaf17, u8)"),
        t::<(String, ULeaf17, String)>("(String, ULeaf17, String)"),
        t::<[ULeaf17; 2]>("[ULeaf17; 2]"),
        t::<BTreeMap<u16, ULeaf17>>("BTreeMap<u16, ULeaf17>"),
        t::<Field<ULeaf17>>("Field<ULeaf17>"),
        t::<Option<Vec<ULeaf17>>>("Option<Vec<ULeaf17>>"),
        t::<Vec<(ULeaf17, ULeaf17)>>("Vec<(ULeaf17, ULeaf17)>"),
        t::<Arms<ULeaf17>>("Arms<ULeaf17>"),
        t::<ULeaf18>("ULeaf18"),
        t::<ULeaf19>("ULeaf19"),
        t::<ULeaf20>("ULeaf20"),
        t::<ULeaf21>("ULeaf21"),
        t::<ULeaf22>("ULeaf22"),
        t::<ULeaf23>("ULeaf23"),
        t::<ULeaf24>("ULeaf24"),
        t::<ULeaf25>("ULeaf25"),
        t::<ULeaf26>("ULeaf26"),
        t::<ULeaf27>("ULeaf27"),
        t::<ULeaf28>("ULeaf28"),
        t::<UBool117>("UBool117"),
        t::<UBoolR117>("UBoolR117"),
        t::<UBool119>("UBool119"),
        t::<UBoolR119>("UBoolR119"),
        t::<UBool121>("UBool121"),
        t::<UBoolR121>("UBoolR121"),
        t::<UBool123>("UBool123"),
        t::<UBoolR123>("UBoolR123"),
        t::<UBoolOne>("UBoolOne"),
        t::<UBoolZero>("UBoolZero"),
        t::<UBoolDefault>("UBoolDefault"),
        t::<UBoolShared>("UBoolShared"),
        t::<Vec<UBoolShared>>("Vec<UBoolShared>"),
        t::<Option<UBoolShared>>("Option<UBoolShared>"),
        t::<Box<UBoolShared>>("Box<UBoolShared>"),
        t::<(UBoolShared, u8)>("(UBoolShared, u8)"),
        t::<(String, UBoolShared, String)>("(String, UBoolShared, String)"),
        t::<[UBoolShared; 2]>("[UBoolShared; 2]"),
        t::<BTreeMap<u16, UBoolShared>>("BTreeMap<u16, UBoolShared>"),
        t::<Field<UBoolShared>>("Field<UBoolShared>"),
        t::<Option<Vec<UBoolShared>>>("Option<Vec<UBoolShared>>"),
        t::<Vec<(UBoolShared, UBoolShared)>>("Vec<(UBoolShared, UBoolShared)>"),
        t::<Arms<UBoolShared>>("Arms<UBoolShared>"),
        t::<UCases>("UCases"),
        t::<UCasesAll>("UCasesAll"),
        t::<UCasesShared>("UCasesShared"),
        t::<UCasesDefault>("UCasesDefault"),
        t::<Vec<UCasesDefault>>("Vec<UCasesDefault>"),
        t::<Option<UCasesDefault>>("Option<UCasesDefault>"),
        t::<Box<UCasesDefault>>("Box<UCasesDefault>"),
        t::<(UCasesDefault, u8)>("(UCasesDefault, u8)"),
        t::<(String, UCasesDefault, String)>("(String, UCasesDefault, String)"),
        t::<[UCasesDefault; 2]>("[UCasesDefault; 2]"),
        t::<BTreeMap<u16, UCasesDefault>>("BTreeMap<u16, UCasesDefault>"),
        t::<Field<UCasesDefault>>("Field<UCasesDefault>"),
        t::<Option<Vec<UCasesDefault>>>("Option<Vec<UCasesDefault>>"),
        t::<Vec<(UCasesDefault, UCasesDefault)>>("Vec<(UCasesDefault, UCasesDefault)>"),
        t::<Arms<UCasesDefault>>("Arms<UCasesDefault>"),
        t::<UCasesSeq>("UCasesSeq"),
        t::<UCasesSeqAll>("UCasesSeqAll"),
        t::<UCasesSeqShared>("UCasesSeqShared"),
        t::<UCasesSeqDefault>("UCasesSeqDefault"),
        t::<UPlain>("UPlain"),
        t::<Vec<UPlain>>("Vec<UPlain>"),
        t::<Option<UPlain>>("Option<UPlain>"),
        t::<Box<UPlain>>("Box<UPlain>"),
        t::<(UPlain, u8)>("(UPlain, u8)"),
        t::<(String, UPlain, String)>("(String, UPlain, String)"),
        t::<[UPlain; 2]>("[UPlain; 2]"),
        t::<BTreeMap<u16, UPlain>>("BTreeMap<u16, UPlain>"),
        t::<Field<UPlain>>("Field<UPlain>"),
        t::<Option<Vec<UPlain>>>("Option<Vec<UPlain>>"),
        t::<Vec<(UPlain, UPlain)>>("Vec<(UPlain, UPlain)>"),
        t::<Arms<UPlain>>("Arms<UPlain>"),
        t::<UPlainDefault>("UPlainDefault"),
        t::<UI8>("UI8"),
        t::<UU8>("UU8"),
        t::<UI16>("UI16"),
        t::<UU16>("UU16"),
        t::<UI64>("UI64"),
        t::<UU64>("UU64"),
        t::<UCHAR>("UCHAR"),
        t::<UNames>("UNames"),
        t::<UNamesAll>("UNamesAll"),
        t::<_U>("_U"),
        t::<U_>("U_"),
        t::<u>("u"),
        t::<_u_>("_u_"),
        t::<U1_>("U1_"),
        t::<Ünion_>("Ünion_"),
        t::<D>("D"),
        t::<E>("E"),
        t::<T>("T"),
        t::<K>("K"),
        t::<XdrUnionVisitor>("XdrUnionVisitor"),
        t::<Formatter>("Formatter"),
        t::<Error>("Error"),
        t::<UTaken>("UTaken"),
        t::<UNest>("UNest"),
        t::<UNest2>("UNest2"),
        t::<Vec<UNest2>>("Vec<UNest2>"),
        t::<Option<UNest2>>("Option<UNest2>"),
        t::<Box<UNest2>>("Box<UNest2>"),
        t::<(UNest2, u8)>("(UNest2, u8)"),
        t::<(String, UNest2, String)>("(String, UNest2, String)"),
        t::<[UNest2; 2]>("[UNest2; 2]"),
        t::<BTreeMap<u16, UNest2>>("BTreeMap<u16, UNest2>"),
        t::<Field<UNest2>>("Field<UNest2>"),
        t::<Option<Vec<UNest2>>>("Option<Vec<UNest2>>"),
        t::<Vec<(UNest2, UNest2)>>("Vec<(UNest2, UNest2)>"),
        t::<Arms<UNest2>>("Arms<UNest2>"),
    ]
}
