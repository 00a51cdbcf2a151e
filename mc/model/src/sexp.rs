//! Text form of types and values, so that every violation is a replayable artefact.
use crate::ty::*;
use std::sync::Arc;

pub fn ty(t: &Ty) -> String {
    fn many(h: &str, ts: &[Arc<Ty>]) -> String {
        let mut s = format!("({h}");
        for t in ts {
            s.push(' ');
            s.push_str(&ty(t));
        }
        s.push(')');
        s
    }
    match t {
        Ty::New(t) => format!("(new {})", ty(t)),
        Ty::Opt(t) => format!("(opt {})", ty(t)),
        Ty::Seq(t) => format!("(seq {})", ty(t)),
        Ty::Map(k, v) => format!("(map {} {})", ty(k), ty(v)),
        Ty::Tuple(ts) => many("tuple", ts),
        Ty::TupleStruct(ts) => many("tstruct", ts),
        Ty::Struct(ts) => many("struct", ts),
        Ty::Enum(arms) => {
            let mut s = "(enum".to_string();
            for a in arms {
                s.push(' ');
                match a {
                    Arm::Unit => s.push('_'),
                    Arm::New(t) => s.push_str(&format!("(new {})", ty(t))),
                    Arm::Tuple(ts) => s.push_str(&many("tuple", ts)),
                    Arm::Struct(ts) => s.push_str(&many("struct", ts)),
                }
            }
            s.push(')');
            s
        }
        Ty::OpFix(n) => format!("(opfix {n})"),
        Ty::S32(v) => format!(
            "(s32{})",
            v.iter().map(|x| format!(" {x}")).collect::<String>()
        ),
        Ty::I32of(v) => format!(
            "(i32of{})",
            v.iter().map(|x| format!(" {x}")).collect::<String>()
        ),
        Ty::U32of(v) => format!(
            "(u32of{})",
            v.iter().map(|x| format!(" {x}")).collect::<String>()
        ),
        Ty::E32(v, a, b) => format!(
            "(e32 {a} {b}{})",
            v.iter().map(|x| format!(" {x}")).collect::<String>()
        ),
        Ty::Ref(_) => "rec".into(),
        // printed only: unions are always compiled types, replayed by name
        Ty::Union(u) => {
            let mut s = format!("(union {}", ty(&u.disc));
            for (v, a) in &u.cases {
                s.push_str(&format!(" ({v:?} -> {a})"));
            }
            if let Some(a) = u.default {
                s.push_str(&format!(" (default -> {a})"));
            }
            for a in &u.arms {
                s.push(' ');
                s.push_str(&many("arm", a));
            }
            s.push(')');
            s
        }
        x => format!("{x:?}").to_lowercase(),
    }
}

enum S {
    A(String),
    L(Vec<S>),
}
fn parse(s: &str) -> S {
    let mut stack: Vec<Vec<S>> = vec![vec![]];
    let s = s.replace('(', " ( ").replace(')', " ) ");
    for w in s.split_whitespace() {
        match w {
            "(" => stack.push(vec![]),
            ")" => {
                let l = stack.pop().unwrap();
                stack.last_mut().unwrap().push(S::L(l));
            }
            w => stack.last_mut().unwrap().push(S::A(w.to_string())),
        }
    }
    stack.pop().unwrap().pop().unwrap()
}
pub fn read_ty(s: &str) -> Arc<Ty> {
    go(&parse(s))
}
fn go(s: &S) -> Arc<Ty> {
    let many = |l: &[S]| l.iter().map(go).collect::<Vec<_>>();
    Arc::new(match s {
        S::A(a) => match a.as_str() {
            "bool" => Ty::Bool,
            "i8" => Ty::I8,
            "i16" => Ty::I16,
            "i32" => Ty::I32,
            "i64" => Ty::I64,
            "u8" => Ty::U8,
            "u16" => Ty::U16,
            "u32" => Ty::U32,
            "u64" => Ty::U64,
            "f32" => Ty::F32,
            "f64" => Ty::F64,
            "char" => Ty::Char,
            "str" => Ty::Str,
            "strref" => Ty::StrRef,
            "bytes" => Ty::Bytes,
            "bytesref" => Ty::BytesRef,
            "unit" => Ty::Unit,
            "unitstruct" => Ty::UnitStruct,
            "opvar" => Ty::OpVar,
            "oparr" => Ty::OpArr,
            x => panic!("type? {x}"),
        },
        S::L(l) => {
            let S::A(h) = &l[0] else { panic!() };
            let r = &l[1..];
            match h.as_str() {
                "new" => Ty::New(go(&r[0])),
                "opt" => Ty::Opt(go(&r[0])),
                "seq" => Ty::Seq(go(&r[0])),
                "map" => Ty::Map(go(&r[0]), go(&r[1])),
                "tuple" => Ty::Tuple(many(r)),
                "tstruct" => Ty::TupleStruct(many(r)),
                "struct" => Ty::Struct(many(r)),
                "opfix" => {
                    let S::A(n) = &r[0] else { panic!() };
                    Ty::OpFix(n.parse().unwrap())
                }
                "s32" => Ty::S32(
                    r.iter()
                        .map(|x| {
                            let S::A(n) = x else { panic!() };
                            n.parse().unwrap()
                        })
                        .collect(),
                ),
                "enum" => Ty::Enum(
                    r.iter()
                        .map(|x| match x {
                            S::A(_) => Arm::Unit,
                            S::L(l) => {
                                let S::A(h) = &l[0] else { panic!() };
                                match h.as_str() {
                                    "new" => Arm::New(go(&l[1])),
                                    "tuple" => Arm::Tuple(many(&l[1..])),
                                    _ => Arm::Struct(many(&l[1..])),
                                }
                            }
                        })
                        .collect(),
                ),
                x => panic!("type? {x}"),
            }
        }
    })
}

pub fn hex(b: &[u8]) -> String {
    const D: &[u8] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2 + 1);
    for x in b {
        s.push(D[(x >> 4) as usize] as char);
        s.push(D[(x & 15) as usize] as char);
    }
    if s.is_empty() {
        s.push('-');
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}
