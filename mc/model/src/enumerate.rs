//! All type terms up to a size over a leaf set, and finite value alphabets for a type.
use crate::ty::*;
use std::cell::Cell;
use std::sync::Arc;

thread_local! { static DEPTH: Cell<usize> = const { Cell::new(0) }; }

pub fn all_leaves() -> Vec<Ty> {
    vec![
        Ty::Bool,
        Ty::I8,
        Ty::I16,
        Ty::I32,
        Ty::I64,
        Ty::U8,
        Ty::U16,
        Ty::U32,
        Ty::U64,
        Ty::F32,
        Ty::F64,
        Ty::Char,
        Ty::Str,
        Ty::StrRef,
        Ty::Bytes,
        Ty::BytesRef,
        Ty::Unit,
        Ty::UnitStruct,
        Ty::OpFix(0),
        Ty::OpFix(1),
        Ty::OpFix(3),
        Ty::OpFix(4),
        Ty::OpFix(5),
        Ty::OpVar,
        Ty::OpArr,
        Ty::S32(vec![-1, 0, 5]),
        Ty::S32(vec![i32::MIN, i32::MAX]),
        Ty::Enum(vec![Arm::Unit, Arm::Unit, Arm::Unit]),
    ]
}

/// one leaf per behavioural family
pub fn core_leaves() -> Vec<Ty> {
    vec![
        Ty::U8,
        Ty::I64,
        Ty::Str,
        Ty::Bytes,
        Ty::Unit,
        Ty::OpFix(3),
        Ty::OpVar,
        Ty::S32(vec![-1, 0, 5]),
    ]
}
pub fn tiny_leaves() -> Vec<Ty> {
    vec![Ty::I32, Ty::Str]
}

fn unary(t: &Arc<Ty>) -> Vec<Ty> {
    let t = || t.clone();
    vec![
        Ty::New(t()),
        Ty::Opt(t()),
        Ty::Seq(t()),
        Ty::Tuple(vec![t()]),
        Ty::TupleStruct(vec![t()]),
        Ty::Struct(vec![t()]),
        Ty::Enum(vec![Arm::Unit, Arm::New(t())]),
        Ty::Enum(vec![Arm::Tuple(vec![t()]), Arm::Unit]),
        Ty::Enum(vec![Arm::Struct(vec![t()])]),
    ]
}
fn binary(a: &Arc<Ty>, b: &Arc<Ty>) -> Vec<Ty> {
    let (a, b) = (|| a.clone(), || b.clone());
    vec![
        Ty::Map(a(), b()),
        Ty::Tuple(vec![a(), b()]),
        Ty::TupleStruct(vec![a(), b()]),
        Ty::Struct(vec![a(), b()]),
        Ty::Enum(vec![Arm::New(a()), Arm::New(b())]),
        Ty::Enum(vec![Arm::Unit, Arm::Tuple(vec![a(), b()])]),
        Ty::Enum(vec![Arm::Struct(vec![a(), b()]), Arm::Unit]),
    ]
}

/// all terms of exactly `size` constructors and leaves
pub fn terms(leaves: &[Ty], size: usize) -> Vec<Arc<Ty>> {
    let mut by: Vec<Vec<Arc<Ty>>> = vec![vec![]];
    by.push(leaves.iter().cloned().map(Arc::new).collect());
    for n in 2..=size {
        let mut v = vec![];
        for t in &by[n - 1] {
            v.extend(unary(t).into_iter().map(Arc::new));
        }
        for i in 1..n - 1 {
            let j = n - 1 - i;
            for a in &by[i] {
                for b in &by[j] {
                    v.extend(binary(a, b).into_iter().map(Arc::new));
                }
            }
        }
        by.push(v);
    }
    by.pop().unwrap()
}

/// every leaf next to every other
fn pairs() -> Vec<Arc<Ty>> {
    let l: Vec<Arc<Ty>> = all_leaves().into_iter().map(Arc::new).collect();
    let mut v = vec![];
    for a in &l {
        for b in &l {
            let (a, b) = (|| a.clone(), || b.clone());
            v.extend(
                [
                    Ty::Tuple(vec![a(), b()]),
                    Ty::Map(a(), b()),
                    Ty::Struct(vec![a(), b()]),
                ]
                .map(Arc::new),
            );
        }
    }
    v
}

/// the type families a tier explores, with the size of each term
pub fn families(thorough: bool) -> Vec<(usize, Arc<Ty>)> {
    let mut v = vec![];
    let mut push = |n: usize, ts: Vec<Arc<Ty>>| v.extend(ts.into_iter().map(|t| (n, t)));
    push(1, terms(&all_leaves(), 1));
    push(2, terms(&all_leaves(), 2));
    if thorough {
        push(3, terms(&all_leaves(), 3));
        push(4, terms(&core_leaves(), 4));
        push(5, terms(&[Ty::Str], 5));
    } else {
        push(3, terms(&core_leaves(), 3));
        push(3, pairs());
        push(4, terms(&tiny_leaves(), 4));
    }
    for t in shapes() {
        push(6, vec![t]);
    }
    v
}

/// hand-picked large shapes that no small term reaches
pub fn shapes() -> Vec<Arc<Ty>> {
    let mut v = vec![];
    let a = |t: Ty| Arc::new(t);
    // wide products of mixed parts
    let mixed: Vec<Arc<Ty>> = all_leaves().into_iter().map(Arc::new).collect();
    v.push(Ty::Tuple(mixed.clone()));
    v.push(Ty::Struct(mixed.clone()));
    v.push(Ty::TupleStruct(mixed.clone()));
    v.push(Ty::Enum(vec![
        Arm::Tuple(mixed.clone()),
        Arm::Struct(mixed.clone()),
    ]));
    v.push(Ty::Enum(
        mixed.iter().map(|t| Arm::New(t.clone())).collect(),
    ));
    // more variants than fit in a byte
    let mut arms: Vec<Arm> = (0..300).map(|_| Arm::Unit).collect();
    arms[256] = Arm::New(a(Ty::I32));
    arms[299] = Arm::Tuple(vec![a(Ty::Str), a(Ty::U8)]);
    v.push(Ty::Enum(arms.clone()));
    v.push(Ty::Opt(a(Ty::Enum(arms))));
    // deep nesting of every wrapper
    let mut t = Ty::U8;
    for i in 0..40 {
        t = match i % 5 {
            0 => Ty::Opt(a(t)),
            1 => Ty::Struct(vec![a(t), a(Ty::I8)]),
            2 => Ty::New(a(t)),
            3 => Ty::Enum(vec![Arm::Unit, Arm::New(a(t))]),
            _ => Ty::Tuple(vec![a(t)]),
        };
    }
    v.push(t);
    let mut t = Ty::Str;
    for _ in 0..6 {
        t = Ty::Seq(a(t));
    }
    v.push(t);
    let mut t = Ty::Bool;
    for _ in 0..30 {
        t = Ty::Opt(a(t));
    }
    v.push(t);
    v.push(Ty::Map(
        a(Ty::Str),
        a(Ty::Map(a(Ty::I32), a(Ty::Seq(a(Ty::Bytes))))),
    ));
    v.push(Ty::Seq(a(Ty::Struct(vec![
        a(Ty::Str),
        a(Ty::OpFix(5)),
        a(Ty::OpVar),
        a(Ty::Opt(a(Ty::OpArr))),
        a(Ty::U16),
    ]))));
    v.into_iter().map(Arc::new).collect()
}

pub fn text(n: usize) -> String {
    // 1-, 2-, 3- and 4-byte characters, exactly n bytes
    let mut s = String::new();
    let cs = ["a", "é", "€", "😀", "\0", "Z"];
    let mut i = 0;
    while s.len() < n {
        let c = cs[i % cs.len()];
        if s.len() + c.len() <= n {
            s.push_str(c);
        } else {
            s.push('x');
        }
        i += 1;
    }
    s
}

/// Finite alphabet of values; `rich` 2 = every boundary, 1 = a few, 0 = two per type.
pub fn values(t: &Ty, rich: usize) -> Vec<Val> {
    let ints = |all: &[i64], some: &[i64]| {
        (if rich >= 2 {
            all
        } else if rich == 1 {
            some
        } else {
            &some[..2.min(some.len())]
        })
        .iter()
        .map(|x| Val::I(*x))
        .collect::<Vec<_>>()
    };
    let uints = |all: &[u64], some: &[u64]| {
        (if rich >= 2 {
            all
        } else if rich == 1 {
            some
        } else {
            &some[..2.min(some.len())]
        })
        .iter()
        .map(|x| Val::U(*x))
        .collect::<Vec<_>>()
    };
    let lens: &[usize] = match rich {
        0 => &[3, 0],
        1 => &[3, 0, 4, 5],
        _ => &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 31, 32, 33, 255, 256, 257],
    };
    match t {
        Ty::Bool => vec![Val::Bool(true), Val::Bool(false)],
        Ty::I8 => ints(&[0, 1, -1, 127, -128, 0x55, -5], &[-5, 127, -128]),
        Ty::I16 => ints(
            &[0, 1, -1, 127, 128, 255, 256, 32767, -32768, -129, 0x1234],
            &[-0x1234, 32767, -32768],
        ),
        Ty::I32 => ints(
            &[
                0,
                1,
                -1,
                255,
                256,
                32768,
                65535,
                65536,
                i32::MAX as i64,
                i32::MIN as i64,
                0x12345678,
                -0x12345678,
            ],
            &[-0x12345678, i32::MAX as i64, i32::MIN as i64],
        ),
        Ty::I64 => ints(
            &[
                0,
                1,
                -1,
                255,
                65536,
                i32::MAX as i64,
                i32::MIN as i64,
                1 << 32,
                i64::MAX,
                i64::MIN,
                0x123456789ABCDEF,
            ],
            &[-0x123456789ABCDEF, i64::MAX, i64::MIN],
        ),
        Ty::U8 => uints(&[0, 1, 127, 128, 255, 0x5A], &[0xA5, 0, 255]),
        Ty::U16 => uints(
            &[0, 1, 255, 256, 32767, 32768, 65535, 0x1234],
            &[0xA512, 0, 65535],
        ),
        Ty::U32 => uints(
            &[
                0, 1, 255, 256, 65535, 65536, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x12345678,
            ],
            &[0xA5123456, 0, 0xFFFFFFFF],
        ),
        Ty::U64 => uints(
            &[
                0,
                1,
                0xFFFFFFFF,
                1 << 32,
                (1 << 63) - 1,
                1 << 63,
                u64::MAX,
                0x123456789ABCDEF,
            ],
            &[0xA123456789ABCDEF, 0, u64::MAX],
        ),
        Ty::F32 => {
            let all = [
                0x4049_0FDB,
                0x8000_0000u32,
                0x7F80_0001,
                0,
                0x3F80_0000,
                0x7F80_0000,
                0xFF80_0000,
                0x7FC0_0000,
                0x7FC0_1234,
                0xFFFF_FFFF,
                1,
                0x007F_FFFF,
                0x7F7F_FFFF,
            ];
            let n = [2, 3, all.len()][rich.min(2)];
            all[..n].iter().map(|x| Val::F32(*x)).collect()
        }
        Ty::F64 => {
            let all = [
                0x4009_21FB_5444_2D18u64,
                1 << 63,
                0x7FF0_0000_0000_0001,
                0,
                0x3FF0_0000_0000_0000,
                0x7FF0_0000_0000_0000,
                0xFFF0_0000_0000_0000,
                0x7FF8_0000_0000_0000,
                0x7FF8_0000_0000_1234,
                u64::MAX,
                1,
                0x7FEF_FFFF_FFFF_FFFF,
            ];
            let n = [2, 3, all.len()][rich.min(2)];
            all[..n].iter().map(|x| Val::F64(*x)).collect()
        }
        Ty::Char => {
            let all = [
                '\u{1F600}',
                '\0',
                '\u{10FFFF}',
                'A',
                '\x7f',
                '\u{80}',
                '\u{ff}',
                '\u{7ff}',
                '\u{800}',
                '\u{d7ff}',
                '\u{e000}',
                '\u{fffd}',
                '\u{ffff}',
                '\u{10000}',
            ];
            let n = [2, 3, all.len()][rich.min(2)];
            all[..n].iter().map(|x| Val::Char(*x)).collect()
        }
        Ty::Str | Ty::StrRef => lens.iter().map(|n| Val::Str(text(*n))).collect(),
        Ty::Bytes | Ty::BytesRef | Ty::OpVar | Ty::OpArr => {
            let mut v: Vec<Val> = lens
                .iter()
                .map(|n| Val::Bytes(crate::menu::pattern(*n as u64)))
                .collect();
            if rich >= 2 {
                for n in 1..6 {
                    v.push(Val::Bytes(vec![0; n]));
                    v.push(Val::Bytes(vec![0xFF; n]));
                }
            }
            v
        }
        Ty::OpFix(n) => {
            let mut v = vec![Val::Bytes(crate::menu::pattern(*n as u64))];
            if *n > 0 {
                v.push(Val::Bytes(vec![0; *n]));
                if rich > 0 {
                    v.push(Val::Bytes(vec![0xFF; *n]));
                }
            }
            v
        }
        Ty::Union(u) => {
            let mut v = vec![];
            let mut ds: Vec<Val> = u.cases.iter().map(|c| c.0.clone()).collect();
            if u.default.is_some() {
                if matches!(u.disc, Ty::Union(_) | Ty::Enum(_)) {
                    for d in values(&u.disc, rich) {
                        if !ds.contains(&d) {
                            ds.push(d);
                        }
                    }
                }
                let more: &[i64] = match u.disc {
                    Ty::Union(_) | Ty::Enum(_) => &[],
                    _ => &[0, 1, -1, 77, i32::MAX as i64, i32::MIN as i64],
                };
                for x in more {
                    let d = match &u.disc {
                        Ty::I32of(_) | Ty::I32 => Val::I(*x),
                        Ty::U32of(_) | Ty::U32 => Val::U(*x as i32 as u32 as u64),
                        Ty::Bool => Val::Bool(*x != 0),
                        Ty::S32(s) | Ty::E32(s, ..) => {
                            match s.iter().find(|y| !ds.contains(&Val::I(**y as i64))) {
                                Some(y) => Val::I(*y as i64),
                                None => continue,
                            }
                        }
                        t => panic!("discriminant {t:?}"),
                    };
                    if !ds.contains(&d) {
                        ds.push(d);
                    }
                }
            }
            for d in ds {
                let a = u.arm(&d).unwrap();
                for l in product(&u.arms[a], rich) {
                    v.push(Val::Un(Box::new(d.clone()), l));
                    if rich == 0 {
                        break;
                    }
                }
            }
            v
        }
        Ty::I32of(s) => s.iter().map(|x| Val::I(*x as i64)).collect(),
        Ty::U32of(s) => s.iter().map(|x| Val::U(*x as u64)).collect(),
        Ty::S32(s) | Ty::E32(s, ..) => s.iter().map(|x| Val::I(*x as i64)).collect(),
        // two levels of a recursive type, then nothing
        Ty::Ref(i) => DEPTH.with(|d| {
            if d.get() >= 2 {
                return vec![];
            }
            d.set(d.get() + 1);
            let v = values(&defined(*i), 0);
            d.set(d.get() - 1);
            v
        }),
        Ty::Unit | Ty::UnitStruct => vec![Val::Unit],
        Ty::New(t) => values(t, rich),
        Ty::Opt(t) if rich == 0 && matches!(**t, Ty::Ref(_)) => values(t, 0)
            .into_iter()
            .take(1)
            .map(|v| Val::Some(Box::new(v)))
            .chain([Val::None])
            .collect(),
        Ty::Opt(t) if rich == 0 => values(t, 0)
            .into_iter()
            .take(1)
            .map(|v| Val::Some(Box::new(v)))
            .chain([Val::None])
            .collect(),
        Ty::Opt(t) => {
            let mut v = vec![Val::None];
            v.extend(values(t, rich).into_iter().map(|x| Val::Some(Box::new(x))));
            v
        }
        Ty::Seq(t) if rich == 0 => {
            let e = values(t, 0);
            if e.is_empty() {
                return vec![Val::List(vec![])];
            }
            vec![
                Val::List(vec![e[0].clone(), e[e.len() - 1].clone()]),
                Val::List(vec![]),
            ]
        }
        Ty::Map(k, t) if rich == 0 => {
            let (k, t) = (values(k, 0), values(t, 0));
            if k.is_empty() || t.is_empty() {
                return vec![Val::Map(vec![])];
            }
            vec![
                Val::Map(vec![(k[0].clone(), t[t.len() - 1].clone())]),
                Val::Map(vec![]),
            ]
        }
        Ty::Tuple(ts) | Ty::TupleStruct(ts) | Ty::Struct(ts) if rich == 0 => {
            let l: Vec<Vec<Val>> = ts.iter().map(|t| values(t, 0)).collect();
            if l.iter().any(|v| v.is_empty()) {
                return vec![];
            }
            vec![
                Val::List(l.iter().map(|v| v[0].clone()).collect()),
                Val::List(l.iter().map(|v| v[v.len() - 1].clone()).collect()),
            ]
        }
        Ty::Seq(t) => {
            let e = values(t, rich.saturating_sub(1));
            let mut v = vec![Val::List(vec![])];
            for a in &e {
                v.push(Val::List(vec![a.clone()]));
            }
            for (a, b) in two(&e, &e) {
                v.push(Val::List(vec![a.clone(), b.clone()]));
            }
            let ns: &[usize] = if rich >= 2 { &[3, 4, 5, 17, 256] } else { &[3] };
            for n in ns.iter().filter(|_| !e.is_empty()) {
                v.push(Val::List((0..*n).map(|i| e[i % e.len()].clone()).collect()));
            }
            v
        }
        Ty::Map(k, t) => {
            let ks = values(k, rich.saturating_sub(1));
            let vs = values(t, rich.saturating_sub(1));
            let mut v = vec![Val::Map(vec![])];
            for (a, b) in two(&ks, &vs) {
                v.push(Val::Map(vec![(a.clone(), b.clone())]));
            }
            let ns: &[usize] = if rich >= 2 { &[2, 3, 4, 9] } else { &[2] };
            for n in ns.iter().filter(|_| !ks.is_empty() && !vs.is_empty()) {
                v.push(Val::Map(
                    (0..*n)
                        .map(|i| (ks[i % ks.len()].clone(), vs[(i / 2) % vs.len()].clone()))
                        .collect(),
                ));
            }
            v
        }
        Ty::Tuple(ts) | Ty::TupleStruct(ts) | Ty::Struct(ts) => {
            product(ts, rich).into_iter().map(Val::List).collect()
        }
        Ty::Enum(arms) => {
            let mut v = vec![];
            for (i, a) in arms.iter().enumerate() {
                for l in product(&arm_types(a), rich) {
                    v.push(Val::Var(i as u32, l));
                }
            }
            v
        }
    }
}

/// Full product for up to two parts; beyond that every part varies against the others' defaults.
/// every pair; of very many only those with a first one, and neighbours
fn two<'a>(x: &'a [Val], y: &'a [Val]) -> Vec<(&'a Val, &'a Val)> {
    if x.is_empty() || y.is_empty() {
        return vec![];
    }
    if x.len() * y.len() <= 100_000 {
        return x
            .iter()
            .flat_map(|a| y.iter().map(move |b| (a, b)))
            .collect();
    }
    let mut v = vec![];
    for i in 0..x.len().max(y.len()) {
        let (a, b) = (&x[i % x.len()], &y[i % y.len()]);
        v.extend([(a, b), (a, &y[0]), (&x[0], b), (a, &y[(i + 1) % y.len()])]);
    }
    v
}
fn product(ts: &[Arc<Ty>], rich: usize) -> Vec<Vec<Val>> {
    match ts {
        [] => vec![vec![]],
        [a] => values(a, rich).into_iter().map(|x| vec![x]).collect(),
        [a, b] => {
            let (x, y) = (values(a, rich), values(b, rich));
            two(&x, &y)
                .into_iter()
                .map(|(p, q)| vec![p.clone(), q.clone()])
                .collect()
        }
        ts => {
            let all: Vec<Vec<Val>> = ts.iter().map(|t| values(t, rich)).collect();
            if all.iter().any(|v| v.is_empty()) {
                return vec![];
            }
            let def: Vec<Val> = all.iter().map(|v| v[0].clone()).collect();
            let mut v = vec![def.clone()];
            for (i, a) in all.iter().enumerate() {
                for x in &a[1..] {
                    let mut l = def.clone();
                    l[i] = x.clone();
                    v.push(l);
                }
            }
            v.push(all.iter().map(|v| v.last().unwrap().clone()).collect());
            v
        }
    }
}

/// the value a decoder must return for an encoded value (maps keep their entries in order)
pub fn same(a: &Val, b: &Val) -> bool {
    a == b
}
