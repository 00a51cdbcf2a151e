//! Encoding side: C01, C02, C10 and the encode half of C08, C09.
use model::bind::{Enc, OPFIX_LENGTHS};
pub use model::encoding::{Case, Mode, compose_case};
use model::enumerate::{families, text, values};
use model::explore::{Target, Term, judge, parallel};
use model::menu::pattern;
use model::report::{Report, Violation};
use model::ty::*;
use model::{bind, guard, sexp, statics};
use std::sync::Arc;

pub fn contains(t: &Ty, f: fn(&Ty) -> bool) -> bool {
    f(t) || match t {
        Ty::New(t) | Ty::Opt(t) | Ty::Seq(t) => contains(t, f),
        Ty::Map(a, b) => contains(a, f) || contains(b, f),
        Ty::Tuple(l) | Ty::TupleStruct(l) | Ty::Struct(l) => l.iter().any(|t| contains(t, f)),
        Ty::Enum(a) => a
            .iter()
            .any(|a| arm_types(a).iter().any(|t| contains(t, f))),
        _ => false,
    }
}
pub fn is_opaque(t: &Ty) -> bool {
    matches!(t, Ty::OpFix(_) | Ty::OpVar | Ty::OpArr)
}
pub fn is_signed(t: &Ty) -> bool {
    matches!(t, Ty::S32(_))
}

fn richness(size: usize, thorough: bool) -> usize {
    let base = match size {
        1 | 2 => 2,
        3 => 1,
        6 => 1,
        _ => 0,
    };
    if thorough { (base + 1).min(2) } else { base }
}

/// what text handling likes to treat specially
const CHARS: &[char] = &[
    '\0', ' ', '\t', '\n', '\r', '"', '\\', '%', 'a', 'Z', '\u{7f}', '\u{a0}', 'é', '\u{301}',
    '\u{feff}', '\u{fffd}', '\u{ffff}', '😀',
];
const OCTETS: &[u8] = &[0, 1, 4, 0x20, 0x7F, 0x80, 0xC3, 0xFF];

pub enum Work {
    Term(usize, Arc<Ty>),
    /// length sweep: constructor id, from, to, step
    Lens(usize, Vec<usize>),
    Chars(u32, u32),
    Lanes(Ty, u32, u32),
    Contents(Ty),
    /// all texts or bytes that begin with the n-th symbol of a small alphabet
    Sequences(Ty, usize),
    Static(usize),
    Wide(usize),
    Deep(usize),
}

fn lens(thorough: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=if thorough { 70000 } else { 2100 }).collect();
    for k in 11..=(if thorough { 22 } else { 18 }) {
        for d in [-3i64, -2, -1, 0, 1, 2, 3, 4, 5] {
            v.push(((1i64 << k) + d) as usize);
        }
    }
    v.sort();
    v.dedup();
    v
}

fn a(t: Ty) -> Arc<Ty> {
    Arc::new(t)
}

const LEN_KINDS: usize = 9;
fn len_case(kind: usize, n: usize) -> (Ty, Val) {
    match kind {
        0 => (Ty::Str, Val::Str(text(n))),
        1 => (Ty::Bytes, Val::Bytes(pattern(n as u64))),
        2 => (Ty::OpVar, Val::Bytes(pattern(n as u64))),
        3 => (Ty::OpArr, Val::Bytes(pattern(n as u64))),
        4 => (
            Ty::Seq(a(Ty::U8)),
            Val::List((0..n).map(|i| Val::U((i % 251) as u64)).collect()),
        ),
        5 => (
            Ty::Seq(a(Ty::I64)),
            Val::List((0..n).map(|i| Val::I(i as i64 * 0x1_0000_0003)).collect()),
        ),
        6 => (
            Ty::Map(a(Ty::U32), a(Ty::I16)),
            Val::Map(
                (0..n)
                    .map(|i| (Val::U(i as u64), Val::I((i % 30000) as i64 - 15000)))
                    .collect(),
            ),
        ),
        7 => (Ty::Seq(a(Ty::Unit)), Val::List(vec![Val::Unit; n])),
        _ => (
            Ty::Seq(a(Ty::Str)),
            Val::List((0..n).map(|i| Val::Str(text(i % 5))).collect()),
        ),
    }
}

fn scalar(t: &Ty, w: u64) -> Option<Val> {
    Some(match t {
        Ty::I8 => Val::I(w as i8 as i64),
        Ty::I16 => Val::I(w as i16 as i64),
        Ty::I32 => Val::I(w as i32 as i64),
        Ty::I64 => Val::I(w as i64),
        Ty::U8 => Val::U(w as u8 as u64),
        Ty::U16 => Val::U(w as u16 as u64),
        Ty::U32 => Val::U(w as u32 as u64),
        Ty::U64 => Val::U(w),
        Ty::F32 => Val::F32(w as u32),
        Ty::F64 => Val::F64(w),
        _ => return None,
    })
}

pub fn run(r: &Report, mode: Mode) {
    let th = r.thorough();
    let mut work = vec![];
    for (n, t) in families(th) {
        work.push(Work::Term(n, t));
    }
    let ls = lens(th);
    for k in 0..LEN_KINDS {
        // the longest ones one by one, the short ones in groups
        let (short, long): (Vec<usize>, Vec<usize>) = ls.iter().partition(|n| **n <= 4100);
        for c in short.chunks(200) {
            work.push(Work::Lens(k, c.to_vec()));
        }
        for n in long {
            if n <= 1 << 19 || k < 4 {
                work.push(Work::Lens(k, vec![n]));
            }
        }
    }
    for i in 0..OPFIX_LENGTHS.len() {
        work.push(Work::Wide(100_000 + i));
    }
    let mut c = 0;
    while c < 0x110000 {
        work.push(Work::Chars(c, c + 0x8000));
        c += 0x8000;
    }
    for t in [
        Ty::I8,
        Ty::I16,
        Ty::I32,
        Ty::I64,
        Ty::U8,
        Ty::U16,
        Ty::U32,
        Ty::U64,
        Ty::F32,
        Ty::F64,
    ] {
        for i in 0..8 {
            work.push(Work::Lanes(t.clone(), i * 8192, (i + 1) * 8192));
        }
    }
    for t in [
        Ty::Str,
        Ty::Bytes,
        Ty::OpVar,
        Ty::OpArr,
        Ty::OpFix(1),
        Ty::OpFix(2),
    ] {
        work.push(Work::Contents(t));
    }
    for t in [
        Ty::Str,
        Ty::Bytes,
        Ty::OpVar,
        Ty::OpArr,
        Ty::OpFix(4),
        Ty::OpFix(5),
    ] {
        for i in 0..if t == Ty::Str {
            CHARS.len()
        } else {
            OCTETS.len()
        } {
            work.push(Work::Sequences(t.clone(), i));
        }
    }
    let st = statics::all();
    for i in 0..st.len() {
        work.push(Work::Static(i));
    }
    let wides: Vec<usize> = if th {
        (0..=1000).collect()
    } else {
        (0..=300).chain([400, 511, 512, 513, 777, 1000]).collect()
    };
    work.extend(wides.into_iter().map(Work::Wide));
    for d in 1..=if th { 400 } else { 120 } {
        work.push(Work::Deep(d));
    }
    parallel(&work, |w| one(r, mode, w, &st));
    if mode != Mode::Compose {
        for (name, b, ok) in statics::unordered() {
            r.add(1, 1, 1);
            if !ok {
                special(
                    r,
                    &name,
                    format!(
                        "{name}: encoding {} is not count plus entries or does not come back",
                        sexp::hex(&b)
                    ),
                );
            }
        }
        guard::context("kind=special\n");
        recursive(r);
        variants(r);
        guard::idle();
    }
    if th && mode != Mode::Compose {
        full32(r, mode);
    }
}

pub fn special(r: &Report, key: &str, what: String) {
    r.violation(Violation {
        key: key.to_string(),
        replay: format!(
            "property={}\nkind=special\ncase={key}\n{what}\n",
            r.property
        ),
        what,
    });
}

fn one(r: &Report, mode: Mode, w: &Work, st: &[Box<dyn Target>]) {
    match w {
        Work::Term(n, t) => {
            let target = Term(t.clone());
            let mut c = Case::new(r, mode, &target);
            for v in values(t, richness(*n, r.thorough())) {
                c.value(&v);
            }
            c.done();
        }
        Work::Lens(k, ns) => {
            for n in ns {
                let (t, v) = len_case(*k, *n);
                // alone, and in the middle of other data
                let both = Ty::Tuple(vec![a(Ty::U8), a(t.clone()), a(Ty::I64)]);
                let bv = Val::List(vec![Val::U(7), v.clone(), Val::I(-2)]);
                for (t, v) in [(t, v), (both, bv)] {
                    let target = Term(a(t));
                    let mut c = Case::new(r, mode, &target);
                    c.value(&v);
                    c.done();
                }
            }
            r.count("lengths_swept", ns.len() as u64);
        }
        Work::Chars(x, y) => {
            let target = Term(a(Ty::Char));
            let mut c = Case::new(r, mode, &target);
            for u in *x..*y {
                if let Some(ch) = char::from_u32(u) {
                    c.value(&Val::Char(ch));
                }
            }
            c.done();
            let target = Term(a(Ty::Str));
            let mut c = Case::new(r, mode, &target);
            for u in *x..*y {
                if let Some(ch) = char::from_u32(u) {
                    c.value(&Val::Str(ch.to_string()));
                    c.value(&Val::Str(format!("{ch}a")));
                    c.value(&Val::Str(format!("ab{ch}")));
                }
            }
            c.done();
        }
        Work::Lanes(t, x, y) => {
            let target = Term(a(t.clone()));
            let mut c = Case::new(r, mode, &target);
            let wide = matches!(t, Ty::I64 | Ty::U64 | Ty::F64);
            for u in *x..*y {
                let u = u as u64;
                for sh in 0..if wide { 4 } else { 2 } {
                    let m = 0xFFFFu64 << (16 * sh);
                    for bg in [0u64, u64::MAX, 0x8123_4567_89AB_CDEF] {
                        if let Some(v) = scalar(t, (bg & !m) | (u << (16 * sh))) {
                            c.value(&v);
                        }
                    }
                }
            }
            c.done();
        }
        Work::Contents(t) => {
            let target = Term(a(t.clone()));
            let mut c = Case::new(r, mode, &target);
            for n in 0..=2u32 {
                if let Ty::OpFix(k) = t
                    && *k != n as usize
                {
                    continue;
                }
                for u in 0..1u32 << (8 * n) {
                    let b: Vec<u8> = (0..n).map(|i| (u >> (8 * i)) as u8).collect();
                    if *t == Ty::Str {
                        if let Ok(s) = String::from_utf8(b) {
                            c.value(&Val::Str(s));
                        }
                    } else {
                        c.value(&Val::Bytes(b));
                    }
                }
            }
            c.done();
        }
        Work::Sequences(t, first) => {
            let target = Term(a(t.clone()));
            let mut c = Case::new(r, mode, &target);
            let (base, longest) = match t {
                Ty::Str => (CHARS.len(), if r.thorough() { 5 } else { 4 }),
                _ => (OCTETS.len(), if r.thorough() { 7 } else { 6 }),
            };
            for n in 1..=longest {
                if matches!(t, Ty::OpFix(k) if *k != n) {
                    continue;
                }
                for u in 0..base.pow(n as u32 - 1) {
                    let mut u = u;
                    let seq: Vec<usize> = (0..n)
                        .map(|i| {
                            if i == 0 {
                                return *first;
                            }
                            let x = u % base;
                            u /= base;
                            x
                        })
                        .collect();
                    match t {
                        Ty::Str => c.value(&Val::Str(seq.into_iter().map(|i| CHARS[i]).collect())),
                        _ => c.value(&Val::Bytes(seq.into_iter().map(|i| OCTETS[i]).collect())),
                    }
                }
            }
            c.done();
        }
        Work::Static(i) => {
            if mode == Mode::Compose {
                return;
            }
            let target = &*st[*i];
            let mut c = Case::new(r, mode, target);
            let t = target.ty();
            for v in values(&t, if r.thorough() { 2 } else { 1 }) {
                // a value a map cannot hold is not a value of the compiled type
                if holds(&t, &v) {
                    c.value(&v);
                }
            }
            c.done();
            r.count("compiled_types", 1);
        }
        Work::Wide(n) if *n >= 100_000 => {
            let n = OPFIX_LENGTHS[n - 100_000];
            for t in [
                Ty::OpFix(n),
                Ty::Tuple(vec![
                    a(Ty::U8),
                    a(Ty::OpFix(n)),
                    a(Ty::OpFix(3)),
                    a(Ty::I64),
                ]),
            ] {
                let target = Term(a(t.clone()));
                let mut c = Case::new(r, mode, &target);
                for v in values(&t, 1) {
                    c.value(&v);
                }
                c.done();
            }
        }
        Work::Wide(n) => {
            let n = *n;
            let parts: Vec<Arc<Ty>> = (0..n)
                .map(|i| {
                    a(match i % 5 {
                        0 => Ty::I32,
                        1 => Ty::Str,
                        2 => Ty::U8,
                        3 => Ty::Opt(a(Ty::I16)),
                        _ => Ty::Bool,
                    })
                })
                .collect();
            let vals: Vec<Val> = (0..n)
                .map(|i| match i % 5 {
                    0 => Val::I(i as i64 - 40),
                    1 => Val::Str(text(i % 7)),
                    2 => Val::U((i % 256) as u64),
                    3 => {
                        if i % 2 == 0 {
                            Val::None
                        } else {
                            Val::Some(Box::new(Val::I(-(i as i64))))
                        }
                    }
                    _ => Val::Bool(i % 3 == 0),
                })
                .collect();
            for t in [
                Ty::Tuple(parts.clone()),
                Ty::TupleStruct(parts.clone()),
                Ty::Struct(parts.clone()),
            ] {
                let target = Term(a(t));
                let mut c = Case::new(r, mode, &target);
                c.value(&Val::List(vals.clone()));
                c.done();
            }
            for arm in [Arm::Tuple(parts.clone()), Arm::Struct(parts.clone())] {
                let target = Term(a(Ty::Enum(vec![Arm::Unit, arm])));
                let mut c = Case::new(r, mode, &target);
                c.value(&Val::Var(1, vals.clone()));
                c.done();
            }
            // the n-th variant of each kind
            for arm in [
                Arm::Unit,
                Arm::New(a(Ty::U8)),
                Arm::Tuple(vec![a(Ty::U8)]),
                Arm::Struct(vec![a(Ty::U8)]),
            ] {
                let mut arms = vec![Arm::Unit; n];
                let l = if arm == Arm::Unit {
                    vec![]
                } else {
                    vec![Val::U(9)]
                };
                arms.push(arm);
                let target = Term(a(Ty::Enum(arms)));
                let mut c = Case::new(r, mode, &target);
                c.value(&Val::Var(n as u32, l));
                c.done();
            }
        }
        Work::Deep(d) => {
            for k in 0..7 {
                let mut t = Ty::U16;
                let mut v = Val::U(300);
                for i in 0..*d {
                    (t, v) = match (k, i % 3) {
                        (0, _) => (Ty::Opt(a(t)), Val::Some(Box::new(v))),
                        (1, _) => (Ty::Seq(a(t)), Val::List(vec![v])),
                        (2, _) => (Ty::New(a(t)), v),
                        (3, _) => (
                            Ty::Enum(vec![Arm::Unit, Arm::New(a(t))]),
                            Val::Var(1, vec![v]),
                        ),
                        (4, _) => (
                            Ty::Struct(vec![a(Ty::Bool), a(t)]),
                            Val::List(vec![Val::Bool(true), v]),
                        ),
                        (5, _) => (
                            Ty::Map(a(Ty::U8), a(t)),
                            Val::Map(vec![(Val::U(i as u64 % 256), v)]),
                        ),
                        (_, 0) => (
                            Ty::Tuple(vec![a(t), a(Ty::I8)]),
                            Val::List(vec![v, Val::I(-1)]),
                        ),
                        (_, 1) => (Ty::Opt(a(t)), Val::Some(Box::new(v))),
                        _ => (Ty::Seq(a(t)), Val::List(vec![v])),
                    };
                }
                let target = Term(a(t));
                let mut c = Case::new(r, mode, &target);
                c.value(&v);
                c.done();
            }
        }
    }
}

/// map entries in strictly increasing key order, the order a compiled map iterates in
fn holds(t: &Ty, v: &Val) -> bool {
    match (t, v) {
        (Ty::Map(k, e), Val::Map(l)) => {
            l.windows(2).all(|w| less(&w[0].0, &w[1].0))
                && l.iter().all(|(a, b)| holds(k, a) && holds(e, b))
        }
        (Ty::New(t), v) => holds(t, v),
        (Ty::Opt(t), Val::Some(v)) => holds(t, v),
        (Ty::Seq(t), Val::List(l)) => l.iter().all(|v| holds(t, v)),
        (Ty::Tuple(ts) | Ty::TupleStruct(ts) | Ty::Struct(ts), Val::List(l)) => {
            ts.iter().zip(l).all(|(t, v)| holds(t, v))
        }
        (Ty::Enum(a), Val::Var(i, l)) => arm_types(&a[*i as usize])
            .iter()
            .zip(l)
            .all(|(t, v)| holds(t, v)),
        _ => true,
    }
}
fn less(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::I(a), Val::I(b)) => a < b,
        (Val::U(a), Val::U(b)) => a < b,
        (Val::Str(a), Val::Str(b)) => a < b,
        _ => false,
    }
}

/// linked lists and trees of a recursive compiled type
fn recursive(r: &Report) {
    use statics::{Node, Tree};
    for n in 0..=300u32 {
        let mut l: Option<Box<Node>> = None;
        for i in (0..n).rev() {
            l = Some(Box::new(Node { v: i * 77, next: l }));
        }
        let mut want = vec![];
        for i in 0..n {
            be32(&mut want, 1);
            be32(&mut want, i * 77);
        }
        be32(&mut want, 0);
        r.add(1, 1, 1);
        guard::input(&want);
        let got = bind::real_encode(&l);
        if got != Enc::Bytes(want.clone()) {
            special(
                r,
                &format!("list{n}"),
                format!("recursive list of {n} nodes encodes as {got:?}"),
            );
        } else if !serde_xdr::from_bytes::<Option<Box<Node>>>(&want).is_ok_and(|x| x == l) {
            special(
                r,
                &format!("list{n}"),
                format!("recursive list of {n} nodes does not come back"),
            );
        }
    }
    // every tree shape of up to 7 nodes
    fn trees(n: usize) -> Vec<Tree> {
        if n == 0 {
            return vec![];
        }
        let mut v = vec![];
        if n == 1 {
            v.push(Tree::Leaf(-3));
        }
        fn forests(n: usize) -> Vec<Vec<Tree>> {
            if n == 0 {
                return vec![vec![]];
            }
            let mut v = vec![];
            for k in 1..=n {
                for t in trees(k) {
                    for mut f in forests(n - k) {
                        f.insert(0, t.clone());
                        v.push(f);
                    }
                }
            }
            v
        }
        for f in forests(n - 1) {
            v.push(Tree::Branch(f));
        }
        v
    }
    fn refenc(t: &Tree, o: &mut Vec<u8>) {
        match t {
            Tree::Leaf(x) => {
                be32(o, 0);
                be32(o, *x as i32 as u32);
            }
            Tree::Branch(l) => {
                be32(o, 1);
                be32(o, l.len() as u32);
                for t in l {
                    refenc(t, o);
                }
            }
        }
    }
    for n in 1..=7 {
        for t in trees(n) {
            let mut want = vec![];
            refenc(&t, &mut want);
            r.add(1, 1, 1);
            guard::input(&want);
            let got = bind::real_encode(&t);
            if got != Enc::Bytes(want.clone())
                || !serde_xdr::from_bytes::<Tree>(&want).is_ok_and(|x| x == t)
            {
                special(
                    r,
                    &format!("tree/{}", sexp::hex(&want)),
                    format!("tree {t:?} encodes as {got:?} or does not come back"),
                );
            }
        }
    }
}

/// variant indices a derived enum of any size would use
fn variants(r: &Report) {
    use serde::ser::{Serialize, SerializeStructVariant, SerializeTupleVariant, Serializer};
    struct V(u32, u8);
    impl Serialize for V {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            match self.1 {
                0 => s.serialize_unit_variant("T", self.0, "v"),
                1 => s.serialize_newtype_variant("T", self.0, "v", &7u8),
                2 => {
                    let mut q = s.serialize_tuple_variant("T", self.0, "v", 1)?;
                    q.serialize_field(&7u8)?;
                    q.end()
                }
                _ => {
                    let mut q = s.serialize_struct_variant("T", self.0, "v", 1)?;
                    q.serialize_field("f", &7u8)?;
                    q.end()
                }
            }
        }
    }
    let mut ix: Vec<u32> = (0..70_000).collect();
    for k in 16..31 {
        for d in -2i64..=2 {
            ix.push(((1i64 << k) + d) as u32);
        }
    }
    ix.extend([i32::MAX as u32, i32::MAX as u32 - 1]);
    for i in ix {
        for k in 0..4 {
            let mut want = vec![];
            be32(&mut want, i);
            if k > 0 {
                be32(&mut want, 7);
            }
            r.add(1, 1, 1);
            let got = bind::real_encode(&V(i, k));
            if got != Enc::Bytes(want) {
                special(
                    r,
                    &format!("variant{i}/{k}"),
                    format!("variant index {i} of kind {k} encodes as {got:?}"),
                );
            }
        }
    }
}

/// every 32-bit value of the 32-bit scalars
fn full32(r: &Report, mode: Mode) {
    use statics::Model;
    fn go<T: Model + PartialEq>(
        r: &Report,
        mode: Mode,
        name: &str,
        mk: impl Fn(u32) -> T + Sync,
        bits: impl Fn(&T) -> u32 + Sync,
    ) {
        let parts: Vec<u32> = (0..4096).collect();
        parallel(&parts, |p| {
            guard::context(&format!(
                "kind=encode\ntarget={name}\ntype={}\n",
                sexp::ty(&T::ty())
            ));
            for l in 0..1u32 << 20 {
                let w = (p << 20) | l;
                let b = [(w >> 24) as u8, (w >> 16) as u8, (w >> 8) as u8, w as u8];
                if l % 1024 == 0 {
                    guard::input(&b);
                }
                let v = mk(w);
                let ok = match serde_xdr::to_bytes(&v) {
                    Ok(x) if mode == Mode::Reference => x == b,
                    Ok(x) => serde_xdr::from_bytes::<T>(&x).is_ok_and(|y| bits(&y) == w),
                    Err(_) => false,
                };
                if !ok {
                    special(
                        r,
                        &format!("{name}/{w:08x}"),
                        format!("{name} with bits {w:08x} is encoded or restored wrongly"),
                    );
                }
            }
            guard::idle();
            r.add(1 << 20, 1 << 20, 1 << 20);
        });
    }
    go::<u32>(r, mode, "u32", |w| w, |v| *v);
    go::<i32>(r, mode, "i32", |w| w as i32, |v| *v as u32);
    go::<f32>(r, mode, "f32", f32::from_bits, |v| v.to_bits());
    r.note("all 2^32 values of u32, i32 and f32");
}

/// C08, C09: terms containing the adapter
pub fn adapters(r: &Report, which: fn(&Ty) -> bool) {
    let th = r.thorough();
    let mut work: Vec<Work> = families(th)
        .into_iter()
        .filter(|(_, t)| contains(t, which))
        .map(|(n, t)| Work::Term(n, t))
        .collect();
    if which(&Ty::OpVar) {
        for k in [2, 3] {
            for c in lens(th).chunks(50) {
                work.push(Work::Lens(k, c.to_vec()));
            }
        }
        for i in 0..OPFIX_LENGTHS.len() {
            work.push(Work::Wide(100_000 + i));
        }
        for t in [Ty::OpVar, Ty::OpArr, Ty::OpFix(1), Ty::OpFix(2)] {
            work.push(Work::Contents(t));
        }
    }
    let st = statics::all();
    for (i, t) in st.iter().enumerate() {
        if contains(&t.ty(), which) {
            work.push(Work::Static(i));
        }
    }
    parallel(&work, |w| one(r, Mode::Both, w, &st));
    let _ = judge;
}
