//! Decoding side: C03, C04, C05, C06 and the decode half of C08, C09.
use crate::ALL;
use crate::encode::{contains, special};
use model::bind::{Dec, OPFIX_LENGTHS};
use model::enumerate::{all_leaves, families, terms};
use model::explore::*;
use model::machine::{Machine, Status};
use model::menu::menu;
use model::report::{Report, Violation};
use model::ty::*;
use model::{alloc, bind, guard, sexp, statics};
use std::sync::Arc;

pub fn bounds(size: usize, thorough: bool) -> Bounds {
    let (dev, depth) = match (size, thorough) {
        (1, _) => (4, 14),
        (2, false) => (3, 12),
        (2, true) => (4, 14),
        (3, false) => (2, 12),
        (3, true) => (2, 12),
        (4, false) => (1, 12),
        (4, true) => (1, 13),
        (5, _) => (1, 14),
        _ => (1, 48),
    };
    Bounds {
        dev,
        depth,
        hostile: 4,
        rich: size == 1 || (thorough && size == 2),
        straight: false,
    }
}

pub fn run(r: &Report, classes: &[Class]) {
    let th = r.thorough();
    let start = std::time::Instant::now();
    let lap = |what: &str| {
        if std::env::var("MC_TIME").is_ok() {
            eprintln!("{what}: {:.1} s", start.elapsed().as_secs_f64());
        }
    };
    let fam = families(th);
    parallel(&fam, |(n, t)| {
        Explorer::new(r, &Term(t.clone()), classes, bounds(*n, th)).run()
    });
    lap("families");
    let st = statics::all();
    parallel(&st, |t| {
        Explorer::new(
            r,
            &**t,
            classes,
            Bounds {
                dev: if th { 2 } else { 1 },
                depth: 60,
                hostile: 4,
                rich: false,
                straight: false,
            },
        )
        .run();
        r.count("compiled_types", 1);
    });
    lap("compiled types");
    blind(r, classes, th);
    lap("blind strings");
    words(r, classes);
    lap("words");
    prefixes(r, classes, th);
    lap("long encodings");
    if th {
        full32(r, classes);
        lap("all words");
    }
}

/// every byte string up to a length over a small alphabet, for every small term
fn blind(r: &Report, classes: &[Class], th: bool) {
    let al: &[u8] = &[0, 1, 3, 0x61, 0xFF];
    let max = if th { 8 } else { 6 };
    let mut ts: Vec<Arc<Ty>> = terms(&all_leaves(), 1);
    ts.extend(terms(&model::enumerate::core_leaves(), 2));
    parallel(&ts, |t| {
        if zero_width_rep(t) {
            return;
        }
        let target = Term(t.clone());
        let mut e = Explorer::new(r, &target, classes, bounds(1, th));
        guard::context(&format!("kind=decode\ntarget=dyn\ntype={}\n", sexp::ty(t)));
        for n in 0..=max {
            let mut ix = vec![0usize; n];
            loop {
                let b: Vec<u8> = ix.iter().map(|i| al[*i]).collect();
                e.trace(&b);
                let mut k = 0;
                while k < n && ix[k] + 1 == al.len() {
                    ix[k] = 0;
                    k += 1;
                }
                if k == n {
                    break;
                }
                ix[k] += 1;
            }
        }
        e.finish("blind_strings");
    });
}

/// a count of elements that occupy no bytes: a claimed count is honoured element by element
fn zero_width_rep(t: &Ty) -> bool {
    match t {
        Ty::Seq(e) => min_size(e) == 0 || zero_width_rep(e),
        Ty::Map(k, v) => min_size(k) + min_size(v) == 0 || zero_width_rep(k) || zero_width_rep(v),
        Ty::New(t) | Ty::Opt(t) => zero_width_rep(t),
        Ty::Tuple(l) | Ty::TupleStruct(l) | Ty::Struct(l) => l.iter().any(|t| zero_width_rep(t)),
        Ty::Enum(a) => a
            .iter()
            .any(|a| arm_types(a).iter().any(|t| zero_width_rep(t))),
        _ => false,
    }
}

fn word_types() -> Vec<Ty> {
    let u = |n: usize| Ty::Enum(vec![Arm::Unit; n]);
    vec![
        Ty::Bool,
        Ty::I8,
        Ty::I16,
        Ty::I32,
        Ty::U8,
        Ty::U16,
        Ty::U32,
        Ty::F32,
        Ty::Char,
        Ty::Opt(Arc::new(Ty::Unit)),
        u(1),
        u(2),
        u(3),
        u(128),
        u(129),
        u(256),
        u(257),
        u(1000),
        Ty::S32(vec![-1, 0, 5]),
        Ty::S32(vec![i32::MIN, i32::MAX]),
    ]
}

/// all words that differ from a background in one 16-bit lane, then the word followed by data
fn words(r: &Report, classes: &[Class]) {
    let mut items = vec![];
    for t in word_types() {
        for q in 0..4u32 {
            items.push((t.clone(), q));
        }
    }
    parallel(&items, |(t, q)| {
        let target = Term(Arc::new(t.clone()));
        let mut e = Explorer::new(r, &target, classes, bounds(1, false));
        guard::context(&format!("kind=decode\ntarget=dyn\ntype={}\n", sexp::ty(t)));
        for x in q * 16384..(q + 1) * 16384 {
            for bg in [0u32, 0xFFFF_0000, 0x8000_0000, 0x0001_0000, 0x7FFF_0000] {
                e.trace(&word(bg | x));
            }
            for bg in [0u32, 0xFFFF, 1] {
                e.trace(&word((x << 16) | bg));
            }
            let mut b = word(x);
            b.extend([0; 4]);
            e.trace(&b);
        }
        e.finish("word_lanes");
    });
}

fn word(w: u32) -> Vec<u8> {
    let mut b = vec![];
    be32(&mut b, w);
    b
}

/// every prefix and several suffixes of longer encodings
fn prefixes(r: &Report, classes: &[Class], th: bool) {
    let mut items: Vec<(Arc<Ty>, Vec<u8>)> = vec![];
    let a = |t: Ty| Arc::new(t);
    let mut lens: Vec<usize> = (0..=40).collect();
    lens.extend([63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023]);
    if th {
        lens.extend(41..300);
        lens.extend([2047, 2048, 2049, 4095, 4096, 4097]);
    }
    for n in &lens {
        let text = model::enumerate::text(*n);
        for t in [Ty::Str, Ty::StrRef] {
            items.push((a(t.clone()), encode(&t, &Val::Str(text.clone()))));
        }
        for t in [Ty::Bytes, Ty::BytesRef, Ty::OpVar, Ty::OpArr] {
            items.push((
                a(t.clone()),
                encode(&t, &Val::Bytes(model::menu::pattern(*n as u64))),
            ));
        }
        let t = Ty::Seq(a(Ty::I16));
        let v = Val::List((0..*n).map(|i| Val::I(i as i64)).collect());
        items.push((a(t.clone()), encode(&t, &v)));
        if OPFIX_LENGTHS.contains(n) {
            let t = Ty::Struct(vec![a(Ty::OpFix(*n)), a(Ty::U8)]);
            let v = Val::List(vec![Val::Bytes(model::menu::pattern(*n as u64)), Val::U(3)]);
            items.push((a(t.clone()), encode(&t, &v)));
        }
        let t = Ty::Map(a(Ty::U8), a(Ty::Str));
        if *n <= 300 {
            let v = Val::Map(
                (0..*n)
                    .map(|i| {
                        (
                            Val::U(i as u64 % 256),
                            Val::Str(model::enumerate::text(i % 6)),
                        )
                    })
                    .collect(),
            );
            items.push((a(t.clone()), encode(&t, &v)));
        }
        let t = Ty::Tuple(
            (0..*n)
                .map(|i| {
                    a(if i % 2 == 0 {
                        Ty::Str
                    } else {
                        Ty::Opt(a(Ty::U64))
                    })
                })
                .collect(),
        );
        if *n <= 130 {
            let v = Val::List(
                (0..*n)
                    .map(|i| {
                        if i % 2 == 0 {
                            Val::Str(model::enumerate::text(i % 9))
                        } else {
                            Val::Some(Box::new(Val::U(i as u64)))
                        }
                    })
                    .collect(),
            );
            items.push((a(t.clone()), encode(&t, &v)));
        }
    }
    parallel(&items, |(t, b)| {
        let target = Term(t.clone());
        let mut e = Explorer::new(r, &target, classes, bounds(1, false));
        guard::context(&format!("kind=decode\ntarget=dyn\ntype={}\n", sexp::ty(t)));
        // reading a prefix costs time in its length: all cuts of short ones, both ends of long ones
        for n in 0..=b.len() {
            if b.len() <= 400 || n < 150 || n + 150 > b.len() || n % 64 < 6 {
                e.trace(&b[..n]);
            }
        }
        for n in 1..=40 {
            for f in [0u8, 1, 0xFF] {
                let mut x = b.clone();
                x.extend(vec![f; n]);
                e.trace(&x);
            }
        }
        e.finish("long_encodings");
    });
}

/// all 2^32 words for every type that fits one word
fn full32(r: &Report, classes: &[Class]) {
    use statics::Model;
    fn go<T: Model>(r: &Report, classes: &[Class], name: &str) {
        let ty = Arc::new(T::ty());
        let parts: Vec<u32> = (0..4096).collect();
        parallel(&parts, |p| {
            guard::context(&format!(
                "kind=decode\ntarget={name}\ntype={}\n",
                sexp::ty(&ty)
            ));
            for l in 0..1u32 << 20 {
                let w = (p << 20) | l;
                let b = [(w >> 24) as u8, (w >> 16) as u8, (w >> 8) as u8, w as u8];
                if l % 256 == 0 {
                    guard::input(&b);
                }
                let got = statics::decode_as::<T>(&b);
                let expect = reference(&ty, &b);
                if let Some((c, what)) = judge(&expect, &got)
                    && classes.contains(&c)
                {
                    r.violation(Violation {
                        key: format!("{name}/{w:08x}"),
                        replay: format!(
                            "property={}\nkind=decode\ntarget={name}\ntype={}\ninput={}\n",
                            r.property,
                            sexp::ty(&ty),
                            sexp::hex(&b)
                        ),
                        what: format!("{name} word {w:08x}: {what}"),
                    });
                }
            }
            guard::idle();
            r.add(1 << 20, 1 << 20, 1 << 20);
        });
        r.note(&format!("all 2^32 words as {name}"));
    }
    go::<bool>(r, classes, "bool");
    go::<i8>(r, classes, "i8");
    go::<i16>(r, classes, "i16");
    go::<i32>(r, classes, "i32");
    go::<u8>(r, classes, "u8");
    go::<u16>(r, classes, "u16");
    go::<u32>(r, classes, "u32");
    go::<f32>(r, classes, "f32");
    go::<char>(r, classes, "char");
}

/// C05, second half: value and extent do not depend on what follows. Decoding the type as the first
/// half of a pair must leave exactly the right data for the second half.
pub fn independent_of_rest(r: &Report) {
    let mut ts = terms(&all_leaves(), 1);
    ts.extend(terms(&all_leaves(), 2));
    parallel(&ts, |t| {
        for follow in [Ty::U32, Ty::Str, Ty::OpFix(5)] {
            let fv = model::enumerate::values(&follow, 0)[0].clone();
            let pair = Arc::new(Ty::Tuple(vec![t.clone(), Arc::new(follow)]));
            let target = Term(pair.clone());
            let mut e = Explorer::new(r, &target, ALL_EXTENT, bounds(1, false));
            guard::context(&format!(
                "kind=decode\ntarget=dyn\ntype={}\n",
                sexp::ty(&pair)
            ));
            for v in model::enumerate::values(t, 1) {
                let b = encode(&pair, &Val::List(vec![v, fv.clone()]));
                e.trace(&b);
                for s in SUFFIXES {
                    let mut x = b.clone();
                    x.extend_from_slice(s);
                    e.trace(&x);
                }
            }
            e.finish("pairs");
        }
    });
}
/// C05: whatever follows is counted, however much it is: every length up to a hundred, and around
/// every power of two as far as a length can reach.
pub fn long_rest(r: &Report) {
    let th = r.thorough();
    let mut jobs: Vec<(Arc<Ty>, bool)> = terms(&all_leaves(), 1)
        .into_iter()
        .map(|t| (t, true))
        .collect();
    jobs.extend(terms(&all_leaves(), 2).into_iter().map(|t| (t, false)));
    let check = |t: &Arc<Ty>, n: usize, x: &[u8]| {
        r.add(1, 1, 1);
        let what = match bind::real_decode(t, x) {
            Dec::Err(serde_xdr::error::Error::TrailingData(k)) if k == n => return,
            Dec::Err(e) => format!("is refused with {e:?}"),
            Dec::Ok(_) => "is accepted".to_string(),
            Dec::Panic(p) => format!("panics: {p}"),
        };
        let ty = sexp::ty(t);
        special(
            r,
            &format!("rest/{ty}/{n}"),
            format!("an encoding of type {ty} followed by {n} bytes {what}"),
        );
    };
    let lengths = |top: u32| {
        (1..100usize).chain((7..=top).flat_map(|k| {
            [
                (1usize << k) - 1,
                1 << k,
                (1 << k) + 1,
                (1 << k) + 4,
                3 << (k - 1),
            ]
        }))
    };
    parallel(&jobs, |(t, leaf)| {
        for v in model::enumerate::values(t, 0)
            .into_iter()
            .take(if *leaf || th { 4 } else { 1 })
        {
            guard::context("kind=special\n");
            guard::input(&[]);
            let b = encode(t, &v);
            for fill in [0u8, 0xFF] {
                let mut x = b.clone();
                for n in lengths(if *leaf { 20 } else { 17 }) {
                    x.resize(b.len() + n, fill);
                    check(t, n, &x);
                }
            }
            guard::idle();
        }
    });
    // longer than a length word can say (pages that are never touched)
    let mut x = vec![0u8; (1usize << 33) + 64];
    for t in terms(&all_leaves(), 1) {
        let v = &model::enumerate::values(&t, 0)[0];
        let b = encode(&t, v);
        if b.len() > 60 {
            continue;
        }
        x[..64].fill(0);
        x[..b.len()].copy_from_slice(&b);
        guard::context("kind=special\n");
        guard::input(&[]);
        for k in 21..=33 {
            for n in [(1usize << k) - 1, 1 << k, (1 << k) + 3] {
                check(&t, n, &x[..b.len() + n]);
            }
        }
        guard::idle();
    }
}
const ALL_EXTENT: &[Class] = &[Class::Trailing, Class::WrongValue, Class::Refused];

pub fn limit(len: usize) -> u64 {
    (8 << 20) + 64 * len as u64
}

/// C06
pub fn memory(r: &Report) {
    let th = r.thorough();
    let mut targets: Vec<(usize, Box<dyn Target>)> = vec![];
    for (n, t) in families(th) {
        if n <= 3 || n == 6 {
            targets.push((n, Box::new(Term(t))));
        }
    }
    for t in statics::all() {
        targets.push((7, t));
    }
    macro_rules! more { ($($t:ty),* $(,)?) => { $( targets.push((7, Box::new(statics::Static::<$t>::new(stringify!($t))))); )* } }
    more!(Vec<u32>, Vec<Vec<Vec<u8>>>, Vec<(u8, Vec<u64>)>, Option<Vec<String>>, [Vec<u8>; 3], Vec<[u64; 32]>, Vec<[[u64; 32]; 8]>,
          Vec<statics::Adapters>, Vec<statics::Mixed>, std::collections::BTreeMap<u64, Vec<Vec<u8>>>);
    parallel(&targets, |(n, t)| {
        let target = Measured {
            r,
            t: &**t,
            ty: sexp::ty(&t.ty()),
            plain: t.name() == "dyn",
        };
        let b = Bounds {
            dev: if *n <= 2 { 2 } else { 1 },
            depth: if *n == 7 { 24 } else { 12 },
            hostile: 6,
            rich: *n == 1,
            straight: false,
        };
        Explorer::new(r, &target, &[], b).run();
        claims(r, &target);
    });
    // long genuine inputs: memory must stay proportional
    for k in 10..=(if th { 22 } else { 18 }) {
        let n = 1usize << k;
        let mut b = word(n as u32);
        b.extend(vec![0u8; 4 * n]);
        let t = Arc::new(Ty::Seq(Arc::new(Ty::U8)));
        measured_decode(
            r,
            "Vec<u8>",
            &t,
            &b,
            &|b| statics::decode_as::<Vec<u8>>(b),
            false,
        );
        let mut b = word(4 * n as u32);
        b.extend(vec![b'x'; 4 * n]);
        for t in [Ty::Str, Ty::Bytes, Ty::OpVar, Ty::OpArr] {
            let t = Arc::new(t);
            measured_decode(r, "dyn", &t, &b, &|b| bind::real_decode(&t, b), false);
        }
    }
}

struct Measured<'a> {
    r: &'a Report,
    t: &'a dyn Target,
    ty: String,
    plain: bool,
}
impl Target for Measured<'_> {
    fn name(&self) -> String {
        self.t.name()
    }
    fn ty(&self) -> Arc<Ty> {
        self.t.ty()
    }
    fn decode(&self, b: &[u8]) -> Dec {
        let (d, peak) = alloc::measure(|| self.t.decode(b));
        if peak > limit(b.len()) {
            over(self.r, &self.t.name(), &self.ty, b, peak);
        }
        let _ = self.plain;
        d
    }
    fn hold(&self, v: Val) -> Val {
        self.t.hold(v)
    }
    fn encode(&self, v: &Val) -> bind::Enc {
        self.t.encode(v)
    }
}
fn over(r: &Report, name: &str, ty: &str, b: &[u8], peak: u64) {
    r.violation(Violation {
        key: format!("{name}/{ty}/{}", sexp::hex(b)),
        replay: format!(
            "property={}\nkind=decode\ntarget={name}\ntype={ty}\ninput={}\n",
            r.property,
            sexp::hex(b)
        ),
        what: format!(
            "{name} {ty}: decoding {} bytes of input allocates {peak} bytes",
            b.len()
        ),
    });
}
fn measured_decode(
    r: &Report,
    name: &str,
    ty: &Arc<Ty>,
    b: &[u8],
    f: &dyn Fn(&[u8]) -> Dec,
    _x: bool,
) {
    guard::context(&format!(
        "kind=decode\ntarget={name}\ntype={}\n",
        sexp::ty(ty)
    ));
    guard::input(&b[..b.len().min(4096)]);
    let (d, peak) = alloc::measure(|| f(b));
    guard::idle();
    r.add(1, 1, 1);
    if peak > limit(b.len()) {
        over(r, name, &sexp::ty(ty), &b[..64], peak);
    }
    drop(d);
}

/// every claim 2^k and 2^k-1 at the first length or count of the type, with little data behind it
fn claims(r: &Report, t: &Measured) {
    let ty = t.ty();
    let mut m = Machine::new(&ty);
    let mut path: Vec<u8> = vec![];
    let mut n = 0;
    guard::context(&format!(
        "kind=decode\ntarget={}\ntype={}\n",
        t.name(),
        t.ty
    ));
    for _ in 0..40 {
        let Status::Need(need) = m.status() else {
            break;
        };
        let hostile_ok = match &need {
            model::machine::Need::Count(e) => *e > 0,
            model::machine::Need::Len => true,
            _ => false,
        };
        if hostile_ok {
            for k in 4..=32u32 {
                let c = if k == 32 { u32::MAX } else { 1u32 << k };
                for c in [c, c - 1, c.wrapping_sub(2)] {
                    for extra in [0usize, 4, 16, 64, 256, 1024] {
                        let mut b = path.clone();
                        be32(&mut b, c);
                        b.extend((0..extra).map(|i| if i % 4 == 3 { 1 } else { 0 }));
                        guard::input(&b);
                        let _ = t.decode(&b);
                        n += 1;
                    }
                }
            }
        }
        let s = menu(&need, false)[0].clone();
        m.feed(&s);
        path.extend(s);
    }
    guard::idle();
    r.add(0, 0, n);
    r.count("claims_measured", n);
}

/// C08, C09
pub fn adapters(r: &Report, which: fn(&Ty) -> bool) {
    let th = r.thorough();
    let fam: Vec<_> = families(th)
        .into_iter()
        .filter(|(_, t)| contains(t, which))
        .collect();
    parallel(&fam, |(n, t)| {
        Explorer::new(r, &Term(t.clone()), ALL, bounds(*n, th)).run()
    });
    let st: Vec<_> = statics::all()
        .into_iter()
        .filter(|t| contains(&t.ty(), which))
        .collect();
    parallel(&st, |t| {
        Explorer::new(
            r,
            &**t,
            ALL,
            Bounds {
                dev: if th { 2 } else { 1 },
                depth: 60,
                hostile: 4,
                rich: true,
                straight: false,
            },
        )
        .run();
    });
    if which(&Ty::OpVar) {
        // every length, alone and followed by data, with every cut near the end
        let lens: Vec<usize> = (0..=if th { 2000 } else { 300 })
            .chain([1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536])
            .collect();
        parallel(&lens, |n| {
            let a = |t: Ty| Arc::new(t);
            let body = Val::Bytes(model::menu::pattern(*n as u64));
            let mut ts = vec![Ty::OpVar, Ty::OpArr];
            if OPFIX_LENGTHS.contains(n) {
                ts.push(Ty::OpFix(*n));
            }
            for x in ts {
                for (t, v) in [
                    (x.clone(), body.clone()),
                    (
                        Ty::Struct(vec![a(x.clone()), a(Ty::U16)]),
                        Val::List(vec![body.clone(), Val::U(515)]),
                    ),
                    (Ty::Opt(a(x.clone())), Val::Some(Box::new(body.clone()))),
                    (
                        Ty::Tuple(vec![a(x.clone()), a(x.clone())]),
                        Val::List(vec![body.clone(), body.clone()]),
                    ),
                    (
                        Ty::Enum(vec![Arm::Unit, Arm::New(a(x.clone()))]),
                        Val::Var(1, vec![body.clone()]),
                    ),
                ] {
                    let t = a(t);
                    let target = Term(t.clone());
                    let mut e = Explorer::new(r, &target, ALL, bounds(1, false));
                    guard::context(&format!("kind=decode\ntarget=dyn\ntype={}\n", sexp::ty(&t)));
                    let b = encode(&t, &v);
                    for k in 0..=12.min(b.len()) {
                        e.trace(&b[..b.len() - k]);
                    }
                    for s in SUFFIXES {
                        let mut x = b.clone();
                        x.extend_from_slice(s);
                        e.trace(&x);
                    }
                    e.finish("opaque_lengths");
                }
            }
        });
    }
}

/// C09: assignments x words
pub fn signed(r: &Report) {
    let mut sets: Vec<Vec<i32>> = vec![
        vec![0],
        vec![-1],
        vec![i32::MIN],
        vec![i32::MAX],
        (0..300).collect(),
        (-150..150).collect(),
        vec![-2, -1, 1, 2],
        vec![1, 256, 65536, 16777216],
        vec![-128, 127, -32768, 32767],
        vec![128, 255, 256, 65535, 65536],
    ];
    // every non-empty subset of a boundary set
    let base = [i32::MIN, -65536, -1, 0, 1, 255, i32::MAX];
    for m in 1u32..1 << base.len() {
        sets.push(
            base.iter()
                .enumerate()
                .filter(|(i, _)| m >> i & 1 == 1)
                .map(|(_, v)| *v)
                .collect(),
        );
    }
    let th = r.thorough();
    parallel(&sets, |s| {
        let a = |t: Ty| Arc::new(t);
        let t = a(Ty::Struct(vec![a(Ty::S32(s.clone())), a(Ty::U8)]));
        let target = Term(t.clone());
        let mut e = Explorer::new(r, &target, ALL, bounds(1, false));
        guard::context(&format!("kind=decode\ntarget=dyn\ntype={}\n", sexp::ty(&t)));
        for x in (0..65536u32).step_by(if th { 1 } else { 3 }) {
            for w in [
                x,
                x << 16,
                x | 0xFFFF_0000,
                (x << 16) | 0xFFFF,
                x ^ 0x8000_0000,
            ] {
                let mut b = word(w);
                b.extend([0, 0, 0, 9]);
                e.trace(&b);
            }
        }
        for x in s {
            for d in -2i32..=2 {
                let mut b = word(x.wrapping_add(d) as u32);
                b.extend([0, 0, 0, 9]);
                e.trace(&b);
                e.trace(&b[..4]);
                e.trace(&b[..3]);
            }
            let v = Val::List(vec![Val::I(*x as i64), Val::U(9)]);
            let got = target.encode(&v);
            if let Some(w) = judge_encode(&t, &v, &got) {
                special(r, &format!("signed {x}"), w);
            }
        }
        e.finish("assignments");
    });
}
