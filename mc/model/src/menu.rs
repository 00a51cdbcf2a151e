//! The finite alphabet offered at each state of the decode automaton. Entry 0 is the default.
use crate::machine::Need;
use crate::ty::*;

fn w(v: u32) -> Vec<u8> {
    let mut o = vec![];
    be32(&mut o, v);
    o
}
fn d(v: u64) -> Vec<u8> {
    let mut o = vec![];
    be64(&mut o, v);
    o
}
fn ws(v: &[u32]) -> Vec<Vec<u8>> {
    v.iter().map(|x| w(*x)).collect()
}

pub const HOSTILE: &[u32] = &[
    0xFFFF_FFFF,
    0x8000_0000,
    0x7FFF_FFFF,
    0xFFFF_FFFD,
    0x0100_0000,
    0x0001_0000,
];

/// Lengths and counts offered as non-hostile choices.
pub fn small_max(rich: bool) -> u32 {
    if rich { 9 } else { 5 }
}

pub fn pattern(n: u64) -> Vec<u8> {
    (0..n)
        .map(|i| 0x81u8.wrapping_add((i as u8).wrapping_mul(37)))
        .collect()
}

pub fn menu(need: &Need, rich: bool) -> Vec<Vec<u8>> {
    match need {
        Need::Word(t) => match &**t {
            Ty::Bool => ws(&[
                1,
                0,
                2,
                0x100,
                0x0100_0000,
                0x8000_0000,
                0xFFFF_FFFF,
                0x10000,
            ]),
            Ty::I8 => ws(&[
                0xFFFF_FFFB,
                0,
                1,
                127,
                0xFFFF_FF80,
                128,
                0xFFFF_FF7F,
                255,
                0x100,
                0x101,
                0x10001,
                0x0100_0005,
                0xFFFF,
                0xFF00_0001,
                0x8000_0000,
                0x7FFF_FFFF,
                0xFFFF_00FF,
                0xFFFF_FEFF,
            ]),
            Ty::I16 => ws(&[
                0xFFFF_F234,
                0,
                1,
                32767,
                0xFFFF_8000,
                32768,
                0xFFFF_7FFF,
                65535,
                0x10000,
                0x10001,
                0x0100_0005,
                0xFF00_0001,
                0x8000_0000,
                0x7FFF_FFFF,
                0xFFFE_FFFF,
            ]),
            Ty::U8 => ws(&[
                0xA7,
                0,
                1,
                127,
                128,
                255,
                256,
                257,
                0x10001,
                0x0100_0005,
                0xFFFF,
                0xFFFF_FFFF,
                0xFFFF_FF80,
                0x8000_0000,
                0x8000_00FF,
            ]),
            Ty::U16 => ws(&[
                0xA712,
                0,
                1,
                255,
                32768,
                65535,
                0x10000,
                0x10001,
                0x0100_0005,
                0xFFFF_FFFF,
                0xFFFF_8000,
                0x8000_0000,
                0x8000_FFFF,
            ]),
            Ty::I32 => ws(&[
                0x8123_4567,
                0,
                1,
                0xFFFF_FFFF,
                0x8000_0000,
                0x7FFF_FFFF,
                0x0001_0000,
                0xFF,
            ]),
            Ty::U32 => ws(&[
                0x8123_4567,
                0,
                1,
                0xFFFF_FFFF,
                0x8000_0000,
                0x7FFF_FFFF,
                0x0001_0000,
                0xFF,
            ]),
            Ty::F32 => ws(&[
                0x4049_0FDB,
                0,
                0x8000_0000,
                0x3F80_0000,
                0x7F80_0000,
                0xFF80_0000,
                0x7FC0_0001,
                0x7F80_0001,
                0xFFFF_FFFF,
                1,
                0x807F_FFFF,
            ]),
            Ty::Char => ws(&[
                0x1F600,
                0,
                0x41,
                0x7F,
                0x80,
                0xFF,
                0x7FF,
                0x800,
                0xD7FF,
                0xE000,
                0xFFFD,
                0xFFFF,
                0x10000,
                0x10FFFF,
                0xD800,
                0xDBFF,
                0xDC00,
                0xDFFF,
                0x110000,
                0x8000_0041,
                0xFFFF_FFFF,
                0x0100_0041,
                0x0020_0041,
            ]),
            // the default ends a recursive type
            Ty::Opt(t) if matches!(**t, Ty::Ref(_)) => {
                ws(&[0, 1, 2, 0x100, 0x8000_0000, 0xFFFF_FFFF])
            }
            Ty::Opt(_) => ws(&[
                1,
                0,
                2,
                0x100,
                0x10000,
                0x0100_0000,
                0x8000_0000,
                0xFFFF_FFFF,
            ]),
            Ty::Enum(arms) => {
                let n = arms.len() as u32;
                let mut v = vec![];
                let pick: Vec<u32> = if n <= 12 {
                    (0..n).rev().collect()
                } else {
                    vec![n - 1, 0, 1, n / 2, 255.min(n - 1), 256.min(n - 1)]
                };
                for i in pick {
                    if !v.contains(&i) {
                        v.push(i);
                    }
                }
                for x in [
                    n,
                    n + 1,
                    0xFFFF_FFFF,
                    0x8000_0000,
                    0x7FFF_FFFF,
                    0x100,
                    0x10000,
                    0x0100_0000,
                    0x8000_0001,
                    0xFFFF_FF00,
                    n + 256,
                ] {
                    if !v.contains(&x) {
                        v.push(x);
                    }
                }
                ws(&v)
            }
            Ty::U32of(set) => menu(
                &Need::Word(std::sync::Arc::new(Ty::S32(
                    set.iter().map(|x| *x as i32).collect(),
                ))),
                rich,
            ),
            Ty::S32(set) | Ty::I32of(set) | Ty::E32(set, ..) => {
                // of a large set: both ends and the middle
                let set: Vec<i32> = if set.len() <= 16 {
                    set.clone()
                } else {
                    let n = set.len();
                    [n - 1, 0, 1, n / 2, n - 2]
                        .iter()
                        .map(|i| set[*i])
                        .collect()
                };
                let mut v: Vec<u32> = set.iter().map(|x| *x as u32).collect();
                for x in set.clone() {
                    for y in [
                        x.wrapping_add(1),
                        x.wrapping_sub(1),
                        x.wrapping_neg(),
                        x.wrapping_add(256),
                        x.wrapping_add(65536),
                        x ^ i32::MIN,
                    ] {
                        if !v.contains(&(y as u32)) {
                            v.push(y as u32);
                        }
                    }
                }
                for x in [0u32, 1, 0xFFFF_FFFF, 0x8000_0000, 0x7FFF_FFFF] {
                    if !v.contains(&x) {
                        v.push(x);
                    }
                }
                ws(&v)
            }
            t => panic!("no menu for {t:?}"),
        },
        Need::DWord(t) => match &**t {
            Ty::F64 => [
                0x4009_21FB_5444_2D18u64,
                0,
                1 << 63,
                0x3FF0_0000_0000_0000,
                0x7FF0_0000_0000_0000,
                0xFFF0_0000_0000_0000,
                0x7FF8_0000_0000_0001,
                0x7FF0_0000_0000_0001,
                u64::MAX,
                1,
            ]
            .iter()
            .map(|x| d(*x))
            .collect(),
            _ => [
                0x8123_4567_89AB_CDEFu64,
                0,
                1,
                u64::MAX,
                1 << 63,
                (1 << 63) - 1,
                1 << 32,
                0xFFFF_FFFF,
                0xFF,
            ]
            .iter()
            .map(|x| d(*x))
            .collect(),
        },
        Need::Count(elem) => {
            let rec = *elem & crate::machine::REC != 0;
            let mut v: Vec<u32> = if rec { vec![0, 1, 2] } else { vec![2, 0, 1, 3] };
            if rich && !rec {
                v.extend([4, 5, 17]);
            }
            if *elem > 0 {
                v.extend_from_slice(HOSTILE);
            }
            ws(&v)
        }
        Need::Len => {
            let mut v: Vec<u32> = vec![3];
            v.extend((0..=small_max(rich)).filter(|x| *x != 3));
            if rich {
                v.extend([31, 32, 33, 127, 128, 255, 256, 257]);
            }
            v.extend_from_slice(HOSTILE);
            ws(&v)
        }
        Need::Raw(n, utf8) => raw(*n, *utf8),
        Need::Pad(n) => {
            let n = *n as usize;
            let mut v = vec![vec![0u8; n]];
            for i in 0..n {
                let mut p = vec![0u8; n];
                p[i] = 1;
                v.push(p);
            }
            v.push(vec![0xFF; n]);
            v
        }
    }
}

fn raw(n: u64, utf8: bool) -> Vec<Vec<u8>> {
    if n > 1 << 16 {
        return vec![];
    }
    let n = n as usize;
    let mut v: Vec<Vec<u8>> = vec![];
    if !utf8 {
        v.push(pattern(n as u64));
        v.push(vec![0; n]);
        v.push(vec![0xFF; n]);
        if n > 1 {
            let mut z = vec![0; n];
            z[n - 1] = 0x80;
            v.push(z);
        }
        return v;
    }
    let fill = |n: usize| (0..n).map(|i| b'a' + (i % 26) as u8).collect::<Vec<u8>>();
    v.push(fill(n));
    v.push(vec![0; n]);
    let pieces: &[&[u8]] = &[
        "é".as_bytes(),
        "\u{7FF}".as_bytes(),
        "€".as_bytes(),
        "\u{FFFF}".as_bytes(),
        "😀".as_bytes(),
        "\u{10FFFF}".as_bytes(),
        // not UTF-8
        b"\xFF",
        b"\x80",
        b"\xC3",
        b"\xE2\x82",
        b"\xF0\x9F\x98",
        b"\xC0\x80",
        b"\xED\xA0\x80",
        b"\xF4\x90\x80\x80",
        b"\xE0\x80\xAF",
    ];
    for p in pieces {
        if p.len() > n {
            continue;
        }
        // at the end and at the beginning
        let mut a = fill(n - p.len());
        a.extend_from_slice(p);
        let mut b = p.to_vec();
        b.extend(fill(n - p.len()));
        for x in [a, b] {
            if !v.contains(&x) {
                v.push(x);
            }
        }
    }
    v
}
