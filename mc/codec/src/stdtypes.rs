//! Types of the standard library as serde carries them: encoded as the equivalent plain types,
//! brought back, cut off at every byte, and followed by other data.
use crate::encode::special;
use model::bind::{Enc, Error, panic_text, real_encode};
use model::guard;
use model::report::Report;
use model::sexp::hex;
use model::statics::Model;
use model::ty::encode;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet};
use std::ffi::{CString, OsString};
use std::fmt::Debug;
use std::marker::PhantomData;
use std::net::*;
use std::num::*;
use std::ops::{Bound, Range, RangeFrom, RangeInclusive, RangeTo};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::PathBuf;
use std::time::{Duration, SystemTime};

/// the encoding of the plain value a standard type stands for
fn as_plain<T: Model>(v: T) -> Vec<u8> {
    encode(&T::ty(), &v.to_val())
}
fn index<T: Model>(i: i32, v: T) -> Vec<u8> {
    as_plain((i, v))
}

struct Look<'a> {
    r: &'a Report,
    only: &'a str,
}
impl Look<'_> {
    fn bad(&self, name: &str, what: String) {
        special(
            self.r,
            &format!("std/{name}/{}", what.len()),
            format!("{name}: {what}"),
        );
    }
    fn one<T>(&self, v: T, plain: Option<Vec<u8>>)
    where
        T: Serialize + DeserializeOwned + PartialEq + Debug,
    {
        self.by(v, plain, |a, b| a == b)
    }
    fn by<T>(&self, v: T, plain: Option<Vec<u8>>, same: impl Fn(&T, &T) -> bool)
    where
        T: Serialize + DeserializeOwned + Debug,
    {
        let name = format!("{} {v:?}", std::any::type_name::<T>());
        guard::context("kind=special\n");
        guard::input(&[]);
        let decode = |b: &[u8]| catch_unwind(AssertUnwindSafe(|| serde_xdr::from_bytes::<T>(b)));
        self.r.add(1, 1, 1);
        self.r.count("standard_values", 1);
        let bytes = match real_encode(&v) {
            Enc::Bytes(b) => b,
            e => {
                if matches!(self.only, "C01" | "C02") {
                    self.bad(&name, format!("not encoded: {e:?}"));
                }
                return guard::idle();
            }
        };
        guard::input(&bytes);
        match self.only {
            "C01" => {
                if let Some(p) = plain
                    && p != bytes
                {
                    self.bad(
                        &name,
                        format!("encoded as {}, RFC 4506: {}", hex(&bytes), hex(&p)),
                    );
                }
                if bytes.len() % 4 != 0 {
                    self.bad(&name, format!("encoded as {}", hex(&bytes)));
                }
            }
            "C02" => match decode(&bytes) {
                Ok(Ok(x)) => {
                    if !same(&v, &x) {
                        self.bad(&name, format!("{} decodes to {x:?}", hex(&bytes)));
                    }
                    match real_encode(&x) {
                        Enc::Bytes(b) if b == bytes || self.unordered(&name) => (),
                        e => self.bad(
                            &name,
                            format!("{} decoded and encoded again: {e:?}", hex(&bytes)),
                        ),
                    }
                }
                Ok(Err(e)) => self.bad(&name, format!("{} is refused: {e:?}", hex(&bytes))),
                Err(p) => self.bad(&name, format!("{} panics: {}", hex(&bytes), panic_text(p))),
            },
            "C04" => {
                for n in 0..bytes.len() {
                    self.r.add(0, 1, 1);
                    match decode(&bytes[..n]) {
                        Ok(Err(Error::NotEnoughData(k))) if k > 0 && k <= bytes.len() - n => (),
                        Ok(x) => self.bad(
                            &name,
                            format!("{} cut off after {n} bytes: {x:?}", hex(&bytes)),
                        ),
                        Err(p) => self.bad(
                            &name,
                            format!(
                                "{} cut off after {n} bytes: panics: {}",
                                hex(&bytes),
                                panic_text(p)
                            ),
                        ),
                    }
                }
            }
            "C05" => {
                for s in [
                    &[0u8][..],
                    &[0, 0, 0, 0],
                    &[0, 0, 0],
                    &[0, 0, 0, 1, 255, 255, 255, 255, 7],
                ] {
                    let mut b = bytes.clone();
                    b.extend(s);
                    self.r.add(0, 1, 1);
                    match decode(&b) {
                        Ok(Err(Error::TrailingData(k))) if k == s.len() => (),
                        Ok(x) => self.bad(
                            &name,
                            format!("{} followed by {}: {x:?}", hex(&bytes), hex(s)),
                        ),
                        Err(p) => self.bad(
                            &name,
                            format!(
                                "{} followed by {}: panics: {}",
                                hex(&bytes),
                                hex(s),
                                panic_text(p)
                            ),
                        ),
                    }
                }
            }
            _ => (),
        }
        guard::idle();
    }
    fn unordered(&self, name: &str) -> bool {
        name.contains("Hash") || name.contains("BinaryHeap")
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(transparent)]
struct Transparent {
    x: u16,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(rename_all = "camelCase")]
struct Renamed {
    #[serde(rename = "other")]
    a: u8,
    #[serde(alias = "b2")]
    b_c: Option<i64>,
    #[serde(default)]
    d: String,
    #[serde(skip)]
    skipped: u32,
    e: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(into = "i32", try_from = "i32")]
struct Converted(i8);
impl From<Converted> for i32 {
    fn from(c: Converted) -> i32 {
        c.0 as i32 * 3
    }
}
impl TryFrom<i32> for Converted {
    type Error = String;
    fn try_from(v: i32) -> Result<Self, String> {
        if v % 3 == 0 {
            i8::try_from(v / 3)
                .map(Converted)
                .map_err(|e| e.to_string())
        } else {
            Err("not a third".into())
        }
    }
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum Generic<T, U = u8> {
    #[serde(rename = "x y")]
    None,
    One(T),
    Two(T, U),
    #[serde(rename_all = "UPPERCASE")]
    Named {
        a: T,
        b: Vec<U>,
    },
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
struct Borrowing<'a> {
    s: Cow<'a, str>,
    n: i16,
    l: Cow<'a, [u16]>,
}

fn sets(l: &Look) {
    for n in [0usize, 1, 2, 3, 5, 17, 300] {
        let xs: Vec<i16> = (0..n).map(|i| i as i16 * 31 - 500).collect();
        l.one::<BTreeSet<i16>>(xs.iter().copied().collect(), Some(as_plain(xs.clone())));
        l.one::<HashSet<i16>>(xs.iter().copied().collect(), None);
        let m: HashMap<i16, String> = xs
            .iter()
            .map(|x| (*x, model::enumerate::text(*x as u8 as usize % 9)))
            .collect();
        l.one(m, None);
        l.by::<BinaryHeap<i16>>(xs.iter().copied().collect(), None, |a, b| {
            a.clone().into_sorted_vec() == b.clone().into_sorted_vec()
        });
        l.one::<Box<[i16]>>(xs.clone().into(), Some(as_plain(xs.clone())));
        l.one::<Cow<'static, [i16]>>(Cow::Owned(xs.clone()), Some(as_plain(xs.clone())));
        let s = model::enumerate::text(n);
        l.one::<Box<str>>(s.as_str().into(), Some(as_plain(s.clone())));
        l.one::<Cow<'static, str>>(Cow::Owned(s.clone()), Some(as_plain(s.clone())));
        l.one(PathBuf::from(&s), Some(as_plain(s.clone())));
        l.one(Some(Box::new(s.clone())), Some(as_plain(Some(s.clone()))));
        let c: Vec<u8> = (0..n).map(|i| (i % 255) as u8 + 1).collect();
        let mut plain = (c.len() as u32).to_be_bytes().to_vec();
        plain.extend(&c);
        while plain.len() % 4 != 0 {
            plain.push(0);
        }
        l.one(CString::new(c).unwrap(), Some(plain));
        l.one(OsString::from(&s), None);
        l.one(
            Borrowing {
                s: s.clone().into(),
                n: -3,
                l: vec![7u16; n].into(),
            },
            Some(as_plain((s, -3i16, vec![7u16; n]))),
        );
    }
}

fn numbers(l: &Look) {
    macro_rules! nz {
        ($($t:ty, $n:ty);*) => { $( for v in [<$t>::MIN, 1, 2, 7, <$t>::MAX, <$t>::MAX - 1, <$t>::MAX / 2] {
            if let Some(x) = <$n>::new(v) { l.one(x, Some(as_plain(v))); l.one(Some(x), Some(as_plain(Some(v)))); l.one(vec![x; 3], Some(as_plain(vec![v; 3]))); }
            l.one(Wrapping(v), Some(as_plain(v)));
            l.one(Saturating(v), Some(as_plain(v)));
            l.one(Reverse(v), Some(as_plain(v)));
            l.one(Cell::new(v), Some(as_plain(v)));
            l.one(RefCell::new(v), Some(as_plain(v)));
            l.one(Bound::Included(v), Some(index(1, v)));
            l.one(Bound::Excluded(v), Some(index(2, v)));
            l.one(Bound::<$t>::Unbounded, Some(index(0, ())));
            l.one(Range { start: <$t>::MIN, end: v }, Some(as_plain((<$t>::MIN, v))));
            l.one(RangeInclusive::new(v, <$t>::MAX), Some(as_plain((v, <$t>::MAX))));
            l.one(RangeFrom { start: v }, Some(as_plain(v)));
            l.one(RangeTo { end: v }, Some(as_plain(v)));
            l.one(Ok::<$t, String>(v), Some(index(0, v)));
            l.one(Err::<String, $t>(v), Some(index(1, v)));
            l.one((v, PhantomData::<String>, v), Some(as_plain((v, v))));
            l.one(Generic::<$t>::One(v), Some(index(1, v)));
            l.one(Generic::<$t, i16>::Two(v, -9), Some(index(2, (v, -9i16))));
            l.one(Generic::<$t>::Named { a: v, b: vec![1, 2, 3] }, Some(index(3, (v, vec![1u8, 2, 3]))));
            l.one(Generic::<$t>::None, Some(index(0, ())));
        } )* };
    }
    nz!(i8, NonZeroI8; i16, NonZeroI16; i32, NonZeroI32; i64, NonZeroI64; u8, NonZeroU8; u16, NonZeroU16; u32, NonZeroU32; u64, NonZeroU64);
    for v in [
        0usize,
        1,
        255,
        65536,
        u32::MAX as usize,
        1 << 32,
        usize::MAX,
    ] {
        l.one(v, Some(as_plain(v as u64)));
        l.one(v as isize, Some(as_plain(v as isize as i64)));
        if let Some(x) = NonZeroUsize::new(v) {
            l.one(x, Some(as_plain(v as u64)));
        }
    }
    for (s, n) in [(0u64, 0u32), (1, 999_999_999), (u64::MAX, 1), (1 << 40, 5)] {
        l.one(Duration::new(s, n), Some(as_plain((s, n))));
        if s < 1 << 50 {
            l.one(
                SystemTime::UNIX_EPOCH + Duration::new(s, n),
                Some(as_plain((s, n))),
            );
        }
    }
}

fn addresses(l: &Look) {
    // whether serde writes an address as text or as octets is not laid down: it has to come back
    let words: &[u16] = &[0, 1, 0xFF, 0x7F00, 0xFFFF];
    for a in words {
        for b in words {
            let four = Ipv4Addr::new((a >> 8) as u8, *a as u8, (b >> 8) as u8, *b as u8);
            let six = Ipv6Addr::new(*a, *b, 0, *b, 0, 0, *a, *b);
            l.one(four, None);
            l.one(six, None);
            l.one(IpAddr::from(four), None);
            l.one(IpAddr::from(six), None);
            l.one(SocketAddrV4::new(four, *b), None);
            l.one(SocketAddrV6::new(six, *a, 0, 0), None);
            l.one(SocketAddr::from((four, *a)), None);
            l.one(SocketAddr::from((six, *b)), None);
            l.one(
                (
                    1u8,
                    vec![IpAddr::from(four), IpAddr::from(six)],
                    Some(SocketAddr::from((four, *a))),
                    2u8,
                ),
                None,
            );
            l.one(
                BTreeMap::from([(IpAddr::from(four), *a), (IpAddr::from(six), *b)]),
                None,
            );
        }
    }
}

pub fn run(r: &Report, only: &str) {
    let l = Look { r, only };
    sets(&l);
    numbers(&l);
    addresses(&l);
    for v in -128i8..=127 {
        l.one(Converted(v), Some(as_plain(v as i32 * 3)));
        l.one(
            Transparent {
                x: v as u8 as u16 * 257,
            },
            Some(as_plain(v as u8 as u16 * 257)),
        );
        for b in [None, Some((v as i64).wrapping_mul(0x0101_0101_0101_0101))] {
            let d = model::enumerate::text(v as u8 as usize % 6);
            let x = Renamed {
                a: v as u8,
                b_c: b,
                d: d.clone(),
                skipped: 0,
                e: v > 0,
            };
            l.one(x, Some(as_plain((v as u8, (b, (d, v > 0))))));
        }
    }
    macro_rules! arrays {
        ($($n:literal)*) => { $(
            l.one([0x1234u16; $n], Some(as_plain(0x1234u16).repeat($n)));
            l.one([(); $n], Some(vec![]));
        )* };
    }
    arrays!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32);
}
