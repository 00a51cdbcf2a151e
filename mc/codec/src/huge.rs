//! C01, C02: lengths and counts above 2147483647, the upper half of what a length word can say.
use crate::encode::special;
use model::bind::Enc;
use model::guard;
use model::report::Report;
use serde::de::{DeserializeOwned, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::*;
use std::fmt;

/// as many voids as said, in an array or a map: no bytes but the count
#[derive(Clone, Copy, Debug, PartialEq)]
struct Units<const MAP: bool>(u64);
/// as many zero bytes as said
#[derive(Clone, Copy, Debug, PartialEq)]
struct Zeros<const TEXT: bool>(usize);

fn zeros(n: usize) -> &'static [u8] {
    use std::sync::OnceLock;
    static Z: OnceLock<Vec<u8>> = OnceLock::new();
    &Z.get_or_init(|| vec![0u8; (1usize << 32) + 16])[..n]
}

impl<const MAP: bool> Serialize for Units<MAP> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if MAP {
            let mut q = s.serialize_map(Some(self.0 as usize))?;
            for _ in 0..self.0 {
                q.serialize_entry(&(), &())?;
            }
            return q.end();
        }
        let mut q = s.serialize_seq(Some(self.0 as usize))?;
        for _ in 0..self.0 {
            q.serialize_element(&())?;
        }
        q.end()
    }
}
impl<const TEXT: bool> Serialize for Zeros<TEXT> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match TEXT {
            true => s.serialize_str(unsafe { std::str::from_utf8_unchecked(zeros(self.0)) }),
            false => s.serialize_bytes(zeros(self.0)),
        }
    }
}
struct V;
impl<'de> Visitor<'de> for V {
    type Value = u64;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a huge value")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<u64, A::Error> {
        let mut n = 0;
        while a.next_element::<()>()?.is_some() {
            n += 1;
        }
        Ok(n)
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<u64, A::Error> {
        let mut n = 0;
        while a.next_entry::<(), ()>()?.is_some() {
            n += 1;
        }
        Ok(n)
    }
    fn visit_str<E: serde::de::Error>(self, v: &str) -> Result<u64, E> {
        self.visit_bytes(v.as_bytes())
    }
    fn visit_bytes<E: serde::de::Error>(self, v: &[u8]) -> Result<u64, E> {
        if v == zeros(v.len()) {
            Ok(v.len() as u64)
        } else {
            Err(E::custom("other bytes than zero"))
        }
    }
}
impl<'de, const MAP: bool> serde::Deserialize<'de> for Units<MAP> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Ok(Units(if MAP {
            d.deserialize_map(V)
        } else {
            d.deserialize_seq(V)
        }?))
    }
}
impl<'de, const TEXT: bool> serde::Deserialize<'de> for Zeros<TEXT> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Ok(Zeros(if TEXT {
            d.deserialize_str(V)
        } else {
            d.deserialize_bytes(V)
        }? as usize))
    }
}

fn one<T: Serialize + DeserializeOwned + PartialEq + fmt::Debug>(
    r: &Report,
    v: &T,
    n: u64,
    body: usize,
) {
    guard::context("kind=special\n");
    guard::input(&[]);
    r.add(1, 1, 1);
    let what = match model::bind::real_encode(v) {
        Enc::Err(e) => Some(format!("is refused with {e}")),
        Enc::Panic(p) => Some(format!("panics: {p}")),
        Enc::Bytes(b) => {
            let right = b.len() == 4 + body.div_ceil(4) * 4
                && b[..4] == (n as u32).to_be_bytes()
                && b[4..] == *zeros(b.len() - 4);
            if !right {
                Some(format!(
                    "is encoded as {} bytes beginning {:02x?}",
                    b.len(),
                    &b[..b.len().min(8)]
                ))
            } else {
                let back = std::panic::catch_unwind(|| serde_xdr::from_bytes::<T>(&b));
                match back {
                    Ok(Ok(w)) if w == *v => None,
                    Ok(Ok(w)) => Some(format!("comes back as {w:?}")),
                    Ok(Err(e)) => Some(format!("does not come back: {e:?}")),
                    Err(_) => Some("panics in decoding".to_string()),
                }
            }
        }
    };
    guard::idle();
    if let Some(what) = what {
        special(r, &format!("huge/{v:?}"), format!("{v:?} {what}"));
    }
}

pub fn run(r: &Report) {
    let mut counts: Vec<u64> = vec![65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 31) + 1];
    let mut sizes = vec![(1usize << 31) - 1, (1 << 31) + 1];
    if r.thorough() {
        counts.extend([3 << 30, (1 << 32) - 1]);
        sizes.extend([1 << 31, 3 << 30, (1 << 32) - 1]);
    }
    let jobs: Vec<u64> = counts.into_iter().rev().collect();
    model::explore::parallel(&jobs, |n| {
        one(r, &Units::<false>(*n), *n, 0);
        one(r, &Units::<true>(*n), *n, 0);
    });
    model::alloc::cap(9 << 30);
    for n in sizes {
        one(r, &Zeros::<true>(n), n as u64, n);
        one(r, &Zeros::<false>(n), n as u64, n);
    }
    model::alloc::cap(3 << 30);
}
