//! Operation histories: the result of an operation never depends on the operations before it.
use crate::encode::special;
use model::bind::{Enc, real_encode};
use model::report::Report;
use serde::ser::{Error as _, Serialize, SerializeSeq, SerializeTuple, Serializer};
use serde::{Deserialize, Deserializer};
use std::panic::{AssertUnwindSafe, catch_unwind};

/// encodes another value while being encoded
struct Reenter;
impl Serialize for Reenter {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut q = s.serialize_tuple(3)?;
        q.serialize_element(&1u8)?;
        let inner = serde_xdr::to_bytes(&("inner", 5u64)).map_err(S::Error::custom)?;
        q.serialize_element(&inner.len())?;
        let _ = serde_xdr::to_bytes(&Fails);
        q.serialize_element(&2u8)?;
        q.end()
    }
}
/// fails in the middle
struct Fails;
impl Serialize for Fails {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut q = s.serialize_seq(Some(2))?;
        q.serialize_element("half")?;
        Err(S::Error::custom("no"))
    }
}
/// panics in the middle
struct Panics;
impl Serialize for Panics {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut q = s.serialize_seq(Some(2))?;
        q.serialize_element("half")?;
        panic!("user panic")
    }
}
#[derive(Debug)]
struct DeReenter(#[allow(dead_code)] u32);
impl<'de> Deserialize<'de> for DeReenter {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let x = serde_xdr::from_bytes::<String>(&[0, 0, 0, 1, b'q', 0, 0, 0]);
        let y = serde_xdr::from_bytes::<String>(&[0, 0, 0, 9]);
        assert!(x.is_ok() && y.is_err());
        u32::deserialize(d).map(DeReenter)
    }
}
fn enc<T: Serialize>(v: &T) -> String {
    match real_encode(v) {
        Enc::Bytes(b) => model::sexp::hex(&b),
        e => format!("{e:?}"),
    }
}
fn dec<T: for<'a> Deserialize<'a> + std::fmt::Debug>(b: &[u8]) -> String {
    match catch_unwind(AssertUnwindSafe(|| serde_xdr::from_bytes::<T>(b))) {
        Ok(r) => format!("{r:?}"),
        Err(_) => "panic".into(),
    }
}

type Op = (&'static str, fn() -> String);
fn ops() -> Vec<Op> {
    vec![
        ("enc u8", || enc(&7u8)),
        ("enc str", || enc(&"hello")),
        ("enc vec", || enc(&vec![1i64, -1])),
        ("enc struct", || enc(&("a", Some(1u8), [true, false], 'x'))),
        ("enc fails", || enc(&Fails)),
        ("enc panics", || enc(&Panics)),
        ("enc reenter", || enc(&Reenter)),
        ("enc i128", || enc(&(1u8, 5i128))),
        ("dec u8", || dec::<u8>(&[0, 0, 0, 7])),
        ("dec short", || dec::<(u32, u64)>(&[0, 0, 0, 7, 1])),
        ("dec trailing", || dec::<u32>(&[0, 0, 0, 7, 1])),
        ("dec string", || {
            dec::<String>(&[0, 0, 0, 2, b'h', b'i', 0, 0])
        }),
        ("dec vec", || {
            dec::<Vec<u16>>(&[0, 0, 0, 2, 0, 0, 0, 1, 0, 0, 0, 2])
        }),
        ("dec hostile", || {
            dec::<Vec<u16>>(&[0xFF, 0xFF, 0xFF, 0xFF, 0, 0, 0, 1])
        }),
        ("dec reenter", || {
            dec::<(DeReenter, u8)>(&[0, 0, 0, 2, 0, 0, 0, 1])
        }),
    ]
}

fn expected(name: &str) -> &'static str {
    match name {
        "enc u8" => "00000007",
        "enc str" => "0000000568656c6c6f000000",
        "enc vec" => "000000020000000000000001ffffffffffffffff",
        "enc struct" => "00000001610000000000000100000001000000010000000000000078",
        _ => "",
    }
}

pub fn run(r: &Report) {
    let ops = ops();
    // each alone on a fresh thread
    let base: Vec<String> = ops
        .iter()
        .map(|(_, f)| std::thread::spawn(*f).join().unwrap())
        .collect();
    for (i, (n, _)) in ops.iter().enumerate() {
        let e = expected(n);
        let want = e.to_string();
        if !e.is_empty() && base[i] != want {
            special(
                r,
                &format!("history/{n}"),
                format!("{n} gives {}, expected {want}", base[i]),
            );
        }
    }
    let depth = if r.thorough() { 5 } else { 4 };
    let n = ops.len();
    let firsts: Vec<usize> = (0..n).collect();
    model::explore::parallel(&firsts, |first| {
        let total = n.pow(depth as u32 - 1);
        let mut count = 0;
        for s in 0..total {
            let mut seq = vec![*first];
            let mut x = s;
            for _ in 1..depth {
                seq.push(x % n);
                x /= n;
            }
            for (k, o) in seq.iter().enumerate() {
                let got = ops[*o].1();
                count += 1;
                if got != base[*o] {
                    let names: Vec<_> = seq[..=k].iter().map(|o| ops[*o].0).collect();
                    special(
                        r,
                        &format!("history/{}", names.join(",")),
                        format!("after {names:?}: {got}, alone {}", base[*o]),
                    );
                    return;
                }
            }
        }
        r.add(total as u64, count, total as u64);
        r.count("histories", total as u64);
    });
}
