//! What the generated modules are observed through: decode, encode, Debug, Default.
use serde::Serialize;
use serde::de::DeserializeOwned;
pub use serde_xdr::error::Error;
use std::fmt::Debug;

pub trait Obj {
    fn text(&self) -> String;
    fn bytes(&self) -> Result<Vec<u8>, Error>;
}
impl<T: Serialize + Debug> Obj for T {
    fn text(&self) -> String {
        format!("{self:?}")
    }
    fn bytes(&self) -> Result<Vec<u8>, Error> {
        serde_xdr::to_bytes(self)
    }
}

#[derive(Clone, Copy)]
pub struct Entry {
    pub name: &'static str,
    pub decode: fn(&[u8]) -> Result<Box<dyn Obj>, Error>,
    pub default: fn() -> Box<dyn Obj>,
}

fn decode<T: Serialize + DeserializeOwned + Debug + 'static>(
    b: &[u8],
) -> Result<Box<dyn Obj>, Error> {
    Ok(Box::new(serde_xdr::from_bytes::<T>(b)?))
}
fn default<T: Serialize + Default + Debug + 'static>() -> Box<dyn Obj> {
    Box::new(T::default())
}
pub fn entry<T: Serialize + DeserializeOwned + Default + Debug + 'static>(
    name: &'static str,
) -> Entry {
    Entry {
        name,
        decode: decode::<T>,
        default: default::<T>,
    }
}

/// a conversion of a generated type; values of the type are given as bytes it decodes from
#[derive(Clone, Copy)]
pub enum Kind {
    /// text of the value a number converts into
    TryFrom(fn(i32) -> Option<String>),
    Into(fn(&[u8]) -> Option<i32>),
    AsRef(fn(&[u8]) -> Option<i32>),
    Index(fn(&[u8]) -> Option<i32>),
    ByIndex(fn(i32) -> Option<&'static str>),
    /// None: no such discriminant
    ByValue(fn(&[u8]) -> Option<Option<&'static str>>),
    Eq(fn(&[u8], &[u8]) -> Option<bool>),
    Clone(fn(&[u8]) -> Option<Box<dyn Obj>>),
}
pub type Conv = (&'static str, Kind);

fn get<T: DeserializeOwned>(b: &[u8]) -> Option<T> {
    serde_xdr::from_bytes::<T>(b).ok()
}
pub mod conv {
    use super::*;
    pub fn try_from<T: TryFrom<i32> + Debug>(n: &'static str) -> Conv {
        (
            n,
            Kind::TryFrom(|i| T::try_from(i).ok().map(|x| format!("{x:?}"))),
        )
    }
    pub fn into<T: DeserializeOwned>(n: &'static str) -> Conv
    where
        i32: From<T>,
    {
        (n, Kind::Into(|b| get::<T>(b).map(i32::from)))
    }
    pub fn as_ref<T: DeserializeOwned + AsRef<i32>>(n: &'static str) -> Conv {
        (n, Kind::AsRef(|b| get::<T>(b).map(|x| *x.as_ref())))
    }
    pub fn index<T: DeserializeOwned + serde_xdr::XdrIndexer>(n: &'static str) -> Conv {
        (n, Kind::Index(|b| get::<T>(b).map(|x| x.index())))
    }
    pub fn by_index<T: serde_xdr::XdrIndexer>(n: &'static str) -> Conv {
        (n, Kind::ByIndex(|i| T::name_by_index(i).ok()))
    }
    pub fn by_value<T: serde_xdr::XdrUnion<V>, V: Serialize + DeserializeOwned>(
        n: &'static str,
    ) -> Conv {
        fn f<T: serde_xdr::XdrUnion<V>, V: Serialize + DeserializeOwned>(
            b: &[u8],
        ) -> Option<Option<&'static str>> {
            let v = get::<V>(b)?;
            // 2 is no bool, and an enumeration may fall back on one of its values
            if serde_xdr::to_bytes(&v).ok()? != b {
                return None;
            }
            Some(T::name_by_value(&v).ok())
        }
        (n, Kind::ByValue(f::<T, V>))
    }
    pub fn eq<T: DeserializeOwned + PartialEq>(n: &'static str) -> Conv {
        (n, Kind::Eq(|a, b| Some(get::<T>(a)? == get::<T>(b)?)))
    }
    pub fn clone<T: Serialize + DeserializeOwned + Clone + Debug + 'static>(
        n: &'static str,
    ) -> Conv {
        (
            n,
            Kind::Clone(|b| get::<T>(b).map(|x| Box::new(x.clone()) as Box<dyn Obj>)),
        )
    }
}
