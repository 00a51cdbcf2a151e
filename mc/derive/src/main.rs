//! Checks D01 and D02: the derived union codecs against the reference model.
#[rustfmt::skip]
mod family;

use model::alloc;
use model::bind::{Dec, Enc};
use model::driver::Engine;
use model::encoding::{Case, Mode};
use model::enumerate::values;
use model::explore::*;
use model::report::{Report, Violation};
use model::statics::*;
use model::ty::*;
use serde::ser::SerializeTuple;
use serde::{Deserialize, Serialize};
use serde_xdr::XdrIndexer as _;
use serde_xdr::XdrUnion as _;
use serde_xdr_derive::{XdrIndexer, XdrUnion};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;
use std::time::Duration;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

// --- what the family is written with ---------------------------------------------------
pub fn m<T: Model>() -> Arc<Ty> {
    Arc::new(T::ty())
}
pub fn un(d: Val, l: Vec<Val>) -> Val {
    Val::Un(Box::new(d), l)
}
pub fn union(
    disc: Ty,
    arms: Vec<Vec<Arc<Ty>>>,
    cases: Vec<(Val, usize)>,
    default: Option<usize>,
) -> Ty {
    Ty::Union(Arc::new(UnionTy {
        disc,
        arms,
        cases,
        default,
    }))
}
thread_local! {
    static TYPES: RefCell<HashMap<&'static str, Arc<UnionTy>>> = RefCell::new(HashMap::new());
}
/// the variant a model value selects, and its items
pub fn arm<T: Model>(v: &Val) -> (usize, &[Val]) {
    let Val::Un(d, l) = v else { panic!() };
    let u = TYPES.with(|c| {
        c.borrow_mut()
            .entry(std::any::type_name::<T>())
            .or_insert_with(|| match T::ty() {
                Ty::Union(u) => u,
                _ => panic!(),
            })
            .clone()
    });
    (u.arm(d).unwrap(), l)
}
pub fn x<T: Model>(l: &[Val], i: usize) -> Option<T> {
    T::from_val(&l[i])
}
pub fn disc<T: Model>(v: &Val) -> Option<T> {
    let Val::Un(d, _) = v else { panic!() };
    T::from_val(d)
}
pub fn t<T: Model + 'static>(name: &'static str) -> Box<dyn Target> {
    Box::new(Held(Static::<T>::new(name)))
}

/// Discriminants that share a variant come back as the one the variant is encoded with.
struct Held<T>(Static<T>);
impl<T: Model> Target for Held<T> {
    fn name(&self) -> String {
        self.0.name()
    }
    fn ty(&self) -> Arc<Ty> {
        self.0.ty()
    }
    fn decode(&self, b: &[u8]) -> Dec {
        self.0.decode(b)
    }
    fn encode(&self, v: &Val) -> Enc {
        self.0.encode(v)
    }
    fn hold(&self, v: Val) -> Val {
        match (&v, self.0.name().as_str()) {
            (Val::Un(_, l), "IAlias") => {
                let (k, _) = arm::<T>(&v);
                un(Val::I([1, 5, -3][k]), l.clone())
            }
            _ => self.0.hold(v),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Plain {
    A,
    B,
    C,
    D,
    E,
}
impl Model for Plain {
    fn ty() -> Ty {
        Ty::Enum(vec![Arm::Unit, Arm::Unit, Arm::Unit, Arm::Unit, Arm::Unit])
    }
    fn to_val(&self) -> Val {
        Val::Var(self.clone() as u32, vec![])
    }
    fn from_val(v: &Val) -> Option<Self> {
        let Val::Var(i, _) = v else { panic!() };
        Some([Plain::A, Plain::B, Plain::C, Plain::D, Plain::E][*i as usize].clone())
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Field<T> {
    pub before: String,
    pub it: T,
    pub after: u64,
}
impl<T: Model> Model for Field<T> {
    fn ty() -> Ty {
        Ty::Struct(vec![m::<String>(), m::<T>(), m::<u64>()])
    }
    fn to_val(&self) -> Val {
        Val::List(vec![
            self.before.to_val(),
            self.it.to_val(),
            self.after.to_val(),
        ])
    }
    fn from_val(v: &Val) -> Option<Self> {
        let Val::List(l) = v else { panic!() };
        Some(Field {
            before: x(l, 0)?,
            it: x(l, 1)?,
            after: x(l, 2)?,
        })
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Arms<T> {
    None,
    One(T),
    Two(T, u8),
}
impl<T: Model> Model for Arms<T> {
    fn ty() -> Ty {
        Ty::Enum(vec![
            Arm::Unit,
            Arm::New(m::<T>()),
            Arm::Tuple(vec![m::<T>(), m::<u8>()]),
        ])
    }
    fn to_val(&self) -> Val {
        match self {
            Arms::None => Val::Var(0, vec![]),
            Arms::One(a) => Val::Var(1, vec![a.to_val()]),
            Arms::Two(a, b) => Val::Var(2, vec![a.to_val(), b.to_val()]),
        }
    }
    fn from_val(v: &Val) -> Option<Self> {
        let Val::Var(i, l) = v else { panic!() };
        Some(match i {
            0 => Arms::None,
            1 => Arms::One(x(l, 0)?),
            _ => Arms::Two(x(l, 0)?, x(l, 1)?),
        })
    }
}

// --- recursive types: lists of n nodes ---------------------------------------------------
#[derive(Clone, Debug, PartialEq, XdrIndexer)]
pub enum IList {
    Nil,
    Cons(u8, Box<IList>),
}
impl serde_xdr::XdrIndexer for IList {
    type Error = ();
    fn name_by_index(index: i32) -> Result<&'static str, ()> {
        match index {
            -4 => Ok("Nil"),
            9 => Ok("Cons"),
            _ => Err(()),
        }
    }
    fn index(&self) -> i32 {
        match self {
            IList::Nil => -4,
            IList::Cons(..) => 9,
        }
    }
}
#[derive(Clone, Debug, PartialEq, XdrUnion)]
pub enum UList {
    Nil(u32),
    Cons(u32, u8, Box<Option<UList>>),
}
impl serde_xdr::XdrUnion<u32> for UList {
    type Error = ();
    fn name_by_value(v: &u32) -> Result<&'static str, ()> {
        match v {
            3 => Ok("Cons"),
            4..=5 => Ok("Nil"),
            _ => Err(()),
        }
    }
}
/// true and no panic
fn calm(f: impl FnOnce() -> bool) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or(false)
}
fn lists(r: &Report, valued: bool) {
    let mut n = 0;
    for len in 0..200usize {
        let mut want = vec![];
        let ok;
        if valued {
            let mut v = UList::Nil(5);
            for i in 0..len {
                v = UList::Cons(3, i as u8, Box::new(Some(v)));
            }
            for i in (0..len).rev() {
                want.extend([0, 0, 0, 3, 0, 0, 0, i as u8, 0, 0, 0, 1]);
            }
            want.extend([0, 0, 0, 5]);
            ok = calm(|| {
                serde_xdr::to_bytes(&v).is_ok_and(|b| b == want)
                    && serde_xdr::from_bytes::<UList>(&want).is_ok_and(|x| x == v)
                    && (0..want.len()).all(|k| serde_xdr::from_bytes::<UList>(&want[..k]).is_err())
            });
        } else {
            let mut v = IList::Nil;
            for i in 0..len {
                v = IList::Cons(i as u8, Box::new(v));
            }
            for i in (0..len).rev() {
                want.extend([0, 0, 0, 9, 0, 0, 0, i as u8]);
            }
            want.extend([0xFF, 0xFF, 0xFF, 0xFC]);
            ok = calm(|| {
                serde_xdr::to_bytes(&v).is_ok_and(|b| b == want)
                    && serde_xdr::from_bytes::<IList>(&want).is_ok_and(|x| x == v)
                    && (0..want.len()).all(|k| serde_xdr::from_bytes::<IList>(&want[..k]).is_err())
            });
        }
        n += want.len() as u64 + 2;
        if !ok {
            let key = format!("recursive/{}/{len}", if valued { "UList" } else { "IList" });
            r.violation(Violation {
                replay: format!("property={}\nkind=special\ncase={key}\n", r.property),
                what: format!(
                    "a recursive list of {len} nodes does not encode as {} and come back",
                    model::sexp::hex(&want)
                ),
                key,
            });
        }
    }
    r.add(n, n, n);
}

/// how many items the longest arm inside has
fn longest(t: &Ty) -> usize {
    match t {
        Ty::Union(u) => u
            .arms
            .iter()
            .map(|a| a.iter().map(|t| longest(t)).sum())
            .max()
            .unwrap_or(0)
            .max(longest(&u.disc)),
        Ty::Tuple(l) | Ty::TupleStruct(l) | Ty::Struct(l) => l.iter().map(|t| longest(t)).sum(),
        Ty::Seq(t) | Ty::Opt(t) | Ty::New(t) | Ty::Map(_, t) => longest(t),
        Ty::Enum(a) => a
            .iter()
            .map(|a| arm_types(a).iter().map(|t| longest(t)).sum())
            .max()
            .unwrap_or(0),
        _ => 1,
    }
}

/// every discriminant word of a range, and around every power of two, against the mapping
fn words(r: &Report, t: &dyn Target, th: bool) {
    let Ty::Union(u) = &*t.ty() else { return };
    if min_size(&u.disc) != 4 {
        return;
    }
    let span: u32 = if th { 1 << 18 } else { 600 };
    let mut e = Explorer::new(
        r,
        t,
        ALL,
        Bounds {
            dev: 0,
            depth: 0,
            hostile: 0,
            rich: false,
            straight: false,
        },
    );
    model::guard::context(&format!(
        "kind=decode\ntarget={}\ntype={}\n",
        t.name(),
        model::sexp::ty(&t.ty())
    ));
    let mut see = |w: u32| e.trace(&w.to_be_bytes());
    for i in 0..span {
        see(i);
        see(0u32.wrapping_sub(i));
    }
    for p in 8..32 {
        for d in 0..6u32 {
            see((1u32 << p).wrapping_add(d).wrapping_sub(3));
        }
    }
    e.finish("discriminant_words");
}

pub const ALL: &[Class] = &[
    Class::Crash,
    Class::WrongValue,
    Class::Refused,
    Class::BadAccepted,
    Class::Truncation,
    Class::Trailing,
];

fn worker(id: &str) -> i32 {
    let r = Report::new(id);
    let th = r.thorough();
    let ts = match id {
        "D01" => family::indexed(),
        "D02" => family::valued(),
        _ => {
            eprintln!("unknown property {id}");
            return 2;
        }
    };
    parallel(&ts, |t| {
        let t: &dyn Target = &**t;
        let wide = matches!(&*t.ty(), Ty::Union(u) if u.arms.len() > 12 || u.arms.iter().any(|a| a.len() > 16));
        let long = min_size(&t.ty()) > 64 || longest(&t.ty()) > 9;
        let mut c = Case::new(&r, Mode::Both, t);
        let bare = t.name().chars().all(|c| c.is_alphanumeric());
        for rich in 0..=(if !bare {
            0
        } else if th && !wide {
            2
        } else {
            1
        }) {
            for v in values(&t.ty(), rich) {
                if t.hold(v.clone()) == v {
                    c.value(&v);
                }
            }
        }
        c.done();
        let dev = if th && !wide { 2 } else { 1 };
        Explorer::new(
            &r,
            t,
            ALL,
            Bounds {
                dev,
                depth: 700,
                hostile: 3,
                rich: false,
                straight: long,
            },
        )
        .run();
        words(&r, t, th);
    });
    lists(&r, id == "D02");
    r.finish(
        "every enum of the family (variant counts 1..300, item counts 0..100, all item types, discriminant schemes, shared and default mappings, nesting, containers): values encoded and brought back, every path of the decode automaton replayed, discriminant words swept",
        &["the family (tools/gen_derive.py) stands for all derivable enums", "the reference model states RFC 4506 correctly"],
    )
}

fn main() {
    static E: Engine = Engine {
        worker,
        target: |n| {
            family::indexed()
                .into_iter()
                .chain(family::valued())
                .find(|t| t.name() == n)
        },
        also: |_, _, _, _| None,
        hang: Duration::from_secs(60),
        replay: None,
    };
    model::driver::main(&E)
}
