//! The decode automaton: an explicit transition system over wire symbols.
//! A state is the stack of pending work plus the values built so far.
use crate::ty::*;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Task {
    Ty(Arc<Ty>),
    Rep(Arc<Ty>, u64),
    RepKv(Arc<Ty>, Arc<Ty>, u64),
    MkList(u64),
    MkMap(u64),
    MkSome,
    MkVar(u32, usize),
    /// the discriminant is the last value built: choose the arm
    Pick(Arc<UnionTy>),
    MkUn(usize),
    Raw(u64, bool),
    Pad(u8),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Need {
    /// a 4-byte word interpreted for this type
    Word(Arc<Ty>),
    /// an 8-byte item
    DWord(Arc<Ty>),
    /// an element count for elements of this minimal size
    Count(u128),
    /// a byte length
    Len,
    /// n raw bytes; true if they must be UTF-8
    Raw(u64, bool),
    Pad(u8),
}

/// marks the count of a list of the type the list is in
pub const REC: u128 = 1 << 100;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Reject {
    Range,
    Char,
    Utf8,
    Discriminant,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Machine {
    stack: Vec<Task>,
    vals: Vec<Val>,
    /// a symbol was consumed that RFC 4506 does not produce but tolerates
    pub lenient: bool,
    /// a symbol was consumed for which nothing is specified
    pub unspecified: bool,
    pub rejected: Option<Reject>,
    /// the union whose discriminant selected nothing
    at_union: Option<Arc<UnionTy>>,
}

pub enum Status {
    Need(Need),
    Done,
}

impl Machine {
    pub fn new(t: &Arc<Ty>) -> Self {
        let mut m = Machine {
            stack: vec![Task::Ty(t.clone())],
            vals: vec![],
            lenient: false,
            unspecified: false,
            rejected: None,
            at_union: None,
        };
        m.run();
        m
    }

    pub fn value(&self) -> &Val {
        assert!(self.stack.is_empty() && self.vals.len() == 1);
        &self.vals[0]
    }

    /// how many bytes are due at least
    pub fn due(&self) -> u128 {
        let n = |t: &Task| match t {
            Task::Ty(t) => min_size(t),
            Task::Rep(t, n) => min_size(t) * *n as u128,
            Task::RepKv(k, v, n) => (min_size(k) + min_size(v)) * *n as u128,
            _ => 0,
        };
        self.stack.iter().map(n).sum()
    }

    fn push_all(&mut self, ts: &[Arc<Ty>]) {
        for t in ts.iter().rev() {
            self.stack.push(Task::Ty(t.clone()));
        }
    }

    /// epsilon steps until input is needed or the value is complete
    fn run(&mut self) {
        loop {
            let Some(top) = self.stack.last().cloned() else {
                return;
            };
            match top {
                Task::Ty(t) => match &*t {
                    Ty::Unit | Ty::UnitStruct => {
                        self.stack.pop();
                        self.vals.push(Val::Unit);
                    }
                    Ty::New(t) => {
                        self.stack.pop();
                        self.stack.push(Task::Ty(t.clone()));
                    }
                    Ty::Ref(i) => {
                        self.stack.pop();
                        self.stack.push(Task::Ty(defined(*i)));
                    }
                    Ty::Tuple(ts) | Ty::TupleStruct(ts) | Ty::Struct(ts) => {
                        self.stack.pop();
                        self.stack.push(Task::MkList(ts.len() as u64));
                        self.push_all(ts);
                    }
                    Ty::Union(u) => {
                        self.stack.pop();
                        self.stack.push(Task::Pick(u.clone()));
                        self.stack.push(Task::Ty(Arc::new(u.disc.clone())));
                    }
                    Ty::OpFix(n) => {
                        self.stack.pop();
                        let n = *n as u64;
                        let p = (4 - n % 4) % 4;
                        if p > 0 {
                            self.stack.push(Task::Pad(p as u8));
                        }
                        self.stack.push(Task::Raw(n, false));
                    }
                    _ => return,
                },
                Task::Rep(t, n) => {
                    self.stack.pop();
                    if n > 0 {
                        if n > 1 {
                            self.stack.push(Task::Rep(t.clone(), n - 1));
                        }
                        self.stack.push(Task::Ty(t));
                    }
                }
                Task::RepKv(k, v, n) => {
                    self.stack.pop();
                    if n > 0 {
                        if n > 1 {
                            self.stack.push(Task::RepKv(k.clone(), v.clone(), n - 1));
                        }
                        self.stack.push(Task::Ty(v));
                        self.stack.push(Task::Ty(k));
                    }
                }
                Task::MkList(n) => {
                    self.stack.pop();
                    let l = self.vals.split_off(self.vals.len() - n as usize);
                    self.vals.push(Val::List(l));
                }
                Task::MkMap(n) => {
                    self.stack.pop();
                    let l = self.vals.split_off(self.vals.len() - 2 * n as usize);
                    let mut it = l.into_iter();
                    let mut m = vec![];
                    while let (Some(a), Some(b)) = (it.next(), it.next()) {
                        m.push((a, b));
                    }
                    self.vals.push(Val::Map(m));
                }
                Task::MkSome => {
                    self.stack.pop();
                    let v = self.vals.pop().unwrap();
                    self.vals.push(Val::Some(Box::new(v)));
                }
                Task::Pick(u) => {
                    self.stack.pop();
                    match u.arm(self.vals.last().unwrap()) {
                        None => {
                            self.vals.pop();
                            self.rejected = Some(Reject::Discriminant);
                            self.at_union = Some(u);
                            return;
                        }
                        Some(a) => {
                            self.stack.push(Task::MkUn(u.arms[a].len()));
                            self.push_all(&u.arms[a]);
                        }
                    }
                }
                Task::MkUn(n) => {
                    self.stack.pop();
                    let l = self.vals.split_off(self.vals.len() - n);
                    let d = self.vals.pop().unwrap();
                    self.vals.push(Val::Un(Box::new(d), l));
                }
                Task::MkVar(i, n) => {
                    self.stack.pop();
                    let l = self.vals.split_off(self.vals.len() - n);
                    self.vals.push(Val::Var(i, l));
                }
                Task::Raw(0, utf8) => {
                    self.stack.pop();
                    self.vals.push(if utf8 {
                        Val::Str(String::new())
                    } else {
                        Val::Bytes(vec![])
                    });
                }
                Task::Raw(..) | Task::Pad(_) => return,
            }
        }
    }

    pub fn status(&self) -> Status {
        let Some(top) = self.stack.last() else {
            return Status::Done;
        };
        Status::Need(match top {
            Task::Ty(t) => match &**t {
                Ty::I64 | Ty::U64 | Ty::F64 => Need::DWord(t.clone()),
                Ty::Seq(e) if matches!(**e, Ty::Ref(_)) => Need::Count(min_size(e) | REC),
                Ty::Seq(e) => Need::Count(min_size(e)),
                Ty::Map(k, v) => Need::Count(min_size(k) + min_size(v)),
                Ty::Str | Ty::StrRef | Ty::Bytes | Ty::BytesRef | Ty::OpVar | Ty::OpArr => {
                    Need::Len
                }
                _ => Need::Word(t.clone()),
            },
            Task::Raw(n, u) => Need::Raw(*n, *u),
            Task::Pad(n) => Need::Pad(*n),
            x => unreachable!("{x:?}"),
        })
    }

    /// Size of the symbol needed now.
    pub fn symbol_len(n: &Need) -> u64 {
        match n {
            Need::Word(_) | Need::Count(_) | Need::Len => 4,
            Need::DWord(_) => 8,
            Need::Raw(n, _) => *n,
            Need::Pad(n) => *n as u64,
        }
    }

    /// One transition. Afterwards either `rejected` is set or the machine waits again or is done.
    pub fn feed(&mut self, sym: &[u8]) {
        let top = self.stack.pop().expect("feed on a finished machine");
        match top {
            Task::Ty(t) => match &*t {
                Ty::I64 | Ty::U64 | Ty::F64 => {
                    let mut w = 0u64;
                    assert_eq!(sym.len(), 8);
                    for b in sym {
                        w = w * 256 + *b as u64;
                    }
                    self.vals.push(match &*t {
                        Ty::I64 => Val::I(w as i64),
                        Ty::U64 => Val::U(w),
                        _ => Val::F64(w),
                    });
                }
                _ => {
                    assert_eq!(sym.len(), 4);
                    let mut w = 0u32;
                    for b in sym {
                        w = w * 256 + *b as u32;
                    }
                    self.word(&t, w);
                }
            },
            Task::Raw(n, utf8) => {
                assert_eq!(sym.len() as u64, n);
                if utf8 {
                    match String::from_utf8(sym.to_vec()) {
                        Ok(s) => self.vals.push(Val::Str(s)),
                        Err(_) => self.rejected = Some(Reject::Utf8),
                    }
                } else {
                    self.vals.push(Val::Bytes(sym.to_vec()));
                }
            }
            Task::Pad(n) => {
                assert_eq!(sym.len(), n as usize);
                if sym.iter().any(|b| *b != 0) {
                    self.lenient = true;
                }
            }
            x => unreachable!("{x:?}"),
        }
        if self.rejected.is_none() {
            self.run();
        }
    }

    fn word(&mut self, t: &Arc<Ty>, w: u32) {
        let i = w as i32 as i64;
        match &**t {
            Ty::Bool => {
                if w > 1 {
                    self.lenient = true;
                }
                self.vals.push(Val::Bool(w != 0));
            }
            Ty::I8 => self.int(i, -128, 127),
            Ty::I16 => self.int(i, -32768, 32767),
            Ty::I32 | Ty::I32of(_) => self.vals.push(Val::I(i)),
            Ty::U8 => self.uint(w as u64, 255),
            Ty::U16 => self.uint(w as u64, 65535),
            Ty::U32 | Ty::U32of(_) => self.vals.push(Val::U(w as u64)),
            Ty::F32 => self.vals.push(Val::F32(w)),
            Ty::Char => {
                if (0xD800..0xE000).contains(&w) || w > 0x10FFFF {
                    self.rejected = Some(Reject::Char);
                } else {
                    self.vals.push(Val::Char(char::from_u32(w).unwrap()));
                }
            }
            Ty::Str | Ty::StrRef | Ty::Bytes | Ty::BytesRef | Ty::OpVar | Ty::OpArr => {
                let n = w as u64;
                let p = (4 - n % 4) % 4;
                if p > 0 {
                    self.stack.push(Task::Pad(p as u8));
                }
                self.stack
                    .push(Task::Raw(n, matches!(&**t, Ty::Str | Ty::StrRef)));
            }
            Ty::Opt(t) => {
                if w == 0 {
                    self.vals.push(Val::None);
                } else {
                    if w > 1 {
                        self.lenient = true;
                    }
                    self.stack.push(Task::MkSome);
                    self.stack.push(Task::Ty(t.clone()));
                }
            }
            Ty::Seq(t) => {
                self.stack.push(Task::MkList(w as u64));
                self.stack.push(Task::Rep(t.clone(), w as u64));
            }
            Ty::Map(k, v) => {
                self.stack.push(Task::MkMap(w as u64));
                self.stack.push(Task::RepKv(k.clone(), v.clone(), w as u64));
            }
            Ty::Enum(arms) => {
                if i < 0 || i as usize >= arms.len() {
                    self.rejected = Some(Reject::Discriminant);
                } else {
                    let ts = arm_types(&arms[i as usize]);
                    self.stack.push(Task::MkVar(w, ts.len()));
                    self.push_all(&ts);
                }
            }
            Ty::E32(set, lo, hi) => {
                let w = w as i32;
                if !set.contains(&w) {
                    if *lo <= w && w <= *hi {
                        self.unspecified = true;
                    }
                    self.rejected = Some(Reject::Discriminant);
                } else {
                    self.vals.push(Val::I(i));
                }
            }
            Ty::S32(set) => {
                if set.contains(&(w as i32)) {
                    self.vals.push(Val::I(i));
                } else {
                    self.rejected = Some(Reject::Discriminant);
                }
            }
            x => unreachable!("{x:?}"),
        }
    }

    fn int(&mut self, i: i64, lo: i64, hi: i64) {
        if i < lo || i > hi {
            self.rejected = Some(Reject::Range);
        } else {
            self.vals.push(Val::I(i));
        }
    }
    fn uint(&mut self, u: u64, hi: u64) {
        if u > hi {
            self.rejected = Some(Reject::Range);
        } else {
            self.vals.push(Val::U(u));
        }
    }

    /// After a refused symbol: the machine that would follow if the symbol had been taken for some
    /// other value (for a discriminant: for arm `arm`). Used to append plausible data to bad input.
    pub fn as_if_accepted(&self, need: &Need, arm: usize) -> Machine {
        let mut m = self.clone();
        m.rejected = None;
        if let Some(u) = m.at_union.take() {
            let ts = u.arms[arm % u.arms.len()].clone();
            m.vals.push(Val::Unit);
            m.stack.push(Task::MkUn(ts.len()));
            m.push_all(&ts);
            m.run();
            // the value taken may itself be a discriminant that selects nothing
            return if m.at_union.is_some() {
                m.as_if_accepted(need, arm)
            } else {
                m
            };
        }
        match need {
            Need::Word(t) => match &**t {
                Ty::Enum(arms) if !arms.is_empty() => {
                    let ts = arm_types(&arms[arm % arms.len()]);
                    m.stack.push(Task::MkVar(0, ts.len()));
                    m.push_all(&ts);
                }
                _ => m.vals.push(Val::Unit),
            },
            _ => m.vals.push(Val::Unit),
        }
        m.run();
        if m.at_union.is_some() {
            m.as_if_accepted(need, arm)
        } else {
            m
        }
    }

    /// how many arms a refused discriminant could have been taken for
    pub fn arms_at_reject(&self, need: &Need) -> usize {
        if let Some(u) = &self.at_union {
            return u.arms.len();
        }
        match need {
            Need::Word(t) => match &**t {
                Ty::Enum(a) => a.len(),
                _ => 1,
            },
            _ => 1,
        }
    }

    /// Fewest further bytes that complete a value from here.
    pub fn min_rest(&self) -> u128 {
        self.stack
            .iter()
            .map(|t| match t {
                Task::Ty(t) => min_size(t),
                Task::Rep(t, n) => min_size(t) * *n as u128,
                Task::RepKv(k, v, n) => (min_size(k) + min_size(v)) * *n as u128,
                Task::Raw(n, _) => *n as u128,
                Task::Pad(n) => *n as u128,
                Task::Pick(u) => u
                    .arms
                    .iter()
                    .map(|a| a.iter().map(|t| min_size(t)).sum::<u128>())
                    .min()
                    .unwrap_or(0),
                _ => 0,
            })
            .sum()
    }

    /// Fewest further bytes that complete a value if `part` (shorter than the symbol) has been
    /// read already; None if no valid encoding starts that way.
    pub fn missing_after(&self, part: &[u8], candidates: &[Vec<u8>]) -> Option<u128> {
        let Status::Need(need) = self.status() else {
            return Some(0);
        };
        let len = Machine::symbol_len(&need);
        if part.is_empty() {
            return Some(self.min_rest());
        }
        if let Need::Raw(n, utf8) = need {
            if utf8 {
                // a prefix of valid UTF-8: complete when what is there is valid up to a cut character
                match std::str::from_utf8(part) {
                    Ok(_) => {}
                    Err(e) if e.error_len().is_none() => {
                        let cut = part.len() - e.valid_up_to();
                        let need = utf8_len(part[e.valid_up_to()]);
                        if part.len() as u64 + (need - cut) as u64 > n {
                            return None;
                        }
                    }
                    Err(_) => return None,
                }
            }
            return Some(self.min_rest() - part.len() as u128);
        }
        let mut best = None;
        let mut z = part.to_vec();
        z.resize(len as usize, 0);
        let mut try_one = |s: &[u8]| {
            let mut m = self.clone();
            m.feed(s);
            if m.rejected.is_none() && (!m.lenient || self.lenient) {
                let r = (len - part.len() as u64) as u128 + m.min_rest();
                best = Some(best.map_or(r, |b: u128| b.min(r)));
            }
        };
        try_one(&z);
        *z.last_mut().unwrap() = 1;
        try_one(&z);
        for c in candidates {
            if c.len() as u64 == len && c.starts_with(part) {
                try_one(c);
            }
        }
        best
    }

    pub fn fingerprint(&self) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.hash(&mut h);
        h.finish()
    }
}

fn utf8_len(b: u8) -> usize {
    match b {
        0xF0.. => 4,
        0xE0.. => 3,
        0xC0.. => 2,
        _ => 1,
    }
}
