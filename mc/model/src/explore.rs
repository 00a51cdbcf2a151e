//! Exhaustive exploration of the decode automaton with every trace replayed on the implementation.
use crate::bind::{Dec, Enc, Error, Pair, panic_text};
use crate::machine::{Machine, Need, Status};
use crate::menu::menu;
use crate::report::{Report, Violation};
use crate::ty::*;
use crate::{guard, sexp};
use std::collections::HashSet;
use std::sync::Arc;

/// Something real that claims to implement a wire type.
pub trait Target: Sync {
    /// `dyn` for model terms, or the name of a compiled type
    fn name(&self) -> String;
    fn ty(&self) -> Arc<Ty>;
    fn decode(&self, b: &[u8]) -> Dec;
    fn encode(&self, v: &Val) -> Enc;
    /// how the type holds a decoded value (a compiled map keeps one entry per key)
    fn hold(&self, v: Val) -> Val {
        v
    }
}

pub struct Term(pub Arc<Ty>);
impl Target for Term {
    fn name(&self) -> String {
        "dyn".into()
    }
    fn ty(&self) -> Arc<Ty> {
        self.0.clone()
    }
    fn decode(&self, b: &[u8]) -> Dec {
        crate::bind::real_decode(&self.0, b)
    }
    fn encode(&self, v: &Val) -> Enc {
        crate::bind::real_encode(&Pair(&self.0, v))
    }
}

/// What RFC 4506 says about an input.
#[derive(Clone, Debug, PartialEq)]
pub enum Ref {
    Value(Val),
    /// decodable, but not what an encoder produces: refusing it is allowed too
    Lenient(Val),
    Reject,
    /// too short; Some(fewest missing bytes) if it is a strict prefix of some encoding
    Truncated(Option<u128>),
    Trailing(Val, usize, bool),
    /// nothing is specified but that decoding ends
    Any,
}

pub fn reference(t: &Arc<Ty>, b: &[u8]) -> Ref {
    let mut m = Machine::new(t);
    let mut rest = b;
    loop {
        let need = match m.status() {
            Status::Done => {
                let v = m.value().clone();
                return if !rest.is_empty() {
                    Ref::Trailing(v, rest.len(), m.lenient)
                } else if m.lenient {
                    Ref::Lenient(v)
                } else {
                    Ref::Value(v)
                };
            }
            Status::Need(n) => n,
        };
        let len = Machine::symbol_len(&need);
        if (rest.len() as u64) < len {
            if m.lenient {
                return Ref::Truncated(None);
            }
            return Ref::Truncated(m.missing_after(rest, &menu(&need, false)));
        }
        let (s, r) = rest.split_at(len as usize);
        m.feed(s);
        rest = r;
        if m.unspecified {
            return Ref::Any;
        }
        if m.rejected.is_some() {
            return Ref::Reject;
        }
    }
}

/// The classes of disagreement; a property owns some of them.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Class {
    Crash,
    WrongValue,
    Refused,
    BadAccepted,
    Truncation,
    Trailing,
    Encoding,
}

pub fn judge(expect: &Ref, got: &Dec) -> Option<(Class, String)> {
    let show = |d: &Dec| {
        let s = format!("{d:?}");
        s.chars().take(300).collect::<String>()
    };
    if let Dec::Panic(p) = got {
        return Some((Class::Crash, format!("decoding panics: {p}")));
    }
    match (expect, got) {
        (Ref::Value(v) | Ref::Lenient(v), Dec::Ok(x)) => {
            (v != x).then(|| (Class::WrongValue, format!("decodes to {x:?}, the bytes denote {v:?}")))
        }
        (Ref::Lenient(_) | Ref::Any, _) => None,
        (Ref::Value(v), e) => Some((Class::Refused, format!("valid encoding of {v:?} refused: {}", show(e)))),
        (Ref::Reject, Dec::Err(_)) => None,
        (Ref::Reject, g) => Some((Class::BadAccepted, format!("bytes denote no value of the type, got {}", show(g)))),
        (Ref::Truncated(Some(m)), Dec::Err(Error::NotEnoughData(k))) => (*k == 0 || *k as u128 > *m).then(|| {
            (Class::Truncation, format!("at least {m} bytes really missing for the shortest completion, reported {k}"))
        }),
        (Ref::Truncated(Some(m)), g) => {
            Some((Class::Truncation, format!("strict prefix of an encoding ({m} bytes missing): {}", show(g))))
        }
        (Ref::Truncated(None), Dec::Err(_)) => None,
        (Ref::Truncated(None), g) => {
            Some((Class::BadAccepted, format!("too short and not decodable, got {}", show(g))))
        }
        (Ref::Trailing(_, n, false), Dec::Err(Error::TrailingData(k))) => {
            (n != k).then(|| (Class::Trailing, format!("{n} bytes left over, reported {k}")))
        }
        (Ref::Trailing(_, _, true), Dec::Err(_)) => None,
        (Ref::Trailing(_, n, _), g) => {
            Some((Class::Trailing, format!("{n} bytes follow a complete encoding: {}", show(g))))
        }
    }
}

pub fn describe(property: &str, target: &dyn Target, input: &[u8]) -> String {
    format!(
        "property={property}\nkind=decode\ntarget={}\ntype={}\ninput={}\n",
        target.name(),
        sexp::ty(&target.ty()),
        sexp::hex(input)
    )
}

#[derive(Clone, Copy)]
pub struct Bounds {
    /// non-default choices along a path
    pub dev: usize,
    /// longest path in symbols
    pub depth: usize,
    /// symbols fed after a hostile count or length
    pub hostile: usize,
    pub rich: bool,
    /// after the last non-default choice go straight to the end instead of cutting at every symbol
    pub straight: bool,
}

pub struct Explorer<'a> {
    pub report: &'a Report,
    pub target: &'a dyn Target,
    pub classes: &'a [Class],
    pub bounds: Bounds,
    ty: Arc<Ty>,
    tyname: String,
    seen: HashSet<u64>,
    transitions: u64,
    traces: u64,
    /// the type is recursive
    looping: bool,
    bad: usize,
    outcomes: [u64; 6],
    start: std::time::Instant,
}

pub const SUFFIXES: &[&[u8]] = &[
    &[0],
    &[1],
    &[0xFF, 0xFF],
    &[0, 0, 0],
    &[0, 0, 0, 0],
    &[0, 0, 0, 1],
    &[0xFF, 0xFF, 0xFF, 0xFF],
    &[0, 0, 0, 0, 0],
    &[0, 0, 0, 2, 0, 0, 0, 0],
    &[7; 64],
];

impl<'a> Explorer<'a> {
    pub fn new(
        report: &'a Report,
        target: &'a dyn Target,
        classes: &'a [Class],
        bounds: Bounds,
    ) -> Self {
        let ty = target.ty();
        let tyname = sexp::ty(&ty);
        let looping = loops(&ty);
        Explorer {
            report,
            target,
            classes,
            bounds,
            ty,
            tyname,
            seen: HashSet::new(),
            transitions: 0,
            traces: 0,
            looping,
            bad: 0,
            outcomes: [0; 6],
            start: std::time::Instant::now(),
        }
    }

    pub fn run(mut self) {
        guard::context(&format!(
            "kind=decode\ntarget={}\ntype={}\n",
            self.target.name(),
            self.tyname
        ));
        let m = Machine::new(&self.ty);
        let mut path = vec![];
        let b = self.bounds;
        self.step(&m, &mut path, b.dev, b.depth);
        guard::idle();
        if std::env::var("MC_PROFILE").is_ok() && self.start.elapsed().as_millis() > 1500 {
            eprintln!(
                "{:?} {} traces {} {}",
                self.start.elapsed(),
                self.traces,
                self.target.name(),
                self.tyname.chars().take(200).collect::<String>()
            );
        }
        self.report
            .add(self.seen.len() as u64, self.transitions, self.traces);
        for (n, k) in [
            "valid",
            "lenient",
            "invalid",
            "truncated",
            "trailing",
            "unspecified",
        ]
        .iter()
        .zip(self.outcomes)
        {
            self.report.count(&format!("inputs_{n}"), k);
        }
        self.report.count("types", 1);
    }

    /// Ends a run that only used `trace`.
    pub fn finish(self, what: &str) {
        guard::idle();
        self.report
            .add(self.seen.len() as u64, self.transitions, self.traces);
        self.report.count(&format!("traces_{what}"), self.traces);
    }

    /// Replays one input on the implementation and compares.
    pub fn trace(&mut self, input: &[u8]) {
        self.traces += 1;
        let mut expect = reference(&self.ty, input);
        if let Ref::Value(v) | Ref::Lenient(v) = &mut expect {
            *v = self.target.hold(std::mem::replace(v, Val::Unit));
        }
        self.outcomes[match expect {
            Ref::Value(_) => 0,
            Ref::Lenient(_) => 1,
            Ref::Reject => 2,
            Ref::Truncated(_) => 3,
            Ref::Trailing(..) => 4,
            Ref::Any => 5,
        }] += 1;
        guard::input(input);
        let got = self.target.decode(input);
        if self.traces % 4001 == 17 {
            let s = format!(
                "{} {} {} -> {:?}",
                self.target.name(),
                self.tyname,
                sexp::hex(input),
                expect
            );
            self.report.sample(|| s);
        }
        if let Some((class, what)) = judge(&expect, &got)
            && self.classes.contains(&class)
            && self.bad < 50
        {
            self.bad += 1;
            let prop = &self.report.property;
            self.report.violation(Violation {
                key: format!(
                    "{}/{}/{}",
                    self.target.name(),
                    self.tyname,
                    sexp::hex(input)
                ),
                replay: format!(
                    "{}expected={:?}\n",
                    describe(prop, self.target, input),
                    expect
                ),
                what: format!(
                    "{} {} input {}: {what}",
                    self.target.name(),
                    self.tyname,
                    sexp::hex(input)
                ),
            });
        }
    }

    fn partials(&mut self, path: &mut Vec<u8>, s: &[u8], from: &[Vec<u8>]) {
        let n = s.len();
        if n < 2 {
            return;
        }
        let l = path.len();
        let mut cuts = vec![1, 2, 3, n - 1];
        if n > 4 {
            cuts.extend([4, 5]);
        }
        cuts.sort();
        cuts.dedup();
        for k in cuts {
            if k >= n || from.iter().any(|o| o.len() > k && o[..k] == s[..k]) {
                continue;
            }
            path.extend_from_slice(&s[..k]);
            self.trace(path);
            path.truncate(l);
        }
    }

    fn step(&mut self, m: &Machine, path: &mut Vec<u8>, dev: usize, depth: usize) {
        if self.bad >= 50 {
            return;
        }
        self.seen.insert(m.fingerprint());
        let need = match m.status() {
            Status::Done => {
                self.trace(path);
                let l = path.len();
                for s in SUFFIXES {
                    path.extend_from_slice(s);
                    self.trace(path);
                    path.truncate(l);
                }
                // the same encoding once more
                if l > 0 && l < 4096 {
                    path.extend_from_within(..);
                    self.trace(path);
                    path.truncate(l);
                }
                return;
            }
            Status::Need(n) => n,
        };
        self.trace(path);
        let l = path.len();
        if depth == 0 {
            // complete with defaults so that nothing is left unjudged
            self.complete(m.clone(), path, 64);
            path.truncate(l);
            return;
        }
        if let Need::Raw(n, _) = need
            && n > 1 << 16
        {
            for k in [1, 3, 4, 5, 8, 17] {
                path.extend((0..k).map(|i| b'a' + i));
                self.trace(path);
                path.truncate(l);
            }
            return;
        }
        let syms = menu(&need, self.bounds.rich);
        let first = default(m, &syms, self.looping).map(|(i, ..)| i);
        for (i, s) in syms.iter().enumerate() {
            self.partials(path, s, &syms[..i]);
            let cost = (Some(i) != first) as usize;
            if cost > dev {
                continue;
            }
            let mut n = m.clone();
            n.feed(s);
            self.transitions += 1;
            path.extend_from_slice(s);
            if n.rejected.is_some() {
                self.trace(path);
                let arms = n.arms_at_reject(&need).min(16);
                let l2 = path.len();
                for a in 0..arms {
                    let f = n.as_if_accepted(&need, a);
                    self.complete(f, path, 64);
                    path.truncate(l2);
                }
                path.extend([0; 64]);
                self.trace(path);
            } else if is_hostile(&need, s) {
                self.hostile(&n, path);
            } else if cost > 0 && dev == cost && self.bounds.straight {
                self.complete(n, path, 4096);
                let l2 = path.len();
                path.extend([0, 0, 0, 1]);
                self.trace(path);
                path.truncate(l2 - 1.min(l2));
                self.trace(path);
            } else {
                self.step(&n, path, dev - cost, depth - 1);
            }
            path.truncate(l);
        }
    }

    /// Feeds defaults to the end and replays the result.
    fn complete(&mut self, mut m: Machine, path: &mut Vec<u8>, limit: usize) {
        for _ in 0..limit {
            match m.status() {
                Status::Done => break,
                Status::Need(n) => match default(&m, &menu(&n, false), self.looping) {
                    Some((_, s, next)) => {
                        m = next;
                        path.extend_from_slice(&s);
                    }
                    None => break,
                },
            }
        }
        self.trace(path);
    }

    fn hostile(&mut self, m: &Machine, path: &mut Vec<u8>) {
        let mut m = m.clone();
        for _ in 0..self.bounds.hostile {
            self.trace(path);
            let Status::Need(need) = m.status() else {
                return;
            };
            let l = path.len();
            match &need {
                Need::Raw(n, _) if *n > 1 << 12 => {
                    for k in [1u8, 3, 4, 5, 8, 17] {
                        path.extend((0..k).map(|i| b'a' + i));
                        self.trace(path);
                        path.truncate(l);
                    }
                    return;
                }
                _ => {}
            }
            let syms = menu(&need, false);
            self.partials(path, &syms[0], &[]);
            let Some((_, s, next)) = default(&m, &menu(&need, false), self.looping) else {
                return;
            };
            m = next;
            self.transitions += 1;
            path.extend_from_slice(&s);
        }
        self.trace(path);
    }
}

/// the first symbol of the menu that is not refused
/// the first symbol that goes on; in a recursive type one with the shortest way to the end
fn default(m: &Machine, syms: &[Vec<u8>], looping: bool) -> Option<(usize, Vec<u8>, Machine)> {
    let mut ok = syms.iter().enumerate().filter_map(|(i, s)| {
        let mut n = m.clone();
        n.feed(s);
        n.rejected.is_none().then(|| (i, s.clone(), n))
    });
    if looping {
        ok.min_by_key(|(_, _, n)| n.due())
    } else {
        ok.next()
    }
}

pub fn is_hostile(need: &Need, s: &[u8]) -> bool {
    match need {
        Need::Count(_) | Need::Len => {
            let v =
                ((s[0] as u64) << 24) | ((s[1] as u64) << 16) | ((s[2] as u64) << 8) | s[3] as u64;
            v > 1 << 12
        }
        _ => false,
    }
}

/// Shared by encode checks.
pub fn judge_encode(t: &Ty, v: &Val, got: &Enc) -> Option<String> {
    let want = encode(t, v);
    match got {
        Enc::Bytes(b) if *b == want => None,
        Enc::Bytes(b) => Some(format!(
            "encoded as {}, RFC 4506 says {}",
            sexp::hex(b),
            sexp::hex(&want)
        )),
        Enc::Err(e) => Some(format!(
            "encoding refused: {e}; RFC 4506 says {}",
            sexp::hex(&want)
        )),
        Enc::Panic(p) => Some(format!("encoding panics: {p}")),
    }
}

/// Runs `f` over the items on all cores.
pub fn parallel<T: Sync>(items: &[T], f: impl Fn(&T) + Sync) {
    // the caller only waits
    crate::guard::idle();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let threads = std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(4)
        .min(crate::guard::SLOTS / 4);
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(s, || {
                        loop {
                            let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                            if i >= items.len() {
                                break;
                            }
                            let run = std::panic::AssertUnwindSafe(|| f(&items[i]));
                            if let Err(p) = std::panic::catch_unwind(run) {
                                std::process::exit(crate::report::failed(panic_text(p)));
                            }
                        }
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            if let Err(p) = h.join() {
                eprintln!("checker thread failed: {}", panic_text(p));
                std::process::exit(2);
            }
        }
    });
}
