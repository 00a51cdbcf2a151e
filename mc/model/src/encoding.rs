//! Judging one value on one target: against the reference encoder, by coming back, by its parts.
use crate::bind::{Dec, Enc};
use crate::explore::{Ref, Target, judge_encode, reference};
use crate::report::{Report, Violation};
use crate::ty::*;
use crate::{bind, guard, sexp};
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Reference,
    RoundTrip,
    Compose,
    Both,
}

/// one value on one target
pub struct Case<'a> {
    pub r: &'a Report,
    pub mode: Mode,
    pub target: &'a dyn Target,
    pub ty: Arc<Ty>,
    name: String,
    n: u64,
    bad: u32,
}

impl<'a> Case<'a> {
    pub fn new(r: &'a Report, mode: Mode, target: &'a dyn Target) -> Self {
        let ty = target.ty();
        let name = sexp::ty(&ty);
        guard::context(&format!(
            "kind=encode\ntarget={}\ntype={name}\n",
            target.name()
        ));
        Case {
            r,
            mode,
            target,
            ty,
            name,
            n: 0,
            bad: 0,
        }
    }
    pub fn value(&mut self, v: &Val) {
        self.n += 1;
        let want = encode(&self.ty, v);
        guard::input(&want);
        let got = self.target.encode(v);
        if self.n % 9973 == 3 {
            let s = format!(
                "{} {} = {}",
                self.name,
                format!("{v:?}").chars().take(120).collect::<String>(),
                sexp::hex(&want)
            );
            self.r.sample(|| s);
        }
        let mut bad = None;
        if matches!(self.mode, Mode::Reference | Mode::Both) {
            bad = judge_encode(&self.ty, v, &got);
        }
        if matches!(self.mode, Mode::RoundTrip | Mode::Both) && bad.is_none() {
            bad = match &got {
                Enc::Bytes(b) => {
                    let dec = self.target.decode(b);
                    match dec {
                        Dec::Ok(ref x) if x == v => {
                            let again = self.target.encode(x);
                            (again != got).then(|| {
                                format!(
                                    "re-encoding the decoded value gives {again:?}, first {got:?}"
                                )
                            })
                        }
                        d => Some(format!(
                            "{v:?} encoded as {} comes back as {}",
                            sexp::hex(b),
                            format!("{d:?}").chars().take(300).collect::<String>()
                        )),
                    }
                }
                Enc::Err(_) | Enc::Panic(_) => Some(format!("value cannot be encoded: {got:?}")),
            };
        }
        if self.mode == Mode::Compose {
            bad = match &got {
                Enc::Bytes(b) if b.len() % 4 != 0 => Some(format!(
                    "encoding has {} bytes, not a multiple of four: {}",
                    b.len(),
                    sexp::hex(b)
                )),
                Enc::Bytes(b) => match compose(&self.ty, v) {
                    Ok(p) if p == *b => None,
                    Ok(p) => Some(format!(
                        "whole encodes as {}, parts alone give {}",
                        sexp::hex(b),
                        sexp::hex(&p)
                    )),
                    Err(_) => None,
                },
                // refused as a whole though every part alone encodes
                e => compose(&self.ty, v)
                    .ok()
                    .map(|p| format!("whole gives {e:?}, parts alone give {}", sexp::hex(&p))),
            };
        }
        if let Some(w) = bad {
            self.fail(&want, w);
        }
    }
    fn fail(&mut self, want: &[u8], w: String) {
        self.bad += 1;
        if self.bad > 50 {
            return;
        }
        self.r.violation(Violation {
            key: format!("{}/{}/{}", self.target.name(), self.name, sexp::hex(want)),
            replay: format!(
                "property={}\nkind=encode\ntarget={}\ntype={}\ninput={}\n",
                self.r.property,
                self.target.name(),
                self.name,
                sexp::hex(want)
            ),
            what: format!("{} {}: {w}", self.target.name(), self.name),
        });
    }
    pub fn done(self) {
        guard::idle();
        self.r.add(self.n, self.n, self.n);
        self.r.count("types", 1);
    }
}

/// counts and discriminants XDR prescribes, and the REAL encodings of the parts taken alone
fn compose(t: &Ty, v: &Val) -> Result<Vec<u8>, ()> {
    let part = |t: &Ty, v: &Val| match bind::real_encode(&bind::Pair(t, v)) {
        Enc::Bytes(b) => Ok(b),
        _ => Err(()),
    };
    let mut o = vec![];
    match (t, v) {
        (Ty::New(t), v) => o = part(t, v)?,
        (Ty::Opt(_), Val::None) => be32(&mut o, 0),
        (Ty::Opt(t), Val::Some(v)) => {
            be32(&mut o, 1);
            o.extend(part(t, v)?);
        }
        (Ty::Seq(t), Val::List(l)) => {
            be32(&mut o, l.len() as u32);
            for v in l {
                o.extend(part(t, v)?);
            }
        }
        (Ty::Map(k, t), Val::Map(l)) => {
            be32(&mut o, l.len() as u32);
            for (a, b) in l {
                o.extend(part(k, a)?);
                o.extend(part(t, b)?);
            }
        }
        (Ty::Tuple(ts) | Ty::TupleStruct(ts) | Ty::Struct(ts), Val::List(l)) => {
            for (t, v) in ts.iter().zip(l) {
                o.extend(part(t, v)?);
            }
        }
        (Ty::Enum(arms), Val::Var(i, l)) => {
            be32(&mut o, *i);
            for (t, v) in arm_types(&arms[*i as usize]).iter().zip(l) {
                o.extend(part(t, v)?);
            }
        }
        (t, v) => o = part(t, v)?,
    }
    Ok(o)
}
pub fn compose_case(t: &Arc<Ty>, input: &[u8]) -> Option<String> {
    let Ref::Value(v) = reference(t, input) else {
        return None;
    };
    let whole = bind::real_encode(&bind::Pair(t, &v));
    match (whole, compose(t, &v)) {
        (Enc::Bytes(b), Ok(p)) if b != p || b.len() % 4 != 0 => {
            Some("whole differs from its parts".into())
        }
        _ => None,
    }
}
