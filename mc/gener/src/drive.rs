//! Runs the compiled modules against the reference.
use crate::cells::{self, Cell};
use crate::emit;
use crate::names::*;
use crate::world::*;
use genrt::{Conv, Entry, Kind};
use model::bind::{Dec, Enc, panic_text};
use model::driver::Engine;
use model::encoding::{Case, Mode};
use model::enumerate::values;
use model::explore::*;
use model::report::{Report, Violation};
use model::ty::*;
use model::{guard, sexp};
use std::collections::HashMap;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Arc, OnceLock};
use std::time::Duration;

/// per module, by the name within it
static ENTRIES: OnceLock<HashMap<usize, Vec<(&'static str, Entry)>>> = OnceLock::new();
static CONVS: OnceLock<HashMap<usize, Vec<(&'static str, Kind)>>> = OnceLock::new();
static NUMBERS: OnceLock<HashMap<usize, Vec<(&'static str, i128)>>> = OnceLock::new();

pub struct Gen {
    pub label: String,
    pub module: usize,
    pub world: Arc<World>,
    /// name in the interface file
    pub of: String,
    pub ty: Arc<Ty>,
    pub entry: Entry,
    convs: Vec<Kind>,
}
impl Gen {
    fn raw(&self, b: &[u8]) -> Result<Result<Box<dyn genrt::Obj>, genrt::Error>, String> {
        catch_unwind(AssertUnwindSafe(|| (self.entry.decode)(b))).map_err(panic_text)
    }
    fn see(&self, o: &dyn genrt::Obj) -> Result<Val, String> {
        let text = catch_unwind(AssertUnwindSafe(|| o.text())).map_err(panic_text)?;
        self.world.read(&self.of, &crate::debug::read(&text)?)
    }
}
fn bytes(o: &dyn genrt::Obj) -> Enc {
    match catch_unwind(AssertUnwindSafe(|| o.bytes())) {
        Ok(Ok(b)) => Enc::Bytes(b),
        Ok(Err(e)) => Enc::Err(format!("{e:?}")),
        Err(p) => Enc::Panic(panic_text(p)),
    }
}
impl Target for Gen {
    fn name(&self) -> String {
        self.label.clone()
    }
    fn ty(&self) -> Arc<Ty> {
        self.ty.clone()
    }
    fn hold(&self, v: Val) -> Val {
        hold(v)
    }
    fn decode(&self, b: &[u8]) -> Dec {
        match self.raw(b) {
            Err(p) => Dec::Panic(p),
            Ok(Err(e)) => Dec::Err(e),
            Ok(Ok(o)) => match self.see(&*o) {
                Err(_) if matches!(reference(&self.ty, b), Ref::Any) => Dec::Ok(Val::Unit),
                Err(why) => Dec::Ok(Val::Str(format!("unreadable: {why}"))),
                Ok(v) => {
                    // what was decoded also encodes, as the bytes it came from
                    if let Ref::Value(_) = reference(&self.ty, b) {
                        match bytes(&*o) {
                            Enc::Bytes(x) if x == b => {}
                            e => {
                                return Dec::Ok(Val::Str(format!(
                                    "decoded as {v:?} but encoded again as {e:?}"
                                )));
                            }
                        }
                    }
                    Dec::Ok(v)
                }
            },
        }
    }
    fn encode(&self, v: &Val) -> Enc {
        match self.raw(&encode(&self.ty, v)) {
            Err(p) => Enc::Panic(p),
            Ok(Err(e)) => Enc::Err(format!("no such value: its encoding is refused: {e:?}")),
            Ok(Ok(o)) => bytes(&*o),
        }
    }
}

/// the types of one cell
fn targets(c: &Cell, module: usize) -> Vec<Gen> {
    let entries = ENTRIES.get().unwrap();
    let w = Arc::new(emit::world(c));
    let mut v = vec![];
    for t in w.types() {
        let want = camel(&t);
        let hit = entries.get(&module).and_then(|l| {
            l.iter()
                .find(|(n, _)| *n == want)
                .or_else(|| l.iter().find(|(n, _)| is_name(&want, n)))
        });
        let Some((name, e)) = hit else {
            panic!("{t} of {} is not compiled", c.name())
        };
        let convs = CONVS
            .get()
            .unwrap()
            .get(&module)
            .into_iter()
            .flatten()
            .filter(|c| c.0 == *name)
            .map(|c| c.1)
            .collect();
        v.push(Gen {
            label: format!("{} | {t}", c.name()),
            module,
            ty: w.ty(&t).unwrap(),
            of: t,
            world: w.clone(),
            entry: *e,
            convs,
        });
    }
    v
}

fn id() -> String {
    std::env::var("GEN_ID").unwrap()
}
fn mapped() -> Vec<(Cell, usize)> {
    let d = emit::dir(&id());
    let map = std::fs::read_to_string(d.join("map.txt")).unwrap();
    let cells = cells::of(&id());
    assert_eq!(cells.len(), map.lines().count(), "map");
    cells
        .into_iter()
        .zip(map.lines())
        .filter_map(|(c, l)| Some((c, l.parse().ok()?)))
        .collect()
}

fn worker(property: &str) -> i32 {
    let r = Report::new(property);
    let th = r.thorough();
    let d = emit::dir(&id());
    let unesc = |s: &str| {
        let mut o = String::new();
        let mut c = s.chars();
        while let Some(x) = c.next() {
            match (x, x == '\\') {
                (_, true) => match c.next() {
                    Some('n') => o.push('\n'),
                    Some(x) => o.push(x),
                    None => {}
                },
                _ => o.push(x),
            }
        }
        o
    };
    for l in std::fs::read_to_string(d.join("early.txt"))
        .unwrap()
        .lines()
    {
        let p: Vec<String> = l.split('\t').map(unesc).collect();
        r.violation(Violation {
            key: p[0].clone(),
            replay: format!(
                "property={property}\nkind=gen\ncfg={}\nspec={}\n{}",
                p[1],
                p[2].replace('\n', "\\n"),
                if p[0].starts_with("accepted/") {
                    "refuse=1\n"
                } else {
                    ""
                }
            ),
            what: p[3].clone(),
        });
    }
    for (k, n) in [
        "cells_refused_as_due",
        "cells_outside_the_property",
        "modules_compiled",
    ]
    .iter()
    .zip(
        std::fs::read_to_string(d.join("counts.txt"))
            .unwrap()
            .split(' '),
    ) {
        r.count(k, n.parse().unwrap());
    }
    if let Some(n) = std::env::var("GEN_NAMES")
        .ok()
        .and_then(|n| n.parse().ok())
        .filter(|n| *n > 0)
    {
        r.add(n, n, n);
        r.count("names_looked_at", n);
    }
    let cells = mapped();
    r.count("cells_compiled", cells.len() as u64);
    let mut todo = vec![];
    let mut done: std::collections::HashSet<String> = Default::default();
    for (c, m) in &cells {
        if done.insert(c.name()) {
            todo.push((c, *m));
        }
    }
    parallel(&todo, |(c, m)| {
        if c.text.contains(emit::DEFAULTS) {
            let probe = Report::new(property);
            for t in targets(c, *m) {
                let t: &dyn Target = &t;
                let mut case = Case::new(&probe, Mode::Both, t);
                values(&t.ty(), 0).iter().for_each(|v| case.value(v));
                case.done();
                Explorer::new(
                    &probe,
                    t,
                    ALL,
                    Bounds {
                        dev: 1,
                        depth: 300,
                        hostile: 1,
                        rich: false,
                        straight: false,
                    },
                )
                .run();
            }
            r.add(1, 1, probe.traces());
            r.count("probes", 1);
            if probe.violations() > 0 {
                r.violation(Violation {
                    key: format!("default-arm/{}", c.cfg.name()),
                    replay: format!("property={property}\n{}", emit::context(c)),
                    what: format!(
                        "{}: the default arm is not encoded and decoded as RFC 4506 says",
                        c.name()
                    ),
                });
            }
            return;
        }
        let ts = targets(c, *m);
        if let Some(t) = ts.first() {
            numbers(&r, c, *m, &t.world);
        } else {
            numbers(&r, c, *m, &emit::world(c));
        }
        for t in ts {
            // a type of the surroundings that other cells look at
            if c.only.as_ref().is_some_and(|o| !o.contains(&t.of)) {
                continue;
            }
            let t0 = std::time::Instant::now();
            if std::env::var("MC_TIME").is_ok() {
                eprintln!("> {}", t.label);
            }
            if property == "G09" {
                conversions(&r, &t, c, th);
                continue;
            }
            default(&r, &t);
            let t: &dyn Target = &t;
            let mut case = Case::new(&r, Mode::Both, t);
            for rich in 0..=(if th { 1 } else { 0 }) {
                for v in values(&t.ty(), rich) {
                    if t.hold(v.clone()) == v {
                        case.value(&v);
                    }
                }
            }
            case.done();
            let dev = if th { 2 } else { 1 };
            Explorer::new(
                &r,
                t,
                ALL,
                Bounds {
                    dev,
                    depth: 300,
                    hostile: 1,
                    rich: false,
                    straight: min_size(&t.ty()) > 96,
                },
            )
            .run();
            if std::env::var("MC_TIME").is_ok() {
                eprintln!("< {} {:.1}", t.name(), t0.elapsed().as_secs_f64());
            }
        }
    });
    r.finish(
        if r.property == "G09" {
            RULE_CONVERSIONS
        } else {
            RULE
        },
        ASSUME,
    )
}
pub const RULE_CONVERSIONS: &str = "every enumeration and union of the family under every option is generated by the real parser and generator and compiled; every number of an alphabet (thorough: all 2^32 for representative types) and every value put through every conversion, compared with the reference and with what decoding selects";
pub const RULE: &str = "every cell of the family is generated by the real parser and generator, compiled, and every type of it is run: values encoded and brought back, every path of the decode automaton of its RFC 4506 definition replayed";
pub const ASSUME: &[&str] = &[
    "the family stands for all interface files",
    "the reference meaning of definitions (gener/src/world.rs) states RFC 4506 correctly",
];
pub const ALL: &[Class] = &[
    Class::Crash,
    Class::WrongValue,
    Class::Refused,
    Class::BadAccepted,
    Class::Truncation,
    Class::Trailing,
];

fn numbers(r: &Report, c: &Cell, m: usize, w: &World) {
    let all = NUMBERS.get().unwrap();
    let mut n = 0;
    let mut check = |name: String, want: i128| {
        n += 1;
        let all = || all.get(&m).into_iter().flatten();
        let hit = all().find(|(k, _)| *k == name);
        let hit = hit.or_else(|| {
            all().find(|(k, _)| {
                let (mut a, mut b) = (k.split("::"), name.split("::"));
                loop {
                    match (a.next(), b.next()) {
                        (None, None) => return true,
                        (Some(x), Some(y)) if is_name(y, x) => {}
                        _ => return false,
                    }
                }
            })
        });
        let Some((k, got)) = hit else {
            panic!("{name} of {} is not compiled", c.name())
        };
        if *got != want {
            r.violation(Violation {
                key: format!("number/{}/{name}", c.name()),
                replay: format!("property={}\n{}", r.property, emit::context(c)),
                what: format!(
                    "{}: {k} is {got}, in the interface file it is {want}",
                    c.name()
                ),
            });
        }
    };
    for (k, v) in w.constants() {
        check(k, w.number(&v).unwrap());
    }
    for (e, v) in emit::enumerators(w) {
        let l = w.find(&e);
        let Some(rpcgen::parser::TypeDef::Enum(_, l)) = l else {
            continue;
        };
        let a = l.iter().find(|a| a.identifier == v).unwrap();
        check(
            format!("{}::{}", camel(&e), camel(&v)),
            w.number(&a.value).unwrap(),
        );
    }
    r.add(n, n, n);
    r.count("numbers", n);
}

fn default(r: &Report, t: &Gen) {
    let bad = |what: String| {
        r.violation(Violation {
            key: format!("default/{}", t.label),
            replay: format!(
                "property={}\nkind=default\ntarget={}\ninput=\n",
                r.property, t.label
            ),
            what: format!("{}: {what}", t.label),
        })
    };
    r.add(1, 1, 1);
    r.count("defaults", 1);
    guard::context(&format!("kind=default\ntarget={}\n", t.label));
    guard::input(&[]);
    if let Err(w) = judge_default(t) {
        bad(w);
    }
    guard::idle();
}
fn judge_default(t: &Gen) -> Result<(), String> {
    let o = catch_unwind(|| (t.entry.default)())
        .map_err(|p| format!("making the default value panics: {}", panic_text(p)))?;
    let text = catch_unwind(AssertUnwindSafe(|| o.text())).map_err(panic_text)?;
    let b = match bytes(&*o) {
        Enc::Bytes(b) => b,
        e => return Err(format!("the default value {text} does not encode: {e:?}")),
    };
    let back = match t.raw(&b) {
        Ok(Ok(o)) => o.text(),
        Ok(Err(e)) => {
            return Err(format!(
                "the default value {text} encodes as {}, which is refused: {e:?}",
                sexp::hex(&b)
            ));
        }
        Err(p) => {
            return Err(format!(
                "decoding the encoded default value {text} panics: {p}"
            ));
        }
    };
    if back != text {
        return Err(format!(
            "the default value {text} encodes as {} and comes back as {back}",
            sexp::hex(&b)
        ));
    }
    if let Some(want) = t.world.default(&t.of)? {
        if hold(want.clone()) != t.see(&*o)? || encode(&t.ty, &want) != b {
            return Err(format!(
                "the default value is {text} ({}), due is {want:?}",
                sexp::hex(&b)
            ));
        }
    } else if !matches!(reference(&t.ty, &b), Ref::Value(_)) {
        return Err(format!(
            "the default value {text} encodes as {}, which is no value",
            sexp::hex(&b)
        ));
    }
    Ok(())
}

// --- conversions -------------------------------------------------------------------------------
fn conversions(r: &Report, t: &Gen, c: &Cell, th: bool) {
    let n = std::cell::Cell::new(0);
    let bad = |kind: &str, what: String| {
        r.violation(Violation {
            key: format!("conversion/{kind}/{}", t.label),
            replay: format!("property={}\n{}", r.property, emit::context(c)),
            what: format!("{}: {what}", t.label),
        })
    };
    guard::context(&emit::context(c));
    // the values of the type: bytes, discriminant, text
    let ty = t.ty.clone();
    let first = |b: &[u8]| {
        b.get(..4)
            .map(|b| i32::from_be_bytes(b.try_into().unwrap()))
    };
    let named = |text: &str| {
        text.split(|c: char| c != '_' && c != '#' && !c.is_alphanumeric())
            .next()
            .unwrap_or("")
            .to_string()
    };
    let plain = |n: &str| n.strip_prefix("r#").unwrap_or(n).to_string();
    let text = |b: &[u8]| -> Option<String> {
        guard::input(b);
        match t.raw(b) {
            Ok(Ok(o)) => catch_unwind(AssertUnwindSafe(|| o.text())).ok(),
            _ => None,
        }
    };
    let mut vals = vec![];
    for v in values(&ty, th as usize) {
        let b = encode(&ty, &v);
        if let Some(x) = text(&b) {
            vals.push((b, x));
        }
    }
    let (cases, default): (Vec<i32>, bool) = match &*ty {
        Ty::E32(l, ..) => (l.clone(), false),
        Ty::Union(u) => (
            u.cases
                .iter()
                .map(|c| match &c.0 {
                    Val::I(i) => *i as i32,
                    Val::U(i) => *i as u32 as i32,
                    Val::Bool(b) => *b as i32,
                    x => panic!("label {x:?}"),
                })
                .collect(),
            matches!(t.world.find(&t.of), Some(rpcgen::parser::TypeDef::Union(_, b)) if b.default.is_some()),
        ),
        _ => (vec![], false),
    };
    // the variant a discriminant stands for, as decoding tells it
    let mut variant: HashMap<i32, String> = HashMap::new();
    for (b, x) in &vals {
        if let Some(d) = first(b) {
            variant.insert(d, named(x));
        }
    }
    for d in &cases {
        if !variant.contains_key(d) {
            bad("value", format!("no value with discriminant {d} decodes"));
        }
    }
    let other = default.then(|| {
        let c: Vec<String> = cases
            .iter()
            .filter_map(|d| variant.get(d).cloned())
            .collect();
        move |n: &str| !c.iter().any(|x| x == n)
    });
    let mut sweep: Vec<i32> = (-300..=300).collect();
    sweep.extend([i32::MIN, i32::MAX]);
    for k in 1..31 {
        for o in -1..=1 {
            sweep.extend([(1 << k) + o, -(1 << k) + o]);
        }
    }
    for c in &cases {
        for k in -3..=3 {
            sweep.push(c.wrapping_add(k));
        }
        sweep.extend([
            c.wrapping_neg(),
            !c,
            c.swap_bytes(),
            c.wrapping_add(1 << 8),
            c.wrapping_add(1 << 16),
            c ^ i32::MIN,
        ]);
    }
    if th {
        sweep.extend(-65600..=65600);
    }
    sweep.sort();
    sweep.dedup();
    fn calm<T>(f: impl FnOnce() -> T) -> Result<T, String> {
        catch_unwind(AssertUnwindSafe(f)).map_err(|p| format!("panics: {}", panic_text(p)))
    }
    let enumeration = matches!(&*ty, Ty::E32(..));
    // one value per discriminant is enough for numbers; clones are made of all
    for k in &t.convs {
        guard::input(&[]);
        match k {
            Kind::TryFrom(f) => {
                let want: HashMap<i32, &String> = vals
                    .iter()
                    .filter_map(|(b, x)| Some((first(b)?, x)))
                    .collect();
                let one = |i: i32| {
                    n.set(n.get() + 1);
                    let due = if cases.contains(&i) {
                        want.get(&i).map(|x| x.to_string())
                    } else {
                        None
                    };
                    match calm(|| f(i)) {
                        Ok(g) if g == due => {}
                        g => bad(
                            "try_from",
                            format!("TryFrom<i32> makes {g:?} of {i}, due is {due:?}"),
                        ),
                    }
                };
                sweep.iter().for_each(|i| one(*i));
                if th && c.text.contains(WHOLE) {
                    for i in i32::MIN..=i32::MAX {
                        if !cases.contains(&i) {
                            n.set(n.get() + 1);
                            if f(i).is_some() {
                                one(i);
                            }
                        }
                    }
                    r.count("functions_swept_over_every_number", 1);
                }
            }
            Kind::Into(f) | Kind::AsRef(f) | Kind::Index(f) => {
                let what = match k {
                    Kind::Into(_) => "i32::from",
                    Kind::AsRef(_) => "as_ref",
                    _ => "index",
                };
                for (b, x) in &vals {
                    let Some(d) = first(b) else { continue };
                    // without a number of its own
                    if !enumeration && !cases.contains(&d) {
                        continue;
                    }
                    n.set(n.get() + 1);
                    match calm(|| f(b)) {
                        Ok(Some(i)) if i == d => {}
                        g => bad(what, format!("{what} of {x} gives {g:?}, due is {d}")),
                    }
                }
            }
            Kind::ByIndex(f) => {
                for i in &sweep {
                    n.set(n.get() + 1);
                    let g = calm(|| f(*i).map(plain));
                    let ok = match (&g, cases.contains(i)) {
                        (Err(_), _) => false,
                        (Ok(g), true) => g.as_ref() == variant.get(i),
                        // an enumeration falls back on one of its names
                        (Ok(g), false) if enumeration => {
                            g.as_ref().is_none_or(|g| variant.values().any(|v| v == g))
                        }
                        (Ok(Some(g)), false) => other.as_ref().is_some_and(|o| o(g)),
                        (Ok(None), false) => !default,
                    };
                    if !ok {
                        bad(
                            "name_by_index",
                            format!("name_by_index of {i} is {g:?}, due is {:?}", variant.get(i)),
                        );
                    }
                }
            }
            Kind::ByValue(f) => {
                for i in &sweep {
                    n.set(n.get() + 1);
                    let g = calm(|| f(&i.to_be_bytes()).map(|g| g.map(plain)));
                    let ok = match (&g, cases.contains(i)) {
                        (Err(_), _) => false,
                        // no value of the discriminant's type
                        (Ok(None), listed) => !listed,
                        (Ok(Some(g)), true) => g.as_ref() == variant.get(i),
                        (Ok(Some(Some(g))), false) => other.as_ref().is_some_and(|o| o(g)),
                        (Ok(Some(None)), false) => !default,
                    };
                    if !ok {
                        bad(
                            "name_by_value",
                            format!("name_by_value of {i} is {g:?}, due is {:?}", variant.get(i)),
                        );
                    }
                }
            }
            Kind::Eq(f) => {
                for (a, x) in &vals {
                    for (b, y) in &vals {
                        n.set(n.get() + 1);
                        match calm(|| f(a, b)) {
                            Ok(Some(e)) if e == (a == b) => {}
                            g => bad("eq", format!("{x} == {y} is {g:?}")),
                        }
                    }
                }
            }
            Kind::Clone(f) => {
                for (b, x) in &vals {
                    n.set(n.get() + 1);
                    let g = calm(|| f(b).map(|o| (o.text(), o.bytes().ok())));
                    match &g {
                        Ok(Some((y, e))) if y == x => {
                            // what encodes, encodes alike
                            let own = match t.raw(b) {
                                Ok(Ok(o)) => bytes(&*o),
                                _ => Enc::Err(String::new()),
                            };
                            if let Enc::Bytes(own) = own
                                && e.as_ref() != Some(&own)
                            {
                                bad(
                                    "clone",
                                    format!(
                                        "the clone of {x} encodes as {e:?}, {x} itself as {}",
                                        sexp::hex(&own)
                                    ),
                                );
                            }
                        }
                        // the default arm of the known finding has no number to encode
                        Err(_) if default && first(b).is_some_and(|d| !cases.contains(&d)) => {}
                        g => bad("clone", format!("the clone of {x} is {g:?}")),
                    }
                }
            }
        }
    }
    guard::idle();
    let n = n.get();
    r.sample(|| {
        format!(
            "{} in module {}: {} values, {} numbers through {} conversions",
            t.of,
            t.module,
            vals.len(),
            sweep.len(),
            t.convs.len()
        )
    });
    r.add(vals.len() as u64, n, n);
    r.count("conversions", t.convs.len() as u64);
}
/// marks a file whose enumerations are asked about every number there is
pub const WHOLE: &str = "\n%every number\n";

fn target(name: &str) -> Option<Box<dyn Target>> {
    for (c, m) in mapped() {
        if name.starts_with(&c.name()) {
            for t in targets(&c, m) {
                if t.label == name {
                    return Some(Box::new(t));
                }
            }
        }
    }
    None
}
fn again(text: &str) -> i32 {
    let name = text
        .lines()
        .find_map(|l| l.strip_prefix("target="))
        .unwrap_or("");
    match replay_default(name) {
        Some(w) => {
            println!("{w}");
            1
        }
        None => 0,
    }
}
fn replay_default(name: &str) -> Option<String> {
    mapped()
        .into_iter()
        .filter(|(c, _)| name.starts_with(&c.name()))
        .flat_map(|(c, m)| targets(&c, m))
        .find(|t| t.label == name)
        .and_then(|t| judge_default(&t).err())
}

pub fn main(entries: Vec<Entry>, numbers: Vec<(&'static str, i128)>, convs: Vec<Conv>) -> ! {
    fn by_module<T>(l: Vec<(&'static str, T)>) -> HashMap<usize, Vec<(&'static str, T)>> {
        let mut h: HashMap<usize, Vec<_>> = HashMap::new();
        for (n, x) in l {
            let (m, n) = n.split_once("::").unwrap();
            h.entry(m[1..].parse().unwrap()).or_default().push((n, x));
        }
        h
    }
    ENTRIES
        .set(by_module(
            entries.into_iter().map(|e| (e.name, e)).collect(),
        ))
        .ok()
        .unwrap();
    CONVS.set(by_module(convs)).ok().unwrap();
    NUMBERS.set(by_module(numbers)).ok().unwrap();
    static E: Engine = Engine {
        worker,
        target,
        also: |_, _, _, _| None,
        hang: Duration::from_secs(60),
        replay: Some(again),
    };
    model::driver::main(&E)
}
