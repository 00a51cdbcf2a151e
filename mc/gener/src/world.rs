//! What a set of definitions means: the wire type of every definition under every option, and how
//! a value of it reads in Debug output. Written from RFC 4506, the README and the properties.
use crate::debug::Tree;
use crate::names::*;
use model::ty::*;
use rpcgen::gen_code::Config;
use rpcgen::parser::*;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Enums {
    Complement,
    Std,
    Indexer,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Unions {
    Complement,
    Indexer,
    Union,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Cfg {
    pub enums: Enums,
    pub unions: Unions,
    /// typedefs become type aliases
    pub aliases: bool,
}
pub const DEFAULT: Cfg = Cfg {
    enums: Enums::Complement,
    unions: Unions::Complement,
    aliases: false,
};
/// every combination the command line can ask for
pub fn configs() -> Vec<Cfg> {
    let mut v = vec![];
    for enums in [Enums::Complement, Enums::Std, Enums::Indexer] {
        for unions in [Unions::Complement, Unions::Indexer, Unions::Union] {
            v.push(Cfg {
                enums,
                unions,
                aliases: false,
            });
        }
    }
    v
}
impl Cfg {
    pub fn real(&self) -> Config {
        Config {
            remove_typedef: !self.aliases,
            enum_impl_indexer: self.enums == Enums::Indexer,
            enum_impl_std_trait: self.enums == Enums::Std,
            union_impl_indexer: self.unions == Unions::Indexer,
            union_impl_union: self.unions == Unions::Union,
        }
    }
    pub fn name(&self) -> String {
        format!(
            "{:?}-{:?}{}",
            self.enums,
            self.unions,
            if self.aliases { "-aliases" } else { "" }
        )
        .to_lowercase()
    }
}

pub struct World {
    pub defs: Vec<Definition>,
    pub cfg: Cfg,
    /// look at default arms also where they are known not to work
    pub every_default: bool,
    state: Mutex<State>,
}
#[derive(Default)]
struct State {
    done: HashMap<String, Arc<Ty>>,
    building: Vec<(String, Option<u32>)>,
}
type Why = String;

impl World {
    pub fn new(defs: Vec<Definition>, cfg: Cfg) -> World {
        World {
            defs,
            cfg,
            every_default: false,
            state: Mutex::default(),
        }
    }
    pub fn find(&self, name: &str) -> Option<&TypeDef> {
        self.defs.iter().find_map(|d| match d {
            Definition::Type(t) => {
                let n = match t {
                    TypeDef::Declaration(d) => d.name()?,
                    TypeDef::Enum(n, _) | TypeDef::Struct(n, _) | TypeDef::Union(n, _) => n,
                };
                (n == name).then_some(t)
            }
            _ => None,
        })
    }
    /// the types generated code defines
    pub fn types(&self) -> Vec<String> {
        self.defs
            .iter()
            .filter_map(|d| match d {
                Definition::Type(
                    TypeDef::Enum(n, _) | TypeDef::Struct(n, _) | TypeDef::Union(n, _),
                ) => Some(n.clone()),
                _ => None,
            })
            .collect()
    }
    pub fn constants(&self) -> Vec<(String, Value)> {
        self.defs
            .iter()
            .filter_map(|d| match d {
                Definition::Constant(a) => Some((a.identifier.clone(), a.value.clone())),
                _ => None,
            })
            .collect()
    }
    pub fn number(&self, v: &Value) -> Result<i128, Why> {
        self.num(v, 0)
    }
    fn num(&self, v: &Value, depth: usize) -> Result<i128, Why> {
        if depth > self.defs.len() + 100 {
            return Err("a name defined by itself".into());
        }
        match v {
            Value::Constant(Constant::Decimal(s)) => s.parse().map_err(|_| "number".into()),
            Value::Constant(Constant::Hex(s)) => {
                i128::from_str_radix(s, 16).map_err(|_| "number".into())
            }
            Value::Constant(Constant::Octal(s)) => {
                i128::from_str_radix(s, 8).map_err(|_| "number".into())
            }
            Value::Identifier(i) => {
                for d in &self.defs {
                    match d {
                        Definition::Constant(a) if a.identifier == *i => {
                            return self.num(&a.value, depth + 1);
                        }
                        _ => {}
                    }
                }
                for d in &self.defs {
                    if let Definition::Type(TypeDef::Enum(_, l)) = d
                        && let Some(a) = l.iter().find(|a| a.identifier == *i)
                    {
                        return self.num(&a.value, depth + 1);
                    }
                }
                Err(format!("{i} is not defined"))
            }
        }
    }

    // --- the wire ---------------------------------------------------------------------------
    pub fn ty(&self, name: &str) -> Result<Arc<Ty>, Why> {
        let mut s = self.state.lock().unwrap();
        if let Some(t) = s.done.get(name) {
            return Ok(t.clone());
        }
        if let Some(b) = s.building.iter_mut().find(|b| b.0 == name) {
            return Ok(Arc::new(Ty::Ref(*b.1.get_or_insert_with(reserve))));
        }
        let def = self
            .find(name)
            .ok_or_else(|| format!("{name} is not defined"))?;
        s.building.push((name.into(), None));
        drop(s);
        let t = self.build(def);
        let mut s = self.state.lock().unwrap();
        let (_, id) = s.building.pop().unwrap();
        let t = Arc::new(t?);
        if let Some(id) = id {
            define(id, t.clone());
        }
        s.done.insert(name.into(), t.clone());
        Ok(t)
    }
    fn build(&self, def: &TypeDef) -> Result<Ty, Why> {
        Ok(match def {
            TypeDef::Declaration(d) => (*self.decl(d)?).clone(),
            TypeDef::Enum(n, l) => self.enumeration(n, l)?,
            TypeDef::Struct(_, l) => {
                Ty::Struct(l.iter().map(|d| self.decl(d)).collect::<Result<_, _>>()?)
            }
            TypeDef::Union(_, b) => self.union(b)?,
        })
    }
    pub fn decl(&self, d: &Declaration) -> Result<Arc<Ty>, Why> {
        use Declaration as D;
        Ok(Arc::new(match d {
            D::Void => return Err("void is no member".into()),
            D::Variable(t, _) => return self.spec(t),
            D::OptionVariable(t, _) => Ty::Opt(self.spec(t)?),
            D::FixedArray(t, _, n) => {
                let n = self.number(n)?;
                if !(0..=32).contains(&n) {
                    return Err("arrays of more than 32 items have no serde implementation".into());
                }
                Ty::Tuple(vec![self.spec(t)?; n as usize])
            }
            D::VariableArray(t, _, _) => Ty::Seq(self.spec(t)?),
            D::OpaqueFixedArray(_, n) => {
                let n = self.number(n)?;
                if !(0..=1 << 16).contains(&n) {
                    return Err("length".into());
                }
                Ty::OpFix(n as usize)
            }
            D::OpaqueVariableArray(..) => Ty::OpVar,
            D::String(..) => Ty::Str,
        }))
    }
    pub fn spec(&self, t: &TypeSpecifier) -> Result<Arc<Ty>, Why> {
        use TypeSpecifier as T;
        Ok(Arc::new(match t {
            T::Int(s) => [Ty::U32, Ty::I32][*s as usize].clone(),
            T::Hyper(s) => [Ty::U64, Ty::I64][*s as usize].clone(),
            T::Char(s) => [Ty::U8, Ty::I8][*s as usize].clone(),
            T::Short(s) => [Ty::U16, Ty::I16][*s as usize].clone(),
            T::Float => Ty::F32,
            T::Double => Ty::F64,
            T::Bool => Ty::Bool,
            T::Identifier(n) => return self.ty(n),
            _ => return Err("type that is not supported".into()),
        }))
    }
    pub fn assigned(&self, l: &[Assign]) -> Result<Vec<(i32, String)>, Why> {
        l.iter()
            .map(|a| {
                let n = self.number(&a.value)?;
                Ok((
                    i32::try_from(n).map_err(|_| "value does not fit".to_string())?,
                    a.identifier.clone(),
                ))
            })
            .collect()
    }
    fn enumeration(&self, _: &str, l: &[Assign]) -> Result<Ty, Why> {
        let v: Vec<i32> = self.assigned(l)?.into_iter().map(|x| x.0).collect();
        let (lo, hi) = (*v.iter().min().unwrap(), *v.iter().max().unwrap());
        let mut u = v.clone();
        u.sort();
        u.dedup();
        if u.len() != v.len() {
            return Err("two names for one value".into());
        }
        Ok(match self.cfg.enums {
            // completed with reserved values
            Enums::Complement => Ty::E32(v, lo.min(0), hi),
            Enums::Std => Ty::E32(v, 0, -1),
            // documented to fall back on a value
            Enums::Indexer => Ty::E32(v, i32::MIN, i32::MAX),
        })
    }
    /// the specifier a discriminant really has
    pub fn alias(&self, t: &TypeSpecifier) -> TypeSpecifier {
        let mut t = t.clone();
        for _ in 0..self.defs.len() + 1 {
            let TypeSpecifier::Identifier(n) = &t else {
                break;
            };
            match self.find(n) {
                Some(TypeDef::Declaration(Declaration::Variable(u, _))) => t = u.clone(),
                _ => break,
            }
        }
        t
    }
    fn is_enum(&self, t: &TypeSpecifier) -> Option<&[Assign]> {
        let TypeSpecifier::Identifier(n) = t else {
            return None;
        };
        match self.find(n) {
            Some(TypeDef::Enum(_, l)) => Some(l),
            _ => None,
        }
    }
    pub fn cond(&self, b: &UnionBody) -> Result<TypeSpecifier, Why> {
        match &b.cond {
            Declaration::Variable(t, _) => {
                let t = self.alias(t);
                match &t {
                    TypeSpecifier::Bool | TypeSpecifier::Int(_) => Ok(t),
                    t if self.is_enum(t).is_some() => Ok(t.clone()),
                    _ => Err("discriminant type".into()),
                }
            }
            _ => Err("discriminant type".into()),
        }
    }
    /// value, label and arm of every case
    pub fn cases(&self, b: &UnionBody) -> Result<Vec<(i64, Value, usize)>, Why> {
        let c = self.cond(b)?;
        let mut v: Vec<(i64, Value, usize)> = vec![];
        for (k, s) in b.specs.iter().enumerate() {
            for x in &s.values {
                let n = match (&c, x) {
                    (TypeSpecifier::Bool, x) if x.is_true() => 1,
                    (TypeSpecifier::Bool, x) if x.is_false() => 0,
                    (TypeSpecifier::Bool, _) => return Err("label of a bool".into()),
                    (_, x) => self.number(x)?,
                };
                if !(0..=u32::MAX as i128).contains(&n) {
                    return Err("label out of range".into());
                }
                if c != TypeSpecifier::Int(false) && n > i32::MAX as i128 {
                    return Err("label out of range".into());
                }
                if let Some(l) = self.is_enum(&c)
                    && !self.assigned(l)?.iter().any(|a| a.0 as i128 == n)
                {
                    return Err("label outside the enumeration".into());
                }
                if v.iter().any(|(m, ..)| *m == n as i64) {
                    return Err("two arms for one label".into());
                }
                v.push((n as i64, x.clone(), k));
            }
        }
        if v.is_empty() {
            return Err("no case".into());
        }
        Ok(v)
    }
    fn union(&self, b: &UnionBody) -> Result<Ty, Why> {
        let c = self.cond(b)?;
        let cases = self.cases(b)?;
        let arm = |d: &Declaration| -> Result<Vec<Arc<Ty>>, Why> {
            match d {
                Declaration::Void => Ok(vec![]),
                d => Ok(vec![self.decl(d)?]),
            }
        };
        let mut arms = b
            .specs
            .iter()
            .map(|s| arm(&s.declaration))
            .collect::<Result<Vec<_>, _>>()?;
        let mut default = None;
        // without the union option a default arm is a known finding: what the cases say holds all
        // the same, nothing is asked of other discriminants
        let silent = b.default.is_some() && self.cfg.unions != Unions::Union && !self.every_default;
        if let Some(d) = &b.default {
            let d = arm(d)?;
            if !silent {
                default = Some(arms.len());
                arms.push(d);
            }
        }
        let set: Vec<i32> = cases.iter().map(|c| c.0 as u32 as i32).collect();
        let signed = |w: i64| Val::I(w as u32 as i32 as i64);
        let mut val: Box<dyn Fn(i64) -> Val> = Box::new(signed);
        let disc = match (self.cfg.unions, &c) {
            (Unions::Indexer | Unions::Complement, _) if silent => Ty::E32(set, i32::MIN, i32::MAX),
            (Unions::Union, TypeSpecifier::Bool) => {
                val = Box::new(|w| Val::Bool(w != 0));
                Ty::Bool
            }
            (Unions::Union, TypeSpecifier::Int(false)) => {
                val = Box::new(|w| Val::U(w as u64));
                Ty::U32of(cases.iter().map(|c| c.0 as u32).collect())
            }
            (Unions::Union, TypeSpecifier::Int(true)) => Ty::I32of(set),
            (Unions::Union, t) => (*self.spec(t)?).clone(),
            (Unions::Indexer, TypeSpecifier::Bool) => Ty::E32(set, i32::MIN, i32::MAX),
            (Unions::Indexer, _) => Ty::E32(set, 0, -1),
            (Unions::Complement, TypeSpecifier::Bool) => Ty::E32(set, i32::MIN, i32::MAX),
            (Unions::Complement, _) => {
                let hi = *set.iter().max().unwrap();
                if hi > 8192 {
                    return Err("too many values to complete".into());
                }
                Ty::E32(set, 0, hi)
            }
        };
        let cases = cases.iter().map(|c| (val(c.0), c.2)).collect();
        Ok(Ty::Union(Arc::new(UnionTy {
            disc,
            arms,
            cases,
            default,
        })))
    }

    /// the value `Default` is to give, if that is specified
    pub fn default(&self, name: &str) -> Result<Option<Val>, Why> {
        Ok(match self.find(name) {
            None => return Err(format!("{name} is not defined")),
            Some(TypeDef::Declaration(d)) => self.default_decl(d)?,
            Some(TypeDef::Enum(_, l)) => self
                .assigned(l)?
                .into_iter()
                .map(|a| a.0)
                .min()
                .map(|n| Val::I(n as i64)),
            Some(TypeDef::Struct(_, l)) => l
                .iter()
                .map(|d| self.default_decl(d))
                .collect::<Result<Option<Vec<_>>, _>>()?
                .map(Val::List),
            Some(TypeDef::Union(_, b)) => {
                if b.default.is_some() {
                    return Ok(None);
                }
                let (n, _, k) = self.cases(b)?.into_iter().min_by_key(|c| c.0).unwrap();
                let Ty::Union(u) = &*self.ty(name)? else {
                    unreachable!()
                };
                let d = u
                    .cases
                    .iter()
                    .map(|c| &c.0)
                    .find(|v| match v {
                        Val::I(i) => *i as i32 == n as i32,
                        Val::U(i) => *i as i64 == n,
                        Val::Bool(b) => *b as i64 == n,
                        _ => false,
                    })
                    .unwrap()
                    .clone();
                let items = match &b.specs[k].declaration {
                    Declaration::Void => Some(vec![]),
                    d => self.default_decl(d)?.map(|v| vec![v]),
                };
                items.map(|l| Val::Un(Box::new(d), l))
            }
        })
    }
    fn default_decl(&self, d: &Declaration) -> Result<Option<Val>, Why> {
        use Declaration as D;
        Ok(Some(match d {
            D::Void => return Err("void".into()),
            D::Variable(t, _) => return self.default_spec(t),
            D::OptionVariable(..) => Val::None,
            D::FixedArray(t, _, n) => match self.default_spec(t)? {
                Some(v) => Val::List(vec![v; self.number(n)? as usize]),
                None => return Ok(None),
            },
            D::VariableArray(..) => Val::List(vec![]),
            D::OpaqueFixedArray(_, n) => Val::Bytes(vec![0; self.number(n)? as usize]),
            D::OpaqueVariableArray(..) => Val::Bytes(vec![]),
            D::String(..) => Val::Str(String::new()),
        }))
    }
    fn default_spec(&self, t: &TypeSpecifier) -> Result<Option<Val>, Why> {
        use TypeSpecifier as T;
        Ok(Some(match t {
            T::Int(true) | T::Hyper(true) | T::Char(true) | T::Short(true) => Val::I(0),
            T::Int(false) | T::Hyper(false) | T::Char(false) | T::Short(false) => Val::U(0),
            T::Float => Val::F32(0),
            T::Double => Val::F64(0),
            T::Bool => Val::Bool(false),
            T::Identifier(n) => return self.default(n),
            _ => return Err("type that is not supported".into()),
        }))
    }

    // --- reading Debug output ----------------------------------------------------------------
    pub fn read(&self, name: &str, t: &Tree) -> Result<Val, Why> {
        let bad = |what: &str| Err(format!("{name}: {what} in {t:?}"));
        match self.find(name) {
            None => bad("unknown type"),
            Some(TypeDef::Declaration(d)) => self.read_decl(d, t),
            Some(TypeDef::Enum(_, l)) => {
                let Tree::Node(v, args) = t else {
                    return bad("no variant");
                };
                if !args.is_empty() {
                    return bad("variant with parts");
                }
                match self.assigned(l)?.iter().find(|a| is_name(&camel(&a.1), v)) {
                    Some(a) => Ok(Val::I(a.0 as i64)),
                    None => Ok(Val::Str(v.clone())),
                }
            }
            Some(TypeDef::Struct(n, l)) => {
                let Tree::Rec(m, fields) = t else {
                    return bad("no fields");
                };
                if !is_name(&camel(n), m) || l.len() != fields.len() {
                    return bad("another structure");
                }
                let mut v = vec![];
                for (d, (f, t)) in l.iter().zip(fields) {
                    if !is_name(&snake(d.name().unwrap_or("")), f) {
                        return bad(&format!("field {f} instead of {:?}", d.name()));
                    }
                    v.push(self.read_decl(d, t)?);
                }
                Ok(Val::List(v))
            }
            Some(TypeDef::Union(_, b)) => {
                let Tree::Node(v, args) = t else {
                    return bad("no variant");
                };
                let valued = self.cfg.unions == Unions::Union;
                let cases = self.cases(b)?;
                let hit = cases.iter().find(|(n, x, _)| match x {
                    Value::Identifier(i) => is_name(&camel(i), v),
                    Value::Constant(_) => {
                        v.trim_start_matches(|c: char| !c.is_ascii_digit()) == n.to_string()
                    }
                });
                let disc = match (valued, args.first()) {
                    (true, None) => return bad("no discriminant"),
                    (true, Some(d)) => {
                        let c = self.cond(b)?;
                        Some(self.read_spec(&c, d)?)
                    }
                    _ => None,
                };
                let (d, decl) = match (hit, &b.default) {
                    (Some((n, _, k)), _) => {
                        let d = Val::I(*n as u32 as i32 as i64);
                        (disc.unwrap_or(d), &b.specs[*k].declaration)
                    }
                    (None, Some(decl)) if v == "Default" => {
                        let Some(d) = disc else { return bad("default") };
                        (d, decl)
                    }
                    _ => return bad("another variant"),
                };
                let args = &args[valued as usize..];
                let items = match (decl, args) {
                    (Declaration::Void, []) => vec![],
                    (Declaration::Void, _) | (_, []) => return bad("number of parts"),
                    (d, [x]) => vec![self.read_decl(d, x)?],
                    _ => return bad("number of parts"),
                };
                Ok(Val::Un(Box::new(d), items))
            }
        }
    }
    fn read_decl(&self, d: &Declaration, t: &Tree) -> Result<Val, Why> {
        use Declaration as D;
        let bad = || Err(format!("{:?} reads {t:?}", d.name()));
        match d {
            D::Void => bad(),
            D::Variable(s, _) => self.read_spec(s, t),
            D::OptionVariable(s, _) => match t {
                Tree::Node(n, a) if n == "None" && a.is_empty() => Ok(Val::None),
                Tree::Node(n, a) if n == "Some" && a.len() == 1 => {
                    Ok(Val::Some(Box::new(self.read_spec(s, &a[0])?)))
                }
                _ => bad(),
            },
            D::FixedArray(s, ..) | D::VariableArray(s, ..) => match t {
                Tree::List(l) => Ok(Val::List(
                    l.iter()
                        .map(|t| self.read_spec(s, t))
                        .collect::<Result<_, _>>()?,
                )),
                _ => bad(),
            },
            D::OpaqueFixedArray(..) | D::OpaqueVariableArray(..) => {
                let mut t = t;
                // a wrapper with the bytes in it
                if let Tree::Rec(_, f) = t
                    && f.len() == 1
                {
                    t = &f[0].1;
                } else if let Tree::Node(_, f) = t
                    && f.len() == 1
                {
                    t = &f[0];
                }
                let Tree::List(l) = t else { return bad() };
                let b: Option<Vec<u8>> = l
                    .iter()
                    .map(|x| {
                        if let Tree::Num(n) = x {
                            n.parse().ok()
                        } else {
                            None
                        }
                    })
                    .collect();
                b.map(Val::Bytes).ok_or("bytes".into())
            }
            D::String(..) => match t {
                Tree::Str(s) => Ok(Val::Str(s.clone())),
                _ => bad(),
            },
        }
    }
    fn read_spec(&self, s: &TypeSpecifier, t: &Tree) -> Result<Val, Why> {
        use TypeSpecifier as T;
        let bad = || format!("{s:?} reads {t:?}");
        if let T::Identifier(n) = s {
            return self.read(n, t);
        }
        if let (T::Bool, Tree::Node(n, a)) = (s, t) {
            return match (n.as_str(), a.is_empty()) {
                ("true", true) => Ok(Val::Bool(true)),
                ("false", true) => Ok(Val::Bool(false)),
                _ => Err(bad()),
            };
        }
        let Tree::Num(n) = t else { return Err(bad()) };
        Ok(match s {
            T::Float => Val::F32(n.parse::<f32>().map_err(|_| bad())?.to_bits()),
            T::Double => Val::F64(n.parse::<f64>().map_err(|_| bad())?.to_bits()),
            T::Int(true) | T::Hyper(true) | T::Char(true) | T::Short(true) => {
                Val::I(n.parse().map_err(|_| bad())?)
            }
            T::Int(false) | T::Hyper(false) | T::Char(false) | T::Short(false) => {
                Val::U(n.parse().map_err(|_| bad())?)
            }
            _ => return Err(bad()),
        })
    }
}

/// Debug output does not tell the NaNs apart
pub fn hold(v: Val) -> Val {
    match v {
        Val::F32(b) if f32::from_bits(b).is_nan() => {
            Val::F32("NaN".parse::<f32>().unwrap().to_bits())
        }
        Val::F64(b) if f64::from_bits(b).is_nan() => {
            Val::F64("NaN".parse::<f64>().unwrap().to_bits())
        }
        Val::Some(v) => Val::Some(Box::new(hold(*v))),
        Val::List(l) => Val::List(l.into_iter().map(hold).collect()),
        Val::Un(d, l) => Val::Un(d, l.into_iter().map(hold).collect()),
        v => v,
    }
}
