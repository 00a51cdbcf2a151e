//! From cells to a workspace of compiled modules.
use crate::cells::Cell;
use crate::names::*;
use crate::world::*;
use model::guard;
use model::report::root;
use rpcgen::parser::Value;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write;
use std::path::{Path, PathBuf};
use std::process::Command;

/// a violation found before anything ran
#[derive(Clone, Debug)]
pub struct Early {
    pub key: String,
    pub what: String,
    pub cell: Cell,
}

pub fn context(c: &Cell) -> String {
    format!(
        "kind=gen\ncfg={}\nspec={}\n",
        c.cfg.name(),
        c.text.replace('\n', "\\n")
    )
}

/// what the generator really makes of a cell
pub fn generate(c: &Cell) -> Result<Result<String, String>, String> {
    let r = std::panic::catch_unwind(|| {
        let d = rpcgen::parser::parse(&c.text).map_err(|e| format!("parse: {e:?}"))?;
        rpcgen::gen_code::gen_code(d, &c.cfg.real()).map_err(|e| format!("{e:?}"))
    });
    r.map_err(model::bind::panic_text)
}

/// what the code around the generated code defines: `%const NAME = NUMBER;` lines, which the
/// generator passes over
pub fn given(text: &str) -> Vec<&str> {
    text.lines()
        .filter(|l| l.starts_with("%const "))
        .map(|l| &l[1..])
        .collect()
}
/// marks a probe of default arms where they are known not to work
pub const DEFAULTS: &str = "\n%default arms\n";
pub fn world(c: &Cell) -> World {
    let d = match idl::lang::parse_text(&c.text) {
        Ok(mut d) => {
            for l in given(&c.text) {
                d.extend(idl::lang::parse_text(l).expect("what is given"));
            }
            d
        }
        Err(e) => panic!("the reference grammar refuses a cell: {} ({e:?})", c.text),
    };
    let mut w = World::new(d, c.cfg);
    w.every_default = c.text.contains(DEFAULTS);
    w
}
/// does the property ask for working code?
pub fn supported(w: &World) -> Result<(), String> {
    for t in w.types() {
        if model::ty::min_size(&*w.ty(&t)?) >= model::ty::ENDLESS {
            return Err("no finite value".into());
        }
    }
    for (_, v) in w.constants() {
        let n = w.number(&v)?;
        if !(0..=u64::MAX as i128).contains(&n) {
            return Err("constant out of range".into());
        }
    }
    Ok(())
}

/// an alias cannot say that bytes are opaque data: generating such a file may be refused
fn opaque_typedef(w: &World) -> bool {
    use rpcgen::parser::*;
    w.defs.iter().any(|d| match d {
        Definition::Type(TypeDef::Declaration(d)) => {
            matches!(
                d,
                Declaration::OpaqueFixedArray(..) | Declaration::OpaqueVariableArray(..)
            )
        }
        _ => false,
    })
}

pub fn item_name(i: &syn::Item) -> Option<String> {
    Some(
        match i {
            syn::Item::Enum(x) => &x.ident,
            syn::Item::Struct(x) => &x.ident,
            syn::Item::Const(x) => &x.ident,
            syn::Item::Type(x) => &x.ident,
            _ => return None,
        }
        .to_string(),
    )
}

/// a generated text and what is looked at in it
#[derive(Default)]
pub struct Module {
    pub code: String,
    pub types: BTreeSet<String>,
    /// expression, as written in Rust
    pub numbers: BTreeSet<String>,
    /// (conversion, type)
    pub convs: BTreeSet<(&'static str, String)>,
    pub first: usize,
}
pub struct Emitted {
    pub modules: Vec<Module>,
    pub cells: Vec<Option<usize>>,
    pub early: Vec<Early>,
    pub refused: u64,
    pub unsupported: u64,
}

/// the Rust name of a type of the module, if it is there
fn find(names: &[String], want: &str) -> Option<String> {
    names
        .iter()
        .find(|n| *n == want)
        .or_else(|| names.iter().find(|n| is_name(want, n)))
        .cloned()
}

pub fn emit(cells: &[Cell], conversions: bool) -> Emitted {
    let mut e = Emitted {
        modules: vec![],
        cells: vec![],
        early: vec![],
        refused: 0,
        unsupported: 0,
    };
    let mut seen: HashMap<String, usize> = HashMap::new();
    for (i, c) in cells.iter().enumerate() {
        guard::context(&context(c));
        guard::input(&[]);
        e.cells.push(None);
        let mut bad = |kind: &str, what: String| {
            e.early.push(Early {
                key: format!("{kind}/{}", c.name()),
                what: format!("{}: {what}", c.name()),
                cell: c.clone(),
            })
        };
        let w = world(c);
        let ok = supported(&w);
        let code = match (generate(c), c.refuse) {
            (Err(p), _) => {
                bad("panic", format!("generating panics: {p}"));
                continue;
            }
            (Ok(Ok(_)), true) => {
                bad("accepted", "code is generated, an error is due".into());
                continue;
            }
            (Ok(Err(_)), true) => {
                e.refused += 1;
                continue;
            }
            (Ok(Err(x)), false) => {
                if ok.is_ok() && c.cfg.aliases && opaque_typedef(&w) {
                    e.refused += 1;
                } else if ok.is_ok() {
                    bad("refused", format!("no code but {x}"));
                } else {
                    e.unsupported += 1;
                }
                continue;
            }
            (Ok(Ok(mut s)), false) => {
                for l in given(&c.text) {
                    let (n, v) = l[6..].trim_end_matches(';').split_once(" = ").unwrap();
                    s.push_str(&format!(" pub const {n} : u32 = {v}u32 ;"));
                }
                s
            }
        };
        if let Err(why) = ok {
            if std::env::var("GEN_SHOW").is_ok() {
                eprintln!("unsupported: {} ({why})", c.name());
            }
            e.unsupported += 1;
            continue;
        }
        let file = match syn::parse_file(&code) {
            Ok(f) => f,
            Err(x) => {
                bad("syntax", format!("not Rust: {x}\n{code}"));
                continue;
            }
        };
        let names: Vec<String> = file.items.iter().filter_map(item_name).collect();
        let mut types = BTreeSet::new();
        let mut numbers = BTreeSet::new();
        let mut complete = true;
        for t in w.types() {
            match find(&names, &camel(&t)) {
                Some(n) => {
                    types.insert(n);
                }
                None => {
                    bad("missing", format!("type {t} is missing in {code}"));
                    complete = false;
                }
            }
        }
        for (n, _) in w.constants() {
            match find(&names, &n) {
                Some(n) => {
                    numbers.insert(n);
                }
                None => {
                    bad("missing", format!("constant {n} is missing in {code}"));
                    complete = false;
                }
            }
        }
        for (t, v) in enumerators(&w) {
            let Some(t) = find(&names, &camel(&t)) else {
                continue;
            };
            let it = file.items.iter().find_map(|i| match i {
                syn::Item::Enum(x) if x.ident == t => Some(x),
                _ => None,
            });
            let Some(it) = it else { continue };
            let vars: Vec<String> = it.variants.iter().map(|v| v.ident.to_string()).collect();
            match find(&vars, &camel(&v)) {
                Some(v) => {
                    numbers.insert(format!("{t}::{v}"));
                }
                None => {
                    bad("missing", format!("enumerator {v} is missing in {code}"));
                    complete = false;
                }
            }
        }
        if !complete {
            continue;
        }
        let mut convs = BTreeSet::new();
        if conversions {
            convs = find_conversions(&file, &w, &names);
        }
        let m = *seen.entry(code.clone()).or_insert_with(|| {
            e.modules.push(Module {
                code,
                first: i,
                ..Default::default()
            });
            e.modules.len() - 1
        });
        e.modules[m].types.extend(types);
        e.modules[m].numbers.extend(numbers);
        e.modules[m].convs.extend(convs);
        e.cells[i] = Some(m);
    }
    guard::idle();
    e
}
/// the conversions there have to be, and those there are
fn find_conversions(
    file: &syn::File,
    w: &World,
    names: &[String],
) -> BTreeSet<(&'static str, String)> {
    use rpcgen::parser::*;
    let implemented = |of: &str, by: &str| {
        file.items.iter().any(|i| {
            let syn::Item::Impl(i) = i else { return false };
            let (Some((_, t, _)), syn::Type::Path(s)) = (&i.trait_, &*i.self_ty) else {
                return false;
            };
            t.segments.last().is_some_and(|x| x.ident == of)
                && s.path.segments.last().is_some_and(|x| x.ident == by)
        })
    };
    let derived = |of: &str, by: &str| {
        file.items.iter().any(|i| {
            let (name, attrs) = match i {
                syn::Item::Enum(x) => (&x.ident, &x.attrs),
                syn::Item::Struct(x) => (&x.ident, &x.attrs),
                _ => return false,
            };
            name == by
                && attrs.iter().any(|a| {
                    let syn::Meta::List(l) = &a.meta else {
                        return false;
                    };
                    let mut hit = false;
                    let _ = l.parse_nested_meta(|m| {
                        hit |= m.path.segments.last().is_some_and(|x| x.ident == of);
                        Ok(())
                    });
                    l.path.is_ident("derive") && hit
                })
        })
    };
    let mut v = BTreeSet::new();
    for d in &w.defs {
        let Definition::Type(d) = d else { continue };
        let (n, kind) = match d {
            TypeDef::Enum(n, _) => (n, 0),
            TypeDef::Union(n, _) => (n, 1),
            TypeDef::Struct(n, _) => (n, 2),
            _ => continue,
        };
        let Some(t) = find(names, &camel(n)) else {
            continue;
        };
        let mut add = |s| {
            v.insert((s, t.clone()));
        };
        if kind == 0 {
            let std = w.cfg.enums == Enums::Std;
            if std || implemented("TryFrom", &t) {
                add("try_from");
            }
            if std
                || file
                    .items
                    .iter()
                    .any(|i| matches!(i, syn::Item::Impl(i) if from_into_i32(i, &t)))
            {
                add("into");
            }
            if implemented("AsRef", &t) {
                add("as_ref");
            }
            if derived("PartialEq", &t) || implemented("PartialEq", &t) {
                add("eq");
            }
        }
        let indexer = match kind {
            0 => w.cfg.enums == Enums::Indexer,
            1 => w.cfg.unions == Unions::Indexer,
            _ => false,
        };
        if indexer || implemented("XdrIndexer", &t) {
            add("index");
            add("by_index");
        }
        if kind == 1 && w.cfg.unions == Unions::Union {
            add("by_value");
        }
        if derived("Clone", &t) || implemented("Clone", &t) {
            add("clone");
        }
    }
    v
}
/// impl From<t> for i32
fn from_into_i32(i: &syn::ItemImpl, t: &str) -> bool {
    let is = |y: &syn::Type, n: &str| matches!(y, syn::Type::Path(p) if p.path.segments.last().is_some_and(|x| x.ident == n));
    let Some((_, p, _)) = &i.trait_ else {
        return false;
    };
    let Some(s) = p.segments.last() else {
        return false;
    };
    let syn::PathArguments::AngleBracketed(a) = &s.arguments else {
        return false;
    };
    s.ident == "From"
        && is(&i.self_ty, "i32")
        && matches!(a.args.first(), Some(syn::GenericArgument::Type(y)) if is(y, t))
}

/// (enumeration, enumerator)
pub fn enumerators(w: &World) -> Vec<(String, String)> {
    use rpcgen::parser::*;
    w.defs
        .iter()
        .filter_map(|d| match d {
            Definition::Type(TypeDef::Enum(n, l)) => Some((n, l)),
            _ => None,
        })
        .flat_map(|(n, l)| l.iter().map(move |a| (n.clone(), a.identifier.clone())))
        .collect()
}
pub fn enumerator_value(w: &World, name: &str) -> Option<i128> {
    w.number(&Value::Identifier(name.into())).ok()
}

// --- the workspace -----------------------------------------------------------------------------
pub const CRATES: usize = 8;

fn put(p: &Path, s: &str) {
    if std::fs::read_to_string(p).ok().as_deref() != Some(s) {
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, s).unwrap();
    }
}
pub fn dir(id: &str) -> PathBuf {
    root().join("work").join(format!("gen-{id}"))
}

/// Writes the modules, builds, and leaves out those that do not compile; Err if nothing can be built.
pub fn build(id: &str, e: &mut Emitted, cells: &[Cell]) -> Result<PathBuf, String> {
    let d = dir(id);
    let mc = root().join("mc");
    let mut dropped: BTreeMap<usize, String> = BTreeMap::new();
    for round in 0.. {
        write_workspace(&d, &mc, e, &dropped);
        let mut c = Command::new("cargo");
        c.args([
            "build",
            "--offline",
            "--keep-going",
            "--message-format",
            "short",
            "--manifest-path",
        ])
        .arg(d.join("Cargo.toml"));
        c.env("RUSTFLAGS", "-Awarnings");
        let out = c.output().map_err(|x| format!("cargo: {x}"))?;
        if out.status.success() {
            break;
        }
        let text = String::from_utf8_lossy(&out.stderr).into_owned();
        let mut hit: BTreeMap<usize, String> = BTreeMap::new();
        for l in text.lines() {
            let Some((at, msg)) = l.split_once(": error") else {
                continue;
            };
            // k3/src/m12.rs:1:30
            let mut p = at.split(':');
            let (Some(file), Some(line)) = (p.next(), p.next()) else {
                continue;
            };
            let m = match file
                .rsplit('/')
                .next()
                .and_then(|f| f.strip_prefix('m'))
                .and_then(|f| f.strip_suffix(".rs"))
            {
                Some(n) => n.parse::<usize>().ok(),
                None => std::fs::read_to_string(d.join(file))
                    .ok()
                    .and_then(|t| {
                        t.lines()
                            .nth(line.parse::<usize>().ok()? - 1)
                            .map(|s| s.to_string())
                    })
                    .and_then(|l| {
                        l.split(|c: char| !c.is_alphanumeric())
                            .find_map(|w| w.strip_prefix('m').and_then(|n| n.parse::<usize>().ok()))
                    }),
            };
            if let Some(m) = m {
                hit.entry(m).or_insert_with(|| format!("error{msg}"));
            }
        }
        hit.retain(|m, _| !dropped.contains_key(m) && *m < e.modules.len());
        if hit.is_empty() || round > 11 {
            return Err(format!("the generated modules cannot be built:\n{text}"));
        }
        dropped.extend(hit);
    }
    for (i, c) in cells.iter().enumerate() {
        if let Some(m) = e.cells[i]
            && let Some(msg) = dropped.get(&m)
        {
            e.early.push(Early {
                key: format!("compile/{}", c.name()),
                what: format!(
                    "{}: the generated code does not compile: {msg}\n  {}",
                    c.name(),
                    e.modules[m].code
                ),
                cell: c.clone(),
            });
            e.cells[i] = None;
        }
    }
    let mut s = String::new();
    for c in &e.cells {
        match c {
            Some(m) => writeln!(s, "{m}").unwrap(),
            None => s.push_str("-\n"),
        }
    }
    std::fs::write(d.join("map.txt"), s).unwrap();
    let mut s = String::new();
    for x in &e.early {
        let esc = |s: &str| {
            s.replace('\\', "\\\\")
                .replace('\n', "\\n")
                .replace('\t', " ")
        };
        writeln!(
            s,
            "{}\t{}\t{}\t{}",
            esc(&x.key),
            x.cell.cfg.name(),
            esc(&x.cell.text),
            esc(&x.what)
        )
        .unwrap();
    }
    std::fs::write(d.join("early.txt"), s).unwrap();
    std::fs::write(
        d.join("counts.txt"),
        format!(
            "{} {} {}",
            e.refused,
            e.unsupported,
            e.modules.len() - dropped.len()
        ),
    )
    .unwrap();
    let t = std::env::var("CARGO_TARGET_DIR")
        .map(PathBuf::from)
        .unwrap_or_else(|_| d.join("target"));
    let exe = d.join("run");
    std::fs::copy(t.join("debug").join("gen_drive"), &exe).map_err(|x| format!("copy: {x}"))?;
    Ok(exe)
}

fn write_workspace(d: &Path, mc: &Path, e: &Emitted, dropped: &BTreeMap<usize, String>) {
    std::fs::create_dir_all(d).unwrap();
    let id = d
        .file_name()
        .unwrap()
        .to_str()
        .unwrap()
        .replace(['-', '.'], "_")
        .to_lowercase();
    let mut members: Vec<String> = (0..CRATES).map(|k| format!("\"k{k}\"")).collect();
    members.push("\"drive\"".into());
    let mut s = format!(
        "[workspace]\nresolver = \"3\"\nmembers = [{}]\n\n",
        members.join(", ")
    );
    let toml = std::fs::read_to_string(mc.join("Cargo.toml")).unwrap();
    let i = toml.find("[profile.dev]").unwrap();
    s.push_str(
        toml[i..]
            .split("[profile.dev.package.derive]")
            .next()
            .unwrap(),
    );
    for k in 0..CRATES {
        write!(s, "\n[profile.dev.package.{id}_k{k}]\nopt-level = 0\n").unwrap();
    }
    put(&d.join("Cargo.toml"), &s);
    let lock = d.join("Cargo.lock");
    if !lock.exists() {
        std::fs::copy(mc.join("Cargo.lock"), &lock).unwrap();
    }
    let mc = mc.display();
    let mut deps = String::new();
    let mut all = String::from(
        "#[global_allocator]\nstatic A: model::alloc::Counting = model::alloc::Counting;\nfn main() {\n    let mut e = vec![];\n    let mut n = vec![];\n    let mut c: Vec<genrt::Conv> = vec![];\n",
    );
    for k in 0..CRATES {
        put(
            &d.join(format!("k{k}/Cargo.toml")),
            &format!(
                "[package]\nname = \"{id}_k{k}\"\nversion = \"0.1.0\"\nedition = \"2024\"\n\n[dependencies]\ngenrt = {{ path = \"{mc}/genrt\" }}\nserde = {{ version = \"1.0.137\", features = [\"derive\"] }}\nserde_xdr = {{ path = \"/repo/serde-xdr\" }}\nserde_xdr_derive = {{ path = \"/repo/serde-xdr-derive\" }}\n"
            ),
        );
        let mut l = String::from("#![allow(warnings)]\n");
        let mut entries = String::new();
        let mut numbers = String::new();
        let mut convs = String::new();
        for (m, module) in e.modules.iter().enumerate() {
            if m % CRATES != k {
                continue;
            }
            let f = d.join(format!("k{k}/src/m{m}.rs"));
            if dropped.contains_key(&m) {
                let _ = std::fs::remove_file(f);
                continue;
            }
            put(&f, &module.code);
            writeln!(l, "pub mod m{m};").unwrap();
            for t in &module.types {
                writeln!(entries, "        genrt::entry::<m{m}::{t}>(\"m{m}::{t}\"),").unwrap();
            }
            for t in &module.numbers {
                writeln!(numbers, "        (\"m{m}::{t}\", m{m}::{t} as i128),").unwrap();
            }
            for (c, t) in &module.convs {
                let more = if *c == "by_value" { ", _" } else { "" };
                writeln!(
                    convs,
                    "        genrt::conv::{c}::<m{m}::{t}{more}>(\"m{m}::{t}\"),"
                )
                .unwrap();
            }
        }
        write!(
            l,
            "pub fn entries() -> Vec<genrt::Entry> {{\n    vec![\n{entries}    ]\n}}\npub fn numbers() -> Vec<(&'static str, i128)> {{\n    vec![\n{numbers}    ]\n}}\npub fn convs() -> Vec<genrt::Conv> {{\n    vec![\n{convs}    ]\n}}\n"
        )
        .unwrap();
        put(&d.join(format!("k{k}/src/lib.rs")), &l);
        writeln!(deps, "{id}_k{k} = {{ path = \"../k{k}\" }}").unwrap();
        write!(all, "    e.extend({id}_k{k}::entries());\n    n.extend({id}_k{k}::numbers());\n    c.extend({id}_k{k}::convs());\n").unwrap();
        // modules of an earlier run
        if let Ok(l) = std::fs::read_dir(d.join(format!("k{k}/src"))) {
            for f in l.flatten() {
                let n = f.file_name().to_string_lossy().into_owned();
                if let Some(m) = n
                    .strip_prefix('m')
                    .and_then(|n| n.strip_suffix(".rs"))
                    .and_then(|n| n.parse::<usize>().ok())
                    && m >= e.modules.len()
                {
                    let _ = std::fs::remove_file(f.path());
                }
            }
        }
    }
    all.push_str("    gener::drive::main(e, n, c)\n}\n");
    put(&d.join("drive/src/main.rs"), &all);
    put(
        &d.join("drive/Cargo.toml"),
        &format!(
            "[package]\nname = \"gen_drive\"\nversion = \"0.1.0\"\nedition = \"2024\"\n\n[dependencies]\ngener = {{ path = \"{mc}/gener\" }}\ngenrt = {{ path = \"{mc}/genrt\" }}\nmodel = {{ path = \"{mc}/model\" }}\n{deps}"
        ),
    );
}
