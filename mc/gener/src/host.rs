//! G05 and G07: what can be judged without compiling the generated code.
use crate::world::{Cfg, DEFAULT, configs};
use model::explore::parallel;
use model::guard;
use model::report::{Report, Violation};
use std::panic::catch_unwind;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// all 18 configurations of the library
pub fn every_cfg() -> Vec<Cfg> {
    let mut v = configs();
    v.extend(configs().into_iter().map(|c| Cfg { aliases: true, ..c }));
    v
}
/// one configuration per enumeration and union style, and one with aliases
fn few_cfgs() -> Vec<Cfg> {
    use crate::world::{Enums::*, Unions};
    vec![
        DEFAULT,
        Cfg {
            enums: Std,
            unions: Unions::Union,
            aliases: false,
        },
        Cfg {
            enums: Indexer,
            unions: Unions::Indexer,
            aliases: false,
        },
        Cfg {
            aliases: true,
            ..DEFAULT
        },
    ]
}

enum End {
    Unparsed,
    Refused,
    Code(String),
}
/// parse and generate; Err: it panicked
fn run(text: &str, cfg: &Cfg) -> Result<End, String> {
    let parsed = match catch_unwind(|| rpcgen::parser::parse(text)) {
        Ok(Ok(d)) => d,
        // the parser is judged by P01 to P03
        _ => return Ok(End::Unparsed),
    };
    match catch_unwind(|| rpcgen::gen_code::gen_code(parsed, &cfg.real())) {
        Err(p) => Err(format!("generating panics: {}", model::bind::panic_text(p))),
        Ok(Err(_)) => Ok(End::Refused),
        Ok(Ok(s)) => Ok(End::Code(s)),
    }
}

#[derive(Default)]
struct Counts {
    files: AtomicU64,
    runs: AtomicU64,
    unparsed: AtomicU64,
    refused: AtomicU64,
    code: AtomicU64,
}
impl Counts {
    fn report(&self, r: &Report, part: &str) {
        let g = |a: &AtomicU64| a.load(Relaxed);
        r.add(g(&self.files), g(&self.runs), g(&self.runs));
        r.count(&format!("{part}_files"), g(&self.files));
        r.count("generated", g(&self.code));
        r.count("refused", g(&self.refused));
        r.count("not_parsed", g(&self.unparsed));
    }
}

pub fn escape(s: &str) -> String {
    s.replace('\\', "\\\\")
        .replace('\n', "\\n")
        .replace('\r', "\\r")
}
pub fn unescape(s: &str) -> String {
    let mut o = String::new();
    let mut c = s.chars();
    while let Some(x) = c.next() {
        match x {
            '\\' => match c.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some(x) => o.push(x),
                None => {}
            },
            x => o.push(x),
        }
    }
    o
}

// --- G05 --------------------------------------------------------------------------------------
pub fn judge05(text: &str, cfg: &Cfg) -> Option<String> {
    let t = std::time::Instant::now();
    match run(text, cfg) {
        Err(p) => Some(p),
        Ok(End::Code(s)) => match syn::parse_file(&s) {
            Ok(_) => None,
            Err(x) => Some(format!(
                "what is generated is not Rust: {x}\n{}",
                s.chars().take(2000).collect::<String>()
            )),
        },
        _ if t.elapsed().as_secs() > 20 => Some("generating takes more than 20 s".into()),
        _ => None,
    }
}

struct G05<'a> {
    r: &'a Report,
    n: Counts,
}
impl G05<'_> {
    fn file(&self, text: &str, cfgs: &[Cfg]) {
        self.n.files.fetch_add(1, Relaxed);
        self.r.sample(|| text.to_string());
        for cfg in cfgs {
            guard::context(&format!("kind=host\ncfg={}\n", cfg.name()));
            guard::input(text.as_bytes());
            self.n.runs.fetch_add(1, Relaxed);
            let bad = match run(text, cfg) {
                Ok(End::Unparsed) => {
                    self.n.unparsed.fetch_add(1, Relaxed);
                    guard::idle();
                    return;
                }
                Ok(End::Refused) => {
                    self.n.refused.fetch_add(1, Relaxed);
                    None
                }
                Ok(End::Code(s)) => {
                    self.n.code.fetch_add(1, Relaxed);
                    syn::parse_file(&s).err().map(|x| {
                        format!(
                            "what is generated is not Rust: {x}\n{}",
                            s.chars().take(2000).collect::<String>()
                        )
                    })
                }
                Err(p) => Some(p),
            };
            if let Some(w) = bad {
                self.r.violation(Violation {
                    key: format!("{}/{text}", cfg.name()),
                    replay: format!(
                        "property=G05\nkind=host\ncfg={}\nspec={}\n",
                        cfg.name(),
                        escape(text)
                    ),
                    what: format!("{} | {}: {w}", cfg.name(), escape(text)),
                });
            }
        }
        guard::idle();
    }
}

const LENGTHS: &[&str] = &[
    "0",
    "1",
    "33",
    "4294967295",
    "4294967296",
    "18446744073709551615",
    "18446744073709551616",
    "99999999999999999999999999999999999999999",
    "-1",
    "-9223372036854775809",
    "0x0",
    "00",
    "A",
    "K",
    "NONE",
    "TRUE",
    "s",
    "a",
];
const TYPES: &[&str] = &[
    "int",
    "unsigned int",
    "unsigned",
    "char",
    "short",
    "unsigned hyper",
    "hyper",
    "float",
    "double",
    "quadruple",
    "bool",
    "s",
    "t",
    "u",
    "e",
    "x",
    "NONE",
    "A",
    "K",
    "struct { int q; }",
    "enum { Q = 1 }",
    "union switch (int k) { case 0: int q; }",
    "struct s",
    "enum e",
    "union u",
    "string",
    "opaque",
    "void",
];
/// every declaration of `name`
fn decls(name: &str) -> Vec<String> {
    let mut v = vec!["void".to_string()];
    let mut forms = |t: &str| {
        v.push(format!("{t} {name}"));
        v.push(format!("{t} *{name}"));
        v.push(format!("{t} {name}<>"));
        for l in LENGTHS {
            v.push(format!("{t} {name}[{l}]"));
            v.push(format!("{t} {name}<{l}>"));
        }
    };
    for t in TYPES {
        forms(t);
    }
    v
}
const AROUND: &str = " enum e { A = 1, B = 2 }; const K = 3; typedef int t; union u switch (int k) { case 0: s x; case 1: void; };";
const VALUES: &[&str] = &[
    "0",
    "1",
    "2",
    "7",
    "-1",
    "-2",
    "2147483647",
    "2147483648",
    "-2147483648",
    "-2147483649",
    "4294967295",
    "4294967296",
    "-4294967296",
    "9223372036854775807",
    "9223372036854775808",
    "-9223372036854775808",
    "18446744073709551615",
    "18446744073709551616",
    "99999999999999999999999999999999999999999",
    "-99999999999999999999999999999999999999999",
    "A",
    "B",
    "C",
    "K",
    "NONE",
    "TRUE",
    "FALSE",
];
/// sizes around which completing changes
const SIZES: &[&str] = &[
    "63", "64", "255", "256", "8191", "8192", "8193", "8194", "65535", "16777216",
];

/// how a definition named d{i} can refer to d{j}
const REFS: &[(&str, &str)] = &[
    ("field", "struct D { int q; R a; };"),
    ("optional", "struct D { R *a; };"),
    ("fixed", "struct D { R a[2]; int q; };"),
    ("list", "struct D { R a<>; };"),
    ("length", "struct D { int a[R]; };"),
    ("opaque", "struct D { opaque a[R]; opaque b<R>; };"),
    ("alias", "typedef R D;"),
    ("alias-optional", "typedef R *D;"),
    ("alias-fixed", "typedef R D[2];"),
    ("alias-list", "typedef R D<>;"),
    ("alias-length", "typedef opaque D[R];"),
    (
        "arm",
        "union D switch (int k) { case 0: R a; case 1: void; };",
    ),
    (
        "arm-optional",
        "union D switch (bool k) { case TRUE: R *a; case FALSE: void; };",
    ),
    (
        "default",
        "union D switch (int k) { case 0: int q; default: R a; };",
    ),
    ("discriminant", "union D switch (R k) { case 0: int a; };"),
    (
        "label",
        "union D switch (int k) { case R: int a; case 5: R b; };",
    ),
    ("value", "enum D { D_A = R };"),
    ("enumerator", "enum D_E { D = R, D_B = 4 };"),
    ("number", "const D = R;"),
];
fn definition(k: usize, i: usize, j: usize) -> String {
    REFS[k]
        .1
        .replace('D', &format!("d{i}"))
        .replace('R', &format!("d{j}"))
}

/// every way `n` definitions can refer to one of each other (or to an undefined name)
fn graphs(n: usize, kinds: &[usize], f: &(impl Fn(String) + Sync)) {
    let per = kinds.len() * (n + 1);
    let total = per.pow(n as u32);
    let chunks: Vec<usize> = (0..total.div_ceil(512)).collect();
    parallel(&chunks, |c| {
        for x in c * 512..((c + 1) * 512).min(total) {
            let mut x = x;
            let mut t = String::new();
            for i in 0..n {
                let y = x % per;
                x /= per;
                t.push_str(&definition(kinds[y / (n + 1)], i, y % (n + 1)));
                t.push(' ');
            }
            f(t);
        }
    });
}

fn chains(th: bool) -> Vec<String> {
    let mut v = vec![];
    let link: &[(&str, &str)] = &[
        ("typedef R D;", "typedef int D;"),
        ("typedef R *D;", "typedef int D;"),
        ("typedef R D[2];", "typedef int D;"),
        ("typedef R D<3>;", "typedef int D;"),
        ("const D = R;", "const D = 5;"),
        ("enum D_e { D = R };", "const D = 5;"),
        ("enum D_e { D = R };", "enum D_e { D = 5 };"),
        ("struct D { R a; };", "struct D { int a; };"),
        ("struct D { R a; R b; };", "struct D { int a; };"),
        ("struct D { R a; R *b; R c<>; };", "typedef int D;"),
        ("struct D { R *a; R *b; R *c; };", "struct D { d0 *z; };"),
        (
            "struct D { R a<>; R b<>; d0 c<>; };",
            "struct D { int z; };",
        ),
        (
            "union D switch (int k) { case 0: R a; case 1: R b; };",
            "typedef int D;",
        ),
        (
            "union D switch (int k) { case 0: R a; case 1: R b; default: R c; };",
            "struct D { int z; };",
        ),
        (
            "union D switch (bool k) { case FALSE: R a; case TRUE: d0 *b; };",
            "struct D { int z; };",
        ),
        ("union D switch (R k) { case 0: void; };", "typedef int D;"),
        (
            "union D switch (R k) { case 0: void; };",
            "union D switch (int k) { case 0: void; };",
        ),
    ];
    let ns: &[usize] = if th {
        &[2, 3, 8, 20, 30, 40, 64, 200, 1000]
    } else {
        &[2, 3, 8, 20, 30, 40, 64, 200]
    };
    for (l, end) in link {
        for n in ns {
            let mut t: Vec<String> = vec![];
            for i in 0..*n {
                t.push(
                    l.replace('D', &format!("d{i}"))
                        .replace('R', &format!("d{}", i + 1)),
                );
            }
            t.push(end.replace('D', &format!("d{n}")));
            v.push(t.join(" "));
            t.reverse();
            v.push(t.join(" "));
            t.reverse();
            t.pop();
            v.push(t.join(" "));
            // the last refers to the first
            t.push(l.replace('D', &format!("d{n}")).replace('R', "d0"));
            v.push(t.join(" "));
        }
    }
    // types nested in one definition
    for n in [1usize, 2, 3, 5, 8, 12] {
        for (a, z) in [
            ("struct { ", " x; }"),
            ("union switch (int k) { case 0: ", " x; }"),
            ("union switch (int k) { case 0: void; default: ", " x; }"),
        ] {
            for d in [
                "struct s { T q; };",
                "typedef T s;",
                "union s switch (int k) { case 0: T q; };",
            ] {
                v.push(d.replace('T', &format!("{}int{}", a.repeat(n), z.repeat(n))));
            }
        }
    }
    // many of everything
    for n in [1usize, 10, 100, 500] {
        let list =
            |f: &dyn Fn(usize) -> String, sep: &str| (0..n).map(f).collect::<Vec<_>>().join(sep);
        v.push(format!(
            "enum e {{ {} }};",
            list(&|i| format!("E{i} = {i}"), ", ")
        ));
        v.push(format!(
            "enum e {{ {} }};",
            list(&|i| format!("E{i} = {}", i * 16), ", ")
        ));
        v.push(format!(
            "struct s {{ {} }};",
            list(&|i| format!("int f{i};"), " ")
        ));
        v.push(format!(
            "union u switch (int k) {{ {} }};",
            list(&|i| format!("case {i}: int f{i};"), " ")
        ));
        v.push(format!(
            "union u switch (int k) {{ {} int a; }};",
            list(&|i| format!("case {i}:"), " ")
        ));
        v.push(list(&|i| format!("const K{i} = {i};"), " "));
        v.push(list(&|i| format!("typedef struct s{i} t{i};"), " "));
        v.push(format!(
            "struct {} {{ int {}; }};",
            "a".repeat(n),
            "b".repeat(n)
        ));
        v.push(format!(
            "struct {} {{ int {}; }};",
            "a_".repeat(n),
            "bC".repeat(n)
        ));
        v.push(format!("const k = {};", "9".repeat(n)));
        v.push(format!("enum e {{ a = -{} }};", "9".repeat(n)));
        v.push(format!("struct s {{ int a[0x{}]; }};", "f".repeat(n)));
        v.push(format!(
            "union u switch (int k) {{ case 0{}: void; }};",
            "7".repeat(n)
        ));
    }
    v
}

fn g05() -> i32 {
    let r = Report::new("G05");
    let th = r.thorough();
    let cfgs = every_cfg();
    let few = few_cfgs();
    let g = |part: &str, cfgs: &[Cfg], files: Vec<String>| {
        let g = G05 {
            r: &r,
            n: Counts::default(),
        };
        let ch: Vec<&[String]> = files.chunks(8).collect();
        parallel(&ch, |ch| ch.iter().for_each(|f| g.file(f, cfgs)));
        g.n.report(&r, part);
    };
    let mut v = vec![];
    // one declaration in every place
    for d in decls("a") {
        v.push(format!("struct s {{ {d}; }};"));
        v.push(format!("struct s {{ {d}; }};{AROUND}"));
        v.push(format!("union w switch (int k) {{ case 0: {d}; case 2: void; }}; struct s {{ int a; }};{AROUND}"));
        v.push(format!("union w switch (int k) {{ case 0: int q; default: {d}; }}; struct s {{ int a; }};{AROUND}"));
        v.push(format!(
            "union w switch ({d}) {{ case 0: int q; }}; struct s {{ int a; }};{AROUND}"
        ));
    }
    for d in decls("x") {
        v.push(format!("typedef {d};"));
        v.push(format!(
            "typedef {d}; struct y {{ x a; x *b; x c<>; x d[2]; }}; struct s {{ int q; }};{AROUND}"
        ));
        v.push(format!("typedef {d}; union y switch (int k) {{ case 0: x a; case 1: x *b; case 2: x c[2]; default: x d<>; }}; struct s {{ int q; }};{AROUND}"));
        v.push(format!("typedef {d}; typedef x y; union z switch (y k) {{ case 0: y a; }}; struct s {{ int q; }};{AROUND}"));
    }
    g("declarations", &cfgs, v);
    // enumerations and constants
    let mut v = vec![
        "enum e { };".to_string(),
        "struct s { };".into(),
        "union u switch (int k) { };".into(),
        "union u switch (int k) { default: void; };".into(),
        "".into(),
        "/* nothing */".into(),
        "%pass\n".into(),
    ];
    for a in VALUES.iter().chain(SIZES) {
        v.push(format!("const K = {a};"));
        v.push(format!("enum e {{ A = {a} }};"));
        v.push(format!(
            "enum A {{ A = {a} }}; enum B {{ A = 1, A = {a} }};"
        ));
        for b in VALUES.iter().chain(SIZES) {
            v.push(format!("const K = {a}; const C = {b};"));
            v.push(format!("enum e {{ A = {a}, B = {b} }};"));
            v.push(format!(
                "enum e {{ A = {a} }}; enum f {{ B = {b} }}; const C = A; const D = B;"
            ));
            v.push(format!("enum e {{ A = {a} }}; const K = {b}; struct s {{ int x[A]; opaque y[K]; int z<A>; }};"));
        }
    }
    for a in VALUES {
        for b in VALUES {
            for c in VALUES {
                v.push(format!("enum e {{ A = {a}, B = {b}, C = {c} }};"));
            }
        }
    }
    g(
        "enumerations",
        &if th { cfgs.clone() } else { few.clone() },
        v,
    );
    // unions
    let mut v = vec![];
    let discs: Vec<String> = TYPES
        .iter()
        .map(|t| format!("{t} k"))
        .chain([
            "int *k".into(),
            "int k<>".into(),
            "int k[2]".into(),
            "e *k".into(),
            "opaque k[4]".into(),
            "string k<>".into(),
            "w k".into(),
        ])
        .collect();
    let arms = [
        "int a",
        "void",
        "e a",
        "s *a",
        "w *a",
        "w a",
        "opaque a<>",
        "opaque a[40]",
        "NONE a<3>",
        "t a[K]",
    ];
    let labels: Vec<&str> = VALUES
        .iter()
        .chain(&["8191", "8192", "65536"])
        .copied()
        .collect();
    for d in &discs {
        for (n, a) in arms.iter().enumerate() {
            for l in &labels {
                for tail in [
                    "",
                    "default: void;",
                    "case 1: void;",
                    "case A: case TRUE: void; default: hyper b;",
                ] {
                    if n > 2 && tail.starts_with("case A") {
                        continue;
                    }
                    v.push(format!("union w switch ({d}) {{ case {l}: {a}; {tail} }}; struct s {{ int a; }};{AROUND}"));
                }
            }
        }
        for l in &labels {
            for m in &labels {
                v.push(format!("union w switch ({d}) {{ case {l}: case {m}: int a; }}; struct s {{ int a; }};{AROUND}"));
            }
        }
    }
    g("unions", &if th { cfgs.clone() } else { few.clone() }, v);
    // references
    let all: Vec<usize> = (0..REFS.len()).collect();
    for n in 1..=if th { 3 } else { 2 } {
        let g = G05 {
            r: &r,
            n: Counts::default(),
        };
        graphs(n, &all, &|t| g.file(&t, &cfgs));
        g.n.report(&r, &format!("references_{n}"));
    }
    if !th {
        let g = G05 {
            r: &r,
            n: Counts::default(),
        };
        let kinds: Vec<usize> = (0..REFS.len())
            .filter(|k| {
                [
                    "field",
                    "list",
                    "length",
                    "alias",
                    "alias-fixed",
                    "arm",
                    "default",
                    "discriminant",
                    "label",
                    "enumerator",
                    "number",
                ]
                .contains(&REFS[*k].0)
            })
            .collect();
        graphs(3, &kinds, &|t| g.file(&t, &few));
        g.n.report(&r, "references_3");
    } else {
        let g = G05 {
            r: &r,
            n: Counts::default(),
        };
        let kinds: Vec<usize> = (0..REFS.len())
            .filter(|k| {
                [
                    "field",
                    "optional",
                    "alias",
                    "arm",
                    "discriminant",
                    "enumerator",
                    "number",
                ]
                .contains(&REFS[*k].0)
            })
            .collect();
        graphs(4, &kinds, &|t| g.file(&t, &few));
        g.n.report(&r, "references_4");
    }
    g("chains", &few, chains(th));
    // names
    let mut v = vec![];
    for n in names(if th { 4 } else { 3 }) {
        v.push(format!(
            "struct {n} {{ int a; }}; union u switch (int k) {{ case 0: {n} {n}; case 1: void; }};"
        ));
        v.push(format!("struct s {{ int {n}; int {n}; opaque {n}<>; }};"));
        v.push(format!(
            "enum {n} {{ {n} = 1, a = {n} }}; union u switch ({n} {n}) {{ case {n}: {n} {n}; }};"
        ));
        v.push(format!(
            "const {n} = 3; typedef int {n}[{n}]; struct s {{ {n} a[{n}]; }};"
        ));
        v.push(format!(
            "union {n} switch (bool {n}) {{ case {n}: void; case TRUE: int {n}; }};"
        ));
        v.push(format!("union {n} switch (int {n}) {{ case {n}: void; case 1: int {n}; default: {n} *{n}; }}; const {n} = 7;"));
        v.push(format!(
            "typedef {n} {n}; typedef {n} t; struct s {{ t {n}; }};"
        ));
    }
    g("names", &few, v);
    // everything the parser checks print
    let g5 = G05 {
        r: &r,
        n: Counts::default(),
    };
    let f = |d: Vec<rpcgen::parser::Definition>| {
        let t = idl::lang::pretty(&d);
        g5.file(&t, &few[..if th { 4 } else { 2 }]);
    };
    let jobs = idl::asts::all(th, &f);
    parallel(&jobs, |j| j());
    drop(jobs);
    g5.n.report(&r, "parser_family");
    r.finish(
        "every interface file of the family, parsed and generated by the real code under every option; each run ends with code that is Rust, or with an error",
        &["the family stands for all interface files", "syn decides what is syntactically Rust"],
    )
}

/// every identifier over a small alphabet, and the words of both languages
pub fn names(max: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut last = vec![String::new()];
    for _ in 0..max {
        let mut next = vec![];
        for p in &last {
            for c in ["a", "B", "_", "1", "b"] {
                if p.is_empty() && c == "1" {
                    continue;
                }
                next.push(format!("{p}{c}"));
            }
        }
        v.extend(next.iter().cloned());
        last = next;
    }
    for k in crate::names::RUST.iter().chain(&[
        "union",
        "string",
        "opaque",
        "TRUE",
        "FALSE",
        "u8",
        "String",
        "Vec",
        "Option",
        "Default",
        "Result",
        "main",
        "macro_rules",
        "raw",
        "safe",
        "auto",
        "default",
        "value",
        "index",
        "S",
        "D",
    ]) {
        for w in [
            k.to_string(),
            k.to_uppercase(),
            format!("_{k}"),
            format!("{k}_"),
            k.get(..1)
                .map(|f| f.to_uppercase() + &k[1..])
                .unwrap_or_default(),
        ] {
            if !v.contains(&w) {
                v.push(w);
            }
        }
    }
    v
}

// --- G07 --------------------------------------------------------------------------------------
/// definitions that refer to each other in every way
const POOL: &[&str] = &[
    "enum e { A = 1, B = 4 };",
    "enum e2 { C = -3, D = A };",
    "const K = 3;",
    "const L = K;",
    "const M = B;",
    "typedef e te;",
    "typedef opaque blob<K>;",
    "typedef int row[K];",
    "typedef s ts;",
    "typedef node *list;",
    "struct s { int a[K]; te b; u *c; };",
    "struct node { int v; list next; };",
    "struct big { s a; blob b; opaque c[40]; row d<>; };",
    "union u switch (te k) { case A: s x; case B: void; };",
    "union v switch (int k) { case K: node x; case L2: list y; };",
    "union w switch (bool k) { case TRUE: v x; case FALSE: opaque y[8]; };",
    "union x switch (e2 k) { case C: case D: string y<>; };",
    "const L2 = 9;",
    "union z switch (unsigned k) { case 2: z2 a; default: void; };",
    "struct z2 { z *a; e2 b; };",
    "const WIDE = 0x1FFFFFFFF;",
    "const OCT = 017;",
    "enum far { FB = 300, FA = 0x10, FC = OCT };",
    "enum neg { NB = -7 };",
    "typedef far *tf;",
    "struct inner { opaque o[OCT]; hyper h<>; tf t; };",
    "typedef outer_t outer;",
    "typedef outer outers<>;",
    "union dflt switch (neg k) { case NB: inner a<>; default: opaque raw[5]; };",
];
fn items(s: &str) -> Result<Vec<String>, String> {
    let f = syn::parse_file(s).map_err(|x| format!("not Rust: {x}"))?;
    let mut v: Vec<String> = f
        .items
        .iter()
        .map(|i| quote::quote!(#i).to_string())
        .collect();
    v.sort();
    Ok(v)
}
type Made = Option<String>;
fn made(text: &str, cfg: &Cfg) -> Result<Made, String> {
    match run(text, cfg)? {
        End::Code(s) => Ok(Some(s)),
        End::Refused => Ok(None),
        End::Unparsed => Err(format!("the parser refuses {text:?}")),
    }
}
fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut v = vec![];
    for p in permutations(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            v.push(q);
        }
    }
    v
}

/// what the layouts of the same definitions have in common with the plain one
fn layouts(defs: &[&str]) -> Vec<String> {
    let toks: Vec<_> = defs.iter().map(|d| idl::lang::lex(d).unwrap()).collect();
    let flat: Vec<_> = toks.iter().flatten().cloned().collect();
    let mut v = vec![defs.join("\n")];
    for sep in [
        "",
        "\n",
        "\r\n",
        "\t",
        " /* enum x { Y = 1 }; */ ",
        "/**/",
        "\n% const QQ = 4;\n",
        "\n%#include <x.h>\n \n",
    ] {
        if sep.contains('%') {
            // whole lines, between definitions
            let parts: Vec<String> = toks.iter().map(|t| idl::lang::layout(t, " ")).collect();
            v.push(format!("{sep}{}{sep}", parts.join(sep)));
        } else {
            v.push(format!("{sep}{}{sep}", idl::lang::layout(&flat, sep)));
        }
    }
    // a program definition in every place
    let p = "program PROG { version VERS { s PROC(e) = 1; void A(void) = 2; } = 1; } = 0x20000000;";
    for i in 0..=defs.len() {
        let mut l = defs.to_vec();
        l.insert(i, p);
        v.push(l.join("\n"));
    }
    let mut l = defs.to_vec();
    l.insert(0, p);
    l.push(p);
    v.push(l.join(" "));
    v
}

/// the judgements on one list of definitions; number of runs, complaint
pub fn judge07(defs: &[&str], cfg: &Cfg) -> (u64, Option<String>) {
    let mut runs = 0u64;
    let mut go = || -> Result<(), String> {
        let plain = defs.join(" ");
        let mut gen_ = |t: &str| {
            runs += 1;
            made(t, cfg)
        };
        let want = gen_(&plain)?;
        for _ in 0..3 {
            if gen_(&plain)? != want {
                return Err("generating it again gives another text".into());
            }
        }
        for t in layouts(defs) {
            if gen_(&t)? != want {
                return Err(format!("written as {t:?} it generates something else"));
            }
        }
        let mine = match &want {
            Some(s) => Some(items(s)?),
            None => None,
        };
        for p in permutations(defs.len()) {
            let t: Vec<&str> = p.iter().map(|i| defs[*i]).collect();
            let got = match gen_(&t.join(" "))? {
                Some(s) => Some(items(&s)?),
                None => None,
            };
            if got != mine {
                return Err(format!("in the order {t:?} it generates other items"));
            }
        }
        // an unrelated definition in every place
        {
            for (new, names) in [
                ("struct Q9 { int a; opaque b<>; };", &["Q9"][..]),
                ("enum Q9 { Q9A = 2, Q9B = 0 };", &["Q9"]),
                ("union Q9 switch (int k) { case 5: string a<>; };", &["Q9"]),
                ("const Q9 = 77;", &["Q9"]),
                ("typedef int Q9<4>;", &["Q9"]),
                ("struct Q9 { Q9 *n; }; const Q9A = 5;", &["Q9", "Q9A"]),
                ("const Q9 = 0x100000000;", &["Q9"]),
                (
                    "const Q9 = 18446744073709551615; const Q9A = 0777; const Q9B = 0xFFFFFFFF;",
                    &["Q9", "Q9A", "Q9B"],
                ),
                ("enum Q9 { Q9A = 2147483647, Q9B = -1 };", &["Q9"]),
                ("enum Q9 { Q9A = -2147483648 };", &["Q9"]),
                ("enum Q9 { Q9A = 0 }; const Q9C = Q9A;", &["Q9", "Q9C"]),
                (
                    "struct Q9 { opaque a[64]; int b[32]; string c<>; opaque d<>; bool e; double f; };",
                    &["Q9"],
                ),
                ("typedef opaque Q9[33];", &["Q9"]),
                ("typedef opaque Q9<>; typedef Q9 Q9A;", &["Q9", "Q9A"]),
                ("typedef string Q9<>; struct Q9A { Q9 a; };", &["Q9", "Q9A"]),
                (
                    "union Q9 switch (bool k) { case TRUE: hyper a; case FALSE: void; };",
                    &["Q9"],
                ),
                (
                    "union Q9 switch (unsigned k) { case 3: opaque a[3]; default: void; };",
                    &["Q9"],
                ),
                (
                    "enum Q9 { Q9A = 3, Q9B = 1 }; union Q9C switch (Q9 k) { case Q9A: case Q9B: Q9C *a; };",
                    &["Q9", "Q9C"],
                ),
                ("typedef Q9A Q9; struct Q9A { Q9 *n; };", &["Q9", "Q9A"]),
                ("struct Q9 { float a; };", &["Q9"]),
            ] {
                for i in 0..=defs.len() {
                    let mut l = defs.to_vec();
                    l.insert(i, new);
                    // (an alias cannot say that bytes are opaque data)
                    if cfg.aliases && new.starts_with("typedef opaque") {
                        continue;
                    }
                    let (s, mine) = match (gen_(&l.join(" "))?, &mine) {
                        (Some(s), Some(mine)) => (s, mine),
                        (None, None) => continue,
                        (None, _) => {
                            return Err(format!("with {new} in place {i} nothing is generated"));
                        }
                        _ => {
                            return Err(format!("only with {new} in place {i} code is generated"));
                        }
                    };
                    let got = items(&s)?;
                    let mut rest = got.clone();
                    for x in mine {
                        match rest.iter().position(|y| x == y) {
                            Some(p) => drop(rest.remove(p)),
                            None => {
                                return Err(format!("with {new} in place {i} this changes: {x}"));
                            }
                        }
                    }
                    for x in rest {
                        if !x.starts_with("use ")
                            && !names
                                .iter()
                                .any(|n| x.split(|c: char| !c.is_alphanumeric()).any(|w| w == *n))
                        {
                            return Err(format!("with {new} in place {i} there is also: {x}"));
                        }
                    }
                }
            }
        }
        Ok(())
    };
    let bad = go().err();
    (runs, bad)
}

fn g07() -> i32 {
    let r = Report::new("G07");
    let th = r.thorough();
    let cfgs = if th { every_cfg() } else { few_cfgs() };
    let mut sets: Vec<Vec<&str>> = vec![];
    fn subsets<'a>(
        pool: &[&'a str],
        k: usize,
        at: usize,
        cur: &mut Vec<&'a str>,
        out: &mut Vec<Vec<&'a str>>,
    ) {
        if cur.len() == k {
            return out.push(cur.clone());
        }
        for i in at..pool.len() {
            cur.push(pool[i]);
            subsets(pool, k, i + 1, cur, out);
            cur.pop();
        }
    }
    for k in 0..=if th { 4 } else { 3 } {
        subsets(POOL, k, 0, &mut vec![], &mut sets);
    }
    // sets that are closed under reference
    let closed: &[&[usize]] = &[
        &[0, 2, 5, 10, 13],
        &[9, 11],
        &[0, 1, 16],
        &[9, 11, 2, 14, 17],
        &[18, 19, 0, 1],
    ];
    for c in closed {
        sets.push(c.iter().map(|i| POOL[*i]).collect());
    }
    let all: Vec<&str> = POOL.to_vec();
    let n = Counts::default();
    parallel(&sets, |d| {
        n.files.fetch_add(1, Relaxed);
        r.sample(|| d.join(" "));
        for cfg in &cfgs {
            let text = d.join("\n");
            guard::context(&format!("kind=g07\ncfg={}\n", cfg.name()));
            guard::input(text.as_bytes());
            let (runs, bad) = judge07(d, cfg);
            n.runs.fetch_add(runs, Relaxed);
            if let Some(w) = bad {
                r.violation(Violation {
                    key: format!("{}/{text}", cfg.name()),
                    replay: format!(
                        "property=G07\nkind=g07\ncfg={}\nspec={}\n",
                        cfg.name(),
                        escape(&text)
                    ),
                    what: format!("{} | {}: {w}", cfg.name(), escape(&text)),
                });
            }
        }
        guard::idle();
    });
    histories(&r, &n, th);
    // all of them: every rotation and every exchange of two
    for cfg in &cfgs {
        let text = all.join(" ");
        let want = made(&text, cfg);
        let base = match &want {
            Ok(Some(s)) => items(s).ok(),
            _ => None,
        };
        let mut orders = vec![];
        for i in 0..all.len() {
            let mut l = all.clone();
            l.rotate_left(i);
            orders.push(l.clone());
            l.reverse();
            orders.push(l);
            for j in i + 1..all.len() {
                let mut l = all.clone();
                l.swap(i, j);
                orders.push(l);
            }
        }
        parallel(&orders, |l| {
            let text = l.join("\n");
            guard::context(&format!("kind=g07\ncfg={}\n", cfg.name()));
            guard::input(text.as_bytes());
            n.files.fetch_add(1, Relaxed);
            n.runs.fetch_add(1, Relaxed);
            let got = match made(&text, cfg) {
                Ok(Some(s)) => items(&s).ok(),
                _ => None,
            };
            if got != base {
                r.violation(Violation {
                    key: format!("{}/{text}", cfg.name()),
                    replay: format!(
                        "property=G07\nkind=order\ncfg={}\nspec={}\n",
                        cfg.name(),
                        escape(&text)
                    ),
                    what: format!(
                        "{} | {}: other items than in the order of the pool",
                        cfg.name(),
                        escape(&text)
                    ),
                });
            }
            guard::idle();
        });
    }
    r.add(
        n.files.load(Relaxed),
        n.runs.load(Relaxed),
        n.runs.load(Relaxed),
    );
    r.count("sets", sets.len() as u64);
    r.finish(
        "every set of up to 3 (thorough: 4) definitions of the pool: generated repeatedly, in every layout, in every order, with every unrelated definition in every place; texts or items compared",
        &["the pool stands for all definitions"],
    )
}

/// files in which the same names mean different things
const HISTORY: &[&str] = &[
    "const K = 3; enum e { A = 1 }; typedef e t; struct s { t a[K]; };",
    "const K = 5; enum e { A = 7, B = 2 }; typedef opaque t<>; struct s { int b[K]; opaque c[K]; string d<K>; };",
    "union e switch (int k) { case 0: int a; case 4: void; }; typedef int t; struct s { e a; s *n; t b; }; const A = 0xFFFFFFFFF;",
    "const K = K; struct s { int a[K]; };",
    "struct s { int a;",
    "typedef s t; struct s { t *n; string v<>; }; enum K { A = 0, B = 9 }; union u switch (K k) { case A: t a; default: void; };",
    "typedef u *t; union u switch (K k) { case B: t a; case A: opaque o[A]; }; enum K { A = 6, B = 4 };",
    "%pass\nprogram A { version K { t e(s) = 1; } = 2; } = 3; struct e { opaque K[2]; };",
];
/// Runs the files named by `file.configuration,…` one after the other, prints the last result.
pub fn history_main(what: &str) {
    let cfgs = few_cfgs();
    let mut last = String::new();
    for w in what.split(',') {
        let (f, c) = w.split_once('.').unwrap();
        let cfg = cfgs[c.parse::<usize>().unwrap()];
        let text = HISTORY[f.parse::<usize>().unwrap()].to_string();
        last = format!(
            "{:?}",
            crate::emit::generate(&Cell {
                text,
                cfg,
                refuse: false,
                only: None
            })
        );
    }
    print!("{last}");
}
fn history(what: &str) -> Option<String> {
    let o = std::process::Command::new(std::env::current_exe().ok()?)
        .args(["history", what])
        .output()
        .ok()?;
    o.status
        .success()
        .then(|| String::from_utf8_lossy(&o.stdout).into_owned())
}
/// What is generated does not depend on what the process generated before: every sequence of two
/// (thorough: three) files, in a process of its own, against the last file alone in a process.
fn histories(r: &Report, n: &Counts, th: bool) {
    let single: Vec<String> = (0..HISTORY.len())
        .flat_map(|f| (0..4).map(move |c| format!("{f}.{c}")))
        .collect();
    let alone: Vec<Option<String>> = single.iter().map(|w| history(w)).collect();
    let mut seqs: Vec<(String, usize)> = vec![];
    for a in &single {
        for (k, b) in single.iter().enumerate() {
            seqs.push((format!("{a},{b}"), k));
            if th {
                for x in single
                    .iter()
                    .filter(|x| x.ends_with(".0") || x.ends_with(".1"))
                {
                    seqs.push((format!("{a},{x},{b}"), k));
                }
            }
        }
    }
    parallel(&seqs, |(w, k)| {
        n.files.fetch_add(1, Relaxed);
        n.runs.fetch_add(1, Relaxed);
        let got = history(w);
        if got.is_none() || got != alone[*k] {
            r.violation(Violation {
                key: format!("history/{w}"),
                replay: format!("property=G07\nkind=history\ncfg=complement-complement\nspec={w}\n"),
                what: format!("after the runs {w} (file.configuration) the last one gives {got:?}, alone it gives {:?}", alone[*k]),
            });
        }
    });
    r.count("histories", seqs.len() as u64);
}

pub fn worker(id: &str) -> i32 {
    match id {
        "G05" => g05(),
        "G07" => g07(),
        _ => unreachable!(),
    }
}
/// Replays a case of the two; None if it is none.
pub fn replay(text: &str) -> Option<i32> {
    let get = |k: &str| {
        text.lines()
            .find_map(|l| l.strip_prefix(&format!("{k}=")))
            .map(|s| s.to_string())
            .unwrap_or_default()
    };
    let kind = get("kind");
    if !["host", "g07", "order", "history"].contains(&kind.as_str()) {
        return None;
    }
    let mut spec = unescape(&get("spec"));
    if spec.is_empty() {
        spec = String::from_utf8(model::sexp::unhex(&get("input"))).unwrap();
    }
    let cfg = crate::cells::cfg_by_name(&get("cfg"));
    println!("options  {}\nfile     {spec}", cfg.name());
    let lines: Vec<&str> = spec.lines().collect();
    let bad = match kind.as_str() {
        "host" => judge05(&spec, &cfg),
        "g07" => judge07(&lines, &cfg).1,
        "history" => {
            let last = spec.rsplit(',').next().unwrap();
            (history(&spec) != history(last)).then(|| format!("another text than {last} alone"))
        }
        _ => {
            let get = |t: &str| made(t, &cfg).ok().flatten().and_then(|s| items(&s).ok());
            (get(&spec) != get(&POOL.join(" ")))
                .then(|| "other items than in the order of the pool".into())
        }
    };
    Some(match bad {
        Some(w) => {
            println!("VIOLATION property={}\n  {w}", get("property"));
            1
        }
        None => {
            println!("as it should be");
            0
        }
    })
}

// --- G06 --------------------------------------------------------------------------------------
use crate::cells::Cell;
use crate::emit::{Early, item_name};
use crate::names::{camel, is_name, snake};

/// Names of generated items, fields and variants, for every identifier up to a length in every
/// position. Number of runs and complaints.
pub fn names06(th: bool) -> (u64, Vec<Early>) {
    use std::sync::Mutex;
    let early = Mutex::new(vec![]);
    let runs = AtomicU64::new(0);
    let cfgs = few_cfgs();
    let l = names(if th { 6 } else { 5 });
    let chunks: Vec<&[String]> = l.chunks(16).collect();
    parallel(&chunks, |ch| {
        for n in *ch {
            for cfg in &cfgs {
                for (part, text) in [
                    (
                        "type",
                        format!(
                            "struct {n} {{ int q; }}; struct zz9 {{ {n} a; {n} *b; {n} c<>; {n} d[2]; }};"
                        ),
                    ),
                    (
                        "type",
                        format!("enum {n} {{ ZZ_A = 1, ZZ_B = 2 }}; struct zz9 {{ {n} a; }};"),
                    ),
                    (
                        "type",
                        format!(
                            "union {n} switch (int k) {{ case 1: int q; case 0: void; }}; struct zz9 {{ {n} a; }};"
                        ),
                    ),
                    (
                        "alias",
                        format!("typedef int {n}; struct zz9 {{ {n} a; }};"),
                    ),
                    ("field", format!("struct zz9 {{ int {n}; hyper zy9; }};")),
                    ("const", format!("const {n} = 12;")),
                    ("enumerator", format!("enum zz9 {{ {n} = 1, ZZ_B = 0 }};")),
                    (
                        "arm",
                        format!(
                            "enum zy9 {{ {n} = 1, ZZ_B = 0 }}; union zz9 switch (zy9 k) {{ case {n}: int a; case ZZ_B: void; }};"
                        ),
                    ),
                    (
                        "arm",
                        format!(
                            "const {n} = 1; const ZZ_B = 0; union zz9 switch (int k) {{ case {n}: int a; case ZZ_B: void; }};"
                        ),
                    ),
                ] {
                    if matches!(part, "arm" | "enumerator")
                        && ["ZZ_B", "TRUE", "FALSE"].contains(&n.as_str())
                    {
                        continue;
                    }
                    runs.fetch_add(1, Relaxed);
                    guard::context(&format!("kind=gen\ncfg={}\nspec={text}\n", cfg.name()));
                    guard::input(&[]);
                    if let Some(w) = look(part, n, &text, cfg) {
                        let cell = Cell {
                            text: text.clone(),
                            cfg: *cfg,
                            refuse: false,
                            only: None,
                        };
                        early.lock().unwrap().push(Early {
                            key: format!("name/{}", cell.name()),
                            what: format!("{}: {w}", cell.name()),
                            cell,
                        });
                    }
                }
            }
        }
        guard::idle();
    });
    (runs.into_inner(), early.into_inner().unwrap())
}
fn look(part: &str, n: &str, text: &str, cfg: &Cfg) -> Option<String> {
    let code = match run(text, cfg) {
        Err(p) => return Some(p),
        Ok(End::Code(s)) => s,
        // words of the language are no names
        Ok(End::Unparsed) => {
            return idl::lang::parse_text(text)
                .is_ok()
                .then(|| "the parser refuses it".into());
        }
        Ok(End::Refused) => return Some("no code".into()),
    };
    let file = match syn::parse_file(&code) {
        Ok(f) => f,
        Err(x) => return Some(format!("not Rust: {x}")),
    };
    let item = |want: &str| {
        file.items
            .iter()
            .find(|i| item_name(i).is_some_and(|x| is_name(want, &x)))
    };
    let first = |i: &syn::Item| match i {
        syn::Item::Struct(s) => s.fields.iter().next().map(|f| {
            let t = &f.ty;
            (
                f.ident.as_ref().map(|i| i.to_string()).unwrap_or_default(),
                quote::quote!(#t).to_string(),
            )
        }),
        _ => None,
    };
    let bad = |what: &str| Some(format!("{what} in {code}"));
    match part {
        "type" | "alias" => {
            let Some(zz) = item("Zz9") else {
                return bad("no Zz9");
            };
            let (_, ty) = first(zz).unwrap_or_default();
            if part == "alias" && !cfg.aliases {
                return (ty != "i32").then(|| format!("field of type {ty} in {code}"));
            }
            let Some(i) = item(&camel(n)) else {
                return bad(&format!("no type {}", camel(n)));
            };
            (item_name(i)? != ty).then(|| format!("field of type {ty} in {code}"))
        }
        "field" => {
            let Some(zz) = item("Zz9") else {
                return bad("no Zz9");
            };
            let (f, _) = first(zz).unwrap_or_default();
            if is_name(&snake(n), &f) {
                None
            } else {
                bad(&format!("no field {}", snake(n)))
            }
        }
        "const" => match item(n) {
            Some(syn::Item::Const(_)) => None,
            _ => bad("no such constant"),
        },
        _ => {
            let Some(syn::Item::Enum(e)) = item("Zz9") else {
                return bad("no Zz9");
            };
            let hit = |want: &str| {
                e.variants
                    .iter()
                    .filter(|v| is_name(want, &v.ident.to_string()))
                    .count()
            };
            (hit(&camel(n)) != 1 || hit("ZzB") != 1)
                .then(|| format!("no variant {} in {code}", camel(n)))
        }
    }
}
