//! The families of interface files the generator checks enumerate.
use crate::world::*;

#[derive(Clone, Debug)]
pub struct Cell {
    pub text: String,
    pub cfg: Cfg,
    /// generating must end in an error
    pub refuse: bool,
    /// the types to look at (all if None)
    pub only: Option<Vec<String>>,
}
impl Cell {
    pub fn name(&self) -> String {
        format!("{} | {}", self.cfg.name(), self.text.replace('\n', "\\n"))
    }
}

pub fn cfg_by_name(n: &str) -> Cfg {
    let mut v = configs();
    v.extend(configs().into_iter().map(|c| Cfg { aliases: true, ..c }));
    v.into_iter()
        .find(|c| c.name() == n)
        .expect("configuration")
}
/// a replay looks at one cell, given in the environment
fn one() -> Vec<Cell> {
    let text = std::env::var("GEN_SPEC").unwrap().replace("\\n", "\n");
    let cfg = cfg_by_name(&std::env::var("GEN_CFG").unwrap());
    vec![Cell {
        text,
        cfg,
        refuse: std::env::var("GEN_REFUSE").is_ok(),
        only: None,
    }]
}
pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough")
}
pub fn of(id: &str) -> Vec<Cell> {
    let th = thorough();
    match id {
        "replay" => one(),
        "G01" => g01(th),
        "G02" => g02(th),
        "G03" => g03(th),
        "G04" => g04(th),
        "G06" => g06(th),
        "G08" => g08(th),
        "G09" => g09(th),
        _ => vec![],
    }
}

fn cell(cfg: Cfg, text: impl Into<String>) -> Cell {
    Cell {
        text: text.into(),
        cfg,
        refuse: false,
        only: None,
    }
}
fn look(cfg: Cfg, text: impl Into<String>, only: &[&str]) -> Cell {
    Cell {
        text: text.into(),
        cfg,
        refuse: false,
        only: Some(only.iter().map(|s| s.to_string()).collect()),
    }
}
fn refuse(cfg: Cfg, text: impl Into<String>) -> Cell {
    Cell {
        text: text.into(),
        cfg,
        refuse: true,
        only: None,
    }
}

pub const PRIMS: &[&str] = &[
    "int",
    "unsigned int",
    "hyper",
    "unsigned hyper",
    "float",
    "double",
    "bool",
    "char",
    "unsigned char",
    "short",
    "unsigned short",
];
/// named types and what they need
pub const NAMED: &[(&str, &str)] = &[
    ("col", "enum col { RED = 0, GREEN = 1, BLUE = 2 };"),
    ("sp", "enum sp { SB = 3, SA = 2, SC = 5 };"),
    ("pt", "struct pt { int x; unsigned hyper y; };"),
    (
        "un",
        "union un switch (int k) { case 0: int a; case 2: void; case 3: string s<>; };",
    ),
    (
        "bu",
        "union bu switch (bool k) { case TRUE: hyper a; case FALSE: void; };",
    ),
];
/// the ways to declare something called `n` of type `t`
pub fn forms(t: &str, n: &str) -> Vec<String> {
    vec![
        format!("{t} {n}"),
        format!("{t} *{n}"),
        format!("{t} {n}[2]"),
        format!("{t} {n}<>"),
        format!("{t} {n}<5>"),
    ]
}
pub fn blobs(n: &str) -> Vec<String> {
    vec![
        format!("opaque {n}[3]"),
        format!("opaque {n}[4]"),
        format!("opaque {n}<>"),
        format!("opaque {n}<7>"),
        format!("string {n}<>"),
        format!("string {n}<9>"),
    ]
}
/// one declaration of each kind
pub fn core(n: &str) -> Vec<String> {
    vec![
        format!("int {n}"),
        format!("unsigned hyper {n}"),
        format!("bool {n}"),
        format!("char {n}"),
        format!("unsigned short {n}"),
        format!("double {n}"),
        format!("float {n}"),
        format!("string {n}<>"),
        format!("opaque {n}[3]"),
        format!("opaque {n}<>"),
        format!("int {n}[2]"),
        format!("hyper {n}<>"),
        format!("short *{n}"),
        format!("col {n}"),
        format!("pt {n}"),
        format!("un {n}"),
    ]
}
fn tiny(n: &str) -> Vec<String> {
    vec![
        format!("int {n}"),
        format!("string {n}<>"),
        format!("opaque {n}[3]"),
        format!("unsigned hyper *{n}"),
        format!("opaque {n}<>"),
    ]
}
fn around() -> String {
    [0, 2, 3]
        .iter()
        .map(|i| NAMED[*i].1)
        .collect::<Vec<_>>()
        .join(" ")
}

/// ways of wiring enumerations: lists of distinct values of a pool, in every order
fn enum_lists(pool: &[&str], max: usize) -> Vec<Vec<String>> {
    let mut all: Vec<Vec<String>> = vec![];
    let mut layer: Vec<Vec<String>> = vec![vec![]];
    for _ in 0..max {
        layer = layer
            .iter()
            .flat_map(|l| {
                pool.iter()
                    .filter(|p| !l.contains(&p.to_string()))
                    .map(|p| {
                        let mut l = l.clone();
                        l.push(p.to_string());
                        l
                    })
            })
            .collect();
        all.extend(layer.clone());
    }
    all
}
fn enum_text(name: &str, pre: &str, l: &[String]) -> String {
    let a: Vec<String> = l
        .iter()
        .enumerate()
        .map(|(i, v)| format!("{pre}_{} = {v}", (b'A' + i as u8) as char))
        .collect();
    format!("enum {name} {{ {} }};", a.join(", "))
}
fn subsets<T: Clone>(l: &[T], min: usize, max: usize) -> Vec<Vec<T>> {
    let mut v = vec![];
    for m in 0u32..1 << l.len() {
        let n = m.count_ones() as usize;
        if n >= min && n <= max {
            v.push(
                (0..l.len())
                    .filter(|i| m >> i & 1 == 1)
                    .map(|i| l[i].clone())
                    .collect(),
            );
        }
    }
    v
}

// --- G02 --------------------------------------------------------------------------------------
fn g02(th: bool) -> Vec<Cell> {
    let c = |t: String| cell(DEFAULT, t);
    let mut v = vec![];
    for unions in [Unions::Complement, Unions::Indexer] {
        v.push(cell(
            Cfg { unions, ..DEFAULT },
            format!(
                "union u switch (int k) {{ case 0: int a; default: hyper b; }};{}",
                crate::emit::DEFAULTS
            ),
        ));
    }
    // every declaration alone, every type in every form
    for (i, p) in PRIMS.iter().enumerate() {
        let l: Vec<String> = forms(p, "a")
            .iter()
            .enumerate()
            .map(|(k, f)| format!("struct s{i}_{k} {{ {f}; }};"))
            .collect();
        v.push(c(l.join(" ")));
        v.push(c(format!(
            "struct a{i}z {{ {p} a[0]; {p} b[1]; {p} c[3]; }}; struct a{i}w {{ {p} a[32]; }};"
        )));
    }
    for (n, def) in NAMED {
        for f in forms(n, "a") {
            v.push(look(
                DEFAULT,
                format!("{def} struct s {{ {f}; int end; }};"),
                &["s"],
            ));
            v.push(look(
                DEFAULT,
                format!("struct s {{ {f}; int end; }}; {def}"),
                &["s"],
            ));
        }
        v.push(c(def.to_string()));
    }
    for b in blobs("a") {
        v.push(c(format!("struct s {{ {b}; int end; }};")));
        v.push(c(format!("struct s {{ hyper start; {b}; }};")));
    }
    for n in [0, 1, 2, 5, 7, 8, 16, 31, 32] {
        v.push(c(format!("struct s {{ opaque a[{n}]; int end; }};")));
    }
    // pairs and triples
    for (i, a) in core("a").iter().enumerate() {
        let l: Vec<String> = core("b")
            .iter()
            .enumerate()
            .map(|(k, b)| format!("struct p{i}_{k} {{ {a}; {b}; }};"))
            .collect();
        let names: Vec<String> = (0..l.len()).map(|k| format!("p{i}_{k}")).collect();
        let mut x = c(format!("{} {}", around(), l.join(" ")));
        x.only = Some(names);
        v.push(x);
    }
    for (i, a) in tiny("a").iter().enumerate() {
        let mut l = vec![];
        for (j, b) in tiny("b").iter().enumerate() {
            for (k, d) in tiny("c").iter().enumerate() {
                l.push(format!("struct t{i}_{j}_{k} {{ {a}; {b}; {d}; }};"));
            }
        }
        v.push(c(l.join(" ")));
    }
    if th {
        for (i, a) in core("a").iter().enumerate() {
            for (j, b) in core("b").iter().enumerate() {
                let mut l = vec![];
                let mut names = vec![];
                for (k, d) in core("c").iter().enumerate() {
                    l.push(format!("struct t{i}_{j}_{k} {{ {a}; {b}; {d}; }};"));
                    names.push(format!("t{i}_{j}_{k}"));
                }
                let mut x = c(format!("{} {}", around(), l.join(" ")));
                x.only = Some(names);
                v.push(x);
            }
        }
    }
    // wide
    for n in [8, 20, 64] {
        let k = core("x");
        let l: Vec<String> = (0..n)
            .map(|i| k[i % k.len()].replace('x', &format!("f{i}")))
            .collect();
        v.push(look(
            DEFAULT,
            format!("{} struct wide {{ {}; }};", around(), l.join("; ")),
            &["wide"],
        ));
        let l: Vec<String> = (0..n).map(|i| format!("W{i} = {}", i * 3 % 101)).collect();
        v.push(c(format!("enum wide {{ {} }};", l.join(", "))));
        let l: Vec<String> = (0..n)
            .map(|i| {
                format!(
                    "case {}: {};",
                    i * 2,
                    ["int a", "void", "string s<>", "hyper *h"][i % 4]
                )
            })
            .collect();
        v.push(c(format!(
            "enum ids {{ {} }}; union wide switch (ids k) {{ {} }};",
            (0..n)
                .map(|i| format!("I{i} = {}", i * 2))
                .collect::<Vec<_>>()
                .join(", "),
            l.iter()
                .enumerate()
                .map(|(i, s)| s.replacen(&format!("case {}:", i * 2), &format!("case I{i}:"), 1))
                .collect::<Vec<_>>()
                .join(" ")
        )));
    }
    // enumerations
    let pool = ["0", "1", "2", "5", "-1", "-3", "300"];
    for (i, l) in enum_lists(&pool, if th { 4 } else { 3 })
        .iter()
        .enumerate()
        .collect::<Vec<_>>()
        .chunks(12)
        .map(|c| c.to_vec())
        .enumerate()
    {
        let t: Vec<String> = l
            .iter()
            .map(|(k, l)| enum_text(&format!("e{k}"), &format!("E{k}"), l))
            .collect();
        let _ = i;
        v.push(c(t.join(" ")));
    }
    for l in [
        vec!["2147483647"],
        vec!["-2147483648"],
        vec!["0", "2147483647"],
        vec!["-2147483648", "2147483647"],
        vec!["65535", "65536"],
        vec!["70000", "1"],
        vec!["0x10", "020", "1"],
        vec!["0x7fffffff"],
        vec!["1000000"],
        vec!["0", "7", "1500", "1501"],
        vec!["2049", "1023", "1025", "511"],
        vec!["4097", "300"],
        vec!["8192"],
        vec!["8193", "8190"],
    ] {
        v.push(c(enum_text(
            "e",
            "E",
            &l.iter().map(|s| s.to_string()).collect::<Vec<_>>(),
        )));
    }
    v.push(c(
        "const K = 3; const H = 0x11; enum e { A = K, B = H, C = 0 };".into(),
    ));
    v.push(c(
        "enum e { A = 4, B = A2, C = 0 }; enum f { A2 = 7, D = A };".into(),
    ));
    // unions
    v.extend(unions(DEFAULT, th));
    // types within types, two levels
    v.extend(nests(DEFAULT, th));
    v.extend(recursive(DEFAULT));
    v
}
const ARMS: &[&str] = &[
    "void",
    "int a",
    "hyper a",
    "bool a",
    "string a<>",
    "opaque a[5]",
    "opaque a<>",
    "int a[2]",
    "unsigned short a<>",
    "unsigned char *a",
    "pt a",
    "pt *a",
    "col a",
    "col a<>",
    "sp a[2]",
    "bu a",
];
fn unions(cfg: Cfg, th: bool) -> Vec<Cell> {
    let mut v = vec![];
    let env = format!("{} {} {}", around(), NAMED[1].1, NAMED[4].1);
    // every arm under every kind of discriminant
    for (i, a) in ARMS.iter().enumerate() {
        let mut l = vec![];
        let mut only = vec![];
        for (k, (d, one, two)) in [
            ("int", "0", "1"),
            ("unsigned int", "1", "0"),
            ("bool", "TRUE", "FALSE"),
            ("col", "RED", "BLUE"),
            ("sp", "SC", "SA"),
            ("int", "7", "3"),
        ]
        .iter()
        .enumerate()
        {
            for (j, b) in ["void", "string z<>", "hyper z"].iter().enumerate() {
                l.push(format!(
                    "union u{i}_{k}_{j} switch ({d} k) {{ case {one}: {a}; case {two}: {b}; }};"
                ));
                only.push(format!("u{i}_{k}_{j}"));
            }
        }
        let mut x = cell(cfg, format!("{env} {}", l.join(" ")));
        x.only = Some(only);
        v.push(x);
    }
    // case sets, in every order, one arm for several labels
    let sets = enum_lists(&["0", "1", "2", "4", "9"], 3);
    for d in ["int", "unsigned int"] {
        for (k, ch) in sets.chunks(10).enumerate() {
            let t: Vec<String> = ch
                .iter()
                .enumerate()
                .map(|(j, l)| {
                    let arms: Vec<String> = l
                        .iter()
                        .enumerate()
                        .map(|(i, n)| {
                            format!("case {n}: {};", ["int a", "string b<>", "void"][i % 3])
                        })
                        .collect();
                    format!("union u{k}_{j} switch ({d} k) {{ {} }};", arms.join(" "))
                })
                .collect();
            v.push(cell(cfg, t.join(" ")));
        }
    }
    // through names: constants and enumerators, shared arms
    let pre = "const K0 = 0; const K1 = 0x1; const K5 = 05; enum en { EA = 0, EB = 1, EC = 2, ED = 6, EE = 7 };";
    for (labels, d) in [
        (["K0", "K1", "K5"], "int"),
        (["K5", "K0", "K1"], "unsigned int"),
        (["EA", "EC", "ED"], "en"),
        (["EE", "EB", "EA"], "en"),
    ] {
        let [a, b, c] = labels;
        let mut t = vec![];
        for (i, s) in [
            format!("case {a}: int x; case {b}: void; case {c}: string y<>;"),
            format!("case {a}: case {b}: int x; case {c}: void;"),
            format!("case {a}: void; case {b}: case {c}: hyper x;"),
            format!("case {c}: case {a}: case {b}: string x<>;"),
            format!("case {b}: int x;"),
        ]
        .iter()
        .enumerate()
        {
            t.push(format!("union u{i} switch ({d} k) {{ {s} }};"));
        }
        v.push(cell(cfg, format!("{pre} {}", t.join(" "))));
        v.push(cell(cfg, format!("{} {pre}", t.join(" "))));
    }
    for s in [
        "case TRUE: int a;",
        "case FALSE: int a;",
        "case FALSE: void; case TRUE: void;",
        "case TRUE: case FALSE: int a;",
        "case TRUE: string a<>; case FALSE: opaque a[2];",
    ] {
        v.push(cell(cfg, format!("union u switch (bool b) {{ {s} }};")));
    }
    // an enumeration with negative or large values as discriminant
    v.push(cell(cfg, "enum ng { NA = -4, NB = 0, NC = 3 }; union u switch (ng k) { case NB: int a; case NC: void; };"));
    v.push(cell(cfg, "enum big { BA = 0, BB = 1000 }; union u switch (big k) { case BA: int a; case BB: hyper b; };"));
    v.push(cell(
        cfg,
        "union u switch (int k) { case 0: int a; case 5000: hyper b; };",
    ));
    v.push(cell(cfg, "union u switch (int k) { case 0: int a; case 7: void; case 1501: hyper b; case 1500: string c<>; };"));
    v.push(cell(cfg, "union u switch (unsigned int k) { case 2049: int a; case 1023: void; case 1025: hyper b; case 511: string c<>; };"));
    v.push(cell(cfg, "enum far { FA = 0, FB = 1100, FC = 2300 }; union u switch (far k) { case FC: int a; case FB: void; };"));
    if cfg.unions == Unions::Complement {
        v.push(cell(
            cfg,
            "union u switch (int k) { case 8192: int a; case 8190: void; };",
        ));
    }
    // numbers as labels of an enumeration
    v.push(cell(cfg, "enum en { EA = 0, EB = 1, EC = 2 }; union u switch (en k) { case 0: int a; case 2: void; };"));
    if th {
        for (k, ch) in subsets(&["0", "1", "2", "3", "4", "5", "6"], 1, 7)
            .chunks(12)
            .enumerate()
        {
            let t: Vec<String> = ch
                .iter()
                .enumerate()
                .map(|(j, l)| {
                    let arms: Vec<String> = l
                        .iter()
                        .enumerate()
                        .map(|(i, n)| format!("case {n}: {};", ARMS[(i * 3 + j) % ARMS.len()]))
                        .collect();
                    format!("union u{k}_{j} switch (int k) {{ {} }};", arms.join(" "))
                })
                .collect();
            v.push(cell(cfg, format!("{env} {}", t.join(" "))));
        }
    }
    v
}
/// named types in every position of structures and unions that are themselves in every position
fn nests(cfg: Cfg, th: bool) -> Vec<Cell> {
    let mut v = vec![];
    let inner: Vec<(&str, &str)> = if th {
        NAMED.to_vec()
    } else {
        NAMED.iter().copied().filter(|n| n.0 != "bu").collect()
    };
    for (n, def) in inner {
        for (i, f) in forms(n, "a").iter().enumerate().filter(|x| x.0 != 4) {
            let mids = [
                format!("struct mid {{ short s; {f}; }};"),
                format!("union mid switch (unsigned int k) {{ case 1: {f}; case 0: void; }};"),
            ];
            for (j, mid) in mids.iter().enumerate() {
                let outs: Vec<String> = forms("mid", "m")
                    .iter()
                    .enumerate()
                    .filter(|x| x.0 != 4)
                    .map(|(k, g)| format!("struct o{i}{j}{k} {{ {g}; string end<>; }}; union q{i}{j}{k} switch (bool b) {{ case TRUE: {g}; case FALSE: int z; }};"))
                    .collect();
                v.push(cell(cfg, format!("{def} {mid} {}", outs.join(" "))));
            }
        }
    }
    v
}
fn recursive(cfg: Cfg) -> Vec<Cell> {
    let mut v = vec![];
    for t in [
        "struct node { int v; node *next; };",
        "struct node { node *next; int v; };",
        "struct node { string v<>; node *next; opaque z[3]; };",
        "struct node { node *l; int v; node *r; };",
        "struct tree { int v; tree kids<>; };",
        "struct tree { tree kids<>; hyper v; };",
        "struct tree { tree kids<4>; };",
        "struct a { int x; b *y; }; struct b { hyper z; a *w; };",
        "struct b { hyper z; a *w; }; struct a { int x; b *y; };",
        "struct a { b *y; }; struct b { a w<>; };",
        "struct a { b y<>; int e; }; struct b { c *w; short s; }; struct c { a *z; };",
        "struct node { int v; nodes rest; }; typedef node *nodes;",
        "typedef node *nodes; struct node { int v; nodes rest; };",
        "typedef node nodes<>; struct node { int v; nodes rest; };",
        "typedef struct_node *nodes; struct struct_node { nodes l; nodes r; };",
        "typedef node alias; struct node { alias *n; int v; };",
        "typedef node *n1; typedef n1 n2; struct node { n2 n; int v; };",
        "union list switch (bool more) { case TRUE: cell c; case FALSE: void; }; struct cell { int v; list *next; };",
        "union u switch (int k) { case 0: void; case 1: u *n; };",
        "union u switch (int k) { case 0: void; case 1: u n<>; };",
        "union u switch (int k) { case 0: int z; case 1: s *n; }; struct s { u a; short b; };",
        "union u switch (int k) { case 0: int z; case 2: s n; }; struct s { hyper b; u a; };",
        "union u switch (bool k) { case FALSE: void; case TRUE: s n; }; struct s { hyper b; u a; };",
        "union u switch (int k) { case 0: void; case 1: u n; };",
        "union u switch (bool k) { case FALSE: void; case TRUE: u n; };",
        "struct s { int a; u b; }; union u switch (int k) { case 0: void; case 1: s t<>; };",
        "struct a { a *p; b *q; }; struct b { a *r; b *s; };",
    ] {
        v.push(cell(cfg, t));
    }
    // cycles through many types: where the optional part is, what it is, in both orders
    for n in [2usize, 3, 4, 5, 6, 8, 11] {
        let mut k = 0;
        let mut l = vec![];
        for form in 0..4 {
            for at in [0, n / 2, n - 1] {
                k += 1;
                for i in 0..n {
                    let next = format!("c{k}x{}", (i + 1) % n);
                    l.push(match (i == at, form) {
                        (true, 0) => format!("struct c{k}x{i} {{ int v; {next} *n; }};"),
                        (true, 1) => format!("struct c{k}x{i} {{ {next} n<>; short v; }};"),
                        (true, 2) => format!("union c{k}x{i} switch (bool b) {{ case FALSE: void; case TRUE: {next} n; }};"),
                        (true, _) => format!("typedef {next} *t{k}; struct c{k}x{i} {{ int v; t{k} n; }};"),
                        (_, 1) if i % 2 == 0 => format!("struct c{k}x{i} {{ {next} n; }};"),
                        (_, 3) if i % 2 == 0 => format!("typedef {next} u{k}x{i}; typedef u{k}x{i} w{k}x{i}; struct c{k}x{i} {{ w{k}x{i} n; bool v; }};"),
                        _ => format!("struct c{k}x{i} {{ {next} n; bool v; }};"),
                    });
                }
                // leads into the cycle, is no part of it
                l.push(format!(
                    "struct d{k} {{ c{k}x0 a; e{k} b; }}; struct e{k} {{ int x; c{k}x{} *y; }};",
                    n - 1
                ));
            }
        }
        if n % 2 == 1 {
            l.reverse();
        }
        v.push(cell(cfg, l.join(" ")));
    }
    v.extend(cycles(cfg));
    // two cycles through one type
    v.push(cell(cfg, "struct m { a l; b r; int v; }; struct a { c x; }; struct c { d x; }; struct d { e x; }; struct e { m *x; }; struct b { f x; }; struct f { g x; }; struct g { m x<>; };"));
    v
}

/// Cycles of two and three types: every way each of them can hold the next, among other members
/// of every kind.
fn cycles(cfg: Cfg) -> Vec<Cell> {
    const FILL: &[&str] = &[
        "int",
        "hyper v[2]",
        "oth v",
        "short v<>",
        "oth v<>",
        "bool *v",
        "oth *v",
        "string v<>",
        "opaque v[3]",
        "opaque v<>",
        "oth v[2]",
    ];
    let forms = if cfg.unions == Unions::Union { 8 } else { 6 };
    let mut all: Vec<Vec<usize>> = vec![];
    for a in 0..forms {
        for b in 0..forms {
            all.push(vec![a, b]);
            for c in 0..forms {
                // a rotation of the same cycle is taken once
                if thorough() || (a <= b && a <= c && (a + b + c) % 2 == 0) {
                    all.push(vec![a, b, c]);
                }
            }
        }
    }
    // something has to end the cycle
    all.retain(|f| f.iter().any(|x| ![0, 5].contains(x)));
    let mut v = vec![];
    for (k, chunk) in all.chunks(24).enumerate() {
        let mut l = vec!["struct oth { int a; bool b; };".to_string()];
        for (j, f) in chunk.iter().enumerate() {
            for (i, form) in f.iter().enumerate() {
                let (me, next) = (format!("c{j}x{i}"), format!("c{j}x{}", (i + 1) % f.len()));
                let fill = |at: usize| {
                    let t = FILL[(k * 24 + j + 3 * i + at) % FILL.len()];
                    let (t, d) = t.split_once(' ').unwrap_or((t, "v"));
                    format!("{t} {}", d.replace('v', &format!("v{at}")))
                };
                let (x, y, z) = (fill(0), fill(1), fill(5));
                l.push(match form {
                    0 => format!("struct {me} {{ {x}; {next} n; {y}; }};"),
                    1 => format!("struct {me} {{ {x}; {next} *n; {y}; }};"),
                    2 => format!("struct {me} {{ {x}; {next} n<>; {y}; }};"),
                    3 => format!("union {me} switch (int k) {{ case 0: {x}; case 1: {next} n; case 2: {y}; }};"),
                    4 => format!("union {me} switch (bool k) {{ case TRUE: {next} *n; case FALSE: {x}; }};"),
                    5 => format!("typedef {next} w{me}; struct {me} {{ {y}; w{me} n; {z}; }};"),
                    6 => format!("union {me} switch (int k) {{ case 0: {x}; case 3: {y}; default: {next} n; }};"),
                    _ => format!("union {me} switch (unsigned int k) {{ case 0: {x}; default: {next} *n; }};"),
                });
            }
        }
        if k % 2 == 1 {
            l.reverse();
        }
        v.push(cell(cfg, l.join(" ")));
    }
    v
}

// --- G01 --------------------------------------------------------------------------------------
const NUMBERS: &[&str] = &[
    "0",
    "1",
    "7",
    "8",
    "9",
    "10",
    "15",
    "16",
    "17",
    "31",
    "32",
    "63",
    "64",
    "100",
    "127",
    "128",
    "255",
    "256",
    "1000",
    "32767",
    "32768",
    "65535",
    "65536",
    "2147483646",
    "2147483647",
];
const BIG: &[&str] = &["2147483648", "3000000000", "4294967294", "4294967295"];
const HUGE: &[&str] = &[
    "4294967296",
    "4294967297",
    "8589934592",
    "9223372036854775807",
    "9223372036854775808",
    "18446744073709551615",
];
const TOO_BIG: &[&str] = &[
    "18446744073709551616",
    "36893488147419103232",
    "340282366920938463463374607431768211456",
];
fn spellings(n: &str) -> Vec<String> {
    let v: u128 = match n.parse() {
        Ok(v) => v,
        Err(_) => {
            return vec![
                n.into(),
                "0x100000000000000000000000000000000".into(),
                "04000000000000000000000000000000000000000000".into(),
            ];
        }
    };
    let mut o = vec![
        n.to_string(),
        format!("0x{v:x}"),
        format!("0x{v:X}"),
        format!("0x00{v:x}"),
    ];
    if v > 0 {
        o.push(format!("0{v:o}"));
        o.push(format!("000{v:o}"));
    }
    o.dedup();
    o
}
/// names that differ in little
fn alike() -> Vec<String> {
    let mut v = vec![];
    let letters = ["A", "a", "_", "1"];
    for x in letters {
        for y in ["", "A", "a", "_", "1"] {
            for z in ["", "A", "a", "_", "1"] {
                let n = format!("{x}{y}{z}");
                if x != "1" && n != "_" && !(y.is_empty() && !z.is_empty()) {
                    v.push(n);
                }
            }
        }
    }
    v.extend(
        [
            "K", "KK", "KKK", "K_K", "K__K", "k_k", "kk", "K10", "K1_0", "XK", "X_K", "K_X", "KX",
        ]
        .map(|s| s.to_string()),
    );
    v
}
fn g01(th: bool) -> Vec<Cell> {
    let mut v = vec![];
    let c = |t: String| cell(DEFAULT, t);
    let fits: Vec<String> = NUMBERS.iter().flat_map(|n| spellings(n)).collect();
    let big: Vec<String> = BIG.iter().flat_map(|n| spellings(n)).collect();
    let huge: Vec<String> = HUGE.iter().flat_map(|n| spellings(n)).collect();
    let over: Vec<String> = TOO_BIG.iter().flat_map(|n| spellings(n)).collect();
    // constants
    let all: Vec<&String> = fits.iter().chain(&big).chain(&huge).collect();
    for (i, ch) in all.chunks(30).enumerate() {
        let l: Vec<String> = ch
            .iter()
            .enumerate()
            .map(|(k, n)| format!("const K{i}_{k} = {n};"))
            .collect();
        v.push(c(l.join(" ")));
    }
    if th {
        // every number of a range, in three bases
        for b in 0..40u32 {
            let l: Vec<String> = (b * 60..b * 60 + 60)
                .flat_map(|n| {
                    [
                        format!("const D{n} = {n};"),
                        format!("const H{n} = 0x{n:x};"),
                        format!("const O{n} = 0{n:o};"),
                    ]
                })
                .collect();
            v.push(c(l.join(" ")));
        }
    } else {
        for b in 0..6u32 {
            let l: Vec<String> = (b * 60..b * 60 + 60)
                .flat_map(|n| {
                    [
                        format!("const D{n} = {n};"),
                        format!("const H{n} = 0x{n:x};"),
                        format!("const O{n} = 0{n:o};"),
                    ]
                })
                .collect();
            v.push(c(l.join(" ")));
        }
    }
    for n in &over {
        v.push(refuse(DEFAULT, format!("const K = {n};")));
    }
    // named: chains of constants and enumerators, in both orders
    for (i, n) in [
        "5",
        "0x1F",
        "017",
        "2147483647",
        "4294967295",
        "18446744073709551615",
    ]
    .iter()
    .enumerate()
    {
        v.push(c(format!(
            "const A{i} = {n}; const B{i} = A{i}; const C{i} = B{i};"
        )));
        v.push(c(format!(
            "const C{i} = B{i}; const B{i} = A{i}; const A{i} = {n};"
        )));
    }
    // long chains, both ways and mixed, to a constant and to an enumerator, used at the far end
    for n in [3usize, 6, 9, 14, 20, 33, 70, 150] {
        for (b, base) in ["const C0 = 0x1A;", "enum z { Y0 = 3, C0 = 032 };"]
            .iter()
            .enumerate()
        {
            let mut l: Vec<String> = (1..n)
                .map(|i| format!("const C{i} = C{};", i - 1))
                .collect();
            l.push(base.to_string());
            let e = n - 1;
            l.push(format!(
                "struct s {{ opaque a[C{e}]; short b[C{}]; }};",
                e / 2
            ));
            l.push(format!("enum e {{ E = C{e}, F = 1 }};"));
            l.push(format!(
                "union u switch (int k) {{ case C{e}: int a; case 3: void; }};"
            ));
            match (n + b) % 3 {
                0 => {}
                1 => l.reverse(),
                _ => {
                    let odd: Vec<String> = l.iter().skip(1).step_by(2).cloned().collect();
                    l = l.into_iter().step_by(2).chain(odd).collect();
                }
            }
            v.push(c(l.join(" ")));
        }
        // enumerators by way of constants and of each other
        let l: Vec<String> = (1..n)
            .map(|i| {
                if i % 3 == 1 {
                    format!("enum e{i} {{ N{i} = N{} }};", i - 1)
                } else {
                    format!("const N{i} = N{};", i - 1)
                }
            })
            .collect();
        v.push(c(format!(
            "const N0 = 9; {} struct s {{ int a[N{}]; }};",
            l.join(" "),
            n - 1
        )));
        // round and round
        let l: Vec<String> = (0..n)
            .map(|i| format!("const C{i} = C{};", (i + 1) % n))
            .collect();
        v.push(refuse(DEFAULT, l.join(" ")));
        v.push(refuse(
            DEFAULT,
            format!("const X = C0; {} enum e {{ A = X }};", l.join(" ")),
        ));
    }
    v.push(c(
        "enum e { EA = 3, EB = 0x20 }; const K = EB; const L = K;".into(),
    ));
    v.push(c(
        "const L = K; const K = EB; enum e { EA = 3, EB = 0x20 };".into(),
    ));
    for w in [
        "const K = K;",
        "const K = K; struct s { int a; };",
        "const K = L; const L = K;",
    ] {
        v.push(refuse(DEFAULT, w));
    }
    // enumerators: three enumeration styles
    for enums in [Enums::Complement, Enums::Std, Enums::Indexer] {
        let cfg = Cfg { enums, ..DEFAULT };
        let mut l = vec![];
        for (k, n) in fits.iter().enumerate() {
            l.push(format!("enum e{k} {{ E{k} = {n} }};"));
        }
        for (k, n) in ["-1", "-8", "-255", "-32769", "-2147483647", "-2147483648"]
            .iter()
            .enumerate()
        {
            l.push(format!("enum n{k} {{ N{k} = {n} }};"));
        }
        for (k, n) in ["K0", "K1", "K2", "K3"].iter().enumerate() {
            l.push(format!("enum c{k} {{ C{k} = {n} }};"));
        }
        l.push("const K0 = 12; const K1 = K0; const K2 = 0xA; const K3 = X1; enum x { X0 = 1, X1 = X2, X2 = 014 };".into());
        for ch in l.chunks(24) {
            let mut t = ch.join(" ");
            if t.contains("= K") && !t.contains("const") {
                t.push_str(" const K0 = 12; const K1 = K0; const K2 = 0xA; const K3 = X1; enum x { X0 = 1, X1 = X2, X2 = 014 };");
            }
            v.push(cell(cfg, t));
        }
        for n in big.iter().chain(&huge).chain(&over) {
            v.push(refuse(cfg, format!("enum e {{ A = {n} }};")));
            v.push(refuse(
                cfg,
                format!("enum e {{ A = 1, B = K }}; const K = {n};"),
            ));
        }
        for n in ["-2147483649", "-4294967296", "-9999999999999999999999"] {
            v.push(refuse(cfg, format!("enum e {{ A = {n} }};")));
        }
        for w in [
            "enum e { A = NONE };",
            "enum e { A = A };",
            "enum e { A = B, B = A };",
            "enum e { A = K }; const K = A;",
            "enum e { A = K }; const K = NONE;",
        ] {
            v.push(refuse(cfg, w));
        }
    }
    // array lengths
    for n in [0u32, 1, 2, 3, 7, 8, 9, 10, 15, 16, 17, 31, 32] {
        let mut l = vec![];
        for (k, s) in spellings(&n.to_string()).iter().enumerate() {
            l.push(format!("struct s{k} {{ int a[{s}]; opaque b[{s}]; }};"));
            l.push(format!(
                "const K{k} = {s}; struct t{k} {{ short a[K{k}]; opaque b[K{k}]; }};"
            ));
            l.push(format!(
                "enum e{k} {{ X{k} = {s} }}; struct u{k} {{ bool a[X{k}]; opaque b[X{k}]; }};"
            ));
            l.push(format!(
                "const L{k} = K{k}; struct v{k} {{ char a[L{k}]; opaque b[L{k}]; }};"
            ));
            l.push(format!(
                "const M{k} = X{k}; struct w{k} {{ hyper a[M{k}]; opaque b[M{k}]; }};"
            ));
        }
        v.push(c(l.join(" ")));
        l.reverse();
        v.push(c(l.join(" ")));
    }
    // names that differ in little, each with a value of its own, told apart at every use
    for (k, l) in alike().chunks(31).enumerate() {
        let n = l.len();
        let value = |i: usize| (i * 5 + k) % 29 + 1;
        let uses = |t: &mut String| {
            for (i, x) in l.iter().enumerate() {
                *t += &format!(
                    " const Q{i} = {x}; const R{i} = Q{i}; struct s{i} {{ opaque a[{x}]; char b[R{i}]; }};"
                );
                *t += &format!(
                    " enum e{i} {{ E{i} = {x}, F{i} = 100 }}; union u{i} switch (int k) {{ case {x}: int a; case R{}: void; }};",
                    (i + 1) % n
                );
            }
        };
        // numbers; chains, both ways
        let mut t = String::new();
        for (i, x) in l.iter().enumerate() {
            t += &format!(" const {x} = {};", value(i));
        }
        uses(&mut t);
        v.push(c(t));
        for back in [false, true] {
            let mut t = String::new();
            for (i, x) in l.iter().enumerate() {
                let j = if back { (i + n - 1) % n } else { (i + 1) % n };
                // labels of one union differ: two steps of a chain share their value
                if i % 3 == 0 {
                    t += &format!(" const {x} = {};", value(i));
                } else {
                    t += &format!(" const {x} = {};", l[j]);
                }
            }
            for (i, x) in l.iter().enumerate() {
                t += &format!(
                    " const Q{i} = {x}; struct s{i} {{ opaque a[{x}]; char b[Q{i}]; }}; enum e{i} {{ E{i} = {x}, F{i} = 100 }};"
                );
                t += &format!(" union u{i} switch (int k) {{ case {x}: int a; }};");
            }
            v.push(c(t));
        }
    }
    // a maximum is no length
    v.push(c("const MAX = 0x3; struct s { int a<MAX>; opaque b<MAX>; string c<MAX>; int d<0x2>; opaque e<02>; string f<2>; };".into()));
    for n in over.iter() {
        v.push(refuse(DEFAULT, format!("struct s {{ int a[{n}]; }};")));
        v.push(refuse(DEFAULT, format!("struct s {{ opaque a[{n}]; }};")));
    }
    for n in ["-1", "-2147483648"] {
        v.push(refuse(DEFAULT, format!("struct s {{ int a[{n}]; }};")));
        v.push(refuse(DEFAULT, format!("struct s {{ opaque a[{n}]; }};")));
        v.push(refuse(
            DEFAULT,
            format!("enum e {{ A = {n} }}; struct s {{ int a[A]; }};"),
        ));
        v.push(refuse(
            DEFAULT,
            format!("enum e {{ A = {n} }}; struct s {{ opaque a[A]; }};"),
        ));
    }
    // a name the file does not define is one of the code around it
    for n in ["0", "3", "17", "32"] {
        let around = format!("\n%const NONE = {n};\n");
        for named in ["", "const K = NONE;"] {
            let w = "NONE";
            for d in [
                "int a[W]",
                "opaque a[W]",
                "string a<W>",
                "opaque a<W>",
                "hyper a<W>",
                "bool a[W]",
            ] {
                let d = d.replace('W', w);
                v.push(c(format!("{named} struct s {{ {d}; short e; }};{around}")));
                v.push(c(format!("struct s {{ {d}; }}; {named}{around}")));
                v.push(c(format!(
                    "union u switch (int k) {{ case 0: {d}; }}; {named}{around}"
                )));
                v.push(c(format!(
                    "typedef {}; struct s {{ t x; }}; {named}{around}",
                    d.replace(" a[", " t[").replace(" a<", " t<")
                )));
            }
        }
    }
    for w in ["L", "M"] {
        for d in ["int a[W]", "opaque a[W]"] {
            let d = d.replace('W', w);
            let l = "const L = L2; const L2 = L; const M = L;";
            v.push(refuse(DEFAULT, format!("struct s {{ {d}; }}; {l}")));
            v.push(refuse(
                DEFAULT,
                format!("{l} union u switch (int k) {{ case 0: {d}; }};"),
            ));
            v.push(refuse(
                DEFAULT,
                format!(
                    "{l} typedef {}; struct s {{ t x; }};",
                    d.replace(" a[", " t[")
                ),
            ));
        }
    }
    // case labels
    for unions in [Unions::Complement, Unions::Indexer, Unions::Union] {
        let cfg = Cfg { unions, ..DEFAULT };
        for d in ["int", "unsigned int"] {
            for (k, n) in [
                "0", "1", "7", "8", "9", "10", "16", "63", "64", "255", "256", "1000", "32768",
            ]
            .iter()
            .enumerate()
            {
                if unions == Unions::Complement && k > 11 {
                    continue;
                }
                let mut l = vec![];
                for (j, s) in spellings(n).iter().enumerate() {
                    l.push(format!("union u{j} switch ({d} k) {{ case {s}: int a; }};"));
                    l.push(format!(
                        "const K{j} = {s}; union v{j} switch ({d} k) {{ case K{j}: int a; }};"
                    ));
                    l.push(format!("enum e{j} {{ X{j} = {s} }}; union w{j} switch ({d} k) {{ case X{j}: int a; }};"));
                    l.push(format!(
                        "union x{j} switch (e{j} k) {{ case X{j}: int a; }};"
                    ));
                    l.push(format!(
                        "const L{j} = X{j}; union y{j} switch ({d} k) {{ case L{j}: int a; }};"
                    ));
                }
                v.push(cell(cfg, l.join(" ")));
            }
            if unions != Unions::Complement {
                for n in ["65535", "65536", "2147483647"] {
                    v.push(cell(
                        cfg,
                        format!("union u switch ({d} k) {{ case {n}: int a; case 0x3: void; }};"),
                    ));
                }
            }
            for n in huge.iter().chain(&over) {
                v.push(refuse(
                    cfg,
                    format!("union u switch ({d} k) {{ case {n}: int a; }};"),
                ));
            }
            for w in ["NONE", "K", "L"] {
                v.push(refuse(cfg, format!("union u switch ({d} k) {{ case {w}: int a; }}; const L = L2; const L2 = L; const K = NO;")));
                v.push(refuse(
                    cfg,
                    format!("union u switch ({d} k) {{ case {w}: int a; }};"),
                ));
                v.push(refuse(
                    cfg,
                    format!("union u switch ({d} k) {{ case 1: case {w}: int a; }};"),
                ));
            }
        }
        for n in &big {
            v.push(refuse(
                cfg,
                format!("union u switch (int k) {{ case {n}: int a; }};"),
            ));
        }
        if unions == Unions::Union {
            for n in BIG {
                v.push(cell(
                    cfg,
                    format!(
                        "union u switch (unsigned int k) {{ case {n}: int a; case 0: void; }};"
                    ),
                ));
            }
        }
        for w in ["NONE", "TRUE", "K"] {
            v.push(refuse(
                cfg,
                format!("enum e {{ A = 0 }}; union u switch (e k) {{ case {w}: int a; }};"),
            ));
        }
        for w in ["NONE", "2", "A"] {
            v.push(refuse(
                cfg,
                format!("enum e {{ A = 0 }}; union u switch (bool k) {{ case {w}: int a; }};"),
            ));
            v.push(refuse(cfg, format!("enum e {{ A = 0 }}; union u switch (bool k) {{ case TRUE: int a; case {w}: int a; }};")));
        }
    }
    v
}

// --- G03 --------------------------------------------------------------------------------------
/// every position a type can be in
fn positions(t: &str) -> Vec<(&'static str, String)> {
    vec![
        ("field", format!("struct s {{ {t} a; int e; }};")),
        ("last", format!("struct s {{ int b; {t} a; }};")),
        ("two", format!("struct s {{ {t} a; {t} b; }};")),
        ("optional", format!("struct s {{ {t} *a; int e; }};")),
        ("fixed", format!("struct s {{ {t} a[2]; int e; }};")),
        ("variable", format!("struct s {{ {t} a<>; int e; }};")),
        ("bounded", format!("struct s {{ {t} a<3>; int e; }};")),
        (
            "arm",
            format!("union s switch (int k) {{ case 0: {t} a; case 1: void; }};"),
        ),
        (
            "bool-arm",
            format!("union s switch (bool k) {{ case TRUE: {t} a; case FALSE: void; }};"),
        ),
        (
            "arm-optional",
            format!("union s switch (int k) {{ case 0: {t} *a; case 1: int b; }};"),
        ),
        (
            "arm-fixed",
            format!("union s switch (int k) {{ case 0: {t} a[2]; case 1: void; }};"),
        ),
        (
            "arm-variable",
            format!("union s switch (int k) {{ case 0: {t} a<>; case 1: void; }};"),
        ),
        (
            "enum-arm",
            format!(
                "enum sel {{ S0 = 0, S1 = 1, S4 = 4 }}; union s switch (sel k) {{ case S0: {t} a; case S4: void; case S1: {t} b<>; }};"
            ),
        ),
    ]
}
fn defaults(t: &str) -> Vec<(&'static str, String)> {
    vec![
        (
            "default",
            format!("union s switch (int k) {{ case 1: int b; default: {t} a; }};"),
        ),
        (
            "default-variable",
            format!("union s switch (unsigned int k) {{ case 1: void; default: {t} a<>; }};"),
        ),
        (
            "default-fixed",
            format!("union s switch (unsigned int k) {{ case 1: void; default: {t} a[2]; }};"),
        ),
        (
            "default-optional",
            format!("union s switch (unsigned int k) {{ case 0: void; default: {t} *a; }};"),
        ),
        (
            "default-enum",
            format!(
                "enum sel {{ S0 = 0, S1 = 1, S4 = 4 }}; union s switch (sel k) {{ case S1: hyper b; default: {t} a; }};"
            ),
        ),
    ]
}
const TYPES: &[(&str, &str)] = &[
    ("col", "enum col { RED = 0, GREEN = 1, BLUE = 2 };"),
    ("sp", "enum sp { SB = 3, SA = 2, SC = 5 };"),
    ("ng", "enum ng { NA = -2, NB = 4, NC = 0 };"),
    (
        "hi",
        "enum hi { HA = 2147483647, HB = -2147483648, HC = 1 };",
    ),
    ("one", "enum one { OA = 7 };"),
    (
        "iu",
        "union iu switch (int k) { case 0: int a; case 3: void; case 1: string s<>; };",
    ),
    (
        "uu",
        "union uu switch (unsigned int k) { case 2: hyper a; case 9: void; };",
    ),
    (
        "bu",
        "union bu switch (bool k) { case TRUE: short a; case FALSE: void; };",
    ),
    (
        "eu",
        "enum ek { EK_A = 1, EK_B = 4, EK_C = 0 }; union eu switch (ek k) { case EK_A: int a; case EK_B: void; };",
    ),
    (
        "ou",
        "union ou switch (int k) { case 0: opaque a[3]; case 1: opaque b<>; case 2: void; };",
    ),
    ("kf", "typedef opaque kf[5];"),
    ("kv", "typedef opaque kv<>;"),
    ("km", "typedef opaque km<8>;"),
    ("str", "typedef string str<>;"),
    ("ro", "typedef kf0 ro[2]; typedef opaque kf0[3];"),
    ("op", "typedef kf1 *op; typedef opaque kf1[6];"),
    ("vo", "typedef kv1 vo<>; typedef opaque kv1<>;"),
];
fn looks(def: &str, pos: &str, cfg: Cfg) -> Cell {
    look(cfg, format!("{def} {pos}"), &["s"])
}
fn g03(th: bool) -> Vec<Cell> {
    let mut v = vec![];
    for cfg in configs() {
        for (_, def) in TYPES {
            v.push(cell(cfg, *def));
        }
        for (t, def) in TYPES {
            for (_, p) in positions(t) {
                v.push(looks(def, &p, cfg));
            }
            for (_, p) in defaults(t) {
                v.push(looks(def, &p, cfg));
            }
        }
        // opaque itself
        for (i, b) in blobs("a").iter().enumerate() {
            let mut t = vec![
                format!("struct s{i} {{ {b}; int e; }};"),
                format!("union u{i} switch (int k) {{ case 1: {b}; case 0: void; }};"),
                format!("union b{i} switch (bool k) {{ case TRUE: {b}; case FALSE: void; }};"),
            ];
            {
                t.push(format!(
                    "union d{i} switch (int k) {{ case 1: int z; default: {b}; }};"
                ));
                t.push(format!(
                    "union e{i} switch (unsigned int k) {{ case 0: {b}; default: void; }};"
                ));
            }
            v.push(cell(cfg, t.join(" ")));
        }
        // discriminants
        v.extend(discriminants(cfg));
        v.extend(recursive(cfg));
        if th {
            v.extend(unions(cfg, false));
            v.extend(nests(cfg, false));
            // two positions together, every ordered pair of types
            for (t, def) in TYPES {
                for (u, def2) in TYPES {
                    if t != u {
                        v.push(look(
                            cfg,
                            format!("{def} {def2} struct s {{ {t} a; {u} b<>; {t} *c; }}; union q switch (int k) {{ case 0: {t} a; case 5: {u} b; }};"),
                            &["s", "q"],
                        ));
                    }
                }
            }
        } else {
            let u = unions(cfg, false);
            v.extend(
                u.into_iter()
                    .enumerate()
                    .filter(|x| x.0 % 3 == 0 || x.0 > 20)
                    .map(|x| x.1),
            );
        }
    }
    v
}
fn discriminants(cfg: Cfg) -> Vec<Cell> {
    let mut v = vec![];
    let pre = "enum en { EA = 0, EB = 1, EC = 2, ED = 6 }; enum sg { SA = -3, SB = 2, SC = 5 }; const K4 = 4; typedef en ten; typedef ten tten; typedef int tint; typedef unsigned int tuint; typedef bool tbool;";
    for (d, a, b) in [
        ("en", "EA", "ED"),
        ("en", "EC", "EB"),
        ("ten", "EB", "ED"),
        ("tten", "EA", "EC"),
        ("sg", "SC", "SB"),
        ("tint", "0", "2"),
        ("tuint", "3", "K4"),
        ("tbool", "TRUE", "FALSE"),
        ("int", "K4", "EB"),
        ("en", "0", "6"),
        ("en", "1", "EC"),
    ] {
        let mut l = vec![];
        for (i, (x, y)) in [
            ("int a", "void"),
            ("void", "void"),
            ("string a<>", "opaque b[3]"),
            ("en a", "sg b"),
            ("sg a<>", "en b[2]"),
        ]
        .iter()
        .enumerate()
        {
            l.push(format!(
                "union u{i} switch ({d} k) {{ case {a}: {x}; case {b}: {y}; }};"
            ));
            l.push(format!(
                "union v{i} switch ({d} k) {{ case {a}: case {b}: {x}; }};"
            ));
            {
                l.push(format!(
                    "union w{i} switch ({d} k) {{ case {a}: {x}; default: {y}; }};"
                ));
            }
            l.push(format!(
                "struct z{i} {{ u{i} a; v{i} b<>; u{i} *c; v{i} d[2]; }};"
            ));
        }
        v.push(cell(cfg, format!("{pre} {}", l.join(" "))));
    }
    v
}

// --- G04 --------------------------------------------------------------------------------------
/// (definitions needed, declaration of what the typedef `T` names)
const ALIASED: &[(&str, &str)] = &[
    ("", "int T"),
    ("", "unsigned int T"),
    ("", "hyper T"),
    ("", "unsigned hyper T"),
    ("", "float T"),
    ("", "double T"),
    ("", "bool T"),
    ("", "char T"),
    ("", "unsigned char T"),
    ("", "short T"),
    ("", "unsigned short T"),
    ("", "string T<>"),
    ("", "string T<6>"),
    ("", "opaque T[3]"),
    ("", "opaque T<>"),
    ("", "opaque T<4>"),
    ("", "int T[2]"),
    ("", "short T<>"),
    ("", "hyper T<3>"),
    ("", "int *T"),
    ("enum col { RED = 0, GREEN = 1, BLUE = 2 };", "col T"),
    ("enum sp { SB = 3, SA = 2, SC = 5 };", "sp T"),
    ("enum sp { SB = 3, SA = 2, SC = 5 };", "sp T[2]"),
    ("enum sp { SB = 3, SA = 2, SC = 5 };", "sp T<>"),
    ("enum sp { SB = 3, SA = 2, SC = 5 };", "sp *T"),
    ("struct pt { int x; hyper y; };", "pt T"),
    ("struct pt { int x; hyper y; };", "pt T<>"),
    ("struct pt { int x; hyper y; };", "pt *T"),
    (
        "union un switch (int k) { case 0: int a; case 2: void; };",
        "un T",
    ),
    (
        "union un switch (int k) { case 0: int a; case 2: void; };",
        "un T[2]",
    ),
];
fn g04(th: bool) -> Vec<Cell> {
    let mut v = vec![];
    let mut cfgs = configs();
    cfgs.push(Cfg {
        aliases: true,
        ..DEFAULT
    });
    cfgs.push(Cfg {
        aliases: true,
        enums: Enums::Std,
        unions: Unions::Union,
    });
    cfgs.push(Cfg {
        aliases: true,
        enums: Enums::Indexer,
        unions: Unions::Indexer,
    });
    // typedefs that lead back to the type that uses them
    for cfg in &cfgs {
        if cfg.aliases || *cfg == DEFAULT {
            v.extend(
                recursive(*cfg)
                    .into_iter()
                    .filter(|c| c.text.contains("typedef")),
            );
        }
    }
    for cfg in cfgs {
        let main = cfg == DEFAULT
            || (cfg.enums == Enums::Std && cfg.unions == Unions::Union)
            || (cfg.enums == Enums::Indexer && cfg.unions == Unions::Indexer);
        for (need, d) in ALIASED {
            let names_own = !need.is_empty();
            if !main && !names_own && !d.contains("opaque") && !th {
                continue;
            }
            for (i, (what, p)) in positions("t").into_iter().enumerate() {
                let _ = what;
                let t = |n: &str| format!("typedef {};", d.replace('T', n));
                if !(cfg == DEFAULT
                    || th
                    || i % 2 == 0
                    || d.contains("opaque")
                    || need.contains("enum"))
                {
                    continue;
                }
                // before, after, and by a chain
                v.push(looks(&format!("{need} {}", t("t")), &p, cfg));
                if cfg == DEFAULT || th && main {
                    v.push(look(cfg, format!("{p} {} {need}", t("t")), &["s"]));
                    v.push(look(
                        cfg,
                        format!("{need} {p} typedef t2 t; {}", t("t2")),
                        &["s"],
                    ));
                    v.push(look(
                        cfg,
                        format!("{} typedef t1 t; {p} typedef t2 t1; {need}", t("t2")),
                        &["s"],
                    ));
                }
            }
            // typedefs built on the typedef
            let t = format!("typedef {};", d.replace('T', "t"));
            for w in ["t w<>", "t w[2]", "t *w", "t w"] {
                if !(main || th) {
                    continue;
                }
                v.push(look(cfg, format!("{need} {t} typedef {w}; struct s {{ w a; int e; }}; union q switch (int k) {{ case 1: w a; case 0: void; }};"), &["s", "q"]));
                if cfg == DEFAULT || th && main {
                    v.push(look(
                        cfg,
                        format!("struct s {{ w a<>; w b[2]; w *c; }}; typedef {w}; {t} {need}"),
                        &["s"],
                    ));
                }
            }
        }
    }
    v
}

// --- G06 --------------------------------------------------------------------------------------
pub const PLAIN: &[&str] = &[
    "abc",
    "Abc",
    "ABC",
    "aBc",
    "a",
    "A",
    "ab_cd",
    "AB_CD",
    "Ab_Cd",
    "aB_cD",
    "_a",
    "a_",
    "a__b",
    "_",
    "__",
    "_A",
    "A_",
    "a1",
    "A1",
    "a_1",
    "A_1b",
    "ab2Cd",
    "x86",
    "userID",
    "IDuser",
    "HTTPServer",
    "getHTTP2Name",
    "a_b_c",
    "nfs_fh3",
    "NFS3_OK",
    "TYPE_A",
    "i32",
    "u8",
    "string_",
    "vec",
    "option",
];
/// names Rust reserves, and names that become one
pub fn hard() -> Vec<String> {
    let mut v: Vec<String> = crate::names::RUST.iter().map(|s| s.to_string()).collect();
    for k in [
        "Type",
        "TYPE",
        "Match",
        "self_",
        "sElf",
        "SELF",
        "Crate",
        "SUPER",
        "Fn",
        "FN",
        "mOd",
        "union",
        "Union",
        "Async",
        "DYN",
        "Gen",
        "default",
        "Default",
        "raw",
        "auto",
        "static_",
        "macro_rules",
        "safe",
    ] {
        v.push(k.into());
    }
    let reserved = idl::lang::RESERVED;
    v.retain(|k| !reserved.contains(&k.as_str()));
    v.sort();
    v.dedup();
    v
}
fn g06(th: bool) -> Vec<Cell> {
    let mut v = vec![];
    let mut cfgs = vec![
        DEFAULT,
        Cfg {
            enums: Enums::Std,
            unions: Unions::Union,
            aliases: false,
        },
        Cfg {
            enums: Enums::Indexer,
            unions: Unions::Indexer,
            aliases: false,
        },
    ];
    if th {
        cfgs = configs();
    }
    let mut names = hard();
    names.extend(PLAIN.iter().map(|s| s.to_string()));
    for cfg in cfgs {
        for n in &names {
            // a field, alone and among others
            v.push(look(cfg, format!("struct s {{ int {n}; }}; struct s2 {{ short zz1; string {n}<>; opaque zz2[3]; }};"), &["s", "s2"]));
            // a type, and used as one
            if crate::names::camel(n).is_empty() || usable_type(n) {
                v.push(cell(
                    cfg,
                    format!("struct {n} {{ int x; }}; struct zz {{ {n} a; {n} b<>; }};"),
                ));
                v.push(cell(cfg, format!("enum {n} {{ ZZ_A = 1, ZZ_B = 4 }}; struct zz {{ {n} a; }}; union zu switch ({n} k) {{ case ZZ_A: {n} a; case ZZ_B: void; }};")));
                v.push(cell(cfg, format!("union {n} switch (int k) {{ case 1: int a; case 0: void; }}; struct zz {{ {n} a; }};")));
            }
            // a typedef
            v.push(cell(
                cfg,
                format!("typedef int {n}; struct zz {{ {n} a; {n} b<>; }};"),
            ));
            // an enumerator, a case label, an arm
            if n != "TRUE" && n != "FALSE" && !crate::names::camel(n).is_empty() {
                v.push(cell(cfg, format!("enum zz {{ {n} = 1, ZZ_B = 4 }}; struct zs {{ zz a; }}; union zu switch (zz k) {{ case {n}: int a; case ZZ_B: void; }};")));
                v.push(cell(cfg, format!("union zu switch (int k) {{ case ZZ_B: int a; case {n}: string a<>; }}; const ZZ_B = 1; const {n} = 0;")));
            }
            // the name of an arm and of a discriminant do not matter
            v.push(cell(
                cfg,
                format!("union zu switch (int {n}) {{ case 1: int {n}; case 0: void; }};"),
            ));
            // a constant
            v.push(cell(
                cfg,
                format!(
                    "const {n} = 3; struct zs {{ int a[{n}]; opaque b[{n}]; string c<{n}>; }};"
                ),
            ));
        }
    }
    v
}
/// a type name that does not collide with what generated code itself uses
fn usable_type(n: &str) -> bool {
    let c = crate::names::camel(n);
    ![
        "Box",
        "Option",
        "Vec",
        "String",
        "Default",
        "Clone",
        "Debug",
        "Serialize",
        "Deserialize",
        "Zz",
        "Result",
        "Ok",
        "Err",
        "Some",
        "None",
        "Self",
        "Union",
        "TryFrom",
        "From",
        "AsRef",
        "SerializeTuple",
        "XdrIndexer",
        "XdrUnion",
        "I32",
        "U8",
    ]
    .contains(&c.as_str())
        || ["Union", "I32", "U8"].contains(&c.as_str())
}

// --- G08 --------------------------------------------------------------------------------------
fn g08(th: bool) -> Vec<Cell> {
    let mut v = vec![];
    for cfg in configs() {
        // enumerations: the smallest wherever it is written
        let pool = ["0", "1", "2", "5", "-1", "-3", "300"];
        for (i, ch) in enum_lists(&pool, if th { 4 } else { 3 })
            .chunks(20)
            .enumerate()
        {
            if cfg.unions != Unions::Complement && !th {
                break;
            }
            let t: Vec<String> = ch
                .iter()
                .enumerate()
                .map(|(k, l)| enum_text(&format!("e{i}_{k}"), &format!("E{i}_{k}"), l))
                .collect();
            v.push(cell(cfg, t.join(" ")));
        }
        // every declaration in a structure
        let env = around();
        let mut l = vec![];
        for (i, p) in PRIMS.iter().enumerate() {
            for (k, f) in forms(p, "a").iter().enumerate() {
                l.push(format!("struct s{i}_{k} {{ {f}; }};"));
            }
        }
        for (i, b) in blobs("a").iter().enumerate() {
            l.push(format!("struct b{i} {{ {b}; int e; }};"));
        }
        v.push(cell(cfg, l.join(" ")));
        for n in [0, 1, 31, 32] {
            v.push(cell(
                cfg,
                format!("struct s {{ opaque a[{n}]; int b[{n}]; }};"),
            ));
        }
        let l: Vec<String> = core("a")
            .iter()
            .enumerate()
            .map(|(i, d)| format!("struct c{i} {{ {d}; short z; }};"))
            .collect();
        v.push(cell(cfg, format!("{env} {}", l.join(" "))));
        // types that have their own default, in every position
        for (t, def) in TYPES {
            for (_, p) in positions(t) {
                v.push(looks(def, &p, cfg));
            }
            if cfg.unions == Unions::Union {
                for (_, p) in defaults(t) {
                    v.push(looks(def, &p, cfg));
                }
            }
        }
        // unions: the smallest label wherever it is written, with every arm
        let sets = enum_lists(&["0", "1", "3", "8"], 3);
        for d in ["int", "unsigned int"] {
            for (k, ch) in sets.chunks(20).enumerate() {
                let t: Vec<String> = ch
                    .iter()
                    .enumerate()
                    .map(|(j, l)| {
                        let arms: Vec<String> = l
                            .iter()
                            .enumerate()
                            .map(|(i, n)| {
                                format!(
                                    "case {n}: {};",
                                    ["int a", "string b<>", "void", "opaque c[3]"][(i + j) % 4]
                                )
                            })
                            .collect();
                        format!("union u{k}_{j} switch ({d} k) {{ {} }};", arms.join(" "))
                    })
                    .collect();
                v.push(cell(cfg, t.join(" ")));
            }
        }
        v.extend(discriminants(cfg));
        v.extend(recursive(cfg));
        if cfg.unions == Unions::Union {
            // default arms: cases around zero
            for d in ["int", "unsigned int"] {
                for (i, s) in ["0", "1", "5", "0 1", "1 0 2", "0 2"].iter().enumerate() {
                    let c: Vec<String> = s.split(' ').map(|n| format!("case {n}:")).collect();
                    for (j, a) in ["void", "int a", "string a<>"].iter().enumerate() {
                        for (k, b) in ["void", "hyper b", "opaque b<>", "opaque b[5]"]
                            .iter()
                            .enumerate()
                        {
                            let _ = (i, j, k);
                            v.push(cell(
                                cfg,
                                format!(
                                    "union u switch ({d} k) {{ {} {a}; default: {b}; }};",
                                    c.join(" ")
                                ),
                            ));
                        }
                    }
                }
            }
            for s in [
                "case TRUE: int a; default: void;",
                "case FALSE: int a; default: string s<>;",
                "case TRUE: void; case FALSE: int a; default: hyper b;",
            ] {
                v.push(cell(cfg, format!("union u switch (bool k) {{ {s} }};")));
            }
        }
    }
    v
}

// --- G09 --------------------------------------------------------------------------------------
fn g09(th: bool) -> Vec<Cell> {
    let mut v = vec![];
    let enums: Vec<Cfg> = [Enums::Complement, Enums::Std, Enums::Indexer]
        .map(|enums| Cfg {
            enums,
            unions: Unions::Complement,
            aliases: false,
        })
        .into();
    // enumerations: every set of numbers, rising and falling
    let menu = [
        "-2147483648",
        "-70000",
        "-2",
        "-1",
        "0",
        "1",
        "2",
        "3",
        "5",
        "7",
        "255",
        "256",
        "65535",
        "65536",
        "2147483647",
    ];
    let mut lists: Vec<Vec<&str>> = vec![];
    for s in subsets(&menu, 1, if th { 4 } else { 3 }) {
        lists.push(s.clone());
        if s.len() > 1 && (th || s.len() < 3) {
            lists.push(s.into_iter().rev().collect());
        }
    }
    lists.push(vec!["0x10", "010", "10", "0x7fffffff", "0"]);
    lists.push(vec!["K1", "K2", "K3"]);
    // names: as they come in practice, and those that need care
    let names = [
        "A", "b", "CC_DD", "e_f", "gH", "TYPE", "self", "_j", "K9", "mod_l", "Default", "Ok",
        "None", "Err", "Some",
    ];
    for (k, l) in lists.chunks(40).enumerate() {
        let mut t = String::from("const K1 = 0x11; const K2 = 4; const K3 = 0777;");
        for (i, l) in l.iter().enumerate() {
            let l: Vec<String> = l
                .iter()
                .enumerate()
                .map(|(j, n)| format!("E{i}_{j} = {n}"))
                .collect();
            t += &format!(" enum e{i} {{ {} }};", l.join(", "));
        }
        if k < 1 {
            t += crate::drive::WHOLE;
        }
        v.extend(enums.iter().map(|c| cell(*c, t.clone())));
    }
    for k in 0..names.len() {
        let mut l: Vec<&str> = names.to_vec();
        l.rotate_left(k);
        let l: Vec<String> = l
            .iter()
            .enumerate()
            .map(|(i, n)| format!("{n} = {}", (i * 7) as i32 - 20))
            .collect();
        v.extend(enums.iter().map(|c| {
            cell(
                *c,
                format!(
                    "enum en {{ {} }}; struct s {{ en a; en b<>; }};",
                    l.join(", ")
                ),
            )
        }));
    }
    // unions
    let pre = "enum en { EA = 0, EB = 1, EC = 2, ED = 6 }; enum sg { SA = -3, SB = 2, SC = 5 }; const K4 = 4; typedef en ten; typedef ten tten; typedef int tint; typedef unsigned int tuint; typedef bool tbool;";
    let kinds: Vec<(&str, Vec<&str>)> = vec![
        (
            "int",
            vec!["0", "1", "K4", "6", "255", "65536", "2147483647"],
        ),
        (
            "unsigned int",
            vec!["0", "1", "0x7", "K4", "4294967295", "2147483648"],
        ),
        ("tuint", vec!["2", "3", "256"]),
        ("tint", vec!["2", "3", "256"]),
        ("bool", vec!["TRUE", "FALSE"]),
        ("tbool", vec!["TRUE", "FALSE"]),
        ("en", vec!["EA", "EB", "EC", "ED"]),
        ("ten", vec!["EA", "1", "ED"]),
        ("tten", vec!["6", "EC"]),
        ("sg", vec!["SB", "SC", "2"]),
    ];
    let arms = [
        "int a",
        "void",
        "string a<>",
        "opaque a[3]",
        "en a",
        "hyper *a",
        "struct_s a",
        "sg a<>",
    ];
    let mut all: Vec<(String, bool)> = vec![];
    for (d, labels) in &kinds {
        for (n, l) in subsets(labels, 1, if th { 4 } else { 2 })
            .into_iter()
            .enumerate()
        {
            if l.contains(&"SB") && l.contains(&"2") {
                continue;
            }
            let whole = labels
                .iter()
                .all(|x| l.contains(x) || *x == "2" && *d == "sg");
            // -2147483648 is the largest there is for the indexer, which counts in signed numbers
            let ends = [None, Some("void"), Some("int z"), Some("string z<>")];
            for (k, end) in ends.iter().enumerate() {
                if end.is_some() && whole && d.ends_with("bool") {
                    continue;
                }
                for shared in [false, true] {
                    if shared && l.len() < 2 || !th && (k > 1 && shared) {
                        continue;
                    }
                    for turn in [false, true] {
                        if turn && (l.len() < 2 || shared) {
                            continue;
                        }
                        let mut l = l.clone();
                        if turn {
                            l.reverse();
                        }
                        let mut t = String::new();
                        for (i, x) in l.iter().enumerate() {
                            t += &format!("case {x}: ");
                            if !shared || i + 1 == l.len() {
                                t += &format!("{}; ", arms[(i + n + k) % arms.len()]);
                            }
                        }
                        if let Some(e) = end {
                            t += &format!("default: {e}; ");
                        }
                        let fits = !l.iter().any(|x| x.len() > 5);
                        all.push((format!("switch ({d} k) {{ {t}}};"), fits));
                    }
                }
            }
        }
    }
    let unions = [Unions::Indexer, Unions::Union, Unions::Complement];
    for u in unions {
        for e in [Enums::Complement, Enums::Std, Enums::Indexer] {
            if !th && u != Unions::Union && e == Enums::Std {
                continue;
            }
            let c = Cfg {
                enums: e,
                unions: u,
                aliases: false,
            };
            let mine: Vec<&String> = all
                .iter()
                .filter(|x| u != Unions::Complement || x.1)
                .map(|x| &x.0)
                .collect();
            let size = 40;
            for l in mine.chunks(size) {
                let mut t = format!("{pre} struct struct_s {{ int x; opaque y<>; }};");
                for (i, x) in l.iter().enumerate() {
                    t += &format!(" union u{i} {x}");
                }
                v.push(cell(c, t));
            }
        }
    }
    v
}
