//! Bounded enumeration of interface definitions, one production at a time.
use crate::lang::num;
use Declaration as D;
use TypeSpecifier as T;
use rpcgen::parser::*;

pub const NAMES: &[&str] = &[
    "a",
    "A",
    "_",
    "__x",
    "a1",
    "a_1",
    "Z9_",
    "int_",
    "intx",
    "integer",
    "hyperx",
    "unsigned_",
    "unsignedx",
    "charx",
    "char_t",
    "shorter",
    "float1",
    "doubled",
    "quadruple_",
    "boolean",
    "bool_t",
    "void_t",
    "voidx",
    "enum_x",
    "enumx",
    "structure",
    "struct_a",
    "unions",
    "union_b",
    "opaque_x",
    "opaqued",
    "strings",
    "string_t",
    "switch1",
    "cases",
    "case1",
    "case_",
    "default_",
    "defaults",
    "constant",
    "const_",
    "typedefs",
    "typedef1",
    "programs",
    "program_",
    "versions",
    "version2",
    "TRUE",
    "FALSE",
    "INT",
    "Void",
    "x0x1",
    "e10",
    "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_",
    "type",
    "fn",
    "self",
];
pub fn numbers() -> Vec<Value> {
    let mut v: Vec<Value> = [
        "0",
        "1",
        "-1",
        "9",
        "10",
        "19",
        "255",
        "256",
        "-128",
        "2147483647",
        "-2147483648",
        "2147483648",
        "4294967295",
        "4294967296",
        "18446744073709551615",
        "18446744073709551616",
        "123456789012345678901234567890",
        "-99999999999999999999",
        "0x0",
        "0x1",
        "0xa",
        "0xF",
        "0x10",
        "0xFFFFFFFF",
        "0xffffffffffffffff",
        "0x0000000000000000001",
        "0xDEADbeef",
        "0xe1",
        "00",
        "01",
        "07",
        "010",
        "0777",
        "000001",
        "037777777777",
        "01777777777777777777777",
    ]
    .iter()
    .map(|s| Value::Constant(num(s)))
    .collect();
    v.push(id("A"));
    v.push(id("x1"));
    v.push(id("e1"));
    v
}
pub fn id(s: &str) -> Value {
    Value::Identifier(s.into())
}
pub fn n(s: &str) -> Value {
    Value::Constant(num(s))
}
pub fn some_values() -> Vec<Value> {
    vec![n("1"), n("-7"), n("0"), n("0x1F"), n("017"), id("B")]
}
pub fn leaf_types() -> Vec<T> {
    vec![
        T::Int(true),
        T::Int(false),
        T::Hyper(true),
        T::Hyper(false),
        T::Char(true),
        T::Char(false),
        T::Short(true),
        T::Short(false),
        T::Float,
        T::Double,
        T::Quadruple,
        T::Bool,
        T::Identifier("foo".into()),
    ]
}
pub fn assign(i: &str, v: Value) -> Assign {
    Assign {
        identifier: i.into(),
        value: v,
    }
}
/// every declaration form of a type
pub fn forms(t: &T, name: &str, values: &[Value]) -> Vec<D> {
    let mut v = vec![
        D::Variable(t.clone(), name.into()),
        D::OptionVariable(t.clone(), name.into()),
    ];
    for x in values {
        v.push(D::FixedArray(t.clone(), name.into(), x.clone()));
        v.push(D::VariableArray(t.clone(), name.into(), Some(x.clone())));
    }
    v.push(D::VariableArray(t.clone(), name.into(), None));
    v
}
/// the forms that have no type
pub fn bare(name: &str, values: &[Value]) -> Vec<D> {
    let mut v = vec![
        D::Void,
        D::OpaqueVariableArray(name.into(), None),
        D::String(name.into(), None),
    ];
    for x in values {
        v.push(D::OpaqueFixedArray(name.into(), x.clone()));
        v.push(D::OpaqueVariableArray(name.into(), Some(x.clone())));
        v.push(D::String(name.into(), Some(x.clone())));
    }
    v
}
pub fn decls(types: &[T], name: &str, values: &[Value]) -> Vec<D> {
    let mut v = bare(name, values);
    for t in types {
        v.extend(forms(t, name, values));
    }
    v
}
pub fn inline_enum(l: &[(&str, Value)]) -> T {
    T::Enum(Box::new(EnumTypeSpec {
        body: l.iter().map(|(a, b)| assign(a, b.clone())).collect(),
    }))
}
pub fn inline_struct(l: Vec<D>) -> T {
    T::Struct(Box::new(StructTypeSpec { body: l }))
}
pub fn inline_union(b: UnionBody) -> T {
    T::Union(Box::new(UnionTypeSpec { body: b }))
}
pub fn union_of(cond: D, specs: Vec<(Vec<Value>, D)>, default: Option<D>) -> UnionBody {
    UnionBody {
        cond,
        specs: specs
            .into_iter()
            .map(|(values, declaration)| CaseSpec {
                values,
                declaration,
            })
            .collect(),
        default,
    }
}
fn few() -> Vec<D> {
    decls(
        &[T::Int(true), T::Char(false), T::Identifier("foo".into())],
        "d",
        &[n("2"), id("N")],
    )
}
/// types that contain declarations
pub fn inline_types(inner: &[D], values: &[Value]) -> Vec<T> {
    let mut v = vec![];
    for x in values {
        v.push(inline_enum(&[("A", x.clone())]));
    }
    v.push(inline_enum(&[
        ("A", n("1")),
        ("B", n("-2")),
        ("C", id("A")),
    ]));
    let cond = D::Variable(T::Int(true), "k".into());
    for d in inner {
        v.push(inline_struct(vec![d.clone()]));
        v.push(inline_struct(vec![
            d.clone(),
            D::Variable(T::Bool, "z".into()),
        ]));
        v.push(inline_union(union_of(
            cond.clone(),
            vec![(vec![n("1")], d.clone())],
            None,
        )));
        v.push(inline_union(union_of(
            cond.clone(),
            vec![(vec![n("1"), id("B")], D::Void)],
            Some(d.clone()),
        )));
    }
    v
}

pub fn typedef(d: D) -> Definition {
    Definition::Type(TypeDef::Declaration(d))
}
pub fn structure(name: &str, l: Vec<D>) -> Definition {
    Definition::Type(TypeDef::Struct(name.into(), l))
}
pub fn union_def(name: &str, b: UnionBody) -> Definition {
    Definition::Type(TypeDef::Union(name.into(), b))
}
pub fn enum_def(name: &str, l: Vec<Assign>) -> Definition {
    Definition::Type(TypeDef::Enum(name.into(), l))
}
pub fn constant(name: &str, v: Value) -> Definition {
    Definition::Constant(assign(name, v))
}
pub fn procedure(res: T, m: &str, req: T, v: Value) -> Procedure {
    Procedure {
        res_ty: res,
        method: m.into(),
        req_ty: req,
        value: v,
    }
}
pub fn program(name: &str, shape: &[usize], v: Value) -> Definition {
    let mut k = 0;
    let mut lt = leaf_types();
    lt.push(T::Void);
    let versions = shape
        .iter()
        .enumerate()
        .map(|(i, m)| Version {
            name: format!("V{i}"),
            procedures: (0..*m)
                .map(|j| {
                    k += 1;
                    procedure(
                        lt[k % lt.len()].clone(),
                        &format!("p{j}"),
                        lt[(k * 5) % lt.len()].clone(),
                        n(&format!("{}", k)),
                    )
                })
                .collect(),
            value: n(&format!("{}", i + 1)),
        })
        .collect();
    Definition::Program(Program {
        name: name.into(),
        versions,
        value: v,
    })
}

/// one definition of each kind and form, short
pub fn representatives() -> Vec<Vec<Definition>> {
    let mut v: Vec<Definition> = vec![];
    for x in some_values() {
        v.push(constant("a", x));
    }
    for d in decls(&leaf_types(), "b", &[n("3"), id("N")]) {
        v.push(typedef(d));
    }
    v.push(enum_def("c", vec![assign("A", n("1"))]));
    v.push(enum_def(
        "c",
        vec![
            assign("A", n("0x2")),
            assign("B", n("-1")),
            assign("C", id("A")),
        ],
    ));
    for d in few() {
        v.push(structure("s", vec![d.clone()]));
        v.push(structure(
            "s",
            vec![D::Variable(T::Hyper(false), "x".into()), d.clone()],
        ));
        v.push(union_def(
            "u",
            union_of(
                D::Variable(T::Int(true), "k".into()),
                vec![(vec![n("1")], d.clone())],
                None,
            ),
        ));
    }
    v.push(union_def(
        "u",
        union_of(
            D::Variable(T::Identifier("c".into()), "k".into()),
            vec![
                (vec![id("A"), n("2")], D::Void),
                (vec![id("B")], D::Variable(T::Bool, "t".into())),
            ],
            Some(D::String("s".into(), None)),
        ),
    ));
    let t = inline_types(&few()[..4], &[n("1")]);
    for t in t {
        v.push(typedef(D::Variable(t.clone(), "w".into())));
        v.push(structure("s", vec![D::OptionVariable(t, "w".into())]));
    }
    v.push(program("P", &[1], n("0x20000000")));
    v.push(program("P", &[2, 1], n("7")));
    let mut out: Vec<Vec<Definition>> = v.into_iter().map(|d| vec![d]).collect();
    out.push(vec![Definition::LineComment, constant("a", n("1"))]);
    out.push(vec![
        constant("a", n("1")),
        Definition::LineComment,
        constant("b", id("a")),
    ]);
    out.push(vec![
        constant("a", n("1")),
        enum_def("c", vec![assign("A", n("1"))]),
        Definition::LineComment,
    ]);
    out
}

fn each_name(prefix: &str, left: usize, f: &dyn Fn(&str)) {
    f(prefix);
    if left > 0 {
        for c in ["a", "Z", "0", "9", "_"] {
            each_name(&format!("{prefix}{c}"), left - 1, f);
        }
    }
}
/// names near a word of the language: one character added, dropped or changed, case, two words in one
fn near(w: &str, f: &dyn Fn(&str)) {
    use crate::lang::RESERVED;
    let mut v: Vec<String> = vec![];
    for c in ('a'..='z').chain('A'..='Z').chain('0'..='9').chain(['_']) {
        v.push(format!("{w}{c}"));
        for i in 0..w.len() {
            v.push(format!("{}{c}{}", &w[..i], &w[i..]));
            v.push(format!("{}{c}{}", &w[..i], &w[i + 1..]));
        }
    }
    for i in 1..w.len() {
        v.push(w[..i].to_string());
        v.push(w[i..].to_string());
        v.push(format!("{}_{}", &w[..i], &w[i..]));
    }
    v.push(w.to_uppercase());
    v.push(format!("{}{}", w[..1].to_uppercase(), &w[1..]));
    for x in RESERVED {
        v.push(format!("{w}{x}"));
        v.push(format!("{w}_{x}"));
    }
    for name in v {
        if !RESERVED.contains(&name.as_str())
            && !name.starts_with(|c: char| c.is_ascii_digit())
            && name != "char"
            && name != "short"
        {
            f(&name);
        }
    }
}
/// a name in each kind of position
fn everywhere(name: &str, one: &dyn Fn(Definition)) {
    let t = T::Identifier(name.to_string());
    one(constant(name, n("1")));
    one(constant("c", id(name)));
    one(enum_def(
        "e",
        vec![assign(name, n("2")), assign("B", id(name))],
    ));
    one(structure(
        name,
        vec![
            D::Variable(t.clone(), name.to_string()),
            D::FixedArray(t.clone(), "q".into(), id(name)),
        ],
    ));
    one(union_def(
        name,
        union_of(
            D::Variable(t.clone(), name.to_string()),
            vec![(
                vec![id(name)],
                D::OptionVariable(t.clone(), name.to_string()),
            )],
            Some(D::String(name.to_string(), Some(id(name)))),
        ),
    ));
    one(typedef(D::VariableArray(
        t.clone(),
        name.to_string(),
        Some(id(name)),
    )));
    one(Definition::Program(Program {
        name: name.to_string(),
        versions: vec![Version {
            name: name.to_string(),
            procedures: vec![procedure(t.clone(), name, t, id(name))],
            value: id(name),
        }],
        value: id(name),
    }));
}
/// numbers: small ones, every length of digits, the neighbours of powers of two
pub fn all_numbers(thorough: bool) -> Vec<Value> {
    let mut v: Vec<String> = vec![];
    for i in 0..=if thorough { 0x1_1000u128 } else { 0x1100 } {
        v.extend([
            format!("{i}"),
            format!("-{i}"),
            format!("0x{i:x}"),
            format!("0x{i:X}"),
            format!("0{i:o}"),
        ]);
    }
    for k in 1..=80 {
        for d in -2i128..=2 {
            let i = (1i128 << k) + d;
            if i >= 0 {
                v.extend([
                    format!("{i}"),
                    format!("-{i}"),
                    format!("0x{i:x}"),
                    format!("0x{i:X}"),
                    format!("0x000{i:x}"),
                    format!("0{i:o}"),
                    format!("000{i:o}"),
                ]);
            }
        }
    }
    for l in 1..=100 {
        for d in ["0", "1", "7"] {
            v.extend([
                format!("1{}", d.repeat(l)),
                format!("-9{}", d.repeat(l)),
                format!("0x{}", d.repeat(l)),
                format!("0x{}", "aF".repeat(l)),
                format!("0{}", d.repeat(l)),
            ]);
        }
    }
    // -0 is no number of the language
    v.iter().filter(|s| *s != "-0").map(|s| n(s)).collect()
}

/// Calls `f` with every specification of the bounded family.
pub fn all(thorough: bool, f: &(dyn Fn(Vec<Definition>) + Sync)) -> Vec<Box<dyn Fn() + Sync + '_>> {
    let mut jobs: Vec<Box<dyn Fn() + Sync + '_>> = vec![];
    macro_rules! job {
        ($b:block) => {
            jobs.push(Box::new(move || $b))
        };
    }
    let one = move |d: Definition| f(vec![d]);
    // names and numbers, everywhere a name or number can stand
    job!({
        for name in NAMES {
            let t = T::Identifier(name.to_string());
            for v in numbers() {
                one(constant(name, v.clone()));
                one(enum_def("e", vec![assign(name, v.clone())]));
            }
            one(constant("c", id(name)));
            for d in decls(
                &[T::Int(true), T::Int(false), t.clone()],
                name,
                &[n("2"), id(name)],
            ) {
                one(typedef(d.clone()));
                one(structure(name, vec![d.clone()]));
                one(structure("s", vec![d.clone(), d.clone()]));
                one(union_def(
                    name,
                    union_of(
                        d.clone(),
                        vec![(vec![id(name)], d.clone())],
                        Some(d.clone()),
                    ),
                ));
            }
            for d in decls(&[t.clone()], "q", &[n("2"), id(name)]) {
                one(typedef(d));
            }
            one(enum_def(
                name,
                vec![assign("x", id(name)), assign(name, n("2"))],
            ));
            one(typedef(D::Variable(
                inline_enum(&[(name, id(name))]),
                name.to_string(),
            )));
            one(Definition::Program(Program {
                name: name.to_string(),
                versions: vec![Version {
                    name: name.to_string(),
                    procedures: vec![procedure(t.clone(), name, t.clone(), id(name))],
                    value: id(name),
                }],
                value: id(name),
            }));
        }
    });
    job!({
        for v in numbers() {
            for d in decls(
                &[T::Int(true), T::Identifier("foo".into())],
                "q",
                &[v.clone()],
            ) {
                one(typedef(d));
            }
            for x in numbers() {
                one(union_def(
                    "u",
                    union_of(
                        D::Variable(T::Int(true), "k".into()),
                        vec![
                            (vec![v.clone(), x.clone()], D::Void),
                            (vec![x.clone()], D::Void),
                        ],
                        None,
                    ),
                ));
                one(enum_def(
                    "e",
                    vec![assign("A", v.clone()), assign("B", x.clone())],
                ));
            }
            one(program("P", &[1], v.clone()));
        }
    });
    // every name over a small alphabet, every length, everything near a word of the language
    for first in ["a", "Z", "_"] {
        job!({
            each_name(first, if thorough { 5 } else { 4 }, &|name| {
                everywhere(name, &one)
            });
        });
    }
    job!({
        let mut lens: Vec<usize> = (1..=300).collect();
        for k in 9..17 {
            lens.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]);
        }
        for l in lens {
            let name: String = (0..l).map(|i| b"aB_9c"[i % 5] as char).collect();
            everywhere(&name, &one);
            // the same up to the last character
            let mut other = name.clone();
            other.push('q');
            one(structure(
                "s",
                vec![
                    D::Variable(T::Int(true), name.clone()),
                    D::Variable(T::Identifier(other.clone()), other),
                ],
            ));
        }
    });
    for w in crate::lang::RESERVED.iter().chain(&["char", "short"]) {
        job!({
            near(w, &|name| everywhere(name, &one));
        });
    }
    // every number up to a bound in each base, every length of digits, around powers of two
    job!({
        for v in all_numbers(thorough) {
            one(constant("c", v.clone()));
            one(enum_def("e", vec![assign("A", v.clone())]));
            one(typedef(D::FixedArray(T::Int(true), "q".into(), v.clone())));
            one(union_def(
                "u",
                union_of(
                    D::Variable(T::Int(true), "k".into()),
                    vec![(vec![v.clone()], D::Void)],
                    None,
                ),
            ));
        }
    });
    // members: all pairs, reduced triples, long lists
    job!({
        let l = decls(&leaf_types(), "m", &some_values());
        for a in &l {
            one(typedef(a.clone()));
            one(structure("s", vec![a.clone()]));
            let k = D::Variable(T::Int(true), "k".into());
            one(union_def(
                "u",
                union_of(a.clone(), vec![(vec![n("1")], D::Void)], None),
            ));
            one(union_def(
                "u",
                union_of(k.clone(), vec![(vec![n("1")], a.clone())], None),
            ));
            one(union_def(
                "u",
                union_of(k, vec![(vec![n("1")], D::Void)], Some(a.clone())),
            ));
            for b in &l {
                one(structure("s", vec![a.clone(), b.clone()]));
            }
        }
    });
    job!({
        let l = few();
        for a in &l {
            for b in &l {
                for c in &l {
                    one(structure("s", vec![a.clone(), b.clone(), c.clone()]));
                }
            }
        }
    });
    job!({
        for len in (0..=if thorough { 300 } else { 136 })
            .chain([255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025])
        {
            let l: Vec<D> = (0..=len)
                .map(|i| forms(&leaf_types()[i % 13], &format!("m{i}"), &[n("2")])[i % 5].clone())
                .collect();
            one(structure("s", l.clone()));
            one(enum_def(
                "e",
                (0..=len)
                    .map(|i| assign(&format!("E{i}"), n(&format!("{}", i + 1))))
                    .collect(),
            ));
            let k = D::Variable(T::Int(true), "k".into());
            one(union_def(
                "u",
                union_of(
                    k.clone(),
                    l.iter()
                        .enumerate()
                        .map(|(i, d)| (vec![n(&format!("{}", i + 1))], d.clone()))
                        .collect(),
                    None,
                ),
            ));
            one(union_def(
                "u",
                union_of(
                    k,
                    vec![(
                        (0..=len).map(|i| n(&format!("{}", i + 1))).collect(),
                        D::Void,
                    )],
                    Some(D::Void),
                ),
            ));
            f((0..len)
                .map(|i| constant(&format!("c{i}"), n("1")))
                .collect());
            f((0..len)
                .map(|i| structure(&format!("c{i}"), vec![l[i].clone()]))
                .collect());
            one(program("P", &vec![1 + len % 3; 1 + len / 3], n("1")));
            one(program("P", &[len + 1], n("1")));
        }
    });
    // unions: every shape of cases
    job!({
        let l = few();
        let vs = [n("1"), n("-2"), n("0x3"), id("B")];
        let mut groups: Vec<Vec<Value>> = vs.iter().map(|v| vec![v.clone()]).collect();
        for a in &vs {
            for b in &vs {
                groups.push(vec![a.clone(), b.clone()]);
            }
        }
        groups.push(vs.to_vec());
        let conds = [
            D::Variable(T::Int(true), "k".into()),
            D::Variable(T::Int(false), "k".into()),
            D::Variable(T::Bool, "k".into()),
            D::Variable(T::Identifier("e".into()), "k".into()),
        ];
        for c in &conds {
            for g in &groups {
                for (i, a) in l.iter().enumerate() {
                    for def in [None, Some(D::Void), Some(l[(i * 7 + 3) % l.len()].clone())] {
                        one(union_def(
                            "u",
                            union_of(c.clone(), vec![(g.clone(), a.clone())], def.clone()),
                        ));
                        for h in groups.iter().step_by(if thorough { 1 } else { 4 }) {
                            one(union_def(
                                "u",
                                union_of(
                                    c.clone(),
                                    vec![
                                        (g.clone(), a.clone()),
                                        (h.clone(), l[(i * 3 + 1) % l.len()].clone()),
                                    ],
                                    def.clone(),
                                ),
                            ));
                        }
                    }
                }
            }
        }
    });
    // inline types, nested
    job!({
        let l1 = inline_types(&decls(&leaf_types(), "i", &[n("2"), id("N")]), &numbers());
        for t in &l1 {
            for d in forms(t, "w", &[n("2"), id("N")]) {
                one(typedef(d.clone()));
                one(structure(
                    "s",
                    vec![d.clone(), D::Variable(T::Bool, "z".into())],
                ));
                one(union_def(
                    "u",
                    union_of(d.clone(), vec![(vec![n("1")], d.clone())], Some(d.clone())),
                ));
            }
            one(Definition::Program(Program {
                name: "P".into(),
                versions: vec![Version {
                    name: "V".into(),
                    procedures: vec![procedure(t.clone(), "p", t.clone(), n("1"))],
                    value: n("1"),
                }],
                value: n("1"),
            }));
        }
    });
    job!({
        let mut l: Vec<D> = few();
        for depth in 2..=(if thorough { 4 } else { 3 }) {
            let ts = inline_types(&l, &[n("1")]);
            let take = if depth == 2 { 400 } else { 40 };
            l = ts.iter().flat_map(|t| forms(t, "w", &[n("2")])).collect();
            for d in &l {
                one(typedef(d.clone()));
                one(structure("s", vec![d.clone(), d.clone()]));
            }
            let step = (l.len() / take).max(1);
            l = l.into_iter().step_by(step).collect();
        }
        // deep
        for depth in 5..=48 {
            for kind in 0..3 {
                let mut d = D::Variable(T::Int(true), "x".into());
                for i in 0..depth {
                    let t = match (kind, i % 2) {
                        (0, _) | (2, 0) => inline_struct(vec![d]),
                        _ => inline_union(union_of(
                            D::Variable(T::Int(true), "k".into()),
                            vec![(vec![n("1")], d)],
                            None,
                        )),
                    };
                    d = forms(&t, "w", &[n("2")])[i % 4].clone();
                }
                one(typedef(d.clone()));
                one(structure("s", vec![d]));
            }
        }
    });
    // programs
    job!({
        let mut ts = leaf_types();
        ts.push(T::Void);
        for a in &ts {
            for b in &ts {
                for v in some_values() {
                    let p = procedure(a.clone(), "p", b.clone(), v.clone());
                    let q = procedure(b.clone(), "q", a.clone(), n("2"));
                    for ps in [vec![p.clone()], vec![p.clone(), q.clone()]] {
                        let ver = Version {
                            name: "V".into(),
                            procedures: ps,
                            value: v.clone(),
                        };
                        for vs in [vec![ver.clone()], vec![ver.clone(), ver.clone()]] {
                            one(Definition::Program(Program {
                                name: "P".into(),
                                versions: vs,
                                value: v.clone(),
                            }));
                        }
                    }
                }
            }
        }
        for a in 1..4 {
            for b in 1..4 {
                for c in 0..4 {
                    let mut s = vec![a, b];
                    if c > 0 {
                        s.push(c);
                    }
                    one(program("P", &s, n("0x1")));
                }
            }
        }
    });
    // sequences of definitions
    job!({
        let base: Vec<Definition> = {
            let mut b: Vec<Definition> = vec![
                Definition::LineComment,
                constant("a", n("1")),
                constant("b", id("a")),
                typedef(D::Void),
                typedef(D::Variable(T::Int(false), "t".into())),
                typedef(D::OptionVariable(T::Identifier("t".into()), "t2".into())),
                enum_def("e", vec![assign("A", n("1")), assign("B", n("2"))]),
                structure("s", vec![D::Variable(T::Bool, "b".into())]),
                union_def(
                    "u",
                    union_of(
                        D::Variable(T::Int(true), "k".into()),
                        vec![(vec![n("1")], D::Void)],
                        Some(D::Void),
                    ),
                ),
                program("P", &[1], n("1")),
            ];
            b.push(typedef(D::Variable(
                inline_struct(vec![D::Void]),
                "is".into(),
            )));
            b
        };
        f(vec![]);
        for a in &base {
            for b in &base {
                f(vec![a.clone(), b.clone()]);
                for c in &base {
                    f(vec![a.clone(), b.clone(), c.clone()]);
                    if thorough {
                        for d in &base {
                            f(vec![a.clone(), b.clone(), c.clone(), d.clone()]);
                        }
                    }
                }
            }
        }
        // the whole list, rotated
        for k in 0..base.len() {
            let mut l = base.clone();
            l.rotate_left(k);
            f(l.clone());
            l.reverse();
            f(l);
        }
    });
    jobs
}
