#!/usr/bin/env python3
"""Writes mc/derive/src/family.rs: the enums whose derived codecs D01 and D02 explore."""
import itertools
import os

out = ["// Written by tools/gen_derive.py.", "#![allow(non_upper_case_globals, dead_code)]", "use super::*;", "",
       "// names that derived code may use for itself"]
for n in ("a ser de s d v len i a0 a1 a2 r0 r1 r2 index value variant name seq serializer deserializer formatter first result "
          "arg0 arg1 ret0 ret1 field0 field1 item0 ident discriminant element tuple").split():
    out.append(f"pub const {n}: i32 = 1;")
d01, d02 = [], []
MIN, MAX = -2**31, 2**31 - 1

LEAVES = ["bool", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64", "char", "String", "()",
          "Option<u8>", "Option<String>", "Vec<u8>", "Vec<String>", "[u8; 3]", "(u8, i64)", "BTreeMap<u16, String>",
          "Kinds", "Mixed", "One", "Empty", "Nothing", "Wrap", "Box<i32>", "Adapters"]
CYCLE = ["u8", "String", "i64", "bool", "Vec<u16>", "i16", "Option<i8>", "f64", "u32", "char", "[u8; 3]", "u64",
         "(u8, i64)", "f32"]
LIGHT = ["u8", "String", "i16", "u64", "bool", "char"]


def cyc(n, k=0, pool=CYCLE):
    return [pool[(i + k) % len(pool)] for i in range(n)]


def indexer(name, variants, alias=(), vnames=None, style=None):
    """variants: [(index, [types])]; alias: [(index, variant number)]"""
    vn = vnames or [f"V{i}" for i in range(len(variants))]
    body = []
    for i, (_, ts) in enumerate(variants):
        if not ts:
            body.append(vn[i] + ("()" if style == "empty" and i % 2 else ""))
        else:
            body.append(f"{vn[i]}({', '.join(ts)})")
    out.append("#[derive(Clone, Debug, PartialEq, XdrIndexer)]")
    out.append(f"pub enum {name} {{ {', '.join(body)} }}")
    names = "".join(f"{ix} => Ok(\"{vn[i]}\"), " for i, (ix, _) in enumerate(variants))
    names += "".join(f"{ix} => Ok(\"{vn[i]}\"), " for ix, i in alias)
    index = "".join(f"Self::{vn[i]}{{..}} => {ix}, " for i, (ix, _) in enumerate(variants))
    out.append(f"""impl serde_xdr::XdrIndexer for {name} {{
    type Error = String;
    fn name_by_index(ix_: i32) -> Result<&'static str, String> {{ match ix_ {{ {names}_ => Err("no".into()) }} }}
    fn index(&self) -> i32 {{ match self {{ {index} }} }}
}}""")
    cases = "".join(f"(Val::I({ix}), {i}), " for i, (ix, _) in enumerate(variants))
    cases += "".join(f"(Val::I({ix}), {i}), " for ix, i in alias)
    every = ", ".join(str(ix) for ix in [ix for ix, _ in variants] + [ix for ix, _ in alias])
    arms = "".join(f"vec![{', '.join(f'm::<{t}>()' for t in ts)}], " for _, ts in variants)
    tov, fromv = "", ""
    for i, (ix, ts) in enumerate(variants):
        b = ", ".join(f"a{j}_" for j in range(len(ts)))
        vals = ", ".join(f"a{j}_.to_val()" for j in range(len(ts)))
        pat = f"({b})" if ts else ("()" if style == "empty" and i % 2 else "")
        tov += f"Self::{vn[i]}{pat} => un(Val::I({ix}), vec![{vals}]), "
        items = ", ".join(f"x(l_, {j})?" for j in range(len(ts)))
        cons = f"({items})" if ts else pat
        fromv += f"{i} => Self::{vn[i]}{cons}, "
    fromv += "_ => unreachable!()"
    out.append(f"""impl Model for {name} {{
    fn ty() -> Ty {{ union(Ty::I32of(vec![{every}]), vec![{arms}], vec![{cases}], None) }}
    fn to_val(&self) -> Val {{ match self {{ {tov} }} }}
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> {{ let (k_, l_) = arm::<Self>(v_); Some(match k_ {{ {fromv} }}) }}
}}""")
    d01.append(name)


def num(ty, x):
    if ty == "bool":
        return "true" if x else "false"
    return str(x)


def val(ty, x):
    if ty == "bool":
        return f"Val::Bool({num(ty, x)})"
    if ty in ("i32", "i16", "i8", "i64"):
        return f"Val::I({x})"
    if ty in ("u32", "u16", "u8", "u64"):
        return f"Val::U({x})"
    if ty == "char":
        return f"Val::Char('{x}')"
    if ty.startswith("Cases"):
        return f"un(Val::I({ENUMS[ty][x]}), vec![])"
    if ty == "Plain":
        return f"Val::Var({'ABCDE'.index(x)}, vec![])"
    raise KeyError(ty)


def pat(ty, x):
    if ty.startswith("Cases") or ty == "Plain":
        return f"{ty}::{x}"
    if ty == "char":
        return f"'{x}'"
    return num(ty, x)


def disc_ty(ty, cases):
    if ty == "i32":
        return f"Ty::I32of(vec![{', '.join(str(c) for c in cases)}])"
    if ty == "u32":
        return f"Ty::U32of(vec![{', '.join(str(c) for c in cases)}])"
    return f"<{ty} as Model>::ty()"


ENUMS = {}


def union(name, ty, variants, default=None, vnames=None):
    """variants: [([cases], [types])]; default: variant number that takes every other value"""
    vn = vnames or [f"V{i}" for i in range(len(variants))]
    body = ", ".join(f"{vn[i]}({', '.join([ty] + ts)})" for i, (_, ts) in enumerate(variants))
    out.append("#[derive(Clone, Debug, PartialEq, XdrUnion)]")
    out.append(f"pub enum {name} {{ {body} }}")
    names = ""
    allc = []
    for i, (cs, _) in enumerate(variants):
        if cs:
            names += " | ".join(pat(ty, c) for c in cs) + f" => Ok(\"{vn[i]}\"), "
            allc += cs
    full = (ty == "bool" and len(allc) == 2) or (ty in ENUMS and len(allc) == len(ENUMS[ty])) or (ty == "Plain" and len(allc) == 5)
    rest = "" if full else ("_ => Err(())" if default is None else f"_ => Ok(\"{vn[default]}\")")
    out.append(f"""impl serde_xdr::XdrUnion<{ty}> for {name} {{
    type Error = ();
    fn name_by_value(value_: &{ty}) -> Result<&'static str, ()> {{ match value_ {{ {names}{rest} }} }}
}}""")
    cases = "".join(f"({val(ty, c)}, {i}), " for i, (cs, _) in enumerate(variants) for c in cs)
    arms = "".join(f"vec![{', '.join(f'm::<{t}>()' for t in ts)}], " for _, ts in variants)
    tov, fromv = "", ""
    for i, (_, ts) in enumerate(variants):
        b = ", ".join(["d_"] + [f"a{j}_" for j in range(len(ts))])
        vals = ", ".join(f"a{j}_.to_val()" for j in range(len(ts)))
        tov += f"Self::{vn[i]}({b}) => un(d_.to_val(), vec![{vals}]), "
        items = ", ".join(["disc(v_)?"] + [f"x(l_, {j})?" for j in range(len(ts))])
        fromv += f"{i} => Self::{vn[i]}({items}), "
    fromv += "_ => unreachable!()"
    dflt = "None" if default is None or full else f"Some({default})"
    out.append(f"""impl Model for {name} {{
    fn ty() -> Ty {{ union({disc_ty(ty, allc)}, vec![{arms}], vec![{cases}], {dflt}) }}
    fn to_val(&self) -> Val {{ match self {{ {tov} }} }}
    #[allow(unused_variables)]
    fn from_val(v_: &Val) -> Option<Self> {{ let (k_, l_) = arm::<Self>(v_); Some(match k_ {{ {fromv} }}) }}
}}""")
    d02.append(name)


# --- D01 ---------------------------------------------------------------------------------
SCHEMES = {
    "Seq": lambda i, n: i,
    "One": lambda i, n: i + 1,
    "Neg": lambda i, n: -1 - i,
    "Desc": lambda i, n: n - 1 - i,
    "Sparse": lambda i, n: i * 37 - 50,
    "Ends": lambda i, n: MIN + i // 2 if i % 2 else MAX - i // 2,
    "Wrap": lambda i, n: [0, 256, 65536, 1 << 24, -256, -65536, 1, 257, 65537, -255][i % 10] + (i // 10) * 2,
}
for s, f in SCHEMES.items():
    for n in (1, 2, 3, 4, 7, 12):
        indexer(f"I{s}{n}", [(f(i, n), cyc(i % 4, i, LIGHT)) for i in range(n)])
for n in (26, 27, 40, 130, 300):
    indexer(f"IMany{n}", [(i * 3 - 200, cyc(i % 3, i, LIGHT)) for i in range(n)])
for n in list(range(0, 21)) + [24, 31, 32, 33, 48, 64, 100]:
    indexer(f"IItems{n}", [(5, cyc(n)), (-5, [])])
# the longest variant first, in the middle, last
for k, order in enumerate([(20, 2, 0), (2, 20, 0), (0, 2, 20), (12, 0, 11), (1, 13, 3)]):
    indexer(f"IOrder{k}", [(10 + i, cyc(n, i, LIGHT)) for i, n in enumerate(order)])
for i, t in enumerate(LEAVES):
    indexer(f"ILeaf{i}", [(0, [t]), (1, [t, "u8"]), (2, ["String", t, "String"]), (-1, [t, t])])
indexer("IUnits", [(i, []) for i in (2, 3, 5, -9, MIN, MAX)])
indexer("IEmpty", [(i, []) for i in (2, 3, 5, -9)], style="empty")
indexer("INames", [(i, cyc(i % 3, i, LIGHT)) for i in range(16)],
        vnames=["A", "AB", "Ab", "ABC", "B", "Ok", "Err", "Some", "None", "Index", "Ser", "Value", "__V", "A1", "A11", "Ä"])
# every name of up to three letters, and some longer ones
EVERY = [n for k in (1, 2, 3) for n in map("".join, itertools.product("Aa_1", repeat=k)) if n[0] != "1" and n != "_"]
EVERY += ["V_" * 20, "A" * 300, "Z__Z", "__Z__", "Zz_Zz_", "É_é_", "Number_10", "Number10_", "x10", "X10"]
indexer("INamesAll", [(i * 2 - 60, cyc(i % 3, i, LIGHT)) for i in range(len(EVERY))], vnames=EVERY)
for i, n in enumerate(["_T", "T_", "t", "_t_", "T1_", "Ünion"]):
    indexer(n, [(j, cyc(j + i % 2, i, LIGHT)) for j in range(3)], vnames=EVERY[i * 9:i * 9 + 3])
TAKEN = ["A", "D", "S", "E", "V", "T", "M", "K", "XdrIndexerVisitor", "XdrUnionVisitor", "Visitor", "Formatter", "SeqAccess",
         "Error", "Value"]
for i, n in enumerate(TAKEN):
    if i % 2 == 0:
        indexer(n, [(4, ["u8", "String"]), (-4, []), (9, ["String"])], vnames=["A", "B", n + ("X" if n in "AB" else "")])
indexer("ITaken", [(i, [n, "u8"]) for i, n in enumerate(TAKEN[::2])], vnames=TAKEN[::2])
indexer("IAlias", [(1, ["u8"]), (5, ["String"]), (-3, [])], alias=[(2, 0), (3, 0), (-2, 1), (MAX, 2), (MIN, 0)])
indexer("INest1", [(0, ["IUnits"]), (7, ["ISparse3", "IItems12"]), (-7, ["Vec<ISeq4>"])])
indexer("INest2", [(0, ["INest1"]), (9, ["Option<IItems11>", "u8"])])
# --- D02 ---------------------------------------------------------------------------------
def enum(name, vals):
    ENUMS[name] = dict(vals)
    vs = ", ".join(n for n, _ in vals)
    keep = len(d01)
    indexer(name, [(v, []) for _, v in vals], vnames=[n for n, _ in vals])
    del d01[keep:]
enum("Cases", [("A", 2), ("B", 3), ("C", -5), ("D", 1000)])
enum("CasesSeq", [("A", 0), ("B", 1), ("C", 2)])

SETS = {
    "i32": [0, 1, 2, -1, -2, 5, 100, MIN, MAX, 256, -256, 65536],
    "u32": [0, 1, 2, 2**32 - 1, 2**31, 2**31 - 1, 5, 100, 256, 65536, 2**31 + 1, 2**24],
}
for ty in ("i32", "u32"):
    T = ty.upper()
    s = SETS[ty]
    for n in (1, 2, 3, 5, 12):
        union(f"U{T}N{n}", ty, [([s[i]], cyc(i % 4, i, LIGHT)) for i in range(n)])
        union(f"U{T}Rev{n}", ty, [([s[-1 - i]], cyc(i % 3, i, LIGHT)) for i in range(n)])
    for n in list(range(0, 13)) + [15, 16, 17, 31, 32, 33, 64]:
        union(f"U{T}Items{n}", ty, [([7], cyc(n)), ([8], [])])
    for n in (26, 40, 130, 300):
        union(f"U{T}Many{n}", ty, [([i * 3], cyc(i % 3, i, LIGHT)) for i in range(n)])
    for k, order in enumerate([(20, 2, 0), (2, 20, 0), (0, 2, 20), (12, 0, 11)]):
        union(f"U{T}Order{k}", ty, [([10 + i], cyc(n, i, LIGHT)) for i, n in enumerate(order)])
    union(f"U{T}Shared", ty, [(s[:5], ["u8"]), (s[5:8], ["String"]), ([s[8]], [])])
    union(f"U{T}Shared2", ty, [([s[0], s[3]], []), ([s[1], s[4]], ["String"]), (list(range(1000, 1100)), ["i64", "bool"])])
    union(f"U{T}Default", ty, [([1], ["u8"]), ([3, 4], ["String"]), ([], ["i64"])], default=2)
    union(f"U{T}DefaultVoid", ty, [([1], ["u8"]), ([], [])], default=1)
    union(f"U{T}DefaultOnly", ty, [([], ["String", "u8"])], default=0)
    union(f"U{T}DefaultShared", ty, [([1], ["u8"]), ([3, 4], ["String"])], default=1)
for i, t in enumerate(LEAVES):
    ty = ["i32", "u32"][i % 2]
    union(f"ULeaf{i}", ty, [([0], [t]), ([1], [t, "u8"]), ([2], ["String", t, "String"]), ([9], [t, t])])
for a, b in (([], ["u8"]), (["String"], []), (cyc(11), cyc(3, 1)), (["bool"], ["u64", "bool"])):
    k = len(d02)
    union(f"UBool{k}", "bool", [([1], a), ([0], b)])
    union(f"UBoolR{k}", "bool", [([0], a), ([1], b)])
union("UBoolOne", "bool", [([1], ["String"])])
union("UBoolZero", "bool", [([0], ["String"])])
union("UBoolDefault", "bool", [([1], ["String"]), ([], ["u8"])], default=1)
union("UBoolShared", "bool", [([0, 1], ["String"])])
for ty in ("Cases", "CasesSeq"):
    union(f"U{ty}", ty, [(["A"], ["u8"]), (["B"], ["String"]), (["C"], [])])
    union(f"U{ty}All", ty, [([n], cyc(i * 5, i)) for i, n in enumerate(ENUMS[ty])])
    union(f"U{ty}Shared", ty, [(["A", "C"], ["u8"]), (["B"], ["String"])])
    union(f"U{ty}Default", ty, [(["B"], ["u8"]), ([], ["String", "i64"])], default=1)
union("UPlain", "Plain", [(["A"], ["u8"]), (["B", "D"], ["String"]), (["C"], [])])
union("UPlainDefault", "Plain", [(["E"], ["u8"]), ([], ["i64"])], default=1)
for ty, cs in (("i8", [-1, 0, 127]), ("u8", [0, 1, 255]), ("i16", [-1, 300]), ("u16", [1, 65535]), ("i64", [-1, 0, 2**40]),
               ("u64", [0, 1, 2**63]), ("char", ["a", "z"])):
    union(f"U{ty.upper()}", ty, [([c], cyc(i, i)) for i, c in enumerate(cs)])
union("UNames", "i32", [([i], cyc(i % 3, i, LIGHT)) for i in range(14)],
      vnames=["A", "AB", "Ab", "ABC", "B", "Ok", "Err", "Some", "None", "Value", "Ser", "__V", "A1", "A11"])
union("UNamesAll", "i32", [([i * 2 - 60], cyc(i % 3, i, LIGHT)) for i in range(len(EVERY))], vnames=EVERY)
for i, n in enumerate(["_U", "U_", "u", "_u_", "U1_", "Ünion_"]):
    union(n, "u32", [([j], cyc(j + i % 2, i, LIGHT)) for j in range(3)], vnames=EVERY[i * 9:i * 9 + 3])
for i, n in enumerate(TAKEN):
    if i % 2:
        union(n, "i32", [([4], ["u8", "String"]), ([-4], []), ([9], ["String"])], vnames=["A", "B", n + ("X" if n in "AB" else "")])
union("UTaken", "i32", [([i], [n, "u8"]) for i, n in enumerate(TAKEN)], vnames=TAKEN)
union("UNest", "u32", [([0], ["UI32Default"]), ([7], ["UBoolShared", "INest1"]), ([9], ["Vec<UCases>"])])
union("UNest2", "bool", [([0], ["UNest"]), ([1], ["Option<UI32Items11>", "u8"])])

WRAPPED = {"ISeq4", "ISparse7", "IEnds4", "IItems0", "IItems9", "IItems10", "IItems20", "IUnits", "INest2", "IMany40", "IOrder1",
           "ILeaf12", "ILeaf17",
           "UI32N5", "UU32N5", "UI32Items0", "UI32Items10", "UU32Items16", "UBoolShared", "UI32Default", "UU32Shared", "UCasesDefault",
           "UPlain", "UNest2", "UI32DefaultVoid", "ULeaf17"}
CONTEXTS = ["Vec<{}>", "Option<{}>", "Box<{}>", "({}, u8)", "(String, {}, String)", "[{}; 2]", "BTreeMap<u16, {}>", "Field<{}>",
            "Option<Vec<{}>>", "Vec<({}, {})>", "Arms<{}>"]


def lst(fn, names):
    out.append(f"pub fn {fn}() -> Vec<Box<dyn Target>> {{\n    vec![")
    for n in names:
        out.append(f"        t::<{n}>(\"{n}\"),")
        if n in WRAPPED:
            for c in CONTEXTS:
                e = c.replace("{}", n)
                out.append(f"        t::<{e}>(\"{e}\"),")
    out.append("    ]\n}")


lst("indexed", d01)
lst("valued", d02)
p = os.path.join(os.path.dirname(__file__), "..", "mc", "derive", "src", "family.rs")
new = "\n".join(out) + "\n"
if not os.path.exists(p) or open(p).read() != new:
    open(p, "w").write(new)
print(len(d01), len(d02))
