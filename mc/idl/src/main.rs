//! Checks P01, P02, P03: the parser against the reference parser.
use idl::asts;
use idl::lang::*;
use model::driver::Engine;
use model::explore::parallel;
use model::report::{Report, Violation};
use model::{alloc, guard, sexp};
use rpcgen::parser::{self, Definition};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::time::Duration;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

#[derive(Clone, Debug, PartialEq)]
enum Got {
    Ok(Vec<Definition>),
    Err(String),
    Panic(String),
}
fn real(text: &str) -> Got {
    guard::input(text.as_bytes());
    match catch_unwind(AssertUnwindSafe(|| parser::parse(text))) {
        Ok(Ok(v)) => Got::Ok(v),
        Ok(Err(e)) => Got::Err(format!("{e:?}").chars().take(200).collect()),
        Err(p) => Got::Panic(model::bind::panic_text(p)),
    }
}
fn show(x: &dyn std::fmt::Debug) -> String {
    format!("{x:?}").chars().take(600).collect()
}

/// P01: a sentence parses to what it says.
fn judge01(text: &str, got: &Got) -> Option<String> {
    match (parse_text(text), got) {
        (Ok(v), Got::Ok(x)) if *x == v => catch_unwind(|| asked(x)).unwrap_or_else(|p| {
            Some(format!(
                "asking its parts panics: {}",
                model::bind::panic_text(p)
            ))
        }),
        (Ok(v), g) => Some(format!("expected {}, got {}", show(&v), show(g))),
        _ => None,
    }
}
/// P01: what the parts of a parsed text answer when asked.
fn asked(d: &[Definition]) -> Option<String> {
    use parser::{Declaration as D, TypeDef, TypeSpecifier as T, UnionBody, Value};
    fn value(v: &Value) -> Option<String> {
        let name = if let Value::Identifier(s) = v {
            s.as_str()
        } else {
            ""
        };
        if v.is_true() != (name == "TRUE") || v.is_false() != (name == "FALSE") {
            return Some(format!(
                "{v:?} says TRUE {} FALSE {}",
                v.is_true(),
                v.is_false()
            ));
        }
        let got = v.constants::<u64>().ok();
        let want = match v {
            Value::Constant(k) => k.value::<u64>().ok().map(Some),
            Value::Identifier(_) => Some(None),
        };
        (got != want).then(|| format!("{v:?} says its number is {got:?}"))
    }
    fn body(b: &UnionBody) -> Option<String> {
        let arms = b.specs.iter().find_map(|s| {
            s.values
                .iter()
                .find_map(value)
                .or_else(|| decl(&s.declaration))
        });
        decl(&b.cond)
            .or(arms)
            .or_else(|| b.default.as_ref().and_then(decl))
    }
    fn inner(t: &T) -> Option<String> {
        match t {
            T::Enum(e) => e.body.iter().find_map(|a| value(&a.value)),
            T::Struct(s) => s.body.iter().find_map(decl),
            T::Union(u) => body(&u.body),
            _ => None,
        }
    }
    fn decl(d: &D) -> Option<String> {
        let (name, ty, size) = match d {
            D::Variable(t, n) | D::OptionVariable(t, n) => (Some(n), Some(t), None),
            D::FixedArray(t, n, v) => (Some(n), Some(t), Some(v)),
            D::VariableArray(t, n, v) => (Some(n), Some(t), v.as_ref()),
            D::OpaqueFixedArray(n, v) => (Some(n), None, Some(v)),
            D::OpaqueVariableArray(n, v) | D::String(n, v) => (Some(n), None, v.as_ref()),
            D::Void => (None, None, None),
        };
        if d.name() != name.map(String::as_str) {
            return Some(format!("{d:?} says its name is {:?}", d.name()));
        }
        // (what stands for the type of opaque data and strings is not specified)
        let says = d.type_specifier();
        if (ty.is_some() || name.is_none()) && says.as_ref() != ty {
            return Some(format!("{d:?} says its type is {says:?}"));
        }
        size.and_then(value).or_else(|| ty.and_then(inner))
    }
    d.iter().find_map(|d| match d {
        Definition::Constant(a) => value(&a.value),
        Definition::Type(TypeDef::Declaration(d)) => decl(d),
        Definition::Type(TypeDef::Enum(_, l)) => l.iter().find_map(|a| value(&a.value)),
        Definition::Type(TypeDef::Struct(_, l)) => l.iter().find_map(decl),
        Definition::Type(TypeDef::Union(_, b)) => body(b),
        _ => None,
    })
}
/// P01: a number is worth what it denotes, in every integer type that can hold it.
fn judge_value(k: &parser::Constant) -> Option<String> {
    use parser::Constant::*;
    let (neg, digits, radix) = match k {
        Decimal(s) => (s.starts_with('-'), s.trim_start_matches('-'), 10),
        Hex(s) => (false, s.as_str(), 16),
        Octal(s) => (false, s.as_str(), 8),
    };
    // beyond 100 bits nothing fits
    let mut m: i128 = 0;
    for d in digits.chars() {
        m = (m * radix + d.to_digit(radix as u32)? as i128).min(1 << 100);
    }
    let want = if neg { -m } else { m };
    if neg && m == 0 {
        return None; // whether -0 is a number of an unsigned type
    }
    macro_rules! each { ($($t:ty)*) => { $(
        let got = catch_unwind(AssertUnwindSafe(|| k.value::<$t>().ok().map(|x| x as i128)));
        let fits = <$t>::try_from(want).ok().map(|x| x as i128);
        match got {
            Ok(g) if g == fits => {}
            g => return Some(format!("worth {fits:?} as {}, but is {g:?}", stringify!($t))),
        }
    )* } }
    each!(i32 u32 u64 usize);
    None
}
/// P02: a text that is no sentence is refused.
fn judge02(text: &str, got: &Got) -> Option<String> {
    if let Got::Panic(p) = got {
        return Some(format!("the parser panics: {p}"));
    }
    match (parse_text(text), got) {
        (Err(Bad::Unspecified), _) => None,
        (Err(_), Got::Ok(v)) => Some(format!(
            "not a sentence of the language, but parsed as {}",
            show(v)
        )),
        _ => None,
    }
}
/// P03: for sentences the layout does not matter; where it makes another token sequence, that counts.
fn judge03(text: &str, plain: &str) -> Option<String> {
    let got = real(text);
    match (parse_text(text), parse_text(plain)) {
        (Ok(a), Ok(b)) if a == b => {
            let first = real(plain);
            (got != first).then(|| {
                format!(
                    "parsed as {}, but as {} when laid out as {plain:?}",
                    show(&got),
                    show(&first)
                )
            })
        }
        (Ok(a), _) => (got != Got::Ok(a.clone()))
            .then(|| format!("expected {}, got {}", show(&a), show(&got))),
        (Err(Bad::Unspecified), _) => None,
        (Err(_), _) => matches!(got, Got::Ok(_))
            .then(|| format!("a token was split or joined, but parsed as {}", show(&got))),
    }
}

struct Ctx<'a> {
    r: &'a Report,
    n: std::sync::atomic::AtomicU64,
}
impl Ctx<'_> {
    fn tick(&self, text: &str) {
        let n = self.n.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        if n % 100_003 == 5 {
            self.r.sample(|| format!("{text:?}"));
        }
    }
    fn bad(&self, text: &str, plain: &str, what: String) {
        self.r.violation(Violation {
            key: text.to_string(),
            replay: format!(
                "property={}\ninput={}\nplain={}\ntext {text}\n",
                self.r.property,
                sexp::hex(text.as_bytes()),
                sexp::hex(plain.as_bytes())
            ),
            what: format!("{text:?}: {what}"),
        });
    }
    fn p01(&self, d: &[Definition], text: &str) {
        self.tick(text);
        match parse_text(text) {
            Ok(v) if v == d => {}
            e => panic!("the reference parser does not read its own layout: {text:?} {e:?}"),
        }
        let got = real(text);
        if let Some(w) = judge01(text, &got) {
            self.bad(text, "", w);
        }
    }
    fn value(&self, k: &parser::Constant) {
        let text = layout(
            &tokens(&[asts::constant("a", parser::Value::Constant(k.clone()))]),
            " ",
        );
        self.tick(&text);
        if let Some(w) = judge_value(k) {
            self.bad(&text, "", w);
        }
    }
    fn p02(&self, text: &str) {
        self.tick(text);
        let got = real(text);
        if let Some(w) = judge02(text, &got) {
            self.bad(text, "", w);
        }
    }
    fn p03(&self, text: &str, plain: &str) {
        self.tick(text);
        if let Some(w) = judge03(text, plain) {
            self.bad(text, plain, w);
        }
    }
}

fn word(s: &str) -> Tok {
    Tok::Word(s.into())
}
fn alphabet() -> Vec<Tok> {
    let mut v: Vec<Tok> = RESERVED.iter().map(|w| word(w)).collect();
    v.extend([
        word("a"),
        word("char"),
        word("short"),
        Tok::Num("1".into()),
        Tok::Num("-2".into()),
        Tok::Num("0x3".into()),
        Tok::Line(" x".into()),
    ]);
    v.extend("{}[]<>();:=,*".chars().map(Tok::P));
    v
}
/// a smaller one with one token of each role
fn roles() -> Vec<Tok> {
    let mut v: Vec<Tok> = [
        "const", "typedef", "enum", "struct", "union", "switch", "case", "default", "void", "int",
        "unsigned", "opaque", "string", "program", "version", "a",
    ]
    .iter()
    .map(|w| word(w))
    .collect();
    v.push(Tok::Num("1".into()));
    v.push(Tok::Line("l".into()));
    v.extend("{}[]<>();:=,*".chars().map(Tok::P));
    v
}

fn p01(c: &Ctx, th: bool) {
    let each = |d: Vec<Definition>| {
        let t = tokens(&d);
        c.p01(&d, &layout(&t, " "));
        c.p01(&d, &layout(&t, ""));
        if th || t.len() < 24 {
            c.p01(&d, &layout(&t, "\n\t/* ; */ "));
        }
    };
    let jobs = asts::all(th, &each);
    parallel(&jobs, |j| {
        guard::context("kind=text\n");
        j();
        guard::idle();
    });
    // what a number is worth in each integer type
    guard::context("kind=text\n");
    for v in asts::all_numbers(th).into_iter().chain(asts::numbers()) {
        if let parser::Value::Constant(k) = &v {
            c.value(k);
        }
    }
    guard::idle();
}

/// Every viable prefix of the language up to a length (the states of a pushdown automaton), every
/// token from each of them.
fn viable(c: &Ctx, alphabet: &[Tok], depth: usize, r: &Report) {
    let mut firsts = vec![];
    for a in alphabet {
        for b in alphabet {
            firsts.push(vec![a.clone(), b.clone()]);
        }
    }
    // sentences end states; continuations that complete a broken prefix in a plausible way
    let tails: Vec<Vec<Tok>> = vec![
        vec![Tok::P(';')],
        vec![word("a"), Tok::P(';')],
        vec![Tok::P('}'), Tok::P(';')],
        vec![word("a"), Tok::P(';'), Tok::P('}'), Tok::P(';')],
    ];
    fn go(
        c: &Ctx,
        al: &[Tok],
        t: &mut Vec<Tok>,
        depth: usize,
        tails: &[Vec<Tok>],
        n: &mut (u64, u64),
    ) {
        let text = layout(t, " ");
        c.p02(&text);
        n.1 += 1;
        match parse_tokens(t) {
            Err(Bad::Incomplete) | Ok(_) if depth > 0 => {
                n.0 += 1;
                for a in al {
                    t.push(a.clone());
                    go(c, al, t, depth - 1, tails, n);
                    t.pop();
                }
            }
            Err(Bad::Wrong) => {
                for x in tails {
                    let l = t.len();
                    t.extend(x.iter().cloned());
                    c.p02(&layout(t, " "));
                    t.truncate(l);
                }
            }
            _ => {}
        }
    }
    parallel(&firsts, |f| {
        guard::context("kind=text\n");
        let mut t = f.clone();
        let mut n = (0, 0);
        go(c, alphabet, &mut t, depth - 2, &tails, &mut n);
        guard::idle();
        r.add(n.0, n.1, 0);
    });
}

/// all token sequences of a length
fn blind(c: &Ctx, alphabet: &[Tok], len: usize) {
    let idx: Vec<usize> = (0..alphabet.len()).collect();
    parallel(&idx, |a| {
        guard::context("kind=text\n");
        let mut t = vec![alphabet[*a].clone()];
        fn go(c: &Ctx, al: &[Tok], t: &mut Vec<Tok>, left: usize) {
            c.p02(&layout(t, " "));
            if left == 0 {
                return;
            }
            for a in al {
                t.push(a.clone());
                go(c, al, t, left - 1);
                t.pop();
            }
        }
        go(c, alphabet, &mut t, len - 1);
        guard::idle();
    });
}

fn edits(t: &[Tok], al: &[Tok], f: &mut dyn FnMut(&[Tok])) {
    for i in 0..t.len() {
        let mut x = t.to_vec();
        x.remove(i);
        f(&x);
        let mut x = t.to_vec();
        x.insert(i, t[i].clone());
        f(&x);
        if i + 1 < t.len() {
            let mut x = t.to_vec();
            x.swap(i, i + 1);
            f(&x);
        }
        f(&t[..i]);
        f(&t[i..]);
        for a in al {
            let mut x = t.to_vec();
            x[i] = a.clone();
            f(&x);
        }
    }
    for i in 0..=t.len() {
        for a in al {
            let mut x = t.to_vec();
            x.insert(i, a.clone());
            f(&x);
        }
    }
}

fn p02(c: &Ctx, r: &Report, th: bool) {
    let al = alphabet();
    blind(c, &roles(), if th { 5 } else { 4 });
    viable(c, &roles(), if th { 9 } else { 7 }, r);
    let reps = asts::representatives();
    let toks: Vec<Vec<Tok>> = reps.iter().map(|d| tokens(d)).collect();
    parallel(&toks, |t| {
        guard::context("kind=text\n");
        edits(t, &al, &mut |x| c.p02(&layout(x, " ")));
        // wrong token in the first of two definitions, and in the second
        let good = [
            word("const"),
            word("z"),
            Tok::P('='),
            Tok::Num("1".into()),
            Tok::P(';'),
        ];
        edits(t, &roles(), &mut |x| {
            let mut y = x.to_vec();
            y.extend(good.iter().cloned());
            c.p02(&layout(&y, " "));
            let mut y = good.to_vec();
            y.extend(x.iter().cloned());
            c.p02(&layout(&y, " "));
        });
        guard::idle();
    });
    // a part left out, doubled, moved elsewhere, replaced by a token; the beginning of one text
    // and the end of another
    let longest = if th { usize::MAX } else { 40 };
    let mut jobs: Vec<(&Vec<Tok>, usize)> = vec![];
    for t in &toks {
        jobs.extend((0..t.len()).map(|i| (t, i)));
    }
    let few = [
        word("a"),
        word("int"),
        word("void"),
        Tok::Num("1".into()),
        Tok::P(';'),
        Tok::P('}'),
    ];
    parallel(&jobs, |(t, i)| {
        guard::context("kind=text\n");
        for j in i + 1..=t.len() {
            let (head, part, tail) = (&t[..*i], &t[*i..j], &t[j..]);
            c.p02(&layout(&[head, tail].concat(), " "));
            c.p02(&layout(&[head, part, part, tail].concat(), " "));
            c.p02(&layout(&[head, part, part, part, tail].concat(), " "));
            for x in &few {
                c.p02(&layout(
                    &[head, std::slice::from_ref(x), tail].concat(),
                    " ",
                ));
            }
            let rest = [head, tail].concat();
            if t.len() <= longest {
                for k in 0..=rest.len() {
                    c.p02(&layout(&[&rest[..k], part, &rest[k..]].concat(), " "));
                }
            }
        }
        for u in &toks {
            for k in 0..u.len() {
                c.p02(&layout(&[&t[..*i], &u[k..]].concat(), " "));
            }
        }
        guard::idle();
    });
    // two edits at once
    let short: Vec<&Vec<Tok>> = toks
        .iter()
        .filter(|t| t.len() <= if th { 16 } else { 8 })
        .step_by(if th { 1 } else { 4 })
        .collect();
    let small: Vec<Tok> = [
        word("a"),
        word("int"),
        word("void"),
        word("case"),
        Tok::Num("1".into()),
    ]
    .into_iter()
    .chain("{}[]>();:=,*".chars().map(Tok::P))
    .collect();
    parallel(&short, |t| {
        guard::context("kind=text\n");
        edits(t, &small, &mut |x| {
            let x = x.to_vec();
            edits(&x, &small, &mut |y| c.p02(&layout(y, " ")));
        });
        guard::idle();
    });
    // characters
    let chars: Vec<char> =
        " \n\t\r;:,={}[]()<>*/%-+#\"'\\.!?@_aA019xXéß\u{0}\u{7f}\u{feff}\u{2028}\u{a0}\u{c}"
            .chars()
            .collect();
    parallel(&toks, |t| {
        guard::context("kind=text\n");
        for sep in ["", " "] {
            let s: Vec<char> = layout(t, sep).chars().collect();
            for i in 0..=s.len() {
                c.p02(&s[..i].iter().collect::<String>());
                c.p02(&s[i..].iter().collect::<String>());
                for x in &chars {
                    let mut y = s.clone();
                    y.insert(i, *x);
                    c.p02(&y.iter().collect::<String>());
                    if i < s.len() {
                        let mut y = s.clone();
                        y[i] = *x;
                        c.p02(&y.iter().collect::<String>());
                    }
                }
                if i < s.len() {
                    let mut y = s.clone();
                    y.remove(i);
                    c.p02(&y.iter().collect::<String>());
                    let mut y = s.clone();
                    y.insert(i, s[i]);
                    c.p02(&y.iter().collect::<String>());
                }
            }
        }
        guard::idle();
    });
    // every character of the first blocks, and odd ones, at the ends of a text and between its tokens
    let odd: Vec<char> = (0..0x300u32)
        .chain([0x1680, 0x180E])
        .chain(0x2000..0x2070)
        .chain([
            0x3000, 0x3164, 0xFEFF, 0xFFFC, 0xFFFD, 0xFF1B, 0xFF0C, 0x10FFFF,
        ])
        .filter_map(char::from_u32)
        .collect();
    parallel(&toks, |t| {
        guard::context("kind=text\n");
        let words: Vec<String> = t.iter().map(text_of).collect();
        for x in &odd {
            let x = x.to_string();
            let mut places = vec![0, 1, t.len() / 2, t.len() - 1, t.len()];
            if th || t.len() < 10 {
                places = (0..=t.len()).collect();
            }
            for i in places {
                let mut y = words.clone();
                y.insert(i, x.clone());
                c.p02(&y.join(" "));
            }
            let s = layout(t, " ");
            for y in [
                format!("{x}{s}"),
                format!("{s}{x}"),
                format!("{s}\n{x}"),
                format!("{s}{x}{x}\n"),
                format!("{s}{x}{s}"),
            ] {
                c.p02(&y);
            }
        }
        guard::idle();
    });
    // all short character strings
    let few: Vec<char> = "a0 ;%/*-x{\n\ré".chars().collect();
    parallel(&few, |x| {
        guard::context("kind=text\n");
        fn go(c: &Ctx, al: &[char], s: &mut String, left: usize) {
            c.p02(s);
            // and after a good definition
            c.p02(&format!("const a=1;{s}"));
            c.p02(&format!("{s}const a=1;"));
            if left > 0 {
                for a in al {
                    s.push(*a);
                    go(c, al, s, left - 1);
                    s.pop();
                }
            }
        }
        go(c, &few, &mut x.to_string(), if th { 5 } else { 4 });
        guard::idle();
    });
    // reserved words at every name
    guard::context("kind=text\n");
    for d in &reps {
        let t = tokens(d);
        for i in 0..t.len() {
            if let Tok::Word(w) = &t[i]
                && !RESERVED.contains(&w.as_str())
            {
                for k in RESERVED {
                    let mut x = t.clone();
                    x[i] = word(k);
                    c.p02(&layout(&x, " "));
                }
            }
        }
    }
    guard::idle();
    // spellings of numbers
    guard::context("kind=text\n");
    let digits: Vec<char> = "0179xXaFgG-+_.eL".chars().collect();
    let mut ss: Vec<String> = vec![String::new()];
    for _ in 0..(if th { 5 } else { 4 }) {
        let mut next = vec![];
        for s in &ss {
            for d in &digits {
                next.push(format!("{s}{d}"));
            }
        }
        for s in &next {
            c.p02(&format!("const A = {s};"));
            c.p02(&format!("typedef int a[{s}];"));
        }
        ss = next;
    }
    guard::idle();
}

const SEPS: &[&str] = &[
    " ",
    "\n",
    "\t",
    "\r\n",
    "\r",
    "   ",
    "\n\n",
    "/**/",
    "/* x */",
    " /* int a; } */ ",
    "/***/",
    "/*/*/",
    "/* /* */",
    "/****/",
    "/* * / */",
    "/*\n*/",
    "/* é \u{1F600} */",
    "/*%*/",
    "\n/* a */\n/* b */\n",
    "/*a*//*b*/",
    "\t/* const z = 1; */\t",
    "/* \" ' */",
];

fn p03(c: &Ctx, th: bool) {
    let reps = asts::representatives();
    let toks: Vec<Vec<Tok>> = reps.iter().map(|d| tokens(d)).collect();
    parallel(&toks, |t| {
        guard::context("kind=text\n");
        let plain = layout(t, " ");
        let at = |gaps: &[(usize, &str)], sep: &str| {
            let mut s = String::new();
            for i in 0..=t.len() {
                let mut here = if i == 0 || i == t.len() { "" } else { sep };
                if let Some((_, g)) = gaps.iter().find(|g| g.0 == i) {
                    here = g;
                }
                if i > 0 && i < t.len() && matches!(t[i - 1], Tok::Line(_))
                    || (i == t.len()
                        && i > 0
                        && matches!(t[i - 1], Tok::Line(_))
                        && !here.is_empty())
                {
                    s.push('\n');
                }
                s.push_str(here);
                if i < t.len() {
                    s.push_str(&text_of(&t[i]));
                }
            }
            s
        };
        for sep in SEPS {
            c.p03(&at(&[], sep), &plain);
            c.p03(&at(&[(0, sep), (t.len(), sep)], sep), &plain);
        }
        c.p03(&layout(t, ""), &plain);
        for i in 0..=t.len() {
            for sep in SEPS {
                c.p03(&at(&[(i, sep)], " "), &plain);
            }
            // nothing at all: tokens may join
            if i > 0 && i < t.len() {
                c.p03(&at(&[(i, "")], " "), &plain);
            }
            let big = " ".repeat(5000) + "/*" + &"x".repeat(5000) + "*/";
            c.p03(&at(&[(i, &big)], " "), &plain);
            if th || t.len() <= 12 {
                for j in i + 1..=t.len() {
                    for a in &SEPS[..if th { SEPS.len() } else { 9 }] {
                        for b in ["\n", "/* x */", "/**/"] {
                            c.p03(&at(&[(i, a), (j, b)], " "), &plain);
                        }
                    }
                }
            }
        }
        // a separator inside a token
        for i in 0..t.len() {
            if matches!(t[i], Tok::Line(_)) {
                continue;
            }
            let s = text_of(&t[i]);
            for k in 1..s.len() {
                for sep in [" ", "/**/", "\n"] {
                    let mut x = t.clone();
                    x[i] = Tok::Word(format!("{}{sep}{}", &s[..k], &s[k..]));
                    c.p03(&layout(&x, " "), &plain);
                }
            }
        }
        guard::idle();
    });
    // contents of comments
    let al: Vec<char> = "*/\"%\n;{é a'\\".chars().collect();
    parallel(&al, |x| {
        guard::context("kind=text\n");
        fn go(c: &Ctx, al: &[char], s: &mut String, left: usize) {
            c.p03(&format!("typedef int /*{s}*/ a;"), "typedef int a;");
            c.p03(&format!("/*{s}*/const a = 1;"), "const a=1;");
            c.p03(
                &format!("struct s {{ /*{s}*/ int b<>; }};"),
                "struct s{int b<>;};",
            );
            c.p03(
                &format!("enum e {{ A/*{s}*/= 1, B = 2 }};/*{s}*/"),
                "enum e{A=1,B=2};",
            );
            if left > 0 {
                for a in al {
                    s.push(*a);
                    go(c, al, s, left - 1);
                    s.pop();
                }
            }
        }
        go(c, &al, &mut x.to_string(), if th { 5 } else { 3 });
        guard::idle();
    });
    // all strings of blank characters and comment marks around definitions
    let al = [" ", "\n", "\t", "\r\n", "/*", "*/", "a", "%"];
    let idx: Vec<usize> = (0..al.len()).collect();
    parallel(&idx, |x| {
        guard::context("kind=text\n");
        fn go(c: &Ctx, al: &[&str], s: &str, left: usize) {
            c.p03(s, "");
            c.p03(&format!("{s}const a = 1;"), "const a=1;");
            c.p03(&format!("const a = 1;{s}"), "const a=1;");
            c.p03(
                &format!("const a = 1;{s}typedef int b;"),
                "const a=1;typedef int b;",
            );
            c.p03(
                &format!("union u {s}switch(int k){{case 1:void;default:{s}int*x;}};"),
                "union u switch(int k){case 1:void;default:int*x;};",
            );
            if left > 0 {
                for a in al {
                    go(c, al, &format!("{s}{a}"), left - 1);
                }
            }
        }
        go(c, &al, al[*x], if th { 6 } else { 4 });
        guard::idle();
    });
    // pass-through lines
    guard::context("kind=text\n");
    for l in [
        "%\n",
        "%",
        "%x",
        "%x\n",
        "%x\r\n",
        "% /* \n",
        "%%\n",
        "%;\n%{\n",
        " %x\n",
        "\t%x\n\n",
        "/* c */%x\n",
        "%x\n/* c */\n",
    ] {
        for (a, b) in [
            ("", ""),
            ("const a = 1;\n", ""),
            ("", "\nconst a = 1;"),
            ("const a = 1;", "\nconst b = 2;"),
        ] {
            let s = format!("{a}{l}{b}");
            c.p03(&s, &s);
            for sep in SEPS {
                c.p03(&format!("{sep}{a}{sep}{l}{b}"), &s);
                c.p03(&format!("{a}{l}\n{sep}{b}{sep}"), &s);
            }
        }
    }
    guard::idle();
}

fn worker(id: &str) -> i32 {
    let r = Report::new(id);
    let th = r.thorough();
    let c = Ctx { r: &r, n: 0.into() };
    let (rule, own): (&str, bool) = match id {
        "P01" => {
            p01(&c, th);
            (
                "every specification derived from the grammar within the bounds (names and numbers in every position, all declaration forms and types, all pairs and reduced triples of members, union shapes, inline types to depth 4 and deep chains, programs, sequences and long lists), laid out three ways; the real parser must return exactly the definitions derived",
                false,
            )
        }
        "P02" => {
            p02(&c, &r, th);
            (
                "all token sequences up to a length, every viable prefix of the language (state of the reference pushdown parser) extended by every token, all single and many double token edits and all single character edits of representative sentences, short character strings, number spellings; the real parser must refuse whatever the reference refuses",
                true,
            )
        }
        "P03" => {
            p03(&c, th);
            (
                "every gap of every representative sentence x every separator, pairs of gaps, separators inside tokens, exhaustive comment contents and blank strings over small alphabets; the real parser's result must be the one of the plain layout",
                false,
            )
        }
        _ => {
            eprintln!("unknown property {id}");
            return 2;
        }
    };
    let n = c.n.load(std::sync::atomic::Ordering::Relaxed);
    if own {
        r.add(0, 0, n)
    } else {
        r.add(n, n, n)
    }
    r.finish(rule, &["the reference lexer and parser (mc/idl/src/lang.rs) state the supported language correctly"])
}

fn replay(text: &str) -> i32 {
    let get = |k: &str| {
        text.lines()
            .find_map(|l| l.strip_prefix(&format!("{k}=")))
            .unwrap_or_default()
            .to_string()
    };
    let prop = get("property");
    let s = String::from_utf8(sexp::unhex(&get("input"))).unwrap();
    let plain = String::from_utf8(sexp::unhex(&get("plain"))).unwrap();
    println!(
        "text     {s:?}\nexpected {}\ngot      {}",
        show(&parse_text(&s)),
        show(&real(&s))
    );
    let bad = match prop.as_str() {
        "P01" => judge01(&s, &real(&s)).or_else(|| {
            let d = parse_text(&s).ok()?;
            d.iter().find_map(|x| match x {
                Definition::Constant(a) => match &a.value {
                    parser::Value::Constant(k) => judge_value(k),
                    _ => None,
                },
                _ => None,
            })
        }),
        "P02" => judge02(&s, &real(&s)),
        _ => judge03(&s, &plain),
    };
    match bad {
        Some(w) => {
            println!("VIOLATION property={prop}\n  {w}");
            1
        }
        None => {
            println!("agrees with the reference");
            0
        }
    }
}

fn main() {
    static E: Engine = Engine {
        worker,
        target: |_| None,
        also: |_, _, _, _| None,
        hang: Duration::from_secs(60),
        replay: Some(replay),
    };
    model::driver::main(&E)
}
