//! The interface language: an independent lexer and recursive-descent parser, written from RFC 4506
//! section 6, the RPC language's programs and the two documented extensions (char, short).
use rpcgen::parser::*;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Tok {
    Word(String),
    Num(String),
    P(char),
    /// a pass-through line, without its end of line
    Line(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Bad {
    /// no sentence starts like this
    Wrong,
    /// the tokens are a strict prefix of a sentence (as far as the grammar goes)
    Incomplete,
    /// neither required nor forbidden
    Unspecified,
}

pub const RESERVED: &[&str] = &[
    "bool",
    "case",
    "const",
    "default",
    "double",
    "quadruple",
    "enum",
    "float",
    "hyper",
    "int",
    "opaque",
    "string",
    "struct",
    "switch",
    "typedef",
    "union",
    "unsigned",
    "void",
    "program",
    "version",
];

pub fn word_char(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_'
}
fn number(s: &str) -> bool {
    let d = s.strip_prefix('-').unwrap_or(s);
    let all = |s: &str, f: fn(char) -> bool| !s.is_empty() && s.chars().all(f);
    if d.starts_with(|c: char| ('1'..='9').contains(&c)) {
        return all(d, |c| c.is_ascii_digit());
    }
    if s.starts_with('-') {
        return false;
    }
    if let Some(h) = d.strip_prefix("0x") {
        return all(h, |c| c.is_ascii_hexdigit());
    }
    d == "0" || (d.starts_with('0') && all(&d[1..], |c| ('0'..='7').contains(&c)))
}

pub fn lex(text: &str) -> Result<Vec<Tok>, Bad> {
    let c: Vec<char> = text.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < c.len() {
        match c[i] {
            ' ' | '\t' | '\r' | '\n' => i += 1,
            '/' if c.get(i + 1) == Some(&'*') => {
                let mut j = i + 2;
                loop {
                    if j + 1 >= c.len() {
                        return Err(Bad::Wrong);
                    }
                    if c[j] == '*' && c[j + 1] == '/' {
                        break;
                    }
                    j += 1;
                }
                i = j + 2;
            }
            '%' => {
                let mut j = i + 1;
                while j < c.len() && c[j] != '\n' {
                    j += 1;
                }
                let mut s: String = c[i + 1..j].iter().collect();
                if j < c.len() && s.ends_with('\r') {
                    s.pop();
                }
                if s.contains('\r') {
                    return Err(Bad::Unspecified);
                }
                out.push(Tok::Line(s));
                i = j;
            }
            x if x.is_ascii_digit() || x == '-' => {
                let mut j = i + 1;
                while j < c.len() && word_char(c[j]) {
                    j += 1;
                }
                let s: String = c[i..j].iter().collect();
                if !number(&s) {
                    return Err(Bad::Wrong);
                }
                out.push(Tok::Num(s));
                i = j;
            }
            x if word_char(x) => {
                let mut j = i + 1;
                while j < c.len() && word_char(c[j]) {
                    j += 1;
                }
                out.push(Tok::Word(c[i..j].iter().collect()));
                i = j;
            }
            x if "{}[]<>();:=,*".contains(x) => {
                out.push(Tok::P(x));
                i += 1;
            }
            _ => return Err(Bad::Wrong),
        }
    }
    Ok(out)
}

pub struct P<'a> {
    t: &'a [Tok],
    i: usize,
}
type R<T> = Result<T, Bad>;

impl P<'_> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn bad(&self) -> Bad {
        if self.i >= self.t.len() {
            Bad::Incomplete
        } else {
            Bad::Wrong
        }
    }
    fn is(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn at(&self, w: &str) -> bool {
        matches!(self.peek(), Some(Tok::Word(x)) if x == w)
    }
    fn p(&mut self, c: char) -> R<()> {
        if self.is(c) {
            self.i += 1;
            Ok(())
        } else {
            Err(self.bad())
        }
    }
    fn take(&mut self, c: char) -> bool {
        let y = self.is(c);
        self.i += y as usize;
        y
    }
    fn word(&mut self, w: &str) -> bool {
        let y = self.at(w);
        self.i += y as usize;
        y
    }
    fn kw(&mut self, w: &str) -> R<()> {
        if self.word(w) {
            Ok(())
        } else {
            Err(self.bad())
        }
    }
    fn name(&mut self) -> R<String> {
        match self.peek() {
            Some(Tok::Word(w)) if !RESERVED.contains(&w.as_str()) => {
                let w = w.clone();
                self.i += 1;
                Ok(w)
            }
            _ => Err(self.bad()),
        }
    }
    fn value(&mut self) -> R<Value> {
        if let Some(Tok::Num(n)) = self.peek() {
            let v = Value::Constant(num(n));
            self.i += 1;
            return Ok(v);
        }
        self.name().map(Value::Identifier)
    }
    fn assign(&mut self) -> R<Assign> {
        let identifier = self.name()?;
        self.p('=')?;
        Ok(Assign {
            identifier,
            value: self.value()?,
        })
    }
    fn enum_body(&mut self) -> R<Vec<Assign>> {
        self.p('{')?;
        let mut v = vec![self.assign()?];
        while self.take(',') {
            v.push(self.assign()?);
        }
        self.p('}')?;
        Ok(v)
    }
    fn struct_body(&mut self) -> R<Vec<Declaration>> {
        self.p('{')?;
        let mut v = vec![];
        loop {
            v.push(self.declaration()?);
            self.p(';')?;
            if self.take('}') {
                return Ok(v);
            }
        }
    }
    fn union_body(&mut self) -> R<UnionBody> {
        self.kw("switch")?;
        self.p('(')?;
        let cond = self.declaration()?;
        self.p(')')?;
        self.p('{')?;
        let mut specs = vec![];
        while specs.is_empty() || self.at("case") {
            let mut values = vec![];
            while values.is_empty() || self.at("case") {
                self.kw("case")?;
                values.push(self.value()?);
                self.p(':')?;
            }
            let declaration = self.declaration()?;
            self.p(';')?;
            specs.push(CaseSpec {
                values,
                declaration,
            });
        }
        let mut default = None;
        if self.word("default") {
            self.p(':')?;
            default = Some(self.declaration()?);
            self.p(';')?;
        }
        self.p('}')?;
        Ok(UnionBody {
            cond,
            specs,
            default,
        })
    }
    fn type_specifier(&mut self) -> R<TypeSpecifier> {
        use TypeSpecifier as T;
        if self.word("unsigned") {
            return Ok(if self.word("int") {
                T::Int(false)
            } else if self.word("hyper") {
                T::Hyper(false)
            } else if self.word("char") {
                T::Char(false)
            } else if self.word("short") {
                T::Short(false)
            } else {
                T::Int(false)
            });
        }
        for (w, t) in [
            ("int", T::Int(true)),
            ("hyper", T::Hyper(true)),
            ("char", T::Char(true)),
            ("short", T::Short(true)),
            ("float", T::Float),
            ("double", T::Double),
            ("quadruple", T::Quadruple),
            ("bool", T::Bool),
        ] {
            if self.word(w) {
                return Ok(t);
            }
        }
        if self.word("enum") {
            return Ok(T::Enum(Box::new(EnumTypeSpec {
                body: self.enum_body()?,
            })));
        }
        if self.word("struct") {
            return Ok(T::Struct(Box::new(StructTypeSpec {
                body: self.struct_body()?,
            })));
        }
        if self.word("union") {
            return Ok(T::Union(Box::new(UnionTypeSpec {
                body: self.union_body()?,
            })));
        }
        self.name().map(T::Identifier)
    }
    fn bound(&mut self, close: char) -> R<Option<Value>> {
        if self.take(close) {
            return Ok(None);
        }
        let v = self.value()?;
        self.p(close)?;
        Ok(Some(v))
    }
    fn declaration(&mut self) -> R<Declaration> {
        use Declaration as D;
        if self.word("void") {
            return Ok(D::Void);
        }
        if self.word("opaque") {
            let n = self.name()?;
            if self.take('[') {
                let v = self.value()?;
                self.p(']')?;
                return Ok(D::OpaqueFixedArray(n, v));
            }
            self.p('<')?;
            return Ok(D::OpaqueVariableArray(n, self.bound('>')?));
        }
        if self.word("string") {
            let n = self.name()?;
            self.p('<')?;
            return Ok(D::String(n, self.bound('>')?));
        }
        let t = self.type_specifier()?;
        if self.take('*') {
            return Ok(D::OptionVariable(t, self.name()?));
        }
        let n = self.name()?;
        if self.take('[') {
            let v = self.value()?;
            self.p(']')?;
            return Ok(D::FixedArray(t, n, v));
        }
        if self.take('<') {
            return Ok(D::VariableArray(t, n, self.bound('>')?));
        }
        Ok(D::Variable(t, n))
    }
    fn proc_type(&mut self) -> R<TypeSpecifier> {
        if self.word("void") {
            Ok(TypeSpecifier::Void)
        } else {
            self.type_specifier()
        }
    }
    fn procedure(&mut self) -> R<Procedure> {
        let res_ty = self.proc_type()?;
        let method = self.name()?;
        self.p('(')?;
        let req_ty = self.proc_type()?;
        self.p(')')?;
        self.p('=')?;
        let value = self.value()?;
        self.p(';')?;
        Ok(Procedure {
            res_ty,
            method,
            req_ty,
            value,
        })
    }
    fn version(&mut self) -> R<Version> {
        self.kw("version")?;
        let name = self.name()?;
        self.p('{')?;
        let mut procedures = vec![];
        while procedures.is_empty() || !self.is('}') {
            procedures.push(self.procedure()?);
        }
        self.p('}')?;
        self.p('=')?;
        let value = self.value()?;
        self.p(';')?;
        Ok(Version {
            name,
            procedures,
            value,
        })
    }
    fn definition(&mut self) -> R<Definition> {
        if let Some(Tok::Line(_)) = self.peek() {
            self.i += 1;
            return Ok(Definition::LineComment);
        }
        let d = if self.word("const") {
            Definition::Constant(self.assign()?)
        } else if self.word("typedef") {
            Definition::Type(TypeDef::Declaration(self.declaration()?))
        } else if self.word("enum") {
            Definition::Type(TypeDef::Enum(self.name()?, self.enum_body()?))
        } else if self.word("struct") {
            Definition::Type(TypeDef::Struct(self.name()?, self.struct_body()?))
        } else if self.word("union") {
            Definition::Type(TypeDef::Union(self.name()?, self.union_body()?))
        } else if self.word("program") {
            let name = self.name()?;
            self.p('{')?;
            let mut versions = vec![];
            while versions.is_empty() || !self.is('}') {
                versions.push(self.version()?);
            }
            self.p('}')?;
            self.p('=')?;
            Definition::Program(Program {
                name,
                versions,
                value: self.value()?,
            })
        } else {
            return Err(self.bad());
        };
        self.p(';')?;
        Ok(d)
    }
}

pub fn num(s: &str) -> Constant {
    if let Some(h) = s.strip_prefix("0x") {
        Constant::Hex(h.into())
    } else if s.starts_with('0') && s.len() > 1 {
        Constant::Octal(s[1..].into())
    } else {
        Constant::Decimal(s.into())
    }
}

pub fn parse_tokens(t: &[Tok]) -> Result<Vec<Definition>, Bad> {
    let mut p = P { t, i: 0 };
    let mut v = vec![];
    while p.i < t.len() {
        v.push(p.definition()?);
    }
    Ok(v)
}
pub fn parse_text(s: &str) -> Result<Vec<Definition>, Bad> {
    parse_tokens(&lex(s)?)
}

// --- printing ------------------------------------------------------------------------------
fn w(o: &mut Vec<Tok>, s: &str) {
    o.push(Tok::Word(s.into()));
}
fn ps(o: &mut Vec<Tok>, s: &str) {
    o.extend(s.chars().map(Tok::P));
}
pub fn p_value(o: &mut Vec<Tok>, v: &Value) {
    match v {
        Value::Identifier(i) => w(o, i),
        Value::Constant(Constant::Decimal(d)) => o.push(Tok::Num(d.clone())),
        Value::Constant(Constant::Hex(d)) => o.push(Tok::Num(format!("0x{d}"))),
        Value::Constant(Constant::Octal(d)) => o.push(Tok::Num(format!("0{d}"))),
    }
}
fn p_assign(o: &mut Vec<Tok>, a: &Assign) {
    w(o, &a.identifier);
    ps(o, "=");
    p_value(o, &a.value);
}
fn p_enum(o: &mut Vec<Tok>, b: &[Assign]) {
    ps(o, "{");
    for (i, a) in b.iter().enumerate() {
        if i > 0 {
            ps(o, ",");
        }
        p_assign(o, a);
    }
    ps(o, "}");
}
fn p_struct(o: &mut Vec<Tok>, b: &[Declaration]) {
    ps(o, "{");
    for d in b {
        p_decl(o, d);
        ps(o, ";");
    }
    ps(o, "}");
}
fn p_union(o: &mut Vec<Tok>, b: &UnionBody) {
    w(o, "switch");
    ps(o, "(");
    p_decl(o, &b.cond);
    ps(o, "){");
    for s in &b.specs {
        for v in &s.values {
            w(o, "case");
            p_value(o, v);
            ps(o, ":");
        }
        p_decl(o, &s.declaration);
        ps(o, ";");
    }
    if let Some(d) = &b.default {
        w(o, "default");
        ps(o, ":");
        p_decl(o, d);
        ps(o, ";");
    }
    ps(o, "}");
}
pub fn p_type(o: &mut Vec<Tok>, t: &TypeSpecifier) {
    use TypeSpecifier as T;
    let u = |o: &mut Vec<Tok>, s: bool| {
        if !s {
            w(o, "unsigned")
        }
    };
    match t {
        T::Int(s) => {
            u(o, *s);
            w(o, "int")
        }
        T::Hyper(s) => {
            u(o, *s);
            w(o, "hyper")
        }
        T::Char(s) => {
            u(o, *s);
            w(o, "char")
        }
        T::Short(s) => {
            u(o, *s);
            w(o, "short")
        }
        T::Float => w(o, "float"),
        T::Double => w(o, "double"),
        T::Quadruple => w(o, "quadruple"),
        T::Bool => w(o, "bool"),
        T::Void => w(o, "void"),
        T::Enum(e) => {
            w(o, "enum");
            p_enum(o, &e.body)
        }
        T::Struct(s) => {
            w(o, "struct");
            p_struct(o, &s.body)
        }
        T::Union(x) => {
            w(o, "union");
            p_union(o, &x.body)
        }
        T::Identifier(i) => w(o, i),
    }
}
pub fn p_decl(o: &mut Vec<Tok>, d: &Declaration) {
    use Declaration as D;
    let opt = |o: &mut Vec<Tok>, v: &Option<Value>| {
        ps(o, "<");
        if let Some(v) = v {
            p_value(o, v);
        }
        ps(o, ">");
    };
    let fix = |o: &mut Vec<Tok>, v: &Value| {
        ps(o, "[");
        p_value(o, v);
        ps(o, "]");
    };
    match d {
        D::Void => w(o, "void"),
        D::Variable(t, n) => {
            p_type(o, t);
            w(o, n)
        }
        D::OptionVariable(t, n) => {
            p_type(o, t);
            ps(o, "*");
            w(o, n)
        }
        D::FixedArray(t, n, v) => {
            p_type(o, t);
            w(o, n);
            fix(o, v)
        }
        D::VariableArray(t, n, v) => {
            p_type(o, t);
            w(o, n);
            opt(o, v)
        }
        D::OpaqueFixedArray(n, v) => {
            w(o, "opaque");
            w(o, n);
            fix(o, v)
        }
        D::OpaqueVariableArray(n, v) => {
            w(o, "opaque");
            w(o, n);
            opt(o, v)
        }
        D::String(n, v) => {
            w(o, "string");
            w(o, n);
            opt(o, v)
        }
    }
}
pub fn p_def(o: &mut Vec<Tok>, d: &Definition) {
    match d {
        Definition::LineComment => {
            o.push(Tok::Line("#include <x.h> /* { struct".into()));
            return;
        }
        Definition::Constant(a) => {
            w(o, "const");
            p_assign(o, a);
        }
        Definition::Type(TypeDef::Declaration(d)) => {
            w(o, "typedef");
            p_decl(o, d);
        }
        Definition::Type(TypeDef::Enum(n, b)) => {
            w(o, "enum");
            w(o, n);
            p_enum(o, b);
        }
        Definition::Type(TypeDef::Struct(n, b)) => {
            w(o, "struct");
            w(o, n);
            p_struct(o, b);
        }
        Definition::Type(TypeDef::Union(n, b)) => {
            w(o, "union");
            w(o, n);
            p_union(o, b);
        }
        Definition::Program(p) => {
            w(o, "program");
            w(o, &p.name);
            ps(o, "{");
            for v in &p.versions {
                w(o, "version");
                w(o, &v.name);
                ps(o, "{");
                for q in &v.procedures {
                    p_type(o, &q.res_ty);
                    w(o, &q.method);
                    ps(o, "(");
                    p_type(o, &q.req_ty);
                    ps(o, ")=");
                    p_value(o, &q.value);
                    ps(o, ";");
                }
                ps(o, "}=");
                p_value(o, &v.value);
                ps(o, ";");
            }
            ps(o, "}=");
            p_value(o, &p.value);
        }
    }
    ps(o, ";");
}
pub fn tokens(d: &[Definition]) -> Vec<Tok> {
    let mut o = vec![];
    for d in d {
        p_def(&mut o, d);
    }
    o
}

/// would the two tokens be read as one (or swallow each other) without anything between them?
pub fn must_separate(a: &Tok, b: &Tok) -> bool {
    let wordy = |t: &Tok| matches!(t, Tok::Word(_) | Tok::Num(_));
    match (a, b) {
        (Tok::Line(_), _) => true,
        (a, Tok::Num(n)) if n.starts_with('-') => {
            let _ = a;
            false
        }
        (a, b) => wordy(a) && wordy(b),
    }
}
pub fn text_of(t: &Tok) -> String {
    match t {
        Tok::Word(s) | Tok::Num(s) => s.clone(),
        Tok::P(c) => c.to_string(),
        Tok::Line(s) => format!("%{s}"),
    }
}
/// tokens joined by `sep`; where a pass-through line ends, a line feed comes first
pub fn layout(t: &[Tok], sep: &str) -> String {
    let mut s = String::new();
    for (i, x) in t.iter().enumerate() {
        if i > 0 {
            match &t[i - 1] {
                Tok::Line(_) => {
                    s.push('\n');
                    s.push_str(sep);
                }
                a if sep.is_empty() && must_separate(a, x) => s.push(' '),
                _ => s.push_str(sep),
            }
        }
        s.push_str(&text_of(x));
    }
    s
}
/// the usual way to write it
pub fn pretty(d: &[Definition]) -> String {
    let mut s = String::new();
    for d in d {
        s.push_str(&layout(&tokens(std::slice::from_ref(d)), " "));
        s.push('\n');
    }
    s
}
