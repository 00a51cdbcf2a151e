//! Reads what `{:?}` prints.
#[derive(Clone, Debug, PartialEq)]
pub enum Tree {
    Num(String),
    Str(String),
    List(Vec<Tree>),
    /// a name with positional parts
    Node(String, Vec<Tree>),
    Rec(String, Vec<(String, Tree)>),
}

pub fn read(s: &str) -> Result<Tree, String> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let t = value(&c, &mut i)?;
    if i != c.len() {
        return Err(format!(
            "unread Debug text: {}",
            c[i..].iter().collect::<String>()
        ));
    }
    Ok(t)
}

fn ws(c: &[char], i: &mut usize) {
    while *i < c.len() && c[*i] == ' ' {
        *i += 1;
    }
}
fn eat(c: &[char], i: &mut usize, x: char) -> bool {
    ws(c, i);
    let y = *i < c.len() && c[*i] == x;
    if y {
        *i += 1;
    }
    y
}
fn many(c: &[char], i: &mut usize, end: char) -> Result<Vec<Tree>, String> {
    let mut v = vec![];
    loop {
        if eat(c, i, end) {
            return Ok(v);
        }
        v.push(value(c, i)?);
        eat(c, i, ',');
    }
}
fn word(c: &[char], i: &mut usize) -> String {
    ws(c, i);
    let s = *i;
    while *i < c.len() && (c[*i].is_alphanumeric() || c[*i] == '_' || c[*i] == '#') {
        *i += 1;
    }
    c[s..*i].iter().collect()
}
fn value(c: &[char], i: &mut usize) -> Result<Tree, String> {
    ws(c, i);
    let Some(x) = c.get(*i) else {
        return Err("Debug text ends early".into());
    };
    if eat(c, i, '[') {
        return Ok(Tree::List(many(c, i, ']')?));
    }
    if *x == '"' {
        *i += 1;
        let mut s = String::new();
        loop {
            let Some(x) = c.get(*i) else {
                return Err("open string".into());
            };
            *i += 1;
            match x {
                '"' => return Ok(Tree::Str(s)),
                '\\' => {
                    let e = c[*i];
                    *i += 1;
                    s.push(match e {
                        'n' => '\n',
                        't' => '\t',
                        'r' => '\r',
                        '0' => '\0',
                        'u' => {
                            *i += 1;
                            let h = word(c, i);
                            *i += 1;
                            u32::from_str_radix(&h, 16)
                                .ok()
                                .and_then(char::from_u32)
                                .ok_or("escape")?
                        }
                        e => e,
                    });
                }
                x => s.push(*x),
            }
        }
    }
    if x.is_ascii_digit() || *x == '-' {
        let s = *i;
        *i += 1;
        while *i < c.len()
            && (c[*i].is_alphanumeric() || c[*i] == '.' || (c[*i] == '-' && c[*i - 1] == 'e'))
        {
            *i += 1;
        }
        return Ok(Tree::Num(c[s..*i].iter().collect()));
    }
    let name = word(c, i);
    if name.is_empty() {
        return Err(format!(
            "Debug text at {}",
            c[*i..].iter().take(30).collect::<String>()
        ));
    }
    if name == "NaN" || name == "inf" {
        return Ok(Tree::Num(name));
    }
    if eat(c, i, '(') {
        return Ok(Tree::Node(name, many(c, i, ')')?));
    }
    if eat(c, i, '{') {
        let mut v = vec![];
        loop {
            if eat(c, i, '}') {
                return Ok(Tree::Rec(name, v));
            }
            let f = word(c, i);
            if !eat(c, i, ':') {
                return Err("field without a value".into());
            }
            v.push((f, value(c, i)?));
            eat(c, i, ',');
        }
    }
    Ok(Tree::Node(name, vec![]))
}
