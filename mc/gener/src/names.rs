//! How names of the interface file appear in generated code, written from property G06.

/// each underscore-separated word capitalised, underscores removed; without underscores only the
/// first letter changes
pub fn camel(s: &str) -> String {
    if !s.contains('_') {
        let mut c = s.chars();
        return match c.next() {
            Some(f) => f.to_ascii_uppercase().to_string() + c.as_str(),
            None => String::new(),
        };
    }
    let mut o = String::new();
    let mut start = true;
    for c in s.chars() {
        if c == '_' {
            start = true;
        } else if start {
            o.push(c.to_ascii_uppercase());
            start = false;
        } else {
            o.push(c.to_ascii_lowercase());
        }
    }
    o
}

/// lower case, with an underscore before each capital that follows a lower-case letter or a digit
pub fn snake(s: &str) -> String {
    let mut o = String::new();
    let mut low = false;
    for c in s.chars() {
        if c.is_ascii_uppercase() && low {
            o.push('_');
        }
        low = c.is_ascii_lowercase() || c.is_ascii_digit();
        o.push(c.to_ascii_lowercase());
    }
    o
}

/// strict and reserved words of Rust, all editions up to 2024
pub const RUST: &[&str] = &[
    "as", "async", "await", "break", "const", "continue", "crate", "dyn", "else", "enum", "extern",
    "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub",
    "ref", "return", "Self", "self", "static", "struct", "super", "trait", "true", "type",
    "unsafe", "use", "where", "while", "abstract", "become", "box", "do", "final", "gen", "macro",
    "override", "priv", "try", "typeof", "unsized", "virtual", "yield",
];
pub fn keyword(s: &str) -> bool {
    RUST.contains(&s)
}

/// `got` is how `want` may be written: itself, or escaped if it is no name in Rust
pub fn is_name(want: &str, got: &str) -> bool {
    let got = got.strip_prefix("r#").unwrap_or(got);
    if want.trim_matches('_').is_empty() {
        return got.trim_matches('_').is_empty();
    }
    got == want || (!usable(want) && got.trim_matches('_') == want)
}
/// can the text be written as it is?
pub fn usable(s: &str) -> bool {
    !keyword(s) && !s.starts_with(|c: char| c.is_ascii_digit())
}

#[test]
fn examples() {
    assert_eq!(camel("AB_CD"), "AbCd");
    assert_eq!(camel("abCd"), "AbCd");
    assert_eq!(snake("Ab2Cd"), "ab2_cd");
    assert_eq!(snake("userID"), "user_id");
}
