//! A lexer for MySQL statements (default sql_mode, utf8mb4), written from the
//! reference manual's sections on literals, identifiers and comments.

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    /// unquoted identifier or keyword
    Word(String),
    /// `quoted` identifier
    Quoted(String),
    Str(String),
    /// 0x.., x'..'
    Hex(Vec<u8>),
    /// decimal or float literal, without a sign
    Num(String),
    Param,
    Punct(&'static str),
}

fn ident_char(c: char) -> bool {
    matches!(c, '0'..='9' | 'a'..='z' | 'A'..='Z' | '$' | '_' | '\u{80}'..='\u{ffff}')
}

const PUNCT: [&str; 31] = [
    "<=>", "<=", ">=", "<>", "!=", ":=", "||", "&&", "<<", ">>", "@@", "(", ")", ",", ";", ".", "=", "<", ">", "+", "-", "*", "/", "%", "!", "~", "^", "&", "|", "@", ":",
];

pub fn lex(src: &str) -> Result<Vec<Tok>, String> {
    let c: Vec<char> = src.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    let at = |i: usize| c.get(i).copied();
    while i < c.len() {
        let x = c[i];
        // white space and comments
        if matches!(x, ' ' | '\t' | '\n' | '\r' | '\u{b}' | '\u{c}') {
            i += 1;
            continue;
        }
        if x == '#' || (x == '-' && at(i + 1) == Some('-') && at(i + 2).is_none_or(|y| y <= ' ')) {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
            continue;
        }
        if x == '/' && at(i + 1) == Some('*') {
            i += 2;
            loop {
                if i + 1 >= c.len() {
                    return Err("unterminated comment".into());
                }
                if c[i] == '*' && c[i + 1] == '/' {
                    i += 2;
                    break;
                }
                i += 1;
            }
            continue;
        }
        // hexadecimal literals in the form x'..'
        if matches!(x, 'x' | 'X') && at(i + 1) == Some('\'') {
            let end = (i + 2..c.len()).find(|k| c[*k] == '\'').ok_or("unterminated hexadecimal literal")?;
            let d: String = c[i + 2..end].iter().collect();
            if d.len() % 2 != 0 {
                return Err("odd number of digits in x''".into());
            }
            out.push(Tok::Hex(unhex(&d).ok_or("bad digits in x''")?));
            i = end + 1;
            continue;
        }
        // bit and national literals are not produced by anyone here
        if matches!(x, 'b' | 'B' | 'n' | 'N') && at(i + 1) == Some('\'') {
            return Err("introducer before a string".into());
        }
        if x == '\'' || x == '"' {
            i += 1;
            let mut s = String::new();
            loop {
                let Some(y) = at(i) else { return Err("unterminated string".into()) };
                if y == x {
                    if at(i + 1) == Some(x) {
                        s.push(x);
                        i += 2;
                        continue;
                    }
                    i += 1;
                    break;
                }
                if y == '\\' {
                    let Some(z) = at(i + 1) else { return Err("unterminated string".into()) };
                    match z {
                        '0' => s.push('\0'),
                        'b' => s.push('\u{8}'),
                        'n' => s.push('\n'),
                        'r' => s.push('\r'),
                        't' => s.push('\t'),
                        'Z' => s.push('\u{1a}'),
                        '%' | '_' => {
                            s.push('\\');
                            s.push(z)
                        }
                        z => s.push(z),
                    }
                    i += 2;
                    continue;
                }
                s.push(y);
                i += 1;
            }
            out.push(Tok::Str(s));
            continue;
        }
        if x == '`' {
            i += 1;
            let mut s = String::new();
            loop {
                let Some(y) = at(i) else { return Err("unterminated identifier".into()) };
                if y == '`' {
                    if at(i + 1) == Some('`') {
                        s.push('`');
                        i += 2;
                        continue;
                    }
                    i += 1;
                    break;
                }
                if y == '\0' || y > '\u{ffff}' {
                    return Err(format!("character {y:?} in a quoted identifier"));
                }
                s.push(y);
                i += 1;
            }
            out.push(Tok::Quoted(s));
            continue;
        }
        // numbers and identifiers; after a dot digits belong to an identifier
        if x.is_ascii_digit() || (x == '.' && at(i + 1).is_some_and(|y| y.is_ascii_digit()) && !matches!(out.last(), Some(Tok::Word(_) | Tok::Quoted(_)))) {
            if x == '0' && at(i + 1) == Some('x') && at(i + 2).is_some_and(|y| y.is_ascii_hexdigit()) {
                let mut k = i + 2;
                while at(k).is_some_and(|y| y.is_ascii_hexdigit()) {
                    k += 1;
                }
                if !at(k).is_some_and(ident_char) {
                    let mut d: String = c[i + 2..k].iter().collect();
                    if d.len() % 2 == 1 {
                        d.insert(0, '0');
                    }
                    out.push(Tok::Hex(unhex(&d).unwrap()));
                    i = k;
                    continue;
                }
            }
            let mut k = i;
            while at(k).is_some_and(|y| y.is_ascii_digit()) {
                k += 1;
            }
            let int_end = k;
            let mut fraction = false;
            if at(k) == Some('.') {
                fraction = true;
                k += 1;
                while at(k).is_some_and(|y| y.is_ascii_digit()) {
                    k += 1;
                }
            }
            if matches!(at(k), Some('e' | 'E')) {
                let mut m = k + 1;
                if matches!(at(m), Some('+' | '-')) {
                    m += 1;
                }
                if at(m).is_some_and(|y| y.is_ascii_digit()) {
                    while at(m).is_some_and(|y| y.is_ascii_digit()) {
                        m += 1;
                    }
                    k = m;
                }
            }
            // an identifier may start with a digit
            if !fraction && k == int_end && at(k).is_some_and(ident_char) {
                while at(k).is_some_and(ident_char) {
                    k += 1;
                }
                out.push(Tok::Word(c[i..k].iter().collect()));
                i = k;
                continue;
            }
            out.push(Tok::Num(c[i..k].iter().collect()));
            i = k;
            continue;
        }
        if ident_char(x) {
            let mut k = i;
            while at(k).is_some_and(ident_char) {
                k += 1;
            }
            out.push(Tok::Word(c[i..k].iter().collect()));
            i = k;
            continue;
        }
        if x == '?' {
            out.push(Tok::Param);
            i += 1;
            continue;
        }
        let rest: String = c[i..c.len().min(i + 3)].iter().collect();
        match PUNCT.iter().find(|p| rest.starts_with(**p)) {
            Some(p) => {
                out.push(Tok::Punct(p));
                i += p.len();
            }
            None => return Err(format!("unexpected character {x:?}")),
        }
    }
    Ok(out)
}

fn unhex(d: &str) -> Option<Vec<u8>> {
    if !d.bytes().all(|b| b.is_ascii_hexdigit()) || d.len() % 2 != 0 {
        return None;
    }
    Some(d.as_bytes().chunks(2).map(|p| u8::from_str_radix(std::str::from_utf8(p).unwrap(), 16).unwrap()).collect())
}

/// Reads a numeric literal: DECIMAL without exponent (at most 65 digits, 30 of them
/// after the point), DOUBLE with one. The result is the decimal text to parse.
pub fn number(t: &str) -> Result<&str, String> {
    if !t.contains(['e', 'E']) {
        let (a, b) = t.split_once('.').unwrap_or((t, ""));
        let a = a.trim_start_matches('0');
        if b.len() > 30 {
            return Err(format!("{} digits after the decimal point", b.len()));
        }
        if a.len() + b.len() > 65 {
            return Err(format!("{} digits in a decimal literal", a.len() + b.len()));
        }
    }
    Ok(t)
}
