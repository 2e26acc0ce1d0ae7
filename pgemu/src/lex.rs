//! Tokens of SQL and PL/pgSQL.
use crate::{PgErr, Res};

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    /// Unquoted identifiers are in lower case.
    Id(String),
    Quoted(String),
    Num(String),
    Str(String),
    Param(usize),
    Op(String),
    Eof,
}

#[derive(Clone, Debug)]
pub struct Token {
    pub tok: Tok,
    pub start: usize,
    pub end: usize,
}

pub fn lex(sql: &str) -> Res<Vec<Token>> {
    let b = sql.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    let err = |msg: &str| PgErr::new("42601", msg);
    while i < b.len() {
        let c = b[i];
        let start = i;
        if c.is_ascii_whitespace() {
            i += 1;
            continue;
        }
        if sql[i..].starts_with("--") {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
            continue;
        }
        if sql[i..].starts_with("/*") {
            let mut depth = 0;
            while i < b.len() {
                if sql.as_bytes()[i..].starts_with(b"/*") {
                    depth += 1;
                    i += 2;
                } else if sql.as_bytes()[i..].starts_with(b"*/") {
                    depth -= 1;
                    i += 2;
                    if depth == 0 {
                        break;
                    }
                } else {
                    i += 1;
                }
            }
            continue;
        }
        let tok = if c == b'\''
            || ((c == b'e' || c == b'E') && b.get(i + 1) == Some(&b'\''))
        {
            let escapes = c != b'\'';
            if escapes {
                i += 1;
            }
            i += 1;
            let mut text = Vec::new();
            loop {
                match b.get(i) {
                    None => return Err(err("unterminated quoted string").into()),
                    Some(b'\'') if b.get(i + 1) == Some(&b'\'') => {
                        text.push(b'\'');
                        i += 2;
                    }
                    Some(b'\'') => {
                        i += 1;
                        break;
                    }
                    Some(b'\\') if escapes => {
                        let e = *b.get(i + 1).unwrap_or(&b'\\');
                        text.push(match e {
                            b'n' => b'\n',
                            b't' => b'\t',
                            b'r' => b'\r',
                            e => e,
                        });
                        i += 2;
                    }
                    Some(c) => {
                        text.push(*c);
                        i += 1;
                    }
                }
            }
            Tok::Str(String::from_utf8(text).unwrap())
        } else if c == b'"' {
            i += 1;
            let mut text = Vec::new();
            loop {
                match b.get(i) {
                    None => return Err(err("unterminated quoted identifier").into()),
                    Some(b'"') if b.get(i + 1) == Some(&b'"') => {
                        text.push(b'"');
                        i += 2;
                    }
                    Some(b'"') => {
                        i += 1;
                        break;
                    }
                    Some(c) => {
                        text.push(*c);
                        i += 1;
                    }
                }
            }
            Tok::Quoted(String::from_utf8(text).unwrap())
        } else if c == b'$' && b.get(i + 1).is_some_and(u8::is_ascii_digit) {
            i += 1;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            Tok::Param(sql[start + 1..i].parse().map_err(|_| err("bad parameter"))?)
        } else if c == b'$' {
            let close = sql[i + 1..].find('$').ok_or_else(|| err("syntax error at or near \"$\""))?;
            let tag = &sql[i..i + close + 2];
            let body = i + tag.len();
            let end = sql[body..]
                .find(tag)
                .ok_or_else(|| err("unterminated dollar-quoted string"))?;
            i = body + end + tag.len();
            Tok::Str(sql[body..body + end].to_owned())
        } else if c.is_ascii_alphabetic() || c == b'_' || c >= 0x80 {
            while i < b.len()
                && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'$' || b[i] >= 0x80)
            {
                i += 1;
            }
            Tok::Id(sql[start..i].to_lowercase())
        } else if c.is_ascii_digit() || (c == b'.' && b.get(i + 1).is_some_and(u8::is_ascii_digit))
        {
            while i < b.len() && (b[i].is_ascii_digit() || b[i] == b'.') {
                i += 1;
            }
            if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
                i += 1;
                if i < b.len() && (b[i] == b'-' || b[i] == b'+') {
                    i += 1;
                }
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
            }
            Tok::Num(sql[start..i].to_owned())
        } else if b"()[],;".contains(&c) {
            i += 1;
            Tok::Op((c as char).to_string())
        } else if c == b'.' {
            i += 1;
            Tok::Op(".".to_owned())
        } else if c == b':' {
            i += 1;
            if i < b.len() && (b[i] == b':' || b[i] == b'=') {
                i += 1;
            }
            Tok::Op(sql[start..i].to_owned())
        } else if b"+-*/<>=~!@#%^&|?`".contains(&c) {
            while i < b.len() && b"+-*/<>=~!@#%^&|?`".contains(&b[i]) {
                if i > start && (sql[i..].starts_with("--") || sql[i..].starts_with("/*")) {
                    break;
                }
                i += 1;
            }
            // An operator of several characters may end in + or - only if it also contains one of
            // the more unusual characters.
            while i - start > 1
                && (b[i - 1] == b'+' || b[i - 1] == b'-')
                && !sql[start..i].contains(['~', '!', '@', '#', '%', '^', '&', '|', '`', '?'])
            {
                i -= 1;
            }
            let op = &sql[start..i];
            Tok::Op(if op == "!=" { "<>".to_owned() } else { op.to_owned() })
        } else {
            return Err(err(&format!("syntax error at or near \"{}\"", c as char)).into());
        };
        out.push(Token { tok, start, end: i });
    }
    out.push(Token {
        tok: Tok::Eof,
        start: sql.len(),
        end: sql.len(),
    });
    Ok(out)
}
