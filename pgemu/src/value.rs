//! Types and values.
use std::cmp::Ordering;

use chrono::{DateTime, Datelike, Months, NaiveDate, NaiveDateTime, Timelike};

use crate::{PgErr, Res, Stop};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum T {
    Bool,
    Int2,
    Int4,
    Int8,
    Float8,
    Numeric,
    Text,
    Varchar,
    Name,
    Char,
    Ts,
    Tstz,
    Date,
    Interval,
    Json,
    Jsonb,
    Bytea,
    Oid,
    Regtype,
    Uuid,
    Enum(usize),
    Array(Box<T>),
    Unknown,
    Void,
    Record,
}

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Null,
    Bool(bool),
    Int(i64),
    Float(f64),
    Text(String),
    /// Microseconds since the epoch.
    Ts(i64),
    Interval(i32, i32, i64),
    Json(serde_json::Value),
    Bytes(Vec<u8>),
    Enum(usize, usize),
    Array(Vec<V>),
    Row(Vec<V>),
}

/// The user defined enums.
#[derive(Clone, Debug, Default)]
pub struct Enums(pub Vec<(String, Vec<String>)>);

const ENUM_OID: u32 = 16400;
const BUILTIN: &[(T, u32, u32, &str, &str)] = &[
    (T::Bool, 16, 1000, "boolean", "bool"),
    (T::Bytea, 17, 1001, "bytea", "bytea"),
    (T::Char, 18, 1002, "\"char\"", "char"),
    (T::Name, 19, 1003, "name", "name"),
    (T::Int8, 20, 1016, "bigint", "int8"),
    (T::Int2, 21, 1005, "smallint", "int2"),
    (T::Int4, 23, 1007, "integer", "int4"),
    (T::Text, 25, 1009, "text", "text"),
    (T::Oid, 26, 1028, "oid", "oid"),
    (T::Json, 114, 199, "json", "json"),
    (T::Float8, 701, 1022, "double precision", "float8"),
    (T::Varchar, 1043, 1015, "character varying", "varchar"),
    (T::Date, 1082, 1182, "date", "date"),
    (T::Ts, 1114, 1115, "timestamp without time zone", "timestamp"),
    (T::Tstz, 1184, 1185, "timestamp with time zone", "timestamptz"),
    (T::Interval, 1186, 1187, "interval", "interval"),
    (T::Numeric, 1700, 1231, "numeric", "numeric"),
    (T::Regtype, 2206, 2211, "regtype", "regtype"),
    (T::Uuid, 2950, 2951, "uuid", "uuid"),
    (T::Jsonb, 3802, 3807, "jsonb", "jsonb"),
];

impl Enums {
    pub fn oid(&self, ty: &T) -> u32 {
        match ty {
            T::Enum(n) => ENUM_OID + 2 * *n as u32,
            T::Array(elem) => match &**elem {
                T::Enum(n) => ENUM_OID + 2 * *n as u32 + 1,
                elem => BUILTIN.iter().find(|b| b.0 == *elem).map_or(0, |b| b.2),
            },
            T::Unknown => 25,
            T::Void => 2278,
            T::Record => 2249,
            ty => BUILTIN.iter().find(|b| b.0 == *ty).map_or(0, |b| b.1),
        }
    }

    pub fn by_oid(&self, oid: u32) -> Option<T> {
        if oid >= ENUM_OID {
            let n = ((oid - ENUM_OID) / 2) as usize;
            if n >= self.0.len() {
                return None;
            }
            return Some(if oid % 2 == 0 {
                T::Enum(n)
            } else {
                T::Array(Box::new(T::Enum(n)))
            });
        }
        BUILTIN
            .iter()
            .find_map(|b| {
                if b.1 == oid {
                    Some(b.0.clone())
                } else if b.2 == oid {
                    Some(T::Array(Box::new(b.0.clone())))
                } else {
                    None
                }
            })
            .or(match oid {
                705 => Some(T::Unknown),
                2278 => Some(T::Void),
                _ => None,
            })
    }

    pub fn by_name(&self, name: &str) -> Res<T> {
        let name = name.trim();
        if let Some(elem) = name.strip_suffix("[]").or(name.strip_prefix('_')) {
            return Ok(T::Array(Box::new(self.by_name(elem)?)));
        }
        let name = name.strip_prefix("public.").unwrap_or(name);
        let name = name.strip_prefix("pg_catalog.").unwrap_or(name);
        if let Some(n) = self.0.iter().position(|e| e.0.eq_ignore_ascii_case(name)) {
            return Ok(T::Enum(n));
        }
        BUILTIN
            .iter()
            .find(|b| b.3.eq_ignore_ascii_case(name) || b.4.eq_ignore_ascii_case(name))
            .map(|b| b.0.clone())
            .ok_or_else(|| PgErr::new("42704", format!("type \"{name}\" does not exist")).into())
    }

    pub fn name(&self, ty: &T) -> String {
        match ty {
            T::Enum(n) => self.0[*n].0.clone(),
            T::Array(elem) => format!("{}[]", self.name(elem)),
            T::Unknown => "unknown".to_owned(),
            T::Void => "void".to_owned(),
            T::Record => "record".to_owned(),
            ty => BUILTIN.iter().find(|b| b.0 == *ty).unwrap().3.to_owned(),
        }
    }

    /// (type, oid, name, kind, category, element, array)
    pub fn catalog(&self) -> Vec<(u32, String, char, char, u32, u32)> {
        let mut out = Vec::new();
        for (ty, oid, array, _, name) in BUILTIN {
            let _ = ty;
            out.push((*oid, name.to_string(), 'b', 'U', 0, *array));
            out.push((*array, format!("_{name}"), 'b', 'A', *oid, 0));
        }
        for (n, (name, _)) in self.0.iter().enumerate() {
            let oid = ENUM_OID + 2 * n as u32;
            out.push((oid, name.clone(), 'e', 'E', 0, oid + 1));
            out.push((oid + 1, format!("_{name}"), 'b', 'A', oid, 0));
        }
        out
    }

    pub fn size(&self, ty: &T) -> i16 {
        match ty {
            T::Bool | T::Char => 1,
            T::Int2 => 2,
            T::Int4 | T::Oid | T::Regtype | T::Enum(_) | T::Date => 4,
            T::Int8 | T::Float8 | T::Ts | T::Tstz => 8,
            T::Interval | T::Uuid => 16,
            T::Name => 64,
            _ => -1,
        }
    }

    pub fn text(&self, v: &V, ty: &T) -> String {
        match (v, ty) {
            (V::Null, _) => "NULL".to_owned(),
            (V::Bool(b), _) => if *b { "true" } else { "false" }.to_owned(),
            (V::Int(n), T::Regtype) => self
                .by_oid(*n as u32)
                .map_or_else(|| n.to_string(), |ty| self.name(&ty)),
            (V::Int(n), T::Char) => (*n as u8 as char).to_string(),
            (V::Int(n), _) => n.to_string(),
            (V::Float(f), _) => f.to_string(),
            (V::Text(s), _) => s.clone(),
            (V::Ts(us), T::Ts) => ts_text(*us, ' '),
            (V::Ts(us), T::Date) => ts_text(*us, ' ')[..10].to_owned(),
            (V::Ts(us), _) => format!("{}+00", ts_text(*us, ' ')),
            (V::Interval(m, d, us), _) => {
                let mut out = Vec::new();
                if *m != 0 {
                    out.push(format!("{m} mons"));
                }
                if *d != 0 {
                    out.push(format!("{d} days"));
                }
                if *us != 0 || out.is_empty() {
                    let a = us.abs();
                    let mut t = format!(
                        "{}{:02}:{:02}:{:02}",
                        if *us < 0 { "-" } else { "" },
                        a / 3_600_000_000,
                        a / 60_000_000 % 60,
                        a / 1_000_000 % 60
                    );
                    if a % 1_000_000 != 0 {
                        t.push_str(format!(".{:06}", a % 1_000_000).trim_end_matches('0'));
                    }
                    out.push(t);
                }
                out.join(" ")
            }
            (V::Json(j), T::Jsonb) => jsonb_text(j),
            (V::Json(j), _) => j.to_string(),
            (V::Bytes(b), _) => {
                let mut s = "\\x".to_owned();
                b.iter().for_each(|b| s.push_str(&format!("{b:02x}")));
                s
            }
            (V::Enum(e, n), _) => self.0[*e].1[*n].clone(),
            (V::Array(vs), T::Array(elem)) => {
                let parts: Vec<String> = vs
                    .iter()
                    .map(|v| {
                        let s = self.text(v, elem);
                        if *v != V::Null
                            && (s.is_empty()
                                || s.eq_ignore_ascii_case("null")
                                || s.contains(['{', '}', ',', '"', '\\', ' ', '\n', '\t']))
                        {
                            format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""))
                        } else {
                            s
                        }
                    })
                    .collect();
                format!("{{{}}}", parts.join(","))
            }
            (V::Array(_), _) => "{}".to_owned(),
            (V::Row(vs), _) => {
                let parts: Vec<String> = vs.iter().map(|v| self.text(v, &T::Text)).collect();
                format!("({})", parts.join(","))
            }
        }
    }

    /// Input conversion.
    pub fn parse(&self, s: &str, ty: &T) -> Res<V> {
        let bad = || -> Stop {
            PgErr::new(
                "22P02",
                format!("invalid input syntax for type {}: \"{s}\"", self.name(ty)),
            )
            .into()
        };
        let t = s.trim();
        Ok(match ty {
            T::Bool => match t.to_lowercase().as_str() {
                "t" | "true" | "yes" | "on" | "1" | "y" => V::Bool(true),
                "f" | "false" | "no" | "off" | "0" | "n" => V::Bool(false),
                _ => return Err(bad()),
            },
            T::Int2 | T::Int4 | T::Int8 | T::Oid => {
                let n: i64 = t.parse().map_err(|_| bad())?;
                return self.in_range(n, ty);
            }
            T::Float8 | T::Numeric => V::Float(t.parse().map_err(|_| bad())?),
            T::Text | T::Varchar | T::Name | T::Unknown => V::Text(s.to_owned()),
            T::Char => V::Int(s.bytes().next().unwrap_or(0) as i64),
            T::Ts | T::Tstz | T::Date => V::Ts(parse_ts(t).ok_or_else(bad)?),
            T::Interval => {
                let (m, d, us) = parse_interval(t).ok_or_else(bad)?;
                V::Interval(m, d, us)
            }
            T::Json | T::Jsonb => V::Json(serde_json::from_str(s).map_err(|_| bad())?),
            T::Bytea => {
                let hex = t.strip_prefix("\\x").ok_or_else(bad)?;
                let mut out = Vec::new();
                for pair in hex.as_bytes().chunks(2) {
                    let pair = std::str::from_utf8(pair).map_err(|_| bad())?;
                    out.push(u8::from_str_radix(pair, 16).map_err(|_| bad())?);
                }
                V::Bytes(out)
            }
            T::Regtype => V::Int(match t.parse::<u32>() {
                Ok(n) => n.into(),
                Err(_) => self.oid(&self.by_name(t)?).into(),
            }),
            T::Uuid => V::Text(t.to_lowercase()),
            T::Enum(n) => match self.0[*n].1.iter().position(|label| label == s) {
                Some(i) => V::Enum(*n, i),
                None => {
                    return Err(PgErr::new(
                        "22P02",
                        format!("invalid input value for enum {}: \"{s}\"", self.0[*n].0),
                    )
                    .into());
                }
            },
            T::Array(elem) => {
                let inner = t
                    .strip_prefix('{')
                    .and_then(|t| t.strip_suffix('}'))
                    .ok_or_else(bad)?;
                let mut out = Vec::new();
                let mut chars = inner.chars().peekable();
                if inner.trim().is_empty() {
                    return Ok(V::Array(out));
                }
                loop {
                    while chars.peek().is_some_and(|c| c.is_whitespace()) {
                        chars.next();
                    }
                    let mut text = String::new();
                    let quoted = chars.peek() == Some(&'"');
                    if quoted {
                        chars.next();
                        loop {
                            match chars.next().ok_or_else(bad)? {
                                '"' => break,
                                '\\' => text.push(chars.next().ok_or_else(bad)?),
                                c => text.push(c),
                            }
                        }
                    } else {
                        while let Some(c) = chars.peek().filter(|c| **c != ',') {
                            text.push(*c);
                            chars.next();
                        }
                    }
                    out.push(if !quoted && text.trim().eq_ignore_ascii_case("null") {
                        V::Null
                    } else {
                        self.parse(if quoted { &text } else { text.trim() }, elem)?
                    });
                    match chars.next() {
                        None => break,
                        Some(',') => {}
                        Some(_) => return Err(bad()),
                    }
                }
                V::Array(out)
            }
            T::Void | T::Record => return Err(bad()),
        })
    }

    pub fn in_range(&self, n: i64, ty: &T) -> Res<V> {
        let ok = match ty {
            T::Int2 => i16::try_from(n).is_ok(),
            T::Int4 => i32::try_from(n).is_ok(),
            T::Oid | T::Regtype => u32::try_from(n).is_ok(),
            _ => true,
        };
        if ok {
            Ok(V::Int(n))
        } else {
            Err(PgErr::new("22003", format!("{} out of range", self.name(ty))).into())
        }
    }

    pub fn encode(&self, v: &V, ty: &T, out: &mut Vec<u8>) -> Res<()> {
        match (v, ty) {
            (V::Bool(b), T::Bool) => out.push(*b as u8),
            (V::Int(n), T::Int2) => out.extend((*n as i16).to_be_bytes()),
            (V::Int(n), T::Int4) => out.extend((*n as i32).to_be_bytes()),
            (V::Int(n), T::Oid | T::Regtype) => out.extend((*n as u32).to_be_bytes()),
            (V::Int(n), T::Int8) => out.extend(n.to_be_bytes()),
            (V::Int(n), T::Char) => out.push(*n as u8),
            (V::Float(f), T::Float8) => out.extend(f.to_be_bytes()),
            (V::Int(n), T::Float8) => out.extend((*n as f64).to_be_bytes()),
            (V::Text(s), T::Uuid) => {
                let hex: String = s.chars().filter(|c| *c != '-').collect();
                for pair in hex.as_bytes().chunks(2) {
                    out.push(u8::from_str_radix(std::str::from_utf8(pair).unwrap(), 16).unwrap());
                }
            }
            (V::Text(s), _) => out.extend(s.as_bytes()),
            (V::Ts(us), T::Ts | T::Tstz) => out.extend((us - PG_EPOCH).to_be_bytes()),
            (V::Interval(m, d, us), _) => {
                out.extend(us.to_be_bytes());
                out.extend(d.to_be_bytes());
                out.extend(m.to_be_bytes());
            }
            (V::Json(_), T::Jsonb) => {
                out.push(1);
                out.extend(self.text(v, ty).as_bytes());
            }
            (V::Json(j), _) => out.extend(j.to_string().as_bytes()),
            (V::Bytes(b), _) => out.extend(b),
            (V::Enum(e, n), _) => out.extend(self.0[*e].1[*n].as_bytes()),
            (V::Array(vs), T::Array(elem)) => {
                out.extend(if vs.is_empty() { 0i32 } else { 1 }.to_be_bytes());
                out.extend((vs.contains(&V::Null) as i32).to_be_bytes());
                out.extend(self.oid(elem).to_be_bytes());
                if !vs.is_empty() {
                    out.extend((vs.len() as i32).to_be_bytes());
                    out.extend(1i32.to_be_bytes());
                    for v in vs {
                        self.encode_field(v, elem, out)?;
                    }
                }
            }
            (v, ty) => {
                return Err(Stop::unsupported(format!(
                    "binary output of {v:?} as {}",
                    self.name(ty)
                )));
            }
        }
        Ok(())
    }

    pub fn encode_field(&self, v: &V, ty: &T, out: &mut Vec<u8>) -> Res<()> {
        if *v == V::Null || *ty == T::Void {
            if *ty == T::Void && *v != V::Null {
                out.extend(0i32.to_be_bytes());
            } else {
                out.extend((-1i32).to_be_bytes());
            }
            return Ok(());
        }
        let at = out.len();
        out.extend([0; 4]);
        self.encode(v, ty, out)?;
        let len = (out.len() - at - 4) as i32;
        out[at..at + 4].copy_from_slice(&len.to_be_bytes());
        Ok(())
    }

    pub fn decode(&self, b: &[u8], ty: &T) -> Res<V> {
        let bad = || -> Stop {
            PgErr::new(
                "22P03",
                format!("incorrect binary data format for {}", self.name(ty)),
            )
            .into()
        };
        let string = || -> Res<String> {
            if b.contains(&0) {
                return Err(PgErr::new(
                    "22021",
                    "invalid byte sequence for encoding \"UTF8\": 0x00",
                )
                .into());
            }
            String::from_utf8(b.to_vec()).map_err(|_| bad())
        };
        Ok(match ty {
            T::Bool => V::Bool(*b.first().ok_or_else(bad)? != 0),
            T::Int2 => V::Int(i16::from_be_bytes(b.try_into().map_err(|_| bad())?).into()),
            T::Int4 => V::Int(i32::from_be_bytes(b.try_into().map_err(|_| bad())?).into()),
            T::Oid | T::Regtype => V::Int(u32::from_be_bytes(b.try_into().map_err(|_| bad())?).into()),
            T::Int8 => V::Int(i64::from_be_bytes(b.try_into().map_err(|_| bad())?)),
            T::Char => V::Int(*b.first().ok_or_else(bad)? as i64),
            T::Float8 => V::Float(f64::from_be_bytes(b.try_into().map_err(|_| bad())?)),
            T::Text | T::Varchar | T::Name | T::Unknown => V::Text(string()?),
            T::Ts | T::Tstz => V::Ts(
                i64::from_be_bytes(b.try_into().map_err(|_| bad())?)
                    .checked_add(PG_EPOCH)
                    .ok_or_else(bad)?,
            ),
            T::Interval if b.len() == 16 => V::Interval(
                i32::from_be_bytes(b[12..16].try_into().unwrap()),
                i32::from_be_bytes(b[8..12].try_into().unwrap()),
                i64::from_be_bytes(b[0..8].try_into().unwrap()),
            ),
            T::Json => V::Json(serde_json::from_slice(b).map_err(|_| bad())?),
            T::Jsonb => {
                if b.first() != Some(&1) {
                    return Err(bad());
                }
                let j: serde_json::Value = serde_json::from_slice(&b[1..]).map_err(|_| bad())?;
                if has_nul(&j) {
                    return Err(PgErr::new("22P05", "unsupported Unicode escape sequence").into());
                }
                V::Json(j)
            }
            T::Bytea => V::Bytes(b.to_vec()),
            T::Enum(_) => self.parse(&string()?, ty)?,
            T::Uuid => V::Text(b.iter().map(|b| format!("{b:02x}")).collect()),
            T::Array(elem) => {
                let int = |at: usize| -> Res<i32> {
                    Ok(i32::from_be_bytes(
                        b.get(at..at + 4).ok_or_else(bad)?.try_into().unwrap(),
                    ))
                };
                let mut out = Vec::new();
                if int(0)? == 1 {
                    let n = int(12)?;
                    let mut at = 20;
                    for _ in 0..n {
                        let len = int(at)?;
                        at += 4;
                        if len < 0 {
                            out.push(V::Null);
                        } else {
                            let field = b.get(at..at + len as usize).ok_or_else(bad)?;
                            out.push(self.decode(field, elem)?);
                            at += len as usize;
                        }
                    }
                } else if int(0)? > 1 {
                    return Err(Stop::unsupported("arrays of arrays"));
                }
                V::Array(out)
            }
            _ => return Err(Stop::unsupported(format!("binary input of {}", self.name(ty)))),
        })
    }
}

fn has_nul(j: &serde_json::Value) -> bool {
    use serde_json::Value as J;
    match j {
        J::String(s) => s.contains('\0'),
        J::Array(a) => a.iter().any(has_nul),
        J::Object(o) => o.iter().any(|(k, v)| k.contains('\0') || has_nul(v)),
        _ => false,
    }
}

/// 2000-01-01 in microseconds since 1970-01-01.
pub const PG_EPOCH: i64 = 946_684_800_000_000;

pub fn naive(us: i64) -> NaiveDateTime {
    DateTime::from_timestamp_micros(us).unwrap_or_default().naive_utc()
}

pub fn ts_text(us: i64, sep: char) -> String {
    let t = naive(us);
    let mut s = format!(
        "{:04}-{:02}-{:02}{sep}{:02}:{:02}:{:02}",
        t.year(),
        t.month(),
        t.day(),
        t.hour(),
        t.minute(),
        t.second()
    );
    let frac = us.rem_euclid(1_000_000);
    if frac != 0 {
        s.push_str(format!(".{frac:06}").trim_end_matches('0'));
    }
    s
}

fn parse_ts(s: &str) -> Option<i64> {
    if s == "epoch" {
        return Some(0);
    }
    if let Ok(t) = DateTime::parse_from_rfc3339(s) {
        return Some(t.timestamp_micros());
    }
    let s = s.replacen('T', " ", 1);
    for format in ["%Y-%m-%d %H:%M:%S%.f%#z", "%Y-%m-%d %H:%M:%S%.f %#z"] {
        if let Ok(t) = DateTime::parse_from_str(&s, format) {
            return Some(t.timestamp_micros());
        }
    }
    let s = s.trim_end_matches('Z').trim_end_matches(" UTC");
    for format in ["%Y-%m-%d %H:%M:%S%.f", "%Y-%m-%d %H:%M"] {
        if let Ok(t) = NaiveDateTime::parse_from_str(s, format) {
            return Some(t.and_utc().timestamp_micros());
        }
    }
    NaiveDate::parse_from_str(s, "%Y-%m-%d")
        .ok()
        .map(|d| d.and_hms_opt(0, 0, 0).unwrap().and_utc().timestamp_micros())
}

fn parse_interval(s: &str) -> Option<(i32, i32, i64)> {
    let (mut months, mut days, mut us) = (0f64, 0f64, 0f64);
    let mut parts = s.split_whitespace().peekable();
    let mut any = false;
    while let Some(part) = parts.next() {
        if part == "ago" {
            months = -months;
            days = -days;
            us = -us;
            continue;
        }
        any = true;
        if part.contains(':') {
            let (sign, time) = match part.strip_prefix('-') {
                Some(rest) => (-1.0, rest),
                None => (1.0, part.strip_prefix('+').unwrap_or(part)),
            };
            let fields: Vec<&str> = time.split(':').collect();
            let mut total = 0f64;
            let scales = [3600.0, 60.0, 1.0];
            if fields.len() > 3 {
                return None;
            }
            for (field, scale) in fields.iter().zip(scales) {
                total += field.parse::<f64>().ok()? * scale;
            }
            us += sign * (total * 1e6).round();
            continue;
        }
        let split = part
            .find(|c: char| c.is_alphabetic())
            .unwrap_or(part.len());
        let n: f64 = part[..split].parse().ok()?;
        let unit = if split < part.len() {
            part[split..].to_owned()
        } else {
            match parts.peek() {
                Some(unit) if unit.chars().all(|c| c.is_alphabetic()) && *unit != "ago" => {
                    parts.next().unwrap().to_owned()
                }
                None => "second".to_owned(),
                _ => return None,
            }
        };
        match unit.to_lowercase().trim_end_matches('s') {
            "year" | "yr" | "y" => months += n * 12.0,
            "mon" | "month" => months += n,
            "week" | "w" => days += n * 7.0,
            "day" | "d" => days += n,
            "hour" | "hr" | "h" => us += n * 3.6e9,
            "minute" | "min" | "m" => us += n * 6e7,
            "second" | "sec" | "" => us += n * 1e6,
            "millisecond" | "msec" | "m " => us += n * 1e3,
            "microsecond" | "usec" | "u" => us += n,
            _ => return None,
        }
    }
    if !any {
        return None;
    }
    us += days.fract() * 86_400e6;
    Some((months as i32, days.trunc() as i32, us.round() as i64))
}

pub fn add_interval(us: i64, (m, d, t): (i32, i32, i64)) -> Option<i64> {
    let mut at = us;
    if m != 0 {
        let base = naive(at);
        let moved = if m > 0 {
            base.checked_add_months(Months::new(m as u32))?
        } else {
            base.checked_sub_months(Months::new(m.unsigned_abs()))?
        };
        at = moved.and_utc().timestamp_micros();
    }
    at.checked_add(d as i64 * 86_400_000_000)?.checked_add(t)
}

pub fn interval_us(m: i32, d: i32, us: i64) -> i128 {
    (m as i128 * 30 + d as i128) * 86_400_000_000 + us as i128
}

fn jsonb_text(j: &serde_json::Value) -> String {
    use serde_json::Value as J;
    match j {
        J::Array(a) => {
            let parts: Vec<String> = a.iter().map(jsonb_text).collect();
            format!("[{}]", parts.join(", "))
        }
        J::Object(o) => {
            // Keys are ordered by length first.
            let mut keys: Vec<_> = o.iter().collect();
            keys.sort_by_key(|(k, _)| (k.len(), k.as_bytes().to_vec()));
            let parts: Vec<String> = keys
                .iter()
                .map(|(k, v)| format!("{}: {}", J::String(k.to_string()), jsonb_text(v)))
                .collect();
            format!("{{{}}}", parts.join(", "))
        }
        j => j.to_string(),
    }
}

fn json_rank(j: &serde_json::Value) -> u8 {
    use serde_json::Value as J;
    match j {
        J::Null => 0,
        J::String(_) => 1,
        J::Number(_) => 2,
        J::Bool(_) => 3,
        J::Array(_) => 4,
        J::Object(_) => 5,
    }
}

fn num_cmp(a: &serde_json::Number, b: &serde_json::Number) -> Ordering {
    let int = |n: &serde_json::Number| {
        n.as_i64().map(i128::from).or(n.as_u64().map(i128::from))
    };
    match (int(a), int(b)) {
        (Some(a), Some(b)) => a.cmp(&b),
        _ => a
            .as_f64()
            .partial_cmp(&b.as_f64())
            .unwrap_or(Ordering::Equal),
    }
}

pub fn json_cmp(a: &serde_json::Value, b: &serde_json::Value) -> Ordering {
    use serde_json::Value as J;
    match (a, b) {
        (J::String(a), J::String(b)) => a.cmp(b),
        (J::Number(a), J::Number(b)) => num_cmp(a, b),
        (J::Bool(a), J::Bool(b)) => a.cmp(b),
        (J::Array(a), J::Array(b)) => a.len().cmp(&b.len()).then_with(|| {
            a.iter()
                .zip(b)
                .map(|(a, b)| json_cmp(a, b))
                .find(|o| o.is_ne())
                .unwrap_or(Ordering::Equal)
        }),
        (J::Object(a), J::Object(b)) => a.len().cmp(&b.len()).then_with(|| {
            a.iter()
                .zip(b)
                .map(|(a, b)| a.0.cmp(b.0).then_with(|| json_cmp(a.1, b.1)))
                .find(|o| o.is_ne())
                .unwrap_or(Ordering::Equal)
        }),
        (a, b) => json_rank(a).cmp(&json_rank(b)),
    }
}

/// jsonb containment.
pub fn json_contains(a: &serde_json::Value, b: &serde_json::Value, top: bool) -> bool {
    use serde_json::Value as J;
    match (a, b) {
        (J::Object(a), J::Object(b)) => b
            .iter()
            .all(|(k, v)| a.get(k).is_some_and(|w| json_contains(w, v, false))),
        (J::Array(a), J::Array(b)) => b
            .iter()
            .all(|v| a.iter().any(|w| json_contains(w, v, false))),
        (J::Array(a), b) if top && !b.is_object() => a.iter().any(|w| json_cmp(w, b).is_eq()),
        (a, b) => json_cmp(a, b).is_eq(),
    }
}

/// Compare two values of the same type that are not null.
pub fn cmp(a: &V, b: &V) -> Ordering {
    match (a, b) {
        (V::Bool(a), V::Bool(b)) => a.cmp(b),
        (V::Int(a), V::Int(b)) => a.cmp(b),
        (V::Float(a), V::Float(b)) => a.total_cmp(b),
        (V::Int(a), V::Float(b)) => (*a as f64).total_cmp(b),
        (V::Float(a), V::Int(b)) => a.total_cmp(&(*b as f64)),
        (V::Text(a), V::Text(b)) => a.cmp(b),
        (V::Ts(a), V::Ts(b)) => a.cmp(b),
        (V::Interval(m, d, us), V::Interval(n, e, vs)) => {
            interval_us(*m, *d, *us).cmp(&interval_us(*n, *e, *vs))
        }
        (V::Json(a), V::Json(b)) => json_cmp(a, b),
        (V::Bytes(a), V::Bytes(b)) => a.cmp(b),
        (V::Enum(_, a), V::Enum(_, b)) => a.cmp(b),
        (V::Array(a), V::Array(b)) | (V::Row(a), V::Row(b)) => a
            .iter()
            .zip(b)
            .map(|(a, b)| match (a, b) {
                (V::Null, V::Null) => Ordering::Equal,
                (V::Null, _) => Ordering::Greater,
                (_, V::Null) => Ordering::Less,
                (a, b) => cmp(a, b),
            })
            .find(|o| o.is_ne())
            .unwrap_or_else(|| a.len().cmp(&b.len())),
        (a, b) => panic!("comparison of {a:?} and {b:?}"),
    }
}

pub fn eq(a: &V, b: &V) -> bool {
    cmp(a, b).is_eq()
}

/// As JSON, as to_jsonb does.
pub fn to_json(v: &V, ty: &T, enums: &Enums) -> serde_json::Value {
    use serde_json::Value as J;
    match (v, ty) {
        (V::Null, _) => J::Null,
        (V::Bool(b), _) => J::Bool(*b),
        (V::Int(n), T::Int2 | T::Int4 | T::Int8) => J::from(*n),
        (V::Float(f), _) => J::from(*f),
        (V::Json(j), _) => j.clone(),
        (V::Ts(us), T::Ts) => J::String(ts_text(*us, 'T')),
        (V::Ts(us), T::Tstz) => J::String(format!("{}+00:00", ts_text(*us, 'T'))),
        (V::Array(vs), T::Array(elem)) => {
            J::Array(vs.iter().map(|v| to_json(v, elem, enums)).collect())
        }
        (v, ty) => J::String(enums.text(v, ty)),
    }
}
