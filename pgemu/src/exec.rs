//! Execution of bound statements.
use std::{
    cmp::Ordering,
    collections::{BTreeMap, HashMap},
    sync::Arc,
};

use crate::{
    PgErr, Res, Stop,
    ast::*,
    bind::*,
    db::*,
    value::{self, T, V},
};

pub type Rows = Vec<Vec<V>>;

pub struct Cx<'a> {
    pub db: &'a mut Db,
    pub conn: usize,
    pub tx: u64,
    pub snap: u64,
    pub cmd: u32,
    pub repeatable: bool,
    pub params: Vec<V>,
    /// Start of the transaction.
    pub now: i64,
    /// The present.
    pub clock: i64,
    pub notifies: &'a mut Vec<(String, String)>,
    pub ctes: HashMap<usize, Arc<Rows>>,
    pub subs: HashMap<usize, Arc<Rows>>,
    pub depth: usize,
}

pub struct Env<'e> {
    row: &'e [V],
    parent: Option<&'e Env<'e>>,
    aggs: &'e [V],
    wins: &'e [V],
}

impl<'e> Env<'e> {
    pub fn new(row: &'e [V], parent: Option<&'e Env<'e>>) -> Self {
        Self {
            row,
            parent,
            aggs: &[],
            wins: &[],
        }
    }
}

#[derive(Clone)]
struct Tuple {
    row: Vec<V>,
    /// For every base table: its name, the row, the version and where its columns start.
    ids: Vec<Option<(String, u64, usize, usize)>>,
    wins: Vec<V>,
    aggs: Vec<V>,
}

pub struct Done {
    pub rows: Rows,
    pub tag: String,
}

fn truth(v: &V) -> Option<bool> {
    match v {
        V::Bool(b) => Some(*b),
        _ => None,
    }
}

fn tri(v: Option<bool>) -> V {
    v.map_or(V::Null, V::Bool)
}

/// Ordering for sorts: nulls last unless said otherwise.
fn sort_cmp(a: &V, b: &V, desc: bool, nulls_first: bool) -> Ordering {
    match (a, b) {
        (V::Null, V::Null) => Ordering::Equal,
        (V::Null, _) => {
            if nulls_first {
                Ordering::Less
            } else {
                Ordering::Greater
            }
        }
        (_, V::Null) => {
            if nulls_first {
                Ordering::Greater
            } else {
                Ordering::Less
            }
        }
        (a, b) => {
            let o = value::cmp(a, b);
            if desc { o.reverse() } else { o }
        }
    }
}

fn same(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Null, V::Null) => true,
        (V::Null, _) | (_, V::Null) => false,
        (a, b) => value::eq(a, b),
    }
}

fn same_row(a: &[V], b: &[V]) -> bool {
    a.iter().zip(b).all(|(a, b)| same(a, b))
}

fn compare(cmp: Cmp, a: &V, b: &V) -> Option<bool> {
    if *a == V::Null || *b == V::Null {
        return None;
    }
    if let (V::Row(a), V::Row(b)) = (a, b) {
        // By elements, from the left.
        for (a, b) in a.iter().zip(b) {
            match compare(Cmp::Eq, a, b) {
                Some(true) => {}
                Some(false) => {
                    return match cmp {
                        Cmp::Eq => Some(false),
                        Cmp::Ne => Some(true),
                        cmp => compare(cmp, a, b),
                    };
                }
                None => return None,
            }
        }
        return Some(matches!(cmp, Cmp::Eq | Cmp::Le | Cmp::Ge));
    }
    let o = value::cmp(a, b);
    Some(match cmp {
        Cmp::Eq => o.is_eq(),
        Cmp::Ne => o.is_ne(),
        Cmp::Lt => o.is_lt(),
        Cmp::Le => o.is_le(),
        Cmp::Gt => o.is_gt(),
        Cmp::Ge => o.is_ge(),
    })
}

fn like(s: &[char], p: &[char]) -> bool {
    match p.split_first() {
        None => s.is_empty(),
        Some(('%', rest)) => (0..=s.len()).any(|i| like(&s[i..], rest)),
        Some(('_', rest)) => !s.is_empty() && like(&s[1..], rest),
        Some(('\\', rest)) if !rest.is_empty() => {
            s.first() == rest.first() && like(&s[1..], &rest[1..])
        }
        Some((c, rest)) => s.first() == Some(c) && like(&s[1..], rest),
    }
}

fn out_of_range(what: &str) -> Stop {
    PgErr::new("22003", format!("{what} out of range")).into()
}

impl Cx<'_> {
    pub fn eval(&mut self, b: &B, env: &Env) -> Res<V> {
        Ok(match b {
            B::Const(v) => v.clone(),
            B::Param(n) => self.params.get(*n).cloned().ok_or_else(|| {
                Stop::from(PgErr::new("08P01", "parameter is not bound"))
            })?,
            B::Col(depth, i) => {
                let mut env = env;
                for _ in 0..*depth {
                    env = env.parent.expect("an enclosing query");
                }
                env.row[*i].clone()
            }
            B::Agg(i) => env.aggs[*i].clone(),
            B::Win(i) => env.wins[*i].clone(),
            B::Default => unreachable!("DEFAULT"),
            B::Cast(b, from, to) => {
                let v = self.eval(b, env)?;
                self.cast(v, from, to)?
            }
            B::Cmp(cmp, l, r) => {
                let l = self.eval(l, env)?;
                let r = self.eval(r, env)?;
                tri(compare(*cmp, &l, &r))
            }
            B::Arith(kind, l, r, ty) => {
                let l = self.eval(l, env)?;
                let r = self.eval(r, env)?;
                self.arith(*kind, l, r, ty)?
            }
            B::Neg(b) => match self.eval(b, env)? {
                V::Int(n) => V::Int(n.checked_neg().ok_or_else(|| out_of_range("bigint"))?),
                V::Float(f) => V::Float(-f),
                V::Interval(m, d, us) => V::Interval(-m, -d, -us),
                v => v,
            },
            B::And(l, r) => {
                let l = truth(&self.eval(l, env)?);
                if l == Some(false) {
                    return Ok(V::Bool(false));
                }
                let r = truth(&self.eval(r, env)?);
                tri(match (l, r) {
                    (_, Some(false)) => Some(false),
                    (Some(true), Some(true)) => Some(true),
                    _ => None,
                })
            }
            B::Or(l, r) => {
                let l = truth(&self.eval(l, env)?);
                if l == Some(true) {
                    return Ok(V::Bool(true));
                }
                let r = truth(&self.eval(r, env)?);
                tri(match (l, r) {
                    (_, Some(true)) => Some(true),
                    (Some(false), Some(false)) => Some(false),
                    _ => None,
                })
            }
            B::Not(b) => tri(truth(&self.eval(b, env)?).map(|b| !b)),
            B::IsNull(b, not) => V::Bool((self.eval(b, env)? == V::Null) != *not),
            B::Distinct(l, r, not) => {
                let l = self.eval(l, env)?;
                let r = self.eval(r, env)?;
                V::Bool(same(&l, &r) == *not)
            }
            B::IsBool(b, want, not) => {
                let v = truth(&self.eval(b, env)?);
                V::Bool((v == *want) != *not)
            }
            B::In(b, list, not) => {
                let v = self.eval(b, env)?;
                let mut result = Some(false);
                for item in list {
                    let item = self.eval(item, env)?;
                    match compare(Cmp::Eq, &v, &item) {
                        Some(true) => {
                            result = Some(true);
                            break;
                        }
                        Some(false) => {}
                        None => result = None,
                    }
                }
                tri(result.map(|r| r != *not))
            }
            B::Quant(l, cmp, all, r) => {
                let l = self.eval(l, env)?;
                let r = self.eval(r, env)?;
                match r {
                    V::Array(items) => tri(quantified(&l, *cmp, *all, items.iter())),
                    _ => V::Null,
                }
            }
            B::Sub(kind, select, id) => self.sub(kind, select, *id, env)?,
            B::Case(arms, other) => {
                for (when, then) in arms {
                    if self.eval(when, env)? == V::Bool(true) {
                        return self.eval(then, env);
                    }
                }
                match other {
                    Some(other) => self.eval(other, env)?,
                    None => V::Null,
                }
            }
            B::Func(name, args, ty) => {
                let mut values = Vec::new();
                for (arg, _) in args {
                    values.push(self.eval(arg, env)?);
                }
                let types: Vec<&T> = args.iter().map(|a| &a.1).collect();
                self.func(name, values, &types, ty)?
            }
            B::Array(list) => V::Array(
                list.iter()
                    .map(|b| self.eval(b, env))
                    .collect::<Res<_>>()?,
            ),
            B::Index(b, i) => match (self.eval(b, env)?, self.eval(i, env)?) {
                (V::Array(items), V::Int(i)) if i >= 1 => {
                    items.get(i as usize - 1).cloned().unwrap_or(V::Null)
                }
                _ => V::Null,
            },
            B::Row(list) => V::Row(
                list.iter()
                    .map(|b| self.eval(b, env))
                    .collect::<Res<_>>()?,
            ),
            B::Like(l, r, insensitive, not) => {
                match (self.eval(l, env)?, self.eval(r, env)?) {
                    (V::Text(mut s), V::Text(mut p)) => {
                        if *insensitive {
                            s = s.to_lowercase();
                            p = p.to_lowercase();
                        }
                        let s: Vec<char> = s.chars().collect();
                        let p: Vec<char> = p.chars().collect();
                        V::Bool(like(&s, &p) != *not)
                    }
                    _ => V::Null,
                }
            }
        })
    }

    fn sub(&mut self, kind: &SubKind, select: &BSelect, id: Option<usize>, env: &Env) -> Res<V> {
        let rows = match id.and_then(|id| self.subs.get(&id)) {
            Some(rows) => rows.clone(),
            None => {
                let rows = Arc::new(self.select(select, Some(env))?);
                if let Some(id) = id {
                    self.subs.insert(id, rows.clone());
                }
                rows
            }
        };
        Ok(match kind {
            SubKind::Scalar => match rows.as_slice() {
                [] => V::Null,
                [row] => row[0].clone(),
                _ => {
                    return Err(PgErr::new(
                        "21000",
                        "more than one row returned by a subquery used as an expression",
                    )
                    .into());
                }
            },
            SubKind::Exists => V::Bool(!rows.is_empty()),
            SubKind::In(lhs, not) => {
                let l = self.eval(lhs, env)?;
                let found = quantified(&l, Cmp::Eq, false, rows.iter().map(|r| &r[0]));
                tri(found.map(|f| f != *not))
            }
            SubKind::Quant(lhs, cmp, all) => {
                let l = self.eval(lhs, env)?;
                tri(quantified(&l, *cmp, *all, rows.iter().map(|r| &r[0])))
            }
            SubKind::Array => V::Array(rows.iter().map(|r| r[0].clone()).collect()),
        })
    }

    fn cast(&mut self, v: V, from: &T, to: &T) -> Res<V> {
        let enums = &self.db.enums;
        Ok(match (v, from, to) {
            (V::Null, _, _) => V::Null,
            (V::Text(s), T::Unknown, to) => enums.parse(&s, to)?,
            (v, T::Unknown, _) => v,
            (V::Array(items), T::Array(from), T::Array(to)) => {
                let mut out = Vec::new();
                for item in items {
                    out.push(self.cast(item, from, to)?);
                }
                V::Array(out)
            }
            (V::Int(n), _, T::Int2 | T::Int4 | T::Int8 | T::Oid | T::Regtype)
                if *from != T::Char =>
            {
                enums.in_range(n, to)?
            }
            (V::Int(n), _, T::Float8 | T::Numeric) => V::Float(n as f64),
            (V::Int(n), _, T::Bool) => V::Bool(n != 0),
            (V::Bool(b), _, T::Int4) => V::Int(b.into()),
            (V::Float(f), _, T::Int2 | T::Int4 | T::Int8) => {
                let r = f.round_ties_even();
                if !(-9.3e18..=9.3e18).contains(&r) {
                    return Err(out_of_range("bigint"));
                }
                enums.in_range(r as i64, to)?
            }
            (V::Float(f), _, T::Float8 | T::Numeric) => V::Float(f),
            (V::Ts(us), _, T::Date) => V::Ts(us - us.rem_euclid(86_400_000_000)),
            (V::Ts(us), _, T::Ts | T::Tstz) => V::Ts(us),
            (V::Json(j), _, T::Json | T::Jsonb) => V::Json(j),
            (V::Json(j), T::Jsonb, T::Bool) => match j.as_bool() {
                Some(b) => V::Bool(b),
                None => return Err(PgErr::new("22023", "cannot cast jsonb to boolean").into()),
            },
            (V::Json(j), T::Jsonb, T::Int2 | T::Int4 | T::Int8 | T::Float8 | T::Numeric) => {
                match (j.as_i64(), j.as_f64()) {
                    (Some(n), _) => self.cast(V::Int(n), &T::Int8, to)?,
                    (None, Some(f)) => self.cast(V::Float(f), &T::Float8, to)?,
                    _ => return Err(PgErr::new("22023", "cannot cast jsonb to number").into()),
                }
            }
            (V::Text(s), _, to) if texty(to) => V::Text(s),
            (v, from, to) if texty(to) => V::Text(enums.text(&v, from)),
            (V::Text(s), _, to) => enums.parse(&s, to)?,
            (v, from, to) => {
                return Err(Stop::unsupported(format!(
                    "cast of {v:?} from {} to {}",
                    enums.name(from),
                    enums.name(to)
                )));
            }
        })
    }

    fn arith(&mut self, kind: Arith, l: V, r: V, ty: &T) -> Res<V> {
        if l == V::Null || r == V::Null {
            return Ok(match kind {
                Arith::ArrCat if l == V::Null => r,
                Arith::ArrCat => l,
                Arith::ArrAppend => match l {
                    V::Array(mut items) => {
                        items.push(r);
                        V::Array(items)
                    }
                    _ => V::Array(vec![r]),
                },
                Arith::ArrPrepend => match r {
                    V::Array(mut items) => {
                        items.insert(0, l);
                        V::Array(items)
                    }
                    _ => V::Array(vec![l]),
                },
                _ => V::Null,
            });
        }
        let ints = |f: fn(i64, i64) -> Option<i64>| -> Res<V> {
            let (V::Int(a), V::Int(b)) = (&l, &r) else {
                panic!("integers expected: {l:?} {r:?}")
            };
            let n = f(*a, *b).ok_or_else(|| out_of_range("integer"))?;
            self.db.enums.in_range(n, ty)
        };
        let zero = || -> Stop { PgErr::new("22012", "division by zero").into() };
        let float = |v: &V| match v {
            V::Int(n) => *n as f64,
            V::Float(f) => *f,
            v => panic!("number expected: {v:?}"),
        };
        let json = |v: &V| match v {
            V::Json(j) => j.clone(),
            v => panic!("json expected: {v:?}"),
        };
        let array = |v: &V| match v {
            V::Array(items) => items.clone(),
            v => panic!("array expected: {v:?}"),
        };
        // Nulls inside of arrays match nothing.
        let contains = |a: &[V], b: &[V]| {
            b.iter()
                .all(|x| a.iter().any(|y| *x != V::Null && *y != V::Null && value::eq(x, y)))
        };
        Ok(match kind {
            Arith::Add => ints(i64::checked_add)?,
            Arith::Sub => ints(i64::checked_sub)?,
            Arith::Mul => ints(i64::checked_mul)?,
            Arith::Div => {
                if r == V::Int(0) {
                    return Err(zero());
                }
                ints(i64::checked_div)?
            }
            Arith::Mod => {
                if r == V::Int(0) {
                    return Err(zero());
                }
                ints(i64::checked_rem)?
            }
            Arith::FAdd => V::Float(float(&l) + float(&r)),
            Arith::FSub => V::Float(float(&l) - float(&r)),
            Arith::FMul => V::Float(float(&l) * float(&r)),
            Arith::FDiv => {
                if float(&r) == 0.0 {
                    return Err(zero());
                }
                V::Float(float(&l) / float(&r))
            }
            Arith::TsAdd | Arith::TsSub => {
                let (V::Ts(us), V::Interval(m, d, t)) = (&l, &r) else {
                    panic!("time and interval expected")
                };
                let by = if kind == Arith::TsAdd {
                    (*m, *d, *t)
                } else {
                    (-m, -d, -t)
                };
                V::Ts(value::add_interval(*us, by).ok_or_else(|| {
                    Stop::from(PgErr::new("22008", "timestamp out of range"))
                })?)
            }
            Arith::TsDiff => {
                let (V::Ts(a), V::Ts(b)) = (&l, &r) else {
                    panic!("times expected")
                };
                let us = a.checked_sub(*b).ok_or_else(|| out_of_range("interval"))?;
                // Whole days are justified.
                let days = us / 86_400_000_000;
                V::Interval(0, days as i32, us - days * 86_400_000_000)
            }
            Arith::IvAdd | Arith::IvSub => {
                let (V::Interval(m, d, t), V::Interval(n, e, u)) = (&l, &r) else {
                    panic!("intervals expected")
                };
                if kind == Arith::IvAdd {
                    V::Interval(m + n, d + e, t + u)
                } else {
                    V::Interval(m - n, d - e, t - u)
                }
            }
            Arith::IvMul | Arith::IvDiv => {
                let V::Interval(m, d, t) = &l else {
                    panic!("interval expected")
                };
                let mut by = float(&r);
                if kind == Arith::IvDiv {
                    if by == 0.0 {
                        return Err(zero());
                    }
                    by = 1.0 / by;
                }
                let months = *m as f64 * by;
                let days = *d as f64 * by + months.fract() * 30.0;
                let us = *t as f64 * by + days.fract() * 86_400e6;
                V::Interval(months as i32, days as i32, us.round() as i64)
            }
            Arith::Concat => match (l, r) {
                (V::Text(a), V::Text(b)) => V::Text(a + &b),
                _ => panic!("texts expected"),
            },
            Arith::ArrCat => {
                let mut items = array(&l);
                items.extend(array(&r));
                V::Array(items)
            }
            Arith::ArrAppend => {
                let mut items = array(&l);
                items.push(r);
                V::Array(items)
            }
            Arith::ArrPrepend => {
                let mut items = array(&r);
                items.insert(0, l);
                V::Array(items)
            }
            Arith::ArrContains => V::Bool(contains(&array(&l), &array(&r))),
            Arith::ArrContained => V::Bool(contains(&array(&r), &array(&l))),
            Arith::ArrOverlap => {
                let b = array(&r);
                V::Bool(array(&l).iter().any(|x| contains(&b, std::slice::from_ref(x))))
            }
            Arith::JsonCat => {
                use serde_json::Value as J;
                V::Json(match (json(&l), json(&r)) {
                    (J::Object(mut a), J::Object(b)) => {
                        a.extend(b);
                        J::Object(a)
                    }
                    (a, b) => {
                        let list = |j: J| match j {
                            J::Array(a) => a,
                            j => vec![j],
                        };
                        let mut out = list(a);
                        out.extend(list(b));
                        J::Array(out)
                    }
                })
            }
            Arith::JsonContains => V::Bool(value::json_contains(&json(&l), &json(&r), true)),
            Arith::JsonContained => V::Bool(value::json_contains(&json(&r), &json(&l), true)),
            Arith::JsonGet | Arith::JsonGetText => {
                let j = json(&l);
                let found = match &r {
                    V::Text(key) => j.as_object().and_then(|o| o.get(key)),
                    V::Int(i) => j.as_array().and_then(|a| {
                        let i = if *i < 0 { a.len() as i64 + i } else { *i };
                        usize::try_from(i).ok().and_then(|i| a.get(i))
                    }),
                    _ => None,
                };
                match (found, kind) {
                    (None, _) => V::Null,
                    (Some(j), Arith::JsonGet) => V::Json(j.clone()),
                    (Some(serde_json::Value::Null), _) => V::Null,
                    (Some(serde_json::Value::String(s)), _) => V::Text(s.clone()),
                    (Some(j), _) => V::Text(self.db.enums.text(&V::Json(j.clone()), &T::Jsonb)),
                }
            }
            Arith::JsonHas | Arith::JsonHasAny | Arith::JsonHasAll => {
                let j = json(&l);
                let has = |key: &V| match (key, &j) {
                    (V::Text(key), serde_json::Value::Object(o)) => o.contains_key(key),
                    (V::Text(key), serde_json::Value::Array(a)) => {
                        a.iter().any(|x| x.as_str() == Some(key))
                    }
                    (V::Text(key), j) => j.as_str() == Some(key),
                    _ => false,
                };
                V::Bool(match (kind, &r) {
                    (Arith::JsonHas, r) => has(r),
                    (Arith::JsonHasAny, V::Array(keys)) => keys.iter().any(has),
                    (_, V::Array(keys)) => keys.iter().all(has),
                    _ => false,
                })
            }
            Arith::JsonDelete => {
                let mut j = json(&l);
                if let (Some(o), V::Text(key)) = (j.as_object_mut(), &r) {
                    o.remove(key);
                }
                V::Json(j)
            }
        })
    }

    fn func(&mut self, name: &str, mut args: Vec<V>, types: &[&T], ty: &T) -> Res<V> {
        let strict = !matches!(
            name,
            "coalesce"
                | "greatest"
                | "least"
                | "nullif"
                | "array_append"
                | "array_prepend"
                | "array_remove"
                | "array_position"
                | "array_cat"
                | "jsonb_build_object"
                | "json_build_object"
                | "jsonb_build_array"
                | "json_build_array"
                | "concat"
        );
        if strict && args.contains(&V::Null) {
            return Ok(V::Null);
        }
        Ok(match name {
            "now" | "transaction_timestamp" | "current_timestamp" | "localtimestamp" => {
                V::Ts(self.now)
            }
            "statement_timestamp" | "clock_timestamp" => V::Ts(self.clock),
            "timezone" => {
                let V::Text(zone) = &args[0] else { unreachable!() };
                if !matches!(
                    zone.to_lowercase().as_str(),
                    "utc" | "z" | "gmt" | "etc/utc" | "zulu"
                ) {
                    return Err(Stop::unsupported(format!("time zone {zone}")));
                }
                // Both directions are the identity as the session runs in UTC.
                args.pop().unwrap()
            }
            "date_trunc" => {
                let (V::Text(unit), V::Ts(us)) = (&args[0], &args[1]) else {
                    unreachable!()
                };
                let by: i64 = match unit.to_lowercase().as_str() {
                    "microseconds" => 1,
                    "milliseconds" => 1_000,
                    "second" => 1_000_000,
                    "minute" => 60_000_000,
                    "hour" => 3_600_000_000,
                    "day" => 86_400_000_000,
                    unit => return Err(Stop::unsupported(format!("date_trunc {unit}"))),
                };
                V::Ts(us - us.rem_euclid(by))
            }
            "date_part" => {
                let V::Text(unit) = &args[0] else { unreachable!() };
                match (unit.to_lowercase().as_str(), &args[1]) {
                    ("epoch", V::Ts(us)) => V::Float(*us as f64 / 1e6),
                    ("epoch", V::Interval(m, d, us)) => {
                        V::Float(value::interval_us(*m, *d, *us) as f64 / 1e6)
                    }
                    _ => return Err(Stop::unsupported("date_part")),
                }
            }
            "to_timestamp" => match args[0] {
                V::Float(f) => V::Ts((f * 1e6).round() as i64),
                _ => unreachable!(),
            },
            "coalesce" => args
                .into_iter()
                .find(|v| *v != V::Null)
                .unwrap_or(V::Null),
            "greatest" | "least" => args
                .into_iter()
                .filter(|v| *v != V::Null)
                .reduce(|a, b| {
                    let o = value::cmp(&a, &b);
                    if (name == "greatest") == o.is_ge() { a } else { b }
                })
                .unwrap_or(V::Null),
            "nullif" => {
                if compare(Cmp::Eq, &args[0], &args[1]) == Some(true) {
                    V::Null
                } else {
                    args.swap_remove(0)
                }
            }
            "array_append" => {
                let item = args.pop().unwrap();
                match args.pop().unwrap() {
                    V::Array(mut items) => {
                        items.push(item);
                        V::Array(items)
                    }
                    _ => V::Array(vec![item]),
                }
            }
            "array_prepend" => {
                // The binder swapped the arguments.
                let item = args.pop().unwrap();
                match args.pop().unwrap() {
                    V::Array(mut items) => {
                        items.insert(0, item);
                        V::Array(items)
                    }
                    _ => V::Array(vec![item]),
                }
            }
            "array_remove" => {
                let item = args.pop().unwrap();
                match args.pop().unwrap() {
                    V::Array(items) => {
                        V::Array(items.into_iter().filter(|i| !same(i, &item)).collect())
                    }
                    _ => V::Null,
                }
            }
            "array_position" => match &args[0] {
                V::Array(items) => items
                    .iter()
                    .position(|i| same(i, &args[1]))
                    .map_or(V::Null, |i| V::Int(i as i64 + 1)),
                _ => V::Null,
            },
            "array_cat" => {
                let r = args.pop().unwrap();
                let l = args.pop().unwrap();
                self.arith(Arith::ArrCat, l, r, ty)?
            }
            "array_length" => match &args[0] {
                V::Array(items) if items.is_empty() || args[1] != V::Int(1) => V::Null,
                V::Array(items) => V::Int(items.len() as i64),
                _ => unreachable!(),
            },
            "cardinality" => match &args[0] {
                V::Array(items) => V::Int(items.len() as i64),
                _ => unreachable!(),
            },
            "jsonb_build_object" | "json_build_object" => {
                let mut out = serde_json::Map::new();
                for (i, pair) in args.chunks(2).enumerate() {
                    if pair[0] == V::Null {
                        return Err(PgErr::new("22004", "null value not allowed for object key").into());
                    }
                    let key = self.db.enums.text(&pair[0], types[2 * i]);
                    out.insert(key, value::to_json(&pair[1], types[2 * i + 1], &self.db.enums));
                }
                V::Json(out.into())
            }
            "jsonb_build_array" | "json_build_array" => V::Json(
                args.iter()
                    .zip(types)
                    .map(|(v, t)| value::to_json(v, t, &self.db.enums))
                    .collect::<Vec<_>>()
                    .into(),
            ),
            "to_jsonb" | "to_json" => V::Json(value::to_json(&args[0], types[0], &self.db.enums)),
            "jsonb_array_length" => match &args[0] {
                V::Json(serde_json::Value::Array(a)) => V::Int(a.len() as i64),
                _ => return Err(PgErr::new("22023", "cannot get array length of a non-array").into()),
            },
            "lower" | "upper" | "trim" | "btrim" | "length" | "char_length" => {
                let V::Text(s) = &args[0] else { unreachable!() };
                match name {
                    "lower" => V::Text(s.to_lowercase()),
                    "upper" => V::Text(s.to_uppercase()),
                    "trim" | "btrim" => V::Text(s.trim_matches(' ').to_owned()),
                    _ => V::Int(s.chars().count() as i64),
                }
            }
            "concat" => V::Text(
                args.iter()
                    .zip(types)
                    .filter(|(v, _)| **v != V::Null)
                    .map(|(v, t)| self.db.enums.text(v, t))
                    .collect(),
            ),
            "abs" | "floor" | "ceil" | "mod" => match (name, args.as_slice()) {
                ("abs", [V::Int(n)]) => V::Int(n.abs()),
                ("abs", [V::Float(f)]) => V::Float(f.abs()),
                ("floor", [V::Float(f)]) => V::Float(f.floor()),
                ("ceil", [V::Float(f)]) => V::Float(f.ceil()),
                ("floor" | "ceil", [V::Int(n)]) => V::Int(*n),
                ("mod", [V::Int(_), V::Int(0)]) => {
                    return Err(PgErr::new("22012", "division by zero").into());
                }
                ("mod", [V::Int(a), V::Int(b)]) => V::Int(a % b),
                _ => return Err(Stop::unsupported(format!("function {name}"))),
            },
            "pg_notify" => {
                let (V::Text(channel), V::Text(payload)) = (&args[0], &args[1]) else {
                    unreachable!()
                };
                self.notify(channel.clone(), payload.clone())?;
                V::Text(String::new())
            }
            "pg_advisory_xact_lock" | "pg_advisory_lock" | "pg_try_advisory_xact_lock"
            | "pg_try_advisory_lock" | "pg_advisory_unlock" => {
                let key = match args.as_slice() {
                    [V::Int(a)] => (i64::MIN, *a),
                    [V::Int(a), V::Int(b)] => (*a, *b),
                    _ => unreachable!(),
                };
                return self.advisory(name, key);
            }
            "pg_advisory_unlock_all" => {
                let conn = self.conn;
                for holders in self.db.advisory.values_mut() {
                    holders.retain(|h| h.0 != conn || h.1);
                }
                self.db.advisory.retain(|_, h| !h.is_empty());
                V::Text(String::new())
            }
            "current_database" => V::Text("postgres".to_owned()),
            "current_user" => V::Text("postgres".to_owned()),
            "current_schema" => V::Text("public".to_owned()),
            "version" => V::Text("PostgreSQL 16 model".to_owned()),
            "pg_backend_pid" => V::Int(self.conn as i64 + 1),
            "nextval" => {
                let (V::Text(table), V::Int(col)) = (&args[0], &args[1]) else {
                    unreachable!()
                };
                let table = self.db.tables.get_mut(table).unwrap();
                let seq = table.seqs.entry(*col as usize).or_default();
                *seq += 1;
                V::Int(*seq)
            }
            name => return Err(Stop::unsupported(format!("function {name}"))),
        })
    }

    fn notify(&mut self, channel: String, payload: String) -> Res<()> {
        if channel.is_empty() || channel.len() > 63 {
            return Err(PgErr::new("22023", "channel name").into());
        }
        if payload.len() > 7999 {
            return Err(PgErr::new("22023", "payload string too long").into());
        }
        let item = (channel, payload);
        if !self.notifies.contains(&item) {
            self.notifies.push(item);
        }
        Ok(())
    }

    fn advisory(&mut self, name: &str, key: (i64, i64)) -> Res<V> {
        let conn = self.conn;
        let holders = self.db.advisory.entry(key).or_default();
        if name == "pg_advisory_unlock" {
            let at = holders.iter().position(|h| h.0 == conn && !h.1);
            if let Some(at) = at {
                holders.remove(at);
            }
            if holders.is_empty() {
                self.db.advisory.remove(&key);
            }
            return Ok(V::Bool(at.is_some()));
        }
        let other = holders.iter().find(|h| h.0 != conn).map(|h| h.0);
        match other {
            Some(other) if name.starts_with("pg_try") => {
                let _ = other;
                Ok(V::Bool(false))
            }
            Some(other) => Err(Stop::Wait(other)),
            None => {
                holders.push((conn, name.contains("xact")));
                Ok(if name.starts_with("pg_try") {
                    V::Bool(true)
                } else {
                    V::Text(String::new())
                })
            }
        }
    }

    /// Wait for or take note of a lock on the whole table.
    fn use_table(&mut self, name: &str, write: bool) -> Res<()> {
        let Some(table) = self.db.tables.get_mut(name) else {
            return Err(PgErr::new("42P01", format!("relation \"{name}\" does not exist")).into());
        };
        if let Some(tx) = table.lock
            && tx != self.tx
        {
            let conn = self.db.active[&tx];
            return Err(Stop::Wait(conn));
        }
        let _ = write;
        table.users.insert(self.tx);
        Ok(())
    }

    /// Take the row's lock. False if it has to be skipped.
    fn lock_row(&mut self, table: &str, id: u64, wait: Wait) -> Res<bool> {
        let tx = self.tx;
        let row = self.db.tables.get_mut(table).unwrap().rows.get_mut(&id).unwrap();
        match row.lock {
            Some(other) if other != tx => match wait {
                Wait::Skip => Ok(false),
                Wait::NoWait => Err(PgErr::new(
                    "55P03",
                    format!("could not obtain lock on row in relation \"{table}\""),
                )
                .into()),
                Wait::Block => Err(Stop::Wait(self.db.active[&other])),
            },
            _ => {
                row.lock = Some(tx);
                Ok(true)
            }
        }
    }

    /// After locking: the values to go on with, None if the row is gone.
    /// The flag says whether they differ from what the snapshot shows.
    fn newest(&self, table: &str, id: u64, seen: usize) -> Res<Option<(Vals, bool)>> {
        let row = &self.db.tables[table].rows[&id];
        let Some(newest) = row.newest(self.tx) else {
            return Ok(None);
        };
        let version = &row.versions[newest];
        if newest != seen && version.tx != self.tx && self.repeatable {
            return Err(PgErr::new(
                "40001",
                "could not serialize access due to concurrent update",
            )
            .into());
        }
        if version.tx == self.tx && version.commit == 0 && version.cmd >= self.cmd {
            // Changed by this very command already.
            return Ok(None);
        }
        Ok(version.vals.clone().map(|vals| (vals, newest != seen)))
    }

    fn scan(&mut self, table: &str) -> Res<Vec<(Option<(u64, usize)>, Vec<V>)>> {
        if let Some(rows) = self.db.virtual_rows(table)
            && !self.db.tables.contains_key(table)
        {
            return Ok(rows.into_iter().map(|row| (None, row)).collect());
        }
        self.use_table(table, false)?;
        let table = &self.db.tables[table];
        let mut out = Vec::new();
        for (id, row) in &table.rows {
            if let Some(at) = row.visible(self.tx, self.snap, self.cmd)
                && let Some(vals) = &row.versions[at].vals
            {
                out.push((Some((*id, at)), vals.to_vec()));
            }
        }
        if self.db.backwards {
            out.reverse();
        }
        Ok(out)
    }

    fn from(&mut self, from: &BFrom, prefix: Vec<Tuple>, parent: Option<&Env>) -> Res<Vec<Tuple>> {
        let mut out = Vec::new();
        match from {
            BFrom::Table(name, base, _) => {
                let rows = self.scan(name)?;
                for tuple in prefix {
                    for (id, vals) in &rows {
                        let mut t = tuple.clone();
                        while t.ids.len() <= *base {
                            t.ids.push(None);
                        }
                        if let Some((id, version)) = id {
                            t.ids[*base] = Some((name.clone(), *id, *version, t.row.len()));
                        }
                        t.row.extend(vals.iter().cloned());
                        out.push(t);
                    }
                }
            }
            BFrom::Cte(slot, _) => {
                let rows = self.ctes[slot].clone();
                for tuple in prefix {
                    for row in rows.iter() {
                        let mut t = tuple.clone();
                        t.row.extend(row.iter().cloned());
                        out.push(t);
                    }
                }
            }
            BFrom::Sub(select, _) => {
                let rows = self.select(select, parent)?;
                for tuple in prefix {
                    for row in &rows {
                        let mut t = tuple.clone();
                        t.row.extend(row.iter().cloned());
                        out.push(t);
                    }
                }
            }
            BFrom::Func(name, args, _) => {
                for tuple in prefix {
                    let mut values = Vec::new();
                    for (arg, _) in args {
                        values.push(self.eval(arg, &Env::new(&tuple.row, parent))?);
                    }
                    let items = match (name.as_str(), values.as_slice()) {
                        ("unnest", [V::Array(items)]) => items.clone(),
                        ("generate_series", [V::Int(a), V::Int(b)]) => (*a..=*b).map(V::Int).collect(),
                        _ => Vec::new(),
                    };
                    for item in items {
                        let mut t = tuple.clone();
                        t.row.push(item);
                        out.push(t);
                    }
                }
            }
            BFrom::Join(l, r, kind, on, width) => {
                for tuple in self.from(l, prefix, parent)? {
                    let mut any = false;
                    for t in self.from(r, vec![tuple.clone()], parent)? {
                        let ok = match on {
                            None => true,
                            Some(on) => self.eval(on, &Env::new(&t.row, parent))? == V::Bool(true),
                        };
                        if ok {
                            any = true;
                            out.push(t);
                        }
                    }
                    if !any && *kind == JoinKind::Left {
                        let mut t = tuple;
                        t.row.extend(std::iter::repeat_n(V::Null, *width));
                        out.push(t);
                    }
                }
            }
        }
        Ok(out)
    }

    fn run_ctes(&mut self, ctes: &[(usize, BStmt)]) -> Res<()> {
        for (slot, stmt) in ctes {
            let rows = match stmt {
                BStmt::Select(s) => self.select(s, None)?,
                BStmt::Util(_) => return Err(Stop::unsupported("utility statement in WITH")),
                stmt => self.change(stmt)?.rows,
            };
            self.ctes.insert(*slot, Arc::new(rows));
        }
        Ok(())
    }

    fn aggregate(&mut self, aggs: &[Agg], group: &[Tuple], parent: Option<&Env>) -> Res<Vec<V>> {
        let mut out = Vec::new();
        for agg in aggs {
            let mut values = Vec::new();
            for t in group {
                let env = Env::new(&t.row, parent);
                if let Some(filter) = &agg.filter
                    && self.eval(filter, &env)? != V::Bool(true)
                {
                    continue;
                }
                let v = match &agg.arg {
                    None => V::Bool(true),
                    Some(arg) => self.eval(arg, &env)?,
                };
                if v == V::Null && agg.name != "array_agg" {
                    continue;
                }
                if agg.distinct && values.iter().any(|w| same(w, &v)) {
                    continue;
                }
                values.push(v);
            }
            out.push(match agg.name.as_str() {
                "count" => V::Int(values.len() as i64),
                "max" => values
                    .into_iter()
                    .reduce(|a, b| if value::cmp(&a, &b).is_ge() { a } else { b })
                    .unwrap_or(V::Null),
                "min" => values
                    .into_iter()
                    .reduce(|a, b| if value::cmp(&a, &b).is_le() { a } else { b })
                    .unwrap_or(V::Null),
                "sum" => {
                    let mut sum = V::Null;
                    for v in values {
                        sum = match (sum, v) {
                            (V::Null, v) => v,
                            (V::Int(a), V::Int(b)) => V::Int(a + b),
                            (V::Float(a), V::Float(b)) => V::Float(a + b),
                            (V::Interval(a, b, c), V::Interval(d, e, f)) => V::Interval(a + d, b + e, c + f),
                            _ => return Err(Stop::unsupported("sum")),
                        };
                    }
                    match (sum, &agg.ty) {
                        (V::Int(n), T::Numeric) => V::Float(n as f64),
                        (v, _) => v,
                    }
                }
                "bool_or" => {
                    if values.is_empty() { V::Null } else { V::Bool(values.contains(&V::Bool(true))) }
                }
                "bool_and" | "every" => {
                    if values.is_empty() { V::Null } else { V::Bool(!values.contains(&V::Bool(false))) }
                }
                "array_agg" => {
                    if values.is_empty() { V::Null } else { V::Array(values) }
                }
                name => return Err(Stop::unsupported(format!("aggregate {name}"))),
            });
        }
        Ok(out)
    }

    fn windows(&mut self, wins: &[Win], tuples: &mut [Tuple], parent: Option<&Env>) -> Res<()> {
        for win in wins {
            let mut keyed = Vec::new();
            for (i, t) in tuples.iter().enumerate() {
                let env = Env {
                    row: &t.row,
                    parent,
                    aggs: &t.aggs,
                    wins: &[],
                };
                let part = win
                    .part
                    .iter()
                    .map(|b| self.eval(b, &env))
                    .collect::<Res<Vec<_>>>()?;
                let order = win
                    .order
                    .iter()
                    .map(|o| self.eval(&o.0, &env))
                    .collect::<Res<Vec<_>>>()?;
                keyed.push((part, order, i));
            }
            let order_cmp = |a: &[V], b: &[V]| {
                a.iter()
                    .zip(b)
                    .zip(&win.order)
                    .map(|((a, b), o)| sort_cmp(a, b, o.1, o.2))
                    .find(|o| o.is_ne())
                    .unwrap_or(Ordering::Equal)
            };
            keyed.sort_by(|a, b| {
                a.0.iter()
                    .zip(&b.0)
                    .map(|(a, b)| sort_cmp(a, b, false, false))
                    .find(|o| o.is_ne())
                    .unwrap_or(Ordering::Equal)
                    .then_with(|| order_cmp(&a.1, &b.1))
            });
            let (mut number, mut rank, mut dense) = (0i64, 0i64, 0i64);
            let mut values = vec![V::Null; tuples.len()];
            for n in 0..keyed.len() {
                let fresh = n == 0 || !same_row(&keyed[n].0, &keyed[n - 1].0);
                if fresh {
                    (number, rank, dense) = (0, 0, 0);
                }
                number += 1;
                if fresh || order_cmp(&keyed[n].1, &keyed[n - 1].1).is_ne() {
                    rank = number;
                    dense += 1;
                }
                let v = match win.name.as_str() {
                    "row_number" => number,
                    "rank" => rank,
                    "dense_rank" => dense,
                    "count" if win.order.is_empty() => {
                        keyed.iter().filter(|k| same_row(&k.0, &keyed[n].0)).count() as i64
                    }
                    name => return Err(Stop::unsupported(format!("window function {name}"))),
                };
                values[keyed[n].2] = V::Int(v);
            }
            for (t, v) in tuples.iter_mut().zip(values) {
                t.wins.push(v);
            }
        }
        Ok(())
    }

    fn item_values(&mut self, s: &BSelect, t: &Tuple, parent: Option<&Env>) -> Res<Vec<V>> {
        if s.values.is_some() {
            return Ok(t.row.clone());
        }
        let env = Env {
            row: &t.row,
            parent,
            aggs: &t.aggs,
            wins: &t.wins,
        };
        s.items.iter().map(|b| self.eval(b, &env)).collect()
    }

    pub fn select(&mut self, s: &BSelect, parent: Option<&Env>) -> Res<Rows> {
        self.run_ctes(&s.ctes)?;
        let blank = Tuple {
            row: Vec::new(),
            ids: Vec::new(),
            wins: Vec::new(),
            aggs: Vec::new(),
        };
        let mut tuples = vec![blank.clone()];
        if let Some(values) = &s.values {
            tuples.clear();
            for row in values {
                let mut t = blank.clone();
                for b in row {
                    // DEFAULT is put in by the insert.
                    t.row.push(match b {
                        B::Default => V::Null,
                        b => self.eval(b, &Env::new(&[], parent))?,
                    });
                }
                tuples.push(t);
            }
        }
        for from in &s.from {
            tuples = self.from(from, tuples, parent)?;
        }
        if let Some(filter) = &s.filter {
            let mut kept = Vec::new();
            for t in tuples {
                if self.eval(filter, &Env::new(&t.row, parent))? == V::Bool(true) {
                    kept.push(t);
                }
            }
            tuples = kept;
        }
        if s.grouped {
            let mut groups: Vec<(Vec<V>, Vec<Tuple>)> = Vec::new();
            if s.group.is_empty() {
                groups.push((Vec::new(), Vec::new()));
            }
            for t in tuples {
                let key = s
                    .group
                    .iter()
                    .map(|b| self.eval(b, &Env::new(&t.row, parent)))
                    .collect::<Res<Vec<_>>>()?;
                match groups.iter_mut().find(|g| same_row(&g.0, &key)) {
                    Some(group) => group.1.push(t),
                    None => groups.push((key, vec![t])),
                }
            }
            tuples = Vec::new();
            for (_, group) in groups {
                let aggs = self.aggregate(&s.aggs, &group, parent)?;
                let mut t = group.into_iter().next().unwrap_or_else(|| Tuple {
                    row: vec![V::Null; 64],
                    ..blank.clone()
                });
                t.aggs = aggs;
                if let Some(having) = &s.having {
                    let env = Env {
                        row: &t.row,
                        parent,
                        aggs: &t.aggs,
                        wins: &[],
                    };
                    if self.eval(having, &env)? != V::Bool(true) {
                        continue;
                    }
                }
                tuples.push(t);
            }
        }
        self.windows(&s.wins, &mut tuples, parent)?;
        if !s.distinct_on.is_empty() && s.order.is_empty() {
            return Err(Stop::unsupported("DISTINCT ON without ORDER BY"));
        }

        // Items, then order.
        let mut rows: Vec<(Vec<V>, Vec<V>, Option<Tuple>)> = Vec::new();
        let volatile = s.lock.is_some();
        for t in tuples {
            let needs_items = !volatile || s.order.iter().any(|o| o.0.is_ok());
            let items = if needs_items {
                self.item_values(s, &t, parent)?
            } else {
                Vec::new()
            };
            let mut keys = Vec::new();
            if s.union.is_empty() {
                for (key, _, _) in &s.order {
                    keys.push(match key {
                        Ok(i) => items[*i].clone(),
                        Err(b) => {
                            let env = Env {
                                row: &t.row,
                                parent,
                                aggs: &t.aggs,
                                wins: &t.wins,
                            };
                            self.eval(b, &env)?
                        }
                    });
                }
            }
            rows.push((items, keys, Some(t)));
        }
        for (all, other) in &s.union {
            for row in self.select(other, parent)? {
                rows.push((row, Vec::new(), None));
            }
            if !all {
                let mut kept: Vec<(Vec<V>, Vec<V>, Option<Tuple>)> = Vec::new();
                for row in rows {
                    if !kept.iter().any(|k| same_row(&k.0, &row.0)) {
                        kept.push(row);
                    }
                }
                rows = kept;
            }
        }
        if !s.union.is_empty() {
            for row in &mut rows {
                row.1 = s
                    .order
                    .iter()
                    .map(|(key, _, _)| row.0[*key.as_ref().unwrap()].clone())
                    .collect();
            }
        }
        if s.distinct {
            let mut kept: Vec<(Vec<V>, Vec<V>, Option<Tuple>)> = Vec::new();
            for row in rows {
                if !kept.iter().any(|k| same_row(&k.0, &row.0)) {
                    kept.push(row);
                }
            }
            rows = kept;
        }
        if !s.order.is_empty() {
            rows.sort_by(|a, b| {
                a.1.iter()
                    .zip(&b.1)
                    .zip(&s.order)
                    .map(|((a, b), o)| sort_cmp(a, b, o.1, o.2))
                    .find(|o| o.is_ne())
                    .unwrap_or(Ordering::Equal)
            });
        }
        if !s.distinct_on.is_empty() {
            let mut kept: Vec<(Vec<V>, Vec<V>, Option<Tuple>)> = Vec::new();
            let mut seen: Vec<Vec<V>> = Vec::new();
            for row in rows {
                let t = row.2.as_ref().unwrap();
                let key = s
                    .distinct_on
                    .iter()
                    .map(|b| self.eval(b, &Env::new(&t.row, parent)))
                    .collect::<Res<Vec<_>>>()?;
                if !seen.iter().any(|k| same_row(k, &key)) {
                    seen.push(key);
                    kept.push(row);
                }
            }
            rows = kept;
        }
        let env = Env::new(&[], parent);
        let count = |this: &mut Self, b: &Option<B>, what: &str| -> Res<Option<usize>> {
            match b {
                None => Ok(None),
                Some(b) => match this.eval(b, &env)? {
                    V::Null => Ok(None),
                    V::Int(n) if n < 0 => Err(PgErr::new(
                        if what == "LIMIT" { "2201W" } else { "2201X" },
                        format!("{what} must not be negative"),
                    )
                    .into()),
                    V::Int(n) => Ok(Some(n as usize)),
                    _ => Err(Stop::unsupported(what)),
                },
            }
        };
        let limit = count(self, &s.limit, "LIMIT")?;
        let offset = count(self, &s.offset, "OFFSET")?.unwrap_or(0);
        let mut out = Vec::new();
        let mut skipped = 0;
        for (items, _, tuple) in rows {
            if limit.is_some_and(|limit| out.len() >= limit) {
                break;
            }
            let items = match &s.lock {
                None => items,
                Some((wait, bases)) => {
                    let Some(t) = self.lock_tuple(s, tuple.unwrap(), *wait, bases, parent)? else {
                        continue;
                    };
                    self.item_values(s, &t, parent)?
                }
            };
            if skipped < offset {
                skipped += 1;
                continue;
            }
            out.push(items);
        }
        Ok(out)
    }

    fn lock_tuple(
        &mut self,
        s: &BSelect,
        mut t: Tuple,
        wait: Wait,
        bases: &[usize],
        parent: Option<&Env>,
    ) -> Res<Option<Tuple>> {
        let mut changed = false;
        for base in bases {
            let Some(Some((table, id, version, at))) = t.ids.get(*base).cloned() else {
                continue;
            };
            if !self.lock_row(&table, id, wait)? {
                return Ok(None);
            }
            let Some((vals, new)) = self.newest(&table, id, version)? else {
                return Ok(None);
            };
            if new {
                changed = true;
                for (i, v) in vals.iter().enumerate() {
                    t.row[at + i] = v.clone();
                }
            }
        }
        if changed
            && let Some(filter) = &s.filter
            && self.eval(filter, &Env::new(&t.row, parent))? != V::Bool(true)
        {
            return Ok(None);
        }
        Ok(Some(t))
    }

    fn check(&mut self, table: &str, id: Option<u64>, vals: &[V]) -> Res<()> {
        let def = &self.db.tables[table];
        for (col, v) in def.cols.iter().zip(vals) {
            if col.not_null && *v == V::Null {
                return Err(PgErr::new(
                    "23502",
                    format!(
                        "null value in column \"{}\" of relation \"{table}\" violates not-null constraint",
                        col.name
                    ),
                )
                .into());
            }
        }
        for (cols, pred) in def.uniques.clone() {
            if cols.iter().any(|c| vals[*c] == V::Null) {
                continue;
            }
            let pred = match pred {
                None => None,
                Some(e) => {
                    let def = &self.db.tables[table];
                    let infos = columns_of(table, def);
                    Some(Binder::standalone(self.db, infos, &e, Some(&T::Bool))?.0)
                }
            };
            let applies = |this: &mut Self, vals: &[V]| -> Res<bool> {
                match &pred {
                    None => Ok(true),
                    Some(b) => Ok(this.eval(b, &Env::new(vals, None))? == V::Bool(true)),
                }
            };
            if !applies(self, vals)? {
                continue;
            }
            let mut others = Vec::new();
            for (other, row) in &self.db.tables[table].rows {
                if Some(*other) == id {
                    continue;
                }
                // Whatever may be or become valid.
                let newest = row.versions.last().unwrap();
                if newest.commit == 0 && newest.tx != self.tx {
                    for v in &row.versions {
                        if let Some(vals) = &v.vals {
                            others.push((vals.clone(), Some(newest.tx)));
                        }
                    }
                } else if let Some(vals) = &newest.vals {
                    others.push((vals.clone(), None));
                }
            }
            for (theirs, by) in others {
                if cols.iter().all(|c| same(&theirs[*c], &vals[*c])) && applies(self, &theirs)? {
                    return Err(match by {
                        Some(tx) => Stop::Wait(self.db.active[&tx]),
                        None => PgErr::new(
                            "23505",
                            "duplicate key value violates unique constraint",
                        )
                        .into(),
                    });
                }
            }
        }
        Ok(())
    }

    fn triggers(&self, table: &str, before: bool, op: &str, changed: &[usize]) -> Vec<Trigger> {
        let def = &self.db.tables[table];
        let mut out: Vec<Trigger> = self
            .db
            .triggers
            .iter()
            .filter(|t| t.table == table && t.before == before)
            .filter(|t| match op {
                "INSERT" => t.insert,
                "DELETE" => t.delete,
                _ => t.update.as_ref().is_some_and(|cols| {
                    cols.is_empty()
                        || cols
                            .iter()
                            .any(|c| changed.iter().any(|i| def.cols[*i].name == *c))
                }),
            })
            .cloned()
            .collect();
        out.sort_by(|a, b| a.name.cmp(&b.name));
        out
    }

    fn fire(&mut self, trigger: &Trigger, op: &str, new: Option<&[V]>, old: Option<&[V]>) -> Res<Option<Vec<V>>> {
        let mut pl = Plpgsql::new(op);
        let def = &self.db.tables[&trigger.table];
        for (qual, vals) in [("new", new), ("old", old)] {
            if let Some(vals) = vals {
                pl.record(qual, def, vals);
            }
        }
        if let Some(when) = &trigger.when {
            let (b, _) = Binder::standalone(self.db, pl.cols.clone(), when, Some(&T::Bool))?;
            if self.eval(&b, &Env::new(&pl.vals, None))? != V::Bool(true) {
                return Ok(new.or(old).map(<[V]>::to_vec));
            }
        }
        let Some(body) = self.db.functions.get(&trigger.function).cloned() else {
            return Err(PgErr::new("42883", format!("function {} does not exist", trigger.function)).into());
        };
        self.depth += 1;
        if self.depth > 16 {
            return Err(PgErr::new("54001", "stack depth limit exceeded").into());
        }
        let returned = self.pl_block(&mut pl, &body)?;
        self.depth -= 1;
        match returned {
            None => Err(PgErr::new(
                "2F005",
                "control reached end of trigger procedure without RETURN",
            )
            .into()),
            Some(None) => Ok(None),
            Some(Some(qual)) => Ok(Some(pl.get_record(&qual))),
        }
    }

    /// INSERT, UPDATE and DELETE.
    pub fn change(&mut self, stmt: &BStmt) -> Res<Done> {
        let mut after: Vec<(String, &str, Option<Vec<V>>, Option<Vec<V>>, Vec<usize>)> = Vec::new();
        let done = match stmt {
            BStmt::Insert(s) => {
                self.run_ctes(&s.ctes)?;
                self.use_table(&s.table, true)?;
                let width = s.defaults.len();
                let mut sources: Vec<Vec<Option<V>>> = Vec::new();
                match &s.source {
                    None => sources.push(Vec::new()),
                    Some(source) => match &source.values {
                        Some(rows) => {
                            for row in rows {
                                let mut out = Vec::new();
                                for b in row {
                                    out.push(match b {
                                        B::Default => None,
                                        b => Some(self.eval(b, &Env::new(&[], None))?),
                                    });
                                }
                                sources.push(out);
                            }
                        }
                        None => {
                            for row in self.select(source, None)? {
                                sources.push(row.into_iter().map(Some).collect());
                            }
                        }
                    },
                }
                let mut rows = Vec::new();
                let mut count = 0;
                for source in sources {
                    let mut given: Vec<Option<V>> = vec![None; width];
                    for (col, v) in s.cols.iter().zip(source) {
                        given[*col] = v;
                    }
                    let mut vals = Vec::new();
                    for (i, v) in given.into_iter().enumerate() {
                        vals.push(match (v, &s.defaults[i]) {
                            (Some(v), _) => v,
                            (None, Some(d)) => self.eval(d, &Env::new(&[], None))?,
                            (None, None) => V::Null,
                        });
                    }
                    let mut skip = false;
                    for trigger in self.triggers(&s.table, true, "INSERT", &[]) {
                        match self.fire(&trigger, "INSERT", Some(&vals), None)? {
                            Some(new) => vals = new,
                            None => {
                                skip = true;
                                break;
                            }
                        }
                    }
                    if skip {
                        continue;
                    }
                    self.check(&s.table, None, &vals)?;
                    let (tx, cmd) = (self.tx, self.cmd);
                    let table = self.db.tables.get_mut(&s.table).unwrap();
                    table.next_row += 1;
                    table.rows.insert(
                        table.next_row,
                        Row {
                            versions: vec![Version {
                                vals: Some(Arc::new(vals.clone())),
                                tx,
                                cmd,
                                commit: 0,
                            }],
                            lock: Some(tx),
                        },
                    );
                    count += 1;
                    let env = Env::new(&vals, None);
                    let items = s.items.iter().map(|b| self.eval(b, &env)).collect::<Res<_>>()?;
                    if !s.items.is_empty() {
                        rows.push(items);
                    }
                    after.push((s.table.clone(), "INSERT", Some(vals), None, Vec::new()));
                }
                Done {
                    rows,
                    tag: format!("INSERT 0 {count}"),
                }
            }
            BStmt::Update(s) | BStmt::Delete(s) => {
                let delete = matches!(stmt, BStmt::Delete(_));
                let op = if delete { "DELETE" } else { "UPDATE" };
                self.run_ctes(&s.ctes)?;
                self.use_table(&s.table, true)?;
                let mut tuples = vec![Tuple {
                    row: Vec::new(),
                    ids: Vec::new(),
                    wins: Vec::new(),
                    aggs: Vec::new(),
                }];
                tuples = self.from(&BFrom::Table(s.table.clone(), 0, s.width), tuples, None)?;
                for from in &s.from {
                    tuples = self.from(from, tuples, None)?;
                }
                let mut hits: Vec<Tuple> = Vec::new();
                for t in tuples {
                    let ok = match &s.filter {
                        None => true,
                        Some(filter) => self.eval(filter, &Env::new(&t.row, None))? == V::Bool(true),
                    };
                    if ok {
                        hits.push(t);
                    }
                }
                let mut rows = Vec::new();
                let mut count = 0;
                for mut t in hits {
                    let Some(Some((_, id, version, _))) = t.ids.first().cloned() else {
                        return Err(Stop::unsupported("change of a virtual table"));
                    };
                    self.lock_row(&s.table, id, Wait::Block)?;
                    let Some((vals, new)) = self.newest(&s.table, id, version)? else {
                        continue;
                    };
                    if new {
                        for (i, v) in vals.iter().enumerate() {
                            t.row[i] = v.clone();
                        }
                        if let Some(filter) = &s.filter
                            && self.eval(filter, &Env::new(&t.row, None))? != V::Bool(true)
                        {
                            continue;
                        }
                    }
                    let old = vals.to_vec();
                    let mut fresh = old.clone();
                    for (i, b) in &s.sets {
                        fresh[*i] = self.eval(b, &Env::new(&t.row, None))?;
                    }
                    let changed: Vec<usize> = s.sets.iter().map(|x| x.0).collect();
                    let mut skip = false;
                    for trigger in self.triggers(&s.table, true, op, &changed) {
                        let new = (!delete).then_some(fresh.as_slice());
                        match self.fire(&trigger, op, new, Some(&old))? {
                            Some(new) if !delete => fresh = new,
                            Some(_) => {}
                            None => {
                                skip = true;
                                break;
                            }
                        }
                    }
                    if skip {
                        continue;
                    }
                    if !delete {
                        self.check(&s.table, Some(id), &fresh)?;
                    }
                    let (tx, cmd) = (self.tx, self.cmd);
                    let row = self.db.tables.get_mut(&s.table).unwrap().rows.get_mut(&id).unwrap();
                    row.versions.push(Version {
                        vals: (!delete).then(|| Arc::new(fresh.clone())),
                        tx,
                        cmd,
                        commit: 0,
                    });
                    count += 1;
                    if !s.items.is_empty() {
                        let mut shown = t.row.clone();
                        if !delete {
                            shown[..s.width].clone_from_slice(&fresh);
                        }
                        let env = Env::new(&shown, None);
                        rows.push(s.items.iter().map(|b| self.eval(b, &env)).collect::<Res<_>>()?);
                    }
                    after.push((
                        s.table.clone(),
                        op,
                        (!delete).then_some(fresh),
                        Some(old),
                        changed,
                    ));
                }
                Done {
                    rows,
                    tag: format!("{op} {count}"),
                }
            }
            _ => unreachable!(),
        };
        for (table, op, new, old, changed) in after {
            for trigger in self.triggers(&table, false, op, &changed) {
                if !trigger.row {
                    continue;
                }
                self.fire(&trigger, op, new.as_deref(), old.as_deref())?;
            }
        }
        // Statement triggers fire once.
        let (table, op) = match stmt {
            BStmt::Insert(s) => (&s.table, "INSERT"),
            BStmt::Update(s) => (&s.table, "UPDATE"),
            BStmt::Delete(s) => (&s.table, "DELETE"),
            _ => unreachable!(),
        };
        for trigger in self.triggers(table, false, op, &[]) {
            if !trigger.row {
                self.fire(&trigger, op, None, None)?;
            }
        }
        Ok(done)
    }

    pub fn run(&mut self, stmt: &BStmt) -> Res<Done> {
        match stmt {
            BStmt::Select(s) => {
                let rows = self.select(s, None)?;
                Ok(Done {
                    tag: format!("SELECT {}", rows.len()),
                    rows,
                })
            }
            BStmt::Util(stmt) => self.util(stmt),
            stmt => self.change(stmt),
        }
    }

    fn tagged(tag: &str) -> Res<Done> {
        Ok(Done {
            rows: Vec::new(),
            tag: tag.to_owned(),
        })
    }

    fn util(&mut self, stmt: &Stmt) -> Res<Done> {
        if stmt.changes_schema()
            && let Some(other) = self.db.change_schema(self.tx)
        {
            return Err(Stop::Wait(other));
        }
        match stmt {
            Stmt::Notify(channel, payload) => {
                self.notify(channel.clone(), payload.clone())?;
                Self::tagged("NOTIFY")
            }
            Stmt::Lock(name) => {
                let tx = self.tx;
                let Some(table) = self.db.tables.get_mut(name) else {
                    return Err(PgErr::new("42P01", format!("relation \"{name}\" does not exist")).into());
                };
                let other = table
                    .lock
                    .into_iter()
                    .chain(table.users.iter().copied())
                    .find(|other| *other != tx);
                if let Some(other) = other {
                    return Err(Stop::Wait(self.db.active[&other]));
                }
                table.lock = Some(tx);
                Self::tagged("LOCK TABLE")
            }
            Stmt::CreateType(name, labels) => {
                if self.db.enums.0.iter().any(|e| e.0 == *name) {
                    return Err(PgErr::new("42710", format!("type \"{name}\" already exists")).into());
                }
                self.db.enums.0.push((name.clone(), labels.clone()));
                self.db.schema += 1;
                Self::tagged("CREATE TYPE")
            }
            Stmt::CreateTable(name, cols, if_not_exists, uniques) => {
                if self.db.tables.contains_key(name) {
                    if *if_not_exists {
                        return Self::tagged("CREATE TABLE");
                    }
                    return Err(PgErr::new("42P07", format!("relation \"{name}\" already exists")).into());
                }
                let mut table = Table {
                    oid: 20_000 + self.db.schema as u32,
                    cols: Vec::new(),
                    rows: BTreeMap::new(),
                    next_row: 0,
                    seqs: BTreeMap::new(),
                    uniques: Vec::new(),
                    lock: None,
                    users: Default::default(),
                };
                for col in cols {
                    self.add_column(&mut table, col)?;
                }
                for unique in uniques {
                    let mut set = Vec::new();
                    for name in unique {
                        match table.cols.iter().position(|c| c.name == *name) {
                            Some(i) => set.push(i),
                            None => return Err(PgErr::new("42703", format!("column \"{name}\" does not exist")).into()),
                        }
                    }
                    table.uniques.push((set, None));
                }
                self.db.tables.insert(name.clone(), table);
                self.db.schema += 1;
                Self::tagged("CREATE TABLE")
            }
            Stmt::CreateIndex => Self::tagged("CREATE INDEX"),
            Stmt::UniqueIndex(name, cols, pred) => {
                let Some(table) = self.db.tables.get_mut(name) else {
                    return Err(PgErr::new("42P01", format!("relation \"{name}\" does not exist")).into());
                };
                let mut set = Vec::new();
                for col in cols {
                    match table.cols.iter().position(|c| c.name == *col) {
                        Some(i) => set.push(i),
                        None => return Err(PgErr::new("42703", format!("column \"{col}\" does not exist")).into()),
                    }
                }
                table.uniques.push((set, pred.clone()));
                self.db.schema += 1;
                Self::tagged("CREATE INDEX")
            }
            Stmt::CreateFunction(name, body) => {
                self.db.functions.insert(name.clone(), body.clone());
                self.db.schema += 1;
                Self::tagged("CREATE FUNCTION")
            }
            Stmt::CreateTrigger(t) => {
                if !self.db.tables.contains_key(&t.table) {
                    return Err(PgErr::new("42P01", format!("relation \"{}\" does not exist", t.table)).into());
                }
                if !self.db.functions.contains_key(&t.function) {
                    return Err(PgErr::new("42883", format!("function {}() does not exist", t.function)).into());
                }
                if self.db.triggers.iter().any(|o| o.table == t.table && o.name == t.name) {
                    return Err(PgErr::new("42710", format!("trigger \"{}\" already exists", t.name)).into());
                }
                self.db.triggers.push(t.clone());
                self.db.schema += 1;
                Self::tagged("CREATE TRIGGER")
            }
            Stmt::AlterTable(name, alters) => {
                let Some(mut table) = self.db.tables.get(name).cloned() else {
                    return Err(PgErr::new("42P01", format!("relation \"{name}\" does not exist")).into());
                };
                for alter in alters {
                    match alter {
                        Alter::Add(col, if_not_exists) => {
                            if table.cols.iter().any(|c| c.name == col.name) {
                                if *if_not_exists {
                                    continue;
                                }
                                return Err(PgErr::new("42701", "column already exists").into());
                            }
                            if !table.rows.is_empty() {
                                return Err(Stop::unsupported("ADD COLUMN on a table with rows"));
                            }
                            self.add_column(&mut table, col)?;
                        }
                        Alter::Default(col, e) => {
                            if let Some(c) = table.cols.iter_mut().find(|c| c.name == *col) {
                                c.default = e.clone();
                            }
                        }
                        Alter::NotNull(col, yes) => {
                            if let Some(c) = table.cols.iter_mut().find(|c| c.name == *col) {
                                c.not_null = *yes;
                            }
                        }
                        Alter::DropColumn(_) => return Err(Stop::unsupported("DROP COLUMN")),
                        Alter::Other => {}
                    }
                }
                self.db.tables.insert(name.clone(), table);
                self.db.schema += 1;
                Self::tagged("ALTER TABLE")
            }
            Stmt::Do(block) => {
                let mut pl = Plpgsql::new("");
                self.pl_block(&mut pl, block)?;
                Self::tagged("DO")
            }
            Stmt::Drop(kind, name, if_exists) => {
                let found = match kind.as_str() {
                    "table" => self.db.tables.remove(name).is_some(),
                    "trigger" => {
                        let before = self.db.triggers.len();
                        self.db.triggers.retain(|t| t.name != *name);
                        self.db.triggers.len() < before
                    }
                    "function" => self.db.functions.remove(name).is_some(),
                    "index" => true,
                    "type" => match self.db.enums.0.iter_mut().find(|e| e.0 == *name) {
                        Some(e) => {
                            e.0 = format!("dropped {name}");
                            true
                        }
                        None => false,
                    },
                    kind => return Err(Stop::unsupported(format!("DROP {kind}"))),
                };
                if !found && !if_exists {
                    return Err(PgErr::new("42704", format!("{kind} \"{name}\" does not exist")).into());
                }
                self.db.schema += 1;
                Self::tagged("DROP")
            }
            Stmt::Empty => Self::tagged(""),
            Stmt::Set => Self::tagged("SET"),
            other => Err(Stop::unsupported(format!("statement {other:?}"))),
        }
    }

    fn add_column(&mut self, table: &mut Table, col: &ColDef) -> Res<()> {
        let elem = self.db.enums.by_name(&col.ty.name)?;
        let ty = if col.ty.array { T::Array(Box::new(elem)) } else { elem };
        if let Some(default) = &col.default {
            // Has to be valid.
            Binder::standalone(self.db, Vec::new(), default, Some(&ty))?;
        }
        let i = table.cols.len();
        table.cols.push(Column {
            name: col.name.clone(),
            ty,
            not_null: col.not_null || col.primary || col.serial,
            default: col.default.clone(),
            serial: col.serial,
        });
        if col.primary || col.unique {
            table.uniques.push((vec![i], None));
        }
        Ok(())
    }

    fn pl_eval(&mut self, pl: &Plpgsql, e: &Expr, ty: Option<&T>) -> Res<V> {
        let (b, _) = Binder::standalone(self.db, pl.cols.clone(), e, ty)?;
        // Statements inside of the expression have their own results.
        let subs = std::mem::take(&mut self.subs);
        let params = std::mem::take(&mut self.params);
        let out = self.eval(&b, &Env::new(&pl.vals, None));
        self.subs = subs;
        self.params = params;
        out
    }

    /// Some if the function returned: with the name of the record or null.
    fn pl_block(&mut self, pl: &mut Plpgsql, block: &PlBlock) -> Res<Option<Option<String>>> {
        let depth = pl.cols.len();
        for (name, ty, init) in &block.vars {
            let elem = self.db.enums.by_name(&ty.name)?;
            let ty = if ty.array { T::Array(Box::new(elem)) } else { elem };
            let v = match init {
                None => V::Null,
                Some(e) => self.pl_eval(pl, e, Some(&ty))?,
            };
            pl.cols.push(ColInfo {
                qual: String::new(),
                name: name.clone(),
                ty,
                src: None,
            });
            pl.vals.push(v);
        }
        let mut out = self.pl_body(pl, &block.body);
        if !block.handlers.is_empty()
            && let Err(Stop::Err(e)) = &out
        {
            let matching = block.handlers.iter().find(|h| {
                h.0.iter().any(|name| {
                    name == "others"
                        || *name == e.code
                        || matches!(
                            (name.as_str(), e.code.as_str()),
                            ("duplicate_object", "42710")
                                | ("duplicate_table", "42P07")
                                | ("duplicate_column", "42701")
                                | ("unique_violation", "23505")
                                | ("not_null_violation", "23502")
                                | ("undefined_table", "42P01")
                                | ("undefined_function", "42883")
                                | ("undefined_object", "42704")
                                | ("lock_not_available", "55P03")
                        )
                })
            });
            if let Some(handler) = matching {
                out = self.pl_body(pl, &handler.1);
            }
        }
        pl.cols.truncate(depth);
        pl.vals.truncate(depth);
        out
    }

    fn pl_body(&mut self, pl: &mut Plpgsql, body: &[Pl]) -> Res<Option<Option<String>>> {
        for step in body {
            match step {
                Pl::Null => {}
                Pl::If(arms, other) => {
                    let mut chosen = Some(other);
                    for (cond, body) in arms {
                        if self.pl_eval(pl, cond, Some(&T::Bool))? == V::Bool(true) {
                            chosen = Some(body);
                            break;
                        }
                    }
                    if let Some(out) = self.pl_body(pl, chosen.unwrap())? {
                        return Ok(Some(out));
                    }
                }
                Pl::Assign(path, e) => {
                    let at = match path.as_slice() {
                        [name] => pl.cols.iter().rposition(|c| c.qual.is_empty() && c.name == *name),
                        [qual, name] => pl.cols.iter().rposition(|c| c.qual == *qual && c.name == *name),
                        _ => None,
                    };
                    let Some(at) = at else {
                        return Err(PgErr::new("42601", format!("\"{}\" is not a known variable", path.join("."))).into());
                    };
                    let ty = pl.cols[at].ty.clone();
                    // PL/pgSQL converts by text where there is no assignment cast.
                    let v = match self.pl_eval(pl, e, Some(&ty)) {
                        Err(Stop::Err(err)) if err.code == "42804" => {
                            let (b, from) = Binder::standalone(self.db, pl.cols.clone(), e, None)?;
                            let v = self.eval(&b, &Env::new(&pl.vals, None))?;
                            if v == V::Null {
                                V::Null
                            } else {
                                let text = self.db.enums.text(&v, &from);
                                self.db.enums.parse(&text, &ty)?
                            }
                        }
                        other => other?,
                    };
                    pl.vals[at] = v;
                }
                Pl::Perform(e) => {
                    self.pl_eval(pl, e, None)?;
                }
                Pl::Return(e) => {
                    return Ok(Some(match e {
                        None | Some(Expr::Null) => None,
                        Some(Expr::Col(None, name)) if name == "new" || name == "old" => {
                            if pl.cols.iter().any(|c| c.qual == *name) {
                                Some(name.clone())
                            } else {
                                None
                            }
                        }
                        Some(_) => return Err(Stop::unsupported("RETURN of an expression")),
                    }));
                }
                Pl::Sql(stmt) => {
                    let b = Binder::new(self.db, Vec::new()).stmt(stmt);
                    let b = match b {
                        Ok(b) => b,
                        Err(Stop::Err(e)) if e.code == "42703" || e.code == "42P01" => {
                            return Err(Stop::unsupported(format!("statement in a function: {}", e.msg)));
                        }
                        Err(e) => return Err(e),
                    };
                    let subs = std::mem::take(&mut self.subs);
                    let ctes = std::mem::take(&mut self.ctes);
                    self.cmd += 1;
                    let out = self.run(&b);
                    self.subs = subs;
                    self.ctes = ctes;
                    out?;
                }
                Pl::Block(block) => {
                    if let Some(out) = self.pl_block(pl, block)? {
                        return Ok(Some(out));
                    }
                }
            }
        }
        Ok(None)
    }
}

fn quantified<'v>(l: &V, cmp: Cmp, all: bool, items: impl Iterator<Item = &'v V>) -> Option<bool> {
    let mut result = Some(all);
    for item in items {
        match compare(cmp, l, item) {
            Some(b) if b != all => return Some(b),
            Some(_) => {}
            None => result = None,
        }
    }
    result
}

fn columns_of(name: &str, def: &Table) -> Vec<ColInfo> {
    def.cols
        .iter()
        .map(|c| ColInfo {
            qual: name.to_owned(),
            name: c.name.clone(),
            ty: c.ty.clone(),
            src: None,
        })
        .collect()
}

/// The variables of a function.
struct Plpgsql {
    cols: Vec<ColInfo>,
    vals: Vec<V>,
}

impl Plpgsql {
    fn new(op: &str) -> Self {
        Self {
            cols: vec![ColInfo {
                qual: String::new(),
                name: "tg_op".to_owned(),
                ty: T::Text,
                src: None,
            }],
            vals: vec![V::Text(op.to_owned())],
        }
    }

    fn record(&mut self, qual: &str, def: &Table, vals: &[V]) {
        self.cols.extend(columns_of(qual, def));
        self.vals.extend(vals.iter().cloned());
    }

    fn get_record(&self, qual: &str) -> Vec<V> {
        self.cols
            .iter()
            .zip(&self.vals)
            .filter(|(c, _)| c.qual == qual)
            .map(|(_, v)| v.clone())
            .collect()
    }
}
