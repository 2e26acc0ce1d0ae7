//! Name and type resolution.
use std::sync::Arc;

use crate::{
    PgErr, Res, Stop,
    ast::*,
    db::Db,
    value::{T, V},
};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cmp {
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Arith {
    Add,
    Sub,
    Mul,
    Div,
    Mod,
    FAdd,
    FSub,
    FMul,
    FDiv,
    TsAdd,
    TsSub,
    TsDiff,
    IvAdd,
    IvSub,
    IvMul,
    IvDiv,
    Concat,
    ArrCat,
    ArrAppend,
    ArrPrepend,
    JsonCat,
    ArrContains,
    ArrContained,
    ArrOverlap,
    JsonContains,
    JsonContained,
    JsonGet,
    JsonGetText,
    JsonHas,
    JsonHasAny,
    JsonHasAll,
    JsonDelete,
}

#[derive(Clone, Debug)]
pub enum SubKind {
    Scalar,
    Exists,
    In(Box<B>, bool),
    Quant(Box<B>, Cmp, bool),
    Array,
}

#[derive(Clone, Debug)]
pub enum B {
    Const(V),
    Param(usize),
    Col(usize, usize),
    Cast(Box<B>, T, T),
    Cmp(Cmp, Box<B>, Box<B>),
    Arith(Arith, Box<B>, Box<B>, T),
    Neg(Box<B>),
    And(Box<B>, Box<B>),
    Or(Box<B>, Box<B>),
    Not(Box<B>),
    IsNull(Box<B>, bool),
    Distinct(Box<B>, Box<B>, bool),
    IsBool(Box<B>, Option<bool>, bool),
    In(Box<B>, Vec<B>, bool),
    Quant(Box<B>, Cmp, bool, Box<B>),
    Sub(SubKind, Arc<BSelect>, Option<usize>),
    Case(Vec<(B, B)>, Option<Box<B>>),
    Func(String, Vec<(B, T)>, T),
    Array(Vec<B>),
    Index(Box<B>, Box<B>),
    Row(Vec<B>),
    Like(Box<B>, Box<B>, bool, bool),
    Agg(usize),
    Win(usize),
    Default,
}

#[derive(Clone, Debug)]
pub struct Out {
    pub name: String,
    pub ty: T,
    /// Table and number of the column.
    pub src: Option<(u32, i16)>,
}

#[derive(Clone, Debug)]
pub struct ColInfo {
    pub qual: String,
    pub name: String,
    pub ty: T,
    pub src: Option<(u32, i16)>,
}

#[derive(Clone, Debug)]
pub struct Agg {
    pub name: String,
    pub arg: Option<B>,
    pub distinct: bool,
    pub filter: Option<B>,
    pub ty: T,
}

#[derive(Clone, Debug)]
pub struct Win {
    pub name: String,
    pub part: Vec<B>,
    pub order: Vec<(B, bool, bool)>,
}

#[derive(Clone, Debug)]
pub enum BFrom {
    Table(String, usize, usize),
    Cte(usize, usize),
    Sub(Box<BSelect>, usize),
    Func(String, Vec<(B, T)>, usize),
    Join(Box<BFrom>, Box<BFrom>, JoinKind, Option<B>, usize),
}

#[derive(Clone, Debug, Default)]
pub struct BSelect {
    pub ctes: Vec<(usize, BStmt)>,
    pub from: Vec<BFrom>,
    pub values: Option<Vec<Vec<B>>>,
    pub filter: Option<B>,
    pub grouped: bool,
    pub group: Vec<B>,
    pub having: Option<B>,
    pub aggs: Vec<Agg>,
    pub wins: Vec<Win>,
    pub items: Vec<B>,
    pub out: Vec<Out>,
    pub order: Vec<(Result<usize, B>, bool, bool)>,
    pub distinct: bool,
    pub distinct_on: Vec<B>,
    pub limit: Option<B>,
    pub offset: Option<B>,
    pub lock: Option<(Wait, Vec<usize>)>,
    pub union: Vec<(bool, BSelect)>,
}

#[derive(Clone, Debug)]
pub struct BInsert {
    pub ctes: Vec<(usize, BStmt)>,
    pub table: String,
    pub cols: Vec<usize>,
    pub source: Option<BSelect>,
    pub defaults: Vec<Option<B>>,
    pub items: Vec<B>,
    pub out: Vec<Out>,
}

#[derive(Clone, Debug)]
pub struct BUpdate {
    pub ctes: Vec<(usize, BStmt)>,
    pub table: String,
    pub width: usize,
    pub from: Vec<BFrom>,
    pub filter: Option<B>,
    pub sets: Vec<(usize, B)>,
    pub items: Vec<B>,
    pub out: Vec<Out>,
}

#[derive(Clone, Debug)]
pub enum BStmt {
    Select(BSelect),
    Insert(BInsert),
    Update(BUpdate),
    /// No sets.
    Delete(BUpdate),
    Util(Stmt),
}

impl BStmt {
    pub fn out(&self) -> &[Out] {
        match self {
            BStmt::Select(s) => &s.out,
            BStmt::Insert(s) => &s.out,
            BStmt::Update(s) | BStmt::Delete(s) => &s.out,
            BStmt::Util(_) => &[],
        }
    }
}

#[derive(Default)]
struct Scope {
    cols: Vec<ColInfo>,
    bases: Vec<(String, usize)>,
    aggs: Vec<Agg>,
    wins: Vec<Win>,
    allow_agg: bool,
}

pub struct Binder<'a> {
    db: &'a Db,
    pub params: Vec<Option<T>>,
    scopes: Vec<Scope>,
    lowest: usize,
    ctes: Vec<(String, Vec<Out>)>,
    subs: usize,
}

fn int(ty: &T) -> bool {
    matches!(ty, T::Int2 | T::Int4 | T::Int8)
}
fn number(ty: &T) -> bool {
    int(ty) || matches!(ty, T::Float8 | T::Numeric)
}
pub fn texty(ty: &T) -> bool {
    matches!(ty, T::Text | T::Varchar | T::Name)
}
fn time(ty: &T) -> bool {
    matches!(ty, T::Ts | T::Tstz | T::Date)
}
fn oidy(ty: &T) -> bool {
    matches!(ty, T::Oid | T::Regtype)
}

#[derive(Clone, Copy, PartialEq)]
enum Ctx {
    Implicit,
    Assign,
    Explicit,
}

impl<'a> Binder<'a> {
    pub fn new(db: &'a Db, params: Vec<Option<T>>) -> Self {
        Self {
            db,
            params,
            scopes: Vec::new(),
            lowest: usize::MAX,
            ctes: Vec::new(),
            subs: 0,
        }
    }

    /// Bind an expression over the given columns.
    pub fn standalone(db: &'a Db, cols: Vec<ColInfo>, e: &Expr, ty: Option<&T>) -> Res<(B, T)> {
        let mut binder = Self::new(db, Vec::new());
        binder.scopes.push(Scope {
            cols,
            ..Default::default()
        });
        let (b, from) = binder.expr(e)?;
        match ty {
            None => Ok(binder.settle(b, from)),
            Some(to) => Ok((binder.coerce(b, &from, to, Ctx::Assign)?, to.clone())),
        }
    }

    fn name(&self, ty: &T) -> String {
        self.db.enums.name(ty)
    }

    fn settle(&mut self, b: B, ty: T) -> (B, T) {
        if ty == T::Unknown {
            if let B::Param(n) = b {
                self.params[n].get_or_insert(T::Text);
            }
            return (b, T::Text);
        }
        (b, ty)
    }

    fn resolve(&self, name: &TypeName) -> Res<T> {
        let elem = self.db.enums.by_name(&name.name)?;
        Ok(if name.array { T::Array(Box::new(elem)) } else { elem })
    }

    fn coerce(&mut self, b: B, from: &T, to: &T, ctx: Ctx) -> Res<B> {
        if from == to {
            return Ok(b);
        }
        if *from == T::Unknown {
            return match b {
                B::Const(V::Null) => Ok(b),
                B::Const(V::Text(s)) => Ok(B::Const(self.db.enums.parse(&s, to)?)),
                B::Param(n) => {
                    let known = self.params[n].get_or_insert_with(|| to.clone()).clone();
                    if known == *to {
                        Ok(b)
                    } else {
                        self.coerce(b, &known, to, ctx)
                    }
                }
                // An empty array or the like.
                b => Ok(B::Cast(Box::new(b), T::Unknown, to.clone())),
            };
        }
        let ok = match (from, to) {
            (f, t) if number(f) && number(t) => {
                let rank = |ty: &T| match ty {
                    T::Int2 => 0,
                    T::Int4 => 1,
                    T::Int8 => 2,
                    T::Numeric => 3,
                    _ => 4,
                };
                rank(f) <= rank(t) || ctx != Ctx::Implicit
            }
            (f, t) if texty(f) && texty(t) => true,
            (T::Char, t) if texty(t) => true,
            (T::Ts | T::Date, T::Tstz) | (T::Date, T::Ts) => true,
            (f, t) if time(f) && time(t) => ctx != Ctx::Implicit,
            (f, t) if (int(f) || oidy(f)) && oidy(t) => true,
            (f, t) if oidy(f) && int(t) => ctx != Ctx::Implicit,
            (T::Json, T::Jsonb) | (T::Jsonb, T::Json) => ctx != Ctx::Implicit,
            (T::Array(f), T::Array(t)) => {
                if texty(f) && texty(t) {
                    true
                } else if number(f) && number(t) || texty(f) || texty(t) {
                    ctx == Ctx::Explicit
                } else {
                    false
                }
            }
            (_, t) if texty(t) => ctx != Ctx::Implicit,
            (f, _) if texty(f) => ctx == Ctx::Explicit,
            (T::Bool, T::Int4) | (T::Int4, T::Bool) => ctx == Ctx::Explicit,
            (T::Jsonb, T::Bool | T::Int2 | T::Int4 | T::Int8 | T::Float8 | T::Numeric) => {
                ctx == Ctx::Explicit
            }
            (T::Void, _) => false,
            _ => false,
        };
        if !ok {
            return Err(match ctx {
                Ctx::Explicit | Ctx::Implicit => PgErr::new(
                    "42846",
                    format!("cannot cast type {} to {}", self.name(from), self.name(to)),
                ),
                Ctx::Assign => PgErr::new(
                    "42804",
                    format!(
                        "column is of type {} but expression is of type {}",
                        self.name(to),
                        self.name(from)
                    ),
                ),
            }
            .into());
        }
        Ok(B::Cast(Box::new(b), from.clone(), to.clone()))
    }

    fn no_operator<X>(&self, op: &str, l: &T, r: &T) -> Res<X> {
        Err(PgErr::new(
            "42883",
            format!(
                "operator does not exist: {} {op} {}",
                self.name(l),
                self.name(r)
            ),
        )
        .into())
    }

    /// The common type of both for a comparison.
    fn common(&self, l: &T, r: &T) -> Option<T> {
        Some(match (l, r) {
            (T::Unknown, T::Unknown) => T::Text,
            (T::Unknown, T::Varchar | T::Name) | (T::Varchar | T::Name, T::Unknown) => T::Text,
            (T::Unknown, t) | (t, T::Unknown) => t.clone(),
            (l, r) if l == r => l.clone(),
            (l, r) if int(l) && int(r) => {
                if *l == T::Int8 || *r == T::Int8 {
                    T::Int8
                } else {
                    T::Int4
                }
            }
            (l, r) if number(l) && number(r) => {
                if *l == T::Float8 || *r == T::Float8 {
                    T::Float8
                } else {
                    T::Numeric
                }
            }
            (l, r) if (texty(l) || *l == T::Char) && (texty(r) || *r == T::Char) => T::Text,
            (l, r) if time(l) && time(r) => {
                if *l == T::Tstz || *r == T::Tstz {
                    T::Tstz
                } else {
                    T::Ts
                }
            }
            (l, r) if (oidy(l) || int(l)) && (oidy(r) || int(r)) => T::Oid,
            _ => return None,
        })
    }

    fn comparison(&mut self, op: &str) -> Option<Cmp> {
        Some(match op {
            "=" => Cmp::Eq,
            "<>" => Cmp::Ne,
            "<" => Cmp::Lt,
            "<=" => Cmp::Le,
            ">" => Cmp::Gt,
            ">=" => Cmp::Ge,
            _ => return None,
        })
    }

    fn compare(&mut self, op: &str, l: (B, T), r: (B, T)) -> Res<(B, B)> {
        if let (B::Row(ls), B::Row(rs)) = (&l.0, &r.0) {
            let _ = (ls, rs);
            return Ok((l.0, r.0));
        }
        let Some(ty) = self.common(&l.1, &r.1) else {
            return self.no_operator(op, &l.1, &r.1);
        };
        if matches!(ty, T::Json | T::Void) || matches!(&ty, T::Array(e) if **e == T::Json) {
            return self.no_operator(op, &l.1, &r.1);
        }
        Ok((
            self.coerce(l.0, &l.1, &ty, Ctx::Implicit)?,
            self.coerce(r.0, &r.1, &ty, Ctx::Implicit)?,
        ))
    }

    fn binary(&mut self, op: &str, l: (B, T), r: (B, T)) -> Res<(B, T)> {
        if let Some(cmp) = self.comparison(op) {
            let (l, r) = self.compare(op, l, r)?;
            return Ok((B::Cmp(cmp, Box::new(l), Box::new(r)), T::Bool));
        }
        let (lb, lt) = l;
        let (rb, rt) = r;
        let unknown = |t: &T| *t == T::Unknown;
        // (operation, type of the left, of the right, of the result)
        let jsonish = |t: &T| matches!(t, T::Json | T::Jsonb);
        let array = |t: &T| matches!(t, T::Array(_));
        let pick: Option<(Arith, T, T, T)> = match op {
            "+" | "-" if time(&lt) && (rt == T::Interval || (unknown(&rt) && op == "+")) => Some((
                if op == "+" { Arith::TsAdd } else { Arith::TsSub },
                lt.clone(),
                T::Interval,
                if lt == T::Date { T::Ts } else { lt.clone() },
            )),
            "+" if time(&rt) && (lt == T::Interval || unknown(&lt)) => {
                let b = B::Arith(
                    Arith::TsAdd,
                    Box::new(rb),
                    Box::new(self.coerce(lb, &lt, &T::Interval, Ctx::Implicit)?),
                    rt.clone(),
                );
                return Ok((b, rt));
            }
            "-" if (time(&lt) || time(&rt)) && (time(&lt) || unknown(&lt)) && (time(&rt) || unknown(&rt)) => {
                let ty = self.common(&lt, &rt).unwrap();
                Some((Arith::TsDiff, ty.clone(), ty, T::Interval))
            }
            "+" | "-" if lt == T::Interval && (rt == T::Interval || unknown(&rt)) || rt == T::Interval && unknown(&lt) => Some((
                if op == "+" { Arith::IvAdd } else { Arith::IvSub },
                T::Interval,
                T::Interval,
                T::Interval,
            )),
            "*" if lt == T::Interval && number(&rt) => {
                Some((Arith::IvMul, T::Interval, T::Float8, T::Interval))
            }
            "*" if rt == T::Interval && number(&lt) => {
                let b = B::Arith(
                    Arith::IvMul,
                    Box::new(rb),
                    Box::new(self.coerce(lb, &lt, &T::Float8, Ctx::Implicit)?),
                    T::Interval,
                );
                return Ok((b, T::Interval));
            }
            "/" if lt == T::Interval && number(&rt) => {
                Some((Arith::IvDiv, T::Interval, T::Float8, T::Interval))
            }
            "+" | "-" | "*" | "/" | "%"
                if (number(&lt) || unknown(&lt)) && (number(&rt) || unknown(&rt)) && !(unknown(&lt) && unknown(&rt)) =>
            {
                let ty = self.common(&lt, &rt).unwrap();
                let kind = match (op, int(&ty)) {
                    ("+", true) => Arith::Add,
                    ("-", true) => Arith::Sub,
                    ("*", true) => Arith::Mul,
                    ("/", true) => Arith::Div,
                    ("%", true) => Arith::Mod,
                    ("+", _) => Arith::FAdd,
                    ("-", _) => Arith::FSub,
                    ("*", _) => Arith::FMul,
                    ("/", _) => Arith::FDiv,
                    _ => return self.no_operator(op, &lt, &rt),
                };
                Some((kind, ty.clone(), ty.clone(), ty))
            }
            "||" => match (&lt, &rt) {
                (l, r) if array(l) && (array(r) || unknown(r)) && (unknown(r) || l == r) => {
                    Some((Arith::ArrCat, l.clone(), l.clone(), l.clone()))
                }
                (l, r) if array(r) && unknown(l) => {
                    Some((Arith::ArrCat, r.clone(), r.clone(), r.clone()))
                }
                (T::Array(e), r) if self.common(e, r).as_ref() == Some(&**e) => {
                    Some((Arith::ArrAppend, lt.clone(), (**e).clone(), lt.clone()))
                }
                (l, T::Array(e)) if self.common(e, l).as_ref() == Some(&**e) => {
                    Some((Arith::ArrPrepend, (**e).clone(), rt.clone(), rt.clone()))
                }
                (T::Jsonb, T::Jsonb | T::Unknown) | (T::Unknown, T::Jsonb) => {
                    Some((Arith::JsonCat, T::Jsonb, T::Jsonb, T::Jsonb))
                }
                (l, r)
                    if (texty(l) || unknown(l)) && !array(r) || (texty(r) || unknown(r)) && !array(l) =>
                {
                    let a = self.coerce(lb, &lt, &T::Text, Ctx::Assign)?;
                    let b = self.coerce(rb, &rt, &T::Text, Ctx::Assign)?;
                    return Ok((
                        B::Arith(Arith::Concat, Box::new(a), Box::new(b), T::Text),
                        T::Text,
                    ));
                }
                _ => None,
            },
            "@>" | "<@" => {
                let kind = |arr: bool| match (op, arr) {
                    ("@>", true) => Arith::ArrContains,
                    ("@>", false) => Arith::JsonContains,
                    (_, true) => Arith::ArrContained,
                    (_, false) => Arith::JsonContained,
                };
                match (&lt, &rt) {
                    (l, r) if array(l) && (l == r || unknown(r)) => {
                        Some((kind(true), l.clone(), l.clone(), T::Bool))
                    }
                    (l, r) if array(r) && unknown(l) => {
                        Some((kind(true), r.clone(), r.clone(), T::Bool))
                    }
                    (T::Jsonb, T::Jsonb | T::Unknown) | (T::Unknown, T::Jsonb) => {
                        Some((kind(false), T::Jsonb, T::Jsonb, T::Bool))
                    }
                    _ => None,
                }
            }
            "&&" => match (&lt, &rt) {
                (l, r) if array(l) && (l == r || unknown(r)) => {
                    Some((Arith::ArrOverlap, l.clone(), l.clone(), T::Bool))
                }
                (l, r) if array(r) && unknown(l) => {
                    Some((Arith::ArrOverlap, r.clone(), r.clone(), T::Bool))
                }
                _ => None,
            },
            "->" | "->>" if jsonish(&lt) && (int(&rt) || texty(&rt) || unknown(&rt)) => Some((
                if op == "->" { Arith::JsonGet } else { Arith::JsonGetText },
                lt.clone(),
                if int(&rt) { rt.clone() } else { T::Text },
                if op == "->" { lt.clone() } else { T::Text },
            )),
            "?" if lt == T::Jsonb => Some((Arith::JsonHas, T::Jsonb, T::Text, T::Bool)),
            "?|" if lt == T::Jsonb => Some((
                Arith::JsonHasAny,
                T::Jsonb,
                T::Array(Box::new(T::Text)),
                T::Bool,
            )),
            "?&" if lt == T::Jsonb => Some((
                Arith::JsonHasAll,
                T::Jsonb,
                T::Array(Box::new(T::Text)),
                T::Bool,
            )),
            "-" if lt == T::Jsonb && (texty(&rt) || unknown(&rt)) => {
                Some((Arith::JsonDelete, T::Jsonb, T::Text, T::Jsonb))
            }
            "+" | "-" | "*" | "/" | "%" | "<<" | ">>" | "<->" => None,
            "~" | "~*" | "!~" | "#>" | "#>>" | "&" | "|" | "^" | "@?" | "@@" | "#-" => {
                return Err(Stop::unsupported(format!("operator {op}")));
            }
            _ => None,
        };
        let Some((kind, wl, wr, out)) = pick else {
            return self.no_operator(op, &lt, &rt);
        };
        let l = self.coerce(lb, &lt, &wl, Ctx::Implicit)?;
        let r = self.coerce(rb, &rt, &wr, Ctx::Implicit)?;
        Ok((B::Arith(kind, Box::new(l), Box::new(r), out.clone()), out))
    }

    fn unify(&mut self, list: Vec<(B, T)>) -> Res<(Vec<B>, T)> {
        let mut ty = T::Unknown;
        for (_, t) in &list {
            ty = match self.common(&ty, t) {
                Some(_) if ty == T::Unknown => t.clone(),
                // The first one wins among texts.
                Some(_) if texty(&ty) && texty(t) => ty,
                Some(c) => c,
                None => {
                    return Err(PgErr::new(
                        "42804",
                        format!("types {} and {} cannot be matched", self.name(&ty), self.name(t)),
                    )
                    .into());
                }
            };
        }
        if ty == T::Unknown {
            ty = T::Text;
        }
        let list = list
            .into_iter()
            .map(|(b, t)| self.coerce(b, &t, &ty, Ctx::Implicit))
            .collect::<Res<_>>()?;
        Ok((list, ty))
    }

    fn column(&mut self, qual: Option<&str>, name: &str) -> Res<(B, T)> {
        for (level, scope) in self.scopes.iter().enumerate().rev() {
            let hits: Vec<usize> = scope
                .cols
                .iter()
                .enumerate()
                .filter(|(_, c)| c.name == name && qual.is_none_or(|q| c.qual == q))
                .map(|(i, _)| i)
                .collect();
            match hits.as_slice() {
                [] => continue,
                [i] => {
                    let depth = self.scopes.len() - 1 - level;
                    let ty = scope.cols[*i].ty.clone();
                    self.lowest = self.lowest.min(level);
                    return Ok((B::Col(depth, *i), ty));
                }
                _ => {
                    return Err(PgErr::new(
                        "42702",
                        format!("column reference \"{name}\" is ambiguous"),
                    )
                    .into());
                }
            }
        }
        if let Some(q) = qual
            && !self.scopes.iter().any(|s| s.cols.iter().any(|c| c.qual == q))
        {
            return Err(PgErr::new(
                "42P01",
                format!("missing FROM-clause entry for table \"{q}\""),
            )
            .into());
        }
        Err(PgErr::new("42703", format!("column \"{name}\" does not exist")).into())
    }

    fn boolean(&mut self, e: &Expr, what: &str) -> Res<B> {
        let (b, t) = self.expr(e)?;
        if t != T::Bool && t != T::Unknown {
            return Err(PgErr::new(
                "42804",
                format!("argument of {what} must be type boolean, not type {}", self.name(&t)),
            )
            .into());
        }
        self.coerce(b, &t, &T::Bool, Ctx::Implicit)
    }

    fn subquery(&mut self, s: &Select) -> Res<(Arc<BSelect>, Option<usize>)> {
        let saved = std::mem::replace(&mut self.lowest, usize::MAX);
        let level = self.scopes.len();
        let b = self.select(s)?;
        let correlated = self.lowest < level;
        self.lowest = self.lowest.min(saved);
        self.subs += 1;
        Ok((Arc::new(b), (!correlated).then_some(self.subs)))
    }

    pub fn expr(&mut self, e: &Expr) -> Res<(B, T)> {
        Ok(match e {
            Expr::Null => (B::Const(V::Null), T::Unknown),
            Expr::Bool(b) => (B::Const(V::Bool(*b)), T::Bool),
            Expr::Num(n) => match n.parse::<i64>() {
                Ok(n) => (
                    B::Const(V::Int(n)),
                    if i32::try_from(n).is_ok() { T::Int4 } else { T::Int8 },
                ),
                Err(_) => (
                    B::Const(V::Float(n.parse().map_err(|_| {
                        Stop::from(PgErr::new("42601", "bad number"))
                    })?)),
                    T::Numeric,
                ),
            },
            Expr::Str(s) => (B::Const(V::Text(s.clone())), T::Unknown),
            Expr::Param(n) => {
                if *n == 0 {
                    return Err(PgErr::new("42P02", "there is no parameter $0").into());
                }
                while self.params.len() < *n {
                    self.params.push(None);
                }
                let ty = self.params[n - 1].clone().unwrap_or(T::Unknown);
                (B::Param(n - 1), ty)
            }
            Expr::Default => {
                return Err(PgErr::new("42601", "DEFAULT is not allowed in this context").into());
            }
            Expr::Col(qual, name) => self.column(qual.as_deref(), name)?,
            Expr::Cast(e, ty) => {
                let to = self.resolve(ty)?;
                if let Expr::Array(list) = &**e
                    && list.is_empty()
                {
                    return Ok((B::Const(V::Array(Vec::new())), to));
                }
                let (b, from) = self.expr(e)?;
                (self.coerce(b, &from, &to, Ctx::Explicit)?, to)
            }
            Expr::Neg(e) => {
                let (b, t) = self.expr(e)?;
                if !number(&t) && t != T::Interval {
                    return self.no_operator("-", &T::Unknown, &t);
                }
                (B::Neg(Box::new(b)), t)
            }
            Expr::Bin(op, l, r) => {
                if let (Expr::Row(ls), Expr::Row(rs)) = (&**l, &**r) {
                    if ls.len() != rs.len() {
                        return Err(PgErr::new("42601", "unequal number of entries in row expressions").into());
                    }
                    let Some(cmp) = self.comparison(op) else {
                        return Err(Stop::unsupported("row operator"));
                    };
                    let (mut lb, mut rb) = (Vec::new(), Vec::new());
                    for (l, r) in ls.iter().zip(rs) {
                        let l = self.expr(l)?;
                        let r = self.expr(r)?;
                        let (l, r) = self.compare(op, l, r)?;
                        lb.push(l);
                        rb.push(r);
                    }
                    return Ok((
                        B::Cmp(cmp, Box::new(B::Row(lb)), Box::new(B::Row(rb))),
                        T::Bool,
                    ));
                }
                let l = self.expr(l)?;
                let r = self.expr(r)?;
                self.binary(op, l, r)?
            }
            Expr::And(l, r) => (
                B::And(
                    Box::new(self.boolean(l, "AND")?),
                    Box::new(self.boolean(r, "AND")?),
                ),
                T::Bool,
            ),
            Expr::Or(l, r) => (
                B::Or(
                    Box::new(self.boolean(l, "OR")?),
                    Box::new(self.boolean(r, "OR")?),
                ),
                T::Bool,
            ),
            Expr::Not(e) => (B::Not(Box::new(self.boolean(e, "NOT")?)), T::Bool),
            Expr::IsNull(e, not) => {
                let (b, t) = self.expr(e)?;
                let (b, _) = self.settle(b, t);
                (B::IsNull(Box::new(b), *not), T::Bool)
            }
            Expr::IsDistinct(l, r, not) => {
                let l = self.expr(l)?;
                let r = self.expr(r)?;
                let (l, r) = self.compare("=", l, r)?;
                (B::Distinct(Box::new(l), Box::new(r), *not), T::Bool)
            }
            Expr::IsBool(e, want, not) => (
                B::IsBool(Box::new(self.boolean(e, "IS")?), *want, *not),
                T::Bool,
            ),
            Expr::In(e, list, not) => {
                let (b, t) = self.expr(e)?;
                let mut items = Vec::new();
                // Every comparison is resolved on its own.
                let mut ty = t.clone();
                let list: Vec<(B, T)> = list.iter().map(|e| self.expr(e)).collect::<Res<_>>()?;
                for (_, u) in &list {
                    ty = match self.common(&ty, u) {
                        Some(_) if ty == T::Unknown => u.clone(),
                        Some(c) => c,
                        None => return self.no_operator("=", &t, u),
                    };
                }
                if ty == T::Unknown {
                    ty = T::Text;
                }
                let b = self.coerce(b, &t, &ty, Ctx::Implicit)?;
                for (i, u) in list {
                    items.push(self.coerce(i, &u, &ty, Ctx::Implicit)?);
                }
                (B::In(Box::new(b), items, *not), T::Bool)
            }
            Expr::InSub(e, s, not) => {
                let lhs = match &**e {
                    Expr::Row(_) => return Err(Stop::unsupported("IN with rows")),
                    e => self.expr(e)?,
                };
                let (sub, id) = self.subquery(s)?;
                let (lhs, sub) = self.match_sub(lhs, sub)?;
                (
                    B::Sub(SubKind::In(Box::new(lhs), *not), sub, id),
                    T::Bool,
                )
            }
            Expr::QuantSub(e, op, all, s) => {
                let lhs = self.expr(e)?;
                let Some(cmp) = self.comparison(op) else {
                    return Err(Stop::unsupported("quantified operator"));
                };
                let (sub, id) = self.subquery(s)?;
                let (lhs, sub) = self.match_sub(lhs, sub)?;
                (
                    B::Sub(SubKind::Quant(Box::new(lhs), cmp, *all), sub, id),
                    T::Bool,
                )
            }
            Expr::Quant(l, op, all, r) => {
                let (lb, lt) = self.expr(l)?;
                let (rb, rt) = self.expr(r)?;
                let Some(cmp) = self.comparison(op) else {
                    return Err(Stop::unsupported("quantified operator"));
                };
                let elem = match &rt {
                    T::Array(elem) => (**elem).clone(),
                    T::Unknown => {
                        if lt == T::Unknown { T::Text } else { lt.clone() }
                    }
                    _ => {
                        return Err(PgErr::new(
                            "42809",
                            "op ANY/ALL (array) requires array on right side",
                        )
                        .into());
                    }
                };
                let Some(ty) = self.common(&lt, &elem) else {
                    return self.no_operator(op, &lt, &elem);
                };
                let l = self.coerce(lb, &lt, &ty, Ctx::Implicit)?;
                let to = T::Array(Box::new(ty));
                let r = match rt {
                    T::Unknown => self.coerce(rb, &rt, &to, Ctx::Implicit)?,
                    rt if rt == to => rb,
                    rt => B::Cast(Box::new(rb), rt, to),
                };
                (B::Quant(Box::new(l), cmp, *all, Box::new(r)), T::Bool)
            }
            Expr::Exists(s) => {
                let (sub, id) = self.subquery(s)?;
                (B::Sub(SubKind::Exists, sub, id), T::Bool)
            }
            Expr::Sub(s) => {
                let (sub, id) = self.subquery(s)?;
                if sub.out.len() != 1 {
                    return Err(PgErr::new("42601", "subquery must return only one column").into());
                }
                let ty = sub.out[0].ty.clone();
                (B::Sub(SubKind::Scalar, sub, id), ty)
            }
            Expr::ArraySub(s) => {
                let (sub, id) = self.subquery(s)?;
                if sub.out.len() != 1 {
                    return Err(PgErr::new("42601", "subquery must return only one column").into());
                }
                let ty = T::Array(Box::new(sub.out[0].ty.clone()));
                (B::Sub(SubKind::Array, sub, id), ty)
            }
            Expr::Case(operand, arms, other) => {
                let mut whens = Vec::new();
                let mut results = Vec::new();
                for (when, then) in arms {
                    whens.push(match operand {
                        None => self.boolean(when, "CASE/WHEN")?,
                        Some(operand) => {
                            let l = self.expr(operand)?;
                            let r = self.expr(when)?;
                            self.binary("=", l, r)?.0
                        }
                    });
                    results.push(self.expr(then)?);
                }
                if let Some(other) = other {
                    results.push(self.expr(other)?);
                }
                let (mut results, ty) = self.unify(results)?;
                let other = other.as_ref().map(|_| Box::new(results.pop().unwrap()));
                (B::Case(whens.into_iter().zip(results).collect(), other), ty)
            }
            Expr::Array(list) => {
                if list.is_empty() {
                    return Err(PgErr::new("42P18", "cannot determine type of empty array").into());
                }
                let list = list.iter().map(|e| self.expr(e)).collect::<Res<_>>()?;
                let (list, ty) = self.unify(list)?;
                (B::Array(list), T::Array(Box::new(ty)))
            }
            Expr::Index(e, i) => {
                let (b, t) = self.expr(e)?;
                let T::Array(elem) = t else {
                    return Err(PgErr::new("42804", "cannot subscript").into());
                };
                let (i, it) = self.expr(i)?;
                let i = self.coerce(i, &it, &T::Int4, Ctx::Assign)?;
                (B::Index(Box::new(b), Box::new(i)), *elem)
            }
            Expr::Row(list) => {
                let list = list
                    .iter()
                    .map(|e| self.expr(e).map(|(b, _)| b))
                    .collect::<Res<_>>()?;
                (B::Row(list), T::Record)
            }
            Expr::Like(l, r, ci, not) => {
                let (l, lt) = self.expr(l)?;
                let (r, rt) = self.expr(r)?;
                for t in [&lt, &rt] {
                    if !texty(t) && *t != T::Unknown {
                        return self.no_operator("~~", &lt, &rt);
                    }
                }
                let l = self.coerce(l, &lt, &T::Text, Ctx::Implicit)?;
                let r = self.coerce(r, &rt, &T::Text, Ctx::Implicit)?;
                (B::Like(Box::new(l), Box::new(r), *ci, *not), T::Bool)
            }
            Expr::Func(f) => self.func(f)?,
        })
    }

    fn match_sub(&mut self, lhs: (B, T), sub: Arc<BSelect>) -> Res<(B, Arc<BSelect>)> {
        if sub.out.len() != 1 {
            return Err(PgErr::new("42601", "subquery has too many columns").into());
        }
        let ty = sub.out[0].ty.clone();
        let Some(common) = self.common(&lhs.1, &ty) else {
            return self.no_operator("=", &lhs.1, &ty);
        };
        let l = self.coerce(lhs.0, &lhs.1, &common, Ctx::Implicit)?;
        // Values of types that have a common one compare without conversion of the right side.
        Ok((l, sub))
    }

    fn func(&mut self, f: &Func) -> Res<(B, T)> {
        let name = f.name.as_str();
        if let Some((part, order)) = &f.over {
            if !matches!(name, "row_number" | "rank" | "dense_rank" | "count") {
                return Err(Stop::unsupported(format!("window function {name}")));
            }
            let part = part
                .iter()
                .map(|e| self.expr(e).map(|(b, _)| b))
                .collect::<Res<_>>()?;
            let order = order
                .iter()
                .map(|o| Ok((self.expr(&o.expr)?.0, o.desc, o.nulls_first)))
                .collect::<Res<_>>()?;
            let scope = self.scopes.last_mut().unwrap();
            scope.wins.push(Win {
                name: name.to_owned(),
                part,
                order,
            });
            return Ok((B::Win(scope.wins.len() - 1), T::Int8));
        }
        if matches!(
            name,
            "count" | "max" | "min" | "sum" | "bool_or" | "bool_and" | "array_agg" | "every"
        ) {
            if !self.scopes.last().is_some_and(|s| s.allow_agg) {
                return Err(PgErr::new("42803", "aggregate functions are not allowed here").into());
            }
            let filter = match &f.filter {
                None => None,
                Some(e) => Some(self.boolean(e, "FILTER")?),
            };
            let arg = match f.args.as_slice() {
                [] if f.star => None,
                [e] => {
                    self.scopes.last_mut().unwrap().allow_agg = false;
                    let arg = self.expr(e);
                    self.scopes.last_mut().unwrap().allow_agg = true;
                    let (b, t) = arg?;
                    Some(self.settle(b, t))
                }
                _ => return Err(PgErr::new("42883", format!("function {name} does not exist")).into()),
            };
            let arg_ty = arg.as_ref().map(|a| a.1.clone());
            let ty = match (name, &arg_ty) {
                ("count", _) => T::Int8,
                ("max" | "min", Some(t)) => t.clone(),
                ("sum", Some(T::Int2 | T::Int4)) => T::Int8,
                ("sum", Some(T::Int8)) => T::Numeric,
                ("sum", Some(t)) => t.clone(),
                ("bool_or" | "bool_and" | "every", _) => T::Bool,
                ("array_agg", Some(t)) => T::Array(Box::new(t.clone())),
                _ => return Err(PgErr::new("42883", format!("function {name} does not exist")).into()),
            };
            let scope = self.scopes.last_mut().unwrap();
            scope.aggs.push(Agg {
                name: name.to_owned(),
                arg: arg.map(|a| a.0),
                distinct: f.distinct,
                filter,
                ty: ty.clone(),
            });
            return Ok((B::Agg(scope.aggs.len() - 1), ty));
        }
        let mut args: Vec<(B, T)> = f.args.iter().map(|e| self.expr(e)).collect::<Res<_>>()?;
        let missing = |b: &Self, args: &[(B, T)]| -> Stop {
            let types: Vec<String> = args.iter().map(|a| b.name(&a.1)).collect();
            PgErr::new(
                "42883",
                format!("function {name}({}) does not exist", types.join(", ")),
            )
            .into()
        };
        let fix = |b: &mut Self, args: Vec<(B, T)>, types: &[T]| -> Res<Vec<(B, T)>> {
            if args.len() != types.len() {
                return Err(missing(b, &args));
            }
            let error = missing(b, &args);
            args.into_iter()
                .zip(types)
                .map(|((x, t), to)| {
                    let x = b
                        .coerce(x, &t, to, Ctx::Implicit)
                        .map_err(|e| if t == T::Unknown { e } else { error.clone() })?;
                    Ok((x, to.clone()))
                })
                .collect()
        };
        let out = match name {
            "now" | "transaction_timestamp" | "statement_timestamp" | "clock_timestamp"
            | "current_timestamp" => {
                args = fix(self, args, &[])?;
                T::Tstz
            }
            "localtimestamp" => T::Ts,
            "timezone" => {
                let [_, (_, t)] = args.as_slice() else {
                    return Err(missing(self, &args));
                };
                let t = if *t == T::Ts { T::Ts } else { T::Tstz };
                args = fix(self, args, &[T::Text, t.clone()])?;
                if t == T::Ts { T::Tstz } else { T::Ts }
            }
            "date_trunc" => {
                let [_, (_, t)] = args.as_slice() else {
                    return Err(missing(self, &args));
                };
                let t = if *t == T::Ts { T::Ts } else { T::Tstz };
                args = fix(self, args, &[T::Text, t.clone()])?;
                t
            }
            "date_part" => {
                let [_, (_, t)] = args.as_slice() else {
                    return Err(missing(self, &args));
                };
                let t = if *t == T::Unknown { T::Tstz } else { t.clone() };
                args = fix(self, args, &[T::Text, t])?;
                T::Float8
            }
            "to_timestamp" => {
                args = fix(self, args, &[T::Float8])?;
                T::Tstz
            }
            "make_interval" => return Err(Stop::unsupported("make_interval")),
            "coalesce" | "greatest" | "least" => {
                let (list, ty) = self.unify(args)?;
                args = list.into_iter().map(|b| (b, ty.clone())).collect();
                ty
            }
            "nullif" => {
                if args.len() != 2 {
                    return Err(missing(self, &args));
                }
                let r = args.pop().unwrap();
                let l = args.pop().unwrap();
                let ty = if l.1 == T::Unknown { T::Text } else { l.1.clone() };
                let (l, r) = self.compare("=", l, r)?;
                args = vec![(l, ty.clone()), (r, ty.clone())];
                ty
            }
            "array_append" | "array_remove" | "array_position" | "array_prepend" => {
                if args.len() != 2 {
                    return Err(missing(self, &args));
                }
                if name == "array_prepend" {
                    args.swap(0, 1);
                }
                let arr = match (&args[0].1, &args[1].1) {
                    (T::Array(_), _) => args[0].1.clone(),
                    (T::Unknown, e) => T::Array(Box::new(e.clone())),
                    _ => return Err(missing(self, &args)),
                };
                let T::Array(elem) = arr.clone() else { unreachable!() };
                if args[1].1 != T::Unknown && args[1].1 != *elem && !(texty(&args[1].1) && texty(&elem)) && !(number(&args[1].1) && number(&elem)) {
                    return Err(missing(self, &args));
                }
                args = fix(self, args, &[arr.clone(), *elem])?;
                if name == "array_position" { T::Int4 } else { arr }
            }
            "array_cat" => {
                let (list, ty) = self.unify(args)?;
                args = list.into_iter().map(|b| (b, ty.clone())).collect();
                ty
            }
            "array_length" | "cardinality" => {
                if !matches!(args.first(), Some((_, T::Array(_)))) {
                    return Err(missing(self, &args));
                }
                T::Int4
            }
            "jsonb_build_object" | "json_build_object" | "jsonb_build_array"
            | "json_build_array" => {
                let object = name.ends_with("object");
                if object && args.len() % 2 != 0 {
                    return Err(PgErr::new(
                        "22023",
                        "argument list must have even number of elements",
                    )
                    .into());
                }
                args = args.into_iter().map(|(b, t)| self.settle(b, t)).collect();
                if name.starts_with("jsonb") { T::Jsonb } else { T::Json }
            }
            "to_jsonb" | "to_json" => {
                if args.len() != 1 || args[0].1 == T::Unknown {
                    return Err(missing(self, &args));
                }
                if name == "to_jsonb" { T::Jsonb } else { T::Json }
            }
            "jsonb_array_length" => {
                args = fix(self, args, &[T::Jsonb])?;
                T::Int4
            }
            "lower" | "upper" | "trim" | "btrim" => {
                args = fix(self, args, &[T::Text])?;
                T::Text
            }
            "length" | "char_length" => {
                args = fix(self, args, &[T::Text])?;
                T::Int4
            }
            "concat" => {
                args = args.into_iter().map(|(b, t)| self.settle(b, t)).collect();
                T::Text
            }
            "abs" | "floor" | "ceil" | "mod" => {
                if args.is_empty() {
                    return Err(missing(self, &args));
                }
                let (list, ty) = self.unify(args)?;
                args = list.into_iter().map(|b| (b, ty.clone())).collect();
                ty
            }
            "pg_notify" => {
                args = fix(self, args, &[T::Text, T::Text])?;
                T::Void
            }
            "pg_advisory_xact_lock" | "pg_advisory_lock" | "pg_try_advisory_xact_lock"
            | "pg_try_advisory_lock" | "pg_advisory_unlock" => {
                args = if args.len() == 2 {
                    fix(self, args, &[T::Int4, T::Int4])?
                } else {
                    fix(self, args, &[T::Int8])?
                };
                if name.starts_with("pg_try") || name.ends_with("unlock") {
                    T::Bool
                } else {
                    T::Void
                }
            }
            "pg_advisory_unlock_all" => T::Void,
            "current_database" | "version" | "current_user" | "current_schema" => {
                args = fix(self, args, &[])?;
                if name == "version" { T::Text } else { T::Name }
            }
            "pg_backend_pid" => T::Int4,
            "unnest" => {
                let [(_, T::Array(elem))] = args.as_slice() else {
                    return Err(missing(self, &args));
                };
                (**elem).clone()
            }
            "generate_series" => {
                args = fix(self, args, &[T::Int4, T::Int4])?;
                T::Int4
            }
            _ => return Err(Stop::unsupported(format!("function {name}"))),
        };
        Ok((B::Func(name.to_owned(), args, out.clone()), out))
    }

    fn bind_ctes(&mut self, with: &[Cte]) -> Res<Vec<(usize, BStmt)>> {
        let mut out = Vec::new();
        for cte in with {
            let stmt = self.stmt(&cte.body)?;
            let mut cols = stmt.out().to_vec();
            for (col, name) in cols.iter_mut().zip(&cte.cols) {
                col.name = name.clone();
            }
            self.ctes.push((cte.name.clone(), cols));
            out.push((self.ctes.len() - 1, stmt));
        }
        Ok(out)
    }

    fn push_cols(&mut self, alias: &str, outs: &[Out], names: &[String]) -> usize {
        let scope = self.scopes.last_mut().unwrap();
        let at = scope.cols.len();
        for (i, out) in outs.iter().enumerate() {
            scope.cols.push(ColInfo {
                qual: alias.to_owned(),
                name: names.get(i).unwrap_or(&out.name).clone(),
                ty: out.ty.clone(),
                src: out.src,
            });
        }
        at
    }

    fn table_outs(&self, table: &str) -> Res<Vec<Out>> {
        self.db
            .columns(table)
            .ok_or_else(|| PgErr::new("42P01", format!("relation \"{table}\" does not exist")).into())
    }

    fn from(&mut self, from: &From) -> Res<BFrom> {
        Ok(match from {
            From::Table(name, alias) => {
                if let Some(slot) = self.ctes.iter().rposition(|c| c.0 == *name) {
                    let outs = self.ctes[slot].1.clone();
                    self.push_cols(alias, &outs, &[]);
                    return Ok(BFrom::Cte(slot, outs.len()));
                }
                let outs = self.table_outs(name)?;
                if self
                    .scopes
                    .last()
                    .unwrap()
                    .bases
                    .iter()
                    .any(|b| b.0 == *alias)
                {
                    return Err(PgErr::new(
                        "42712",
                        format!("table name \"{alias}\" specified more than once"),
                    )
                    .into());
                }
                let n = outs.len();
                self.push_cols(alias, &outs, &[]);
                let scope = self.scopes.last_mut().unwrap();
                let base = scope.bases.len();
                scope.bases.push((alias.clone(), base));
                BFrom::Table(name.clone(), base, n)
            }
            From::Sub(s, alias, names) => {
                let scope = self.scopes.pop().unwrap();
                // It may refer to the outer ones only; the levels stay as they are.
                let b = self.select(s);
                self.scopes.push(scope);
                let b = b?;
                let outs = b.out.clone();
                self.push_cols(alias, &outs, names);
                let n = outs.len();
                BFrom::Sub(Box::new(b), n)
            }
            From::Func(e, alias, names) => {
                let Expr::Func(f) = e else { unreachable!() };
                if !matches!(f.name.as_str(), "unnest" | "generate_series") {
                    return Err(Stop::unsupported(format!("{} in FROM", f.name)));
                }
                let (b, ty) = self.func(f)?;
                let B::Func(name, args, _) = b else { unreachable!() };
                let outs = [Out {
                    name: names.first().unwrap_or(alias).clone(),
                    ty,
                    src: None,
                }];
                self.push_cols(alias, &outs, &[]);
                BFrom::Func(name, args, 1)
            }
            From::Join(l, r, kind, on) => {
                let l = self.from(l)?;
                let before = self.scopes.last().unwrap().cols.len();
                let r = self.from(r)?;
                let width = self.scopes.last().unwrap().cols.len() - before;
                let on = match on {
                    None => None,
                    Some(on) => Some(self.boolean(on, "JOIN/ON")?),
                };
                BFrom::Join(Box::new(l), Box::new(r), *kind, on, width)
            }
        })
    }

    fn items(&mut self, items: &[Item]) -> Res<(Vec<B>, Vec<Out>)> {
        let mut bs = Vec::new();
        let mut outs = Vec::new();
        for item in items {
            match item {
                Item::Star(qual) => {
                    let mut any = false;
                    for (i, col) in self.scopes.last().unwrap().cols.iter().enumerate() {
                        if qual.as_ref().is_none_or(|q| *q == col.qual) {
                            any = true;
                            bs.push(B::Col(0, i));
                            outs.push(Out {
                                name: col.name.clone(),
                                ty: col.ty.clone(),
                                src: col.src,
                            });
                        }
                    }
                    if !any {
                        return Err(PgErr::new("42P01", "missing FROM-clause entry").into());
                    }
                }
                Item::Expr(e, alias) => {
                    let (b, t) = self.expr(e)?;
                    let (b, ty) = self.settle(b, t);
                    let src = match b {
                        B::Col(0, i) => self.scopes.last().unwrap().cols[i].src,
                        _ => None,
                    };
                    let name = match alias {
                        Some(alias) => alias.clone(),
                        None => implicit_name(e),
                    };
                    bs.push(b);
                    outs.push(Out { name, ty, src });
                }
            }
        }
        Ok((bs, outs))
    }

    fn values(&mut self, rows: &[Vec<Expr>]) -> Res<BSelect> {
        self.scopes.push(Scope::default());
        let result = (|| {
            let width = rows[0].len();
            let mut cols: Vec<Vec<(B, T)>> = (0..width).map(|_| Vec::new()).collect();
            for row in rows {
                if row.len() != width {
                    return Err(PgErr::new("42601", "VALUES lists must all be the same length").into());
                }
                for (i, e) in row.iter().enumerate() {
                    let b = self.expr(e)?;
                    cols[i].push(b);
                }
            }
            let mut out = Vec::new();
            let mut values: Vec<Vec<B>> = rows.iter().map(|_| Vec::new()).collect();
            for (i, col) in cols.into_iter().enumerate() {
                let (list, ty) = self.unify(col)?;
                for (row, b) in values.iter_mut().zip(list) {
                    row.push(b);
                }
                out.push(Out {
                    name: format!("column{}", i + 1),
                    ty,
                    src: None,
                });
            }
            Ok(BSelect {
                values: Some(values),
                out,
                ..Default::default()
            })
        })();
        self.scopes.pop();
        result
    }

    pub fn select(&mut self, s: &Select) -> Res<BSelect> {
        let ctes = self.bind_ctes(&s.with)?;
        let result = self.select_body(s);
        // The names are no longer visible, their slots stay.
        for (slot, _) in &ctes {
            self.ctes[*slot].0.clear();
        }
        let mut b = result?;
        b.ctes = ctes;
        Ok(b)
    }

    fn select_body(&mut self, s: &Select) -> Res<BSelect> {
        let mut b = if let Some(rows) = &s.values {
            let mut b = self.values(rows)?;
            self.scopes.push(Scope::default());
            let outs = b.out.clone();
            self.push_cols("", &outs, &[]);
            b.items = Vec::new();
            b
        } else {
            self.scopes.push(Scope::default());
            let mut b = BSelect::default();
            let result = (|| {
                for from in &s.from {
                    let from = self.from(from)?;
                    b.from.push(from);
                }
                if let Some(filter) = &s.filter {
                    b.filter = Some(self.boolean(filter, "WHERE")?);
                }
                for e in &s.group {
                    let e = match e {
                        Expr::Num(n) => match n.parse::<usize>().ok().and_then(|n| s.items.get(n - 1)) {
                            Some(Item::Expr(e, _)) => e,
                            _ => e,
                        },
                        e => e,
                    };
                    let (g, _) = self.expr(e)?;
                    b.group.push(g);
                }
                self.scopes.last_mut().unwrap().allow_agg = true;
                let (items, out) = self.items(&s.items)?;
                b.items = items;
                b.out = out;
                if let Some(having) = &s.having {
                    b.having = Some(self.boolean(having, "HAVING")?);
                }
                for e in &s.distinct_on {
                    let e = self.expr(e)?.0;
                    b.distinct_on.push(e);
                }
                Ok(())
            })();
            if let Err(e) = result {
                self.scopes.pop();
                return Err(e);
            }
            b
        };
        let result = (|| {
            b.distinct = s.distinct;
            for (all, other) in &s.union {
                let mut other = self.outside(|b| b.select(other))?;
                if other.out.len() != b.out.len() {
                    return Err(PgErr::new("42601", "each UNION query must have the same number of columns").into());
                }
                for (o, mine) in other.out.iter_mut().zip(&mut b.out) {
                    match self.common(&o.ty, &mine.ty) {
                        Some(_) => {}
                        None => return Err(PgErr::new("42804", "UNION types cannot be matched").into()),
                    }
                }
                b.union.push((*all, other));
            }
            for o in &s.order {
                let key = match &o.expr {
                    Expr::Num(n) => match n.parse::<usize>() {
                        Ok(n) if n >= 1 && n <= b.out.len() => Ok(n - 1),
                        _ => return Err(PgErr::new("42P10", format!("ORDER BY position {n} is not in select list")).into()),
                    },
                    Expr::Col(None, name) if b.out.iter().any(|out| out.name == *name) => {
                        Ok(b.out.iter().position(|out| out.name == *name).unwrap())
                    }
                    _ if !b.union.is_empty() => return Err(Stop::unsupported("ORDER BY on UNION")),
                    e => {
                        let (e, t) = self.expr(e)?;
                        if matches!(t, T::Json) {
                            return Err(PgErr::new("42883", "could not identify an ordering operator for type json").into());
                        }
                        Err(e)
                    }
                };
                b.order.push((key, o.desc, o.nulls_first));
            }
            let count = |this: &mut Self, e: &Option<Expr>| -> Res<Option<B>> {
                match e {
                    None => Ok(None),
                    Some(e) => {
                        let (x, t) = this.expr(e)?;
                        Ok(Some(this.coerce(x, &t, &T::Int8, Ctx::Assign)?))
                    }
                }
            };
            b.limit = count(self, &s.limit)?;
            b.offset = count(self, &s.offset)?;
            if let Some((wait, of)) = &s.lock {
                let scope = self.scopes.last().unwrap();
                let bases = scope
                    .bases
                    .iter()
                    .filter(|base| of.is_empty() || of.contains(&base.0))
                    .map(|base| base.1)
                    .collect();
                b.lock = Some((*wait, bases));
            }
            Ok(())
        })();
        let scope = self.scopes.pop().unwrap();
        result?;
        b.grouped = !b.group.is_empty() || !scope.aggs.is_empty() || b.having.is_some();
        b.aggs = scope.aggs;
        b.wins = scope.wins;
        if b.lock.is_some() && (b.grouped || b.distinct || !b.union.is_empty()) {
            return Err(PgErr::new("0A000", "FOR UPDATE is not allowed with GROUP BY, DISTINCT or UNION").into());
        }
        Ok(b)
    }

    fn outside<X>(&mut self, f: impl FnOnce(&mut Self) -> Res<X>) -> Res<X> {
        let scope = self.scopes.pop().unwrap();
        let out = f(self);
        self.scopes.push(scope);
        out
    }

    fn defaults(&mut self, table: &str) -> Res<Vec<Option<B>>> {
        let db = self.db;
        db.tables[table]
            .cols
            .iter()
            .map(|col| match &col.default {
                None => Ok(None),
                Some(e) => {
                    Ok(Some(Self::standalone(db, Vec::new(), e, Some(&col.ty))?.0))
                }
            })
            .collect()
    }

    fn target(&mut self, table: &str) -> Res<Vec<Out>> {
        let outs = self.table_outs(table)?;
        if !self.db.tables.contains_key(table) {
            return Err(PgErr::new("42809", format!("cannot change \"{table}\"")).into());
        }
        Ok(outs)
    }

    fn col_index(outs: &[Out], table: &str, name: &str) -> Res<usize> {
        outs.iter().position(|o| o.name == name).ok_or_else(|| {
            PgErr::new(
                "42703",
                format!("column \"{name}\" of relation \"{table}\" does not exist"),
            )
            .into()
        })
    }

    pub fn stmt(&mut self, stmt: &Stmt) -> Res<BStmt> {
        match stmt {
            Stmt::Select(s) => Ok(BStmt::Select(self.select(s)?)),
            Stmt::Insert(s) => {
                let ctes = self.bind_ctes(&s.with)?;
                let outs = self.target(&s.table)?;
                let cols: Vec<usize> = if s.cols.is_empty() {
                    (0..outs.len()).collect()
                } else {
                    s.cols
                        .iter()
                        .map(|c| Self::col_index(&outs, &s.table, c))
                        .collect::<Res<_>>()?
                };
                let mut defaults = self.defaults(&s.table)?;
                let source = match &s.source {
                    None => None,
                    Some(source) => {
                        let mut b = if let Some(rows) = &source.values {
                            // Typed by the columns.
                            self.scopes.push(Scope::default());
                            let mut values = Vec::new();
                            for row in rows {
                                if row.len() > cols.len() {
                                    return Err(PgErr::new("42601", "INSERT has more expressions than target columns").into());
                                }
                                if row.len() < cols.len() && !s.cols.is_empty() {
                                    return Err(PgErr::new("42601", "INSERT has more target columns than expressions").into());
                                }
                                let mut bs = Vec::new();
                                for (e, col) in row.iter().zip(&cols) {
                                    bs.push(match e {
                                        Expr::Default => B::Default,
                                        e => {
                                            let (b, t) = self.expr(e)?;
                                            self.coerce(b, &t, &outs[*col].ty, Ctx::Assign)?
                                        }
                                    });
                                }
                                values.push(bs);
                            }
                            self.scopes.pop();
                            BSelect {
                                values: Some(values),
                                ..Default::default()
                            }
                        } else {
                            let mut b = self.select(source)?;
                            if b.out.len() > cols.len() || b.out.len() < cols.len() && !s.cols.is_empty() {
                                return Err(PgErr::new("42601", "INSERT has more or fewer expressions than target columns").into());
                            }
                            for ((item, out), col) in b.items.iter_mut().zip(&mut b.out).zip(&cols) {
                                let inner = std::mem::replace(item, B::Default);
                                *item = self.coerce(inner, &out.ty, &outs[*col].ty, Ctx::Assign)?;
                                out.ty = outs[*col].ty.clone();
                            }
                            b
                        };
                        b.lock = b.lock.take();
                        Some(b)
                    }
                };
                for (i, d) in defaults.iter_mut().enumerate() {
                    if d.is_none() && self.db.tables[&s.table].cols[i].serial {
                        *d = Some(B::Func(
                            "nextval".to_owned(),
                            vec![
                                (B::Const(V::Text(s.table.clone())), T::Text),
                                (B::Const(V::Int(i as i64)), T::Int4),
                            ],
                            T::Int8,
                        ));
                    }
                }
                self.scopes.push(Scope::default());
                self.push_cols(&s.table, &outs, &[]);
                let items = self.items(&s.returning);
                self.scopes.pop();
                let (items, out) = items?;
                Ok(BStmt::Insert(BInsert {
                    ctes,
                    table: s.table.clone(),
                    cols,
                    source,
                    defaults,
                    items,
                    out,
                }))
            }
            Stmt::Update(s) => {
                let ctes = self.bind_ctes(&s.with)?;
                let outs = self.target(&s.table)?;
                self.scopes.push(Scope::default());
                let result = (|| {
                    self.push_cols(&s.alias, &outs, &[]);
                    self.scopes.last_mut().unwrap().bases.push((s.alias.clone(), 0));
                    let from = s.from.iter().map(|f| self.from(f)).collect::<Res<_>>()?;
                    let mut sets = Vec::new();
                    for (cols, e) in &s.sets {
                        let values: Vec<&Expr> = match (cols.as_slice(), e) {
                            ([_], e) => vec![e],
                            (cols, Expr::Row(list)) if cols.len() == list.len() => list.iter().collect(),
                            _ => return Err(Stop::unsupported("assignment of several columns")),
                        };
                        for (col, e) in cols.iter().zip(values) {
                            let i = Self::col_index(&outs, &s.table, col)?;
                            if sets.iter().any(|(j, _)| *j == i) {
                                return Err(PgErr::new("42601", format!("multiple assignments to same column \"{col}\"")).into());
                            }
                            let b = match e {
                                Expr::Default => self.defaults(&s.table)?[i]
                                    .clone()
                                    .unwrap_or(B::Const(V::Null)),
                                e => {
                                    let (b, t) = self.expr(e)?;
                                    self.coerce(b, &t, &outs[i].ty, Ctx::Assign)?
                                }
                            };
                            sets.push((i, b));
                        }
                    }
                    let filter = match &s.filter {
                        None => None,
                        Some(e) => Some(self.boolean(e, "WHERE")?),
                    };
                    let (items, out) = self.items(&s.returning)?;
                    Ok(BUpdate {
                        ctes,
                        table: s.table.clone(),
                        width: outs.len(),
                        from,
                        filter,
                        sets,
                        items,
                        out,
                    })
                })();
                self.scopes.pop();
                Ok(BStmt::Update(result?))
            }
            Stmt::Delete(s) => {
                let ctes = self.bind_ctes(&s.with)?;
                let outs = self.target(&s.table)?;
                self.scopes.push(Scope::default());
                let result = (|| -> Res<BUpdate> {
                    self.push_cols(&s.alias, &outs, &[]);
                    self.scopes.last_mut().unwrap().bases.push((s.alias.clone(), 0));
                    let from = s.using.iter().map(|f| self.from(f)).collect::<Res<_>>()?;
                    let filter = match &s.filter {
                        None => None,
                        Some(e) => Some(self.boolean(e, "WHERE")?),
                    };
                    let (items, out) = self.items(&s.returning)?;
                    Ok(BUpdate {
                        ctes,
                        table: s.table.clone(),
                        width: outs.len(),
                        from,
                        filter,
                        sets: Vec::new(),
                        items,
                        out,
                    })
                })();
                self.scopes.pop();
                Ok(BStmt::Delete(result?))
            }
            other => Ok(BStmt::Util(other.clone())),
        }
    }
}

fn implicit_name(e: &Expr) -> String {
    match e {
        Expr::Col(_, name) => name.clone(),
        Expr::Func(f) => f.name.clone(),
        Expr::Cast(e, ty) => match implicit_name(e).as_str() {
            "?column?" => ty.name.clone(),
            name => name.to_owned(),
        },
        Expr::Case(_, _, other) => match other.as_ref().map(|e| implicit_name(e)) {
            Some(name) if name != "?column?" => name,
            _ => "case".to_owned(),
        },
        Expr::Exists(_) => "exists".to_owned(),
        Expr::Array(_) | Expr::ArraySub(_) => "array".to_owned(),
        Expr::Sub(s) => match s.items.first() {
            Some(Item::Expr(_, Some(alias))) => alias.clone(),
            Some(Item::Expr(e, None)) => implicit_name(e),
            _ => "?column?".to_owned(),
        },
        _ => "?column?".to_owned(),
    }
}
