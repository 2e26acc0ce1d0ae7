//! A parser for the part of SQL and PL/pgSQL that is supported.
use crate::{
    PgErr, Res, Stop,
    ast::*,
    lex::{Tok, Token, lex},
};

pub struct Parser<'a> {
    sql: &'a str,
    toks: Vec<Token>,
    at: usize,
}

const RESERVED: &[&str] = &[
    "select", "from", "where", "group", "having", "order", "limit", "offset", "fetch", "for",
    "union", "intersect", "except", "on", "join", "inner", "left", "right", "full", "cross",
    "using", "returning", "set", "and", "or", "not", "when", "then", "else", "end", "as", "case",
    "in", "is", "like", "ilike", "between", "asc", "desc", "nulls", "with", "into", "values",
    "default", "window", "natural", "lateral", "any", "all", "some", "array", "distinct", "table",
    "null", "true", "false", "do", "loop", "if",
];

pub fn statements(sql: &str) -> Res<Vec<Stmt>> {
    let mut p = Parser::new(sql)?;
    let mut out = Vec::new();
    loop {
        while p.op(";") {}
        if p.peek() == &Tok::Eof {
            return Ok(out);
        }
        out.push(p.stmt()?);
        if p.peek() != &Tok::Eof && !p.is_op(";") {
            return p.unexpected();
        }
    }
}

impl<'a> Parser<'a> {
    pub fn new(sql: &'a str) -> Res<Self> {
        Ok(Self {
            sql,
            toks: lex(sql)?,
            at: 0,
        })
    }

    fn peek(&self) -> &Tok {
        &self.toks[self.at].tok
    }
    fn peek_at(&self, n: usize) -> &Tok {
        &self.toks[(self.at + n).min(self.toks.len() - 1)].tok
    }
    fn next(&mut self) -> Tok {
        let tok = self.toks[self.at].tok.clone();
        if self.at + 1 < self.toks.len() {
            self.at += 1;
        }
        tok
    }
    fn unexpected<T>(&self) -> Res<T> {
        let token = &self.toks[self.at];
        let near = if token.tok == Tok::Eof {
            "syntax error at end of input".to_owned()
        } else {
            format!("syntax error at or near \"{}\"", &self.sql[token.start..token.end])
        };
        Err(PgErr::new("42601", near).into())
    }
    fn unsupported<T>(&self, what: &str) -> Res<T> {
        Err(Stop::unsupported(what))
    }
    fn is_op(&self, op: &str) -> bool {
        matches!(self.peek(), Tok::Op(o) if o == op)
    }
    fn op(&mut self, op: &str) -> bool {
        let is = self.is_op(op);
        if is {
            self.next();
        }
        is
    }
    fn need(&mut self, op: &str) -> Res<()> {
        if self.op(op) { Ok(()) } else { self.unexpected() }
    }
    fn is_kw(&self, kw: &str) -> bool {
        matches!(self.peek(), Tok::Id(id) if id == kw)
    }
    fn is_kw_at(&self, n: usize, kw: &str) -> bool {
        matches!(self.peek_at(n), Tok::Id(id) if id == kw)
    }
    fn kw(&mut self, kw: &str) -> bool {
        let is = self.is_kw(kw);
        if is {
            self.next();
        }
        is
    }
    fn kws(&mut self, kws: &[&str]) -> bool {
        let is = kws.iter().enumerate().all(|(n, kw)| self.is_kw_at(n, kw));
        if is {
            kws.iter().for_each(|_| {
                self.next();
            });
        }
        is
    }
    fn need_kw(&mut self, kw: &str) -> Res<()> {
        if self.kw(kw) { Ok(()) } else { self.unexpected() }
    }
    fn ident(&mut self) -> Res<String> {
        match self.peek().clone() {
            Tok::Id(id) | Tok::Quoted(id) => {
                self.next();
                Ok(id)
            }
            _ => self.unexpected(),
        }
    }
    /// An identifier that is no reserved word.
    fn name(&mut self) -> Res<String> {
        match self.peek() {
            Tok::Id(id) if RESERVED.contains(&id.as_str()) => self.unexpected(),
            _ => self.ident(),
        }
    }
    /// Schemas are ignored, except that pg_catalog is the one of the catalog.
    fn qualified(&mut self) -> Res<String> {
        let mut name = self.name()?;
        while self.is_op(".") {
            self.next();
            name = self.ident()?;
        }
        Ok(name)
    }
    fn idents(&mut self) -> Res<Vec<String>> {
        let mut out = vec![self.ident()?];
        while self.op(",") {
            out.push(self.ident()?);
        }
        Ok(out)
    }

    pub fn stmt(&mut self) -> Res<Stmt> {
        let with = self.with()?;
        if self.is_kw("select") || self.is_kw("values") || self.is_op("(") {
            let mut select = self.select()?;
            select.with.splice(0..0, with);
            return Ok(Stmt::Select(select));
        }
        if self.kw("insert") {
            return self.insert(with);
        }
        if self.kw("update") {
            return self.update(with);
        }
        if self.kw("delete") {
            return self.delete(with);
        }
        if !with.is_empty() {
            return self.unexpected();
        }
        if self.kw("begin") || self.kws(&["start", "transaction"]) {
            let _ = self.kw("transaction") || self.kw("work");
            let mut serial = None;
            while self.peek() != &Tok::Eof && !self.is_op(";") {
                if self.kws(&["isolation", "level"]) {
                    serial = Some(self.isolation()?);
                } else {
                    self.next();
                }
            }
            return Ok(Stmt::Begin(serial));
        }
        if self.kw("commit") || self.kw("end") {
            let _ = self.kw("transaction") || self.kw("work");
            return Ok(Stmt::Commit);
        }
        if self.kw("rollback") || self.kw("abort") {
            let _ = self.kw("transaction") || self.kw("work");
            if self.kw("to") {
                self.kw("savepoint");
                return Ok(Stmt::RollbackTo(self.ident()?));
            }
            return Ok(Stmt::Rollback);
        }
        if self.kw("savepoint") {
            return Ok(Stmt::Savepoint(self.ident()?));
        }
        if self.kw("release") {
            self.kw("savepoint");
            return Ok(Stmt::Release(self.ident()?));
        }
        if self.kws(&["set", "transaction", "isolation", "level"]) {
            return Ok(Stmt::Isolation(self.isolation()?));
        }
        if self.kw("set") || self.kw("reset") || self.kw("show") {
            while self.peek() != &Tok::Eof && !self.is_op(";") {
                self.next();
            }
            return Ok(Stmt::Set);
        }
        if self.kw("listen") {
            return Ok(Stmt::Listen(self.ident()?));
        }
        if self.kw("unlisten") {
            if self.op("*") {
                return Ok(Stmt::Unlisten(None));
            }
            return Ok(Stmt::Unlisten(Some(self.ident()?)));
        }
        if self.kw("notify") {
            let channel = self.ident()?;
            let payload = if self.op(",") {
                match self.next() {
                    Tok::Str(s) => s,
                    _ => return self.unexpected(),
                }
            } else {
                String::new()
            };
            return Ok(Stmt::Notify(channel, payload));
        }
        if self.kw("lock") {
            self.kw("table");
            let table = self.qualified()?;
            if self.kw("in") {
                let start = self.at;
                while !self.is_kw("mode") {
                    if self.peek() == &Tok::Eof {
                        return self.unexpected();
                    }
                    self.next();
                }
                let mode: Vec<String> = self.toks[start..self.at]
                    .iter()
                    .map(|t| self.sql[t.start..t.end].to_lowercase())
                    .collect();
                self.next();
                if !matches!(
                    mode.join(" ").as_str(),
                    "access exclusive" | "exclusive" | "share row exclusive"
                ) {
                    return self.unsupported("lock mode");
                }
            }
            return Ok(Stmt::Lock(table));
        }
        if self.kw("create") {
            return self.create();
        }
        if self.kw("alter") {
            return self.alter();
        }
        if self.kw("drop") {
            let kind = self.ident()?;
            let exists = self.kws(&["if", "exists"]);
            let name = self.qualified()?;
            while self.peek() != &Tok::Eof && !self.is_op(";") {
                self.next();
            }
            return Ok(Stmt::Drop(kind, name, exists));
        }
        if self.kw("do") {
            if self.kw("language") {
                self.ident()?;
            }
            let Tok::Str(body) = self.next() else {
                return self.unexpected();
            };
            if self.kw("language") {
                self.ident()?;
            }
            return Ok(Stmt::Do(plpgsql(&body)?));
        }
        if self.is_kw("comment") || self.is_kw("grant") || self.is_kw("analyze") || self.is_kw("vacuum")
        {
            let Tok::Id(what) = self.next() else { unreachable!() };
            while self.peek() != &Tok::Eof && !self.is_op(";") {
                self.next();
            }
            return Ok(Stmt::Other(what.to_uppercase()));
        }
        self.unexpected()
    }

    fn isolation(&mut self) -> Res<bool> {
        if self.kws(&["read", "committed"]) || self.kws(&["read", "uncommitted"]) {
            return Ok(false);
        }
        if self.kws(&["repeatable", "read"]) || self.kw("serializable") {
            return Ok(true);
        }
        self.unexpected()
    }

    fn with(&mut self) -> Res<Vec<Cte>> {
        let mut out = Vec::new();
        if self.kw("with") {
            if self.kw("recursive") {
                return self.unsupported("WITH RECURSIVE");
            }
            loop {
                let name = self.name()?;
                let cols = if self.op("(") {
                    let cols = self.idents()?;
                    self.need(")")?;
                    cols
                } else {
                    Vec::new()
                };
                self.need_kw("as")?;
                let _ = self.kw("materialized") || self.kws(&["not", "materialized"]);
                self.need("(")?;
                let body = self.stmt()?;
                self.need(")")?;
                out.push(Cte {
                    name,
                    cols,
                    body: Box::new(body),
                });
                if !self.op(",") {
                    break;
                }
            }
        }
        Ok(out)
    }

    pub fn select(&mut self) -> Res<Select> {
        let with = self.with()?;
        let mut s = self.select_core()?;
        s.with.splice(0..0, with);
        while self.is_kw("union") || self.is_kw("except") || self.is_kw("intersect") {
            if !self.kw("union") {
                return self.unsupported("EXCEPT or INTERSECT");
            }
            let all = self.kw("all");
            self.kw("distinct");
            let other = self.select_core()?;
            s.union.push((all, other));
        }
        if self.kws(&["order", "by"]) {
            s.order = self.orders()?;
        }
        loop {
            if self.kw("limit") {
                if !self.kw("all") {
                    s.limit = Some(self.expr()?);
                }
            } else if self.kw("offset") {
                s.offset = Some(self.expr()?);
                let _ = self.kw("row") || self.kw("rows");
            } else if self.kw("fetch") {
                let _ = self.kw("first") || self.kw("next");
                s.limit = Some(if self.is_kw("row") || self.is_kw("rows") {
                    Expr::Num("1".to_owned())
                } else {
                    self.primary()?
                });
                let _ = self.kw("row") || self.kw("rows");
                self.need_kw("only")?;
            } else if self.kw("for") {
                if self.kw("no") {
                    self.need_kw("key")?;
                    self.need_kw("update")?;
                } else if self.kw("key") {
                    self.need_kw("share")?;
                } else if !self.kw("update") {
                    self.need_kw("share")?;
                }
                let of = if self.kw("of") { self.idents()? } else { Vec::new() };
                let wait = if self.kws(&["skip", "locked"]) {
                    Wait::Skip
                } else if self.kw("nowait") {
                    Wait::NoWait
                } else {
                    Wait::Block
                };
                s.lock = Some((wait, of));
            } else {
                return Ok(s);
            }
        }
    }

    fn select_core(&mut self) -> Res<Select> {
        if self.op("(") {
            let s = self.select()?;
            self.need(")")?;
            return Ok(s);
        }
        let mut s = Select::default();
        if self.kw("values") {
            let mut rows = Vec::new();
            loop {
                self.need("(")?;
                rows.push(self.exprs()?);
                self.need(")")?;
                if !self.op(",") {
                    break;
                }
            }
            s.values = Some(rows);
            return Ok(s);
        }
        self.need_kw("select")?;
        self.kw("all");
        if self.kw("distinct") {
            if self.kw("on") {
                self.need("(")?;
                s.distinct_on = self.exprs()?;
                self.need(")")?;
            } else {
                s.distinct = true;
            }
        }
        s.items = self.items()?;
        if self.kw("from") {
            s.from = self.froms()?;
        }
        if self.kw("where") {
            s.filter = Some(self.expr()?);
        }
        if self.kws(&["group", "by"]) {
            s.group = self.exprs()?;
        }
        if self.kw("having") {
            s.having = Some(self.expr()?);
        }
        Ok(s)
    }

    fn items(&mut self) -> Res<Vec<Item>> {
        let mut out = Vec::new();
        if self.peek() == &Tok::Eof || self.is_kw("from") {
            return Ok(out);
        }
        loop {
            if self.op("*") {
                out.push(Item::Star(None));
            } else if matches!(self.peek(), Tok::Id(_) | Tok::Quoted(_))
                && matches!(self.peek_at(1), Tok::Op(o) if o == ".")
                && matches!(self.peek_at(2), Tok::Op(o) if o == "*")
            {
                let name = self.ident()?;
                self.next();
                self.next();
                out.push(Item::Star(Some(name)));
            } else {
                let expr = self.expr()?;
                let alias = if self.kw("as") {
                    Some(self.ident()?)
                } else {
                    match self.peek() {
                        Tok::Id(id) if !RESERVED.contains(&id.as_str()) => Some(self.ident()?),
                        Tok::Quoted(_) => Some(self.ident()?),
                        _ => None,
                    }
                };
                out.push(Item::Expr(expr, alias));
            }
            if !self.op(",") {
                return Ok(out);
            }
        }
    }

    fn orders(&mut self) -> Res<Vec<Order>> {
        let mut out = Vec::new();
        loop {
            let expr = self.expr()?;
            let desc = if self.kw("desc") {
                true
            } else {
                self.kw("asc");
                false
            };
            let nulls_first = if self.kws(&["nulls", "first"]) {
                true
            } else if self.kws(&["nulls", "last"]) {
                false
            } else {
                desc
            };
            out.push(Order {
                expr,
                desc,
                nulls_first,
            });
            if !self.op(",") {
                return Ok(out);
            }
        }
    }

    fn alias(&mut self) -> Res<Option<String>> {
        if self.kw("as") {
            return Ok(Some(self.ident()?));
        }
        match self.peek() {
            Tok::Id(id) if !RESERVED.contains(&id.as_str()) => Ok(Some(self.ident()?)),
            Tok::Quoted(_) => Ok(Some(self.ident()?)),
            _ => Ok(None),
        }
    }

    fn froms(&mut self) -> Res<Vec<From>> {
        let mut out = vec![self.from_item()?];
        while self.op(",") {
            out.push(self.from_item()?);
        }
        Ok(out)
    }

    fn from_item(&mut self) -> Res<From> {
        let mut left = self.from_primary()?;
        loop {
            let kind = if self.kws(&["cross", "join"]) {
                let right = self.from_primary()?;
                left = From::Join(Box::new(left), Box::new(right), JoinKind::Inner, None);
                continue;
            } else if self.kw("left") {
                self.kw("outer");
                self.need_kw("join")?;
                JoinKind::Left
            } else if self.kw("inner") {
                self.need_kw("join")?;
                JoinKind::Inner
            } else if self.kw("join") {
                JoinKind::Inner
            } else if self.is_kw("right") || self.is_kw("full") || self.is_kw("natural") {
                return self.unsupported("this kind of join");
            } else {
                return Ok(left);
            };
            let right = self.from_primary()?;
            if self.kw("using") {
                return self.unsupported("JOIN USING");
            }
            self.need_kw("on")?;
            let on = self.expr()?;
            left = From::Join(Box::new(left), Box::new(right), kind, Some(on));
        }
    }

    fn from_primary(&mut self) -> Res<From> {
        self.kw("lateral");
        if self.op("(") {
            if !(self.is_kw("select") || self.is_kw("values") || self.is_kw("with")) {
                let item = self.from_item()?;
                self.need(")")?;
                return Ok(item);
            }
            let s = self.select()?;
            self.need(")")?;
            let alias = self.alias()?.unwrap_or_default();
            let mut cols = Vec::new();
            if self.op("(") {
                cols = self.idents()?;
                self.need(")")?;
            }
            return Ok(From::Sub(Box::new(s), alias, cols));
        }
        self.kw("only");
        let name = self.qualified()?;
        if self.op("(") {
            let args = if self.is_op(")") { Vec::new() } else { self.exprs()? };
            self.need(")")?;
            let alias = self.alias()?.unwrap_or(name.clone());
            let mut cols = Vec::new();
            if self.op("(") {
                cols = self.idents()?;
                self.need(")")?;
            }
            let func = Expr::Func(Func {
                name,
                args,
                star: false,
                distinct: false,
                filter: None,
                over: None,
            });
            return Ok(From::Func(func, alias, cols));
        }
        let alias = self.alias()?.unwrap_or(name.clone());
        Ok(From::Table(name, alias))
    }

    fn returning(&mut self) -> Res<Vec<Item>> {
        if self.kw("returning") { self.items() } else { Ok(Vec::new()) }
    }

    fn insert(&mut self, with: Vec<Cte>) -> Res<Stmt> {
        self.need_kw("into")?;
        let table = self.qualified()?;
        if self.kw("as") {
            self.ident()?;
        }
        let cols = if self.is_op("(") && !self.is_kw_at(1, "select") {
            self.next();
            let cols = self.idents()?;
            self.need(")")?;
            cols
        } else {
            Vec::new()
        };
        let source = if self.kws(&["default", "values"]) {
            None
        } else {
            Some(Box::new(self.select()?))
        };
        if self.is_kw("on") {
            return self.unsupported("ON CONFLICT");
        }
        let returning = self.returning()?;
        Ok(Stmt::Insert(Insert {
            with,
            table,
            cols,
            source,
            returning,
        }))
    }

    fn update(&mut self, with: Vec<Cte>) -> Res<Stmt> {
        self.kw("only");
        let table = self.qualified()?;
        let alias = self.alias()?.unwrap_or(table.clone());
        self.need_kw("set")?;
        let mut sets = Vec::new();
        loop {
            if self.op("(") {
                let cols = self.idents()?;
                self.need(")")?;
                self.need("=")?;
                self.kw("row");
                sets.push((cols, self.expr()?));
            } else {
                let col = self.ident()?;
                self.need("=")?;
                sets.push((vec![col], self.expr()?));
            }
            if !self.op(",") {
                break;
            }
        }
        let from = if self.kw("from") { self.froms()? } else { Vec::new() };
        let filter = if self.kw("where") { Some(self.expr()?) } else { None };
        let returning = self.returning()?;
        Ok(Stmt::Update(Update {
            with,
            table,
            alias,
            sets,
            from,
            filter,
            returning,
        }))
    }

    fn delete(&mut self, with: Vec<Cte>) -> Res<Stmt> {
        self.need_kw("from")?;
        self.kw("only");
        let table = self.qualified()?;
        let alias = self.alias()?.unwrap_or(table.clone());
        let using = if self.kw("using") { self.froms()? } else { Vec::new() };
        let filter = if self.kw("where") { Some(self.expr()?) } else { None };
        let returning = self.returning()?;
        Ok(Stmt::Delete(Delete {
            with,
            table,
            alias,
            using,
            filter,
            returning,
        }))
    }

    fn col_def(&mut self) -> Res<ColDef> {
        let name = self.ident()?;
        let mut ty = self.type_name()?;
        let serial = match ty.name.as_str() {
            "serial" | "serial4" => {
                ty.name = "int4".to_owned();
                true
            }
            "bigserial" | "serial8" => {
                ty.name = "int8".to_owned();
                true
            }
            _ => false,
        };
        let mut def = ColDef {
            name,
            ty,
            serial,
            not_null: serial,
            default: None,
            primary: false,
            unique: false,
        };
        loop {
            if self.kws(&["primary", "key"]) {
                def.primary = true;
                def.not_null = true;
            } else if self.kws(&["not", "null"]) {
                def.not_null = true;
            } else if self.kw("null") {
            } else if self.kw("unique") {
                def.unique = true;
            } else if self.kw("default") {
                def.default = Some(self.bin(8)?);
            } else if self.is_kw("check") || self.is_kw("references") || self.is_kw("generated") {
                return self.unsupported("column constraint");
            } else {
                return Ok(def);
            }
        }
    }

    fn create(&mut self) -> Res<Stmt> {
        let replace = self.kws(&["or", "replace"]);
        let _ = replace;
        if self.kw("type") {
            let name = self.qualified()?;
            self.need_kw("as")?;
            self.need_kw("enum")?;
            self.need("(")?;
            let mut labels = Vec::new();
            loop {
                match self.next() {
                    Tok::Str(s) => labels.push(s),
                    _ => return self.unexpected(),
                }
                if !self.op(",") {
                    break;
                }
            }
            self.need(")")?;
            return Ok(Stmt::CreateType(name, labels));
        }
        let _ = self.kw("temporary") || self.kw("temp") || self.kw("unlogged");
        if self.kw("table") {
            let exists = self.kws(&["if", "not", "exists"]);
            let name = self.qualified()?;
            self.need("(")?;
            let mut cols = Vec::new();
            let mut uniques = Vec::new();
            loop {
                if self.kw("constraint") {
                    self.ident()?;
                }
                if self.kws(&["primary", "key"]) || (self.is_kw("unique") && self.kw("unique")) {
                    self.need("(")?;
                    uniques.push(self.idents()?);
                    self.need(")")?;
                } else if self.is_kw("check") || self.is_kw("foreign") {
                    return self.unsupported("table constraint");
                } else {
                    cols.push(self.col_def()?);
                }
                if !self.op(",") {
                    break;
                }
            }
            self.need(")")?;
            return Ok(Stmt::CreateTable(name, cols, exists, uniques));
        }
        let unique = self.kw("unique");
        if self.kw("index") {
            self.kw("concurrently");
            self.kws(&["if", "not", "exists"]);
            if !self.is_kw("on") {
                self.ident()?;
            }
            self.need_kw("on")?;
            let table = self.qualified()?;
            if self.kw("using") {
                self.ident()?;
            }
            self.need("(")?;
            let mut cols = Vec::new();
            loop {
                match self.expr()? {
                    Expr::Col(_, name) => cols.push(name),
                    _ if unique => return self.unsupported("unique index on an expression"),
                    _ => {}
                }
                while !self.is_op(",") && !self.is_op(")") {
                    self.next();
                }
                if !self.op(",") {
                    break;
                }
            }
            self.need(")")?;
            let filter = if self.kw("where") { Some(self.expr()?) } else { None };
            return Ok(if unique {
                Stmt::UniqueIndex(table, cols, filter)
            } else {
                Stmt::CreateIndex
            });
        }
        if self.kw("function") || self.kw("procedure") {
            let name = self.qualified()?;
            self.need("(")?;
            if !self.op(")") {
                return self.unsupported("functions with arguments");
            }
            let mut body = None;
            while self.peek() != &Tok::Eof && !self.is_op(";") {
                if self.kw("as") {
                    match self.next() {
                        Tok::Str(s) => body = Some(s),
                        _ => return self.unexpected(),
                    }
                } else if self.kw("language") {
                    let language = self.ident()?;
                    if language != "plpgsql" {
                        return self.unsupported("language");
                    }
                } else {
                    self.next();
                }
            }
            let Some(body) = body else {
                return self.unexpected();
            };
            return Ok(Stmt::CreateFunction(name, plpgsql(&body)?));
        }
        let _ = self.kw("constraint");
        if self.kw("trigger") {
            let name = self.ident()?;
            let before = if self.kw("before") {
                true
            } else {
                self.need_kw("after")?;
                false
            };
            let mut t = Trigger {
                name,
                table: String::new(),
                before,
                row: false,
                insert: false,
                update: None,
                delete: false,
                when: None,
                function: String::new(),
            };
            loop {
                if self.kw("insert") {
                    t.insert = true;
                } else if self.kw("delete") {
                    t.delete = true;
                } else {
                    self.need_kw("update")?;
                    t.update = Some(if self.kw("of") { self.idents()? } else { Vec::new() });
                }
                if !self.kw("or") {
                    break;
                }
            }
            self.need_kw("on")?;
            t.table = self.qualified()?;
            if self.kw("for") {
                self.kw("each");
                if self.kw("row") {
                    t.row = true;
                } else {
                    self.need_kw("statement")?;
                    return self.unsupported("statement trigger");
                }
            } else {
                return self.unsupported("statement trigger");
            }
            if self.kw("when") {
                self.need("(")?;
                t.when = Some(self.expr()?);
                self.need(")")?;
            }
            self.need_kw("execute")?;
            if !self.kw("function") {
                self.need_kw("procedure")?;
            }
            t.function = self.qualified()?;
            self.need("(")?;
            self.need(")")?;
            return Ok(Stmt::CreateTrigger(t));
        }
        if self.is_kw("extension") || self.is_kw("schema") || self.is_kw("database") {
            while self.peek() != &Tok::Eof && !self.is_op(";") {
                self.next();
            }
            return Ok(Stmt::Other("CREATE".to_owned()));
        }
        self.unsupported("CREATE")
    }

    fn alter(&mut self) -> Res<Stmt> {
        if !self.kw("table") {
            return self.unsupported("ALTER");
        }
        self.kws(&["if", "exists"]);
        self.kw("only");
        let table = self.qualified()?;
        let mut out = Vec::new();
        loop {
            if self.kw("add") {
                self.kw("column");
                let exists = self.kws(&["if", "not", "exists"]);
                out.push(Alter::Add(self.col_def()?, exists));
            } else if self.kw("alter") {
                self.kw("column");
                let col = self.ident()?;
                if self.kws(&["set", "default"]) {
                    let expr = self.expr()?;
                    out.push(Alter::Default(col, Some(expr)));
                } else if self.kws(&["drop", "default"]) {
                    out.push(Alter::Default(col, None));
                } else if self.kws(&["set", "not", "null"]) {
                    out.push(Alter::NotNull(col, true));
                } else if self.kws(&["drop", "not", "null"]) {
                    out.push(Alter::NotNull(col, false));
                } else {
                    return self.unsupported("ALTER COLUMN");
                }
            } else if self.kw("drop") {
                self.kw("column");
                out.push(Alter::DropColumn(self.ident()?));
            } else {
                return self.unsupported("ALTER TABLE");
            }
            if !self.op(",") {
                return Ok(Stmt::AlterTable(table, out));
            }
        }
    }

    pub fn type_name(&mut self) -> Res<TypeName> {
        let mut name = self.ident()?;
        if self.is_op(".") {
            self.next();
            name = self.ident()?;
        }
        let name = match name.as_str() {
            "character" | "char" if self.kw("varying") => "varchar".to_owned(),
            "double" => {
                self.need_kw("precision")?;
                "float8".to_owned()
            }
            "int" | "integer" => "int4".to_owned(),
            "smallint" => "int2".to_owned(),
            "bigint" => "int8".to_owned(),
            "boolean" => "bool".to_owned(),
            "real" => "float8".to_owned(),
            "float" => "float8".to_owned(),
            "decimal" => "numeric".to_owned(),
            "timestamp" | "time" => {
                if self.op("(") {
                    self.next();
                    self.need(")")?;
                }
                if self.kws(&["with", "time", "zone"]) {
                    format!("{name}tz")
                } else {
                    self.kws(&["without", "time", "zone"]);
                    name
                }
            }
            _ => name,
        };
        if self.op("(") {
            while !self.op(")") {
                if self.peek() == &Tok::Eof {
                    return self.unexpected();
                }
                self.next();
            }
        }
        let mut array = false;
        while self.is_op("[") {
            self.next();
            if matches!(self.peek(), Tok::Num(_)) {
                self.next();
            }
            self.need("]")?;
            array = true;
        }
        if self.kw("array") {
            array = true;
        }
        Ok(TypeName { name, array })
    }

    fn exprs(&mut self) -> Res<Vec<Expr>> {
        let mut out = vec![self.expr()?];
        while self.op(",") {
            out.push(self.expr()?);
        }
        Ok(out)
    }

    pub fn expr(&mut self) -> Res<Expr> {
        let mut left = self.and()?;
        while self.kw("or") {
            left = Expr::Or(Box::new(left), Box::new(self.and()?));
        }
        Ok(left)
    }

    fn and(&mut self) -> Res<Expr> {
        let mut left = self.not()?;
        while self.kw("and") {
            left = Expr::And(Box::new(left), Box::new(self.not()?));
        }
        Ok(left)
    }

    fn not(&mut self) -> Res<Expr> {
        if self.kw("not") {
            return Ok(Expr::Not(Box::new(self.not()?)));
        }
        self.is()
    }

    fn is(&mut self) -> Res<Expr> {
        let mut left = self.comparison()?;
        loop {
            if self.kw("isnull") {
                left = Expr::IsNull(Box::new(left), false);
            } else if self.kw("notnull") {
                left = Expr::IsNull(Box::new(left), true);
            } else if self.kw("is") {
                let not = self.kw("not");
                left = if self.kw("null") {
                    Expr::IsNull(Box::new(left), not)
                } else if self.kw("true") {
                    Expr::IsBool(Box::new(left), Some(true), not)
                } else if self.kw("false") {
                    Expr::IsBool(Box::new(left), Some(false), not)
                } else if self.kw("unknown") {
                    Expr::IsBool(Box::new(left), None, not)
                } else if self.kws(&["distinct", "from"]) {
                    Expr::IsDistinct(Box::new(left), Box::new(self.comparison()?), not)
                } else {
                    return self.unexpected();
                };
            } else {
                return Ok(left);
            }
        }
    }

    fn comparison(&mut self) -> Res<Expr> {
        let left = self.range()?;
        let Tok::Op(op) = self.peek().clone() else {
            return Ok(left);
        };
        if !matches!(op.as_str(), "=" | "<" | ">" | "<=" | ">=" | "<>") {
            return Ok(left);
        }
        self.next();
        let left = self.operand(left, op, |p| p.range())?;
        // Comparisons do not chain.
        if let Tok::Op(op) = self.peek()
            && matches!(op.as_str(), "=" | "<" | ">" | "<=" | ">=" | "<>")
        {
            return self.unexpected();
        }
        Ok(left)
    }

    fn operand(
        &mut self,
        left: Expr,
        op: String,
        right: impl Fn(&mut Self) -> Res<Expr>,
    ) -> Res<Expr> {
        if (self.is_kw("any") || self.is_kw("some") || self.is_kw("all"))
            && matches!(self.peek_at(1), Tok::Op(o) if o == "(")
        {
            let all = self.is_kw("all");
            self.next();
            self.next();
            if self.is_kw("select") || self.is_kw("with") || self.is_kw("values") {
                let s = self.select()?;
                self.need(")")?;
                return Ok(Expr::QuantSub(Box::new(left), op, all, Box::new(s)));
            }
            let e = self.expr()?;
            self.need(")")?;
            return Ok(Expr::Quant(Box::new(left), op, all, Box::new(e)));
        }
        Ok(Expr::Bin(op, Box::new(left), Box::new(right(self)?)))
    }

    /// BETWEEN, IN and LIKE.
    fn range(&mut self) -> Res<Expr> {
        let left = self.bin(0)?;
        let not = self.is_kw("not")
            && (self.is_kw_at(1, "in")
                || self.is_kw_at(1, "between")
                || self.is_kw_at(1, "like")
                || self.is_kw_at(1, "ilike"));
        if not {
            self.next();
        }
        if self.kw("in") {
            self.need("(")?;
            if self.is_kw("select") || self.is_kw("with") || self.is_kw("values") {
                let s = self.select()?;
                self.need(")")?;
                return Ok(Expr::InSub(Box::new(left), Box::new(s), not));
            }
            let list = self.exprs()?;
            self.need(")")?;
            return Ok(Expr::In(Box::new(left), list, not));
        }
        if self.kw("between") {
            let symmetric = self.kw("symmetric");
            if symmetric {
                return self.unsupported("BETWEEN SYMMETRIC");
            }
            let low = self.bin(0)?;
            self.need_kw("and")?;
            let high = self.bin(0)?;
            let both = Expr::And(
                Box::new(Expr::Bin(">=".to_owned(), Box::new(left.clone()), Box::new(low))),
                Box::new(Expr::Bin("<=".to_owned(), Box::new(left), Box::new(high))),
            );
            return Ok(if not { Expr::Not(Box::new(both)) } else { both });
        }
        if self.is_kw("like") || self.is_kw("ilike") {
            let ci = self.is_kw("ilike");
            self.next();
            let right = self.bin(0)?;
            return Ok(Expr::Like(Box::new(left), Box::new(right), ci, not));
        }
        Ok(left)
    }

    /// Binary operators from the other ones (0) over + - (1) to * / % (2) and the rest (8).
    fn bin(&mut self, level: u8) -> Res<Expr> {
        if level > 3 {
            return self.unary();
        }
        if level == 3 {
            // AT TIME ZONE
            let mut left = self.unary()?;
            while self.kws(&["at", "time", "zone"]) {
                let zone = self.unary()?;
                left = Expr::Func(Func {
                    name: "timezone".to_owned(),
                    args: vec![zone, left],
                    star: false,
                    distinct: false,
                    filter: None,
                    over: None,
                });
            }
            return Ok(left);
        }
        let mut left = self.bin(level + 1)?;
        loop {
            let Tok::Op(op) = self.peek().clone() else {
                return Ok(left);
            };
            let of_level = match op.as_str() {
                "=" | "<" | ">" | "<=" | ">=" | "<>" | "(" | ")" | "[" | "]" | "," | ";" | "."
                | "::" | ":" | ":=" => 9,
                "+" | "-" => 1,
                "*" | "/" | "%" | "^" => 2,
                _ => 0,
            };
            if of_level != level {
                return Ok(left);
            }
            self.next();
            left = self.operand(left, op, |p| p.bin(level + 1))?;
        }
    }

    fn unary(&mut self) -> Res<Expr> {
        if self.op("-") {
            return Ok(Expr::Neg(Box::new(self.unary()?)));
        }
        if self.op("+") {
            return self.unary();
        }
        let mut e = self.primary()?;
        loop {
            if self.op("::") {
                let ty = self.type_name()?;
                e = Expr::Cast(Box::new(e), ty);
            } else if self.op("[") {
                let index = self.expr()?;
                if self.is_op(":") {
                    return self.unsupported("array slices");
                }
                self.need("]")?;
                e = Expr::Index(Box::new(e), Box::new(index));
            } else {
                return Ok(e);
            }
        }
    }

    fn primary(&mut self) -> Res<Expr> {
        match self.peek().clone() {
            Tok::Num(n) => {
                self.next();
                Ok(Expr::Num(n))
            }
            Tok::Str(s) => {
                self.next();
                Ok(Expr::Str(s))
            }
            Tok::Param(n) => {
                self.next();
                Ok(Expr::Param(n))
            }
            Tok::Op(op) if op == "(" => {
                self.next();
                if self.is_kw("select") || self.is_kw("with") || self.is_kw("values") {
                    let s = self.select()?;
                    self.need(")")?;
                    return Ok(Expr::Sub(Box::new(s)));
                }
                let mut list = self.exprs()?;
                self.need(")")?;
                Ok(if list.len() == 1 {
                    list.pop().unwrap()
                } else {
                    Expr::Row(list)
                })
            }
            Tok::Id(id) => self.keyword(&id),
            Tok::Quoted(_) => self.column(),
            _ => self.unexpected(),
        }
    }

    fn column(&mut self) -> Res<Expr> {
        let mut parts = vec![self.ident()?];
        while self.is_op(".") {
            self.next();
            parts.push(self.ident()?);
        }
        let name = parts.pop().unwrap();
        Ok(Expr::Col(parts.pop(), name))
    }

    fn keyword(&mut self, id: &str) -> Res<Expr> {
        let paren = matches!(self.peek_at(1), Tok::Op(o) if o == "(");
        match id {
            "null" => {
                self.next();
                return Ok(Expr::Null);
            }
            "true" | "false" => {
                self.next();
                return Ok(Expr::Bool(id == "true"));
            }
            "default" => {
                self.next();
                return Ok(Expr::Default);
            }
            "case" => {
                self.next();
                let operand = if self.is_kw("when") { None } else { Some(Box::new(self.expr()?)) };
                let mut arms = Vec::new();
                while self.kw("when") {
                    let when = self.expr()?;
                    self.need_kw("then")?;
                    arms.push((when, self.expr()?));
                }
                let other = if self.kw("else") { Some(Box::new(self.expr()?)) } else { None };
                self.need_kw("end")?;
                return Ok(Expr::Case(operand, arms, other));
            }
            "cast" if paren => {
                self.next();
                self.next();
                let e = self.expr()?;
                self.need_kw("as")?;
                let ty = self.type_name()?;
                self.need(")")?;
                return Ok(Expr::Cast(Box::new(e), ty));
            }
            "exists" if paren => {
                self.next();
                self.next();
                let s = self.select()?;
                self.need(")")?;
                return Ok(Expr::Exists(Box::new(s)));
            }
            "array" => {
                self.next();
                if self.op("(") {
                    let s = self.select()?;
                    self.need(")")?;
                    return Ok(Expr::ArraySub(Box::new(s)));
                }
                self.need("[")?;
                let list = if self.is_op("]") { Vec::new() } else { self.exprs()? };
                self.need("]")?;
                return Ok(Expr::Array(list));
            }
            "row" if paren => {
                self.next();
                self.next();
                let list = self.exprs()?;
                self.need(")")?;
                return Ok(Expr::Row(list));
            }
            "current_timestamp" | "localtimestamp" | "current_date" | "current_user" if !paren => {
                self.next();
                return Ok(Expr::Func(Func {
                    name: id.to_owned(),
                    args: Vec::new(),
                    star: false,
                    distinct: false,
                    filter: None,
                    over: None,
                }));
            }
            "extract" if paren => {
                self.next();
                self.next();
                let field = self.ident()?;
                self.need_kw("from")?;
                let e = self.expr()?;
                self.need(")")?;
                return Ok(Expr::Func(Func {
                    name: "date_part".to_owned(),
                    args: vec![Expr::Str(field), e],
                    star: false,
                    distinct: false,
                    filter: None,
                    over: None,
                }));
            }
            "interval" | "timestamp" | "timestamptz" | "date" | "jsonb" | "json" | "text"
            | "bool" | "varchar"
                if matches!(self.peek_at(1), Tok::Str(_)) =>
            {
                let ty = self.type_name()?;
                let Tok::Str(s) = self.next() else { unreachable!() };
                return Ok(Expr::Cast(Box::new(Expr::Str(s)), ty));
            }
            _ => {}
        }
        if RESERVED.contains(&id) {
            return self.unexpected();
        }
        // A function or a column.
        let mut n = 1;
        while matches!(self.peek_at(n), Tok::Op(o) if o == ".")
            && matches!(self.peek_at(n + 1), Tok::Id(_) | Tok::Quoted(_))
        {
            n += 2;
        }
        if matches!(self.peek_at(n), Tok::Op(o) if o == "(") {
            let mut name = self.ident()?;
            while self.op(".") {
                name = self.ident()?;
            }
            self.need("(")?;
            let mut f = Func {
                name,
                args: Vec::new(),
                star: false,
                distinct: false,
                filter: None,
                over: None,
            };
            if self.op("*") {
                f.star = true;
            } else if !self.is_op(")") {
                f.distinct = self.kw("distinct");
                f.args = self.exprs()?;
                if self.is_kw("order") {
                    return self.unsupported("ordered aggregates");
                }
            }
            self.need(")")?;
            if self.kw("filter") {
                self.need("(")?;
                self.need_kw("where")?;
                f.filter = Some(Box::new(self.expr()?));
                self.need(")")?;
            }
            if self.kw("over") {
                self.need("(")?;
                let mut parts = Vec::new();
                let mut orders = Vec::new();
                if self.kws(&["partition", "by"]) {
                    parts = self.exprs()?;
                }
                if self.kws(&["order", "by"]) {
                    orders = self.orders()?;
                }
                self.need(")")?;
                f.over = Some((parts, orders));
            }
            return Ok(Expr::Func(f));
        }
        self.column()
    }

    // PL/pgSQL

    fn block(&mut self) -> Res<PlBlock> {
        let mut block = PlBlock::default();
        if self.kw("declare") {
            while !self.is_kw("begin") {
                let name = self.ident()?;
                self.kw("constant");
                let ty = self.type_name()?;
                let init = if self.op(":=") || self.op("=") || self.kw("default") {
                    Some(self.expr()?)
                } else {
                    None
                };
                self.need(";")?;
                block.vars.push((name, ty, init));
            }
        }
        self.need_kw("begin")?;
        block.body = self.pl_body(&["end", "exception"])?;
        if self.kw("exception") {
            while self.kw("when") {
                let mut conditions = vec![self.ident()?];
                while self.kw("or") {
                    conditions.push(self.ident()?);
                }
                self.need_kw("then")?;
                let body = self.pl_body(&["when", "end"])?;
                block.handlers.push((conditions, body));
            }
        }
        self.need_kw("end")?;
        self.op(";");
        Ok(block)
    }

    fn pl_body(&mut self, ends: &[&str]) -> Res<Vec<Pl>> {
        let mut out = Vec::new();
        loop {
            if ends.iter().any(|end| self.is_kw(end)) {
                return Ok(out);
            }
            if self.peek() == &Tok::Eof {
                return self.unexpected();
            }
            if self.kw("if") {
                let mut arms = Vec::new();
                let cond = self.expr()?;
                self.need_kw("then")?;
                arms.push((cond, self.pl_body(&["elsif", "elseif", "else", "end"])?));
                while self.kw("elsif") || self.kw("elseif") {
                    let cond = self.expr()?;
                    self.need_kw("then")?;
                    arms.push((cond, self.pl_body(&["elsif", "elseif", "else", "end"])?));
                }
                let other = if self.kw("else") { self.pl_body(&["end"])? } else { Vec::new() };
                self.need_kw("end")?;
                self.need_kw("if")?;
                self.need(";")?;
                out.push(Pl::If(arms, other));
            } else if self.is_kw("declare") || (self.is_kw("begin") && !self.is_kw_at(1, ";")) {
                out.push(Pl::Block(Box::new(self.block()?)));
            } else if self.kw("perform") {
                let e = self.expr()?;
                if !self.is_op(";") {
                    return self.unsupported("PERFORM with a query");
                }
                self.need(";")?;
                out.push(Pl::Perform(e));
            } else if self.kw("return") {
                let e = if self.is_op(";") { None } else { Some(self.expr()?) };
                self.need(";")?;
                out.push(Pl::Return(e));
            } else if self.kw("null") {
                self.need(";")?;
                out.push(Pl::Null);
            } else if self.kw("raise") {
                if self.is_kw("exception") {
                    return self.unsupported("RAISE EXCEPTION");
                }
                while !self.is_op(";") {
                    self.next();
                }
                self.need(";")?;
            } else if matches!(self.peek_at(1), Tok::Op(o) if o == ":=" || o == "=" || o == ".")
            {
                let mut path = vec![self.ident()?];
                while self.op(".") {
                    path.push(self.ident()?);
                }
                if !self.op(":=") {
                    self.need("=")?;
                }
                let e = self.expr()?;
                self.need(";")?;
                out.push(Pl::Assign(path, e));
            } else {
                let stmt = self.stmt()?;
                self.need(";")?;
                out.push(Pl::Sql(stmt));
            }
        }
    }
}

pub fn plpgsql(body: &str) -> Res<PlBlock> {
    let mut p = Parser::new(body)?;
    let block = p.block()?;
    if p.peek() != &Tok::Eof {
        return p.unexpected();
    }
    Ok(block)
}
