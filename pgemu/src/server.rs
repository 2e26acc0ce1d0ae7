//! The wire protocol and the steps of the connections. Nothing here runs on its own: `pump` moves
//! bytes and handles messages until all connections are idle or stopped before a step, `step`
//! performs one.
use std::{
    collections::{BTreeMap, BTreeSet, HashMap, VecDeque},
    io::{ErrorKind, Read, Write},
    os::unix::net::{UnixListener, UnixStream},
    path::Path,
    sync::Arc,
};

use crate::{
    PgErr, Res, Stop,
    ast::Stmt,
    bind::{BStmt, Binder, Out},
    db::Db,
    exec::{Cx, Done, Rows},
    parse,
    value::{T, V},
};

pub struct Prepared {
    pub sql: String,
    pub stmt: BStmt,
    pub params: Vec<T>,
    pub out: Vec<Out>,
    pub tables: bool,
    pub locks: bool,
    pub writes: bool,
    pub advisory: bool,
    pub plain_insert: bool,
}

struct Portal {
    prepared: Arc<Prepared>,
    values: Vec<V>,
    formats: Vec<i16>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Phase {
    Snapshot,
    Run,
    Commit,
    Rollback,
    /// The client gets to know what became of it.
    Answer,
}

struct Pending {
    prepared: Option<Arc<Prepared>>,
    values: Vec<V>,
    formats: Vec<i16>,
    limit: usize,
    phase: Phase,
    snap: Option<u64>,
    waiting: Option<usize>,
    /// Whether COMMIT or ROLLBACK was asked for.
    command: bool,
}

struct Tx {
    id: u64,
    explicit: bool,
    now: i64,
    cmd: u32,
    repeatable: bool,
    snap: Option<u64>,
    notifies: Vec<(String, String)>,
    savepoints: Vec<(String, u32)>,
    wrote: bool,
    failed: bool,
    listens: Vec<(bool, Option<String>)>,
}

struct Conn {
    sock: UnixStream,
    inbuf: Vec<u8>,
    out: Vec<u8>,
    /// What is flushed with the next ReadyForQuery.
    buffered: Vec<u8>,
    started: bool,
    stmts: HashMap<String, Arc<Prepared>>,
    portals: HashMap<String, Portal>,
    script: Option<VecDeque<Stmt>>,
    tx: Option<Tx>,
    listening: BTreeSet<String>,
    notices: VecDeque<(usize, String, String)>,
    skip: bool,
    pending: Option<Pending>,
    /// The output is on its way.
    withheld: bool,
    dead: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub conn: usize,
    pub phase: Phase,
    /// Nothing another connection does can interfere with it.
    pub local: bool,
    pub label: String,
}

pub struct Server {
    pub db: Db,
    listener: UnixListener,
    conns: BTreeMap<usize, Conn>,
    next: usize,
    clock: Box<dyn Fn() -> i64>,
    /// Perform every step at once.
    pub immediate: bool,
    /// Keep notifications until they are released.
    pub hold_notifications: bool,
    /// Answers are a step of their own.
    pub hold_answers: bool,
    /// New connections are refused.
    pub refuse: bool,
    cache: HashMap<(String, Vec<u32>, u64), Result<Arc<Prepared>, PgErr>>,
    /// Something the model does not know was asked for.
    pub unsupported: Option<String>,
    pub statements: usize,
    pub errors: Vec<PgErr>,
    pub deadlocks: usize,
}

fn label(sql: &str) -> String {
    let words: Vec<&str> = sql.split_whitespace().collect();
    let s = words.join(" ");
    s.chars().take(60).collect()
}

struct Msg<'m>(&'m [u8], usize);

impl Msg<'_> {
    fn i16(&mut self) -> i16 {
        let v = i16::from_be_bytes(self.0[self.1..self.1 + 2].try_into().unwrap());
        self.1 += 2;
        v
    }
    fn i32(&mut self) -> i32 {
        let v = i32::from_be_bytes(self.0[self.1..self.1 + 4].try_into().unwrap());
        self.1 += 4;
        v
    }
    fn str(&mut self) -> String {
        let end = self.0[self.1..].iter().position(|b| *b == 0).unwrap() + self.1;
        let s = String::from_utf8_lossy(&self.0[self.1..end]).into_owned();
        self.1 = end + 1;
        s
    }
    fn bytes(&mut self, n: usize) -> &[u8] {
        self.1 += n;
        &self.0[self.1 - n..self.1]
    }
}

fn message(out: &mut Vec<u8>, kind: u8, body: impl FnOnce(&mut Vec<u8>)) {
    out.push(kind);
    let at = out.len();
    out.extend([0; 4]);
    body(out);
    let len = (out.len() - at) as i32;
    out[at..at + 4].copy_from_slice(&len.to_be_bytes());
}

fn cstr(out: &mut Vec<u8>, s: &str) {
    out.extend(s.as_bytes());
    out.push(0);
}

impl Server {
    pub fn new(path: &Path, db: Db, clock: impl Fn() -> i64 + 'static) -> std::io::Result<Self> {
        let listener = UnixListener::bind(path)?;
        listener.set_nonblocking(true)?;
        Ok(Self {
            db,
            listener,
            conns: BTreeMap::new(),
            next: 0,
            clock: Box::new(clock),
            immediate: true,
            hold_notifications: false,
            hold_answers: false,
            refuse: false,
            cache: HashMap::new(),
            unsupported: None,
            statements: 0,
            errors: Vec::new(),
            deadlocks: 0,
        })
    }

    /// Forget the connections and start over with this data; statements stay prepared.
    pub fn reset(&mut self, db: Db) {
        self.conns.clear();
        while self.listener.accept().is_ok() {}
        self.next = 0;
        self.db = db;
        self.immediate = true;
        self.hold_notifications = false;
        self.hold_answers = false;
        self.refuse = false;
        self.errors.clear();
        self.deadlocks = 0;
    }

    fn prepare(&mut self, sql: &str, oids: &[u32]) -> Res<Arc<Prepared>> {
        let key = (sql.to_owned(), oids.to_vec(), self.db.schema);
        if let Some(found) = self.cache.get(&key) {
            return found.clone().map_err(Stop::Err);
        }
        let result = (|| {
            let mut stmts = parse::statements(sql)?;
            let stmt = match stmts.len() {
                0 => Stmt::Empty,
                1 => stmts.pop().unwrap(),
                _ => {
                    return Err(PgErr::new(
                        "42601",
                        "cannot insert multiple commands into a prepared statement",
                    )
                    .into());
                }
            };
            self.bind_stmt(sql, &stmt, oids)
        })();
        match &result {
            Ok(p) => {
                self.cache.insert(key, Ok(p.clone()));
            }
            Err(Stop::Err(e)) => {
                self.cache.insert(key, Err(e.clone()));
            }
            Err(_) => {}
        }
        result
    }

    fn bind_stmt(&self, sql: &str, stmt: &Stmt, oids: &[u32]) -> Res<Arc<Prepared>> {
        let mut params = Vec::new();
        for oid in oids {
            params.push(match oid {
                0 | 705 => None,
                oid => Some(self.db.enums.by_oid(*oid).ok_or_else(|| {
                    Stop::from(PgErr::new("42704", format!("type with OID {oid} does not exist")))
                })?),
            });
        }
        let mut binder = Binder::new(&self.db, params);
        let bound = binder.stmt(stmt)?;
        let mut types = Vec::new();
        for (i, p) in binder.params.iter().enumerate() {
            types.push(p.clone().ok_or_else(|| {
                Stop::from(PgErr::new(
                    "42P18",
                    format!("could not determine data type of parameter ${}", i + 1),
                ))
            })?);
        }
        let text = format!("{bound:?}");
        let writes = ["Insert(BInsert", "Update(BUpdate", "Delete(BUpdate"]
            .iter()
            .any(|w| text.contains(w));
        let tables = writes
            || self
                .db
                .tables
                .keys()
                .any(|name| text.contains(&format!("Table({name:?},")))
            || matches!(stmt, Stmt::Lock(_) | Stmt::Do(_))
            || stmt.changes_schema();
        let plain_insert = match &bound {
            BStmt::Insert(s) => {
                s.ctes.is_empty()
                    && s.source.as_ref().is_none_or(|s| s.values.is_some())
                    && !text.contains("Sub(")
            }
            _ => false,
        };
        Ok(Arc::new(Prepared {
            sql: sql.to_owned(),
            out: bound.out().to_vec(),
            params: types,
            tables,
            locks: text.contains("lock: Some(") || matches!(stmt, Stmt::Lock(_)),
            writes,
            advisory: text.contains("advisory"),
            plain_insert,
            stmt: bound,
        }))
    }

    /// Accept, read, handle, write. True if anything happened.
    pub fn pump(&mut self) -> bool {
        let mut any = false;
        while let Ok((sock, _)) = self.listener.accept() {
            any = true;
            if self.refuse {
                continue;
            }
            sock.set_nonblocking(true).unwrap();
            self.conns.insert(
                self.next,
                Conn {
                    sock,
                    inbuf: Vec::new(),
                    out: Vec::new(),
                    buffered: Vec::new(),
                    started: false,
                    stmts: HashMap::new(),
                    portals: HashMap::new(),
                    script: None,
                    tx: None,
                    listening: BTreeSet::new(),
                    notices: VecDeque::new(),
                    skip: false,
                    pending: None,
                    withheld: false,
                    dead: false,
                },
            );
            self.next += 1;
        }
        let ids: Vec<usize> = self.conns.keys().copied().collect();
        for id in ids {
            any |= self.pump_conn(id);
        }
        any
    }

    fn pump_conn(&mut self, id: usize) -> bool {
        let mut any = false;
        let conn = self.conns.get_mut(&id).unwrap();
        let mut closed = conn.dead;
        let mut chunk = [0; 16384];
        while !closed {
            match conn.sock.read(&mut chunk) {
                Ok(0) => closed = true,
                Ok(n) => {
                    any = true;
                    conn.inbuf.extend(&chunk[..n]);
                }
                Err(e) if e.kind() == ErrorKind::WouldBlock => break,
                Err(_) => closed = true,
            }
        }
        any |= self.handle(id);
        let immediate = self.immediate;
        let conn = self.conns.get_mut(&id).unwrap();
        if conn.dead {
            closed = true;
        }
        conn.withheld &= !immediate;
        if !conn.out.is_empty() && !closed && !conn.withheld {
            match conn.sock.write(&conn.out) {
                Ok(n) => {
                    any = true;
                    conn.out.drain(..n);
                }
                Err(e) if e.kind() == ErrorKind::WouldBlock => {}
                Err(_) => closed = true,
            }
        }
        // A statement that was sent runs on even though the client went away.
        if closed && self.conns[&id].pending.is_none() {
            self.drop_conn(id);
            any = true;
        }
        any
    }

    fn drop_conn(&mut self, id: usize) {
        if let Some(conn) = self.conns.remove(&id) {
            if let Some(tx) = conn.tx
                && self.db.active.contains_key(&tx.id)
            {
                self.db.rollback(tx.id);
            }
            for holders in self.db.advisory.values_mut() {
                holders.retain(|h| h.0 != id);
            }
            self.db.advisory.retain(|_, h| !h.is_empty());
            self.wake(id);
        }
    }

    fn wake(&mut self, id: usize) {
        for conn in self.conns.values_mut() {
            if let Some(pending) = &mut conn.pending
                && pending.waiting == Some(id)
            {
                pending.waiting = None;
            }
        }
    }

    fn handle(&mut self, id: usize) -> bool {
        let mut any = false;
        loop {
            let conn = self.conns.get_mut(&id).unwrap();
            if conn.dead || conn.pending.is_some() {
                return any;
            }
            if conn.script.is_some() {
                any = true;
                self.script(id);
                continue;
            }
            if !conn.started {
                if conn.inbuf.len() < 8 {
                    return any;
                }
                let len = i32::from_be_bytes(conn.inbuf[..4].try_into().unwrap()) as usize;
                if conn.inbuf.len() < len {
                    return any;
                }
                let code = i32::from_be_bytes(conn.inbuf[4..8].try_into().unwrap());
                conn.inbuf.drain(..len);
                any = true;
                match code {
                    80877103 | 80877104 => conn.out.push(b'N'),
                    80877102 => conn.dead = true,
                    _ => {
                        conn.started = true;
                        let out = &mut conn.out;
                        message(out, b'R', |o| o.extend(0i32.to_be_bytes()));
                        for (k, v) in [
                            ("server_version", "16.3"),
                            ("server_encoding", "UTF8"),
                            ("client_encoding", "UTF8"),
                            ("DateStyle", "ISO, MDY"),
                            ("TimeZone", "UTC"),
                            ("integer_datetimes", "on"),
                            ("standard_conforming_strings", "on"),
                        ] {
                            message(out, b'S', |o| {
                                cstr(o, k);
                                cstr(o, v);
                            });
                        }
                        message(out, b'K', |o| {
                            o.extend((id as i32 + 1).to_be_bytes());
                            o.extend(0i32.to_be_bytes());
                        });
                        message(out, b'Z', |o| o.push(b'I'));
                    }
                }
                continue;
            }
            if conn.inbuf.len() < 5 {
                return any;
            }
            let len = i32::from_be_bytes(conn.inbuf[1..5].try_into().unwrap()) as usize;
            if conn.inbuf.len() < len + 1 {
                return any;
            }
            let kind = conn.inbuf[0];
            let body: Vec<u8> = conn.inbuf[5..len + 1].to_vec();
            conn.inbuf.drain(..len + 1);
            any = true;
            if conn.skip && kind != b'S' && kind != b'X' {
                continue;
            }
            let result = self.one(id, kind, &body);
            if let Err(stop) = result {
                self.error(id, stop);
            }
        }
    }

    /// The statement failed.
    fn error(&mut self, id: usize, stop: Stop) {
        let err = match stop {
            Stop::Err(err) => err,
            Stop::Unsupported(what) => {
                self.unsupported.get_or_insert(what.clone());
                PgErr::new("0A000", format!("the model does not know {what}"))
            }
            Stop::Wait(_) => unreachable!("waiting outside of a step"),
        };
        self.errors.push(err.clone());
        let conn = self.conns.get_mut(&id).unwrap();
        message(&mut conn.buffered, b'E', |o| {
            for (k, v) in [(b'S', "ERROR"), (b'V', "ERROR"), (b'C', &err.code), (b'M', &err.msg)] {
                o.push(k);
                cstr(o, v);
            }
            o.push(0);
        });
        if let Some(tx) = &mut conn.tx {
            if tx.explicit {
                if !tx.failed {
                    tx.failed = true;
                    tx.notifies.clear();
                    match tx.savepoints.last() {
                        Some((_, cmd)) => {
                            let (tx, cmd) = (tx.id, *cmd);
                            self.db.undo(tx, cmd);
                        }
                        None => {
                            let tx = tx.id;
                            self.db.rollback(tx);
                            self.wake(id);
                        }
                    }
                }
            } else {
                let tx = tx.id;
                conn.tx = None;
                self.db.rollback(tx);
                self.wake(id);
            }
        }
        let conn = self.conns.get_mut(&id).unwrap();
        conn.pending = None;
        if conn.script.take().is_some() {
            self.ready_for_query(id);
        } else {
            conn.skip = true;
        }
    }

    fn ready_for_query(&mut self, id: usize) {
        let conn = self.conns.get_mut(&id).unwrap();
        let state = match &conn.tx {
            Some(tx) if tx.failed => b'E',
            Some(tx) if tx.explicit => b'T',
            _ => b'I',
        };
        conn.skip = false;
        message(&mut conn.buffered, b'Z', |o| o.push(state));
        let buffered = std::mem::take(&mut conn.buffered);
        conn.out.extend(buffered);
        if !self.hold_notifications {
            self.deliver(id);
        }
    }

    /// Notifications that wait for the connection.
    pub fn held(&self) -> Vec<usize> {
        self.conns
            .iter()
            .filter(|(_, c)| !c.notices.is_empty() && c.tx.is_none() && c.pending.is_none())
            .map(|(id, _)| *id)
            .collect()
    }

    /// Hand the waiting notifications over.
    pub fn deliver(&mut self, id: usize) {
        let conn = self.conns.get_mut(&id).unwrap();
        if conn.tx.is_some() || conn.pending.is_some() || conn.script.is_some() {
            return;
        }
        while let Some((from, channel, payload)) = conn.notices.pop_front() {
            message(&mut conn.out, b'A', |o| {
                o.extend((from as i32 + 1).to_be_bytes());
                cstr(o, &channel);
                cstr(o, &payload);
            });
        }
    }

    fn one(&mut self, id: usize, kind: u8, body: &[u8]) -> Res<()> {
        let mut msg = Msg(body, 0);
        match kind {
            b'P' => {
                let name = msg.str();
                let sql = msg.str();
                let n = msg.i16();
                let oids: Vec<u32> = (0..n).map(|_| msg.i32() as u32).collect();
                self.check_failed(id, &sql)?;
                let prepared = self.prepare(&sql, &oids)?;
                let conn = self.conns.get_mut(&id).unwrap();
                conn.stmts.insert(name, prepared);
                message(&mut conn.buffered, b'1', |_| {});
            }
            b'D' => {
                let what = msg.bytes(1)[0];
                let name = msg.str();
                let conn = self.conns.get_mut(&id).unwrap();
                let (prepared, formats) = if what == b'S' {
                    let p = conn.stmts.get(&name).cloned();
                    (p, Vec::new())
                } else {
                    let p = conn.portals.get(&name);
                    (
                        p.map(|p| p.prepared.clone()),
                        p.map(|p| p.formats.clone()).unwrap_or_default(),
                    )
                };
                let Some(prepared) = prepared else {
                    return Err(PgErr::new("26000", format!("prepared statement \"{name}\" does not exist")).into());
                };
                let enums = &self.db.enums;
                if what == b'S' {
                    message(&mut conn.buffered, b't', |o| {
                        o.extend((prepared.params.len() as i16).to_be_bytes());
                        for p in &prepared.params {
                            o.extend(enums.oid(p).to_be_bytes());
                        }
                    });
                }
                describe(&mut conn.buffered, &prepared.out, &formats, enums);
            }
            b'B' => {
                let portal = msg.str();
                let name = msg.str();
                let conn = self.conns.get_mut(&id).unwrap();
                let Some(prepared) = conn.stmts.get(&name).cloned() else {
                    return Err(PgErr::new("26000", format!("prepared statement \"{name}\" does not exist")).into());
                };
                let n = msg.i16();
                let formats: Vec<i16> = (0..n).map(|_| msg.i16()).collect();
                let n = msg.i16() as usize;
                if n != prepared.params.len() {
                    return Err(PgErr::new(
                        "08P01",
                        format!(
                            "bind message supplies {n} parameters, but prepared statement requires {}",
                            prepared.params.len()
                        ),
                    )
                    .into());
                }
                let mut values = Vec::new();
                for i in 0..n {
                    let len = msg.i32();
                    if len < 0 {
                        values.push(V::Null);
                        continue;
                    }
                    let bytes = msg.bytes(len as usize).to_vec();
                    let format = match formats.as_slice() {
                        [] => 0,
                        [f] => *f,
                        fs => fs[i],
                    };
                    let ty = &prepared.params[i];
                    values.push(if format == 1 {
                        self.db.enums.decode(&bytes, ty)?
                    } else {
                        self.db.enums.parse(&String::from_utf8_lossy(&bytes), ty)?
                    });
                }
                let n = msg.i16();
                let formats: Vec<i16> = (0..n).map(|_| msg.i16()).collect();
                let sql = prepared.sql.clone();
                self.check_failed(id, &sql)?;
                let conn = self.conns.get_mut(&id).unwrap();
                conn.portals.insert(
                    portal,
                    Portal {
                        prepared,
                        values,
                        formats,
                    },
                );
                message(&mut conn.buffered, b'2', |_| {});
            }
            b'E' => {
                let name = msg.str();
                let limit = msg.i32().max(0) as usize;
                let conn = self.conns.get_mut(&id).unwrap();
                let Some(portal) = conn.portals.remove(&name) else {
                    return Err(PgErr::new("34000", format!("portal \"{name}\" does not exist")).into());
                };
                if let BStmt::Util(stmt) = &portal.prepared.stmt {
                    let stmt = stmt.clone();
                    return self.command(id, &stmt, portal.prepared, false);
                }
                self.begin_statement(id, portal.prepared, portal.values, portal.formats, limit, false)?;
            }
            b'C' => {
                let what = msg.bytes(1)[0];
                let name = msg.str();
                let conn = self.conns.get_mut(&id).unwrap();
                if what == b'S' {
                    conn.stmts.remove(&name);
                } else {
                    conn.portals.remove(&name);
                }
                message(&mut conn.buffered, b'3', |_| {});
            }
            b'S' => {
                let conn = self.conns.get_mut(&id).unwrap();
                conn.portals.clear();
                match &conn.tx {
                    Some(tx) if !tx.explicit => self.finish(id, false)?,
                    _ => self.ready_for_query(id),
                }
            }
            b'H' => {
                let conn = self.conns.get_mut(&id).unwrap();
                let buffered = std::mem::take(&mut conn.buffered);
                conn.out.extend(buffered);
            }
            b'Q' => {
                let sql = msg.str();
                match parse::statements(&sql) {
                    Ok(stmts) => {
                        let conn = self.conns.get_mut(&id).unwrap();
                        if stmts.is_empty() {
                            message(&mut conn.buffered, b'I', |_| {});
                        }
                        conn.script = Some(stmts.into());
                    }
                    Err(e) => {
                        self.conns.get_mut(&id).unwrap().script = Some(VecDeque::new());
                        self.error(id, e);
                    }
                }
            }
            b'X' => self.conns.get_mut(&id).unwrap().dead = true,
            other => return Err(Stop::unsupported(format!("message {}", other as char))),
        }
        Ok(())
    }

    fn check_failed(&self, id: usize, sql: &str) -> Res<()> {
        let failed = self.conns[&id].tx.as_ref().is_some_and(|tx| tx.failed);
        let first = sql.trim_start().get(..6).unwrap_or("").to_lowercase();
        if failed && !matches!(first.as_str(), "rollba" | "commit" | "abort") {
            return Err(PgErr::new(
                "25P02",
                "current transaction is aborted, commands ignored until end of transaction block",
            )
            .into());
        }
        Ok(())
    }

    /// The next statement of a simple query.
    fn script(&mut self, id: usize) {
        let conn = self.conns.get_mut(&id).unwrap();
        let Some(stmt) = conn.script.as_mut().unwrap().pop_front() else {
            conn.script = None;
            let result = match &conn.tx {
                Some(tx) if !tx.explicit => self.finish(id, false),
                _ => {
                    self.ready_for_query(id);
                    Ok(())
                }
            };
            if let Err(e) = result {
                self.error(id, e);
            }
            return;
        };
        let result = (|| {
            let text = match &stmt {
                Stmt::Rollback | Stmt::Commit | Stmt::RollbackTo(_) => "rollback",
                _ => "",
            };
            self.check_failed(id, text)?;
            let prepared = self.bind_stmt("", &stmt, &[])?;
            if matches!(prepared.stmt, BStmt::Util(_)) {
                self.command(id, &stmt, prepared, true)
            } else {
                self.begin_statement(id, prepared, Vec::new(), Vec::new(), 0, true)
            }
        })();
        if let Err(e) = result {
            self.error(id, e);
        }
    }

    fn open(&mut self, id: usize, explicit: bool) {
        let now = (self.clock)();
        let conn = self.conns.get_mut(&id).unwrap();
        match &mut conn.tx {
            None => {
                let tx = self.db.begin(id);
                conn.tx = Some(Tx {
                    id: tx,
                    explicit,
                    now,
                    cmd: 1,
                    repeatable: false,
                    snap: None,
                    notifies: Vec::new(),
                    savepoints: Vec::new(),
                    wrote: false,
                    failed: false,
                    listens: Vec::new(),
                });
            }
            Some(tx) => tx.explicit |= explicit,
        }
    }

    fn complete(&mut self, id: usize, tag: &str) {
        let conn = self.conns.get_mut(&id).unwrap();
        message(&mut conn.buffered, b'C', |o| cstr(o, tag));
    }

    /// Statements other than queries.
    fn command(&mut self, id: usize, stmt: &Stmt, prepared: Arc<Prepared>, simple: bool) -> Res<()> {
        match stmt {
            Stmt::Empty => {
                let conn = self.conns.get_mut(&id).unwrap();
                message(&mut conn.buffered, b'I', |_| {});
            }
            Stmt::Begin(repeatable) => {
                self.open(id, true);
                if let Some(repeatable) = repeatable {
                    self.conns.get_mut(&id).unwrap().tx.as_mut().unwrap().repeatable = *repeatable;
                }
                self.complete(id, "BEGIN");
            }
            Stmt::Commit | Stmt::Rollback => {
                let commit = matches!(stmt, Stmt::Commit);
                let conn = self.conns.get_mut(&id).unwrap();
                match &mut conn.tx {
                    None => self.complete(id, if commit { "COMMIT" } else { "ROLLBACK" }),
                    Some(tx) if tx.failed => {
                        let tx = tx.id;
                        conn.tx = None;
                        if self.db.active.contains_key(&tx) {
                            self.db.rollback(tx);
                            self.wake(id);
                        }
                        self.complete(id, "ROLLBACK");
                    }
                    Some(_) => {
                        if commit {
                            return self.finish(id, true);
                        }
                        let conn = self.conns.get_mut(&id).unwrap();
                        conn.pending = Some(Pending {
                            prepared: None,
                            values: Vec::new(),
                            formats: Vec::new(),
                            limit: 0,
                            phase: Phase::Rollback,
                            snap: None,
                            waiting: None,
                            command: true,
                        });
                        if self.immediate {
                            self.step(id);
                        }
                    }
                }
            }
            Stmt::Savepoint(name) => {
                let conn = self.conns.get_mut(&id).unwrap();
                let Some(tx) = &mut conn.tx else {
                    return Err(PgErr::new("25P01", "SAVEPOINT can only be used in transaction blocks").into());
                };
                tx.cmd += 1;
                tx.savepoints.push((name.clone(), tx.cmd));
                self.complete(id, "SAVEPOINT");
            }
            Stmt::RollbackTo(name) => {
                let conn = self.conns.get_mut(&id).unwrap();
                let Some(tx) = &mut conn.tx else {
                    return Err(PgErr::new("25P01", "no transaction").into());
                };
                let Some(at) = tx.savepoints.iter().rposition(|s| s.0 == *name) else {
                    return Err(PgErr::new("3B001", "savepoint does not exist").into());
                };
                tx.savepoints.truncate(at + 1);
                tx.failed = false;
                let (tx, cmd) = (tx.id, tx.savepoints[at].1);
                self.db.undo(tx, cmd);
                self.complete(id, "ROLLBACK");
            }
            Stmt::Release(name) => {
                let conn = self.conns.get_mut(&id).unwrap();
                if let Some(tx) = &mut conn.tx {
                    let Some(at) = tx.savepoints.iter().rposition(|s| s.0 == *name) else {
                        return Err(PgErr::new("3B001", "savepoint does not exist").into());
                    };
                    tx.savepoints.truncate(at);
                }
                self.complete(id, "RELEASE");
            }
            Stmt::Isolation(repeatable) => {
                let conn = self.conns.get_mut(&id).unwrap();
                if let Some(tx) = &mut conn.tx {
                    tx.repeatable = *repeatable;
                }
                self.complete(id, "SET");
            }
            Stmt::Set => self.complete(id, "SET"),
            Stmt::Listen(channel) => {
                self.open(id, false);
                let tx = self.conns.get_mut(&id).unwrap().tx.as_mut().unwrap();
                tx.listens.push((true, Some(channel.clone())));
                self.complete(id, "LISTEN");
            }
            Stmt::Unlisten(channel) => {
                self.open(id, false);
                let tx = self.conns.get_mut(&id).unwrap().tx.as_mut().unwrap();
                tx.listens.push((false, channel.clone()));
                self.complete(id, "UNLISTEN");
            }
            _ => self.begin_statement(id, prepared, Vec::new(), Vec::new(), 0, simple)?,
        }
        Ok(())
    }

    fn begin_statement(
        &mut self,
        id: usize,
        prepared: Arc<Prepared>,
        values: Vec<V>,
        formats: Vec<i16>,
        limit: usize,
        simple: bool,
    ) -> Res<()> {
        self.open(id, false);
        if simple && !prepared.out.is_empty() {
            let conn = self.conns.get_mut(&id).unwrap();
            describe(&mut conn.buffered, &prepared.out, &[], &self.db.enums);
        }
        let controlled = prepared.tables || prepared.advisory;
        let phase = if prepared.writes && !prepared.plain_insert || prepared.locks {
            Phase::Snapshot
        } else {
            Phase::Run
        };
        let conn = self.conns.get_mut(&id).unwrap();
        conn.pending = Some(Pending {
            prepared: Some(prepared),
            values,
            formats,
            limit,
            phase,
            snap: None,
            waiting: None,
            command: false,
        });
        if self.immediate || !controlled {
            self.step(id);
            if self.immediate
                && phase == Phase::Snapshot
                && self.conns.get(&id).is_some_and(|c| c.pending.is_some())
            {
                self.step(id);
            }
        }
        Ok(())
    }

    /// The end of a transaction by Sync, the end of a script or COMMIT.
    fn finish(&mut self, id: usize, command: bool) -> Res<()> {
        let conn = self.conns.get_mut(&id).unwrap();
        let tx = conn.tx.as_ref().unwrap();
        let holds = tx.wrote || self.db.advisory.values().any(|h| h.contains(&(id, true)));
        conn.pending = Some(Pending {
            prepared: None,
            values: Vec::new(),
            formats: Vec::new(),
            limit: 0,
            phase: Phase::Commit,
            snap: None,
            waiting: None,
            command,
        });
        if self.immediate || !holds {
            self.step(id);
        }
        Ok(())
    }

    /// All steps that can be made.
    pub fn ready(&self) -> Vec<Step> {
        self.conns
            .iter()
            .filter_map(|(id, conn)| {
                if conn.withheld {
                    return Some(Step {
                        conn: *id,
                        phase: Phase::Answer,
                        local: false,
                        label: String::new(),
                    });
                }
                let pending = conn.pending.as_ref().filter(|p| p.waiting.is_none())?;
                Some(Step {
                    conn: *id,
                    phase: pending.phase,
                    local: pending.phase == Phase::Run
                        && pending.prepared.as_ref().is_some_and(|p| p.plain_insert),
                    label: match &pending.prepared {
                        Some(p) => label(&p.sql),
                        None => String::new(),
                    },
                })
            })
            .collect()
    }

    /// Connections whose statement waits for a lock.
    pub fn blocked(&self) -> Vec<(usize, usize)> {
        self.conns
            .iter()
            .filter_map(|(id, c)| Some((*id, c.pending.as_ref()?.waiting?)))
            .collect()
    }

    /// Whether the connection is in the middle of something.
    pub fn busy(&self, id: usize) -> bool {
        self.conns
            .get(&id)
            .is_some_and(|c| c.pending.is_some() || c.tx.is_some() || c.script.is_some())
    }

    pub fn connections(&self) -> Vec<usize> {
        self.conns.keys().copied().collect()
    }

    pub fn listeners(&self) -> Vec<usize> {
        self.conns
            .iter()
            .filter(|(_, c)| !c.listening.is_empty())
            .map(|(id, _)| *id)
            .collect()
    }

    /// Perform the pending step of the connection.
    pub fn step(&mut self, id: usize) {
        let conn = self.conns.get_mut(&id).unwrap();
        if conn.withheld {
            conn.withheld = false;
            return;
        }
        self.advance(id);
        let (hold, immediate) = (self.hold_answers, self.immediate);
        if let Some(conn) = self.conns.get_mut(&id) {
            conn.withheld = hold && !immediate && conn.pending.is_none() && !conn.out.is_empty();
        }
    }

    fn advance(&mut self, id: usize) {
        let clock = (self.clock)();
        let conn = self.conns.get_mut(&id).unwrap();
        let mut pending = conn.pending.take().expect("a pending step");
        match pending.phase {
            Phase::Snapshot => {
                pending.snap = Some(self.db.commits);
                pending.phase = Phase::Run;
                conn.pending = Some(pending);
            }
            Phase::Run => {
                let prepared = pending.prepared.clone().unwrap();
                let tx = conn.tx.as_mut().unwrap();
                let snap = if tx.repeatable {
                    *tx.snap.get_or_insert(self.db.commits)
                } else {
                    *pending.snap.get_or_insert(self.db.commits)
                };
                self.statements += 1;
                let before = tx.notifies.len();
                let mut cx = Cx {
                    db: &mut self.db,
                    conn: id,
                    tx: tx.id,
                    snap,
                    cmd: tx.cmd,
                    repeatable: tx.repeatable,
                    params: pending.values.clone(),
                    now: tx.now,
                    clock,
                    notifies: &mut tx.notifies,
                    ctes: HashMap::new(),
                    subs: HashMap::new(),
                    depth: 0,
                };
                let result = match &prepared.stmt {
                    BStmt::Select(s) if pending.limit > 0 && s.lock.is_some() && s.limit.is_none() => {
                        let mut s = s.clone();
                        s.limit = Some(crate::bind::B::Const(V::Int(pending.limit as i64)));
                        cx.run(&BStmt::Select(s))
                    }
                    stmt => cx.run(stmt),
                };
                let (reached, started) = (cx.cmd, tx.cmd);
                match result {
                    Ok(done) => {
                        tx.cmd = reached + 1;
                        tx.wrote |= prepared.writes || prepared.locks || !tx.notifies.is_empty();
                        tx.wrote |= self.db.saved.contains_key(&tx.id);
                        if let Err(e) = self.send_rows(id, &pending, &prepared, done) {
                            self.error(id, e);
                        }
                        // Session locks may have been given back.
                        if prepared.advisory {
                            self.wake(id);
                        }
                    }
                    Err(Stop::Wait(other)) => {
                        // Its changes are undone, its locks stay.
                        tx.notifies.truncate(before);
                        tx.wrote |= prepared.writes || prepared.locks;
                        let tx = tx.id;
                        self.db.undo(tx, started);
                        pending.waiting = Some(other);
                        self.conns.get_mut(&id).unwrap().pending = Some(pending);
                        if self.circle(id) {
                            self.deadlocks += 1;
                            self.error(id, PgErr::new("40P01", "deadlock detected").into());
                        }
                    }
                    Err(e) => self.error(id, e),
                }
            }
            Phase::Commit => {
                let tx = conn.tx.take().unwrap();
                self.db.commit(tx.id);
                for (on, channel) in tx.listens {
                    match (on, channel) {
                        (true, Some(channel)) => {
                            conn.listening.insert(channel);
                        }
                        (_, Some(channel)) => {
                            conn.listening.remove(&channel);
                        }
                        (_, None) => conn.listening.clear(),
                    }
                }
                self.db.vacuum();
                self.wake(id);
                if pending.command {
                    self.complete(id, "COMMIT");
                } else {
                    self.ready_for_query(id);
                }
                for (channel, payload) in tx.notifies {
                    for conn in self.conns.values_mut() {
                        if conn.listening.contains(&channel) {
                            conn.notices.push_back((id, channel.clone(), payload.clone()));
                        }
                    }
                }
                if !self.hold_notifications {
                    for id in self.connections() {
                        self.deliver(id);
                    }
                }
            }
            Phase::Rollback => {
                let tx = conn.tx.take().unwrap();
                self.db.rollback(tx.id);
                self.db.vacuum();
                self.wake(id);
                self.complete(id, "ROLLBACK");
            }
            Phase::Answer => unreachable!("not a pending step"),
        }
    }

    /// Whether the connection waits for itself.
    fn circle(&self, id: usize) -> bool {
        let mut at = id;
        for _ in 0..=self.conns.len() {
            let next = self
                .conns
                .get(&at)
                .and_then(|c| c.pending.as_ref())
                .and_then(|p| p.waiting);
            match next {
                Some(next) if next == id => return true,
                Some(next) => at = next,
                None => return false,
            }
        }
        false
    }

    fn send_rows(&mut self, id: usize, pending: &Pending, prepared: &Prepared, done: Done) -> Res<()> {
        let conn = self.conns.get_mut(&id).unwrap();
        let mut rows: Rows = done.rows;
        let suspended = pending.limit > 0 && rows.len() >= pending.limit;
        if suspended {
            rows.truncate(pending.limit);
        }
        let enums = &self.db.enums;
        for row in &rows {
            let mut result = Ok(());
            message(&mut conn.buffered, b'D', |o| {
                o.extend((row.len() as i16).to_be_bytes());
                for (i, (v, col)) in row.iter().zip(&prepared.out).enumerate() {
                    let format = match pending.formats.as_slice() {
                        [] => 0,
                        [f] => *f,
                        fs => fs[i],
                    };
                    if format == 1 {
                        result = std::mem::replace(&mut result, Ok(()))
                            .and_then(|()| enums.encode_field(v, &col.ty, o));
                    } else if *v == V::Null {
                        o.extend((-1i32).to_be_bytes());
                    } else {
                        let text = match v {
                            V::Bool(b) => if *b { "t" } else { "f" }.to_owned(),
                            v => enums.text(v, &col.ty),
                        };
                        o.extend((text.len() as i32).to_be_bytes());
                        o.extend(text.as_bytes());
                    }
                }
            });
            result?;
        }
        if suspended {
            message(&mut conn.buffered, b's', |_| {});
        } else {
            message(&mut conn.buffered, b'C', |o| cstr(o, &done.tag));
        }
        Ok(())
    }

    /// Let the pending statement fail.
    pub fn fail(&mut self, id: usize, code: &str) {
        let conn = self.conns.get_mut(&id).unwrap();
        let command = conn.pending.as_ref().is_some_and(|p| p.prepared.is_none());
        if command && let Some(tx) = conn.tx.take() {
            // A failing COMMIT rolls back.
            self.db.rollback(tx.id);
            self.wake(id);
            let conn = self.conns.get_mut(&id).unwrap();
            let by_sync = !conn.pending.as_ref().unwrap().command;
            self.error(id, PgErr::new(code, "injected").into());
            if by_sync {
                self.ready_for_query(id);
            }
            return;
        }
        self.error(id, PgErr::new(code, "injected").into());
    }

    /// The types of the parameters and the names and types of the columns, as sqlx calls them.
    pub fn describe(&mut self, sql: &str) -> Result<(Vec<String>, Vec<(String, String)>), String> {
        fn name(ty: &T) -> String {
            match ty {
                T::Tstz => "Timestamptz".to_owned(),
                T::Ts => "Timestamp".to_owned(),
                T::Enum(_) => "Custom".to_owned(),
                T::Array(of) => format!("{}Array", name(of)),
                ty => format!("{ty:?}"),
            }
        }
        match self.prepare(sql, &[]) {
            Ok(p) => Ok((
                p.params.iter().map(name).collect(),
                p.out.iter().map(|out| (out.name.clone(), name(&out.ty))).collect(),
            )),
            Err(Stop::Err(error)) => Err(format!("{error:?}")),
            Err(_) => Err("stopped".to_owned()),
        }
    }

    /// Somebody else sends a notification.
    pub fn notify(&mut self, channel: &str, payload: &str) {
        for conn in self.conns.values_mut() {
            if conn.listening.contains(channel) {
                conn.notices.push_back((9_999, channel.to_owned(), payload.to_owned()));
            }
        }
        for id in self.connections() {
            self.deliver(id);
        }
    }

    /// Cut the connection. Its transaction is rolled back.
    pub fn kill(&mut self, id: usize) {
        self.drop_conn(id);
    }
}

fn describe(out: &mut Vec<u8>, cols: &[Out], formats: &[i16], enums: &crate::value::Enums) {
    if cols.is_empty() {
        message(out, b'n', |_| {});
        return;
    }
    message(out, b'T', |o| {
        o.extend((cols.len() as i16).to_be_bytes());
        for (i, col) in cols.iter().enumerate() {
            cstr(o, &col.name);
            let (table, attr) = col.src.unwrap_or((0, 0));
            o.extend(table.to_be_bytes());
            o.extend(attr.to_be_bytes());
            o.extend(enums.oid(&col.ty).to_be_bytes());
            o.extend(enums.size(&col.ty).to_be_bytes());
            o.extend((-1i32).to_be_bytes());
            let format = match formats {
                [] => 0,
                [f] => *f,
                fs => fs[i],
            };
            o.extend(format.to_be_bytes());
        }
    });
}
