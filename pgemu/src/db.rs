//! The stored data: multi version rows, locks, catalog.
use std::{
    collections::{BTreeMap, BTreeSet, HashMap},
    sync::Arc,
};

use crate::{
    ast::*,
    bind::Out,
    value::{Enums, T, V},
};

pub type Vals = Arc<Vec<V>>;

#[derive(Clone, Debug)]
pub struct Version {
    /// None if deleted.
    pub vals: Option<Vals>,
    pub tx: u64,
    pub cmd: u32,
    /// Zero while not committed.
    pub commit: u64,
}

#[derive(Clone, Debug)]
pub struct Row {
    pub versions: Vec<Version>,
    /// The transaction that holds its lock.
    pub lock: Option<u64>,
}

#[derive(Clone, Debug)]
pub struct Column {
    pub name: String,
    pub ty: T,
    pub not_null: bool,
    pub default: Option<Expr>,
    pub serial: bool,
}

#[derive(Clone, Debug)]
pub struct Table {
    pub oid: u32,
    pub cols: Vec<Column>,
    pub rows: BTreeMap<u64, Row>,
    pub next_row: u64,
    pub seqs: BTreeMap<usize, i64>,
    pub uniques: Vec<(Vec<usize>, Option<Expr>)>,
    pub lock: Option<u64>,
    pub users: BTreeSet<u64>,
}

#[derive(Clone, Debug, Default)]
pub struct Db {
    pub enums: Enums,
    pub tables: BTreeMap<String, Table>,
    pub functions: BTreeMap<String, PlBlock>,
    pub triggers: Vec<Trigger>,
    pub next_tx: u64,
    pub commits: u64,
    /// The transactions in progress and their connections.
    pub active: BTreeMap<u64, usize>,
    /// Holders of advisory locks: connection, for the transaction only.
    pub advisory: HashMap<(i64, i64), Vec<(usize, bool)>>,
    /// Changes with every change of the schema.
    pub schema: u64,
    /// Scan tables backwards.
    pub backwards: bool,
    /// The schema before transactions in progress changed it.
    pub saved: BTreeMap<u64, Saved>,
}

#[derive(Clone, Debug)]
pub struct Saved {
    enums: Enums,
    tables: BTreeMap<String, Table>,
    functions: BTreeMap<String, PlBlock>,
    triggers: Vec<Trigger>,
}

impl Db {
    pub fn columns(&self, table: &str) -> Option<Vec<Out>> {
        let virt = |names: &[(&str, T)]| {
            Some(
                names
                    .iter()
                    .map(|(name, ty)| Out {
                        name: name.to_string(),
                        ty: ty.clone(),
                        src: None,
                    })
                    .collect(),
            )
        };
        if let Some(table) = self.tables.get(table) {
            return Some(
                table
                    .cols
                    .iter()
                    .enumerate()
                    .map(|(i, col)| Out {
                        name: col.name.clone(),
                        ty: col.ty.clone(),
                        src: Some((table.oid, i as i16 + 1)),
                    })
                    .collect(),
            );
        }
        match table {
            "pg_type" => virt(&[
                ("oid", T::Oid),
                ("typname", T::Name),
                ("typtype", T::Char),
                ("typcategory", T::Char),
                ("typrelid", T::Oid),
                ("typelem", T::Oid),
                ("typbasetype", T::Oid),
                ("typarray", T::Oid),
            ]),
            "pg_enum" => virt(&[
                ("enumtypid", T::Oid),
                ("enumsortorder", T::Float8),
                ("enumlabel", T::Name),
            ]),
            "pg_database" => virt(&[("datname", T::Name)]),
            _ => None,
        }
    }

    pub fn virtual_rows(&self, table: &str) -> Option<Vec<Vec<V>>> {
        let mut out = Vec::new();
        match table {
            "pg_type" => {
                for (oid, name, kind, category, elem, array) in self.enums.catalog() {
                    out.push(vec![
                        V::Int(oid.into()),
                        V::Text(name),
                        V::Int(kind as i64),
                        V::Int(category as i64),
                        V::Int(0),
                        V::Int(elem.into()),
                        V::Int(0),
                        V::Int(array.into()),
                    ]);
                }
            }
            "pg_enum" => {
                for (n, (_, labels)) in self.enums.0.iter().enumerate() {
                    for (i, label) in labels.iter().enumerate() {
                        out.push(vec![
                            V::Int(self.enums.oid(&T::Enum(n)).into()),
                            V::Float(i as f64 + 1.0),
                            V::Text(label.clone()),
                        ]);
                    }
                }
            }
            "pg_database" => out.push(vec![V::Text("postgres".to_owned())]),
            _ => return None,
        }
        Some(out)
    }

    pub fn begin(&mut self, conn: usize) -> u64 {
        self.next_tx += 1;
        self.active.insert(self.next_tx, conn);
        self.next_tx
    }

    fn unlock(&mut self, tx: u64) {
        let conn = self.active.remove(&tx);
        for table in self.tables.values_mut() {
            if table.lock == Some(tx) {
                table.lock = None;
            }
            table.users.remove(&tx);
            for row in table.rows.values_mut() {
                if row.lock == Some(tx) {
                    row.lock = None;
                }
            }
        }
        if let Some(conn) = conn {
            for holders in self.advisory.values_mut() {
                holders.retain(|h| !(h.0 == conn && h.1));
            }
            self.advisory.retain(|_, holders| !holders.is_empty());
        }
    }

    pub fn commit(&mut self, tx: u64) {
        self.commits += 1;
        let commit = self.commits;
        for table in self.tables.values_mut() {
            for row in table.rows.values_mut() {
                for version in row.versions.iter_mut().filter(|v| v.tx == tx) {
                    if version.commit == 0 {
                        version.commit = commit;
                    }
                }
            }
        }
        self.saved.remove(&tx);
        self.unlock(tx);
    }

    /// Prepare for a change of the schema. The connection to wait for if there is another one.
    pub fn change_schema(&mut self, tx: u64) -> Option<usize> {
        if let Some(other) = self.saved.keys().find(|other| **other != tx) {
            return Some(self.active[other]);
        }
        self.saved.entry(tx).or_insert_with(|| Saved {
            enums: self.enums.clone(),
            tables: self.tables.clone(),
            functions: self.functions.clone(),
            triggers: self.triggers.clone(),
        });
        None
    }

    fn restore_schema(&mut self, tx: u64) {
        let Some(saved) = self.saved.remove(&tx) else {
            return;
        };
        self.enums = saved.enums;
        self.functions = saved.functions;
        self.triggers = saved.triggers;
        self.tables
            .retain(|name, table| saved.tables.get(name).is_some_and(|old| old.oid == table.oid));
        for (name, old) in saved.tables {
            match self.tables.get_mut(&name) {
                Some(table) => {
                    table.cols = old.cols;
                    table.uniques = old.uniques;
                }
                None => {
                    self.tables.insert(name, old);
                }
            }
        }
        self.schema += 1;
    }

    /// Undo what the transaction did from the given command on.
    pub fn undo(&mut self, tx: u64, cmd: u32) {
        for table in self.tables.values_mut() {
            for row in table.rows.values_mut() {
                row.versions
                    .retain(|v| !(v.tx == tx && v.commit == 0 && v.cmd >= cmd));
            }
            table.rows.retain(|_, row| !row.versions.is_empty());
        }
    }

    pub fn rollback(&mut self, tx: u64) {
        self.restore_schema(tx);
        self.undo(tx, 0);
        self.unlock(tx);
    }

    /// Forget versions and deleted rows that nobody can see any more.
    pub fn vacuum(&mut self) {
        if !self.active.is_empty() {
            return;
        }
        for table in self.tables.values_mut() {
            for row in table.rows.values_mut() {
                let last = row.versions.len() - 1;
                row.versions.drain(..last);
            }
            table.rows.retain(|_, row| row.versions[0].vals.is_some());
        }
    }

    /// The committed rows of a table, by column name.
    pub fn rows(&self, table: &str) -> Vec<HashMap<String, V>> {
        let table = &self.tables[table];
        table
            .rows
            .values()
            .filter_map(|row| {
                row.versions
                    .iter()
                    .rev()
                    .find(|v| v.commit > 0)
                    .and_then(|v| v.vals.clone())
            })
            .map(|vals| {
                table
                    .cols
                    .iter()
                    .zip(vals.iter())
                    .map(|(c, v)| (c.name.clone(), v.clone()))
                    .collect()
            })
            .collect()
    }
}

impl Row {
    /// The version visible to the snapshot.
    pub fn visible(&self, tx: u64, snap: u64, cmd: u32) -> Option<usize> {
        self.versions
            .iter()
            .rposition(|v| (v.commit > 0 && v.commit <= snap) || (v.tx == tx && v.commit == 0 && v.cmd < cmd))
    }

    /// The newest version that is committed or our own.
    pub fn newest(&self, tx: u64) -> Option<usize> {
        self.versions
            .iter()
            .rposition(|v| v.commit > 0 || v.tx == tx)
    }
}
