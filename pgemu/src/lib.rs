//! A model of PostgreSQL as far as needed: the wire protocol, a part of SQL with its type rules,
//! read committed and repeatable read transactions over multi version rows, row, table and advisory
//! locks, triggers and notifications. Time and the order of steps are controlled from outside.
pub mod ast;
pub mod bind;
pub mod db;
pub mod exec;
pub mod lex;
pub mod parse;
pub mod server;
pub mod value;

#[derive(Clone, Debug, PartialEq)]
pub struct PgErr {
    pub code: String,
    pub msg: String,
}

impl PgErr {
    pub fn new(code: &str, msg: impl Into<String>) -> Self {
        Self {
            code: code.to_owned(),
            msg: msg.into(),
        }
    }
}

/// Why a statement does not go on.
#[derive(Clone, Debug)]
pub enum Stop {
    Err(PgErr),
    /// It waits for the connection.
    Wait(usize),
    /// The model does not cover this.
    Unsupported(String),
}

impl Stop {
    pub fn unsupported(what: impl Into<String>) -> Self {
        Stop::Unsupported(what.into())
    }
}

impl From<PgErr> for Stop {
    fn from(e: PgErr) -> Self {
        Stop::Err(e)
    }
}

pub type Res<T> = Result<T, Stop>;
