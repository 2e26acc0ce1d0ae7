//! Syntax trees.
#[derive(Clone, Debug, PartialEq)]
pub struct TypeName {
    pub name: String,
    pub array: bool,
}

#[derive(Clone, Debug)]
pub enum Expr {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Param(usize),
    Default,
    Col(Option<String>, String),
    Cast(Box<Expr>, TypeName),
    Neg(Box<Expr>),
    Bin(String, Box<Expr>, Box<Expr>),
    And(Box<Expr>, Box<Expr>),
    Or(Box<Expr>, Box<Expr>),
    Not(Box<Expr>),
    IsNull(Box<Expr>, bool),
    IsDistinct(Box<Expr>, Box<Expr>, bool),
    IsBool(Box<Expr>, Option<bool>, bool),
    In(Box<Expr>, Vec<Expr>, bool),
    InSub(Box<Expr>, Box<Select>, bool),
    Quant(Box<Expr>, String, bool, Box<Expr>),
    QuantSub(Box<Expr>, String, bool, Box<Select>),
    Exists(Box<Select>),
    Sub(Box<Select>),
    Case(Option<Box<Expr>>, Vec<(Expr, Expr)>, Option<Box<Expr>>),
    Func(Func),
    Array(Vec<Expr>),
    ArraySub(Box<Select>),
    Index(Box<Expr>, Box<Expr>),
    Row(Vec<Expr>),
    Like(Box<Expr>, Box<Expr>, bool, bool),
}

#[derive(Clone, Debug)]
pub struct Func {
    pub name: String,
    pub args: Vec<Expr>,
    pub star: bool,
    pub distinct: bool,
    pub filter: Option<Box<Expr>>,
    pub over: Option<(Vec<Expr>, Vec<Order>)>,
}

#[derive(Clone, Debug)]
pub struct Order {
    pub expr: Expr,
    pub desc: bool,
    pub nulls_first: bool,
}

#[derive(Clone, Debug)]
pub enum Item {
    Star(Option<String>),
    Expr(Expr, Option<String>),
}

#[derive(Clone, Debug, Copy, PartialEq)]
pub enum Wait {
    Block,
    Skip,
    NoWait,
}

#[derive(Clone, Debug)]
pub enum From {
    Table(String, String),
    Sub(Box<Select>, String, Vec<String>),
    Func(Expr, String, Vec<String>),
    Join(Box<From>, Box<From>, JoinKind, Option<Expr>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum JoinKind {
    Inner,
    Left,
}

#[derive(Clone, Debug)]
pub struct Cte {
    pub name: String,
    pub cols: Vec<String>,
    pub body: Box<Stmt>,
}

#[derive(Clone, Debug, Default)]
pub struct Select {
    pub with: Vec<Cte>,
    pub distinct: bool,
    pub distinct_on: Vec<Expr>,
    pub items: Vec<Item>,
    pub values: Option<Vec<Vec<Expr>>>,
    pub from: Vec<From>,
    pub filter: Option<Expr>,
    pub group: Vec<Expr>,
    pub having: Option<Expr>,
    pub order: Vec<Order>,
    pub limit: Option<Expr>,
    pub offset: Option<Expr>,
    pub lock: Option<(Wait, Vec<String>)>,
    /// UNION / UNION ALL with another one.
    pub union: Vec<(bool, Select)>,
}

#[derive(Clone, Debug)]
pub struct Insert {
    pub with: Vec<Cte>,
    pub table: String,
    pub cols: Vec<String>,
    pub source: Option<Box<Select>>,
    pub returning: Vec<Item>,
}

#[derive(Clone, Debug)]
pub struct Update {
    pub with: Vec<Cte>,
    pub table: String,
    pub alias: String,
    pub sets: Vec<(Vec<String>, Expr)>,
    pub from: Vec<From>,
    pub filter: Option<Expr>,
    pub returning: Vec<Item>,
}

#[derive(Clone, Debug)]
pub struct Delete {
    pub with: Vec<Cte>,
    pub table: String,
    pub alias: String,
    pub using: Vec<From>,
    pub filter: Option<Expr>,
    pub returning: Vec<Item>,
}

#[derive(Clone, Debug)]
pub struct ColDef {
    pub name: String,
    pub ty: TypeName,
    pub serial: bool,
    pub not_null: bool,
    pub default: Option<Expr>,
    pub primary: bool,
    pub unique: bool,
}

#[derive(Clone, Debug)]
pub enum Pl {
    If(Vec<(Expr, Vec<Pl>)>, Vec<Pl>),
    Assign(Vec<String>, Expr),
    Perform(Expr),
    Return(Option<Expr>),
    Null,
    Sql(Stmt),
    Block(Box<PlBlock>),
}

#[derive(Clone, Debug, Default)]
pub struct PlBlock {
    pub vars: Vec<(String, TypeName, Option<Expr>)>,
    pub body: Vec<Pl>,
    pub handlers: Vec<(Vec<String>, Vec<Pl>)>,
}

#[derive(Clone, Debug)]
pub struct Trigger {
    pub name: String,
    pub table: String,
    pub before: bool,
    pub row: bool,
    pub insert: bool,
    pub update: Option<Vec<String>>,
    pub delete: bool,
    pub when: Option<Expr>,
    pub function: String,
}

#[derive(Clone, Debug)]
pub enum Stmt {
    Empty,
    Select(Select),
    Insert(Insert),
    Update(Update),
    Delete(Delete),
    Begin(Option<bool>),
    Commit,
    Rollback,
    Savepoint(String),
    RollbackTo(String),
    Release(String),
    Isolation(bool),
    Set,
    Listen(String),
    Unlisten(Option<String>),
    Notify(String, String),
    Lock(String),
    CreateType(String, Vec<String>),
    CreateTable(String, Vec<ColDef>, bool, Vec<Vec<String>>),
    CreateIndex,
    UniqueIndex(String, Vec<String>, Option<Expr>),
    CreateFunction(String, PlBlock),
    CreateTrigger(Trigger),
    AlterTable(String, Vec<Alter>),
    Do(PlBlock),
    Drop(String, String, bool),
    Other(String),
}

#[derive(Clone, Debug)]
pub enum Alter {
    Add(ColDef, bool),
    Default(String, Option<Expr>),
    NotNull(String, bool),
    DropColumn(String),
    Other,
}

impl Stmt {
    pub fn changes_schema(&self) -> bool {
        matches!(
            self,
            Stmt::CreateType(..)
                | Stmt::CreateTable(..)
                | Stmt::CreateIndex
                | Stmt::UniqueIndex(..)
                | Stmt::CreateFunction(..)
                | Stmt::CreateTrigger(_)
                | Stmt::AlterTable(..)
                | Stmt::Drop(..)
        )
    }
}
