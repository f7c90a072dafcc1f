//! SQLite through the system library, with the interface of the `rusqlite` crate.
//! `hook` lets a check observe every statement and make chosen ones fail.
use std::{
    ffi::{c_char, c_int, c_void, CStr, CString},
    fmt,
    marker::PhantomData,
    path::Path,
    ptr,
};

pub mod ffi {
    use super::*;
    pub enum sqlite3 {}
    pub enum sqlite3_stmt {}
    #[link(name = "sqlite3")]
    extern "C" {
        pub fn sqlite3_open_v2(f: *const c_char, db: *mut *mut sqlite3, flags: c_int, vfs: *const c_char) -> c_int;
        pub fn sqlite3_close_v2(db: *mut sqlite3) -> c_int;
        pub fn sqlite3_errmsg(db: *mut sqlite3) -> *const c_char;
        pub fn sqlite3_extended_errcode(db: *mut sqlite3) -> c_int;
        pub fn sqlite3_busy_timeout(db: *mut sqlite3, ms: c_int) -> c_int;
        pub fn sqlite3_prepare_v2(db: *mut sqlite3, sql: *const c_char, n: c_int, st: *mut *mut sqlite3_stmt, tail: *mut *const c_char) -> c_int;
        pub fn sqlite3_finalize(st: *mut sqlite3_stmt) -> c_int;
        pub fn sqlite3_step(st: *mut sqlite3_stmt) -> c_int;
        pub fn sqlite3_reset(st: *mut sqlite3_stmt) -> c_int;
        pub fn sqlite3_changes(db: *mut sqlite3) -> c_int;
        pub fn sqlite3_last_insert_rowid(db: *mut sqlite3) -> i64;
        pub fn sqlite3_get_autocommit(db: *mut sqlite3) -> c_int;
        pub fn sqlite3_bind_parameter_count(st: *mut sqlite3_stmt) -> c_int;
        pub fn sqlite3_bind_parameter_index(st: *mut sqlite3_stmt, name: *const c_char) -> c_int;
        pub fn sqlite3_bind_int64(st: *mut sqlite3_stmt, i: c_int, v: i64) -> c_int;
        pub fn sqlite3_bind_double(st: *mut sqlite3_stmt, i: c_int, v: f64) -> c_int;
        pub fn sqlite3_bind_null(st: *mut sqlite3_stmt, i: c_int) -> c_int;
        pub fn sqlite3_bind_text(st: *mut sqlite3_stmt, i: c_int, p: *const c_char, n: c_int, d: isize) -> c_int;
        pub fn sqlite3_bind_blob(st: *mut sqlite3_stmt, i: c_int, p: *const c_void, n: c_int, d: isize) -> c_int;
        pub fn sqlite3_column_count(st: *mut sqlite3_stmt) -> c_int;
        pub fn sqlite3_column_name(st: *mut sqlite3_stmt, i: c_int) -> *const c_char;
        pub fn sqlite3_column_type(st: *mut sqlite3_stmt, i: c_int) -> c_int;
        pub fn sqlite3_column_int64(st: *mut sqlite3_stmt, i: c_int) -> i64;
        pub fn sqlite3_column_double(st: *mut sqlite3_stmt, i: c_int) -> f64;
        pub fn sqlite3_column_text(st: *mut sqlite3_stmt, i: c_int) -> *const u8;
        pub fn sqlite3_column_blob(st: *mut sqlite3_stmt, i: c_int) -> *const u8;
        pub fn sqlite3_column_bytes(st: *mut sqlite3_stmt, i: c_int) -> c_int;
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum ErrorCode {
        InternalMalfunction,
        PermissionDenied,
        DatabaseBusy,
        DatabaseLocked,
        ReadOnly,
        SystemIoFailure,
        DatabaseCorrupt,
        DiskFull,
        CannotOpen,
        ConstraintViolation,
        NotADatabase,
        Unknown,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct Error {
        pub code: ErrorCode,
        pub extended_code: c_int,
    }
    impl Error {
        pub fn new(rc: c_int) -> Self {
            use ErrorCode::*;
            let code = match rc & 0xff {
                2 => InternalMalfunction,
                3 => PermissionDenied,
                5 => DatabaseBusy,
                6 => DatabaseLocked,
                8 => ReadOnly,
                10 => SystemIoFailure,
                11 => DatabaseCorrupt,
                13 => DiskFull,
                14 => CannotOpen,
                19 => ConstraintViolation,
                26 => NotADatabase,
                _ => Unknown,
            };
            Self { code, extended_code: rc }
        }
    }
    impl fmt::Display for Error {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "sqlite error {:?} ({})", self.code, self.extended_code)
        }
    }
    impl std::error::Error for Error {}
}
pub use ffi::ErrorCode;
use ffi::*;

pub mod hook {
    //! Observation and fault injection. The callback sees the text of a statement before it runs
    //! and may return a result code that the statement then fails with.
    use std::sync::{Arc, RwLock};
    pub type Callback = Arc<dyn Fn(&str) -> Option<i32> + Send + Sync>;
    static CB: RwLock<Option<Callback>> = RwLock::new(None);
    pub fn set(cb: Option<Callback>) {
        *CB.write().unwrap() = cb;
    }
    pub(crate) fn before(sql: &str) -> Option<i32> {
        let cb = CB.read().unwrap().clone();
        cb.and_then(|c| c(sql))
    }
}

pub mod types {
    pub use super::{FromSql, FromSqlError, FromSqlResult, Null, ToSql, Type, Value, ValueRef};
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Type {
    Null,
    Integer,
    Real,
    Text,
    Blob,
}
impl fmt::Display for Type {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
#[derive(Debug, Clone, Copy)]
pub struct Null;
#[derive(Debug, Clone, PartialEq)]
pub enum Value {
    Null,
    Integer(i64),
    Real(f64),
    Text(String),
    Blob(Vec<u8>),
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum ValueRef<'a> {
    Null,
    Integer(i64),
    Real(f64),
    Text(&'a [u8]),
    Blob(&'a [u8]),
}
impl<'a> ValueRef<'a> {
    pub fn data_type(&self) -> Type {
        match self {
            Self::Null => Type::Null,
            Self::Integer(_) => Type::Integer,
            Self::Real(_) => Type::Real,
            Self::Text(_) => Type::Text,
            Self::Blob(_) => Type::Blob,
        }
    }
    pub fn as_i64(&self) -> FromSqlResult<i64> {
        match self {
            Self::Integer(i) => Ok(*i),
            _ => Err(FromSqlError::InvalidType),
        }
    }
    pub fn as_str(&self) -> FromSqlResult<&'a str> {
        match self {
            Self::Text(t) => std::str::from_utf8(t).map_err(|e| FromSqlError::Other(Box::new(e))),
            _ => Err(FromSqlError::InvalidType),
        }
    }
    pub fn as_blob(&self) -> FromSqlResult<&'a [u8]> {
        match self {
            Self::Blob(t) => Ok(t),
            _ => Err(FromSqlError::InvalidType),
        }
    }
    pub fn as_bytes(&self) -> FromSqlResult<&'a [u8]> {
        match self {
            Self::Blob(t) | Self::Text(t) => Ok(t),
            _ => Err(FromSqlError::InvalidType),
        }
    }
}
#[derive(Debug)]
pub enum FromSqlError {
    InvalidType,
    OutOfRange(i64),
    InvalidBlobSize { expected_size: usize, blob_size: usize },
    Other(Box<dyn std::error::Error + Send + Sync + 'static>),
}
impl fmt::Display for FromSqlError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for FromSqlError {}
pub type FromSqlResult<T> = std::result::Result<T, FromSqlError>;
pub trait FromSql: Sized {
    fn column_result(v: ValueRef<'_>) -> FromSqlResult<Self>;
}
pub trait ToSql {
    fn to_value(&self) -> Result<Value>;
}
macro_rules! ints {
    ($($t:ty),*) => {$(
        impl FromSql for $t {
            fn column_result(v: ValueRef<'_>) -> FromSqlResult<Self> {
                let i = v.as_i64()?;
                <$t>::try_from(i).map_err(|_| FromSqlError::OutOfRange(i))
            }
        }
        impl ToSql for $t {
            fn to_value(&self) -> Result<Value> {
                i64::try_from(*self).map(Value::Integer).map_err(|e| Error::ToSqlConversionFailure(Box::new(e)))
            }
        }
    )*};
}
ints!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);
impl FromSql for f64 {
    fn column_result(v: ValueRef<'_>) -> FromSqlResult<Self> {
        match v {
            ValueRef::Integer(i) => Ok(i as f64),
            ValueRef::Real(f) => Ok(f),
            _ => Err(FromSqlError::InvalidType),
        }
    }
}
impl FromSql for bool {
    fn column_result(v: ValueRef<'_>) -> FromSqlResult<Self> {
        Ok(v.as_i64()? != 0)
    }
}
impl FromSql for String {
    fn column_result(v: ValueRef<'_>) -> FromSqlResult<Self> {
        v.as_str().map(Into::into)
    }
}
impl FromSql for Vec<u8> {
    fn column_result(v: ValueRef<'_>) -> FromSqlResult<Self> {
        v.as_blob().map(|b| b.to_vec())
    }
}
impl<const N: usize> FromSql for [u8; N] {
    fn column_result(v: ValueRef<'_>) -> FromSqlResult<Self> {
        let b = v.as_blob()?;
        b.try_into().map_err(|_| FromSqlError::InvalidBlobSize { expected_size: N, blob_size: b.len() })
    }
}
impl<T: FromSql> FromSql for Option<T> {
    fn column_result(v: ValueRef<'_>) -> FromSqlResult<Self> {
        match v {
            ValueRef::Null => Ok(None),
            v => T::column_result(v).map(Some),
        }
    }
}
impl FromSql for Value {
    fn column_result(v: ValueRef<'_>) -> FromSqlResult<Self> {
        Ok(match v {
            ValueRef::Null => Value::Null,
            ValueRef::Integer(i) => Value::Integer(i),
            ValueRef::Real(i) => Value::Real(i),
            ValueRef::Text(i) => Value::Text(String::from_utf8_lossy(i).into_owned()),
            ValueRef::Blob(i) => Value::Blob(i.to_vec()),
        })
    }
}
impl ToSql for f64 {
    fn to_value(&self) -> Result<Value> {
        Ok(Value::Real(*self))
    }
}
impl ToSql for bool {
    fn to_value(&self) -> Result<Value> {
        Ok(Value::Integer(*self as i64))
    }
}
impl ToSql for str {
    fn to_value(&self) -> Result<Value> {
        Ok(Value::Text(self.into()))
    }
}
impl ToSql for String {
    fn to_value(&self) -> Result<Value> {
        Ok(Value::Text(self.clone()))
    }
}
impl ToSql for [u8] {
    fn to_value(&self) -> Result<Value> {
        Ok(Value::Blob(self.to_vec()))
    }
}
impl ToSql for Vec<u8> {
    fn to_value(&self) -> Result<Value> {
        Ok(Value::Blob(self.clone()))
    }
}
impl<const N: usize> ToSql for [u8; N] {
    fn to_value(&self) -> Result<Value> {
        Ok(Value::Blob(self.to_vec()))
    }
}
impl ToSql for Null {
    fn to_value(&self) -> Result<Value> {
        Ok(Value::Null)
    }
}
impl ToSql for Value {
    fn to_value(&self) -> Result<Value> {
        Ok(self.clone())
    }
}
impl<T: ToSql + ?Sized> ToSql for &T {
    fn to_value(&self) -> Result<Value> {
        (**self).to_value()
    }
}
impl<T: ToSql + ?Sized> ToSql for Box<T> {
    fn to_value(&self) -> Result<Value> {
        (**self).to_value()
    }
}
impl<T: ToSql> ToSql for Option<T> {
    fn to_value(&self) -> Result<Value> {
        match self {
            Some(t) => t.to_value(),
            None => Ok(Value::Null),
        }
    }
}

#[derive(Debug)]
pub enum Error {
    SqliteFailure(ffi::Error, Option<String>),
    FromSqlConversionFailure(usize, Type, Box<dyn std::error::Error + Send + Sync + 'static>),
    IntegralValueOutOfRange(usize, i64),
    ToSqlConversionFailure(Box<dyn std::error::Error + Send + Sync + 'static>),
    QueryReturnedNoRows,
    InvalidColumnIndex(usize),
    InvalidColumnName(String),
    InvalidColumnType(usize, String, Type),
    InvalidParameterName(String),
    InvalidParameterCount(usize, usize),
    ExecuteReturnedResults,
    StatementChangedRows(usize),
    InvalidPath(std::path::PathBuf),
    NulError,
    InvalidQuery,
    MultipleStatement,
}
pub type Result<T, E = Error> = std::result::Result<T, E>;
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Error::SqliteFailure(e, Some(m)) => write!(f, "{m} ({e})"),
            Error::QueryReturnedNoRows => f.write_str("Query returned no rows"),
            e => write!(f, "{e:?}"),
        }
    }
}
impl std::error::Error for Error {}
impl PartialEq for Error {
    fn eq(&self, o: &Self) -> bool {
        format!("{self:?}") == format!("{o:?}")
    }
}
pub trait OptionalExtension<T> {
    fn optional(self) -> Result<Option<T>>;
}
impl<T> OptionalExtension<T> for Result<T> {
    fn optional(self) -> Result<Option<T>> {
        match self {
            Ok(t) => Ok(Some(t)),
            Err(Error::QueryReturnedNoRows) => Ok(None),
            Err(e) => Err(e),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct OpenFlags(pub c_int);
impl OpenFlags {
    pub const SQLITE_OPEN_READ_ONLY: Self = Self(1);
    pub const SQLITE_OPEN_READ_WRITE: Self = Self(2);
    pub const SQLITE_OPEN_CREATE: Self = Self(4);
    pub const SQLITE_OPEN_URI: Self = Self(0x40);
    pub const SQLITE_OPEN_NO_MUTEX: Self = Self(0x8000);
}
impl Default for OpenFlags {
    fn default() -> Self {
        Self(2 | 4 | 0x40 | 0x8000)
    }
}
impl std::ops::BitOr for OpenFlags {
    type Output = Self;
    fn bitor(self, o: Self) -> Self {
        Self(self.0 | o.0)
    }
}

pub struct Connection {
    db: *mut sqlite3,
}
unsafe impl Send for Connection {}
impl Drop for Connection {
    fn drop(&mut self) {
        unsafe { sqlite3_close_v2(self.db) };
    }
}
impl fmt::Debug for Connection {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Connection")
    }
}
fn failure(db: *mut sqlite3, rc: c_int) -> Error {
    let msg = unsafe {
        if db.is_null() {
            None
        } else {
            Some(CStr::from_ptr(sqlite3_errmsg(db)).to_string_lossy().into_owned())
        }
    };
    let code = if db.is_null() { rc } else { unsafe { sqlite3_extended_errcode(db) } };
    Error::SqliteFailure(ffi::Error::new(if code & 0xff == rc & 0xff { code } else { rc }), msg)
}
impl Connection {
    pub fn open(p: impl AsRef<Path>) -> Result<Self> {
        Self::open_with_flags(p, OpenFlags::default())
    }
    pub fn open_in_memory() -> Result<Self> {
        Self::open(":memory:")
    }
    pub fn open_with_flags(p: impl AsRef<Path>, flags: OpenFlags) -> Result<Self> {
        let s = CString::new(p.as_ref().to_str().ok_or(Error::InvalidPath(p.as_ref().into()))?)
            .map_err(|_| Error::NulError)?;
        let mut db = ptr::null_mut();
        let rc = unsafe { sqlite3_open_v2(s.as_ptr(), &mut db, flags.0, ptr::null()) };
        let c = Connection { db };
        if rc != 0 {
            return Err(failure(db, rc));
        }
        unsafe { sqlite3_busy_timeout(db, 5000) };
        Ok(c)
    }
    pub fn prepare(&self, sql: &str) -> Result<Statement<'_>> {
        let (st, _) = self.prepare_tail(sql)?;
        Ok(st)
    }
    pub fn prepare_cached(&self, sql: &str) -> Result<Statement<'_>> {
        self.prepare(sql)
    }
    fn prepare_tail<'a>(&self, sql: &'a str) -> Result<(Statement<'_>, &'a str)> {
        let mut st = ptr::null_mut();
        let mut tail = ptr::null();
        let p = sql.as_ptr() as *const c_char;
        let rc = unsafe { sqlite3_prepare_v2(self.db, p, sql.len() as c_int, &mut st, &mut tail) };
        if rc != 0 {
            return Err(failure(self.db, rc));
        }
        let used = if tail.is_null() { sql.len() } else { unsafe { tail.offset_from(p) as usize } };
        Ok((
            Statement { conn: self, st, sql: sql[..used].to_string() },
            &sql[used..],
        ))
    }
    pub fn execute<P: Params>(&self, sql: &str, p: P) -> Result<usize> {
        self.prepare(sql)?.execute(p)
    }
    pub fn execute_batch(&self, sql: &str) -> Result<()> {
        let mut rest = sql;
        while !rest.trim().is_empty() {
            let (st, tail) = self.prepare_tail(rest)?;
            if !st.st.is_null() {
                st.before()?;
                loop {
                    match unsafe { sqlite3_step(st.st) } {
                        100 => continue,
                        101 => break,
                        rc => return Err(failure(self.db, rc)),
                    }
                }
            }
            rest = tail;
        }
        Ok(())
    }
    pub fn query_row<T, P: Params, F: FnOnce(&Row<'_>) -> Result<T>>(&self, sql: &str, p: P, f: F) -> Result<T> {
        self.prepare(sql)?.query_row(p, f)
    }
    pub fn changes(&self) -> u64 {
        unsafe { sqlite3_changes(self.db) as u64 }
    }
    pub fn last_insert_rowid(&self) -> i64 {
        unsafe { sqlite3_last_insert_rowid(self.db) }
    }
    pub fn is_autocommit(&self) -> bool {
        unsafe { sqlite3_get_autocommit(self.db) != 0 }
    }
    pub fn transaction(&mut self) -> Result<Transaction<'_>> {
        self.unchecked_transaction()
    }
    pub fn unchecked_transaction(&self) -> Result<Transaction<'_>> {
        self.execute_batch("BEGIN DEFERRED")?;
        Ok(Transaction { conn: self, done: false })
    }
    pub fn busy_timeout(&self, d: std::time::Duration) -> Result<()> {
        unsafe { sqlite3_busy_timeout(self.db, d.as_millis() as c_int) };
        Ok(())
    }
    pub fn pragma_update<V: ToSql>(&self, _schema: Option<&str>, name: &str, v: V) -> Result<()> {
        let v = match v.to_value()? {
            Value::Integer(i) => i.to_string(),
            Value::Text(t) => format!("'{t}'"),
            _ => return Err(Error::InvalidQuery),
        };
        self.execute_batch(&format!("PRAGMA {name}={v}"))
    }
}
pub struct Transaction<'c> {
    conn: &'c Connection,
    done: bool,
}
impl std::ops::Deref for Transaction<'_> {
    type Target = Connection;
    fn deref(&self) -> &Connection {
        self.conn
    }
}
impl Transaction<'_> {
    pub fn commit(mut self) -> Result<()> {
        self.done = true;
        self.conn.execute_batch("COMMIT")
    }
    pub fn rollback(mut self) -> Result<()> {
        self.done = true;
        self.conn.execute_batch("ROLLBACK")
    }
}
impl Drop for Transaction<'_> {
    fn drop(&mut self) {
        if !self.done {
            let _ = self.conn.execute_batch("ROLLBACK");
        }
    }
}

pub trait Params {
    fn bind(self, s: &mut Statement<'_>) -> Result<()>;
}
fn bind_all<'a>(s: &mut Statement<'_>, it: impl Iterator<Item = &'a dyn ToSql>) -> Result<()> {
    let want = unsafe { sqlite3_bind_parameter_count(s.st) } as usize;
    let mut n = 0;
    for v in it {
        n += 1;
        if n > want {
            return Err(Error::InvalidParameterCount(n, want));
        }
        s.bind(n as c_int, v.to_value()?)?;
    }
    if n != want {
        return Err(Error::InvalidParameterCount(n, want));
    }
    Ok(())
}
fn bind_named<'a>(s: &mut Statement<'_>, it: impl Iterator<Item = (&'a str, &'a dyn ToSql)>) -> Result<()> {
    for (k, v) in it {
        let c = CString::new(k).map_err(|_| Error::NulError)?;
        let i = unsafe { sqlite3_bind_parameter_index(s.st, c.as_ptr()) };
        if i == 0 {
            return Err(Error::InvalidParameterName(k.into()));
        }
        s.bind(i, v.to_value()?)?;
    }
    Ok(())
}
impl Params for [&(dyn ToSql + Send + Sync); 0] {
    fn bind(self, s: &mut Statement<'_>) -> Result<()> {
        bind_all(s, std::iter::empty())
    }
}
impl Params for () {
    fn bind(self, s: &mut Statement<'_>) -> Result<()> {
        bind_all(s, std::iter::empty())
    }
}
impl Params for &[&dyn ToSql] {
    fn bind(self, s: &mut Statement<'_>) -> Result<()> {
        bind_all(s, self.iter().copied())
    }
}
impl Params for &[(&str, &dyn ToSql)] {
    fn bind(self, s: &mut Statement<'_>) -> Result<()> {
        bind_named(s, self.iter().copied())
    }
}
impl<const N: usize> Params for &[(&str, &dyn ToSql); N] {
    fn bind(self, s: &mut Statement<'_>) -> Result<()> {
        bind_named(s, self.iter().copied())
    }
}
macro_rules! arrays {
    ($($n:literal)*) => {$(
        impl<T: ToSql> Params for [T; $n] {
            fn bind(self, s: &mut Statement<'_>) -> Result<()> {
                bind_all(s, self.iter().map(|t| t as &dyn ToSql))
            }
        }
        impl<T: ToSql> Params for &[T; $n] {
            fn bind(self, s: &mut Statement<'_>) -> Result<()> {
                bind_all(s, self.iter().map(|t| t as &dyn ToSql))
            }
        }
    )*};
}
arrays!(1 2 3 4 5 6 7 8);
macro_rules! tuples {
    ($(($($t:ident $i:tt),*))*) => {$(
        impl<$($t: ToSql),*> Params for ($($t,)*) {
            fn bind(self, s: &mut Statement<'_>) -> Result<()> {
                bind_all(s, [$(&self.$i as &dyn ToSql),*].into_iter())
            }
        }
    )*};
}
tuples!((A 0) (A 0, B 1) (A 0, B 1, C 2) (A 0, B 1, C 2, D 3) (A 0, B 1, C 2, D 3, E 4));
pub struct ParamsFromIter<I>(I);
pub fn params_from_iter<I: IntoIterator>(i: I) -> ParamsFromIter<I>
where
    I::Item: ToSql,
{
    ParamsFromIter(i)
}
impl<I: IntoIterator> Params for ParamsFromIter<I>
where
    I::Item: ToSql,
{
    fn bind(self, s: &mut Statement<'_>) -> Result<()> {
        let v: Vec<I::Item> = self.0.into_iter().collect();
        bind_all(s, v.iter().map(|t| t as &dyn ToSql))
    }
}
#[macro_export]
macro_rules! params {
    () => { &[] as &[&dyn $crate::ToSql] };
    ($($p:expr),+ $(,)?) => { &[$(&$p as &dyn $crate::ToSql),+] as &[&dyn $crate::ToSql] };
}
#[macro_export]
macro_rules! named_params {
    () => { &[] as &[(&str, &dyn $crate::ToSql)] };
    ($($k:literal: $v:expr),+ $(,)?) => { &[$(($k, &$v as &dyn $crate::ToSql)),+] as &[(&str, &dyn $crate::ToSql)] };
}

pub struct Statement<'c> {
    conn: &'c Connection,
    st: *mut sqlite3_stmt,
    sql: String,
}
impl Drop for Statement<'_> {
    fn drop(&mut self) {
        unsafe { sqlite3_finalize(self.st) };
    }
}
impl<'c> Statement<'c> {
    fn before(&self) -> Result<()> {
        match hook::before(&self.sql) {
            None => Ok(()),
            Some(rc) => Err(Error::SqliteFailure(ffi::Error::new(rc), Some("injected".into()))),
        }
    }
    fn bind(&mut self, i: c_int, v: Value) -> Result<()> {
        const TRANSIENT: isize = -1;
        let rc = unsafe {
            match v {
                Value::Null => sqlite3_bind_null(self.st, i),
                Value::Integer(n) => sqlite3_bind_int64(self.st, i, n),
                Value::Real(n) => sqlite3_bind_double(self.st, i, n),
                Value::Text(t) => sqlite3_bind_text(self.st, i, t.as_ptr() as *const c_char, t.len() as c_int, TRANSIENT),
                Value::Blob(b) => {
                    let p = if b.is_empty() { b"".as_ptr() } else { b.as_ptr() };
                    sqlite3_bind_blob(self.st, i, p as *const c_void, b.len() as c_int, TRANSIENT)
                }
            }
        };
        if rc != 0 {
            return Err(failure(self.conn.db, rc));
        }
        Ok(())
    }
    pub fn column_count(&self) -> usize {
        unsafe { sqlite3_column_count(self.st) as usize }
    }
    fn column_index(&self, name: &str) -> Result<usize> {
        for i in 0..self.column_count() {
            let n = unsafe { CStr::from_ptr(sqlite3_column_name(self.st, i as c_int)) };
            if n.to_bytes().eq_ignore_ascii_case(name.as_bytes()) {
                return Ok(i);
            }
        }
        Err(Error::InvalidColumnName(name.into()))
    }
    pub fn execute<P: Params>(&mut self, p: P) -> Result<usize> {
        p.bind(self)?;
        self.before()?;
        let rc = unsafe { sqlite3_step(self.st) };
        let out = match rc {
            101 => Ok(self.conn.changes() as usize),
            100 => {
                if self.column_count() == 0 {
                    Ok(0)
                } else {
                    Err(Error::ExecuteReturnedResults)
                }
            }
            rc => Err(failure(self.conn.db, rc)),
        };
        unsafe { sqlite3_reset(self.st) };
        out
    }
    pub fn query<P: Params>(&mut self, p: P) -> Result<Rows<'_>> {
        p.bind(self)?;
        self.before()?;
        Ok(Rows { st: Some(self.st), conn: self.conn.db, stmt: self as *const _ as *const c_void, _p: PhantomData })
    }
    pub fn query_row<T, P: Params, F: FnOnce(&Row<'_>) -> Result<T>>(&mut self, p: P, f: F) -> Result<T> {
        let mut rows = self.query(p)?;
        match rows.next()? {
            Some(r) => f(r.reborrow()),
            None => Err(Error::QueryReturnedNoRows),
        }
    }
    pub fn query_map<T, P: Params, F: FnMut(&Row<'_>) -> Result<T>>(&mut self, p: P, f: F) -> Result<MappedRows<'_, F>> {
        Ok(MappedRows { rows: self.query(p)?, f })
    }
    pub fn exists<P: Params>(&mut self, p: P) -> Result<bool> {
        Ok(self.query(p)?.next()?.is_some())
    }
    pub fn insert<P: Params>(&mut self, p: P) -> Result<i64> {
        match self.execute(p)? {
            1 => Ok(self.conn.last_insert_rowid()),
            n => Err(Error::StatementChangedRows(n)),
        }
    }
}
pub struct Rows<'s> {
    st: Option<*mut sqlite3_stmt>,
    conn: *mut sqlite3,
    stmt: *const c_void,
    _p: PhantomData<&'s ()>,
}
impl<'s> Rows<'s> {
    pub fn next(&mut self) -> Result<Option<OwnedRow<'s>>> {
        let Some(st) = self.st else { return Ok(None) };
        match unsafe { sqlite3_step(st) } {
            100 => Ok(Some(OwnedRow(Row { stmt: self.stmt as *const Statement<'s>, st, _p: PhantomData }))),
            101 => {
                unsafe { sqlite3_reset(st) };
                self.st = None;
                Ok(None)
            }
            rc => {
                let e = failure(self.conn, rc);
                unsafe { sqlite3_reset(st) };
                self.st = None;
                Err(e)
            }
        }
    }
}
impl Drop for Rows<'_> {
    fn drop(&mut self) {
        if let Some(st) = self.st {
            unsafe { sqlite3_reset(st) };
        }
    }
}
pub struct OwnedRow<'s>(Row<'s>);
impl<'s> OwnedRow<'s> {
    fn reborrow(&self) -> &Row<'s> {
        &self.0
    }
}
impl<'s> std::ops::Deref for OwnedRow<'s> {
    type Target = Row<'s>;
    fn deref(&self) -> &Row<'s> {
        &self.0
    }
}
pub struct MappedRows<'s, F> {
    rows: Rows<'s>,
    f: F,
}
impl<T, F: FnMut(&Row<'_>) -> Result<T>> Iterator for MappedRows<'_, F> {
    type Item = Result<T>;
    fn next(&mut self) -> Option<Result<T>> {
        match self.rows.next() {
            Ok(Some(r)) => Some((self.f)(r.reborrow())),
            Ok(None) => None,
            Err(e) => Some(Err(e)),
        }
    }
}
pub trait RowIndex {
    fn idx(&self, st: &Statement<'_>) -> Result<usize>;
}
impl RowIndex for usize {
    fn idx(&self, st: &Statement<'_>) -> Result<usize> {
        if *self < st.column_count() {
            Ok(*self)
        } else {
            Err(Error::InvalidColumnIndex(*self))
        }
    }
}
impl RowIndex for &str {
    fn idx(&self, st: &Statement<'_>) -> Result<usize> {
        st.column_index(self)
    }
}
pub struct Row<'s> {
    stmt: *const Statement<'s>,
    st: *mut sqlite3_stmt,
    _p: PhantomData<&'s ()>,
}
impl<'s> Row<'s> {
    pub fn get_ref<I: RowIndex>(&self, i: I) -> Result<ValueRef<'_>> {
        let i = i.idx(unsafe { &*self.stmt })? as c_int;
        let st = self.st;
        Ok(unsafe {
            match sqlite3_column_type(st, i) {
                1 => ValueRef::Integer(sqlite3_column_int64(st, i)),
                2 => ValueRef::Real(sqlite3_column_double(st, i)),
                3 => {
                    let p = sqlite3_column_text(st, i);
                    ValueRef::Text(std::slice::from_raw_parts(p, sqlite3_column_bytes(st, i) as usize))
                }
                4 => {
                    let p = sqlite3_column_blob(st, i);
                    let n = sqlite3_column_bytes(st, i) as usize;
                    ValueRef::Blob(if n == 0 { &[] } else { std::slice::from_raw_parts(p, n) })
                }
                _ => ValueRef::Null,
            }
        })
    }
    pub fn get<I: RowIndex, T: FromSql>(&self, i: I) -> Result<T> {
        let n = i.idx(unsafe { &*self.stmt })?;
        let v = self.get_ref(n)?;
        T::column_result(v).map_err(|e| match e {
            FromSqlError::InvalidType => Error::InvalidColumnType(n, String::new(), v.data_type()),
            FromSqlError::OutOfRange(x) => Error::IntegralValueOutOfRange(n, x),
            e => Error::FromSqlConversionFailure(n, v.data_type(), Box::new(e)),
        })
    }
    pub fn get_unwrap<I: RowIndex, T: FromSql>(&self, i: I) -> T {
        self.get(i).unwrap()
    }
}
impl PartialEq for FromSqlError {
    fn eq(&self, o: &Self) -> bool {
        format!("{self:?}") == format!("{o:?}")
    }
}
impl<'a> From<&'a [u8]> for ValueRef<'a> {
    fn from(b: &'a [u8]) -> Self {
        ValueRef::Blob(b)
    }
}
impl<'a> From<&'a str> for ValueRef<'a> {
    fn from(b: &'a str) -> Self {
        ValueRef::Text(b.as_bytes())
    }
}
