//! What Seafowl uses of connector-x. `sqlite://` sources are the files they name; for the others a file is registered per
//! host, whose SQLite reads the little SQL that the dialects have in common. Types come from the declared types of the
//! columns, as in connector-x. Everything asked is written down.
use arrow::array::*;
use arrow::record_batch::RecordBatch;
use arrow_schema::{DataType, Field, Schema, TimeUnit};
use libsqlite3_sys as ffi;
use std::collections::HashMap;
use std::ffi::{CStr, CString};
use std::path::PathBuf;
use std::sync::{Arc, Mutex};

#[derive(Debug)]
pub struct ConnectorXError(pub String);

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum SourceType {
    Postgres,
    SQLite,
    MySQL,
    MsSQL,
    Oracle,
    BigQuery,
    Trino,
    DuckDB,
    Unknown,
}

#[derive(Debug, Clone)]
pub struct SourceConn {
    pub ty: SourceType,
    pub conn: url::Url,
    pub proto: String,
}

impl TryFrom<&str> for SourceConn {
    type Error = ConnectorXError;
    fn try_from(conn: &str) -> Result<Self, ConnectorXError> {
        let url = url::Url::parse(conn).map_err(|e| ConnectorXError(format!("parse error: {e}")))?;
        let ty = match url.scheme().split('+').next().unwrap_or("") {
            "postgres" | "postgresql" => SourceType::Postgres,
            "sqlite" => SourceType::SQLite,
            "mysql" => SourceType::MySQL,
            "mssql" => SourceType::MsSQL,
            "oracle" => SourceType::Oracle,
            "bigquery" => SourceType::BigQuery,
            "duckdb" => SourceType::DuckDB,
            "trino" => SourceType::Trino,
            s => return Err(ConnectorXError(format!("Not support source type: {s}"))),
        };
        Ok(Self { ty, conn: url, proto: "binary".into() })
    }
}

impl SourceConn {
    pub fn set_protocol(&mut self, protocol: &str) {
        self.proto = protocol.to_string();
    }
}

#[derive(Debug, Clone)]
pub enum CXQuery<Q = String> {
    Naked(Q),
    Wrapped(Q),
}

impl From<&str> for CXQuery<String> {
    fn from(s: &str) -> Self {
        CXQuery::Naked(s.to_string())
    }
}

impl CXQuery<String> {
    pub fn as_str(&self) -> &str {
        match self {
            CXQuery::Naked(q) | CXQuery::Wrapped(q) => q,
        }
    }
}

pub struct ArrowDestination {
    schema: Arc<Schema>,
    data: Vec<RecordBatch>,
}

impl ArrowDestination {
    pub fn arrow(self) -> Result<Vec<RecordBatch>, ConnectorXError> {
        Ok(self.data)
    }
    pub fn arrow_schema(&self) -> Arc<Schema> {
        self.schema.clone()
    }
}

/// What a stand-in was asked
#[derive(Debug, Clone)]
pub struct Asked {
    pub ty: SourceType,
    pub conn: String,
    pub proto: String,
    pub sql: String,
}

pub static LOG: Mutex<Vec<Asked>> = Mutex::new(Vec::new());
static HOSTS: Mutex<Option<HashMap<String, PathBuf>>> = Mutex::new(None);

/// The file that answers for a Postgres or MySQL host
pub fn register(host: &str, file: PathBuf) {
    HOSTS.lock().unwrap().get_or_insert_with(HashMap::new).insert(host.into(), file);
}

pub fn get_arrow(source: &SourceConn, _origin: Option<String>, queries: &[CXQuery<String>]) -> Result<ArrowDestination, ConnectorXError> {
    let mut out: Option<ArrowDestination> = None;
    for q in queries {
        LOG.lock().unwrap().push(Asked { ty: source.ty.clone(), conn: source.conn.to_string(), proto: source.proto.clone(), sql: q.as_str().into() });
        let file = match source.ty {
            SourceType::SQLite => PathBuf::from(percent_encoding::percent_decode_str(&source.conn.as_str()["sqlite://".len()..]).decode_utf8().map_err(|e| ConnectorXError(e.to_string()))?.into_owned()),
            SourceType::Postgres | SourceType::MySQL => HOSTS.lock().unwrap().as_ref().and_then(|h| h.get(source.conn.host_str().unwrap_or("")).cloned()).ok_or_else(|| ConnectorXError("could not connect: no such host".into()))?,
            _ => return Err(ConnectorXError("source not built in".into())),
        };
        let one = select(&file, q.as_str()).map_err(ConnectorXError)?;
        match &mut out {
            None => out = Some(one),
            Some(o) => o.data.extend(one.data),
        }
    }
    out.ok_or_else(|| ConnectorXError("no query".into()))
}

enum Cell {
    Null,
    Int(i64),
    Real(f64),
    Text(String),
    Blob(Vec<u8>),
}

fn select(file: &std::path::Path, sql: &str) -> Result<ArrowDestination, String> {
    if sql.contains('\0') {
        return Err("a zero byte in the query".into());
    }
    unsafe {
        let mut db = std::ptr::null_mut();
        let path = CString::new(file.to_str().ok_or("path")?).map_err(|e| e.to_string())?;
        let rc = ffi::sqlite3_open_v2(path.as_ptr(), &mut db, ffi::SQLITE_OPEN_READWRITE, std::ptr::null());
        let said = |db: *mut ffi::sqlite3| CStr::from_ptr(ffi::sqlite3_errmsg(db)).to_string_lossy().into_owned();
        if rc != ffi::SQLITE_OK {
            let e = said(db);
            ffi::sqlite3_close(db);
            return Err(e);
        }
        let mut st = std::ptr::null_mut();
        let c = CString::new(sql).map_err(|e| e.to_string())?;
        let mut tail = std::ptr::null();
        if ffi::sqlite3_prepare_v2(db, c.as_ptr(), -1, &mut st, &mut tail) != ffi::SQLITE_OK {
            let e = said(db);
            ffi::sqlite3_close(db);
            return Err(format!("{e} in {sql}"));
        }
        if !CStr::from_ptr(tail).to_bytes().iter().all(|b| b.is_ascii_whitespace()) {
            ffi::sqlite3_finalize(st);
            ffi::sqlite3_close(db);
            return Err(format!("more than one statement: {sql}"));
        }
        let n = ffi::sqlite3_column_count(st);
        let (mut names, mut declared) = (vec![], vec![]);
        for i in 0..n {
            names.push(CStr::from_ptr(ffi::sqlite3_column_name(st, i)).to_string_lossy().into_owned());
            let d = ffi::sqlite3_column_decltype(st, i);
            declared.push(if d.is_null() { None } else { Some(CStr::from_ptr(d).to_string_lossy().to_lowercase()) });
        }
        let mut cols: Vec<Vec<Cell>> = (0..n).map(|_| vec![]).collect();
        let mut count = 0;
        let end = loop {
            match ffi::sqlite3_step(st) {
                ffi::SQLITE_ROW => {
                    count += 1;
                    for i in 0..n {
                        let bytes = |p: *const u8| if p.is_null() { vec![] } else { std::slice::from_raw_parts(p, ffi::sqlite3_column_bytes(st, i) as usize).to_vec() };
                        cols[i as usize].push(match ffi::sqlite3_column_type(st, i) {
                            ffi::SQLITE_NULL => Cell::Null,
                            ffi::SQLITE_INTEGER => Cell::Int(ffi::sqlite3_column_int64(st, i)),
                            ffi::SQLITE_FLOAT => Cell::Real(ffi::sqlite3_column_double(st, i)),
                            ffi::SQLITE_BLOB => Cell::Blob(bytes(ffi::sqlite3_column_blob(st, i) as *const u8)),
                            _ => Cell::Text(String::from_utf8_lossy(&bytes(ffi::sqlite3_column_text(st, i))).into_owned()),
                        });
                    }
                }
                ffi::SQLITE_DONE => break Ok(()),
                _ => break Err(said(db)),
            }
        };
        ffi::sqlite3_finalize(st);
        ffi::sqlite3_close(db);
        end?;
        let (mut fields, mut arrays) = (vec![], vec![]);
        for ((name, decl), cells) in names.into_iter().zip(declared).zip(cols) {
            let a = column(&name, decl.as_deref(), cells)?;
            fields.push(Field::new(name, a.data_type().clone(), true));
            arrays.push(a);
        }
        let schema = Arc::new(Schema::new(fields));
        let data = RecordBatch::try_new_with_options(schema.clone(), arrays, &arrow::record_batch::RecordBatchOptions::new().with_row_count(Some(count))).map_err(|e| e.to_string())?;
        Ok(ArrowDestination { schema, data: vec![data] })
    }
}

fn column(name: &str, decl: Option<&str>, cells: Vec<Cell>) -> Result<ArrayRef, String> {
    let bad = |what: &str| format!("column {name}: value is not {what}");
    let ty = match decl {
        Some("boolean" | "bool") => DataType::Boolean,
        Some("date") => DataType::Date32,
        Some("datetime" | "timestamp") => DataType::Timestamp(TimeUnit::Nanosecond, None),
        Some(d) if d.contains("int") => DataType::Int64,
        Some(d) if d.contains("real") || d.contains("floa") || d.contains("doub") => DataType::Float64,
        Some(d) if d.contains("blob") => DataType::LargeBinary,
        Some(_) => DataType::Utf8,
        None => match cells.iter().find(|c| !matches!(c, Cell::Null)) {
            Some(Cell::Int(_)) => DataType::Int64,
            Some(Cell::Real(_)) => DataType::Float64,
            Some(Cell::Blob(_)) => DataType::LargeBinary,
            _ => DataType::Utf8,
        },
    };
    Ok(match ty {
        DataType::Boolean => Arc::new(cells.into_iter().map(|c| match c { Cell::Null => Ok(None), Cell::Int(i) => Ok(Some(i != 0)), _ => Err(bad("a boolean")) }).collect::<Result<BooleanArray, _>>()?),
        DataType::Int64 => Arc::new(cells.into_iter().map(|c| match c { Cell::Null => Ok(None), Cell::Int(i) => Ok(Some(i)), _ => Err(bad("an integer")) }).collect::<Result<Int64Array, _>>()?),
        DataType::Float64 => Arc::new(cells.into_iter().map(|c| match c { Cell::Null => Ok(None), Cell::Int(i) => Ok(Some(i as f64)), Cell::Real(f) => Ok(Some(f)), _ => Err(bad("a number")) }).collect::<Result<Float64Array, _>>()?),
        DataType::LargeBinary => Arc::new(cells.into_iter().map(|c| match c { Cell::Null => Ok(None), Cell::Blob(b) => Ok(Some(b)), Cell::Text(t) => Ok(Some(t.into_bytes())), _ => Err(bad("a blob")) }).collect::<Result<Vec<_>, _>>()?.iter().map(|o| o.as_deref()).collect::<LargeBinaryArray>()),
        DataType::Date32 => Arc::new(cells.into_iter().map(|c| match c { Cell::Null => Ok(None), Cell::Text(t) => chrono::NaiveDate::parse_from_str(&t, "%Y-%m-%d").map(|d| Some(d.signed_duration_since(chrono::NaiveDate::default()).num_days() as i32)).map_err(|e| e.to_string()), _ => Err(bad("a date")) }).collect::<Result<Date32Array, _>>()?),
        DataType::Timestamp(..) => Arc::new(cells.into_iter().map(|c| match c { Cell::Null => Ok(None), Cell::Text(t) => chrono::NaiveDateTime::parse_from_str(&t, "%Y-%m-%d %H:%M:%S%.f").map(|d| d.and_utc().timestamp_nanos_opt()).map_err(|e| e.to_string()), _ => Err(bad("a timestamp")) }).collect::<Result<TimestampNanosecondArray, _>>()?),
        _ => Arc::new(cells.into_iter().map(|c| match c { Cell::Null => Ok(None), Cell::Text(t) => Ok(Some(t)), _ => Err(bad("a text")) }).collect::<Result<StringArray, _>>()?),
    })
}

pub mod prelude {
    pub use crate::{get_arrow, ArrowDestination, CXQuery, ConnectorXError, SourceConn, SourceType};
}
