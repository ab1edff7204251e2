//! Sequential model of the metadata catalogue: which results an operation may have in a state, and the state after it.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use crate::repository::interface::*;
use crate::wasm_udf::data_types::*;
use arrow_schema::{DataType, Field, Schema};
use rand::rngs::StdRng;
use rand::Rng;
use sfv::{chance, pick};
use uuid::Uuid;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    CreateDb(String),
    GetDb(String),
    CreateCol(i64, String),
    GetCol(String, String),
    CreateTable(i64, String, u8, u128),
    GetTable(String, String, String),
    Rename(i64, String, Option<i64>),
    DelTable(i64),
    DelCol(i64),
    DelDb(i64),
    List(String),
    NewVersion(u128, i64),
    Prune(i64),
    Versions(String, Option<Vec<String>>),
    CreateFn(i64, String, bool, u8),
    Fns(i64),
    DropFn(i64, Vec<String>),
}

pub type ListRow = (String, String, Option<String>, Option<i64>, Option<u128>, Option<i64>, Option<String>, Option<String>);

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Res {
    Id(i64),
    Ids(i64, i64),
    Rec(i64, i64, String),
    Unit,
    N(u64),
    Listing(Vec<ListRow>),
    Vers(Vec<(String, String, String, i64, i64)>),
    Funcs(Vec<(i64, String, Vec<String>)>),
    Unique,
    Fk,
    NotFound,
    Busy,
    Other(String),
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Table {
    pub col: i64,
    pub name: String,
    pub uuid: u128,
    pub schema: u8,
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Model {
    pub dbs: BTreeMap<i64, String>,
    pub cols: BTreeMap<i64, (i64, String)>,
    pub tables: BTreeMap<i64, Table>,
    pub versions: BTreeMap<i64, (i64, i64)>, // version id -> table, number
    pub funcs: BTreeMap<i64, (i64, String, u8)>,
}

/// schemas used by the model, by index; some cannot be stored (duplicate column names)
pub fn schema(i: u8) -> Schema {
    let f = |n: &str, t: DataType, nl: bool| Field::new(n, t, nl);
    match i {
        0 => Schema::empty(),
        1 => Schema::new(vec![f("a", DataType::Int32, true), f("b", DataType::Utf8, false)]),
        2 => Schema::new(vec![f("x'\"y", DataType::Float64, true)]),
        3 => Schema::new((0..40).map(|k| f(&format!("c{k}"), DataType::Int64, k % 2 == 0)).collect::<Vec<_>>()),
        4 => Schema::new(vec![f("l", DataType::List(Arc::new(f("item", DataType::Utf8, true))), true), f("A", DataType::Date32, true), f("a", DataType::Boolean, true)]),
        5 => Schema::new(vec![f("dup", DataType::Int32, true), f("ok", DataType::Int32, true), f("dup", DataType::Utf8, true)]),
        _ => Schema::new((0..700).map(|k| f(&format!("w{k}"), DataType::Utf8, true)).collect::<Vec<_>>()),
    }
}
pub fn schema_storable(i: u8) -> bool {
    i != 5
}

pub fn details(i: u8) -> CreateFunctionDetails {
    use CreateFunctionDataType::*;
    let types = [INT, BIGINT, TEXT, DOUBLE, BOOLEAN, DATE, TIMESTAMP, DECIMAL { precision: 10, scale: 2 }, REAL, SMALLINT];
    CreateFunctionDetails {
        entrypoint: format!("entry'{i}"),
        language: if i % 2 == 0 { CreateFunctionLanguage::Wasm } else { CreateFunctionLanguage::WasmMessagePack },
        input_types: (0..(i % 4)).map(|k| types[((i + k) % 10) as usize].clone()).collect(),
        return_type: types[(i % 10) as usize].clone(),
        data: format!("data-{i}-\u{1F980}\"';--"),
        volatility: [CreateFunctionVolatility::Immutable, CreateFunctionVolatility::Stable, CreateFunctionVolatility::Volatile][(i % 3) as usize].clone(),
    }
}
pub fn details_row(i: u8) -> Vec<String> {
    let d = details(i);
    vec![d.entrypoint.clone(), d.language.to_string(), serde_json::to_string(&d.input_types).unwrap(), d.return_type.to_string(), d.data.clone(), d.volatility.to_string()]
}

fn col_rows(i: u8) -> Vec<(String, String)> {
    schema(i).fields().iter().map(|f| (f.name().clone(), canon_field(f))).collect()
}
/// comparable text of a field
pub fn canon_field(f: &Field) -> String {
    canon_json(&serde_json::to_value(f).unwrap())
}
pub fn canon_json(v: &serde_json::Value) -> String {
    use serde_json::Value::*;
    match v {
        Object(m) => {
            let b: BTreeMap<_, _> = m.iter().map(|(k, v)| (k, canon_json(v))).collect();
            format!("{{{}}}", b.iter().map(|(k, v)| format!("{k:?}:{v}")).collect::<Vec<_>>().join(","))
        }
        Array(a) => format!("[{}]", a.iter().map(canon_json).collect::<Vec<_>>().join(",")),
        x => x.to_string(),
    }
}
/// the field a stored column definition denotes (current or pre-0.5.7 format)
pub fn decode_field(text: &str) -> Result<Field, String> {
    if let Ok(f) = serde_json::from_str::<Field>(text) {
        return Ok(f);
    }
    let v: serde_json::Value = serde_json::from_str(text).map_err(|e| e.to_string())?;
    arrow_integration_test::field_from_json(&v).map_err(|e| e.to_string())
}

fn sorted<T: Ord>(mut v: Vec<T>) -> Vec<T> {
    v.sort();
    v
}

impl Model {
    fn db_id(&self, n: &str) -> Option<i64> {
        self.dbs.iter().find(|(_, x)| *x == n).map(|(i, _)| *i)
    }
    fn col_id(&self, db: i64, n: &str) -> Option<i64> {
        self.cols.iter().find(|(_, (d, x))| *d == db && x == n).map(|(i, _)| *i)
    }
    fn table_id(&self, col: i64, n: &str) -> Option<i64> {
        self.tables.iter().find(|(_, t)| t.col == col && t.name == n).map(|(i, _)| *i)
    }
    fn fn_id(&self, db: i64, n: &str) -> Option<i64> {
        self.funcs.iter().find(|(_, (d, x, _))| *d == db && x == n).map(|(i, _)| *i)
    }
    pub fn latest(&self, table: i64) -> Option<i64> {
        self.versions.iter().filter(|(_, (t, _))| *t == table).map(|(v, _)| *v).max()
    }
    fn drop_table(&mut self, t: i64) {
        self.tables.remove(&t);
        self.versions.retain(|_, (x, _)| *x != t);
    }
    fn drop_col(&mut self, c: i64) {
        self.cols.remove(&c);
        let ts: Vec<i64> = self.tables.iter().filter(|(_, t)| t.col == c).map(|(i, _)| *i).collect();
        ts.into_iter().for_each(|t| self.drop_table(t));
    }
    pub fn listing(&self, db: &str) -> Vec<ListRow> {
        let mut out = vec![];
        let Some(dbid) = self.db_id(db) else { return out };
        for (cid, (d, cname)) in &self.cols {
            if *d != dbid {
                continue;
            }
            let mut any = false;
            for (tid, t) in &self.tables {
                if t.col != *cid {
                    continue;
                }
                any = true;
                let latest = self.latest(*tid);
                let base = |n: Option<String>, ty: Option<String>| (db.to_string(), cname.clone(), Some(t.name.clone()), Some(*tid), Some(t.uuid), latest, n, ty);
                let cols = col_rows(t.schema);
                if cols.is_empty() || latest.is_none() {
                    out.push(base(None, None));
                } else {
                    out.extend(cols.into_iter().map(|(n, ty)| base(Some(n), Some(ty))));
                }
            }
            if !any {
                out.push((db.to_string(), cname.clone(), None, None, None, None, None, None));
            }
        }
        sorted(out)
    }
    pub fn version_rows(&self, db: &str, names: &Option<Vec<String>>) -> Vec<(String, String, String, i64, i64)> {
        let mut out = vec![];
        for (vid, (tid, num)) in &self.versions {
            let t = &self.tables[tid];
            let (d, cname) = &self.cols[&t.col];
            if self.dbs[d] != db {
                continue;
            }
            if let Some(ns) = names {
                if !ns.is_empty() && !ns.contains(&t.name) {
                    continue;
                }
            }
            out.push((db.to_string(), cname.clone(), t.name.clone(), *vid, *num));
        }
        sorted(out)
    }
    pub fn func_rows(&self, db: i64) -> Vec<(i64, String, Vec<String>)> {
        sorted(self.funcs.iter().filter(|(_, (d, _, _))| *d == db).map(|(i, (_, n, k))| (*i, n.clone(), details_row(*k))).collect())
    }

    /// May `op` return `res` in this state? Returns the state after it.
    pub fn step(&self, op: &Op, res: &Res) -> Option<Model> {
        if *res == Res::Busy {
            return Some(self.clone());
        }
        let mut m = self.clone();
        let same = |ok: bool| if ok { Some(self.clone()) } else { None };
        match op {
            Op::CreateDb(n) => match res {
                Res::Unique => same(self.db_id(n).is_some()),
                Res::Id(i) if self.db_id(n).is_none() && !self.dbs.contains_key(i) => {
                    m.dbs.insert(*i, n.clone());
                    Some(m)
                }
                _ => None,
            },
            Op::GetDb(n) => match (self.db_id(n), res) {
                (Some(i), Res::Rec(j, _, x)) => same(i == *j && x == n),
                (None, Res::NotFound) => same(true),
                _ => None,
            },
            Op::CreateCol(d, n) => match res {
                Res::Fk => same(!self.dbs.contains_key(d)),
                Res::Unique => same(self.col_id(*d, n).is_some()),
                Res::Id(i) if self.dbs.contains_key(d) && self.col_id(*d, n).is_none() && !self.cols.contains_key(i) => {
                    m.cols.insert(*i, (*d, n.clone()));
                    Some(m)
                }
                _ => None,
            },
            Op::GetCol(d, n) => {
                let id = self.db_id(d).and_then(|d| self.col_id(d, n).map(|c| (c, d)));
                match (id, res) {
                    (Some((c, d)), Res::Rec(j, p, x)) => same(c == *j && d == *p && x == n),
                    (None, Res::NotFound) => same(true),
                    _ => None,
                }
            }
            Op::CreateTable(c, n, s, u) => match res {
                Res::Fk => same(!self.cols.contains_key(c)),
                Res::Unique => same(self.table_id(*c, n).is_some() || (!schema_storable(*s) && self.cols.contains_key(c))),
                Res::Ids(t, v) if self.cols.contains_key(c) && self.table_id(*c, n).is_none() && schema_storable(*s) && !self.tables.contains_key(t) && !self.versions.contains_key(v) => {
                    m.tables.insert(*t, Table { col: *c, name: n.clone(), uuid: *u, schema: *s });
                    m.versions.insert(*v, (*t, 0));
                    Some(m)
                }
                _ => None,
            },
            Op::GetTable(d, c, n) => {
                let id = self.db_id(d).and_then(|d| self.col_id(d, c)).and_then(|c| self.table_id(c, n).map(|t| (t, c)));
                match (id, res) {
                    (Some((t, c)), Res::Rec(j, p, x)) => same(t == *j && c == *p && x == n),
                    (None, Res::NotFound) => same(true),
                    _ => None,
                }
            }
            Op::Rename(t, n, c) => {
                let Some(cur) = self.tables.get(t) else { return same(*res == Res::NotFound) };
                let target = c.unwrap_or(cur.col);
                let clash = self.table_id(target, n).is_some_and(|x| x != *t);
                match res {
                    Res::Fk => same(!self.cols.contains_key(&target)),
                    Res::Unique => same(clash),
                    Res::Unit if self.cols.contains_key(&target) && !clash => {
                        let e = m.tables.get_mut(t).unwrap();
                        e.name = n.clone();
                        e.col = target;
                        Some(m)
                    }
                    _ => None,
                }
            }
            Op::DelTable(t) => match res {
                Res::NotFound => same(!self.tables.contains_key(t)),
                Res::Unit if self.tables.contains_key(t) => {
                    m.drop_table(*t);
                    Some(m)
                }
                _ => None,
            },
            Op::DelCol(c) => match res {
                Res::NotFound => same(!self.cols.contains_key(c)),
                Res::Unit if self.cols.contains_key(c) => {
                    m.drop_col(*c);
                    Some(m)
                }
                _ => None,
            },
            Op::DelDb(d) => match res {
                Res::NotFound => same(!self.dbs.contains_key(d)),
                Res::Unit if self.dbs.contains_key(d) => {
                    m.dbs.remove(d);
                    let cs: Vec<i64> = m.cols.iter().filter(|(_, (x, _))| x == d).map(|(i, _)| *i).collect();
                    cs.into_iter().for_each(|c| m.drop_col(c));
                    m.funcs.retain(|_, (x, _, _)| x != d);
                    Some(m)
                }
                _ => None,
            },
            Op::List(d) => match res {
                Res::Listing(rows) => same(*rows == self.listing(d)),
                _ => None,
            },
            Op::NewVersion(u, num) => {
                let t = self.tables.iter().find(|(_, t)| t.uuid == *u).map(|(i, _)| *i);
                match (t, res) {
                    (None, Res::NotFound | Res::Other(_)) => same(true),
                    (Some(t), Res::Id(v)) if !self.versions.contains_key(v) && self.latest(t).is_none_or(|l| l < *v) => {
                        m.versions.insert(*v, (t, *num));
                        Some(m)
                    }
                    _ => None,
                }
            }
            Op::Prune(t) => {
                let latest = self.latest(*t);
                let before = m.versions.len();
                m.versions.retain(|v, (x, _)| x != t || Some(*v) == latest);
                match res {
                    Res::N(n) if *n == (before - m.versions.len()) as u64 => Some(m),
                    _ => None,
                }
            }
            Op::Versions(d, names) => match res {
                Res::Vers(rows) => same(*rows == self.version_rows(d, names)),
                _ => None,
            },
            Op::CreateFn(d, n, repl, k) => {
                let old = self.fn_id(*d, n);
                match res {
                    Res::Fk => same(!self.dbs.contains_key(d)),
                    Res::Unique => same(old.is_some() && !repl),
                    Res::Id(i) if self.dbs.contains_key(d) => match old {
                        Some(o) if *repl && o == *i => {
                            m.funcs.insert(*i, (*d, n.clone(), *k));
                            Some(m)
                        }
                        None if !self.funcs.contains_key(i) => {
                            m.funcs.insert(*i, (*d, n.clone(), *k));
                            Some(m)
                        }
                        _ => None,
                    },
                    _ => None,
                }
            }
            Op::Fns(d) => match res {
                Res::Funcs(rows) => same(*rows == self.func_rows(*d)),
                _ => None,
            },
            Op::DropFn(d, ns) => {
                let ids: BTreeSet<i64> = ns.iter().filter_map(|n| self.fn_id(*d, n)).collect();
                let all = ns.iter().all(|n| self.fn_id(*d, n).is_some());
                match res {
                    // some or all are missing: an error without effect is fine; success then means the rest are gone
                    Res::NotFound => same(!all || ns.is_empty()),
                    Res::Unit if !ids.is_empty() || ns.is_empty() => {
                        ids.iter().for_each(|i| {
                            m.funcs.remove(i);
                        });
                        Some(m)
                    }
                    _ => None,
                }
            }
        }
    }

    /// contents by name, without identifiers
    pub fn view(&self) -> Vec<String> {
        let mut out = vec![];
        for (di, dn) in &self.dbs {
            out.push(format!("db {dn:?}"));
            for (fi, (d, n, k)) in &self.funcs {
                let _ = fi;
                if d == di {
                    out.push(format!("fn {dn:?}.{n:?} {:?}", details_row(*k)));
                }
            }
            for (ci, (d, cn)) in &self.cols {
                if d != di {
                    continue;
                }
                out.push(format!("col {dn:?}.{cn:?}"));
                for (ti, t) in &self.tables {
                    if t.col != *ci {
                        continue;
                    }
                    let nums: Vec<i64> = self.versions.iter().filter(|(_, (x, _))| x == ti).map(|(_, (_, n))| *n).collect();
                    out.push(format!("table {dn:?}.{cn:?}.{:?} {:032x} versions {nums:?}", t.name, t.uuid));
                    for (n, ty) in col_rows(t.schema) {
                        out.push(format!("column {dn:?}.{cn:?}.{:?} {n:?} {ty}", t.name));
                    }
                }
            }
        }
        sorted(out)
    }
}

/// what the catalogue shows, in the same form as Model::view
pub async fn real_view(repo: &dyn Repository, db_names: &[String]) -> Result<Vec<String>, String> {
    let mut out = vec![];
    for dn in db_names {
        let rec = match repo.get_database(dn).await {
            Ok(r) => r,
            Err(Error::SqlxError(sqlx::Error::RowNotFound)) => continue,
            Err(e) => return Err(e.to_string()),
        };
        out.push(format!("db {dn:?}"));
        for f in repo.get_all_functions_in_database(rec.id).await.map_err(|e| e.to_string())? {
            let row = vec![f.entrypoint, f.language, f.input_types, f.return_type, f.data, f.volatility];
            out.push(format!("fn {dn:?}.{:?} {:?}", f.name, row));
        }
        let rows = repo.list_collections(dn).await.map_err(|e| e.to_string())?;
        let mut versions = repo.get_all_versions(dn, None).await.map_err(|e| e.to_string())?;
        versions.sort_by_key(|v| v.table_version_id);
        let mut seen = BTreeSet::new();
        for r in rows {
            if seen.insert((r.collection_name.clone(), None)) {
                out.push(format!("col {dn:?}.{:?}", r.collection_name));
            }
            if let Some(t) = &r.table_name {
                if seen.insert((r.collection_name.clone(), Some(t.clone()))) {
                    let nums: Vec<i64> = versions.iter().filter(|v| v.collection_name == r.collection_name && v.table_name == *t).map(|v| v.version).collect();
                    out.push(format!("table {dn:?}.{:?}.{t:?} {:032x} versions {nums:?}", r.collection_name, r.table_uuid.map(|u| u.as_u128()).unwrap_or(0)));
                }
                if let (Some(n), Some(ty)) = (&r.column_name, &r.column_type) {
                    let ty = decode_field(ty).map(|f| canon_field(&f)).unwrap_or_else(|e| format!("undecodable {ty}: {e}"));
                    out.push(format!("column {dn:?}.{:?}.{t:?} {n:?} {ty}", r.collection_name));
                }
            }
        }
    }
    Ok(sorted(out))
}

pub fn classify(e: Error) -> Res {
    match e {
        Error::UniqueConstraintViolation(_) => Res::Unique,
        Error::FKConstraintViolation(_) => Res::Fk,
        Error::SqlxError(sqlx::Error::RowNotFound) => Res::NotFound,
        Error::SqlxError(sqlx::Error::PoolTimedOut) => Res::Busy,
        Error::SqlxError(sqlx::Error::Database(d)) if d.message().contains("locked") || d.message().contains("busy") => Res::Busy,
        e => Res::Other(e.to_string()),
    }
}

pub async fn run(repo: &dyn Repository, op: &Op) -> Res {
    fn fin<T>(r: Result<T, Error>, f: impl FnOnce(T) -> Res) -> Res {
        match r {
            Ok(v) => f(v),
            Err(e) => classify(e),
        }
    }
    match op {
        Op::CreateDb(n) => fin(repo.create_database(n).await, Res::Id),
        Op::GetDb(n) => fin(repo.get_database(n).await, |r| Res::Rec(r.id, 0, r.name)),
        Op::CreateCol(d, n) => fin(repo.create_collection(*d, n).await, Res::Id),
        Op::GetCol(d, n) => fin(repo.get_collection(d, n).await, |r| Res::Rec(r.id, r.database_id, r.name)),
        Op::CreateTable(c, n, s, u) => fin(repo.create_table(*c, n, &schema(*s), Uuid::from_u128(*u)).await, |(a, b)| Res::Ids(a, b)),
        Op::GetTable(d, c, n) => fin(repo.get_table(d, c, n).await, |r| Res::Rec(r.id, r.collection_id, r.name)),
        Op::Rename(t, n, c) => fin(repo.rename_table(*t, n, *c).await, |_| Res::Unit),
        Op::DelTable(t) => fin(repo.delete_table(*t).await, |_| Res::Unit),
        Op::DelCol(t) => fin(repo.delete_collection(*t).await, |_| Res::Unit),
        Op::DelDb(t) => fin(repo.delete_database(*t).await, |_| Res::Unit),
        Op::List(d) => fin(repo.list_collections(d).await, |mut rows| {
            // the rows of one schema, and of one table in it, come together: a reader groups neighbours
            let mut seen = BTreeSet::new();
            let mut last = None;
            let mut apart = None;
            for r in &rows {
                let k = (r.collection_name.clone(), r.table_name.clone());
                for k in [(k.0.clone(), None), (k.0.clone(), Some(k.1.clone()))] {
                    let same = last.as_ref().map_or(false, |l: &(String, Option<String>)| l.0 == k.0 && (k.1.is_none() || k.1.as_ref() == Some(&l.1)));
                    if !seen.insert(k.clone()) && !same { apart = Some(r.collection_name.clone()); }
                }
                last = Some(k);
            }
            if let (Some(c), Some(r)) = (apart, rows.first_mut()) { r.collection_name = format!("rows of {c} are apart"); }
            Res::Listing(sorted(rows.into_iter().map(|r| {
                let ty = r.column_type.map(|t| decode_field(&t).map(|f| canon_field(&f)).unwrap_or_else(|e| format!("undecodable {t}: {e}")));
                (r.database_name, r.collection_name, r.table_name, r.table_id, r.table_uuid.map(|u| u.as_u128()), r.table_version_id, r.column_name, ty)
            }).collect()))
        }),
        Op::NewVersion(u, v) => fin(repo.create_new_version(Uuid::from_u128(*u), *v).await, Res::Id),
        Op::Prune(t) => fin(repo.delete_old_versions(*t).await, Res::N),
        Op::Versions(d, ns) => fin(repo.get_all_versions(d, ns.clone()).await, |rows| {
            Res::Vers(sorted(rows.into_iter().map(|r| (r.database_name, r.collection_name, r.table_name, r.table_version_id, r.version)).collect()))
        }),
        Op::CreateFn(d, n, r, k) => fin(repo.create_function(*d, n, *r, &details(*k)).await, Res::Id),
        Op::Fns(d) => fin(repo.get_all_functions_in_database(*d).await, |rows| {
            Res::Funcs(sorted(rows.into_iter().map(|f| (f.id, f.name, vec![f.entrypoint, f.language, f.input_types, f.return_type, f.data, f.volatility])).collect()))
        }),
        Op::DropFn(d, ns) => fin(repo.drop_function(*d, ns).await, |_| Res::Unit),
    }
}

pub fn is_write(op: &Op) -> bool {
    !matches!(op, Op::GetDb(_) | Op::GetCol(..) | Op::GetTable(..) | Op::List(_) | Op::Versions(..) | Op::Fns(_))
}
pub fn kind(op: &Op) -> &'static str {
    match op {
        Op::CreateDb(_) => "create_database",
        Op::GetDb(_) => "get_database",
        Op::CreateCol(..) => "create_collection",
        Op::GetCol(..) => "get_collection",
        Op::CreateTable(..) => "create_table",
        Op::GetTable(..) => "get_table",
        Op::Rename(..) => "rename_table",
        Op::DelTable(_) => "delete_table",
        Op::DelCol(_) => "delete_collection",
        Op::DelDb(_) => "delete_database",
        Op::List(_) => "list_collections",
        Op::NewVersion(..) => "create_new_version",
        Op::Prune(_) => "delete_old_versions",
        Op::Versions(..) => "get_all_versions",
        Op::CreateFn(..) => "create_function",
        Op::Fns(_) => "get_all_functions",
        Op::DropFn(..) => "drop_function",
    }
}
pub fn res_kind(r: &Res) -> &'static str {
    match r {
        Res::Unique => "unique", Res::Fk => "fk", Res::NotFound => "notfound", Res::Busy => "busy", Res::Other(_) => "other", _ => "ok",
    }
}

pub const NAMES: &[&str] = &["a", "A", "b", "public", "x y", "", "it's", "\"q\"", "t%_", "день", "$1", "a;drop table x;--", "null"];

#[derive(Clone, Copy, PartialEq)]
pub enum Profile {
    General,
    Versions,
    Functions,
}

/// ids and uuids clients have learnt so far
#[derive(Clone, Debug, Default)]
pub struct Known {
    pub dbs: Vec<i64>,
    pub cols: Vec<i64>,
    pub tables: Vec<i64>,
    pub uuids: Vec<u128>,
}
impl Known {
    pub fn learn(&mut self, op: &Op, res: &Res) {
        match (op, res) {
            (Op::CreateDb(_), Res::Id(i)) => self.dbs.push(*i),
            (Op::CreateCol(..), Res::Id(i)) => self.cols.push(*i),
            (Op::CreateTable(_, _, _, u), Res::Ids(t, _)) => {
                self.tables.push(*t);
                self.uuids.push(*u);
            }
            _ => {}
        }
    }
}
fn id(r: &mut StdRng, xs: &[i64]) -> i64 {
    if xs.is_empty() || chance(r, 0.06) {
        *pick(r, &[-1, 0, 1, 2, 3, 99, i64::MAX])
    } else if chance(r, 0.7) {
        xs[xs.len() - 1 - r.gen_range(0..xs.len().min(4))]
    } else {
        *pick(r, xs)
    }
}
pub fn name(r: &mut StdRng, few: usize) -> String {
    NAMES[r.gen_range(0..few.min(NAMES.len()))].to_string()
}
pub fn gen_op(r: &mut StdRng, k: &Known, p: Profile, few: usize, reads: bool) -> Op {
    let dice: u32 = r.gen_range(0..100);
    let nm = |r: &mut StdRng| name(r, few);
    if k.dbs.is_empty() || dice < 5 {
        return Op::CreateDb(nm(r));
    }
    if k.cols.is_empty() || dice < 12 {
        let d = id(r, &k.dbs);
        return Op::CreateCol(d, nm(r));
    }
    if reads && dice < 37 {
        return match r.gen_range(0..8) {
            0 => Op::GetDb(nm(r)),
            1 => Op::GetCol(nm(r), nm(r)),
            2 => Op::GetTable(nm(r), nm(r), nm(r)),
            3 | 4 => Op::List(nm(r)),
            5 => Op::Versions(nm(r), None),
            6 => {
                let n = r.gen_range(0..4);
                Op::Versions(nm(r), Some((0..n).map(|_| nm(r)).collect()))
            }
            _ => Op::Fns(id(r, &k.dbs)),
        };
    }
    let w: [u32; 9] = match p {
        //                     tab ren dT dC dD ver pru cf df
        Profile::General => [30, 18, 10, 4, 2, 12, 5, 10, 6],
        Profile::Versions => [20, 4, 4, 1, 1, 50, 18, 0, 0],
        Profile::Functions => [1, 0, 0, 0, 3, 0, 0, 60, 35],
    };
    let mut x = r.gen_range(0..w.iter().sum::<u32>());
    let mut which = 0;
    while x >= w[which] {
        x -= w[which];
        which += 1;
    }
    match which {
        0 => Op::CreateTable(id(r, &k.cols), nm(r), *pick(r, &[0, 1, 1, 2, 3, 4, 5]), r.gen()),
        1 => Op::Rename(id(r, &k.tables), nm(r), if chance(r, 0.5) { None } else { Some(id(r, &k.cols)) }),
        2 => Op::DelTable(id(r, &k.tables)),
        3 => Op::DelCol(id(r, &k.cols)),
        4 => Op::DelDb(id(r, &k.dbs)),
        5 => Op::NewVersion(if k.uuids.is_empty() || chance(r, 0.05) { r.gen() } else { k.uuids[k.uuids.len() - 1 - r.gen_range(0..k.uuids.len().min(4))] }, *pick(r, &[0, 1, 2, 3, 7, 1000, i64::MAX, -1])),
        6 => Op::Prune(id(r, &k.tables)),
        7 => Op::CreateFn(id(r, &k.dbs), nm(r), chance(r, 0.5), r.gen_range(0..30)),
        _ => {
            let n = *pick(r, &[1, 1, 2, 2, 3, 4, 0]);
            Op::DropFn(id(r, &k.dbs), (0..n).map(|_| nm(r)).collect())
        }
    }
}
