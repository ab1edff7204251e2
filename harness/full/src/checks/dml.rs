//! C50: statements on tables against a model database
use super::model::*;
use crate::sf::{sql, Sf};
use arrow::array::*;
use arrow::datatypes::{DataType, Float64Type, Int32Type, Int64Type};
use arrow::record_batch::RecordBatch;
use futures::FutureExt;
use seafowl::context::SeafowlContext;
use sfv::rand::rngs::StdRng;
use sfv::rand::Rng;
use sfv::{chance, pick, Ctx};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub fn typed(batches: &[RecordBatch]) -> Vec<Vec<V>> {
    let mut out = vec![];
    for b in batches {
        for i in 0..b.num_rows() {
            out.push(b.columns().iter().map(|c| {
                if c.is_null(i) { return V::Null }
                match c.data_type() {
                    DataType::Int64 => V::I(c.as_primitive::<Int64Type>().value(i)),
                    DataType::Int32 => V::I(c.as_primitive::<Int32Type>().value(i) as i64),
                    DataType::Float64 => V::F(c.as_primitive::<Float64Type>().value(i)),
                    DataType::Utf8 => V::T(c.as_string::<i32>().value(i).to_string()),
                    DataType::LargeUtf8 => V::T(c.as_string::<i64>().value(i).to_string()),
                    DataType::Utf8View => V::T(c.as_string_view().value(i).to_string()),
                    DataType::Boolean => V::B(c.as_boolean().value(i)),
                    t => V::T(format!("<{t}>")),
                }
            }).collect());
        }
    }
    out
}

pub fn shown(rows: &[Vec<V>]) -> Vec<Vec<String>> {
    let mut o: Vec<Vec<String>> = rows.iter().map(|r| r.iter().map(|v| v.show()).collect()).collect();
    o.sort();
    o
}

/// run, with a panic or a hang told apart from an error
pub async fn run(ctx: &SeafowlContext, q: &str) -> Result<Result<Vec<RecordBatch>, String>, String> {
    match tokio::time::timeout(std::time::Duration::from_secs(60), std::panic::AssertUnwindSafe(sql(ctx, q)).catch_unwind()).await {
        Ok(Ok(Ok(b))) => Ok(Ok(b)),
        Ok(Ok(Err(e))) => Ok(Err(e.to_string())),
        Ok(Err(p)) => Err(format!("panic: {} / {}", sfv::panic_text(p), sfv::last_panic_any())),
        Err(_) => Err("no end in 60 s".into()),
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct World { pub tables: Db, pub schemas: BTreeSet<String> }

#[derive(Clone, Debug)]
pub enum Want { Ok(World), Fail, Either(World) }

pub struct Step { pub kind: String, pub sql: String, pub want: Want }

fn colnames(r: &mut StdRng, n: usize) -> Vec<String> {
    let pool = ["a", "b", "c", "d", "Mixed", "sp ace", "é", "dot.ted", "order", "value"];
    let mut out: Vec<String> = vec![];
    while out.len() < n { let c = pick(r, &pool).to_string(); if !out.contains(&c) { out.push(c) } }
    out
}

fn rows(r: &mut StdRng, kinds: &[K], n: usize) -> Vec<Vec<V>> { (0..n).map(|_| kinds.iter().map(|k| value(r, *k)).collect()).collect() }

fn values(rows: &[Vec<V>]) -> String { rows.iter().map(|r| format!("({})", r.iter().map(|v| v.lit()).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(", ") }

fn fresh(r: &mut StdRng, w: &World, n: u64) -> Name {
    let s = pick(r, &w.schemas.iter().cloned().collect::<Vec<_>>()).clone();
    let t = match r.gen_range(0..5) { 0 => format!("T{n}"), 1 => format!("dot.{n}"), 2 => format!("with space {n}"), _ => format!("t{n}") };
    (s, t)
}

/// a name that may be written without its schema
fn write(r: &mut StdRng, n: &Name) -> String {
    let plain = |s: &str| if s.chars().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit()) && s.starts_with(|c: char| c.is_ascii_lowercase()) { s.to_string() } else { ident(s) };
    match r.gen_range(0..4) {
        0 | 1 if n.0 == "public" => if chance(r, 0.5) { plain(&n.1) } else { ident(&n.1) },
        2 => format!("default.{}.{}", plain(&n.0), plain(&n.1)),
        _ => format!("{}.{}", plain(&n.0), plain(&n.1)),
    }
}

pub fn step(r: &mut StdRng, w: &World, serial: u64, maxrows: usize) -> Step {
    let names: Vec<Name> = w.tables.keys().cloned().collect();
    let pick_t = |r: &mut StdRng| pick(r, &names).clone();
    let with = |f: &dyn Fn(&mut World)| { let mut n = w.clone(); f(&mut n); n };
    let roll = if names.is_empty() { r.gen_range(0..2) } else { r.gen_range(0..32) };
    let st = |kind: &str, sql: String, want: Want| Step { kind: kind.into(), sql, want };
    match roll {
        0 => {
            let n = fresh(r, w, serial);
            let nc = r.gen_range(1..5);
            let (cn, ck): (Vec<String>, Vec<K>) = (colnames(r, nc), (0..nc).map(|_| *pick(r, K::all())).collect());
            let ine = chance(r, 0.3);
            let sql = format!("CREATE TABLE {}{} ({})", if ine { "IF NOT EXISTS " } else { "" }, write(r, &n), cn.iter().zip(&ck).map(|(n, k)| format!("{} {}", ident(n), k.sql())).collect::<Vec<_>>().join(", "));
            st("create", sql, Want::Ok(with(&|w| { w.tables.insert(n.clone(), Table { names: cn.clone(), kinds: ck.clone(), rows: vec![] }); })))
        }
        1 | 2 => {
            let n = fresh(r, w, serial);
            if names.is_empty() || chance(r, 0.3) {
                let nc = r.gen_range(1..5);
                let (cn, ck): (Vec<String>, Vec<K>) = (colnames(r, nc), (0..nc).map(|_| *pick(r, K::all())).collect());
                let nr = r.gen_range(1..maxrows);
                let rs = rows(r, &ck, nr);
                let sel = cn.iter().zip(&ck).enumerate().map(|(i, (n, k))| format!("CAST(column{} AS {}) AS {}", i + 1, k.sql(), ident(n))).collect::<Vec<_>>().join(", ");
                let sql = format!("CREATE TABLE {} AS SELECT {sel} FROM (VALUES {}) v", write(r, &n), values(&rs));
                st("ctas-values", sql, Want::Ok(with(&|w| { w.tables.insert(n.clone(), Table { names: cn.clone(), kinds: ck.clone(), rows: rs.clone() }); })))
            } else {
                let src = pick_t(r);
                let t = &w.tables[&src];
                let p = predicate(r, &t.kinds, 2);
                let fails = chance(r, 0.15) && t.kinds.contains(&K::T);
                let nc = r.gen_range(1..4);
                let cn = colnames(r, nc);
                let ck: Vec<K> = (0..nc).map(|_| *pick(r, K::all())).collect();
                let mut xs: Vec<X> = ck.iter().map(|k| scalar(r, &t.kinds, *k, 2)).collect();
                if fails { xs[0] = X::CastInt(Box::new(X::Col(t.kinds.iter().position(|k| *k == K::T).unwrap(), K::T))) }
                let mut ck = ck;
                if fails { ck[0] = K::I }
                let sel = xs.iter().zip(&ck).zip(&cn).map(|((x, k), n)| format!("CAST({} AS {}) AS {}", x.sql(&t.names), k.sql(), ident(n))).collect::<Vec<_>>().join(", ");
                let sql = format!("CREATE TABLE {} AS SELECT {sel} FROM {} WHERE {}", write(r, &n), write(r, &src), p.sql(&t.names));
                let out: Result<Vec<Vec<V>>, String> = t.rows.iter().filter(|row| p.eval(row) == Ok(V::B(true))).map(|row| xs.iter().zip(&ck).map(|(x, k)| fit(x.eval(row)?, *k)).collect()).collect();
                match out {
                    Ok(rs) => st("ctas", sql, Want::Ok(with(&|w| { w.tables.insert(n.clone(), Table { names: cn.clone(), kinds: ck.clone(), rows: rs.clone() }); }))),
                    Err(_) => st("ctas-failing", sql, Want::Fail),
                }
            }
        }
        3..=7 => {
            let n = pick_t(r);
            let t = &w.tables[&n];
            let nr = r.gen_range(1..maxrows);
            if chance(r, 0.4) && t.kinds.len() > 1 {
                use sfv::rand::seq::SliceRandom;
                let mut idx: Vec<usize> = (0..t.kinds.len()).collect();
                idx.shuffle(r);
                idx.truncate(r.gen_range(1..=t.kinds.len()));
                let ks: Vec<K> = idx.iter().map(|i| t.kinds[*i]).collect();
                let rs = rows(r, &ks, nr);
                let sql = format!("INSERT INTO {} ({}) VALUES {}", write(r, &n), idx.iter().map(|i| ident(&t.names[*i])).collect::<Vec<_>>().join(", "), values(&rs));
                st("insert-columns", sql, Want::Ok(with(&|w| { let t = w.tables.get_mut(&n).unwrap(); for row in &rs { let mut new = vec![V::Null; t.kinds.len()]; for (j, i) in idx.iter().enumerate() { new[*i] = row[j].clone() } t.rows.push(new) } })))
            } else {
                let mut rs = rows(r, &t.kinds, nr);
                let bad = chance(r, 0.1).then(|| t.kinds.iter().position(|k| *k == K::N)).flatten();
                if let Some(c) = bad { rs[nr - 1][c] = V::I(5_000_000_000) }
                let sql = format!("INSERT INTO {} VALUES {}", write(r, &n), values(&rs));
                if bad.is_some() { return st("insert-out-of-range", sql, Want::Fail) }
                st("insert", sql, Want::Ok(with(&|w| w.tables.get_mut(&n).unwrap().rows.extend(rs.clone()))))
            }
        }
        8 | 9 => {
            let (n, src) = (pick_t(r), pick_t(r));
            let (t, s) = (&w.tables[&n], &w.tables[&src]);
            let p = predicate(r, &s.kinds, 2);
            let mut xs: Vec<X> = t.kinds.iter().map(|k| scalar(r, &s.kinds, *k, 1)).collect();
            if chance(r, 0.15) { if let (Some(c), Some(i)) = (s.kinds.iter().position(|k| *k == K::T), t.kinds.iter().position(|k| *k == K::I)) { xs[i] = X::CastInt(Box::new(X::Col(c, K::T))) } }
            let sql = format!("INSERT INTO {} SELECT {} FROM {} WHERE {}", write(r, &n), xs.iter().enumerate().map(|(i, x)| format!("{} AS c{i}", x.sql(&s.names))).collect::<Vec<_>>().join(", "), write(r, &src), p.sql(&s.names));
            let out: Result<Vec<Vec<V>>, String> = s.rows.iter().filter(|row| p.eval(row) == Ok(V::B(true))).map(|row| xs.iter().zip(&t.kinds).map(|(x, k)| fit(x.eval(row)?, *k)).collect()).collect();
            match out {
                Ok(rs) => if s.rows.len() > 400 { st("noop", "SELECT 1".into(), Want::Ok(w.clone())) } else { st("insert-select", sql, Want::Ok(with(&|w| w.tables.get_mut(&n).unwrap().rows.extend(rs.clone())))) },
                Err(_) => st("insert-select-failing", sql, Want::Fail),
            }
        }
        10..=14 => {
            let n = pick_t(r);
            let t = &w.tables[&n];
            let cond = chance(r, 0.9).then(|| predicate(r, &t.kinds, 3));
            let k = r.gen_range(1..=t.kinds.len().min(3));
            use sfv::rand::seq::SliceRandom;
            let mut idx: Vec<usize> = (0..t.kinds.len()).collect();
            idx.shuffle(r);
            let set: Vec<(usize, X)> = idx[..k].iter().map(|i| (*i, match (t.kinds[*i], r.gen_range(0..12)) {
                (K::I | K::N, 0) if t.kinds.iter().any(|k| *k == K::I) => X::Div(Box::new(X::Lit(V::I(10), K::I)), Box::new(X::Col(t.kinds.iter().position(|k| *k == K::I).unwrap(), K::I))),
                (K::I | K::N, 1) if t.kinds.contains(&K::T) => X::CastInt(Box::new(X::Col(t.kinds.iter().position(|k| *k == K::T).unwrap(), K::T))),
                (k, 2) => X::Lit(V::Null, k),
                (k, _) => scalar(r, &t.kinds, k, 2),
            })).collect();
            let sql = format!("UPDATE {} SET {}{}", write(r, &n), set.iter().map(|(i, x)| format!("{} = {}", ident(&t.names[*i]), x.sql(&t.names))).collect::<Vec<_>>().join(", "), cond.as_ref().map(|c| format!(" WHERE {}", c.sql(&t.names))).unwrap_or_default());
            let mut new = t.clone();
            match new.update(&set, cond.as_ref()) {
                Ok(_) => st("update", sql, Want::Ok(with(&|w| { w.tables.insert(n.clone(), new.clone()); }))),
                Err(_) => st("update-failing", sql, Want::Fail),
            }
        }
        15..=18 => {
            let n = pick_t(r);
            let t = &w.tables[&n];
            let cond = chance(r, 0.93).then(|| predicate(r, &t.kinds, 3));
            let sql = format!("DELETE FROM {}{}", write(r, &n), cond.as_ref().map(|c| format!(" WHERE {}", c.sql(&t.names))).unwrap_or_default());
            let mut new = t.clone();
            new.delete(cond.as_ref()).unwrap();
            st("delete", sql, Want::Ok(with(&|w| { w.tables.insert(n.clone(), new.clone()); })))
        }
        19 => { let n = pick_t(r); let sql = format!("TRUNCATE TABLE {}", write(r, &n)); st("truncate", sql, Want::Ok(with(&|w| w.tables.get_mut(&n).unwrap().rows.clear()))) }
        20 | 21 => {
            let n = pick_t(r);
            let new = fresh(r, w, serial);
            let sql = format!("ALTER TABLE {} RENAME TO {}", write(r, &n), write(r, &new));
            st("rename", sql, Want::Ok(with(&|w| { let t = w.tables.remove(&n).unwrap(); w.tables.insert(new.clone(), t); })))
        }
        22 => {
            let (n, m) = (pick_t(r), pick_t(r));
            if n == m { return st("create-existing", format!("CREATE TABLE {} (x BIGINT)", write(r, &n)), Want::Fail) }
            st("rename-to-existing", format!("ALTER TABLE {} RENAME TO {}", write(r, &n), write(r, &m)), Want::Fail)
        }
        23 => {
            let n = pick_t(r);
            let ie = chance(r, 0.4);
            let sql = format!("DROP TABLE {}{}", if ie { "IF EXISTS " } else { "" }, write(r, &n));
            st("drop", sql, Want::Ok(with(&|w| { w.tables.remove(&n); })))
        }
        24 => {
            let n = pick_t(r);
            let x = write(r, &n);
            match r.gen_range(0..5) {
                0 => st("create-if-not-exists-existing", format!("CREATE TABLE IF NOT EXISTS {x} (other TEXT)"), Want::Ok(w.clone())),
                1 => st("ctas-if-not-exists-existing", format!("CREATE TABLE IF NOT EXISTS {x} AS SELECT 1 AS one"), Want::Ok(w.clone())),
                2 => st("create-existing", format!("CREATE TABLE {x} (other TEXT)"), Want::Fail),
                3 => st("ctas-existing", format!("CREATE TABLE {x} AS SELECT 1 AS one"), Want::Fail),
                // replacing is not supported: anything but a refusal must have replaced it
                _ => st("create-or-replace", format!("CREATE OR REPLACE TABLE {x} AS SELECT CAST(7 AS BIGINT) AS one"), Want::Either(with(&|w| { w.tables.insert(n.clone(), Table { names: vec!["one".into()], kinds: vec![K::I], rows: vec![vec![V::I(7)]] }); }))),
            }
        }
        25 => {
            let s = pick(r, &["s1", "s2", "Mixed Schema"]).to_string();
            let there = w.schemas.contains(&s);
            match r.gen_range(0..4) {
                0 if !there => st("create-schema", format!("CREATE SCHEMA {}", ident(&s)), Want::Ok(with(&|w| { w.schemas.insert(s.clone()); }))),
                0 => st("create-schema-existing", format!("CREATE SCHEMA {}", ident(&s)), Want::Fail),
                1 => st("create-schema-if-not-exists", format!("CREATE SCHEMA IF NOT EXISTS {}", ident(&s)), Want::Ok(with(&|w| { w.schemas.insert(s.clone()); }))),
                2 if there => st("drop-schema", format!("DROP SCHEMA {} CASCADE", ident(&s)), Want::Ok(with(&|w| { w.schemas.remove(&s); w.tables.retain(|n, _| n.0 != s); }))),
                2 => st("drop-schema-missing", format!("DROP SCHEMA {}", ident(&s)), Want::Fail),
                _ if there => st("noop", "SELECT 1".into(), Want::Ok(w.clone())),
                _ => st("drop-schema-if-exists", format!("DROP SCHEMA IF EXISTS {}", ident(&s)), Want::Ok(w.clone())),
            }
        }
        26 => {
            let n = pick_t(r);
            let t = &w.tables[&n];
            let x = write(r, &n);
            let c0 = ident(&t.names[0]);
            let all: Vec<(&str, String)> = vec![
                ("unknown-column-update", format!("UPDATE {x} SET nope = 1")),
                ("unknown-column-where", format!("UPDATE {x} SET {c0} = NULL WHERE nope = 1")),
                ("unknown-column-delete", format!("DELETE FROM {x} WHERE nope = 1")),
                ("unknown-column-insert", format!("INSERT INTO {x} (nope) VALUES (1)")),
                ("too-many-values", format!("INSERT INTO {x} VALUES ({})", vec!["NULL"; t.kinds.len() + 1].join(", "))),
                ("duplicate-insert-column", format!("INSERT INTO {x} ({c0}, {c0}) VALUES (NULL, NULL)")),
                ("duplicate-create-column", "CREATE TABLE duplicated (a BIGINT, a TEXT)".into()),
                ("missing-table-insert", "INSERT INTO missing_table VALUES (1)".into()),
                ("missing-table-update", "UPDATE missing_table SET a = 1".into()),
                ("missing-table-delete", "DELETE FROM missing_table".into()),
                ("missing-table-truncate", "TRUNCATE TABLE missing_table".into()),
                ("missing-table-drop", "DROP TABLE missing_table".into()),
                ("missing-table-rename", "ALTER TABLE missing_table RENAME TO other_missing".into()),
                ("missing-schema-create", "CREATE TABLE no_schema.t (a BIGINT)".into()),
                ("missing-schema-ctas", "CREATE TABLE no_schema.t AS SELECT 1 AS a".into()),
                ("missing-schema-rename", format!("ALTER TABLE {x} RENAME TO no_schema.t")),
                ("ctas-missing-source", "CREATE TABLE from_nothing AS SELECT * FROM missing_table".into()),
                ("ctas-divide", format!("CREATE TABLE from_nothing AS SELECT CAST('x' || {} AS BIGINT) AS v FROM (VALUES (1), (2)) t", "CAST(column1 AS TEXT)")),
                ("insert-divide", format!("INSERT INTO {x} ({c0}) SELECT CAST(CAST('q' || column1 AS BIGINT) AS {}) FROM (VALUES ('1'), ('2')) t", t.kinds[0].sql())),
            ];
            let (k, q) = pick(r, &all).clone();
            st(k, q, Want::Fail)
        }
        27 => {
            // forms that may be refused, but do what they say if they are not
            let n = pick_t(r);
            let t = &w.tables[&n];
            let x = write(r, &n);
            let c0 = ident(&t.names[0]);
            let one = Table { names: t.names.clone(), kinds: t.kinds.clone(), rows: vec![vec![V::Null; t.kinds.len()]] };
            let nulls = vec!["NULL"; t.kinds.len()].join(", ");
            let put = |t: Table| with(&|w| { w.tables.insert(n.clone(), t.clone()); });
            match r.gen_range(0..14) {
                0 => st("insert-overwrite", format!("INSERT OVERWRITE {x} VALUES ({nulls})"), Want::Either(put(one))),
                1 => st("replace-into", format!("REPLACE INTO {x} VALUES ({nulls})"), Want::Fail),
                2 => st("delete-in-self", format!("DELETE FROM {x} WHERE {c0} IN (SELECT {c0} FROM {x})"), Want::Either(put(Table { rows: t.rows.iter().filter(|r| r[0] == V::Null).cloned().collect(), ..t.clone() }))),
                3 => st("delete-in-empty", format!("DELETE FROM {x} WHERE {c0} IN (SELECT {c0} FROM {x} WHERE false)"), Want::Either(w.clone())),
                4 => st("delete-not-in-empty", format!("DELETE FROM {x} WHERE {c0} NOT IN (SELECT {c0} FROM {x} WHERE false)"), Want::Either(put(Table { rows: vec![], ..t.clone() }))),
                5 => st("delete-exists", format!("DELETE FROM {x} WHERE EXISTS (SELECT 1 WHERE false)"), Want::Either(w.clone())),
                6 => st("delete-scalar", format!("DELETE FROM {x} WHERE (SELECT 1) = 2"), Want::Either(w.clone())),
                7 => st("update-in-empty", format!("UPDATE {x} SET {c0} = NULL WHERE {c0} IN (SELECT {c0} FROM {x} WHERE false)"), Want::Either(w.clone())),
                8 => { let k = t.kinds[0]; if matches!(k, K::I) { let m = t.rows.iter().filter_map(|r| if let V::I(i) = r[0] { Some(i) } else { None }).max(); st("update-scalar", format!("UPDATE {x} SET {c0} = (SELECT max({c0}) FROM {x})"), Want::Either(put(Table { rows: t.rows.iter().map(|r| { let mut r = r.clone(); r[0] = m.map(V::I).unwrap_or(V::Null); r }).collect(), ..t.clone() }))) } else { st("noop", "SELECT 1".into(), Want::Ok(w.clone())) } }
                9 => st("delete-limit", format!("DELETE FROM {x} LIMIT 0"), Want::Either(w.clone())),
                10 => st("delete-using", format!("DELETE FROM {x} USING (SELECT 1 AS z WHERE false) q"), Want::Either(w.clone())),
                11 => st("delete-alias", format!("DELETE FROM {x} AS al WHERE al.{c0} IS NULL"), Want::Either(put(Table { rows: t.rows.iter().filter(|r| r[0] != V::Null).cloned().collect(), ..t.clone() }))),
                12 => st("update-alias", format!("UPDATE {x} AS al SET {c0} = NULL WHERE al.{c0} IS NULL"), Want::Either(w.clone())),
                _ => st("insert-returning", format!("INSERT INTO {x} VALUES ({nulls}) RETURNING *"), Want::Either(put({ let mut t2 = t.clone(); t2.rows.push(vec![V::Null; t.kinds.len()]); t2 }))),
            }
        }
        28 => {
            // the same expression twice, so that the planner shares it
            let n = pick_t(r);
            let t = &w.tables[&n];
            let Some(c) = t.kinds.iter().position(|k| *k == K::I) else { return st("noop", "SELECT 1".into(), Want::Ok(w.clone())) };
            let e = X::Arith(*pick(r, &['+', '*', '-']), Box::new(X::Col(c, K::I)), Box::new(X::Lit(V::I(r.gen_range(1..4)), K::I)));
            let (lo, hi) = (r.gen_range(-8..4), r.gen_range(-2..9));
            let p = X::And(Box::new(X::Cmp(">", Box::new(e.clone()), Box::new(X::Lit(V::I(lo), K::I)))), Box::new(X::Cmp("<", Box::new(e.clone()), Box::new(X::Lit(V::I(hi), K::I)))));
            let mut new = t.clone();
            if chance(r, 0.5) {
                new.delete(Some(&p)).unwrap();
                st("delete-shared", format!("DELETE FROM {} WHERE {}", write(r, &n), p.sql(&t.names)), Want::Ok(with(&|w| { w.tables.insert(n.clone(), new.clone()); })))
            } else {
                new.update(&[(c, e.clone())], Some(&p)).unwrap();
                st("update-shared", format!("UPDATE {} SET {} = {} WHERE {}", write(r, &n), ident(&t.names[c]), e.sql(&t.names), p.sql(&t.names)), Want::Ok(with(&|w| { w.tables.insert(n.clone(), new.clone()); })))
            }
        }
        29 => { let n = pick_t(r); let q = match r.gen_range(0..2) { 0 => format!("VACUUM TABLE {}", write(r, &n)), _ => "VACUUM DATABASE default".into() }; st("vacuum", q, Want::Ok(w.clone())) }
        30 => st("drop-if-exists-missing", "DROP TABLE IF EXISTS missing_table".into(), Want::Ok(w.clone())),
        _ => {
            let n = pick_t(r);
            let t = &w.tables[&n];
            let p = predicate(r, &t.kinds, 2);
            let sql = format!("SELECT * FROM {} WHERE {}", write(r, &n), p.sql(&t.names));
            st("select", sql, Want::Ok(w.clone()))
        }
    }
}

/// the first difference between the tables and what they should be
pub async fn compare(ctx: &SeafowlContext, w: &World, only: Option<&Name>) -> Option<(String, String)> {
    for (n, t) in &w.tables {
        if only.is_some_and(|o| o != n) { continue }
        match run(ctx, &format!("SELECT * FROM {}", full(n))).await {
            Ok(Ok(b)) => {
                if let Some(b) = b.first() {
                    let got: Vec<&String> = b.schema_ref().fields().iter().map(|f| f.name()).collect();
                    if !got.iter().copied().eq(t.names.iter()) { return Some(("columns".into(), format!("{n:?} has columns {got:?}, expected {:?}", t.names))) }
                }
                let (got, want) = (shown(&typed(&b)), t.shown());
                if got != want {
                    let extra: Vec<_> = diff(&got, &want);
                    let missing: Vec<_> = diff(&want, &got);
                    return Some(("rows".into(), format!("{n:?} {:?}: {} rows, expected {}; not expected: {:?}; missing: {:?}", t.names, got.len(), want.len(), &extra[..extra.len().min(6)], &missing[..missing.len().min(6)])));
                }
            }
            Ok(Err(e)) => return Some(("unreadable".into(), format!("{n:?}: {e}"))),
            Err(e) => return Some(("panic".into(), format!("{n:?}: {e}"))),
        }
    }
    None
}

pub fn diff(a: &[Vec<String>], b: &[Vec<String>]) -> Vec<Vec<String>> {
    let mut left: BTreeMap<&Vec<String>, i64> = BTreeMap::new();
    for x in b { *left.entry(x).or_default() += 1 }
    let mut out = vec![];
    for x in a { let e = left.entry(x).or_default(); if *e > 0 { *e -= 1 } else { out.push(x.clone()) } }
    out
}

pub async fn listed(ctx: &SeafowlContext) -> Result<(BTreeSet<Name>, Vec<String>), String> {
    let t = run(ctx, "SELECT table_schema, table_name FROM information_schema.tables WHERE table_catalog = 'default' AND table_type = 'BASE TABLE'").await?.map_err(|e| e.to_string())?;
    Ok((typed(&t).into_iter().filter_map(|r| match (&r[0], &r[1]) { (V::T(a), V::T(b)) if a != "system" && a != "information_schema" => Some((a.clone(), b.clone())), _ => None }).collect(), vec![]))
}

pub fn c50(ctx: &Ctx) {
    ctx.rule("one evaluation = one statement whose outcome and every table after it were compared with the model; distinct by (kind of statement, outcome, size class of the table)");
    let rt = super::rt(4);
    rt.block_on(async {
        let mut r = ctx.rng("big");
        for _ in 0..ctx.n(3, 60) { if ctx.out_of_time() { break } big(ctx, &mut r).await }
        let mut r = ctx.rng("constrained");
        for _ in 0..ctx.n(10, 300) { if ctx.out_of_time() { break } constrained(ctx, &mut r).await }
        let mut r = ctx.rng("dml");
        for round in 0..ctx.n(60, 3000) {
            if ctx.out_of_time() { break }
            let part = *pick(&mut r, &[1usize, 2, 3, 7, 1000]);
            let extra = format!("[misc]\nmax_partition_size = {part}");
            let sf = if round % 3 == 0 { Sf::disk(&extra).await } else { Sf::memory(&extra).await };
            let mut w = World { schemas: ["public".to_string()].into(), ..Default::default() };
            let mut trace: Vec<String> = vec![];
            for serial in 0..r.gen_range(15..40u64) {
                let s = step(&mut r, &w, serial, if part == 1000 { 40 } else { 8 });
                let before = w.clone();
                let out = run(&sf.ctx, &s.sql).await;
                trace.push(format!("{}  -- {}", s.sql, match &out { Ok(Ok(_)) => "ok".to_string(), Ok(Err(e)) => format!("error {}", e.lines().next().unwrap_or("").chars().take(160).collect::<String>()), Err(e) => e.clone() }));
                let story = |what: String| format!("{what}\nmax_partition_size {part}\n{}", trace.join("\n"));
                let verdict = match (&out, &s.want) {
                    (Err(e), _) => { ctx.violation(&format!("{}/panic", s.kind), &story(e.clone())); break }
                    (Ok(Ok(_)), Want::Ok(n) | Want::Either(n)) => { w = n.clone(); "done" }
                    (Ok(Ok(_)), Want::Fail) => { ctx.violation(&format!("{}/accepted", s.kind), &story("a statement that must fail was accepted".into())); break }
                    (Ok(Err(e)), Want::Ok(_)) => { ctx.violation(&format!("{}/refused", s.kind), &story(e.clone())); break }
                    (Ok(Err(_)), _) => "failed",
                };
                ctx.eval(&format!("{}/{verdict}/{}", s.kind, w.tables.values().map(|t| t.rows.len()).max().unwrap_or(0).min(30) / 10), true);
                ctx.seen("outcomes", &format!("{}/{verdict}", s.kind));
                if s.kind == "select" {
                    if let Ok(Ok(b)) = &out {
                        // the predicate is read back from the model by construction: recompute it
                        let _ = b;
                    }
                }
                if let Some((sig, m)) = compare(&sf.ctx, &w, None).await {
                    ctx.violation(&format!("{}/{verdict}/{sig}", s.kind), &story(m));
                    break;
                }
                match listed(&sf.ctx).await {
                    Ok((l, _)) => { let want: BTreeSet<Name> = w.tables.keys().cloned().collect(); if l != want { ctx.violation(&format!("{}/{verdict}/listing", s.kind), &story(format!("tables listed {l:?}, expected {want:?}"))); break } }
                    Err(e) => { ctx.violation("listing/failed", &story(e)); break }
                }
                ctx.count("rows_compared", w.tables.values().map(|t| t.rows.len() as u64).sum());
                if before != w { ctx.count("statements_with_effect", 1) }
                // reads with a condition, which may skip files
                if !w.tables.is_empty() && chance(&mut r, 0.3) {
                    let names: Vec<Name> = w.tables.keys().cloned().collect();
                    let n = pick(&mut r, &names).clone();
                    let t = &w.tables[&n];
                    let p = predicate(&mut r, &t.kinds, 2);
                    let q = format!("SELECT * FROM {} WHERE {}", full(&n), p.sql(&t.names));
                    let want = shown(&t.rows.iter().filter(|row| p.eval(row) == Ok(V::B(true))).cloned().collect::<Vec<_>>());
                    ctx.eval(&format!("filtered/{}", want.len().min(5)), true);
                    match run(&sf.ctx, &q).await {
                        Ok(Ok(b)) => if shown(&typed(&b)) != want { ctx.violation("select/rows", &story(format!("{q}: {:?}, expected {want:?}", shown(&typed(&b))))) },
                        Ok(Err(e)) => ctx.violation("select/refused", &story(format!("{q}: {e}"))),
                        Err(e) => ctx.violation("select/panic", &story(format!("{q}: {e}"))),
                    }
                }
            }
            if round % 3 == 0 { replica(ctx, &mut r, &sf, &w, part).await }
        }
    });
}

/// a server whose catalogue is a read-only replica: it reads everything, and what it refuses to do it hasn't half done
async fn replica(ctx: &Ctx, r: &mut StdRng, sf: &Sf, w: &World, part: usize) {
    let text = format!("[object_store]\ntype = \"local\"\ndata_dir = \"{0}/data\"\n[catalog]\ntype = \"sqlite\"\ndsn = \"{0}/seafowl.sqlite\"\nread_only = true\n[misc]\nmax_partition_size = {part}\n", sf.dir.display());
    let ro = Sf::with(&text, &sf.dir).await;
    if let Some((sig, m)) = compare(&ro.ctx, w, None).await { ctx.violation(&format!("replica/{sig}"), &m) }
    for serial in 0..8u64 {
        let s = step(r, w, 1000 + serial, 8);
        let changes = matches!(&s.want, Want::Ok(n) if n != w);
        let before = sf.state().await;
        let out = run(&ro.ctx, &s.sql).await;
        let what = format!("{}: {:?}", s.sql, out.as_ref().map(|o| o.as_ref().map(|_| "ok")));
        if out.is_err() { ctx.violation("replica/panic", &what) }
        if changes && matches!(out, Ok(Ok(_))) { ctx.violation(&format!("replica/{}-accepted", s.kind), &what) }
        if let Some((sig, m)) = compare(&sf.ctx, w, None).await { ctx.violation(&format!("replica/{}/{sig}", s.kind), &format!("{what}\nafter which the tables aren't as they were: {m}")); break }
        let after = sf.state().await;
        if changes && after != before { let d: Vec<&String> = after.keys().filter(|k| before.get(*k) != after.get(*k)).chain(before.keys().filter(|k| !after.contains_key(*k))).take(5).collect(); ctx.violation(&format!("replica/{}-changed", s.kind), &format!("{what}\n{d:?}")); break }
        ctx.count("refused_on_a_replica", changes as u64);
        ctx.eval(&format!("replica/{}", s.kind), changes);
    }
    ro.into_kept();
}

/// a table long enough for its files to have several pages and row groups, changed by range
async fn big(ctx: &Ctx, r: &mut StdRng) {
    let part = *pick(r, &[1048576usize, 1048576, 70_000, 9_999]);
    let sf = Sf::memory(&format!("[misc]\nmax_partition_size = {part}")).await;
    let digits = "(VALUES (0),(1),(2),(3),(4),(5),(6),(7),(8),(9)) AS";
    let n: i64 = *pick(r, &[50_000i64, 90_000]);
    let q = format!("CREATE TABLE big AS SELECT i, CASE WHEN (i / 1000) % 3 = 1 THEN NULL ELSE i % 5000 END AS v FROM (SELECT a.x + 10 * b.x + 100 * c.x + 1000 * d.x + 10000 * e.x AS i FROM {digits} a(x) CROSS JOIN {digits} b(x) CROSS JOIN {digits} c(x) CROSS JOIN {digits} d(x) CROSS JOIN {digits} e(x)) t WHERE i < {n} ORDER BY i");
    let mut trace = vec![format!("max_partition_size {part}"), q.clone()];
    if let Err(e) = sf.sql(&q).await { return ctx.violation("big/create", &format!("{e}\n{q}")) }
    let mut rows: Vec<(i64, Option<i64>)> = (0..n).map(|i| (i, if (i / 1000) % 3 == 1 { None } else { Some(i % 5000) })).collect();
    for _ in 0..4 {
        let lo = r.gen_range(-10..n); let hi = lo + r.gen_range(0..30_000); let k = r.gen_range(-1..5000i64);
        let (cond, f): (String, Box<dyn Fn(&(i64, Option<i64>)) -> Option<bool>>) = match r.gen_range(0..6) {
            0 => (format!("i < {lo}"), Box::new(move |x| Some(x.0 < lo))),
            1 => (format!("i BETWEEN {lo} AND {hi}"), Box::new(move |x| Some(x.0 >= lo && x.0 <= hi))),
            2 => (format!("v = {k}"), Box::new(move |x| x.1.map(|v| v == k))),
            3 => (format!("v > {k} AND i >= {lo}"), Box::new(move |x| if x.0 < lo { Some(false) } else { x.1.map(|v| v > k) })),
            4 => ("v IS NULL".into(), Box::new(move |x| Some(x.1.is_none()))),
            _ => (format!("i = {lo} OR v < {}", k / 50), Box::new(move |x| if x.0 == lo { Some(true) } else { x.1.map(|v| v < k / 50) })),
        };
        let (kind, q) = match r.gen_range(0..3) {
            0 => ("delete", format!("DELETE FROM big WHERE {cond}")),
            1 => ("update", format!("UPDATE big SET v = i + 1 WHERE {cond}")),
            _ => ("filter", format!("SELECT i, v FROM big WHERE {cond}")),
        };
        trace.push(q.clone());
        let out = run(&sf.ctx, &q).await;
        let got = match out { Ok(Ok(b)) => b, Ok(Err(e)) => return ctx.violation(&format!("big/{kind}/refused"), &format!("{e}\n{}", trace.join("\n"))), Err(e) => return ctx.violation(&format!("big/{kind}/panic"), &format!("{e}\n{}", trace.join("\n"))) };
        let mut want: Vec<(i64, Option<i64>)> = match kind {
            "delete" => { rows.retain(|x| f(x) != Some(true)); rows.clone() }
            "update" => { for x in rows.iter_mut() { if f(x) == Some(true) { x.1 = Some(x.0 + 1) } } rows.clone() }
            _ => rows.iter().filter(|x| f(x) == Some(true)).cloned().collect(),
        };
        let got = if kind == "filter" { got } else { match sf.sql("SELECT i, v FROM big").await { Ok(b) => b, Err(e) => return ctx.violation(&format!("big/{kind}/unreadable"), &format!("{e}\n{}", trace.join("\n"))) } };
        let mut seen: Vec<(i64, Option<i64>)> = vec![];
        for b in &got {
            let c = |k: usize| datafusion::arrow::compute::cast(b.column(k), &datafusion::arrow::datatypes::DataType::Int64).unwrap();
            let (a, v) = (c(0), c(1));
            let (a, v) = (a.as_any().downcast_ref::<datafusion::arrow::array::Int64Array>().unwrap(), v.as_any().downcast_ref::<datafusion::arrow::array::Int64Array>().unwrap());
            seen.extend(a.iter().zip(v.iter()).map(|(a, v)| (a.unwrap(), v)));
        }
        seen.sort(); want.sort();
        ctx.eval(&format!("big/{kind}/{}", cond.split(' ').nth(1).unwrap_or("")), true);
        ctx.count("rows_compared", want.len() as u64);
        if seen != want {
            let miss = want.iter().find(|x| seen.binary_search(x).is_err());
            let extra = seen.iter().find(|x| want.binary_search(x).is_err());
            return ctx.violation(&format!("big/{kind}/rows"), &format!("{} rows, expected {}; first missing {miss:?}, first unexpected {extra:?}\n{}", seen.len(), want.len(), trace.join("\n")));
        }
    }
}

/// columns that can't be NULL: statements that would put one there fail and change nothing
async fn constrained(ctx: &Ctx, r: &mut StdRng) {
    let part = *pick(r, &[1usize, 2, 1000]);
    let sf = Sf::memory(&format!("[misc]\nmax_partition_size = {part}")).await;
    let mut trace = vec![format!("max_partition_size {part}")];
    for q in ["CREATE TABLE strict (id BIGINT NOT NULL, name TEXT NOT NULL, note TEXT)", "CREATE TABLE loose (id BIGINT, name TEXT, note TEXT)"] {
        trace.push(q.into());
        if let Err(e) = sf.sql(q).await { return ctx.violation("constrained/create", &format!("{e}\n{}", trace.join("\n"))) }
    }
    type Row = (Option<i64>, Option<String>, Option<String>);
    let (mut strict, mut loose): (Vec<Row>, Vec<Row>) = (vec![], vec![]);
    let one = |r: &mut StdRng, nulls: f64| -> Row { (if chance(r, nulls) { None } else { Some(r.gen_range(0..6)) }, if chance(r, nulls) { None } else { Some(pick(r, &["a", "b", ""]).to_string()) }, if chance(r, 0.4) { None } else { Some("n".into()) }) };
    let lit = |x: &Row| format!("({}, {}, {})", x.0.map_or("NULL".into(), |v| v.to_string()), x.1.as_ref().map_or("NULL".into(), |v| format!("'{v}'")), x.2.as_ref().map_or("NULL".into(), |v| format!("'{v}'")));
    for _ in 0..12 {
        let fits = |x: &Row| x.0.is_some() && x.1.is_some();
        let k = r.gen_range(0..6i64);
        let (kind, q, next): (&str, String, Option<(Vec<Row>, Vec<Row>)>) = match r.gen_range(0..8) {
            0 | 1 => { let rows: Vec<Row> = (0..r.gen_range(1..5)).map(|_| one(r, 0.1)).collect(); let mut s = strict.clone(); s.extend(rows.clone()); ("insert", format!("INSERT INTO strict VALUES {}", rows.iter().map(lit).collect::<Vec<_>>().join(", ")), rows.iter().all(fits).then(|| (s, loose.clone()))) }
            2 => { let rows: Vec<Row> = (0..r.gen_range(1..5)).map(|_| one(r, 0.3)).collect(); let mut l = loose.clone(); l.extend(rows.clone()); ("insert-loose", format!("INSERT INTO loose VALUES {}", rows.iter().map(lit).collect::<Vec<_>>().join(", ")), Some((strict.clone(), l))) }
            3 | 4 => { let sel: Vec<Row> = loose.iter().filter(|x| x.0.map_or(false, |v| v >= k) || x.0.is_none()).cloned().collect(); let mut s = strict.clone(); s.extend(sel.clone()); ("insert-select", format!("INSERT INTO strict SELECT * FROM loose WHERE id >= {k} OR id IS NULL"), sel.iter().all(fits).then(|| (s, loose.clone()))) }
            5 => { let bad = strict.iter().any(|x| x.0 == Some(k)); let s = strict.clone(); ("update-null", format!("UPDATE strict SET name = NULL WHERE id = {k}"), (!bad).then(|| (s, loose.clone()))) }
            6 => { let bad = strict.iter().any(|x| x.0 == Some(k) && x.2.is_none()); let s = strict.iter().cloned().map(|mut x| { if x.0 == Some(k) { x.1 = x.2.clone() } x }).collect(); ("update-column", format!("UPDATE strict SET name = note WHERE id = {k}"), (!bad).then(|| (s, loose.clone()))) }
            _ => { let s = strict.iter().filter(|x| x.0 != Some(k)).cloned().collect(); ("delete", format!("DELETE FROM strict WHERE id = {k}"), Some((s, loose.clone()))) }
        };
        let out = run(&sf.ctx, &q).await;
        trace.push(format!("{q}  -- {}", match &out { Ok(Ok(_)) => "ok".to_string(), Ok(Err(e)) => e.lines().next().unwrap_or("").into(), Err(e) => e.clone() }));
        let story = || trace.join("\n");
        match (&out, next) {
            (Err(e), _) => return ctx.violation(&format!("constrained/{kind}/panic"), &format!("{e}\n{}", story())),
            (Ok(Ok(_)), None) => return ctx.violation(&format!("constrained/{kind}/accepted"), &story()),
            // a plan may be refused because it could put a NULL there
            (Ok(Err(_)), Some(_)) if kind.starts_with("update") => (),
            (Ok(Err(e)), Some(_)) => return ctx.violation(&format!("constrained/{kind}/refused"), &format!("{e}\n{}", story())),
            (Ok(Ok(_)), Some((s, l))) => { strict = s; loose = l }
            (Ok(Err(_)), None) => (),
        }
        ctx.eval(&format!("constrained/{kind}/{}", out.as_ref().map_or(false, |x| x.is_ok())), true);
        for (t, model) in [("strict", &strict), ("loose", &loose)] {
            let mut want: Vec<Vec<String>> = model.iter().map(|x| vec![x.0.map_or("NULL".into(), |v| v.to_string()), x.1.clone().map_or("NULL".into(), |v| format!("T{v}")), x.2.clone().map_or("NULL".into(), |v| format!("T{v}"))]).collect();
            want.sort();
            match run(&sf.ctx, &format!("SELECT * FROM {t}")).await {
                Ok(Ok(b)) => { let mut got = shown(&typed(&b)); got.sort(); if got != want { return ctx.violation(&format!("constrained/{kind}/{t}"), &format!("{got:?}, expected {want:?}\n{}", story())) } }
                x => return ctx.violation(&format!("constrained/{kind}/unreadable"), &format!("{t}: {}\n{}", match x { Ok(Err(e)) => e, Err(e) => e, _ => String::new() }, story())),
            }
        }
    }
}
