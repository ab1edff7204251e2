//! C60, C61, C62: replicated changes against a plain map that replays them one by one
use crate::sf::Sf;
use arrow::array::*;
use arrow::datatypes::{DataType, Field, Schema};
use clade::sync::{ColumnDescriptor, ColumnRole};
use deltalake::DeltaTable;
use futures::FutureExt;
use seafowl::sync::{schema::SyncSchema, verif::{squash_batches, SeafowlDataSyncWriter}, LakehouseSyncTarget};
use sfv::{chance, pick, rand::{rngs::StdRng, seq::SliceRandom, Rng}, Ctx};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::AssertUnwindSafe;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub(super) enum V { Null, I(i64), S(String), F(u64), B(bool) }
pub(super) type Row = Vec<V>;
/// key to the values of every value column of the table
pub(super) type Map = BTreeMap<Row, Row>;

#[derive(Clone, Debug)]
pub(super) struct Shape { pub(super) pks: Vec<(String, DataType)>, pub(super) vals: Vec<(String, DataType)> }

/// what one message carries: which value columns, and which of them with a flag
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub(super) struct Cols { vals: Vec<usize>, flags: BTreeSet<usize>, order: u64, names: u64 }

#[derive(Clone, Debug)]
pub(super) struct Change { old: Option<Row>, new: Option<Row>, vals: BTreeMap<usize, (V, bool)> }

fn value(r: &mut StdRng, ty: &DataType) -> V {
    match ty {
        DataType::Utf8 => V::S(pick(r, &["", "a", "b", "Z", "é", "null", "a b", "'"]).to_string() + &r.gen_range(0..50).to_string()),
        DataType::Float64 => V::F(r.gen_range(0..40)),
        DataType::Boolean => V::B(r.gen()),
        _ => V::I(r.gen_range(-3..60)),
    }
}
/// distinct owners have distinct keys
fn key(r: &mut StdRng, s: &Shape, spread: i64, owner: i64) -> Row {
    let mut k = any_key(r, s, spread);
    if owner > 0 { k[0] = match &k[0] { V::I(i) => V::I(i + owner * 1000), V::S(s) => V::S(format!("{s}-{owner}")), v => v.clone() } }
    k
}
fn any_key(r: &mut StdRng, s: &Shape, spread: i64) -> Row {
    s.pks.iter().map(|(n, t)| match t { DataType::Utf8 => V::S(if n.len() == 1 { format!("{}{:03}", "a long common prefix ".repeat(6), r.gen_range(0..spread)) } else { format!("k{:03}", r.gen_range(0..spread)) }), _ => V::I(r.gen_range(0..spread)) }).collect()
}
fn array(ty: &DataType, v: &[V]) -> ArrayRef {
    let i = |x: &V| match x { V::I(i) => Some(*i), _ => None };
    match ty {
        DataType::Utf8 => Arc::new(StringArray::from_iter(v.iter().map(|x| match x { V::S(s) => Some(s.clone()), _ => None }))),
        DataType::Float64 => Arc::new(Float64Array::from_iter(v.iter().map(|x| match x { V::F(f) => Some(*f as f64 / 4.0), _ => None }))),
        DataType::Boolean => Arc::new(BooleanArray::from_iter(v.iter().map(|x| match x { V::B(b) => Some(*b), _ => None }))),
        DataType::Int32 => Arc::new(Int32Array::from_iter(v.iter().map(|x| i(x).map(|i| i as i32)))),
        DataType::Int16 => Arc::new(Int16Array::from_iter(v.iter().map(|x| i(x).map(|i| i as i16)))),
        DataType::Int64 => Arc::new(Int64Array::from_iter(v.iter().map(i))),
        DataType::Date32 => Arc::new(Date32Array::from_iter(v.iter().map(|x| i(x).map(|i| i as i32)))),
        DataType::Timestamp(_, _) => Arc::new(TimestampMicrosecondArray::from_iter(v.iter().map(|x| i(x).map(|i| i * 1_000_001)))),
        DataType::Decimal128(p, q) => Arc::new(Decimal128Array::from_iter(v.iter().map(|x| i(x).map(|i| i as i128))).with_precision_and_scale(*p, *q).unwrap()),
        t => panic!("{t}"),
    }
}
fn cell(a: &ArrayRef, row: usize) -> V {
    if a.is_null(row) { return V::Null }
    match a.data_type() {
        DataType::Utf8 => V::S(a.as_any().downcast_ref::<StringArray>().unwrap().value(row).to_string()),
        DataType::LargeUtf8 => V::S(a.as_any().downcast_ref::<LargeStringArray>().unwrap().value(row).to_string()),
        DataType::Utf8View => V::S(a.as_any().downcast_ref::<StringViewArray>().unwrap().value(row).to_string()),
        DataType::Float64 => V::F((a.as_any().downcast_ref::<Float64Array>().unwrap().value(row) * 4.0) as u64),
        DataType::Boolean => V::B(a.as_any().downcast_ref::<BooleanArray>().unwrap().value(row)),
        DataType::Int32 => V::I(a.as_any().downcast_ref::<Int32Array>().unwrap().value(row) as i64),
        DataType::Int16 => V::I(a.as_any().downcast_ref::<Int16Array>().unwrap().value(row) as i64),
        DataType::Int64 => V::I(a.as_any().downcast_ref::<Int64Array>().unwrap().value(row)),
        DataType::Date32 => V::I(a.as_any().downcast_ref::<Date32Array>().unwrap().value(row) as i64),
        DataType::Timestamp(_, _) => V::I(a.as_any().downcast_ref::<TimestampMicrosecondArray>().unwrap().value(row) / 1_000_001),
        DataType::Decimal128(_, _) => V::I(a.as_any().downcast_ref::<Decimal128Array>().unwrap().value(row) as i64),
        t => panic!("{t}"),
    }
}

pub(super) fn shape(r: &mut StdRng) -> Shape {
    let npk = *pick(r, &[1usize, 1, 2, 2, 3]);
    let ts = DataType::Timestamp(arrow::datatypes::TimeUnit::Microsecond, None);
    let pts = [DataType::Int32, DataType::Int64, DataType::Utf8, DataType::Utf8, DataType::Int16, DataType::Date32, ts.clone(), DataType::Decimal128(12, 2)];
    let vts = [DataType::Date32, ts, DataType::Decimal128(20, 3), DataType::Int32, DataType::Int64, DataType::Utf8, DataType::Float64, DataType::Boolean];
    let mut names: Vec<&str> = vec!["c1", "c2", "c3", "c4", "c5", "c6", "key", "value", "upsert_", "z", "y"];
    names.shuffle(r);
    let nv = r.gen_range(1..=4);
    Shape {
        pks: names[..npk].iter().map(|n| (n.to_string(), pick(r, &pts).clone())).collect(),
        vals: names[npk..npk + nv].iter().map(|n| (n.to_string(), pick(r, &vts).clone())).collect(),
    }
}

/// the columns of a message in the order its fields have
fn fields(s: &Shape, c: &Cols) -> Vec<(ColumnRole, usize, String, String, DataType)> {
    let mut out = vec![];
    for (i, (n, t)) in s.pks.iter().enumerate() {
        out.push((ColumnRole::OldPk, i, n.clone(), format!("old_{n}"), t.clone()));
        out.push((ColumnRole::NewPk, i, n.clone(), if c.names % 2 == 0 { format!("new_{n}") } else { n.clone() }, t.clone()));
    }
    for &v in &c.vals {
        let (n, t) = &s.vals[v];
        if c.flags.contains(&v) { out.push((ColumnRole::Changed, v, n.clone(), format!("changed_{n}"), DataType::Boolean)) }
        out.push((ColumnRole::Value, v, n.clone(), if c.names % 3 == 0 { n.clone() } else { format!("value_{n}") }, t.clone()));
    }
    use sfv::rand::SeedableRng;
    if c.order % 2 == 1 { out.shuffle(&mut StdRng::seed_from_u64(c.order)) }
    out
}
pub(super) fn sync_schema(s: &Shape, c: &Cols) -> Result<SyncSchema, String> {
    let f = fields(s, c);
    let d = f.iter().map(|(role, _, n, _, _)| ColumnDescriptor { role: *role as i32, name: n.clone() }).collect();
    SyncSchema::try_new(d, arrow_schema(s, c), true).map_err(|e| e.to_string())
}
fn arrow_schema(s: &Shape, c: &Cols) -> Arc<Schema> {
    Arc::new(Schema::new(fields(s, c).into_iter().map(|(role, _, _, f, t)| Field::new(f, t, role != ColumnRole::Changed)).collect::<Vec<_>>()))
}
pub(super) fn batch(s: &Shape, c: &Cols, rows: &[Change]) -> RecordBatch {
    let cols = fields(s, c).into_iter().map(|(role, i, _, _, t)| {
        let pick = |k: &Option<Row>| k.as_ref().map(|k| k[i].clone()).unwrap_or(V::Null);
        let v: Vec<V> = rows.iter().map(|x| match role {
            ColumnRole::OldPk => pick(&x.old),
            ColumnRole::NewPk => pick(&x.new),
            ColumnRole::Changed => V::B(x.vals[&i].1),
            ColumnRole::Value => x.vals[&i].0.clone(),
        }).collect();
        array(&t, &v)
    }).collect();
    RecordBatch::try_new(arrow_schema(s, c), cols).unwrap()
}
fn read(s: &Shape, c: &Cols, b: &RecordBatch) -> Vec<Change> {
    let f = fields(s, c);
    (0..b.num_rows()).map(|row| {
        let mut old = vec![V::Null; s.pks.len()];
        let mut new = old.clone();
        let mut vals: BTreeMap<usize, (V, bool)> = c.vals.iter().map(|v| (*v, (V::Null, true))).collect();
        for (at, (role, i, _, _, _)) in f.iter().enumerate() {
            let v = cell(b.column(at), row);
            match role {
                ColumnRole::OldPk => old[*i] = v,
                ColumnRole::NewPk => new[*i] = v,
                ColumnRole::Value => vals.get_mut(i).unwrap().0 = v,
                ColumnRole::Changed => vals.get_mut(i).unwrap().1 = v == V::B(true),
            }
        }
        let key = |k: Row| if k.iter().all(|v| *v == V::Null) { None } else { Some(k) };
        Change { old: key(old), new: key(new), vals }
    }).collect()
}

fn after(s: &Shape, before: Option<&Row>, x: &Change) -> Row {
    (0..s.vals.len()).map(|i| match x.vals.get(&i) {
        Some((v, true)) => v.clone(),
        _ => before.map(|b| b[i].clone()).unwrap_or(V::Null),
    }).collect()
}
fn replay(s: &Shape, m: &mut Map, rows: &[Change]) {
    for x in rows {
        let before = x.old.as_ref().and_then(|k| m.remove(k));
        if let Some(k) = &x.new { m.insert(k.clone(), after(s, before.as_ref(), x)); }
    }
}
/// all changes of a set at once
fn apply_set(s: &Shape, m: &Map, rows: &[Change]) -> Map {
    let mut out = m.clone();
    for x in rows { if let Some(k) = &x.old { out.remove(k); } }
    for x in rows {
        if let Some(k) = &x.new { out.insert(k.clone(), after(s, x.old.as_ref().and_then(|k| m.get(k)), x)); }
    }
    out
}

/// What waits to be flushed. A column changed for a row by one kind of message and not by a later one of another kind is lost
/// (a known finding with checks of its own), so the histories made here do without.
#[derive(Default)]
pub(super) struct Queue { movable: Option<BTreeSet<Row>>, before: BTreeMap<Row, BTreeSet<usize>>, now: BTreeMap<Row, BTreeSet<usize>>, kind: Option<Cols>, merged: bool, cols: BTreeSet<usize>, flags: BTreeSet<usize> }
impl Queue {
    fn message(&mut self, c: &Cols) {
        if self.kind.as_ref() == Some(c) { return }
        if let Some(k) = self.kind.take() {
            let new: BTreeSet<usize> = k.vals.iter().copied().collect();
            if !self.merged { self.cols = new.clone() }
            self.merged = true;
            self.flags.extend(k.flags.iter().copied());
            self.flags.extend(self.cols.symmetric_difference(&new).copied().collect::<Vec<_>>());
            self.cols.extend(new);
            for (k, v) in std::mem::take(&mut self.now) { self.before.entry(k).or_default().extend(v) }
        }
        self.kind = Some(c.clone());
    }
    fn allows(&self, k: &Row, c: &Cols) -> bool {
        self.before.get(k).is_none_or(|p| p.iter().all(|v| c.vals.contains(v) || !self.flags.contains(v)))
    }
    fn note(&mut self, x: &Change) {
        let mut had = BTreeSet::new();
        if let Some(o) = &x.old {
            if x.new.as_ref() != Some(o) { if let Some(m) = &mut self.movable { m.remove(o); } self.before.remove(o); self.now.remove(o); } else { had = self.now.remove(o).unwrap_or_default() }
        }
        if let Some(n) = &x.new {
            had.extend(x.vals.iter().filter(|v| v.1.1).map(|v| *v.0));
            self.now.insert(n.clone(), had);
        }
    }
}

/// a message's worth of changes which make sense on a table with contents `m`; advances `m`
pub(super) fn changes(r: &mut StdRng, s: &Shape, c: &Cols, m: &mut Map, n: usize, spread: i64, q: &mut Queue, owner: i64) -> Vec<Change> {
    q.message(c);
    let full = c.vals.len() == s.vals.len();
    let mut out = vec![];
    let mut recent: Vec<Row> = vec![];
    let mut attempts = 0;
    while out.len() < n && attempts < 20 * n {
        attempts += 1;
        let fixed = |k: &Row, q: &Queue| q.movable.as_ref().is_some_and(|m| !m.contains(k));
        let existing = || m.keys().cloned().collect::<Vec<_>>();
        let kind = r.gen_range(0..12);
        let old = if m.is_empty() { None } else if !recent.is_empty() && chance(r, 0.6) && m.contains_key(&recent[recent.len() - 1]) { recent.last().cloned() } else { Some(pick(r, &existing()).clone()) };
        let fresh = |r: &mut StdRng, m: &Map, recent: &[Row]| {
            for _ in 0..20 {
                let k = if !recent.is_empty() && chance(r, 0.4) { pick(r, recent).clone() } else { key(r, s, spread, owner) };
                if !m.contains_key(&k) { return Some(k) }
            }
            None
        };
        // a partial message holds only what changed in rows that exist and stay where they are
        let (old, new) = match (kind, old) {
            (0..=3, _) | (_, None) if full => match fresh(r, m, &recent) { Some(k) => (None, Some(k)), None => continue },
            (_, None) => break,
            (4..=7, Some(o)) if fixed(&o, q) => continue,
            (4..=5, Some(o)) => (Some(o), None),
            (6..=7, Some(o)) if full => {
                // in a key of several columns often only some change
                let mut k = match fresh(r, m, &recent) { Some(k) => k, None => continue };
                if s.pks.len() > 1 && chance(r, 0.6) {
                    for i in 0..k.len() { if chance(r, 0.6) { k[i] = o[i].clone() } }
                    if k != o && m.contains_key(&k) { continue }
                }
                (Some(o), Some(k))
            }
            (_, Some(o)) => {
                if !q.allows(&o, c) { continue }
                (Some(o.clone()), Some(o))
            }
        };
        let whole = old != new; // a new or moved row comes with all it holds
        let forced = old.as_ref().and_then(|k| q.before.get(k)).cloned().unwrap_or_default();
        let vals = c.vals.iter().map(|&v| {
            let flag = whole || forced.contains(&v) || !c.flags.contains(&v) || chance(r, 0.4);
            let ty = &s.vals[v].1;
            let flagged = if new.is_none() && c.flags.contains(&v) { chance(r, 0.5) } else { flag };
            (v, (if chance(r, 0.15) || new.is_none() && chance(r, 0.5) { V::Null } else { value(r, ty) }, flagged))
        }).collect();
        let x = Change { old, new, vals };
        replay(s, m, std::slice::from_ref(&x));
        q.note(&x);
        if let Some(k) = x.new.clone().or(x.old.clone()) { recent.push(k) }
        out.push(x);
    }
    out
}
pub(super) fn columns(r: &mut StdRng, s: &Shape, full: bool) -> Cols {
    let mut vals: Vec<usize> = (0..s.vals.len()).collect();
    if !full { vals.retain(|_| chance(r, 0.6)); }
    let flags = if chance(r, 0.5) { vals.iter().copied().filter(|_| chance(r, 0.5)).collect() } else { BTreeSet::new() };
    Cols { vals, flags, order: r.gen_range(0..6), names: r.gen_range(0..6) }
}
pub(super) fn split(r: &mut StdRng, rows: &[Change]) -> Vec<Vec<Change>> {
    let mut out = vec![];
    let mut rest = rows;
    while !rest.is_empty() {
        let n = r.gen_range(1..=rest.len());
        out.push(rest[..n].to_vec());
        rest = &rest[n..];
    }
    out
}

pub fn c60(ctx: &Ctx) {
    ctx.rule("each evaluation is one sequence of changes; non-trivial when a later change concerns a row an earlier one touched");
    sfv::quiet_panics();
    let mut r = ctx.rng("c60");
    for case in 0..ctx.n(12_000, 1_500_000) {
        if ctx.out_of_time() { break }
        let s = shape(&mut r);
        let spread = *pick(&mut r, &[2i64, 4, 10, 100]);
        let (mut m, mut q) = (Map::new(), Queue::default());
        let all = Cols { vals: (0..s.vals.len()).collect(), flags: BTreeSet::new(), order: 0, names: 0 };
        let n = r.gen_range(0..12);
        if chance(&mut r, 0.8) { changes(&mut r, &s, &all, &mut m, n, spread, &mut q, 0); }
        let full = m.is_empty() || chance(&mut r, 0.6);
        let c = columns(&mut r, &s, full);
        let start = m.clone();
        q = Queue::default();
        let n = *pick(&mut r, &[1usize, 2, 3, 5, 8, 20, 60]);
        let rows = changes(&mut r, &s, &c, &mut m, n, spread, &mut q, 0);
        if rows.is_empty() { continue }
        let parts = split(&mut r, &rows);
        let batches: Vec<RecordBatch> = parts.iter().map(|p| batch(&s, &c, p)).collect();
        let what = || format!("case {case}: shape {s:?}\ncolumns {:?}\nstart {start:?}\nchanges (in {} batches)\n{}", fields(&s, &c), parts.len(), rows.iter().map(|x| format!("  {x:?}")).collect::<Vec<_>>().join("\n"));
        let chained = rows.iter().enumerate().any(|(i, x)| x.old.is_some() && rows[..i].iter().any(|y| y.new == x.old));
        ctx.eval(&format!("{c:?} {rows:?}"), chained);
        let got = std::panic::catch_unwind(AssertUnwindSafe(|| {
            let mut ss = sync_schema(&s, &c)?;
            squash_batches(&mut ss, &batches).map_err(|e| e.to_string())
        }));
        let out = match got {
            Ok(Ok(b)) => b,
            Ok(Err(e)) => { ctx.violation("squash refused", &format!("{e}\n{}", what())); continue }
            Err(_) => { ctx.violation("squash crashed", &format!("{}\n{}", sfv::last_panic_any(), what())); continue }
        };
        let set = read(&s, &c, &out);
        let shown = || format!("{}\nsquashed\n{}", what(), set.iter().map(|x| format!("  {x:?}")).collect::<Vec<_>>().join("\n"));
        for (side, keys) in [("old", set.iter().filter_map(|x| x.old.clone()).collect::<Vec<_>>()), ("new", set.iter().filter_map(|x| x.new.clone()).collect())] {
            let distinct: BTreeSet<_> = keys.iter().collect();
            ctx.check(distinct.len() == keys.len(), "two changes for one key", || format!("as {side} key\n{}", shown()));
        }
        let stray: Vec<_> = set.iter().filter(|x| x.old.as_ref().is_some_and(|k| !start.contains_key(k))).collect();
        ctx.check(stray.is_empty(), "a change of a row which did not exist before the batch", || format!("{stray:?}\n{}", shown()));
        ctx.check(!set.iter().any(|x| x.old.is_none() && x.new.is_none()), "a change with no key", || shown());
        let got = apply_set(&s, &start, &set);
        ctx.check(got == m, "squashed changes give another table", || format!("expected {m:?}\ngot      {got:?}\n{}", shown()));
        ctx.seen("shapes", &format!("{} keys {} values {} flags", s.pks.len(), c.vals.len(), c.flags.len()));
        ctx.count("changes", rows.len() as u64);
        ctx.count("changes left after squashing", set.len() as u64);
    }
}

pub(super) async fn contents(sf: &Sf, s: &Shape, path: &str) -> Result<Option<Map>, String> {
    let store = sf.ctx.get_internal_object_store().map_err(|e| e.to_string())?.get_log_store(path);
    if !store.is_delta_table_location().await.map_err(|e| e.to_string())? { return Ok(None) }
    let mut t = DeltaTable::new(store, Default::default());
    t.load().await.map_err(|e| e.to_string())?;
    let df = sf.ctx.inner.read_table(Arc::new(t)).map_err(|e| e.to_string())?;
    let mut m = Map::new();
    for b in df.collect().await.map_err(|e| e.to_string())? {
        let col = |n: &str| b.column_by_name(n).cloned().ok_or(format!("no column {n}"));
        let ks: Vec<_> = s.pks.iter().map(|(n, _)| col(n)).collect::<Result<_, _>>()?;
        let vs: Vec<_> = s.vals.iter().map(|(n, _)| col(n)).collect::<Result<_, _>>()?;
        for row in 0..b.num_rows() {
            let k: Row = ks.iter().map(|a| cell(a, row)).collect();
            if m.insert(k.clone(), vs.iter().map(|a| cell(a, row)).collect()).is_some() { return Err(format!("key {k:?} is there twice")) }
        }
    }
    Ok(Some(m))
}
/// the version of a table, and up to where its log says changes were stored: origin, sequence, whether more was begun
async fn log_claim(sf: &Sf, path: &str) -> Result<Option<(i64, Claim)>, String> {
    let store = sf.ctx.get_internal_object_store().map_err(|e| e.to_string())?.get_log_store(path);
    if !store.is_delta_table_location().await.map_err(|e| e.to_string())? { return Ok(None) }
    let mut t = DeltaTable::new(store, Default::default());
    t.load().await.map_err(|e| e.to_string())?;
    let h = t.history(Some(1)).await.map_err(|e| e.to_string())?;
    let claim = h.last().and_then(|h| h.info.get("sync_commit_info")).filter(|v| !v.is_null()).map(|v| (v["origin"].as_str().unwrap_or_default().to_string(), v["sequence"].as_u64().unwrap_or(0), v["new_tx"].as_bool().unwrap_or(false)));
    Ok(Some((t.version(), claim)))
}
type Claim = Option<(String, u64, bool)>;
fn diff(a: &Map, b: &Map) -> String {
    let mut out = vec![];
    for k in a.keys().chain(b.keys()).collect::<BTreeSet<_>>() {
        if a.get(k) != b.get(k) { out.push(format!("  {k:?}: expected {:?} got {:?}", a.get(k), b.get(k))) }
    }
    out.truncate(12);
    out.join("\n")
}

pub fn c61(ctx: &Ctx) {
    ctx.rule("each evaluation is one flush compared with the replayed map; non-trivial when it merges differently shaped messages or changes a table that exists");
    sfv::quiet_panics();
    let rt = super::rt(4);
    rt.block_on(async {
        let mut r = ctx.rng("c61");
        for case in 0..ctx.n(45, 20_000) {
            if ctx.out_of_time() { break }
            let part = *pick(&mut r, &[2usize, 5, 1000]);
            let sf = Sf::memory(&format!("[misc]\nmax_partition_size = {part}\n[misc.sync_conf]\nmax_replication_lag_s = 0")).await;
            let mut w = SeafowlDataSyncWriter::new(sf.ctx.clone());
            for table in 0..3 {
                let s = shape(&mut r);
                let spread = *pick(&mut r, &[3i64, 10, 40]);
                let path = format!("t{table}");
                let mut m = Map::new();
                let mut log = format!("case {case} table {table}: shape {s:?}\n");
                let mut seq = 0;
                'rounds: for round in 0..r.gen_range(1..6) {
                    let messages = r.gen_range(1..6);
                    let mut kinds = 0;
                    let mut pool: Vec<Cols> = vec![];
                    let mut q = Queue::default();
                    for i in 0..messages {
                        let full = round == 0 && i == 0 || m.is_empty() || chance(&mut r, 0.5);
                        let c = match pool.choose(&mut r) { Some(c) if chance(&mut r, 0.5) && (!full || c.vals.len() == s.vals.len()) => c.clone(), _ => columns(&mut r, &s, full) };
                        if !pool.contains(&c) { kinds += 1; pool.push(c.clone()) }
                        let n = *pick(&mut r, &[1usize, 2, 4, 12]);
                        let rows = changes(&mut r, &s, &c, &mut m, n, spread, &mut q, 0);
                        if rows.is_empty() { continue }
                        let batches = split(&mut r, &rows).iter().map(|p| batch(&s, &c, p)).collect();
                        seq += 1;
                        log += &format!("message {seq} of {:?}\n{}", fields(&s, &c).iter().map(|f| format!("{:?} {}", f.0, f.2)).collect::<Vec<_>>(), rows.iter().map(|x| format!("  {x:?}\n")).collect::<String>());
                        let target = LakehouseSyncTarget::Delta(sf.ctx.get_internal_object_store().unwrap().get_log_store(&path));
                        let ss = match sync_schema(&s, &c) { Ok(x) => x, Err(e) => { ctx.violation("schema refused", &format!("{e}\n{log}")); break 'rounds } };
                        if let Err(e) = w.enqueue_sync(target, Some(seq), format!("o{table}"), ss, batches) { ctx.violation("message refused", &format!("{e}\n{log}")); break 'rounds }
                    }
                    log += "flush\n";
                    ctx.eval(&log, kinds > 1 || round > 0);
                    match AssertUnwindSafe(w.flush()).catch_unwind().await {
                        Ok(Ok(())) => {}
                        Ok(Err(e)) => { ctx.violation("flush failed", &format!("{e}\n{log}")); w = SeafowlDataSyncWriter::new(sf.ctx.clone()); break }
                        Err(_) => { ctx.violation("flush crashed", &format!("{}\n{log}", sfv::last_panic_any())); w = SeafowlDataSyncWriter::new(sf.ctx.clone()); break }
                    }
                    match contents(&sf, &s, &path).await {
                        Ok(got) => {
                            let got = got.unwrap_or_default();
                            if got != m { ctx.violation("the table is not what replaying gives", &format!("{}\n{log}", diff(&m, &got))); break }
                        }
                        Err(e) => { ctx.violation("the table cannot be read back", &format!("{e}\n{log}")); break }
                    }
                    ctx.count("flushes compared", 1);
                    ctx.count("rows compared", m.len() as u64);
                }
                ctx.seen("shapes", &format!("{} keys {} values", s.pks.len(), s.vals.len()));
            }
        }
        known(ctx).await;
    });
}

/// histories whose outcome is known to be wrong
async fn known(ctx: &Ctx) {
    let s = Shape { pks: vec![("k".into(), DataType::Int32)], vals: vec![("c".into(), DataType::Utf8), ("d".into(), DataType::Utf8)] };
    let (k, t) = (|i: i64| vec![V::I(i)], |x: &str| V::S(x.into()));
    let cols = |vals: &[usize], flags: &[usize], order| Cols { vals: vals.to_vec(), flags: flags.iter().copied().collect(), order, names: 0 };
    let full = cols(&[0, 1], &[], 0);
    let insert = Change { old: None, new: Some(k(1)), vals: [(0, (t("c0"), true)), (1, (t("d0"), true))].into() };
    let set = |c: Option<&str>, d: Option<&str>, flag: bool, to: i64| Change { old: Some(k(1)), new: Some(k(to)), vals: [c.map(|c| (0, (t(c), true))), d.map(|d| (1, (t(d), flag)))].into_iter().flatten().collect() };
    let row = |key: i64, c: V, d: V| -> Map { [(k(key), vec![c, d])].into() };
    let histories: Vec<(&str, Vec<(Cols, Change)>, Map)> = vec![
        ("a changed column is lost when a message of another kind then carries it as unchanged",
            vec![(cols(&[0, 1], &[1], 0), set(Some("c1"), Some("d1"), true, 1)), (cols(&[0, 1], &[1], 1), set(Some("c2"), Some("d0"), false, 1))], row(1, t("c2"), t("d0"))),
        ("a changed column is lost when a message without it follows",
            vec![(cols(&[0, 1], &[1], 0), set(Some("c1"), Some("d1"), true, 1)), (cols(&[0], &[], 0), set(Some("c2"), None, true, 1))], row(1, t("c2"), t("d0"))),
        ("a row moved to another key loses the columns which did not change",
            vec![(cols(&[0, 1], &[1], 0), set(Some("c1"), Some("x"), false, 2))], row(2, t("c1"), V::Null)),
    ];
    for (n, (sig, messages, wrong)) in histories.into_iter().enumerate() {
        let sf = Sf::memory("[misc.sync_conf]\nmax_replication_lag_s = 0").await;
        let mut w = SeafowlDataSyncWriter::new(sf.ctx.clone());
        let mut m = Map::new();
        let mut failed = None;
        let target = || LakehouseSyncTarget::Delta(sf.ctx.get_internal_object_store().unwrap().get_log_store("t"));
        for (i, (c, x)) in std::iter::once((full.clone(), insert.clone())).chain(messages).enumerate() {
            replay(&s, &mut m, std::slice::from_ref(&x));
            let sent = sync_schema(&s, &c).and_then(|ss| w.enqueue_sync(target(), Some(i as u64), "o".into(), ss, vec![batch(&s, &c, &[x])]).map_err(|e| e.to_string()));
            failed = failed.or(sent.err());
            if i == 0 { failed = failed.or(w.flush().await.err().map(|e| e.to_string())) }
        }
        failed = failed.or(w.flush().await.err().map(|e| e.to_string()));
        let got = match failed { None => contents(&sf, &s, "t").await.map(Option::unwrap_or_default), Some(e) => Err(e) };
        ctx.eval(&format!("known {n}"), true);
        match got {
            Ok(g) if g == m => {}
            Ok(g) if g == wrong => ctx.violation(sig, diff(&m, &g)),
            other => ctx.violation(&format!("other outcome where {sig}"), format!("expected {m:?} got {other:?}")),
        }
    }
}

#[derive(Clone)]
struct Message { table: usize, cols: Cols, rows: Vec<Change> }
#[derive(Clone)]
struct Tx { seq: u64, parts: Vec<Message> }
struct Origin { queues: Vec<Queue>, name: String, txs: Vec<Tx>, model: Vec<Map>, told: Option<u64>, sent: usize }

pub fn c62(ctx: &Ctx) {
    ctx.rule("each evaluation is one acknowledgement compared with the tables; non-trivial when something is waiting in memory or a flush just failed");
    sfv::quiet_panics();
    let rt = super::rt(4);
    rt.block_on(async {
        let mut r = ctx.rng("c62");
        for case in 0..ctx.n(45, 20_000) {
            if ctx.out_of_time() { break }
            c62_case(ctx, &mut r, case).await;
        }
        c62_known(ctx).await;
    });
}

async fn c62_case(ctx: &Ctx, r: &mut StdRng, case: usize) {
    let by_lag = chance(r, 0.5);
    let limit = r.gen_range(2..6);
    let (sf, spy) = Sf::spied(&format!(
        "[misc]\nmax_partition_size = 20\n[misc.sync_conf]\nmax_replication_lag_s = {}\nmax_syncs_per_url = {}", if by_lag { 0 } else { 100_000 }, if by_lag { 1000 } else { limit }
    )).await;
    let shapes: Vec<Shape> = (0..r.gen_range(1..4)).map(|_| shape(r)).collect();
    let fulls: Vec<Cols> = shapes.iter().map(|s| Cols { vals: (0..s.vals.len()).collect(), flags: BTreeSet::new(), order: 0, names: 0 }).collect();
    let mut origins: Vec<Origin> = (0..r.gen_range(1..4)).map(|i| Origin { queues: shapes.iter().map(|_| Queue { movable: Some(BTreeSet::new()), ..Default::default() }).collect(), name: format!("origin {i}"), txs: vec![], model: vec![Map::new(); shapes.len()], told: None, sent: 0 }).collect();
    let mut w = SeafowlDataSyncWriter::new(sf.ctx.clone());
    let mut log = format!("case {case}: {} origins, {} tables, {}\n", origins.len(), shapes.len(), if by_lag { "flushing all".to_string() } else { format!("flushing from {limit} pending syncs") });
    // messages of every table since its contents were last what the model has
    let mut base: Vec<Map> = vec![Map::new(); shapes.len()];
    let mut since: Vec<Vec<(usize, u64, Message)>> = vec![vec![]; shapes.len()];
    let mut exact = true; // whether tables pass through the states of the history in order
    let mut mem: Vec<Option<u64>> = vec![None; origins.len()];
    let mut dur: Vec<Option<u64>> = vec![None; origins.len()];
    // what the log of every table said last, and the whole transactions which had changes of the table
    let mut claims: Vec<(i64, Claim)> = vec![(-1, None); shapes.len()];
    let mut whole: Vec<Vec<(String, u64)>> = vec![vec![]; shapes.len()];
    let steps = r.gen_range(4..14);
    for step in 0..steps {
        // what is sent next: what was resent after a restart first, then something new
        let o = r.gen_range(0..origins.len());
        if origins[o].sent == origins[o].txs.len() {
            let seq = origins[o].txs.last().map(|t| t.seq).unwrap_or(0) + r.gen_range(1..4);
            let mut parts = vec![];
            for _ in 0..r.gen_range(1..4) {
                let t = r.gen_range(0..shapes.len());
                let mut c = fulls[t].clone();
                c.order = r.gen_range(0..4);
                let n = r.gen_range(1..6);
                // a key which comes and goes before everything is stored can stay behind when it is resent (a known finding of its own)
                let Origin { model, queues, .. } = &mut origins[o];
                let rows = changes(r, &shapes[t], &c, &mut model[t], n, 8, &mut queues[t], o as i64 + 1);
                if !rows.is_empty() { parts.push(Message { table: t, cols: c, rows }) }
            }
            if parts.is_empty() { continue }
            origins[o].txs.push(Tx { seq, parts });
        }
        let tx = origins[o].txs[origins[o].sent].clone();
        let fail_at = if chance(r, 0.25) { Some((r.gen_range(0..tx.parts.len()), *pick(r, &["_delta_log", ".parquet", ""]))) } else { None };
        let crash_at = if chance(r, 0.2) { Some(r.gen_range(0..tx.parts.len())) } else { None };
        let trailing = chance(r, 0.2); // the end of a transaction can also come on its own
        let n = tx.parts.len();
        let mut crashed = false;
        for i in 0..n + trailing as usize {
            let last = i + 1 == n + trailing as usize;
            let part = &tx.parts[i.min(n - 1)];
            let rows: &[Change] = if i < n { &part.rows } else { &[] };
            let s = &shapes[part.table];
            let target = LakehouseSyncTarget::Delta(sf.ctx.get_internal_object_store().unwrap().get_log_store(&format!("t{}", part.table)));
            log += &format!("{} sends {} changes of table {} for transaction {}{}\n", origins[o].name, rows.len(), part.table, tx.seq, if last { " and ends it" } else { "" });
            let seq = last.then_some(tx.seq);
            let batches = if rows.is_empty() { vec![] } else { vec![batch(s, &part.cols, rows)] };
            let ss = if rows.is_empty() { SyncSchema::empty() } else { sync_schema(s, &part.cols).unwrap() };
            if let Err(e) = w.enqueue_sync(target, seq, origins[o].name.clone(), ss, batches) { ctx.violation("message refused", &format!("{e}\n{log}")); return }
            if i < n { since[part.table].push((o, tx.seq, part.clone())) }
            if last {
                mem[o] = Some(tx.seq);
                for t in 0..shapes.len() { if tx.parts.iter().any(|p| p.table == t) { whole[t].push((origins[o].name.clone(), tx.seq)) } }
            }
            if let Some((at, what)) = fail_at && at == i {
                spy.set_fault(Some(Arc::new(move |op: &str, path: &str| op.starts_with("put") && path.contains(what))));
            }
            let before = spy.faults_hit.load(std::sync::atomic::Ordering::Relaxed);
            let flushed = match AssertUnwindSafe(w.flush()).catch_unwind().await {
                Ok(x) => x,
                Err(_) => { ctx.violation("flush crashed", &format!("{}\n{log}", sfv::last_panic_any())); return }
            };
            spy.set_fault(None);
            let faulty = spy.faults_hit.load(std::sync::atomic::Ordering::Relaxed) > before;
            if let Err(e) = &flushed {
                log += &format!("flush fails: {}\n", e.to_string().lines().next().unwrap_or(""));
                if !faulty { ctx.violation("flush failed", &format!("{e}\n{log}")); return }
                ctx.count("failed flushes", 1);
            }
            // what is claimed
            for (p, origin) in origins.iter_mut().enumerate() {
                let (m, d) = w.stored_sequences(&origin.name);
                ctx.check(m == mem[p], "the number said to be in memory is not the last one received", || format!("{} {m:?} instead of {:?}\n{log}", origin.name, mem[p]));
                ctx.check(d >= dur[p], "a durable number went back", || format!("{}: {d:?} after {:?}\n{log}", origin.name, dur[p]));
                ctx.check(d.is_none() || d <= m, "a durable number is ahead of the one in memory", || format!("{}: {d:?} {m:?}\n{log}", origin.name));
                ctx.check(d.is_none_or(|d| origin.txs[..origin.sent + 1.min(origin.txs.len() - origin.sent)].iter().any(|t| t.seq == d)), "a durable number nobody sent", || format!("{}: {d:?}\n{log}", origin.name));
                dur[p] = d;
                if flushed.is_ok() && d.is_some() { origin.told = d.max(origin.told) }
            }
            if by_lag && flushed.is_ok() && last && !trailing {
                for p in 0..origins.len() { ctx.check(dur[p] == mem[p], "everything is stored but not said to be", || format!("{}: {:?} {:?}\n{log}", origins[p].name, dur[p], mem[p])); }
            }
            // what is there
            for (t, s) in shapes.iter().enumerate() {
                ctx.eval(&format!("{log}{t}"), faulty || !by_lag);
                let got = match contents(&sf, s, &format!("t{t}")).await { Ok(m) => m.unwrap_or_default(), Err(e) => { ctx.violation("a table cannot be read", &format!("{e}\n{log}")); return } };
                let now = match log_claim(&sf, &format!("t{t}")).await { Ok(x) => x.unwrap_or((-1, None)), Err(e) => { ctx.violation("a table's log cannot be read", &format!("{e}\n{log}")); return } };
                if now.0 > claims[t].0.max(0) && let Some((p, seq, _)) = since[t].last() {
                    // all which waited for this table was stored just now
                    let finished = !(*p == o && *seq == tx.seq) || last;
                    if finished {
                        ctx.check(now.1 == Some((origins[*p].name.clone(), *seq, false)), "the log of a table does not say which transaction it has in full", || format!("table {t} says {:?}, has {seq} of {}\n{log}", now.1, origins[*p].name));
                    } else {
                        ctx.check(now.1.as_ref().is_none_or(|c| c.2), "the log of a table hides that it has a part of a transaction", || format!("table {t} says {:?}, has a part of {seq} of {}\n{log}", now.1, origins[*p].name));
                        ctx.check(now.1.as_ref().is_none_or(|c| whole[t].iter().any(|w| w.0 == c.0 && w.1 == c.1)), "the log of a table claims a transaction it does not have in full", || format!("table {t} says {:?}, has {:?}\n{log}", now.1, whole[t]));
                        ctx.check(now.1.is_some() || claims[t].1.is_none(), "the log of a table forgets what it has", || format!("table {t} said {:?}\n{log}", claims[t].1));
                        ctx.count("claims about a part of a transaction", now.1.is_some() as u64);
                    }
                    ctx.count("claims in table logs", 1);
                }
                claims[t] = now;
                if !exact { continue }
                let mut at = base[t].clone();
                let mut reached = if at == got { Some(0) } else { None };
                for (i, (_, _, m)) in since[t].iter().enumerate() {
                    replay(s, &mut at, &m.rows);
                    if at == got { reached = Some(i + 1) }
                }
                let Some(reached) = reached else { ctx.violation("a table is not at any point of its history", &format!("table {t}\n{}\n{log}", diff(&at, &got))); return };
                for (p, seq, _) in &since[t][reached..] {
                    ctx.check(dur[*p].is_none_or(|d| d < *seq), "a transaction is said to be durable but is not in the table", || format!("table {t} misses {seq} of {} which claims {:?}\n{log}", origins[*p].name, dur[*p]));
                }
                ctx.count("tables compared", 1);
            }
            if crash_at == Some(i) {
                log += "restart\n";
                w = SeafowlDataSyncWriter::new(sf.ctx.clone());
                (mem, dur) = (vec![None; origins.len()], vec![None; origins.len()]);
                for o in &mut origins { o.sent = o.txs.iter().take_while(|t| o.told.is_some_and(|d| t.seq <= d)).count() }
                exact = false;
                crashed = true;
                ctx.count("restarts", 1);
                break;
            }
        }
        if !crashed { origins[o].sent += 1 }
        // in the end, and sometimes before, everything is resent and stored
        if step + 1 == steps || chance(r, 0.1) {
            log += "all is sent and stored\n";
            for o in origins.iter_mut() {
                while o.sent < o.txs.len() {
                    let tx = o.txs[o.sent].clone();
                    for (i, part) in tx.parts.iter().enumerate() {
                        let target = LakehouseSyncTarget::Delta(sf.ctx.get_internal_object_store().unwrap().get_log_store(&format!("t{}", part.table)));
                        let s = &shapes[part.table];
                        let end = i + 1 == tx.parts.len();
                        whole[part.table].push((o.name.clone(), tx.seq));
                        if let Err(e) = w.enqueue_sync(target, end.then_some(tx.seq), o.name.clone(), sync_schema(s, &part.cols).unwrap(), vec![batch(s, &part.cols, &part.rows)]) { ctx.violation("message refused", &format!("{e}\n{log}")); return }
                    }
                    o.sent += 1;
                }
            }
            if let Err(e) = w.verif_flush_all().await { ctx.violation("flush failed", &format!("{e}\n{log}")); return }
            for (p, o) in origins.iter_mut().enumerate() {
                let (m, d) = w.stored_sequences(&o.name);
                if m.is_some() && d.is_some() && !log.contains("sends 0 changes") { ctx.check(d == m, "everything is stored but not said to be", || format!("{}: {d:?} {m:?}\n{log}", o.name)); }
                (mem[p], dur[p]) = (m, d);
                o.told = d.max(o.told);
            }
            for (t, s) in shapes.iter().enumerate() {
                let mut want = Map::new();
                for o in &origins { want.extend(o.model[t].clone()) }
                match contents(&sf, s, &format!("t{t}")).await {
                    Ok(got) => { let got = got.unwrap_or_default(); if got != want { ctx.violation("resending what was not acknowledged does not give the replayed table", &format!("table {t}\n{}\n{log}", diff(&want, &got))); return } }
                    Err(e) => { ctx.violation("a table cannot be read", &format!("{e}\n{log}")); return }
                }
                let now = match log_claim(&sf, &format!("t{t}")).await { Ok(x) => x.unwrap_or((-1, None)), Err(e) => { ctx.violation("a table's log cannot be read", &format!("{e}\n{log}")); return } };
                if now.0 > claims[t].0.max(0) {
                    ctx.check(now.1 == whole[t].last().map(|w| (w.0.clone(), w.1, false)), "the log of a table does not say which transaction it has in full", || format!("table {t} says {:?}, has {:?}\n{log}", now.1, whole[t].last()));
                }
                claims[t] = now;
                base[t] = want;
                for o in origins.iter_mut() { o.queues[t] = Queue { movable: Some(o.model[t].keys().cloned().collect()), ..Default::default() } }
                since[t].clear();
            }
            exact = true;
            ctx.count("final comparisons", 1);
        }
    }
}

/// a restart between the insertion of a key and its removal
async fn c62_known(ctx: &Ctx) {
    let s = Shape { pks: vec![("k".into(), DataType::Int32)], vals: vec![("c".into(), DataType::Utf8)] };
    let c = Cols { vals: vec![0], flags: BTreeSet::new(), order: 0, names: 0 };
    let x = |old: Option<i64>, new: Option<i64>| Change { old: old.map(|i| vec![V::I(i)]), new: new.map(|i| vec![V::I(i)]), vals: [(0, (V::S("v".into()), true))].into() };
    let sf = Sf::memory("[misc.sync_conf]\nmax_replication_lag_s = 0").await;
    let target = || LakehouseSyncTarget::Delta(sf.ctx.get_internal_object_store().unwrap().get_log_store("t"));
    let mut w = SeafowlDataSyncWriter::new(sf.ctx.clone());
    let mut sent = vec![];
    // the first part of the transaction is stored before the restart, so nothing was acknowledged and all is sent again
    sent.push(w.enqueue_sync(target(), None, "o".into(), sync_schema(&s, &c).unwrap(), vec![batch(&s, &c, &[x(None, Some(1)), x(None, Some(2))])]));
    sent.push(w.flush().await);
    ctx.check(w.stored_sequences(&"o".to_string()) == (None, None), "an unfinished transaction is acknowledged", String::new);
    let mut w = SeafowlDataSyncWriter::new(sf.ctx.clone());
    sent.push(w.enqueue_sync(target(), None, "o".into(), sync_schema(&s, &c).unwrap(), vec![batch(&s, &c, &[x(None, Some(1)), x(None, Some(2))])]));
    sent.push(w.enqueue_sync(target(), Some(1), "o".into(), sync_schema(&s, &c).unwrap(), vec![batch(&s, &c, &[x(Some(1), None)])]));
    sent.push(w.flush().await);
    let failed = sent.into_iter().find_map(|x| x.err());
    ctx.eval("known", true);
    let rows = |keys: &[i64]| -> Map { keys.iter().map(|k| (vec![V::I(*k)], vec![V::S("v".into())])).collect() };
    match (failed, contents(&sf, &s, "t").await) {
        (None, Ok(Some(g))) if g == rows(&[2]) => {}
        (None, Ok(Some(g))) if g == rows(&[1, 2]) => ctx.violation("a key inserted and deleted in what is resent after a restart stays if its insertion had been stored", diff(&rows(&[2]), &g)),
        other => ctx.violation("other outcome of resending a key inserted and deleted", format!("{other:?}")),
    }
}
