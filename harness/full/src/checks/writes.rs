//! C51: results written as table files
use crate::sf::{scratch, Sf};
use crate::spy::Spy;
use arrow::array::*;
use arrow::compute::concat_batches;
use arrow::datatypes::{DataType, Field, Schema, SchemaRef, TimeUnit};
use arrow::record_batch::RecordBatch;
use datafusion::error::{DataFusionError, Result as DfResult};
use datafusion::execution::TaskContext;
use datafusion::parquet::arrow::arrow_reader::ParquetRecordBatchReaderBuilder;
use datafusion::physical_plan::stream::RecordBatchStreamAdapter;
use datafusion::physical_plan::streaming::{PartitionStream, StreamingTableExec};
use datafusion::physical_plan::{ExecutionPlan, SendableRecordBatchStream};
use object_store::{path::Path, ObjectStore};
use seafowl::context::delta::plan_to_delta_adds;
use sfv::{chance, pick, rand::{rngs::StdRng, Rng, RngCore}, Ctx};
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Debug)]
struct Part { schema: SchemaRef, batches: Vec<Result<RecordBatch, String>>, slow: bool }
impl PartitionStream for Part {
    fn schema(&self) -> &SchemaRef { &self.schema }
    fn execute(&self, _: Arc<TaskContext>) -> SendableRecordBatchStream {
        let slow = self.slow;
        let s = futures::stream::iter(self.batches.clone()).then(move |b| async move {
            if slow { tokio::time::sleep(std::time::Duration::from_micros(300)).await }
            b.map_err(DataFusionError::Execution)
        });
        Box::pin(RecordBatchStreamAdapter::new(self.schema.clone(), Box::pin(s)))
    }
}
use futures::StreamExt;

const KINDS: usize = 12;
fn column(r: &mut StdRng, kind: usize, n: usize, big: bool) -> ArrayRef {
    let nulls = *pick(r, &[0.0, 0.0, 0.2, 1.0]);
    macro_rules! v { ($e:expr) => { (0..n).map(|_| if chance(r, nulls) { None } else { Some($e) }).collect::<Vec<_>>() } }
    match kind {
        0 => Arc::new(Int64Array::from(v!(*pick(r, &[0i64, -1, i64::MIN, i64::MAX, 7, 8, 1 << 53])))),
        1 => Arc::new(Int32Array::from(v!(r.gen_range(-50..50)))),
        2 => Arc::new(Float64Array::from(v!(*pick(r, &[0.0, -0.0, 1.5, f64::INFINITY, -2.25, 1e300])))),
        3 => Arc::new(StringArray::from(v!(pick(r, &["", "a", "é🦅", "a much longer value that goes past any truncated statistic of sixty-four bytes, surely", "\0"]).to_string()))),
        4 => Arc::new(BooleanArray::from(v!(r.gen::<bool>()))),
        5 => Arc::new(Date32Array::from(v!(r.gen_range(-100_000..100_000)))),
        6 => Arc::new(TimestampMicrosecondArray::from(v!(r.gen_range(-1i64 << 50..1i64 << 50)))),
        7 => Arc::new(Decimal128Array::from(v!(r.gen_range(-10i128.pow(30)..10i128.pow(30)))).with_precision_and_scale(38, 4).unwrap()),
        8 => Arc::new(BinaryArray::from_iter(v!({ let mut b = vec![0u8; if big { 4000 } else { r.gen_range(0..9) }]; r.fill_bytes(&mut b); b }))),
        9 => Arc::new(ListArray::from_iter_primitive::<arrow::datatypes::Int64Type, _, _>(v!((0..r.gen_range(0..4)).map(|i| if i == 2 { None } else { Some(i as i64) }).collect::<Vec<_>>()))),
        10 => Arc::new(Int16Array::from(v!(r.gen::<i16>()))),
        _ => Arc::new(Float32Array::from(v!(r.gen_range(-5.0f32..5.0)))),
    }
}
fn dtype(kind: usize) -> DataType {
    match kind {
        0 => DataType::Int64, 1 => DataType::Int32, 2 => DataType::Float64, 3 => DataType::Utf8, 4 => DataType::Boolean, 5 => DataType::Date32,
        6 => DataType::Timestamp(TimeUnit::Microsecond, None), 7 => DataType::Decimal128(38, 4), 8 => DataType::Binary,
        9 => DataType::List(Arc::new(Field::new("item", DataType::Int64, true))), 10 => DataType::Int16, _ => DataType::Float32,
    }
}

fn temp_files(dir: &std::path::Path) -> Vec<String> {
    std::fs::read_dir(dir).map(|d| d.flatten().filter(|e| e.path().is_file()).map(|e| e.file_name().to_string_lossy().into_owned()).collect()).unwrap_or_default()
}

/// what the statistics say about a column, against the column
fn stats_lie(stats: &serde_json::Value, b: &RecordBatch) -> Option<String> {
    if stats["numRecords"].as_i64() != Some(b.num_rows() as i64) { return Some(format!("numRecords {} of {} rows", stats["numRecords"], b.num_rows())) }
    for (i, f) in b.schema().fields().iter().enumerate() {
        let c = b.column(i);
        if let Some(n) = stats["nullCount"].get(f.name()).and_then(|x| x.as_i64()) {
            if n != c.null_count() as i64 { return Some(format!("nullCount of {} is {n}, not {}", f.name(), c.null_count())) }
        }
        let (lo, hi) = (stats["minValues"].get(f.name()), stats["maxValues"].get(f.name()));
        match f.data_type() {
            DataType::Int64 | DataType::Int32 | DataType::Int16 => {
                let v = arrow::compute::cast(c, &DataType::Int64).unwrap();
                for x in v.as_any().downcast_ref::<Int64Array>().unwrap().iter().flatten() {
                    if lo.and_then(|l| l.as_i64()).map_or(false, |l| x < l) || hi.and_then(|h| h.as_i64()).map_or(false, |h| x > h) { return Some(format!("{} has {x}, outside {lo:?}..{hi:?}", f.name())) }
                }
            }
            DataType::Utf8 => for x in c.as_any().downcast_ref::<StringArray>().unwrap().iter().flatten() {
                if lo.and_then(|l| l.as_str()).map_or(false, |l| x < l) || hi.and_then(|h| h.as_str()).map_or(false, |h| x > h) { return Some(format!("{} has {x:?}, outside {lo:?}..{hi:?}", f.name())) }
            },
            _ => (),
        }
    }
    None
}

async fn direct(ctx: &Ctx, r: &mut StdRng, tmp: &std::path::Path, sf: &Sf, n: u64) {
    let big = n % 40 == 7;
    let kinds: Vec<usize> = if big { vec![0, 8] } else { (0..r.gen_range(1..5)).map(|_| r.gen_range(0..KINDS)).collect() };
    let schema: SchemaRef = Arc::new(Schema::new(kinds.iter().enumerate().map(|(i, k)| Field::new(format!("{}{i}", pick(r, &["a", "B c", "é", "x.y"])), dtype(*k), true)).collect::<Vec<_>>()));
    let max = if big { *pick(r, &[700u32, 1400, 5000]) } else { *pick(r, &[1u32, 2, 3, 5, 8, 10, 64, 1048576, u32::MAX]) };
    let parts = r.gen_range(1..5);
    let mut input: Vec<Vec<Result<RecordBatch, String>>> = vec![];
    for _ in 0..parts {
        let nb = r.gen_range(0..4);
        input.push((0..nb).map(|_| {
            let rows = if big { 500 } else { *pick(r, &[0usize, 1, 2, 3, 5, 8, 10, 16, 21]) };
            let extra = r.gen_range(0..3);
            let cols: Vec<ArrayRef> = kinds.iter().map(|k| column(r, *k, rows + extra, big)).collect();
            let b = RecordBatch::try_new(schema.clone(), cols).unwrap();
            Ok(if extra > 0 { b.slice(r.gen_range(0..=extra), rows) } else { b })
        }).collect());
    }
    let fails = chance(r, 0.1);
    if fails { let k = r.gen_range(0..parts); let at = r.gen_range(0..=input[k].len()); input[k].insert(at, Err("the rows ran out".into())) }
    let all: Vec<RecordBatch> = input.iter().flatten().flatten().cloned().collect();
    let want = concat_batches(&schema, &all).unwrap();
    let streams: Vec<Arc<dyn PartitionStream>> = input.iter().map(|b| Arc::new(Part { schema: schema.clone(), batches: b.clone(), slow: chance(r, 0.3) }) as _).collect();
    let plan: Arc<dyn ExecutionPlan> = Arc::new(StreamingTableExec::try_new(schema.clone(), streams, None, vec![], false, None).unwrap());
    // where to
    let place = *pick(r, &["memory", "memory", "local", "local-new-dir", "other-device", "local-blocked", "fault", "fault", "slow"]);
    let spy = Spy::new(Arc::new(object_store::memory::InMemory::new()));
    let dir = if place == "other-device" { std::path::PathBuf::from(format!("/dev/shm/sfv{:016x}", r.gen::<u64>())) } else { scratch() };
    let _clean = Clean(dir.clone());
    let target = match place {
        "local-new-dir" => dir.join("not/yet/there"),
        "local-blocked" => { std::fs::create_dir_all(&dir).unwrap(); std::fs::write(dir.join("file"), b"x").unwrap(); dir.join("file") }
        _ => dir.clone(),
    };
    let local = place.starts_with("local") || place == "other-device";
    let (fault_op, nth) = (*pick(r, &["put_multipart", "put_part", "complete"]), r.gen_range(0..4u64));
    if place == "fault" {
        let k = std::sync::atomic::AtomicU64::new(0);
        spy.set_fault(Some(Arc::new(move |op: &str, _: &str| op == fault_op && k.fetch_add(1, std::sync::atomic::Ordering::SeqCst) == nth)));
    }
    if place == "slow" { spy.delay_us.store(20_000, std::sync::atomic::Ordering::Relaxed) }
    let state = sf.ctx.inner.state();
    let out: DfResult<_> = {
        let (plan, store, l) = (plan.clone(), spy.clone() as Arc<dyn ObjectStore>, local.then(|| target.display().to_string()));
        match tokio::time::timeout(std::time::Duration::from_secs(60), tokio::spawn(async move { plan_to_delta_adds(&state, &plan, store, l, max).await })).await {
            Ok(Ok(o)) => o,
            Ok(Err(e)) => { ctx.violation(&format!("{place}/panic"), &format!("{e}: max {max} of {} rows of {schema:?}", want.num_rows())); return }
            Err(_) => { ctx.violation(&format!("{place}/hangs"), &format!("max {max} of {} rows of {schema:?}", want.num_rows())); return }
        }
    };
    let hit = spy.faults_hit.load(std::sync::atomic::Ordering::Relaxed) > 0;
    spy.set_fault(None);
    let shape = format!("max {max}, partitions {:?}, {schema:?}", input.iter().map(|p| p.iter().map(|b| b.as_ref().map_or(-1, |b| b.num_rows() as i64)).collect::<Vec<_>>()).collect::<Vec<_>>());
    let kind = format!("{place}{}{}", if place == "fault" { format!("-{fault_op}") } else { String::new() }, if fails { "-failing-plan" } else { "" });
    ctx.eval(&format!("{kind}/{}/{}/{}", out.is_ok(), parts, (want.num_rows() as u32).div_ceil(max).min(6)), true);
    ctx.count("rows_written", want.num_rows() as u64);
    let left = temp_files(tmp);
    if !left.is_empty() { ctx.violation(&format!("{kind}/temporary-files-left"), &format!("{left:?}: {shape}")); for f in left { let _ = std::fs::remove_file(tmp.join(f)); } }
    let adds = match out {
        Ok(a) => a,
        Err(e) => {
            if !(fails || hit || place == "local-blocked") { ctx.violation(&format!("{kind}/refused"), &format!("{e}: {shape}")) }
            return;
        }
    };
    if fails || hit || place == "local-blocked" { return ctx.violation(&format!("{kind}/failure-hidden"), &format!("{} files: {shape}", adds.len())) }
    // what is in the store
    let mut files: BTreeMap<String, bytes::Bytes> = BTreeMap::new();
    if local { for f in temp_files(&target) { files.insert(f.clone(), std::fs::read(target.join(&f)).unwrap().into()); } }
    else { for m in spy.inner.list(None).collect::<Vec<_>>().await { let m = m.unwrap(); files.insert(m.location.to_string(), spy.inner.get(&m.location).await.unwrap().bytes().await.unwrap()); } }
    let mut listed: Vec<String> = adds.iter().map(|a| a.path.clone()).collect();
    let in_order = listed.clone();
    listed.sort();
    if listed.windows(2).any(|w| w[0] == w[1]) { return ctx.violation(&format!("{kind}/same-path-twice"), &format!("{listed:?}: {shape}")) }
    if listed != files.keys().cloned().collect::<Vec<_>>() { return ctx.violation(&format!("{kind}/files-differ"), &format!("recorded {listed:?}, written {:?}: {shape}", files.keys().collect::<Vec<_>>())) }
    let _ = in_order;
    let mut got = vec![];
    ctx.count("files_written", adds.len() as u64);
    for a in &adds {
        let data = files[&a.path].clone();
        if a.size != data.len() as i64 { return ctx.violation(&format!("{kind}/size"), &format!("{} recorded with {} bytes, has {}: {shape}", a.path, a.size, data.len())) }
        let b = match ParquetRecordBatchReaderBuilder::try_new(data).and_then(|b| b.build()) { Ok(x) => x, Err(e) => return ctx.violation(&format!("{kind}/unreadable"), &format!("{}: {e}: {shape}", a.path)) };
        let bs: Vec<RecordBatch> = match b.collect() { Ok(x) => x, Err(e) => return ctx.violation(&format!("{kind}/unreadable"), &format!("{}: {e}: {shape}", a.path)) };
        let bs: Vec<RecordBatch> = bs.iter().map(|b| RecordBatch::try_new(schema.clone(), b.columns().to_vec()).unwrap()).collect();
        let one = concat_batches(&schema, &bs).unwrap();
        if one.num_rows() > max as usize { return ctx.violation(&format!("{kind}/too-many-rows"), &format!("{} holds {} rows: {shape}", a.path, one.num_rows())) }
        match a.stats.as_ref().map(|s| serde_json::from_str::<serde_json::Value>(s)) {
            Some(Ok(s)) => if let Some(m) = stats_lie(&s, &one) { return ctx.violation(&format!("{kind}/statistics"), &format!("{}: {m}: {shape}", a.path)) },
            x => return ctx.violation(&format!("{kind}/no-statistics"), &format!("{x:?}: {shape}")),
        }
        if !a.data_change { return ctx.violation(&format!("{kind}/not-a-data-change"), &shape) }
        got.push(one);
    }
    let got = concat_batches(&schema, &got).unwrap();
    if got != want { ctx.violation(&format!("{kind}/rows"), &format!("{} rows, expected {}: {shape}", got.num_rows(), want.num_rows())) }
}

struct Clean(std::path::PathBuf);
impl Drop for Clean { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

/// statements whose writes fail part-way
async fn faults(ctx: &Ctx, r: &mut StdRng) {
    let part = *pick(r, &[1usize, 2, 3, 100]);
    let (sf, spy) = Sf::spied(&format!("[misc]\nmax_partition_size = {part}")).await;
    let mut trace = vec![format!("max_partition_size {part}")];
    let mut model: BTreeMap<String, Vec<i64>> = BTreeMap::new();
    for n in 0..14 {
        let names: Vec<String> = model.keys().cloned().collect();
        let vals = |v: &[i64]| v.iter().map(|x| format!("({x})")).collect::<Vec<_>>().join(", ");
        let new: Vec<i64> = (0..r.gen_range(1..9)).map(|_| r.gen_range(0..20)).collect();
        let k = r.gen_range(0..20i64);
        let mut next = model.clone();
        let (kind, q) = if names.is_empty() || chance(r, 0.25) {
            let t = format!("t{n}");
            next.insert(t.clone(), new.clone());
            ("ctas", format!("CREATE TABLE {t} AS SELECT CAST(column1 AS BIGINT) AS v FROM (VALUES {}) x", vals(&new)))
        } else {
            let t = pick(r, &names).clone();
            match r.gen_range(0..4) {
                0 => { next.get_mut(&t).unwrap().extend(&new); ("insert", format!("INSERT INTO {t} VALUES {}", vals(&new))) }
                1 => { next.get_mut(&t).unwrap().iter_mut().for_each(|x| if *x < k { *x += 1 }); ("update", format!("UPDATE {t} SET v = v + 1 WHERE v < {k}")) }
                2 => { next.get_mut(&t).unwrap().retain(|x| *x <= k); ("delete", format!("DELETE FROM {t} WHERE v > {k}")) }
                _ => { next.get_mut(&t).unwrap().clear(); ("truncate", format!("TRUNCATE TABLE {t}")) }
            }
        };
        let (ops, nth): (&[&str], u64) = ([&["put_multipart"][..], &["put_part"], &["complete"], &["put", "copy"], &["put"], &["copy"]][r.gen_range(0..6)], r.gen_range(0..3));
        let armed = chance(r, 0.7);
        let before = spy.faults_hit.load(std::sync::atomic::Ordering::SeqCst);
        if armed {
            let k = std::sync::atomic::AtomicU64::new(0);
            let ops: Vec<String> = ops.iter().map(|s| s.to_string()).collect();
            spy.set_fault(Some(Arc::new(move |op: &str, _: &str| ops.iter().any(|o| o == op) && k.fetch_add(1, std::sync::atomic::Ordering::SeqCst) == nth)));
        }
        let out = super::dml::run(&sf.ctx, &q).await;
        spy.set_fault(None);
        let hit = spy.faults_hit.load(std::sync::atomic::Ordering::SeqCst) > before;
        trace.push(format!("{q}  -- {} {}", if hit { format!("fault at {ops:?} number {nth}") } else { String::new() }, match &out { Ok(Ok(_)) => "ok".into(), Ok(Err(e)) | Err(e) => e.lines().next().unwrap_or("").chars().take(140).collect::<String>() }));
        let sig = format!("statement/{kind}/{}", if hit { ops[0] } else { "none" });
        ctx.eval(&format!("{sig}/{}", matches!(out, Ok(Ok(_)))), true);
        if hit { ctx.count("statements_with_a_fault", 1) }
        match out {
            Err(e) => return ctx.violation(&format!("{sig}/panic"), &format!("{e}\n{}", trace.join("\n"))),
            Ok(Ok(_)) => model = next,
            Ok(Err(e)) if !hit => return ctx.violation(&format!("{sig}/refused"), &format!("{e}\n{}", trace.join("\n"))),
            Ok(Err(_)) => (),
        }
        let mut listed: Vec<String> = match sf.rows("SELECT table_name FROM information_schema.tables WHERE table_schema = 'public'").await { Ok(x) => x.into_iter().map(|mut r| r.remove(0)).collect(), Err(e) => return ctx.violation(&format!("{sig}/listing"), &format!("{e}\n{}", trace.join("\n"))) };
        listed.sort();
        if listed != model.keys().cloned().collect::<Vec<_>>() { return ctx.violation(&format!("{sig}/tables"), &format!("{listed:?} instead of {:?}\n{}", model.keys(), trace.join("\n"))) }
        for (t, want) in &model {
            let mut want: Vec<String> = want.iter().map(|x| x.to_string()).collect();
            want.sort();
            match sf.rows(&format!("SELECT v FROM {t}")).await {
                Ok(g) => { let mut g: Vec<String> = g.into_iter().map(|mut r| r.remove(0)).collect(); g.sort(); if g != want { return ctx.violation(&format!("{sig}/rows"), &format!("{t}: {g:?} instead of {want:?}\n{}", trace.join("\n"))) } }
                Err(e) => return ctx.violation(&format!("{sig}/unreadable"), &format!("{t}: {e}\n{}", trace.join("\n"))),
            }
        }
    }
}

pub fn c51(ctx: &Ctx) {
    ctx.rule("one evaluation = one result written (files read back and compared with it) or one statement under an injected storage failure; distinct by (destination, failure, outcome, partitions, number of files)");
    let tmp = scratch();
    let _c = Clean(tmp.clone());
    std::env::set_var("TMPDIR", &tmp);
    let rt = super::rt(4);
    rt.block_on(async {
        let sf = Sf::memory("").await;
        let mut r = ctx.rng("direct");
        for n in 0..ctx.n(500, 20000) as u64 { if ctx.out_of_time() { break } direct(ctx, &mut r, &tmp, &sf, n).await }
        let mut r = ctx.rng("faults");
        for _ in 0..ctx.n(40, 2000) { if ctx.out_of_time() { break } faults(ctx, &mut r).await }
    });
    let _ = Path::from("");
}
