//! C20-C22: user-defined WebAssembly functions.
use crate::wasm_udf::data_types::*;
use crate::wasm_udf::wasm::create_udf_from_wasm;
use arrow::array::*;
use arrow::datatypes::{DataType, Field, Schema, SchemaRef, TimeUnit};
use arrow::record_batch::RecordBatch;
use ::datafusion::datasource::MemTable;
use ::datafusion::logical_expr::{col, lit, Expr, ScalarUDF, Volatility};
use ::datafusion::prelude::{SessionConfig, SessionContext};
use ::datafusion::scalar::ScalarValue;
use rand::rngs::StdRng;
use rand::Rng;
use rmpv::Value;
use sfv::{chance, pick, Ctx};
use std::sync::Arc;
use std::time::Duration;
use CreateFunctionDataType as T;

fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap()
}

fn arrow_type(t: &T) -> DataType {
    match t {
        T::SMALLINT => DataType::Int16,
        T::I32 | T::INT => DataType::Int32,
        T::I64 | T::BIGINT => DataType::Int64,
        T::F32 | T::FLOAT | T::REAL => DataType::Float32,
        T::F64 | T::DOUBLE => DataType::Float64,
        T::CHAR | T::VARCHAR | T::TEXT => DataType::Utf8,
        T::BOOLEAN => DataType::Boolean,
        T::DATE => DataType::Date32,
        T::TIMESTAMP => DataType::Timestamp(TimeUnit::Nanosecond, None),
        T::DECIMAL { precision, scale } => DataType::Decimal128(*precision, *scale),
    }
}

fn native_types() -> Vec<T> {
    vec![T::I32, T::INT, T::I64, T::BIGINT, T::F32, T::FLOAT, T::REAL, T::F64, T::DOUBLE]
}
fn msgpack_types(r: &mut StdRng) -> T {
    let p = r.gen_range(1..=38u8);
    let s = r.gen_range(0..=p as i8);
    pick(r, &[T::SMALLINT, T::I32, T::INT, T::I64, T::BIGINT, T::F32, T::FLOAT, T::REAL, T::F64, T::DOUBLE, T::CHAR, T::VARCHAR, T::TEXT,
        T::BOOLEAN, T::DATE, T::TIMESTAMP, T::DECIMAL { precision: p, scale: s }, T::DECIMAL { precision: 38, scale: s }]).clone()
}

fn ints(r: &mut StdRng, lo: i128, hi: i128) -> i128 {
    match r.gen_range(0..5) {
        0 => *pick(r, &[lo, lo + 1, hi, hi - 1]),
        1 => *pick(r, &[0i128, 1, -1, 127, 128, 255, 256, -128, -129, 32767, 32768, -32768, 65535, 65536]).max(&lo).min(&hi),
        2 => {
            let bits = r.gen_range(0..127);
            let v = (1i128 << bits) + r.gen_range(-2..=2);
            (if chance(r, 0.5) { v } else { -v }).max(lo).min(hi)
        }
        _ => {
            let span = (hi as f64 - lo as f64).abs();
            if span < 1e18 { r.gen_range(lo..=hi) } else { let v: i128 = r.gen(); (v >> r.gen_range(0..120)).max(lo).min(hi) }
        }
    }
}
fn text(r: &mut StdRng) -> String {
    match r.gen_range(0..6) {
        0 => String::new(),
        1 => "x".repeat(*pick(r, &[1usize, 31, 32, 33, 255, 256, 300, 65535, 65536])),
        2 => "naïve — \u{1F600}\u{0}\n'\"\\".into(),
        _ => (0..r.gen_range(1..12)).map(|_| *pick(r, &['a', 'Z', '0', ' ', 'é', '\u{4e2d}', '\'', '"', '\\', '%'])).collect(),
    }
}
fn f64s(r: &mut StdRng) -> f64 {
    let rnd = r.gen::<f64>();
    *pick(r, &[0.0, -0.0, 1.5, -1.5, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::from_bits(1), f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::from_bits(0x7ff8_0000_0000_1234), 1e300, 0.1, rnd * 1e6])
}
fn f32s(r: &mut StdRng) -> f32 {
    let rnd = r.gen::<f32>();
    *pick(r, &[0.0, -0.0, 1.5, -1.5, f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::from_bits(1), f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::from_bits(0x7fc0_1234), 0.1, rnd * 1e3])
}
fn gen_value(r: &mut StdRng, t: &T) -> ScalarValue {
    match t {
        T::SMALLINT => ScalarValue::Int16(Some(ints(r, i16::MIN as i128, i16::MAX as i128) as i16)),
        T::I32 | T::INT => ScalarValue::Int32(Some(ints(r, i32::MIN as i128, i32::MAX as i128) as i32)),
        T::I64 | T::BIGINT => ScalarValue::Int64(Some(ints(r, i64::MIN as i128, i64::MAX as i128) as i64)),
        T::F32 | T::FLOAT | T::REAL => ScalarValue::Float32(Some(f32s(r))),
        T::F64 | T::DOUBLE => ScalarValue::Float64(Some(f64s(r))),
        T::CHAR | T::VARCHAR | T::TEXT => ScalarValue::Utf8(Some(text(r))),
        T::BOOLEAN => ScalarValue::Boolean(Some(r.gen())),
        // within the calendar of the query engine's optimizer
        T::DATE => ScalarValue::Date32(Some(ints(r, -90_000_000, 90_000_000) as i32)),
        T::TIMESTAMP => ScalarValue::TimestampNanosecond(Some(ints(r, i64::MIN as i128, i64::MAX as i128) as i64), None),
        T::DECIMAL { precision, scale } => {
            let m = 10i128.pow(*precision as u32) - 1;
            ScalarValue::Decimal128(Some(ints(r, -m, m)), *precision, *scale)
        }
    }
}
/// bit-exact equality (floats by bits)
fn same(a: &ScalarValue, b: &ScalarValue) -> bool {
    match (a, b) {
        (ScalarValue::Float32(Some(x)), ScalarValue::Float32(Some(y))) => x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()),
        (ScalarValue::Float64(Some(x)), ScalarValue::Float64(Some(y))) => x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()),
        _ => a == b,
    }
}

enum Arg {
    Col(Vec<ScalarValue>),
    Lit(ScalarValue),
}
impl Arg {
    fn at(&self, row: usize) -> &ScalarValue {
        match self { Arg::Col(v) => &v[row], Arg::Lit(s) => s }
    }
}

/// Random table split into random batches and partitions (some empty); returns context with table `t(id, a0, a1, ..)`.
fn table(r: &mut StdRng, rows: usize, args: &[Arg], types: &[T], tp: usize) -> SessionContext {
    let mut fields = vec![Field::new("id", DataType::Int64, false)];
    for (i, t) in types.iter().enumerate() {
        fields.push(Field::new(format!("a{i}"), arrow_type(t), true));
    }
    let schema: SchemaRef = Arc::new(Schema::new(fields));
    let mut parts: Vec<Vec<RecordBatch>> = (0..tp).map(|_| vec![]).collect();
    let mut at = 0;
    let mut guard = 0;
    while at < rows || guard == 0 {
        guard += 1;
        let n = if chance(r, 0.15) { 0 } else { (*pick(r, &[1usize, 2, 7, 64, 1000])).min(rows - at) };
        let mut cols: Vec<ArrayRef> = vec![Arc::new(Int64Array::from_iter_values((at..at + n).map(|i| i as i64)))];
        for (a, t) in args.iter().zip(types) {
            let vals: Vec<ScalarValue> = (at..at + n).map(|i| a.at(i).clone()).collect();
            cols.push(if vals.is_empty() { new_empty_array(&arrow_type(t)) } else {
                let arr = ScalarValue::iter_to_array(vals).unwrap();
                // an array with an offset, now and then
                if chance(r, 0.3) {
                    let pad = ScalarValue::try_from(&arrow_type(t)).unwrap().to_array_of_size(3).unwrap();
                    let joined = arrow::compute::concat(&[&pad, &arr]).unwrap();
                    joined.slice(3, n)
                } else { arr }
            });
        }
        let p = r.gen_range(0..tp);
        parts[p].push(RecordBatch::try_new(schema.clone(), cols).unwrap());
        at += n;
    }
    let ctx = SessionContext::new_with_config(SessionConfig::new().with_target_partitions(tp).with_batch_size(*pick(r, &[1usize, 3, 100, 8192])));
    ctx.register_table("t", Arc::new(MemTable::try_new(schema, parts).unwrap())).unwrap();
    ctx
}

/// run f(args) over the table; per-id results
async fn run(ctx: &SessionContext, udf: &ScalarUDF, args: &[Arg], rows: usize) -> Result<(DataType, Vec<ScalarValue>), String> {
    let exprs: Vec<Expr> = args.iter().enumerate().map(|(i, a)| match a { Arg::Col(_) => col(format!("a{i}")), Arg::Lit(s) => lit(s.clone()) }).collect();
    let df = ctx.table("t").await.map_err(|e| e.to_string())?
        .select(vec![col("id"), udf.call(exprs).alias("res")]).map_err(|e| e.to_string())?;
    let batches = df.collect().await.map_err(|e| e.to_string())?;
    let mut out: Vec<Option<ScalarValue>> = vec![None; rows];
    let mut dt = None;
    for b in &batches {
        let ids = b.column(0).as_any().downcast_ref::<Int64Array>().ok_or("id column changed type")?;
        dt = Some(b.column(1).data_type().clone());
        for i in 0..b.num_rows() {
            let id = ids.value(i) as usize;
            if id >= rows || out[id].is_some() {
                return Err(format!("row {id} delivered twice or unknown"));
            }
            out[id] = Some(ScalarValue::try_from_array(b.column(1), i).map_err(|e| e.to_string())?);
        }
    }
    if out.iter().any(|x| x.is_none()) {
        return Err(format!("{} rows missing of {rows}", out.iter().filter(|x| x.is_none()).count()));
    }
    Ok((dt.unwrap_or(DataType::Null), out.into_iter().map(|x| x.unwrap()).collect()))
}

fn wat(s: &str) -> Vec<u8> {
    wat::parse_str(s).expect("harness module")
}
fn wt(t: &T) -> &'static str {
    match arrow_type(t) { DataType::Int32 => "i32", DataType::Int64 => "i64", DataType::Float32 => "f32", DataType::Float64 => "f64", _ => unreachable!() }
}

/// allocator with a canary after every buffer and a log of allocations; exported counters are put into the reports
const ALLOC: &str = r#"
  (memory (export "memory") 64)
  (global $heap (mut i32) (i32.const 2097152))
  (global $na (mut i32) (i32.const 0))      ;; allocations
  (global $nd (mut i32) (i32.const 0))      ;; deallocations
  (global $bad (mut i32) (i32.const 0))     ;; deallocations of something never handed out, or with another size
  (global $canary (mut i32) (i32.const 0))  ;; canaries found overwritten
  ;; table of live buffers at 1024: (ptr,size) pairs, 64 slots
  (func $note (param $p i32) (param $s i32) (local $i i32)
    (block $done (loop $l
      (br_if $done (i32.ge_u (local.get $i) (i32.const 512)))
      (if (i32.eqz (i32.load (i32.add (i32.const 1024) (local.get $i)))) (then
        (i32.store (i32.add (i32.const 1024) (local.get $i)) (local.get $p))
        (i32.store (i32.add (i32.const 1028) (local.get $i)) (local.get $s))
        (return)))
      (local.set $i (i32.add (local.get $i) (i32.const 8)))
      (br $l))))
  (func $take (param $size i32) (result i32) (local $p i32)
    (local.set $p (global.get $heap))
    ;; reuse from the start once the heap is used up: all buffers are short-lived
    (if (i32.gt_u (i32.add (local.get $p) (local.get $size)) (i32.const 4100000)) (then (local.set $p (i32.const 2097152))))
    (global.set $heap (i32.and (i32.add (i32.add (local.get $p) (local.get $size)) (i32.const 24)) (i32.const -8)))
    (i64.store align=1 (i32.add (local.get $p) (local.get $size)) (i64.const 0x5a5aa5a5c3c33c3c))
    (call $note (local.get $p) (local.get $size))
    (local.get $p))
  (func (export "alloc") (param $size i32) (result i32)
    (global.set $na (i32.add (global.get $na) (i32.const 1)))
    (call $take (local.get $size)))
  (func (export "dealloc") (param $p i32) (param $s i32) (local $i i32)
    (global.set $nd (i32.add (global.get $nd) (i32.const 1)))
    (block $done (loop $l
      (br_if $done (i32.ge_u (local.get $i) (i32.const 512)))
      (if (i32.and (i32.eq (i32.load (i32.add (i32.const 1024) (local.get $i))) (local.get $p))
                   (i32.eq (i32.load (i32.add (i32.const 1028) (local.get $i))) (local.get $s))) (then
        (i32.store (i32.add (i32.const 1024) (local.get $i)) (i32.const 0))
        (call $checkc (local.get $p) (local.get $s))
        (return)))
      (local.set $i (i32.add (local.get $i) (i32.const 8)))
      (br $l)))
    (global.set $bad (i32.add (global.get $bad) (i32.const 1))))
  (func $checkc (param $p i32) (param $s i32)
    (if (i64.ne (i64.load align=1 (i32.add (local.get $p) (local.get $s))) (i64.const 0x5a5aa5a5c3c33c3c))
      (then (global.set $canary (i32.add (global.get $canary) (i32.const 1))))))
"#;

/// returns a str32 "<na>,<nd>,<bad>,<canary>" as 4 little endian i32 in hex, then the whole input message in hex
fn observer_module() -> Vec<u8> {
    wat(&format!(r#"(module {ALLOC}
  (func $hex (param $at i32) (param $b i32)
    (i32.store8 (local.get $at) (call $digit (i32.shr_u (local.get $b) (i32.const 4))))
    (i32.store8 (i32.add (local.get $at) (i32.const 1)) (call $digit (i32.and (local.get $b) (i32.const 15)))))
  (func $digit (param $d i32) (result i32)
    (select (i32.add (local.get $d) (i32.const 48)) (i32.add (local.get $d) (i32.const 87)) (i32.lt_u (local.get $d) (i32.const 10))))
  (func (export "f") (param $in i32) (result i32)
    (local $n i32) (local $out i32) (local $i i32) (local $len i32)
    (local.set $n (i32.load align=1 (local.get $in)))
    (call $checkc (local.get $in) (i32.add (local.get $n) (i32.const 4)))
    (local.set $len (i32.add (i32.const 32) (i32.mul (local.get $n) (i32.const 2))))
    (local.set $out (call $take (i32.add (local.get $len) (i32.const 9))))
    (i32.store (i32.const 512) (global.get $na)) (i32.store (i32.const 516) (global.get $nd))
    (i32.store (i32.const 520) (global.get $bad)) (i32.store (i32.const 524) (global.get $canary))
    (i32.store align=1 (local.get $out) (i32.add (local.get $len) (i32.const 5)))
    (i32.store8 offset=4 (local.get $out) (i32.const 0xdb))
    (i32.store8 offset=5 (local.get $out) (i32.shr_u (local.get $len) (i32.const 24)))
    (i32.store8 offset=6 (local.get $out) (i32.shr_u (local.get $len) (i32.const 16)))
    (i32.store8 offset=7 (local.get $out) (i32.shr_u (local.get $len) (i32.const 8)))
    (i32.store8 offset=8 (local.get $out) (local.get $len))
    (loop $l
      (call $hex (i32.add (i32.add (local.get $out) (i32.const 9)) (i32.mul (local.get $i) (i32.const 2)))
                 (i32.load8_u (i32.add (i32.const 512) (local.get $i))))
      (local.set $i (i32.add (local.get $i) (i32.const 1)))
      (br_if $l (i32.lt_u (local.get $i) (i32.const 16))))
    (local.set $i (i32.const 0))
    (block $done (loop $m
      (br_if $done (i32.ge_u (local.get $i) (local.get $n)))
      (call $hex (i32.add (i32.add (local.get $out) (i32.const 41)) (i32.mul (local.get $i) (i32.const 2)))
                 (i32.load8_u (i32.add (i32.add (local.get $in) (i32.const 4)) (local.get $i))))
      (local.set $i (i32.add (local.get $i) (i32.const 1)))
      (br $m)))
    (local.get $out)))"#))
}

fn data_string(b: &[u8]) -> String {
    b.iter().map(|x| format!("\\{x:02x}")).collect()
}

/// f(BIGINT k) answers with the k-th of the given messages
fn scripted_module(answers: &[Vec<u8>]) -> Vec<u8> {
    let mut blob = vec![];
    let mut index = vec![];
    let base = 65536u32;
    let mut off = base;
    for a in answers {
        index.extend((off).to_le_bytes());
        let mut rec = (a.len() as u32).to_le_bytes().to_vec();
        rec.extend(a);
        while rec.len() % 4 != 0 { rec.push(0); }
        off += rec.len() as u32;
        blob.extend(rec);
    }
    // decodes the single integer argument: array header 0x91, then msgpack integer < 2^32
    wat(&format!(r#"(module {ALLOC}
  (data (i32.const {base}) "{}")
  (data (i32.const 8192) "{}")
  (func $be (param $p i32) (param $n i32) (result i32) (local $v i32)
    (block $d (loop $l (br_if $d (i32.eqz (local.get $n)))
      (local.set $v (i32.or (i32.shl (local.get $v) (i32.const 8)) (i32.load8_u (local.get $p))))
      (local.set $p (i32.add (local.get $p) (i32.const 1))) (local.set $n (i32.sub (local.get $n) (i32.const 1))) (br $l)))
    (local.get $v))
  (func (export "f") (param $in i32) (result i32) (local $t i32) (local $k i32) (local $src i32) (local $n i32) (local $out i32)
    (local.set $t (i32.load8_u offset=5 (local.get $in)))
    (if (i32.lt_u (local.get $t) (i32.const 128)) (then (local.set $k (local.get $t))) (else
      (if (i32.eq (local.get $t) (i32.const 0xcc)) (then (local.set $k (call $be (i32.add (local.get $in) (i32.const 6)) (i32.const 1)))) (else
      (if (i32.eq (local.get $t) (i32.const 0xcd)) (then (local.set $k (call $be (i32.add (local.get $in) (i32.const 6)) (i32.const 2)))) (else
      (local.set $k (call $be (i32.add (local.get $in) (i32.const 6)) (i32.const 4))))))) ))
    (local.set $src (i32.load (i32.add (i32.const 8192) (i32.mul (local.get $k) (i32.const 4)))))
    (local.set $n (i32.add (i32.load (local.get $src)) (i32.const 4)))
    (local.set $out (call $take (local.get $n)))
    (memory.copy (local.get $out) (local.get $src) (local.get $n))
    (local.get $out)))"#, data_string(&blob), data_string(&index)))
}

fn encode(v: &Value) -> Vec<u8> {
    let mut b = vec![];
    rmpv::encode::write_value(&mut b, v).unwrap();
    b
}
/// a valid encoding of the value as the documented wire format has it; widths of integers vary
fn wire(r: &mut StdRng, v: &ScalarValue) -> Vec<u8> {
    fn int(r: &mut StdRng, x: i64) -> Vec<u8> {
        match r.gen_range(0..4) {
            0 => { let mut b = vec![0xd3]; b.extend(x.to_be_bytes()); b }
            1 if x >= 0 => { let mut b = vec![0xcf]; b.extend((x as u64).to_be_bytes()); b }
            2 if i32::try_from(x).is_ok() => { let mut b = vec![0xd2]; b.extend((x as i32).to_be_bytes()); b }
            3 if i16::try_from(x).is_ok() => { let mut b = vec![0xd1]; b.extend((x as i16).to_be_bytes()); b }
            _ => encode(&Value::from(x)),
        }
    }
    match v {
        ScalarValue::Int16(Some(x)) => int(r, *x as i64),
        ScalarValue::Int32(Some(x)) | ScalarValue::Date32(Some(x)) => int(r, *x as i64),
        ScalarValue::Int64(Some(x)) | ScalarValue::TimestampNanosecond(Some(x), _) => int(r, *x),
        ScalarValue::Float32(Some(x)) => encode(&Value::F32(*x)),
        ScalarValue::Float64(Some(x)) => encode(&Value::F64(*x)),
        ScalarValue::Utf8(Some(s)) => encode(&Value::from(s.as_str())),
        ScalarValue::Boolean(Some(b)) => encode(&Value::from(*b)),
        ScalarValue::Decimal128(Some(x), p, s) => {
            let mut b = vec![0x94];
            b.extend(int(r, *p as i64));
            b.extend(int(r, *s as i64));
            b.extend(int(r, (*x >> 64) as i64));
            b.extend(int(r, *x as i64));
            b
        }
        _ => vec![0xc0],
    }
}
/// what the module must be given for a value
fn delivered(v: &ScalarValue) -> Value {
    match v {
        ScalarValue::Int16(Some(x)) => Value::from(*x),
        ScalarValue::Int32(Some(x)) | ScalarValue::Date32(Some(x)) => Value::from(*x),
        ScalarValue::Int64(Some(x)) | ScalarValue::TimestampNanosecond(Some(x), _) => Value::from(*x),
        ScalarValue::Float32(Some(x)) => Value::F32(*x),
        ScalarValue::Float64(Some(x)) => Value::F64(*x),
        ScalarValue::Utf8(Some(s)) => Value::from(s.as_str()),
        ScalarValue::Boolean(Some(b)) => Value::from(*b),
        ScalarValue::Decimal128(Some(x), p, s) => Value::Array(vec![Value::from(*p), Value::from(*s), Value::from((*x >> 64) as i64), Value::from(*x as i64)]),
        _ => Value::Nil,
    }
}
fn same_value(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::F32(x), Value::F32(y)) => x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()),
        (Value::F64(x), Value::F64(y)) => x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()),
        _ => a == b,
    }
}
fn volatility(r: &mut StdRng) -> Volatility {
    *pick(r, &[Volatility::Immutable, Volatility::Stable, Volatility::Volatile])
}
fn gen_args(r: &mut StdRng, types: &[T], rows: usize, null_p: f64, lit_p: f64) -> Vec<Arg> {
    types.iter().map(|t| {
        if chance(r, lit_p) { Arg::Lit(gen_value(r, t)) } else {
            Arg::Col((0..rows).map(|_| if chance(r, null_p) { ScalarValue::try_from(&arrow_type(t)).unwrap() } else { gen_value(r, t) }).collect())
        }
    }).collect()
}
fn shape(args: &[Arg]) -> String {
    args.iter().map(|a| if matches!(a, Arg::Col(_)) { 'c' } else { 'k' }).collect()
}
fn has_null(args: &[Arg], row: usize) -> bool {
    args.iter().any(|a| a.at(row).is_null())
}
fn err_class(args: &[Arg], rows: usize) -> &'static str {
    let lits = args.iter().filter(|a| matches!(a, Arg::Lit(_))).count();
    if lits == args.len() { "all-constant" } else if rows == 0 { "empty-table" } else { "rows" }
}

fn native_case(ctx: &Ctx, rt: &tokio::runtime::Runtime, case: u64) {
    let r = &mut ctx.rng_n("native", case);
    let k = r.gen_range(1..=6usize);
    let types: Vec<T> = (0..k).map(|_| pick(r, &native_types()).clone()).collect();
    let which = r.gen_range(0..k);
    let rows = *pick(r, &[0usize, 1, 2, 5, 40, 300]);
    let null_p = if chance(r, 0.3) { 0.2 } else { 0.0 };
    let lit_p = *pick(r, &[0.0, 0.3, 1.0]);
    let args = gen_args(r, &types, rows, null_p, lit_p);
    let params: String = types.iter().map(|t| format!("(param {}) ", wt(t))).collect();
    let module = wat(&format!(r#"(module (func (export "f") {params}(result {}) (local.get {which})) (func (export "g") (result i32) (i32.const 3)))"#, wt(&types[which])));
    let tp = r.gen_range(1..=3);
    let s = table(r, rows, &args, &types, tp);
    let vol = volatility(r);
    let udf = match create_udf_from_wasm(&CreateFunctionLanguage::Wasm, "f", &module, "f", &types, &types[which], vol) {
        Ok(u) => u,
        Err(e) => { ctx.violation("native-create", format!("valid native function refused: {types:?}: {e}")); return; }
    };
    let key = format!("native {types:?} {which} {} {rows} {vol:?}", shape(&args));
    let before = sfv::panics();
    let res = sfv::guarded(|| rt.block_on(run(&s, &udf, &args, rows)));
    ctx.eval(&key, true);
    ctx.seen("signatures", &format!("{types:?}"));
    ctx.count("native rows", rows as u64);
    match res {
        Err(p) => ctx.violation(&format!("native-panic/{}", err_class(&args, rows)), format!("{key}: {p}")),
        Ok(Err(e)) => ctx.violation(&format!("native-error/{}", err_class(&args, rows)), format!("{key}: {e}")),
        Ok(Ok((dt, out))) => {
            if rows > 0 && dt != arrow_type(&types[which]) {
                ctx.violation("native-type", format!("{key}: result type {dt:?}"));
            }
            for (i, v) in out.iter().enumerate() {
                if has_null(&args, i) {
                    ctx.count("native rows with a null argument", 1);
                    if !v.is_null() {
                        ctx.violation("null-argument/native", format!("{key}: row {i} has a null argument, the result is {v:?}"));
                    }
                } else if !same(v, args[which].at(i)) {
                    ctx.violation("native-value", format!("{key}: row {i}: argument {:?}, result {v:?}", args[which].at(i)));
                    break;
                }
            }
        }
    }
    let _ = before;
}

fn observer_case(ctx: &Ctx, rt: &tokio::runtime::Runtime, case: u64, module: &[u8]) {
    let r = &mut ctx.rng_n("observer", case);
    let k = *pick(r, &[1usize, 1, 2, 3, 5, 15, 16, 17]);
    let types: Vec<T> = (0..k).map(|_| msgpack_types(r)).collect();
    let rows = *pick(r, &[0usize, 1, 2, 5, 40]);
    let null_p = if chance(r, 0.3) { 0.2 } else { 0.0 };
    let lit_p = *pick(r, &[0.0, 0.3, 1.0]);
    let args = gen_args(r, &types, rows, null_p, lit_p);
    let tp = r.gen_range(1..=3);
    let s = table(r, rows, &args, &types, tp);
    let vol = volatility(r);
    let key = format!("observer {types:?} {} {rows} {vol:?}", shape(&args));
    let udf = match create_udf_from_wasm(&CreateFunctionLanguage::WasmMessagePack, "f", module, "f", &types, &T::TEXT, vol) {
        Ok(u) => u,
        Err(e) => { ctx.violation("msgpack-create", format!("{key}: {e}")); return; }
    };
    ctx.eval(&key, true);
    ctx.seen("signatures", &format!("{types:?}"));
    ctx.count("msgpack rows delivered", rows as u64);
    match sfv::guarded(|| rt.block_on(run(&s, &udf, &args, rows))) {
        Err(p) => ctx.violation(&format!("msgpack-panic/{}", err_class(&args, rows)), format!("{key}: {p}")),
        Ok(Err(e)) => ctx.violation(&format!("msgpack-error/{}", err_class(&args, rows)), format!("{key}: {}", sfv::trunc(&e, 400))),
        Ok(Ok((_, out))) => {
            for (i, v) in out.iter().enumerate() {
                let ScalarValue::Utf8(Some(h)) = v else {
                    if !has_null(&args, i) { ctx.violation("msgpack-delivered", format!("{key}: row {i} gave {v:?}")); }
                    continue;
                };
                let b = match hex::decode(h) { Ok(b) if b.len() >= 16 => b, _ => { ctx.violation("msgpack-text-result", format!("{key}: row {i}: {}", sfv::trunc(h, 200))); continue; } };
                let word = |k: usize| u32::from_le_bytes(b[4 * k..4 * k + 4].try_into().unwrap());
                ctx.check(word(2) == 0, "msgpack-dealloc", || format!("{key}: row {i}: {} deallocations of buffers or sizes never handed out", word(2)));
                ctx.check(word(3) == 0, "msgpack-overflow", || format!("{key}: row {i}: {} buffers were written past their end; message {}", word(3), hex::encode(&b[16..b.len().min(64)])));
                // input and output buffer of each earlier row given back
                ctx.check(word(1) == 2 * (word(0) - 1), "msgpack-leak", || format!("{key}: row {i}: {} allocations, {} deallocations before this row", word(0), word(1)));
                let got = match rmpv::decode::read_value(&mut &b[16..]) { Ok(v) => v, Err(e) => { ctx.violation("msgpack-delivered", format!("{key}: row {i}: not one message: {e}")); continue; } };
                if encode(&got).len() > b.len() - 16 { ctx.count("short encodings", 1); }
                let want: Vec<Value> = args.iter().map(|a| delivered(a.at(i))).collect();
                let Value::Array(got) = got else { ctx.violation("msgpack-delivered", format!("{key}: row {i}: not an array")); continue; };
                if got.len() != want.len() {
                    ctx.violation("msgpack-delivered", format!("{key}: row {i}: {} arguments delivered", got.len()));
                    continue;
                }
                for (j, (g, w)) in got.iter().zip(&want).enumerate() {
                    if !same_value(g, w) {
                        if *w == Value::Nil {
                            ctx.violation("null-argument/msgpack", format!("{key}: row {i} argument {j} is null, delivered {g:?}"));
                        } else {
                            ctx.violation("msgpack-delivered", format!("{key}: row {i} argument {j}: {:?} was delivered as {g:?}", args[j].at(i)));
                        }
                    }
                }
            }
        }
    }
}

fn scripted_case(ctx: &Ctx, rt: &tokio::runtime::Runtime, case: u64) {
    let r = &mut ctx.rng_n("scripted", case);
    let t = msgpack_types(r);
    let n = *pick(r, &[1usize, 3, 20, 100]);
    let vals: Vec<ScalarValue> = (0..n).map(|_| {
        let mut v = gen_value(r, &t);
        if let ScalarValue::Utf8(Some(s)) = &v { if s.len() > 2000 { v = ScalarValue::Utf8(Some("y".repeat(1000))); } }
        v
    }).collect();
    let answers: Vec<Vec<u8>> = vals.iter().map(|v| wire(r, v)).collect();
    let module = scripted_module(&answers);
    let rows = *pick(r, &[1usize, 5, 150]);
    let idx: Vec<usize> = (0..rows).map(|_| r.gen_range(0..n)).collect();
    let args = vec![Arg::Col(idx.iter().map(|i| ScalarValue::Int64(Some(*i as i64))).collect())];
    let types = vec![T::BIGINT];
    let tp = r.gen_range(1..=3);
    let s = table(r, rows, &args, &types, tp);
    let vol = volatility(r);
    let key = format!("scripted {t:?} {rows} {n} {vol:?}");
    let udf = match create_udf_from_wasm(&CreateFunctionLanguage::WasmMessagePack, "f", &module, "f", &types, &t, vol) {
        Ok(u) => u,
        Err(e) => { ctx.violation("msgpack-create", format!("{key}: {e}")); return; }
    };
    ctx.eval(&key, true);
    ctx.count("msgpack results returned", rows as u64);
    match sfv::guarded(|| rt.block_on(run(&s, &udf, &args, rows))) {
        Err(p) => ctx.violation("msgpack-panic/result", format!("{key}: {p}")),
        Ok(Err(e)) => ctx.violation(&format!("msgpack-error/result/{}", tname(&t)), format!("{key}: {} ", sfv::trunc(&e, 600))),
        Ok(Ok((dt, out))) => {
            ctx.check(dt == arrow_type(&t), "msgpack-type", || format!("{key}: result type {dt:?}"));
            for (i, v) in out.iter().enumerate() {
                if !same(v, &vals[idx[i]]) {
                    ctx.violation(&format!("msgpack-returned/{}", tname(&t)), format!("{key}: row {i}: module returned {:?} ({}), result {v:?}", vals[idx[i]], hex::encode(&answers[idx[i]][..answers[idx[i]].len().min(40)])));
                    break;
                }
            }
        }
    }
}
fn tname(t: &T) -> String {
    t.to_string()
}

/// a result that the declared type cannot hold must be an error, not another value
fn misfit_case(ctx: &Ctx, rt: &tokio::runtime::Runtime, case: u64) {
    let r = &mut ctx.rng_n("misfit", case);
    let (t, v): (T, Value) = match r.gen_range(0..9) {
        0 => (T::SMALLINT, Value::from(*pick(r, &[32768i64, -32769, 65536, i64::MAX, i64::MIN, 1 << 32]))),
        1 => (pick(r, &[T::INT, T::I32, T::DATE]).clone(), Value::from(*pick(r, &[1i64 << 31, -(1i64 << 31) - 1, 1 << 32, i64::MAX, i64::MIN]))),
        2 => (pick(r, &[T::BIGINT, T::I64, T::TIMESTAMP]).clone(), Value::from(*pick(r, &[1u64 << 63, u64::MAX]))),
        3 => (msgpack_types(r), Value::Map(vec![])),
        4 => (pick(r, &[T::TEXT, T::BOOLEAN]).clone(), Value::from(5)),
        5 => (T::DECIMAL { precision: 10, scale: 2 }, Value::Array(vec![Value::from(9), Value::from(2), Value::from(0), Value::from(1)])),
        6 => (T::DECIMAL { precision: 10, scale: 2 }, Value::Array(vec![Value::from(10), Value::from(3), Value::from(0), Value::from(1)])),
        7 => (T::DECIMAL { precision: 10, scale: 2 }, Value::Array(vec![Value::from(10), Value::from(2), Value::from(0)])),
        _ => (pick(r, &[T::SMALLINT, T::INT, T::BIGINT, T::DATE, T::TIMESTAMP, T::BOOLEAN]).clone(), Value::from("1")),
    };
    let module = scripted_module(&[encode(&v)]);
    let args = vec![Arg::Col(vec![ScalarValue::Int64(Some(0))])];
    let s = table(r, 1, &args, &[T::BIGINT], 1);
    let key = format!("misfit {t:?} {v:?}");
    let Ok(udf) = create_udf_from_wasm(&CreateFunctionLanguage::WasmMessagePack, "f", &module, "f", &vec![T::BIGINT], &t, Volatility::Volatile) else { return };
    ctx.eval(&key, true);
    ctx.count("results outside the declared type", 1);
    match sfv::guarded(|| rt.block_on(run(&s, &udf, &args, 1))) {
        Err(p) => ctx.violation("msgpack-panic/misfit", format!("{key}: {p}")),
        Ok(Ok((_, out))) => ctx.violation("msgpack-misfit-accepted", format!("{key}: result {:?}", out[0])),
        Ok(Err(_)) => {}
    }
}

pub fn c20(ctx: &Ctx) {
    ctx.rule("one evaluation = one query calling a registered function over a generated table; distinct by signature, argument shape, rows and volatility");
    let rt = rt();
    let observer = observer_module();
    let n = ctx.n(150, 4000) as u64;
    for case in 0..n {
        if ctx.out_of_time() { break; }
        native_case(ctx, &rt, case);
        observer_case(ctx, &rt, case, &observer);
        scripted_case(ctx, &rt, case);
        if case % 3 == 0 { misfit_case(ctx, &rt, case); }
    }
    // functions without arguments
    for case in 0..ctx.n(12, 200) as u64 {
        let r = &mut ctx.rng_n("noargs", case);
        let rows = *pick(r, &[0usize, 1, 2, 50]);
        let ids = vec![Arg::Col((0..rows).map(|i| ScalarValue::Int64(Some(i as i64))).collect())];
        let s = table(r, rows, &ids, &[T::BIGINT], 2);
        let k = r.gen_range(0..120i64);
        let native = chance(r, 0.5);
        let vol = volatility(r);
        let made = if native {
            let m = wat(&format!(r#"(module (func (export "f") (result i64) (i64.const {k})))"#));
            create_udf_from_wasm(&CreateFunctionLanguage::Wasm, "f", &m, "f", &vec![], &T::BIGINT, vol)
        } else {
            create_udf_from_wasm(&CreateFunctionLanguage::WasmMessagePack, "f", &wat(&answer(1, &[k as u8])), "f", &vec![], &T::BIGINT, vol)
        };
        let Ok(udf) = made else { ctx.violation("native-create", "function without arguments refused"); continue };
        ctx.eval(&format!("noargs {native} {rows} {k} {vol:?}"), true);
        match sfv::guarded(|| rt.block_on(run(&s, &udf, &[], rows))) {
            Err(p) => ctx.violation("no-arguments-panic", p),
            Ok(Err(e)) => ctx.violation("no-arguments-error", format!("native {native}, {rows} rows: {e}")),
            Ok(Ok((_, out))) => { ctx.check(out.iter().all(|v| *v == ScalarValue::Int64(Some(k))), "no-arguments-value", || format!("{out:?} wanted {k}")); }
        }
    }
    // batches larger than the engine's usual ones
    let echo = wat(r#"(module (memory (export "memory") 1)
      (func (export "alloc") (param i32) (result i32) (i32.const 1024)) (func (export "dealloc") (param i32 i32))
      (func (export "f") (param $in i32) (result i32) (local $n i32)
        (local.set $n (i32.sub (i32.load (local.get $in)) (i32.const 1)))
        (i32.store (i32.const 4096) (local.get $n))
        (memory.copy (i32.const 4100) (i32.add (local.get $in) (i32.const 5)) (local.get $n))
        (i32.const 4096)))"#);
    let twice = wat(r#"(module (func (export "f") (param i64) (result i64) (i64.mul (local.get 0) (i64.const 2))))"#);
    for (k, (lang, module, times)) in [(CreateFunctionLanguage::Wasm, &twice, 2i64), (CreateFunctionLanguage::WasmMessagePack, &echo, 1)].into_iter().enumerate() {
        let Ok(udf) = create_udf_from_wasm(&lang, "f", module, "f", &vec![T::BIGINT], &T::BIGINT, Volatility::Volatile) else { ctx.violation("native-create", "functions refused"); continue };
        for rows in if ctx.thorough { vec![8193usize, 65_537, 140_001, 1_100_000] } else { vec![8193, 70_001] } {
            let r = &mut ctx.rng_n("large", (rows + k) as u64);
            let values: Vec<i64> = (0..rows as i64).map(|i| if chance(r, 0.1) { r.gen::<i64>() / 4 } else { i }).collect();
            let arg = ::datafusion::logical_expr::ColumnarValue::Array(Arc::new(::datafusion::arrow::array::Int64Array::from(values.clone())));
            ctx.eval(&format!("large {k} {rows}"), true);
            let bad = match sfv::guarded(|| udf.invoke_batch(&[arg], rows)) {
                Err(p) => Some(format!("panic: {p}")),
                Ok(Err(e)) => Some(e.to_string()),
                Ok(Ok(::datafusion::logical_expr::ColumnarValue::Array(a))) => match a.as_any().downcast_ref::<::datafusion::arrow::array::Int64Array>() {
                    Some(a) if a.len() == rows => (0..rows).find(|i| a.is_null(*i) || a.value(*i) != values[*i] * times).map(|i| format!("row {i} is {:?}, expected {}", a.value(i), values[i] * times)),
                    _ => Some(format!("{} values of type {}", a.len(), a.data_type())),
                },
                Ok(Ok(v)) => Some(format!("{v:?}")),
            };
            ctx.check(bad.is_none(), "large-batch", || format!("{lang:?}, {rows} rows at once: {}", bad.unwrap()));
        }
    }
    // many queries over the same functions at the same time
    let module = wat(r#"(module (func (export "f") (param i64 i64) (result i64) (i64.sub (i64.mul (local.get 0) (i64.const 3)) (local.get 1))))"#);
    let f = create_udf_from_wasm(&CreateFunctionLanguage::Wasm, "f", &module, "f", &vec![T::BIGINT, T::BIGINT], &T::BIGINT, Volatility::Volatile);
    let g = create_udf_from_wasm(&CreateFunctionLanguage::WasmMessagePack, "g", &observer, "f", &vec![T::BIGINT], &T::TEXT, Volatility::Volatile);
    let (Ok(f), Ok(g)) = (f, g) else { ctx.violation("native-create", "functions refused"); return };
    for round in 0..ctx.n(4, 100) as u64 {
        if ctx.out_of_time() { break; }
        let r = &mut ctx.rng_n("conc", round);
        let mut hs = vec![];
        for q in 0..8 {
            let rows = r.gen_range(1..120);
            let args = gen_args(r, &[T::BIGINT, T::BIGINT], rows, 0.0, 0.2);
            let args1 = gen_args(r, &[T::BIGINT], rows, 0.0, 0.0);
            let s = table(r, rows, &args, &[T::BIGINT, T::BIGINT], 2);
            let s1 = table(r, rows, &args1, &[T::BIGINT], 2);
            let (f, g) = (f.clone(), g.clone());
            hs.push(rt.spawn(async move {
                let a = run(&s, &f, &args, rows).await;
                let b = run(&s1, &g, &args1, rows).await;
                (q, rows, args, args1, a, b)
            }));
        }
        for h in hs {
            match rt.block_on(h) {
                Err(e) => ctx.violation("concurrent-panic", e.to_string()),
                Ok((q, rows, args, args1, a, b)) => {
                    ctx.eval(&(round, q), true);
                    ctx.count("concurrent queries", 2);
                    let get = |v: &ScalarValue| if let ScalarValue::Int64(Some(x)) = v { *x } else { 0 };
                    match a {
                        Err(e) => {
                            ctx.violation(&format!("native-error/{}", err_class(&args, rows)), format!("concurrent query failed: {e}"));
                        }
                        Ok((_, out)) => for i in 0..rows {
                            let want = get(args[0].at(i)).wrapping_mul(3).wrapping_sub(get(args[1].at(i)));
                            if out[i] != ScalarValue::Int64(Some(want)) { ctx.violation("concurrent-value", format!("row {i}: {:?} wanted {want}", out[i])); break; }
                        },
                    }
                    match b {
                        Err(e) => ctx.violation("concurrent-error", e),
                        Ok((_, out)) => for i in 0..rows {
                            let want = hex::encode(encode(&Value::Array(vec![delivered(args1[0].at(i))])));
                            let ok = matches!(&out[i], ScalarValue::Utf8(Some(h)) if h.len() > 32 && h[32..] == want);
                            if !ok { ctx.violation("concurrent-value", format!("row {i}: {:?} wanted {want}", out[i])); break; }
                        },
                    }
                }
            }
        }
    }
    // a module that keeps state: what other queries made of it never shows in the next one
    let counting = wat(r#"(module (global $n (mut i64) (i64.const 0)) (func (export "f") (param i64) (result i64)
      (if (i64.eq (local.get 0) (i64.const 13)) (then unreachable))
      (global.set $n (i64.add (global.get $n) (i64.const 1))) (i64.add (i64.mul (global.get $n) (i64.const 1000)) (local.get 0))))"#);
    let counting_mp = wat(r#"(module (memory (export "memory") 2) (global $n (mut i32) (i32.const 0))
      (func (export "alloc") (param i32) (result i32) (i32.const 4096)) (func (export "dealloc") (param i32 i32))
      (func (export "f") (param $in i32) (result i32)
        (if (i32.eq (i32.load8_u offset=5 (local.get $in)) (i32.const 13)) (then unreachable))
        (global.set $n (i32.add (global.get $n) (i32.const 1)))
        (i32.store (i32.const 32768) (i32.const 3)) (i32.store8 (i32.const 32772) (i32.const 0xcd))
        (i32.store8 (i32.const 32773) (i32.shr_u (global.get $n) (i32.const 8))) (i32.store8 (i32.const 32774) (global.get $n))
        (i32.const 32768)))"#);
    for (lang, module) in [(CreateFunctionLanguage::Wasm, &counting), (CreateFunctionLanguage::WasmMessagePack, &counting_mp)] {
        for vol in [Volatility::Immutable, Volatility::Stable, Volatility::Volatile] {
            let r = &mut ctx.rng("state");
            let Ok(udf) = create_udf_from_wasm(&lang, "f", module, "f", &vec![T::BIGINT], &T::BIGINT, vol) else { ctx.violation("native-create", "function with state refused"); continue };
            for i in 0..4 {
                let rows = 9;
                let args = vec![Arg::Col((0..rows).map(|k| ScalarValue::Int64(Some(k as i64))).collect())];
                let s = table(r, rows, &args, &[T::BIGINT], 1);
                let out = sfv::guarded(|| rt.block_on(run(&s, &udf, &args, rows)));
                ctx.eval(&format!("state {lang:?} {vol:?} {i}"), true);
                ctx.count("queries over modules with state", 1);
                match out {
                    Ok(Ok((_, v))) => {
                        // batches may be cut differently: the rows of one batch count up from one
                        let n = v.iter().map(|x| if let ScalarValue::Int64(Some(x)) = x { if *x > 999 { x / 1000 } else { *x } } else { -1 }).max().unwrap_or(0);
                        ctx.check(n >= 1 && n <= rows as i64, "state-survives-query", || format!("{lang:?} {vol:?}, query {i}: a module counting its calls answers {v:?} over {rows} rows"));
                    }
                    Ok(Err(e)) => ctx.violation("state-query-fails", format!("{lang:?} {vol:?}, query {i}: {e}")),
                    Err(p) => ctx.violation("native-panic/state", p),
                }
                if i == 2 {
                    let bad = vec![Arg::Col(vec![ScalarValue::Int64(Some(1)), ScalarValue::Int64(Some(13))])];
                    let s = table(r, 2, &bad, &[T::BIGINT], 1);
                    let out = sfv::guarded(|| rt.block_on(run(&s, &udf, &bad, 2)));
                    ctx.check(matches!(out, Ok(Err(_))), "trap-not-an-error", || format!("{lang:?}: {out:?}"));
                }
            }
        }
    }
    ctx.assume("modules keep no state between rows, except where the check says so");
}

// ------------------------------------------------------------------------------------------------ C21

/// module text and how it is registered
struct Hostile {
    name: String,
    language: CreateFunctionLanguage,
    module: Vec<u8>,
    entry: String,
    input: Vec<T>,
    ret: T,
}

fn mp(body: &str, extra: &str) -> String {
    format!(r#"(module {extra} (memory (export "memory") 2)
      (func (export "alloc") (param i32) (result i32) (i32.const 4096))
      (func (export "dealloc") (param i32 i32))
      (func (export "f") (param $in i32) (result i32) {body}))"#)
}
/// module whose answer is the given length prefix and bytes
fn answer(len: u32, bytes: &[u8]) -> String {
    let mut b = len.to_le_bytes().to_vec();
    b.extend(bytes);
    mp("(i32.const 32768)", "").replace("(memory (export \"memory\") 2)", &format!("(memory (export \"memory\") 20) (data (i32.const 32768) \"{}\")", data_string(&b)))
}

fn hostile(r: &mut StdRng, case: u64) -> Hostile {
    let mut language = CreateFunctionLanguage::WasmMessagePack;
    let mut entry = "f".to_string();
    let mut input = vec![T::BIGINT];
    let mut ret = pick(r, &[T::BIGINT, T::TEXT, T::DOUBLE, T::BOOLEAN, T::SMALLINT, T::FLOAT, T::DATE, T::TIMESTAMP, T::DECIMAL { precision: 10, scale: 2 }]).clone();
    let ptr = *pick(r, &[0i64, 1, 3, -1, -4, -2147483648, 2147483647, 131068, 131069, 131071, 131072, 65536, 4096]);
    let kinds = 32;
    let (name, text): (String, Result<String, Vec<u8>>) = match case % kinds {
        0 => ("garbage bytes".into(), Err((0..r.gen_range(0..200)).map(|_| r.gen()).collect())),
        1 => ("truncated module".into(), Err({ let m = observer_module(); m[..r.gen_range(0..m.len())].to_vec() })),
        2 => ("mutated module".into(), Err({
            let mut m = observer_module();
            for _ in 0..r.gen_range(1..4) { let i = r.gen_range(8..m.len()); m[i] = r.gen(); }
            m
        })),
        3 => ("missing export".into(), Ok({
            let all = [r#"(memory (export "memory") 1)"#, r#"(func (export "alloc") (param i32) (result i32) (i32.const 8))"#, r#"(func (export "dealloc") (param i32 i32))"#, r#"(func (export "f") (param i32) (result i32) (i32.const 8))"#];
            let skip = r.gen_range(0..4);
            format!("(module {})", all.iter().enumerate().filter(|(i, _)| *i != skip).map(|(_, s)| *s).collect::<String>())
        })),
        4 => ("exports of another kind".into(), Ok(r#"(module (global (export "memory") i32 (i32.const 1)) (memory (export "alloc") 1) (table (export "dealloc") 1 funcref) (func (export "f") (param i32) (result i32) (i32.const 0)))"#.into())),
        5 => ("wrong signatures".into(), Ok({
            let sig = *pick(r, &["(param i64) (result i32) (i32.const 8)", "(param i32) (result i64) (i64.const 8)", "(param i32)", "(result i32) (i32.const 8)", "(param i32 i32) (result i32) (i32.const 8)"]);
            mp("(i32.const 8)", "").replace("(func (export \"f\") (param $in i32) (result i32) (i32.const 8))", &format!("(func (export \"f\") {sig})"))
        })),
        6 => ("trap".into(), Ok(mp(*pick(r, &["unreachable", "(i32.div_s (i32.const 1) (i32.const 0))", "(i32.trunc_f32_s (f32.const nan))", "(i32.load (i32.const -4))", "(i32.div_s (i32.const -2147483648) (i32.const -1))"]), ""))),
        7 => ("endless recursion".into(), Ok(mp("(call $rec (local.get $in))", "(func $rec (param i32) (result i32) (i32.add (i32.const 1) (call $rec (local.get 0))))"))),
        8 => ("result pointer".into(), Ok(mp(&format!("(i32.const {})", ptr as i32), ""))),
        9 => ("alloc pointer".into(), Ok(mp("(i32.const 4096)", "").replace("(i32.const 4096))\n", &format!("(i32.const {}))\n", ptr as i32)))),
        10 => ("result length".into(), Ok(answer(*pick(r, &[0u32, 1, 0xffff_ffff, 0x7fff_ffff, 0x8000_0000, 0x7fff_fffc, 1 << 20, 1 << 16, 0x7fff_fffb]), &[1, 2, 3]))),
        11 => ("random result bytes".into(), Ok({ let n = r.gen_range(0..64); let b: Vec<u8> = (0..n).map(|_| r.gen()).collect(); answer(n as u32, &b) })),
        12 => ("deep nesting".into(), Ok({ let n = *pick(r, &[10usize, 100, 1000, 10_000, 100_000, 1_000_000]); answer(n as u32 + 1, &[vec![*pick(r, &[0x91u8, 0x81]); n], vec![0xc0]].concat()) })),
        13 => ("huge announced array".into(), Ok({ let h = *pick(r, &[0xddu8, 0xdf, 0xdb, 0xc6, 0xc9]); answer(5, &[&[h][..], &[0xff; 4]].concat()) })),
        14 => ("huge announced array, no length".into(), Ok({ let h = *pick(r, &[0xddu8, 0xdf, 0xdb, 0xc6, 0xc9]); answer(5, &[&[h][..], &[0x7f, 0xff, 0xff, 0xff]].concat()) })),
        15 => ("invalid utf-8 text".into(), { ret = T::TEXT; Ok(answer(3, &[0xa2, 0xff, 0xfe])) }),
        16 => ("start function traps".into(), Ok(mp("(i32.const 0)", "(func $s unreachable) (start $s)"))),
        17 => ("unknown import".into(), Ok(mp("(i32.const 0)", *pick(r, &[r#"(import "env" "x" (func))"#, r#"(import "wasi_snapshot_preview1" "no_such" (func))"#, r#"(import "env" "memory" (memory 1))"#])))),
        18 => ("wasm: wrong result type".into(), { language = CreateFunctionLanguage::Wasm; ret = pick(r, &[T::I32, T::F32, T::F64]).clone(); Ok(r#"(module (func (export "f") (param i64) (result i64) (local.get 0)))"#.into()) }),
        19 => ("wasm: wrong parameter types".into(), { language = CreateFunctionLanguage::Wasm; ret = T::I64; input = vec![pick(r, &[T::I32, T::F32, T::F64]).clone()]; Ok(r#"(module (func (export "f") (param i64) (result i64) (local.get 0)))"#.into()) }),
        20 => ("wasm: wrong number of parameters or results".into(), { language = CreateFunctionLanguage::Wasm; ret = T::I64; Ok((*pick(r, &[r#"(module (func (export "f") (result i64) (i64.const 1)))"#, r#"(module (func (export "f") (param i64)))"#, r#"(module (func (export "f") (param i64) (result i64 i64) (local.get 0) (local.get 0)))"#])).into()) }),
        21 => ("wasm: unsupported input type".into(), { language = CreateFunctionLanguage::Wasm; ret = T::I64; input = vec![pick(r, &[T::TEXT, T::SMALLINT, T::BOOLEAN, T::DATE, T::TIMESTAMP, T::CHAR, T::VARCHAR, T::DECIMAL { precision: 5, scale: 1 }]).clone()]; Ok(r#"(module (func (export "f") (param i64) (result i64) (local.get 0)))"#.into()) }),
        22 => ("wasm: unsupported result type".into(), { language = CreateFunctionLanguage::Wasm; ret = pick(r, &[T::TEXT, T::SMALLINT, T::BOOLEAN, T::DATE, T::TIMESTAMP]).clone(); Ok(r#"(module (func (export "f") (param i64) (result i64) (local.get 0)))"#.into()) }),
        23 => ("wasm: no arguments".into(), { language = if chance(r, 0.5) { CreateFunctionLanguage::Wasm } else { CreateFunctionLanguage::WasmMessagePack }; ret = T::I64; input = vec![]; Ok(if language == CreateFunctionLanguage::Wasm { r#"(module (func (export "f") (result i64) (i64.const 7)))"#.into() } else { answer(1, &[7]) }) }),
        24 => ("wasm: reference or vector results".into(), { language = CreateFunctionLanguage::Wasm; ret = T::I64; Ok((*pick(r, &[r#"(module (func (export "f") (param i64) (result externref) (ref.null extern)))"#, r#"(module (func (export "f") (param i64) (result v128) (v128.const i64x2 1 2)))"#, r#"(module (func $g) (func (export "f") (param i64) (result funcref) (ref.null func)))"#])).into()) }),
        25 => ("wasm: trap or recursion".into(), { language = CreateFunctionLanguage::Wasm; ret = T::I64; Ok((*pick(r, &[r#"(module (func (export "f") (param i64) (result i64) unreachable))"#, r#"(module (func $f (export "f") (param i64) (result i64) (i64.add (i64.const 1) (call $f (local.get 0)))))"#, r#"(module (func (export "f") (param i64) (result i64) (i64.div_s (local.get 0) (i64.const 0))))"#])).into()) }),
        26 => ("wasm: imports".into(), { language = CreateFunctionLanguage::Wasm; ret = T::I64; Ok(r#"(module (import "wasi_snapshot_preview1" "proc_exit" (func (param i32))) (func (export "f") (param i64) (result i64) (call 0 (i32.const 7)) (local.get 0)))"#.into()) }),
        27 => ("exit".into(), Ok(mp("(call $exit (i32.const 9)) (i32.const 0)", r#"(import "wasi_snapshot_preview1" "proc_exit" (func $exit (param i32)))"#))),
        28 => ("entry is not a function".into(), { entry = "memory".into(); language = if chance(r, 0.5) { CreateFunctionLanguage::Wasm } else { CreateFunctionLanguage::WasmMessagePack }; Ok(mp("(i32.const 0)", "")) }),
        29 => ("big memory".into(), Ok(mp("(drop (memory.grow (i32.const 60000))) (i32.const -65536)", ""))),
        30 => ("exit on start".into(), Ok(mp("(i32.const 0)", r#"(import "wasi_snapshot_preview1" "proc_exit" (func $exit (param i32))) (func $s (call $exit (i32.const 3))) (start $s)"#))),
        _ => ("result in two gigabytes".into(), Ok(mp("(drop (memory.grow (i32.const 40000))) (i32.store (i32.const 131072) (i32.const 2147483646)) (i32.const 131072)", ""))),
    };
    let module = match text {
        Ok(t) => wat::parse_str(&t).unwrap_or_else(|e| panic!("harness module {name}: {e}\n{t}")),
        Err(b) => b,
    };
    Hostile { name, language, module, entry, input, ret }
}

/// runs hostile cases from..to in this process; one line before and after each
pub fn child_hostile(a: &[String]) -> i32 {
    let (seed, from, to): (u64, u64, u64) = (a[0].parse().unwrap(), a[1].parse().unwrap(), a[2].parse().unwrap());
    std::env::set_var("VERIF_SEED", seed.to_string());
    let ctx = Ctx::new("C21");
    let rt = rt();
    let good = observer_module();
    let good_udf = create_udf_from_wasm(&CreateFunctionLanguage::WasmMessagePack, "good", &good, "f", &vec![T::BIGINT], &T::TEXT, Volatility::Volatile).unwrap();
    for case in from..to {
        let r = &mut ctx.rng_n("hostile", case);
        let h = hostile(r, case);
        println!("START {case} {}", h.name);
        let p0 = sfv::panics();
        let rows = *pick(r, &[1usize, 3]);
        let args = gen_args(r, &h.input, rows, 0.0, 0.1);
        let s = table(r, rows, &args, &h.input, 1);
        let created = sfv::guarded(|| create_udf_from_wasm(&h.language, "bad", &h.module, &h.entry, &h.input, &h.ret, Volatility::Volatile));
        let outcome = match created {
            Err(p) => format!("PANIC create: {p}"),
            Ok(Err(_)) => "rejected".into(),
            Ok(Ok(udf)) => match sfv::guarded(|| rt.block_on(run(&s, &udf, &args, rows))) {
                Err(p) => format!("PANIC call: {p}"),
                Ok(Err(_)) => "call-error".to_string(),
                Ok(Ok(_)) => "value".to_string(),
            },
        };
        let outcome = if sfv::panics() != p0 && !outcome.starts_with("PANIC") { format!("PANIC inside: {}", sfv::last_panic_any()) } else { outcome };
        // other functions keep working
        let gargs = vec![Arg::Col(vec![ScalarValue::Int64(Some(77))])];
        let gs = table(r, 1, &gargs, &[T::BIGINT], 1);
        let good_ok = matches!(rt.block_on(run(&gs, &good_udf, &gargs, 1)), Ok((_, v)) if matches!(&v[0], ScalarValue::Utf8(Some(h)) if h.ends_with("914d")));
        println!("DONE {case} {} {}", if good_ok { "good" } else { "BROKEN" }, outcome.replace('\n', " "));
    }
    0
}

fn sandbox_module(secret_dir: &str) -> Vec<u8> {
    // probes the host through WASI and answers with a text of one digit/letter per probe
    let p = secret_dir.trim_start_matches('/');
    wat(&format!(r#"(module
  (import "wasi_snapshot_preview1" "args_sizes_get" (func $args (param i32 i32) (result i32)))
  (import "wasi_snapshot_preview1" "environ_sizes_get" (func $env (param i32 i32) (result i32)))
  (import "wasi_snapshot_preview1" "fd_prestat_get" (func $pre (param i32 i32) (result i32)))
  (import "wasi_snapshot_preview1" "path_open" (func $open (param i32 i32 i32 i32 i32 i64 i64 i32 i32) (result i32)))
  (import "wasi_snapshot_preview1" "fd_read" (func $read (param i32 i32 i32 i32) (result i32)))
  (import "wasi_snapshot_preview1" "fd_write" (func $write (param i32 i32 i32 i32) (result i32)))
  (import "wasi_snapshot_preview1" "path_unlink_file" (func $unlink (param i32 i32 i32) (result i32)))
  (import "wasi_snapshot_preview1" "path_create_directory" (func $mkdir (param i32 i32 i32) (result i32)))
  (import "wasi_snapshot_preview1" "sock_accept" (func $accept (param i32 i32 i32) (result i32)))
  (memory (export "memory") 4)
  (data (i32.const 20000) "{p}/secret")
  (data (i32.const 21000) "{p}/created")
  (data (i32.const 22000) "SANDBOX-MARKER-ON-STDOUT\0a")
  (func (export "alloc") (param i32) (result i32) (i32.const 4096))
  (func (export "dealloc") (param i32 i32))
  (global $n (mut i32) (i32.const 0))
  (func $say (param i32)  ;; 1 = the probe reached something
    (i32.store8 (i32.add (i32.const 40007) (global.get $n)) (i32.add (i32.const 48) (local.get 0)))
    (global.set $n (i32.add (global.get $n) (i32.const 1))))
  (func (export "f") (param i32) (result i32) (local $fd i32)
    (global.set $n (i32.const 0))
    ;; 0: arguments, 1: environment
    (drop (call $args (i32.const 100) (i32.const 104))) (call $say (i32.ne (i32.load (i32.const 100)) (i32.const 0)))
    (drop (call $env (i32.const 100) (i32.const 104))) (call $say (i32.ne (i32.load (i32.const 100)) (i32.const 0)))
    ;; per descriptor: preopened directory, open file, create file, unlink, mkdir, accept
    (local.set $fd (i32.const 0))
    (loop $l
      (call $say (i32.eqz (call $pre (local.get $fd) (i32.const 100))))
      (call $say (i32.eqz (call $open (local.get $fd) (i32.const 0) (i32.const 20000) (i32.const {}) (i32.const 0) (i64.const 2) (i64.const 2) (i32.const 0) (i32.const 100))))
      (call $say (i32.eqz (call $open (local.get $fd) (i32.const 0) (i32.const 21000) (i32.const {}) (i32.const 1) (i64.const 64) (i64.const 64) (i32.const 0) (i32.const 100))))
      (call $say (i32.eqz (call $unlink (local.get $fd) (i32.const 20000) (i32.const {}))))
      (call $say (i32.eqz (call $mkdir (local.get $fd) (i32.const 21000) (i32.const {}))))
      (call $say (i32.eqz (call $accept (local.get $fd) (i32.const 0) (i32.const 100))))
      (local.set $fd (i32.add (local.get $fd) (i32.const 1)))
      (br_if $l (i32.lt_u (local.get $fd) (i32.const 12))))
    ;; standard input
    (i32.store (i32.const 120) (i32.const 23000)) (i32.store (i32.const 124) (i32.const 64)) (i32.store (i32.const 128) (i32.const 0))
    (drop (call $read (i32.const 0) (i32.const 120) (i32.const 1) (i32.const 128)))
    (call $say (i32.ne (i32.load (i32.const 128)) (i32.const 0)))
    ;; standard output
    (i32.store (i32.const 120) (i32.const 22000)) (i32.store (i32.const 124) (i32.const 25))
    (drop (call $write (i32.const 1) (i32.const 120) (i32.const 1) (i32.const 128)))
    (i32.store (i32.const 40000) (i32.add (global.get $n) (i32.const 3)))
    (i32.store8 (i32.const 40004) (i32.const 0xda))
    (i32.store8 (i32.const 40005) (i32.const 0))
    (i32.store8 (i32.const 40006) (global.get $n))
    (i32.const 40000)))"#, p.len() + 7, p.len() + 8, p.len() + 7, p.len() + 8))
}
pub fn child_sandbox(a: &[String]) -> i32 {
    let rt = rt();
    let m = sandbox_module(&a[0]);
    let udf = match create_udf_from_wasm(&CreateFunctionLanguage::WasmMessagePack, "probe", &m, "f", &vec![T::BIGINT], &T::TEXT, Volatility::Volatile) {
        Ok(u) => u,
        Err(e) => { println!("CREATE {e}"); return 3; }
    };
    let args = vec![Arg::Col(vec![ScalarValue::Int64(Some(1))])];
    let r = &mut <StdRng as rand::SeedableRng>::seed_from_u64(1);
    let s = table(r, 1, &args, &[T::BIGINT], 1);
    match rt.block_on(run(&s, &udf, &args, 1)) {
        Ok((_, v)) => println!("PROBES {}", v[0]),
        Err(e) => println!("CALL {e}"),
    }
    0
}

pub fn c21(ctx: &Ctx) {
    ctx.rule("one evaluation = one hostile module registered and called in a child process; distinct by kind of module and outcome");
    let total = ctx.n(256, 6400) as u64;
    let mut next = 0u64;
    let seed = ctx.seed.to_string();
    while next < total && !ctx.out_of_time() {
        let to = (next + 64).min(total);
        let res = match sfv::run_child(&["--child-hostile", &seed, &next.to_string(), &to.to_string()], b"", Duration::from_secs(240)) {
            Ok(r) => r,
            Err(e) => { ctx.inconclusive(format!("cannot start child: {e}")); return; }
        };
        let mut started: Option<(u64, String)> = None;
        for line in res.stdout.lines() {
            if let Some(x) = line.strip_prefix("START ") {
                let (n, name) = x.split_once(' ').unwrap();
                started = Some((n.parse().unwrap(), name.into()));
            } else if let Some(x) = line.strip_prefix("DONE ") {
                let (n, rest) = x.split_once(' ').unwrap();
                let (good, outcome) = rest.split_once(' ').unwrap();
                let (_, name) = started.take().unwrap();
                let kind = outcome.split_whitespace().next().unwrap_or("");
                ctx.eval(&format!("{name}/{kind}/{}", n.parse::<u64>().unwrap() / 32 % 8), true);
                ctx.count(&format!("outcome {kind}"), 1);
                ctx.seen("kinds", &name);
                if kind == "PANIC" {
                    ctx.violation(&format!("panic/{name}"), format!("case {n}: {outcome}"));
                }
                if good != "good" {
                    ctx.violation("other-function-broken", format!("after case {n} ({name})"));
                }
                next = n.parse::<u64>().unwrap() + 1;
            }
        }
        if let Some((n, name)) = started {
            if res.timed_out {
                ctx.inconclusive(format!("case {n} ({name}) timed out"));
                return;
            }
            ctx.violation(&format!("abort/{name}"), format!("case {n}: the process ended with code {:?} signal {:?}: {}", res.code, res.signal, sfv::trunc(&res.stderr, 400)));
            next = n + 1;
        } else if next < to {
            ctx.inconclusive(format!("child ended early: {:?} {:?} {}", res.code, res.signal, sfv::trunc(&res.stderr, 400)));
            return;
        }
    }
    // what a module can reach of the host
    let dir = super::catalog::scratch();
    let secret = dir.path().join("secret");
    std::fs::write(&secret, b"secret").unwrap();
    std::env::set_var("SFV_SECRET", "in-the-environment");
    match sfv::run_child(&["--child-sandbox", &dir.path().to_string_lossy()], b"secret on stdin\n", Duration::from_secs(60)) {
        Err(e) => ctx.inconclusive(format!("cannot start child: {e}")),
        Ok(res) => {
            let probes = res.stdout.lines().find_map(|l| l.strip_prefix("PROBES ")).map(|s| s.to_string());
            match probes {
                None => ctx.inconclusive(format!("the probing module gave no answer: {} {}", res.stdout, sfv::trunc(&res.stderr, 300))),
                Some(p) => {
                    ctx.eval(&p, true);
                    ctx.count("sandbox probes", p.len() as u64);
                    ctx.sample(sfv::serde_json::json!({"probes": p}));
                    let names = |i: usize| match i { 0 => "arguments".into(), 1 => "environment".into(), i if i == p.len() - 1 => "standard-input".to_string(), i => format!("descriptor-{}", ["preopen", "open", "create", "unlink", "mkdir", "accept"][(i - 2) % 6]) };
                    for (i, c) in p.chars().enumerate() {
                        if c != '0' { ctx.violation(&format!("sandbox/{}", names(i)), format!("probe {i} of {p} reached the host")); }
                    }
                }
            }
            ctx.check(!res.stdout.contains("SANDBOX-MARKER"), "sandbox/standard-output", || "the module wrote to the server's standard output".into());
            ctx.check(std::fs::read(&secret).ok().as_deref() == Some(b"secret"), "sandbox/file-changed", || "a host file was changed".into());
            ctx.check(std::fs::read_dir(dir.path()).map(|d| d.count()).unwrap_or(0) == 1, "sandbox/file-created", || "a host file was created".into());
        }
    }
}

// ------------------------------------------------------------------------------------------------ C22

const TYPE_NAMES: &[&str] = &["i32", "i64", "f32", "f64", "smallint", "int", "bigint", "char", "varchar", "text", "decimal", "float", "real", "double", "boolean", "date", "timestamp"];

fn by_name(n: &str) -> T {
    match n.to_ascii_lowercase().as_str() {
        "i32" => T::I32, "i64" => T::I64, "f32" => T::F32, "f64" => T::F64, "smallint" => T::SMALLINT, "int" => T::INT, "bigint" => T::BIGINT,
        "char" => T::CHAR, "varchar" => T::VARCHAR, "text" => T::TEXT, "float" => T::FLOAT, "real" => T::REAL, "double" => T::DOUBLE,
        "boolean" => T::BOOLEAN, "date" => T::DATE, "timestamp" => T::TIMESTAMP, "decimal" => T::DECIMAL { precision: 0, scale: 0 }, _ => unreachable!(),
    }
}
fn recase(r: &mut StdRng, s: &str) -> String {
    match r.gen_range(0..3) { 0 => s.to_string(), 1 => s.to_ascii_uppercase(), _ => s.chars().map(|c| if chance(r, 0.5) { c.to_ascii_uppercase() } else { c }).collect() }
}

pub fn c22(ctx: &Ctx) {
    use std::str::FromStr;
    ctx.rule("one evaluation = one definition parsed, one stored form read back, or one call with given argument types planned and run; distinct by its text");
    let rt = rt();
    let langs = [("wasm", CreateFunctionLanguage::Wasm), ("wasmMessagePack", CreateFunctionLanguage::WasmMessagePack)];
    let vols = [("immutable", CreateFunctionVolatility::Immutable, Volatility::Immutable), ("stable", CreateFunctionVolatility::Stable, Volatility::Stable), ("volatile", CreateFunctionVolatility::Volatile, Volatility::Volatile)];
    for (_, v, dv) in &vols {
        ctx.eval(&format!("volatility {v:?}"), true);
        ctx.check(get_volatility(v) == *dv, "volatility-meaning", || format!("{v:?} means {:?}", get_volatility(v)));
    }
    // definitions
    for case in 0..ctx.n(3000, 100_000) as u64 {
        if ctx.used(0.4) { break; }
        let r = &mut ctx.rng_n("def", case);
        let names: Vec<String> = (0..r.gen_range(0..5)).map(|_| { let n = *pick(r, TYPE_NAMES); recase(r, n) }).collect();
        let ret0 = *pick(r, TYPE_NAMES);
        let ret = recase(r, ret0);
        let (lt, lang) = pick(r, &langs).clone();
        let (vt, vol, _) = pick(r, &vols).clone();
        let entry = text(r);
        let data = text(r);
        let mut o = sfv::serde_json::Map::new();
        o.insert("entrypoint".into(), entry.clone().into());
        o.insert("input_types".into(), names.clone().into());
        o.insert("return_type".into(), ret.clone().into());
        o.insert("data".into(), data.clone().into());
        let mut want = CreateFunctionDetails { entrypoint: entry, language: CreateFunctionLanguage::WasmMessagePack, input_types: names.iter().map(|n| by_name(n)).collect(), return_type: by_name(&ret), data, volatility: CreateFunctionVolatility::Volatile };
        if chance(r, 0.7) { o.insert("language".into(), lt.into()); want.language = lang; }
        if chance(r, 0.7) { o.insert("volatility".into(), vt.into()); want.volatility = vol; }
        let mut bad = None;
        if chance(r, 0.5) {
            let (k, v): (&str, sfv::serde_json::Value) = match r.gen_range(0..14) {
                0 => { o.remove("entrypoint"); ("missing entrypoint", sfv::serde_json::Value::Null) }
                1 => { o.remove("input_types"); ("missing input_types", sfv::serde_json::Value::Null) }
                2 => { o.remove("return_type"); ("missing return_type", sfv::serde_json::Value::Null) }
                3 => { o.remove("data"); ("missing data", sfv::serde_json::Value::Null) }
                4 => { let v = *pick(r, &["webassembly", "python", "", "wasm ", "js"]); o.insert("language".into(), v.into()); ("language", v.into()) }
                5 => { let v = *pick(r, &["always", "", "const", "immutable "]); o.insert("volatility".into(), v.into()); ("volatility", v.into()) }
                6 => { let v = *pick(r, &["integer", "", "int4", "bigint ", "number", "v128", "int, int"]); o.insert("return_type".into(), v.into()); ("return_type", v.into()) }
                7 => { let v = *pick(r, &["integer", "", "int4", " bigint", "blob", "externref"]); let mut t = names.clone(); t.insert(r.gen_range(0..=t.len()), v.into()); o.insert("input_types".into(), t.into()); ("input_types", v.into()) }
                8 => { o.insert("input_types".into(), "bigint".into()); ("input_types as text", "".into()) }
                9 => { o.insert("input_types".into(), vec![1].into()); ("input_types as number", "".into()) }
                10 => { o.insert("return_type".into(), vec!["int"].into()); ("return_type as list", "".into()) }
                11 => { o.insert("data".into(), 5.into()); ("data as number", "".into()) }
                12 => { o.insert("entrypoint".into(), sfv::serde_json::Value::Null); ("null entrypoint", "".into()) }
                _ => { o.insert("input_types".into(), sfv::serde_json::Value::Null); ("null input_types", "".into()) }
            };
            bad = Some(format!("{k} {v}"));
        }
        let txt = sfv::serde_json::to_string(&o).unwrap();
        let txt = if bad.is_none() && chance(r, 0.1) { let cut = txt.len() - 1; bad = Some("truncated".into()); txt[..cut].to_string() } else { txt };
        ctx.eval(&txt, true);
        let got = sfv::guarded(|| sfv::serde_json::from_str::<CreateFunctionDetails>(&txt));
        match (got, &bad) {
            (Err(p), _) => ctx.violation("definition-panic", format!("{txt}: {p}")),
            (Ok(Ok(d)), Some(b)) => ctx.violation("invalid-definition-accepted", format!("{b}: {txt} gave {d:?}")),
            (Ok(Err(e)), None) => ctx.violation("valid-definition-refused", format!("{txt}: {e}")),
            (Ok(Ok(d)), None) => { ctx.count("valid definitions", 1); ctx.check(d == want, "definition-differs", || format!("{txt} gave {d:?}")); }
            (Ok(Err(_)), Some(_)) => ctx.count("invalid definitions refused", 1),
        }
    }
    // stored text form, as the catalogue stores and reads it
    for case in 0..ctx.n(600, 20_000) as u64 {
        if ctx.used(0.5) { break; }
        let r = &mut ctx.rng_n("stored", case);
        let d = CreateFunctionDetails { entrypoint: "f".into(), language: langs[r.gen_range(0..2)].1.clone(), input_types: (0..r.gen_range(0..5)).map(|_| msgpack_types(r)).collect(), return_type: msgpack_types(r), data: String::new(), volatility: vols[r.gen_range(0..3)].1.clone() };
        let lang = d.language.to_string();
        let it = sfv::serde_json::to_string(&d.input_types).unwrap();
        let rt_ = d.return_type.to_string();
        let vo = d.volatility.to_string();
        ctx.eval(&format!("stored {lang} {it} {rt_} {vo}"), true);
        ctx.check(CreateFunctionLanguage::from_str(&lang).ok().as_ref() == Some(&d.language), "stored-language", || lang.clone());
        ctx.check(CreateFunctionVolatility::from_str(&vo).ok().as_ref() == Some(&d.volatility), "stored-volatility", || vo.clone());
        let back = sfv::serde_json::from_str::<Vec<T>>(&it).ok();
        ctx.check(back.as_ref() == Some(&d.input_types), if d.input_types.iter().any(|t| matches!(t, T::DECIMAL { .. })) { "stored-input-types/decimal" } else { "stored-input-types" }, || format!("{it} read back as {back:?}"));
        let back = T::from_str(&rt_.to_ascii_uppercase()).ok();
        if back.as_ref() != Some(&d.return_type) {
            let sig = if matches!(d.return_type, T::DECIMAL { .. }) { "stored-return-type/decimal" } else { "stored-return-type" };
            ctx.violation(sig, format!("{:?} stored as {rt_} reads back as {back:?}", d.return_type));
        }
    }
    // registration needs the exports; calls need the declared types
    let observer = observer_module();
    for case in 0..ctx.n(250, 6000) as u64 {
        if ctx.out_of_time() { break; }
        let r = &mut ctx.rng_n("call", case);
        let k = r.gen_range(1..4usize);
        let types: Vec<T> = (0..k).map(|_| msgpack_types(r)).collect();
        let d = |t: &T| arrow_type(t);
        for (entry, ok) in [("f", true), ("g", false), ("", false), ("F", false)] {
            let u = sfv::guarded(|| create_udf_from_wasm(&CreateFunctionLanguage::WasmMessagePack, "f", &observer, entry, &types, &T::TEXT, Volatility::Volatile).is_ok());
            ctx.check(u == Ok(ok), "registration", || format!("entry point {entry:?}: {u:?}"));
        }
        let v = volatility(r);
        let Ok(udf) = create_udf_from_wasm(&CreateFunctionLanguage::WasmMessagePack, "My_F", &observer, "f", &types, &T::TEXT, v) else { continue };
        ctx.check(udf.name() == "My_F", "udf-name", || udf.name().to_string());
        ctx.check(udf.signature().volatility == v, "udf-volatility", || format!("{:?}", udf.signature()));
        // of any arity, in both languages
        {
            let nt = native_types();
            let native: Vec<T> = (0..r.gen_range(0..3)).map(|_| pick(r, &nt).clone()).collect();
            let nret = pick(r, &nt).clone();
            let params: String = native.iter().map(|t| format!("(param {}) ", wt(t))).collect();
            let m = wat(&format!(r#"(module (func (export "f") {params}(result {}) ({}.const 0)))"#, wt(&nret), wt(&nret)));
            for (what, u, n, ret) in [
                ("native", create_udf_from_wasm(&CreateFunctionLanguage::Wasm, "My_F", &m, "f", &native, &nret, v), native.len(), nret.clone()),
                ("msgpack", create_udf_from_wasm(&CreateFunctionLanguage::WasmMessagePack, "My_F", &observer, "f", &vec![], &T::TEXT, v), 0, T::TEXT),
            ] {
                let Ok(u) = u else { ctx.violation("registration", format!("{what} function of {n} arguments refused")); continue };
                let args: Vec<DataType> = if what == "native" { native.iter().map(d).collect() } else { vec![] };
                ctx.eval(&format!("declared {what} {native:?} {nret:?} {v:?}"), true);
                ctx.check(u.name() == "My_F" && u.signature().volatility == v, "udf-volatility", || format!("{what}, {n} arguments, declared {v:?}: {:?}", u.signature()));
                ctx.check(u.return_type(&args).ok() == Some(d(&ret)), "udf-return-type", || format!("{what}, {n} arguments: {:?}, declared {ret:?}", u.return_type(&args)));
            }
        }
        let declared: Vec<DataType> = types.iter().map(d).collect();
        ctx.check(udf.return_type(&declared).ok() == Some(DataType::Utf8), "udf-return-type", || format!("{:?}", udf.return_type(&declared)));
        let ret = msgpack_types(r);
        if let Ok(u) = create_udf_from_wasm(&CreateFunctionLanguage::WasmMessagePack, "f", &observer, "f", &types, &ret, v) {
            ctx.check(u.return_type(&declared).ok() == Some(d(&ret)), "udf-return-type", || format!("{ret:?}: {:?}", u.return_type(&declared)));
        }
        // wrong number of arguments is refused at planning
        let s = SessionContext::new();
        s.register_udf(create_udf_from_wasm(&CreateFunctionLanguage::WasmMessagePack, "f", &observer, "f", &types, &T::TEXT, v).unwrap());
        let vals: Vec<ScalarValue> = types.iter().map(|t| gen_value(r, t)).collect();
        let n = *pick(r, &[k, k + 1, k.saturating_sub(1), 0, k + 2]);
        let call: Vec<ScalarValue> = (0..n).map(|i| vals.get(i).cloned().unwrap_or(ScalarValue::Int64(Some(1)))).collect();
        ctx.eval(&format!("call {types:?} with {n}"), true);
        let res = rt.block_on(async {
            let u = s.state().scalar_functions().get("f").cloned().ok_or("not registered")?;
            let df = s.read_empty().map_err(|e| e.to_string())?.select(vec![u.call(call.iter().map(|c| lit(c.clone())).collect()).alias("x")]).map_err(|e| e.to_string())?;
            df.collect().await.map_err(|e| e.to_string())
        });
        if n == k {
            if let Err(e) = &res { ctx.violation("declared-call-refused", format!("{types:?}: {e}")); }
        } else if res.is_ok() {
            ctx.violation("wrong-argument-count-accepted", format!("{types:?} called with {n} arguments"));
        }
        // coercible and non-coercible arguments through SQL
        let (t, lit_sql, want): (T, &str, Option<Value>) = pick(r, &[
            (T::BIGINT, "CAST(5 AS SMALLINT)", Some(Value::from(5))), (T::BIGINT, "5", Some(Value::from(5))), (T::INT, "CAST(7 AS SMALLINT)", Some(Value::from(7))),
            (T::DOUBLE, "CAST(1.5 AS REAL)", Some(Value::F64(1.5))), (T::DOUBLE, "2", Some(Value::F64(2.0))), (T::TEXT, "'abc'", Some(Value::from("abc"))),
            (T::BIGINT, "INTERVAL '1' DAY", None), (T::BOOLEAN, "DATE '2020-01-01'", None), (T::DATE, "TRUE", None), (T::BIGINT, "ARRAY[1,2]", None),
            (T::BOOLEAN, "TRUE", Some(Value::from(true))), (T::DATE, "DATE '1970-01-11'", Some(Value::from(10))),
        ]).clone();
        let s = SessionContext::new();
        s.register_udf(create_udf_from_wasm(&CreateFunctionLanguage::WasmMessagePack, "obs", &observer, "f", &vec![t.clone()], &T::TEXT, v).unwrap());
        let res = sfv::guarded(|| rt.block_on(async { s.sql(&format!("SELECT obs({lit_sql})")).await.map_err(|e| e.to_string())?.collect().await.map_err(|e| e.to_string()) }));
        ctx.eval(&format!("coerce {t:?} {lit_sql}"), true);
        match (res, want) {
            (Err(p), _) => ctx.violation("call-panic", format!("{t:?} {lit_sql}: {p}")),
            (Ok(Err(e)), Some(_)) => ctx.violation("coercible-call-refused", format!("{t:?} {lit_sql}: {e}")),
            (Ok(Ok(_)), None) => ctx.violation("wrong-argument-type-accepted", format!("{t:?} {lit_sql}")),
            (Ok(Err(_)), None) => {}
            (Ok(Ok(b)), Some(w)) => {
                let got = b[0].column(0).as_any().downcast_ref::<StringArray>().map(|a| a.value(0).to_string()).unwrap_or_default();
                let want = hex::encode(encode(&Value::Array(vec![w])));
                ctx.check(got.len() > 32 && got[32..] == want, "coerced-value", || format!("{t:?} {lit_sql}: delivered {got}, wanted {want}"));
            }
        }
    }
    // a replaced function behaves like the replacement, under the same name
    for case in 0..ctx.n(20, 300) as u64 {
        let r = &mut ctx.rng_n("replace", case);
        let s = SessionContext::new();
        for _ in 0..3 {
            let k = r.gen_range(-1000..1000i64);
            let m = wat(&format!(r#"(module (func (export "f") (param i64) (result i64) (i64.add (local.get 0) (i64.const {k}))))"#));
            let Ok(u) = create_udf_from_wasm(&CreateFunctionLanguage::Wasm, "f", &m, "f", &vec![T::BIGINT], &T::BIGINT, volatility(r)) else { ctx.violation("registration", "native"); return };
            s.register_udf(u);
            let res = rt.block_on(async { s.sql("SELECT f(column1) FROM (VALUES (10), (20))").await?.collect().await });
            ctx.eval(&format!("replace {case} {k}"), true);
            let got: Vec<i64> = res.map(|b| b.iter().flat_map(|b| b.column(0).as_any().downcast_ref::<Int64Array>().unwrap().values().to_vec()).collect()).unwrap_or_default();
            ctx.check(got == vec![10 + k, 20 + k], "replacement", || format!("+{k}: {got:?}"));
        }
    }
}
