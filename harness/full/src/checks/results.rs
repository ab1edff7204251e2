//! C45: rows sent over HTTP, and files uploaded through it
use super::http::{ask, get, multipart, percent, post, routes, Answer, Routes};
use crate::sf::Sf;
use arrow::array::*;
use arrow::datatypes::{DataType, Field, Schema, TimeUnit};
use arrow::record_batch::RecordBatch;
use chrono::{DateTime, Datelike, NaiveDate, NaiveDateTime, NaiveTime};
use sfv::rand::rngs::StdRng;
use sfv::rand::Rng;
use sfv::{chance, pick, Ctx};
use std::collections::BTreeMap;
use std::sync::Arc;

// ---------------------------------------------------------------- JSON, keeping order, duplicates and digits
#[derive(Clone, Debug, PartialEq)]
enum J { Null, Bool(bool), Num(String), Str(String), Arr(Vec<J>), Obj(Vec<(String, J)>) }

struct P<'a> { s: &'a [u8], i: usize }
impl<'a> P<'a> {
    fn ws(&mut self) { while self.i < self.s.len() && (self.s[self.i] as char).is_ascii_whitespace() { self.i += 1 } }
    fn eat(&mut self, c: u8) -> Result<(), String> { self.ws(); if self.s.get(self.i) == Some(&c) { self.i += 1; Ok(()) } else { Err(format!("expected {:?} at {}", c as char, self.i)) } }
    fn peek(&mut self) -> u8 { self.ws(); *self.s.get(self.i).unwrap_or(&0) }
    fn string(&mut self) -> Result<String, String> {
        self.ws();
        let st = self.i;
        self.eat(b'"')?;
        while self.i < self.s.len() && self.s[self.i] != b'"' { self.i += if self.s[self.i] == b'\\' { 2 } else { 1 } }
        self.eat(b'"')?;
        serde_json::from_slice::<String>(&self.s[st..self.i]).map_err(|e| e.to_string())
    }
    fn value(&mut self) -> Result<J, String> {
        match self.peek() {
            b'{' => {
                self.eat(b'{')?;
                let mut o = vec![];
                if self.peek() == b'}' { self.i += 1; return Ok(J::Obj(o)) }
                loop {
                    let k = self.string()?;
                    self.eat(b':')?;
                    o.push((k, self.value()?));
                    if self.peek() == b',' { self.i += 1 } else { self.eat(b'}')?; return Ok(J::Obj(o)) }
                }
            }
            b'[' => {
                self.eat(b'[')?;
                let mut o = vec![];
                if self.peek() == b']' { self.i += 1; return Ok(J::Arr(o)) }
                loop {
                    o.push(self.value()?);
                    if self.peek() == b',' { self.i += 1 } else { self.eat(b']')?; return Ok(J::Arr(o)) }
                }
            }
            b'"' => Ok(J::Str(self.string()?)),
            _ => {
                let st = self.i;
                while self.i < self.s.len() && !b",]} \n".contains(&self.s[self.i]) { self.i += 1 }
                match &self.s[st..self.i] {
                    b"null" => Ok(J::Null),
                    b"true" => Ok(J::Bool(true)),
                    b"false" => Ok(J::Bool(false)),
                    n => {
                        let t = String::from_utf8_lossy(n).to_string();
                        serde_json::from_str::<serde_json::Number>(&t).map_err(|e| format!("{t:?}: {e}"))?;
                        Ok(J::Num(t))
                    }
                }
            }
        }
    }
}

fn lines(body: &[u8]) -> Result<Vec<Vec<(String, J)>>, String> {
    let mut out = vec![];
    let mut rest = body;
    while !rest.is_empty() {
        let n = rest.iter().position(|b| *b == b'\n').ok_or("the last line has no end")?;
        let mut p = P { s: &rest[..n], i: 0 };
        let v = p.value()?;
        p.ws();
        if p.i != n { return Err(format!("text after the value on a line: {}", String::from_utf8_lossy(&rest[..n]))) }
        match v { J::Obj(o) => out.push(o), v => return Err(format!("a line holds {v:?}")) }
        rest = &rest[n + 1..];
    }
    Ok(out)
}

// ---------------------------------------------------------------- values with what they must look like
#[derive(Clone, Debug)]
enum E { Null, Int(i128), F64(f64), F32(f32), Bool(bool), Str(String), Dec(i128, i8), Date(NaiveDate), Ts(NaiveDateTime), Tz(NaiveDateTime), Time(NaiveTime), Hex(Vec<u8>), List(Vec<E>), Obj(Vec<(String, E)>) }

fn same(e: &E, j: &J) -> bool {
    match (e, j) {
        (E::Null, J::Null) => true,
        (E::Int(a), J::Num(b)) => b.parse::<i128>().ok() == Some(*a),
        (E::F64(a), J::Null) => !a.is_finite(),
        (E::F32(a), J::Null) => !a.is_finite(),
        (E::F64(a), J::Num(b)) => b.parse::<f64>().is_ok_and(|b| b == *a),
        (E::F32(a), J::Num(b)) => b.parse::<f32>().is_ok_and(|b| b == *a) ,
        (E::Bool(a), J::Bool(b)) => a == b,
        (E::Str(a), J::Str(b)) => a == b,
        (E::Dec(v, s), J::Str(b) | J::Num(b)) => {
            let neg = b.starts_with('-');
            let t = b.trim_start_matches('-');
            let (i, f) = t.split_once('.').unwrap_or((t, ""));
            if !i.chars().chain(f.chars()).all(|c| c.is_ascii_digit()) || i.is_empty() { return false }
            let mut f = f.to_string();
            while (f.len() as i8) < *s { f.push('0') }
            if f[(*s).max(0) as usize..].chars().any(|c| c != '0') { return false }
            let d: i128 = match format!("{i}{}", &f[..(*s).max(0) as usize]).parse() { Ok(d) => d, Err(_) => return false };
            (if neg { -d } else { d }) == *v
        }
        (E::Date(a), J::Str(b)) => NaiveDate::parse_from_str(b, "%Y-%m-%d").is_ok_and(|b| b == *a),
        (E::Ts(a), J::Str(b)) => NaiveDateTime::parse_from_str(b, "%Y-%m-%dT%H:%M:%S%.f").is_ok_and(|b| b == *a),
        (E::Tz(a), J::Str(b)) => DateTime::parse_from_rfc3339(b).is_ok_and(|b| b.naive_utc() == *a),
        (E::Time(a), J::Str(b)) => NaiveTime::parse_from_str(b, "%H:%M:%S%.f").is_ok_and(|b| b == *a),
        (E::Hex(a), J::Str(b)) => hex::decode(b).is_ok_and(|b| b == *a),
        (E::List(a), J::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b)),
        (E::Obj(a), J::Obj(b)) => a.len() == b.len() && a.iter().zip(b).all(|((n, a), (m, b))| n == m && same(a, b)),
        _ => false,
    }
}

const KINDS: &[&str] = &["Int8", "Int16", "Int32", "Int64", "UInt8", "UInt16", "UInt32", "UInt64", "Float32", "Float64", "Utf8", "LargeUtf8", "Utf8View", "Dict", "Boolean", "Date32", "Date64", "Time32(Second)", "Time32(Millisecond)", "Time64(Microsecond)", "Time64(Nanosecond)",
    "Timestamp(Second, None)", "Timestamp(Millisecond, None)", "Timestamp(Microsecond, None)", "Timestamp(Nanosecond, None)", "Timestamp(Microsecond, Some(\"+00:00\"))", "Timestamp(Millisecond, Some(\"+05:30\"))", "Timestamp(Second, Some(\"-08:00\"))",
    "Decimal128(10, 2)", "Decimal128(38, 0)", "Decimal128(38, 37)", "Decimal128(5, 5)", "Binary", "LargeBinary", "List", "Struct"];

fn dtype(k: &str) -> DataType {
    use DataType::*;
    match k {
        "Int8" => Int8, "Int16" => Int16, "Int32" => Int32, "Int64" => Int64, "UInt8" => UInt8, "UInt16" => UInt16, "UInt32" => UInt32, "UInt64" => UInt64,
        "Float32" => Float32, "Float64" => Float64, "Utf8" => Utf8, "LargeUtf8" => LargeUtf8, "Utf8View" => Utf8View, "Boolean" => Boolean,
        "Dict" => Dictionary(Box::new(Int32), Box::new(Utf8)),
        "Date32" => Date32, "Date64" => Date64,
        "Time32(Second)" => Time32(TimeUnit::Second), "Time32(Millisecond)" => Time32(TimeUnit::Millisecond), "Time64(Microsecond)" => Time64(TimeUnit::Microsecond), "Time64(Nanosecond)" => Time64(TimeUnit::Nanosecond),
        "Binary" => Binary, "LargeBinary" => LargeBinary,
        "List" => List(Arc::new(Field::new("item", Int64, true))),
        "Struct" => Struct(vec![Field::new("x", Int64, true), Field::new("Y z", Utf8, true)].into()),
        k if k.starts_with("Decimal128(") => {
            let (a, b) = k[11..k.len() - 1].split_once(", ").unwrap();
            Decimal128(a.parse().unwrap(), b.parse().unwrap())
        }
        k => {
            let u = if k.contains("Nano") { TimeUnit::Nanosecond } else if k.contains("Micro") { TimeUnit::Microsecond } else if k.contains("Milli") { TimeUnit::Millisecond } else { TimeUnit::Second };
            Timestamp(u, k.split('"').nth(1).map(|s| s.into()))
        }
    }
}

pub fn text(r: &mut StdRng) -> String {
    let pool = ["", "a", "null", "NULL", "\"", "'", "''", "\\", "\\n", "\n", "\r\n", "\t", "\u{0}", "\u{1f}", "\u{7f}", "é", "日本", "🦅", "\u{2028}", "{\"a\":1}", "]", "}", ",", "%", "<b>", "0", "-1", "true", "1e5", " ", "\u{feff}", "\u{fffd}", "e\u{301}"];
    (0..r.gen_range(0..4)).map(|_| *pick(r, &pool)).collect()
}

fn q(s: &str) -> String { format!("'{}'", s.replace('\'', "''")) }

fn int(r: &mut StdRng, lo: i128, hi: i128) -> i128 {
    match r.gen_range(0..5) { 0 => lo, 1 => hi, 2 => 0i128.clamp(lo, hi), 3 => r.gen_range(-3i128..4).clamp(lo, hi), _ => lo + (r.gen::<u128>() % ((hi - lo) as u128 + 1)) as i128 }
}

fn date(r: &mut StdRng) -> NaiveDate {
    match r.gen_range(0..5) { 0 => NaiveDate::from_ymd_opt(1970, 1, 1).unwrap(), 1 => NaiveDate::from_ymd_opt(1969, 12, 31).unwrap(), 2 => NaiveDate::from_ymd_opt(2024, 2, 29).unwrap(), 3 => NaiveDate::from_ymd_opt(9999, 12, 31).unwrap(), _ => NaiveDate::from_ymd_opt(r.gen_range(1..9999), r.gen_range(1..13), r.gen_range(1..29)).unwrap() }
}

/// SQL for a value of this kind, and what it must look like
fn value(r: &mut StdRng, k: &str) -> (String, E) {
    let cast = |t: String| format!("arrow_cast({t}, '{}')", if k == "Dict" { "Dictionary(Int32, Utf8)" } else { k });
    if chance(r, 0.15) {
        return match k {
            "List" => (r#"arrow_cast(NULL, 'List(Int64)')"#.to_string(), E::Null),
            "Struct" => ("CASE WHEN false THEN named_struct('x', 1, 'Y z', 'q') END".to_string(), E::Null),
            _ => (cast("NULL".into()), E::Null),
        };
    }
    let ints = |r: &mut StdRng, lo: i128, hi: i128| { let v = int(r, lo, hi); (cast(q(&v.to_string())), E::Int(v)) };
    match k {
        "Int8" => ints(r, i8::MIN as i128, i8::MAX as i128), "Int16" => ints(r, i16::MIN as i128, i16::MAX as i128), "Int32" => ints(r, i32::MIN as i128, i32::MAX as i128), "Int64" => ints(r, i64::MIN as i128, i64::MAX as i128),
        "UInt8" => ints(r, 0, u8::MAX as i128), "UInt16" => ints(r, 0, u16::MAX as i128), "UInt32" => ints(r, 0, u32::MAX as i128), "UInt64" => ints(r, 0, u64::MAX as i128),
        "Float64" => {
            let v = match r.gen_range(0..9) { 0 => f64::NAN, 1 => f64::INFINITY, 2 => f64::MAX, 3 => f64::MIN_POSITIVE, 4 => 5e-324, 5 => -0.0, 6 => 0.1, 7 => r.gen_range(-1e6..1e6), _ => { let f = f64::from_bits(r.gen()); if f.is_nan() { 1.5 } else { f } } };
            (cast(q(&if v.is_nan() { "NaN".into() } else if v.is_infinite() { (if v > 0.0 { "inf" } else { "-inf" }).to_string() } else { format!("{v:e}") })), E::F64(v))
        }
        "Float32" => {
            let v = match r.gen_range(0..6) { 0 => f32::NAN, 1 => f32::NEG_INFINITY, 2 => f32::MAX, 3 => 0.1, 4 => r.gen_range(-1e3..1e3), _ => { let f = f32::from_bits(r.gen()); if f.is_nan() { 1.5 } else { f } } };
            (cast(q(&if v.is_nan() { "NaN".into() } else if v.is_infinite() { (if v > 0.0 { "inf" } else { "-inf" }).to_string() } else { format!("{v:e}") })), E::F32(v))
        }
        "Utf8" | "LargeUtf8" | "Utf8View" | "Dict" => { let t = text(r); (cast(q(&t)), E::Str(t)) }
        "Boolean" => { let b = r.gen(); (cast(format!("{b}")), E::Bool(b)) }
        "Date32" => { let d = date(r); (cast(q(&d.format("%Y-%m-%d").to_string())), E::Date(d)) }
        "Date64" => { let d = date(r); (cast(format!("arrow_cast('{}', 'Date32')", d.format("%Y-%m-%d"))), E::Ts(d.and_hms_opt(0, 0, 0).unwrap())) }
        "Binary" | "LargeBinary" => { let b: Vec<u8> = (0..r.gen_range(0..5)).map(|_| r.gen()).collect(); (cast(format!("X'{}'", hex::encode(&b))), E::Hex(b)) }
        "List" => {
            let n = r.gen_range(0..4);
            let v: Vec<Option<i64>> = (0..n).map(|_| if chance(r, 0.3) { None } else { Some(r.gen()) }).collect();
            let e = E::List(v.iter().map(|v| v.map(|v| E::Int(v as i128)).unwrap_or(E::Null)).collect());
            (format!("arrow_cast(make_array({}), 'List(Int64)')", v.iter().map(|v| v.map(|v| format!("arrow_cast('{v}', 'Int64')")).unwrap_or("NULL".into())).collect::<Vec<_>>().join(", ")), e)
        }
        "Struct" => {
            let (a, t) = (r.gen_range(-9i64..9), text(r));
            if chance(r, 0.3) { return ("named_struct('x', arrow_cast(NULL, 'Int64'), 'Y z', arrow_cast(NULL, 'Utf8'))".into(), E::Obj(vec![("x".into(), E::Null), ("Y z".into(), E::Null)])) }
            (format!("named_struct('x', arrow_cast({a}, 'Int64'), 'Y z', {})", q(&t)), E::Obj(vec![("x".into(), E::Int(a as i128)), ("Y z".into(), E::Str(t))]))
        }
        k if k.starts_with("Time3") || k.starts_with("Time6") => {
            let sub = if k.contains("Nano") { r.gen_range(0..1_000_000_000) } else if k.contains("Micro") { r.gen_range(0..1_000_000) * 1000 } else if k.contains("Milli") { r.gen_range(0..1000) * 1_000_000 } else { 0 };
            let t = NaiveTime::from_hms_nano_opt(r.gen_range(0..24), r.gen_range(0..60), r.gen_range(0..60), sub).unwrap();
            (cast(q(&t.format("%H:%M:%S%.9f").to_string())), E::Time(t))
        }
        k if k.starts_with("Decimal") => {
            let DataType::Decimal128(p, s) = dtype(k) else { unreachable!() };
            let m = 10i128.pow(p as u32) - 1;
            let v = match r.gen_range(0..4) { 0 => m, 1 => -m, 2 => r.gen_range(-200..200), _ => r.gen_range(-m..=m) };
            let a = v.unsigned_abs().to_string();
            let a = format!("{}{a}", "0".repeat((s as usize + 1).saturating_sub(a.len())));
            let (i, f) = a.split_at(a.len() - s as usize);
            (cast(q(&format!("{}{i}{}{f}", if v < 0 { "-" } else { "" }, if s > 0 { "." } else { "" }))), E::Dec(v, s))
        }
        k => {
            let DataType::Timestamp(u, tz) = dtype(k) else { unreachable!("{k}") };
            let sub = match u { TimeUnit::Nanosecond => r.gen_range(0..1_000_000_000), TimeUnit::Microsecond => r.gen_range(0..1_000_000) * 1000, TimeUnit::Millisecond => r.gen_range(0..1000) * 1_000_000, _ => 0 };
            let mut d = date(r);
            if u == TimeUnit::Nanosecond || !(1000..9000).contains(&d.year()) { d = d.with_year(r.gen_range(1700..2200)).unwrap_or(NaiveDate::from_ymd_opt(1960, 6, 7).unwrap()) }
            let t = d.and_time(NaiveTime::from_hms_nano_opt(r.gen_range(0..24), r.gen_range(0..60), r.gen_range(0..60), if chance(r, 0.3) { 0 } else { sub }).unwrap());
            match tz {
                Some(_) => (cast(q(&t.format("%Y-%m-%dT%H:%M:%S%.9fZ").to_string())), E::Tz(t)),
                None => (cast(q(&t.format("%Y-%m-%dT%H:%M:%S%.9f").to_string())), E::Ts(t)),
            }
        }
    }
}

fn header_schema(a: &Answer) -> Result<Schema, String> {
    let h = a.header("content-type").ok_or("no content type")?;
    let enc = h.strip_prefix("application/json; arrow-schema=").ok_or(format!("content type {h}"))?;
    let raw: Vec<u8> = {
        let b = enc.as_bytes();
        let mut o = vec![];
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'%' { o.push(u8::from_str_radix(&enc[i + 1..i + 3], 16).map_err(|e| e.to_string())?); i += 3 } else { o.push(b[i]); i += 1 }
        }
        o
    };
    serde_json::from_slice(&raw).map_err(|e| e.to_string())
}

async fn ask_both(r: &mut StdRng, rt: &Routes, db: &str, sql: &str, single: bool) -> (&'static str, Result<Answer, String>) {
    match r.gen_range(0..if single { 3 } else { 1 }) {
        0 => ("POST", post(rt, &format!("{db}/q"), sql, &[]).await),
        1 => {
            ("GET-header", get(rt, &format!("{db}/q"), sql, &[]).await)
        }
        _ => {
            let h = hex::encode(<sha2::Sha256 as sha2::Digest>::digest(sql.as_bytes()));
            ("GET-body", ask(rt, "GET", &format!("{db}/q/{h}"), &[("content-type", "application/json")], serde_json::json!({ "query": sql.replace('%', "%25") }).to_string().into_bytes()).await)
        }
    }
}

fn judge(ctx: &Ctx, sig: &str, sql: &str, a: &Result<Answer, String>, names: &[String], types: &[DataType], rows: &[Vec<E>]) {
    let detail = |w: &str| format!("{w}\nquery: {}", sql.chars().take(3000).collect::<String>());
    let a = match a { Ok(a) => a, Err(e) => { ctx.violation(&format!("{sig}/no-answer"), &detail(e)); return } };
    if a.status != 200 { ctx.violation(&format!("{sig}/status-{}", a.status), &detail(&String::from_utf8_lossy(&a.body))); return }
    match header_schema(a) {
        Err(e) => ctx.violation(&format!("{sig}/header"), &detail(&e)),
        Ok(s) => {
            let got: Vec<(String, DataType)> = s.fields().iter().map(|f| (f.name().clone(), f.data_type().clone())).collect();
            let want: Vec<(String, DataType)> = names.iter().cloned().zip(types.iter().cloned()).collect();
            if got.iter().map(|g| &g.0).ne(want.iter().map(|g| &g.0)) || !got.iter().zip(&want).all(|(a, b)| a.1.equals_datatype(&b.1)) {
                ctx.violation(&format!("{sig}/header-schema"), &detail(&format!("header says {got:?}, the result has {want:?}")));
            }
        }
    }
    match lines(&a.body) {
        Err(e) => ctx.violation(&format!("{sig}/body"), &detail(&format!("{e}\nbody: {}", String::from_utf8_lossy(&a.body)))),
        Ok(got) => {
            if got.len() != rows.len() { ctx.violation(&format!("{sig}/row-count"), &detail(&format!("{} rows sent, {} expected", got.len(), rows.len()))); return }
            for (i, (g, w)) in got.iter().zip(rows).enumerate() {
                if g.iter().map(|g| &g.0).ne(names.iter()) { ctx.violation(&format!("{sig}/columns"), &detail(&format!("row {i} has columns {:?}, expected {names:?}", g.iter().map(|g| &g.0).collect::<Vec<_>>()))); return }
                for (j, ((n, g), w)) in g.iter().zip(w).enumerate() {
                    if !same(w, g) { ctx.violation(&format!("{sig}/value/{}", types[j].to_string().split('(').next().unwrap_or("")), &detail(&format!("row {i} column {n} ({}): sent {g:?}, expected {w:?}", types[j]))); return }
                }
            }
        }
    }
}

pub struct Generated { pub sql: String, pub kinds: Vec<&'static str>, pub names: Vec<String>, pub types: Vec<DataType>, pub nrow: usize, want: Vec<(i64, Vec<(String, E)>)> }

/// a query over literal rows of many types
pub fn literal_query(r: &mut StdRng) -> Generated {
    let names_pool = ["a", "B", "c d", "é", "\"q\"", "x.y", "count(*)", "null", "a%b", "日本"];
    let ncol = r.gen_range(1..6);
    let kinds: Vec<&'static str> = (0..ncol).map(|_| *pick(r, KINDS)).collect();
    let mut names: Vec<String> = vec!["k".into()];
    for i in 0..ncol { names.push(if chance(r, 0.5) { let p = *pick(r, &names_pool); if names.iter().any(|x| x == p) { format!("{p}{i}") } else { p.to_string() } } else { format!("c{i}") }) }
    let nrow = *pick(r, &[0usize, 1, 2, 3, 10, 60]);
    let mut rows: Vec<(i64, Vec<(String, E)>)> = (0..nrow.max(1)).map(|i| (i as i64, kinds.iter().map(|k| value(r, k)).collect())).collect();
    use sfv::rand::seq::SliceRandom;
    rows.shuffle(r);
    let values: Vec<String> = rows.iter().map(|(k, v)| format!("({k}, {})", v.iter().map(|v| v.0.clone()).collect::<Vec<_>>().join(", "))).collect();
    let desc = chance(r, 0.5);
    let ident = |s: &str| format!("\"{}\"", s.replace('"', "\"\""));
    let cols: Vec<String> = names.iter().map(|n| ident(n)).collect();
    let mut sql = format!("SELECT * FROM (VALUES {}) AS t({}) WHERE {} ORDER BY k {}", values.join(", "), cols.join(", "), if nrow == 0 { "k < -1" } else { "k >= 0" }, if desc { "DESC" } else { "ASC" });
    let mut want = rows.clone();
    if nrow == 0 { want.clear() }
    want.sort_by_key(|x| if desc { -x.0 } else { x.0 });
    if chance(r, 0.3) {
        let (l, o) = (r.gen_range(0..10usize), r.gen_range(0..3usize));
        sql += &format!(" LIMIT {l} OFFSET {o}");
        want = want.into_iter().skip(o).take(l).collect();
    }
    let mut types = vec![DataType::Int64];
    types.extend(kinds.iter().map(|k| dtype(k)));
    Generated { sql, kinds, names, types, nrow, want }
}

async fn generated(ctx: &Ctx, r: &mut StdRng, rt: &Routes, n: usize) {
    let Generated { sql, kinds, names, types, nrow, want } = literal_query(r);
    let (how, a) = ask_both(r, rt, "", &sql, true).await;
    ctx.eval(&format!("values/{how}/{}/{}", kinds[0], nrow.min(2)), true);
    for k in &kinds { ctx.seen("types-sent", k); }
    ctx.count("rows_compared", want.len() as u64);
    let want: Vec<Vec<E>> = want.into_iter().map(|(k, v)| std::iter::once(E::Int(k as i128)).chain(v.into_iter().map(|v| v.1)).collect()).collect();
    judge(ctx, &format!("values/{how}"), &sql, &a, &names, &types, &want);
    let _ = n;
}

async fn large(ctx: &Ctx, r: &mut StdRng, rt: &Routes, n: usize) {
    let rows = *pick(r, &[8191i64, 8192, 8193, 20000, 30001]);
    let t = format!("big{n}");
    let set = format!("CREATE TABLE {t} AS SELECT value AS k, value % 7 AS m, 'r' || value AS s FROM generate_series(1, {rows})");
    let a = post(rt, "/q", &set, &[]).await;
    // generate_series is a table function of later versions; fall back on what is there
    if !matches!(&a, Ok(a) if a.status == 200) {
        let set = format!("CREATE TABLE {t} AS SELECT k, k % 7 AS m, 'r' || k AS s FROM (SELECT unnest(range(1, {})) AS k) x", rows + 1);
        let a = post(rt, "/q", &set, &[]).await;
        if !matches!(&a, Ok(a) if a.status == 200) { ctx.violation("large/create", &format!("{a:?}")); return }
    }
    for form in 0..3 {
        let (sql, want): (String, Vec<i64>) = match form {
            0 => (format!("SELECT * FROM {t} ORDER BY k"), (1..=rows).collect()),
            1 => (format!("SELECT * FROM {t} WHERE m = 3 ORDER BY k DESC"), (1..=rows).rev().filter(|k| k % 7 == 3).collect()),
            _ => (format!("SELECT * FROM {t}"), (1..=rows).collect()),
        };
        let (how, a) = ask_both(r, rt, "", &sql, true).await;
        ctx.eval(&format!("large/{how}/{form}"), true);
        ctx.count("rows_compared", want.len() as u64);
        let Ok(a) = a else { ctx.violation("large/no-answer", &sql); continue };
        if a.status != 200 { ctx.violation("large/status", &format!("{how} {sql}: {} {}", a.status, String::from_utf8_lossy(&a.body))); continue }
        match lines(&a.body) {
            Err(e) => ctx.violation("large/body", &format!("{sql}: {e}")),
            Ok(got) => {
                let mut ks: Vec<i64> = got.iter().filter_map(|o| match (&o[0].1, &o[1].1, &o[2].1) { (J::Num(k), J::Num(m), J::Str(s)) => { let k: i64 = k.parse().ok()?; (m.parse::<i64>().ok()? == k % 7 && *s == format!("r{k}")).then_some(k) } _ => None }).collect();
                if form == 2 { ks.sort() }
                if ks != want { ctx.violation(&format!("large/rows-{form}"), &format!("{how} {sql}: {} well-formed rows of {} sent, {} expected, order kept: {}; {:?}", ks.len(), got.len(), want.len(), ks == want, a.headers)); }
            }
        }
    }
    let _ = post(rt, "/q", &format!("DROP TABLE {t}"), &[]).await;
}

async fn multi(ctx: &Ctx, r: &mut StdRng, rt: &Routes, n: usize) {
    let k = r.gen_range(1..6);
    let mut parts = vec![format!("CREATE TABLE mm{n} (a BIGINT, b TEXT)")];
    for i in 0..k { parts.push(format!("INSERT INTO mm{n} VALUES ({i}, 'x{i}')")) }
    let del = chance(r, 0.4);
    if del { parts.push(format!("DELETE FROM mm{n} WHERE a = 0")) }
    let read = chance(r, 0.7);
    if read { parts.push(format!("SELECT a, b, a AS \"A\" FROM mm{n} ORDER BY a DESC")) }
    let sql = parts.join(*pick(r, &["; ", ";\n", " ;"])) + *pick(r, &["", ";", ";;"]);
    let (how, a) = ask_both(r, rt, "", &sql, false).await;
    ctx.eval(&format!("multi/{how}/{read}/{del}"), true);
    if read {
        let want: Vec<Vec<E>> = (del as i64..k).rev().map(|i| vec![E::Int(i as i128), E::Str(format!("x{i}")), E::Int(i as i128)]).collect();
        judge(ctx, "multi", &sql, &a, &["a".into(), "b".into(), "A".into()], &[DataType::Int64, DataType::Utf8, DataType::Int64], &want);
    } else {
        match a {
            Ok(a) if a.status == 200 && a.body.is_empty() => (),
            a => ctx.violation("multi/write-only", &format!("{sql}\nanswered {a:?}")),
        }
    }
    let _ = post(rt, "/q", &format!("DROP TABLE IF EXISTS mm{n}"), &[]).await;
}

// ---------------------------------------------------------------- uploads
#[derive(Clone, Debug, PartialEq)]
enum V { Null, I(i64), F(f64), S(String), B(bool), D(NaiveDate), T(NaiveDateTime) }
#[derive(Clone, Copy, Debug, PartialEq)]
enum K { I, F, S, B, D, T }
impl K {
    fn sql(self) -> &'static str { match self { K::I => "BIGINT", K::F => "DOUBLE", K::S => "TEXT", K::B => "BOOLEAN", K::D => "DATE", K::T => "TIMESTAMP" } }
    fn arrow(self) -> DataType { match self { K::I => DataType::Int64, K::F => DataType::Float64, K::S => DataType::Utf8, K::B => DataType::Boolean, K::D => DataType::Date32, K::T => DataType::Timestamp(TimeUnit::Microsecond, None) } }
    fn json(self) -> serde_json::Value { let ty = match self { K::I => serde_json::json!({"name":"int","bitWidth":64,"isSigned":true}), _ => serde_json::Value::Null }; ty }
}
fn cell(r: &mut StdRng, k: K, csv: bool) -> V {
    if chance(r, 0.15) { return V::Null }
    match k {
        K::I => V::I(match r.gen_range(0..4) { 0 => i64::MAX, 1 => i64::MIN, _ => r.gen_range(-999..999) }),
        K::F => V::F(match r.gen_range(0..4) { 0 => 1e300, 1 => -0.125, _ => r.gen_range(-1e3..1e3) + 0.5 / 1024.0 }),
        K::B => V::B(r.gen()),
        K::D => V::D(NaiveDate::from_ymd_opt(r.gen_range(1900..2100), r.gen_range(1..13), r.gen_range(1..29)).unwrap()),
        K::T => V::T(NaiveDate::from_ymd_opt(r.gen_range(1900..2100), r.gen_range(1..13), r.gen_range(1..29)).unwrap().and_hms_micro_opt(r.gen_range(0..24), 7, r.gen_range(0..60), r.gen_range(1..1_000_000)).unwrap()),
        K::S => { let t = text(r); V::S(if csv { format!("s{t}").replace('\0', "").replace('\r', "") } else { t }) }
    }
}
fn render(v: &V) -> String {
    match v { V::Null => "".into(), V::I(i) => i.to_string(), V::F(f) => format!("{f:?}"), V::S(s) => if s.contains([',', '"', '\n']) { format!("\"{}\"", s.replace('"', "\"\"")) } else { s.clone() }, V::B(b) => b.to_string(), V::D(d) => d.format("%Y-%m-%d").to_string(), V::T(t) => t.format("%Y-%m-%dT%H:%M:%S%.6f").to_string() }
}
fn csv(header: Option<&[String]>, rows: &[Vec<V>]) -> Vec<u8> {
    let mut o = String::new();
    if let Some(h) = header { o += &h.iter().map(|h| if h.contains([',', '"', '\n']) { format!("\"{}\"", h.replace('"', "\"\"")) } else { h.clone() }).collect::<Vec<_>>().join(","); o.push('\n') }
    for row in rows { o += &row.iter().map(render).collect::<Vec<_>>().join(","); o.push('\n') }
    o.into_bytes()
}
fn arrays(kinds: &[K], rows: &[Vec<V>], narrow: Option<usize>) -> Vec<ArrayRef> {
    kinds.iter().enumerate().map(|(c, k)| {
        let col: Vec<&V> = rows.iter().map(|r| &r[c]).collect();
        let a: ArrayRef = match k {
            K::I => Arc::new(Int64Array::from(col.iter().map(|v| if let V::I(i) = v { Some(*i) } else { None }).collect::<Vec<_>>())),
            K::F => Arc::new(Float64Array::from(col.iter().map(|v| if let V::F(i) = v { Some(*i) } else { None }).collect::<Vec<_>>())),
            K::S => Arc::new(StringArray::from(col.iter().map(|v| if let V::S(i) = v { Some(i.clone()) } else { None }).collect::<Vec<_>>())),
            K::B => Arc::new(BooleanArray::from(col.iter().map(|v| if let V::B(i) = v { Some(*i) } else { None }).collect::<Vec<_>>())),
            K::D => Arc::new(Date32Array::from(col.iter().map(|v| if let V::D(i) = v { Some((*i - NaiveDate::from_ymd_opt(1970, 1, 1).unwrap()).num_days() as i32) } else { None }).collect::<Vec<_>>())),
            K::T => Arc::new(TimestampMicrosecondArray::from(col.iter().map(|v| if let V::T(i) = v { Some(i.and_utc().timestamp_micros()) } else { None }).collect::<Vec<_>>())),
        };
        let _ = narrow;
        a
    }).collect()
}
fn parquet_bytes(names: &[String], arrays: Vec<ArrayRef>, group: usize) -> Vec<u8> {
    let schema = Arc::new(Schema::new(names.iter().zip(&arrays).map(|(n, a)| Field::new(n, a.data_type().clone(), true)).collect::<Vec<_>>()));
    let b = RecordBatch::try_new(schema.clone(), arrays).unwrap();
    let mut buf = vec![];
    let mut w = parquet::arrow::ArrowWriter::try_new(&mut buf, schema, Some(parquet::file::properties::WriterProperties::builder().set_max_row_group_size(group).build())).unwrap();
    w.write(&b).unwrap();
    w.close().unwrap();
    buf
}

fn want(v: &V) -> E {
    match v { V::Null => E::Null, V::I(i) => E::Int(*i as i128), V::F(f) => E::F64(*f), V::S(s) => E::Str(s.clone()), V::B(b) => E::Bool(*b), V::D(d) => E::Date(*d), V::T(t) => E::Ts(*t) }
}

struct Target { db: &'static str, schema: String, table: String, names: Vec<String>, kinds: Vec<K>, rows: Vec<Vec<V>>, exists: bool, next: i64 }

fn same_key(v: &V) -> i64 { if let V::I(i) = v { *i } else { i64::MIN } }

/// the table as POST gives it: Err when it is not there
async fn contents(rt: &Routes, t: &Target) -> Result<Vec<Vec<(String, J)>>, String> {
    let q = |s: &str| format!("\"{}\"", s.replace('"', "\"\""));
    let a = post(rt, &format!("{}/q", t.db), &format!("SELECT * FROM {}.{} ORDER BY 1", q(&t.schema), q(&t.table)), &[]).await?;
    if a.status != 200 { return Err(format!("{}: {}", a.status, String::from_utf8_lossy(&a.body))) }
    lines(&a.body).map_err(|e| format!("{e}: {}", String::from_utf8_lossy(&a.body)))
}

fn mismatch(t: &Target, got: &[Vec<(String, J)>]) -> Option<String> {
    let mut w: Vec<&Vec<V>> = t.rows.iter().collect();
    w.sort_by_key(|r| same_key(&r[0]));
    if got.len() != w.len() { return Some(format!("{} rows, {} expected", got.len(), w.len())) }
    for (i, (g, w)) in got.iter().zip(&w).enumerate() {
        if g.iter().map(|g| &g.0).ne(t.names.iter()) { return Some(format!("columns {:?}, expected {:?}", g.iter().map(|g| &g.0).collect::<Vec<_>>(), t.names)) }
        for ((n, g), v) in g.iter().zip(w.iter()) { if !same(&want(v), g) { return Some(format!("row {i}, column {n}: {g:?}, expected {v:?}")) } }
    }
    None
}

async fn uploads(ctx: &Ctx, r: &mut StdRng, rt: &Routes, n: usize) {
    let letters = ["v", "Val", "x.y", "a b", "é", "select", "UPPER"];
    let ncol = r.gen_range(1..5);
    let mut names = vec![if chance(r, 0.5) { "k".to_string() } else { "Key".to_string() }];
    let mut kinds = vec![K::I];
    for i in 0..ncol { names.push(format!("{}{i}", pick(r, &letters))); kinds.push(*pick(r, &[K::I, K::F, K::S, K::B, K::D, K::T])) }
    let schema = pick(r, &["public", "public", "other", "Mixed", "new_schema", "dot.ted"]).to_string();
    let table = format!("{}{n}", pick(r, &["t", "T", "up.load", "sel-ect", "Table_"]));
    let db = *pick(r, &["", "", "/db2"]);
    let mut t = Target { db, schema, table, names, kinds, rows: vec![], exists: false, next: 0 };
    // the same name elsewhere, with other columns
    let decoy_schema = if t.schema == "public" { "other" } else { "public" };
    let id = |s: &str| format!("\"{}\"", s.replace('"', "\"\""));
    if chance(r, 0.6) {
        let sql = format!("CREATE TABLE {}.{} (decoy TEXT, other BIGINT)", id(decoy_schema), id(&t.table));
        match post(rt, &format!("{db}/q"), &sql, &[]).await { Ok(a) if a.status == 200 => (), a => { ctx.inconclusive(&format!("decoy: {a:?}")); } }
        ctx.count("same_name_in_other_schema", 1);
    }
    if chance(r, 0.5) && t.schema != "new_schema" {
        let sql = format!("CREATE TABLE {}.{} ({})", id(&t.schema), id(&t.table), t.names.iter().zip(&t.kinds).map(|(n, k)| format!("{} {}", id(n), k.sql())).collect::<Vec<_>>().join(", "));
        match post(rt, &format!("{db}/q"), &sql, &[]).await {
            Ok(a) if a.status == 200 => t.exists = true,
            a => { ctx.violation("upload/create-table", &format!("{sql}: {a:?}")); return }
        }
    }
    let mut trace = vec![];
    for _ in 0..r.gen_range(1..5) {
        let is_csv = chance(r, 0.5);
        // without a header, columns of a new table are named by position
        let has_header = t.exists && chance(r, 0.5) || chance(r, 0.7) ;
        let nrow = *pick(r, &[0usize, 1, 2, 5, 40, 1500]);
        let mut rows: Vec<Vec<V>> = (0..nrow).map(|i| { let mut row = vec![V::I(t.next + i as i64)]; row.extend(t.kinds[1..].iter().map(|k| cell(r, *k, is_csv))); row }).collect();
        // a schema given with the file, so that nothing is left to inference
        let with_schema = is_csv && !t.exists || chance(r, 0.2);
        if chance(r, 0.4) { use sfv::rand::seq::SliceRandom; rows.shuffle(r) }
        let fault = if nrow == 0 { "none" } else if is_csv { *pick(r, &["none", "none", "none", "bad-value", "short-row", "long-row", "bad-utf8", "torn-body"]) } else { *pick(r, &["none", "none", "none", "cut", "garbage", "flipped-magic", "empty-file", "torn-body"]) };
        let csv_names: Vec<String> = t.names.clone();
        let fault = if fault == "bad-value" && !t.kinds.iter().any(|k| *k != K::S) { "short-row" } else { fault };
        let mut data = if is_csv {
            csv(has_header.then_some(&csv_names[..]), &rows)
        } else {
            parquet_bytes(&t.names, arrays(&t.kinds, &rows, None), *pick(r, &[1usize, 7, 1000]))
        };
        let at = r.gen_range(0..nrow.max(1));
        match fault {
            "bad-value" | "short-row" | "long-row" | "bad-utf8" => {
                let text = {
                    let mut head = if has_header { csv(Some(&csv_names), &rows[..at]) } else { csv(None, &rows[..at]) };
                    let c = t.kinds.iter().position(|k| *k != K::S).unwrap_or(0);
                    let mut cells: Vec<String> = rows[at].iter().map(render).collect();
                    let line: Vec<u8> = match fault {
                        "bad-value" => { cells[c] = "not-a-value".into(); cells.join(",").into_bytes() }
                        "short-row" => { cells.pop(); cells.join(",").into_bytes() }
                        "long-row" => { cells.push("more".into()); cells.join(",").into_bytes() }
                        _ => { let mut l = cells.join(",").into_bytes(); if !l.is_empty() { let m = l.len() - 1; l[m] = 0xff } l }
                    };
                    head.extend(line);
                    head.push(b'\n');
                    head.extend(csv(None, &rows[at + 1..]));
                    head
                };
                data = text;
            }
            "cut" => { let n = r.gen_range(0..data.len()); data.truncate(n) }
            "garbage" => { let a = r.gen_range(4..data.len() - 12); let e = (a + 40).min(data.len() - 8); for b in &mut data[a..e] { *b ^= 0x5a } }
            "flipped-magic" => { let n = data.len(); data[n - 1] ^= 1 }
            "empty-file" => data.clear(),
            _ => (),
        }
        let fname = format!("{}.{}", pick(r, &["file", "a.b", "späce name"]), if is_csv { "csv" } else { "parquet" });
        let schema_text = serde_json::to_vec(&Schema::new(t.names.iter().zip(&t.kinds).map(|(n, k)| Field::new(n, k.arrow(), true)).collect::<Vec<_>>())).unwrap();
        let hh: &[u8] = if has_header { b"true" } else { b"false" };
        let mut parts: Vec<(&str, Option<&str>, &[u8])> = vec![];
        if with_schema && chance(r, 0.5) { parts.push(("schema", None, &schema_text)) }
        parts.push(("data", Some(&fname), &data));
        if with_schema && parts.len() == 1 { parts.push(("schema", None, &schema_text)) }
        if is_csv && !(has_header && chance(r, 0.5)) { let at = r.gen_range(0..=parts.len()); parts.insert(at, ("has_header", None, hh)) }
        let (ct, mut body) = multipart(&parts);
        let mut cl = body.len();
        if fault == "torn-body" {
            let start = body.windows(fname.len()).position(|w| w == fname.as_bytes()).unwrap_or(0);
            cl = r.gen_range(start..body.len() - 6);
            body.truncate(cl);
        }
        let _ = cl;
        let path = format!("{db}/upload/{}/{}", t.schema, t.table);
        let a = ask(rt, "POST", &path, &[("content-type", &ct)], body).await;
        let kind = format!("{}/{}/{}", if is_csv { "csv" } else { "parquet" }, if t.exists { "append" } else { "create" }, fault);
        ctx.eval(&format!("upload/{kind}/{}", nrow.min(2)), true);
        ctx.seen("uploads", &kind);
        trace.push(format!("{path} {kind} {nrow} rows, header {has_header}, schema part {with_schema} -> {}", match &a { Ok(a) => format!("{} {}", a.status, String::from_utf8_lossy(&a.body).trim()), Err(e) => e.clone() }));
        let story = || format!("columns {:?}\n{}", t.names.iter().zip(&t.kinds).collect::<Vec<_>>(), trace.join("\n"));
        let a = match a { Ok(a) => a, Err(e) => { ctx.violation(&format!("upload/{kind}/no-answer"), &format!("{e}\n{}", story())); return } };
        let ok = a.status == 200;
        ctx.seen("upload-outcomes", &format!("{kind} {}", a.status));
        if ok {
            if matches!(fault, "bad-value" | "bad-utf8" | "short-row" | "long-row" | "flipped-magic" | "torn-body") || (fault == "cut" && !data.is_empty()) {
                ctx.violation(&format!("upload/{kind}/accepted"), &format!("{}\n{}", story(), String::from_utf8_lossy(&data[..data.len().min(300)])));
                return;
            }
        } else if fault == "none" {
            ctx.violation(&format!("upload/{kind}/refused"), &format!("{}\n{}", story(), String::from_utf8_lossy(&data[..data.len().min(600)])));
            return;
        } else if a.status < 400 { ctx.violation(&format!("upload/{kind}/status"), &story()); }
        // garbled pages may read as other values: only well-formedness of the outcome counts then
        let before = (t.exists, t.rows.clone());
        // a file without a single byte is one without rows
        if ok && fault == "empty-file" && !t.exists { return }
        if ok && fault != "empty-file" { t.rows.extend(rows.clone()) }
        if ok { t.exists = true }
        t.next += nrow as i64;
        match contents(rt, &t).await {
            Err(e) if t.exists => { ctx.violation(&format!("upload/{kind}/unreadable"), &format!("{e}\n{}", story())); return }
            Err(_) => (),
            Ok(_) if !t.exists => { ctx.violation(&format!("upload/{kind}/failed-but-created"), &story()); return }
            Ok(got) => {
                ctx.count("rows_compared", got.len() as u64);
                if let Some(m) = mismatch(&t, &got) {
                    if !(fault == "garbage" && ok) { ctx.violation(&format!("upload/{kind}/{}", if ok { "rows" } else { "failed-but-changed" }), &format!("{m}\n{}", story())); }
                    let _ = before;
                    return;
                }
            }
        }
    }
}

/// numbers that do not fit the column they go to
async fn misfits(ctx: &Ctx, r: &mut StdRng, rt: &Routes, n: usize) {
    let cases: Vec<(&str, ArrayRef, &str)> = vec![
        ("SMALLINT", Arc::new(Int64Array::from(vec![1, 70000])), "70000"),
        ("INT", Arc::new(Int64Array::from(vec![1, 5_000_000_000])), "5000000000"),
        ("INT", Arc::new(UInt32Array::from(vec![1u32, 4_000_000_000])), "4000000000"),
        ("BIGINT", Arc::new(UInt64Array::from(vec![1u64, u64::MAX])), "18446744073709551615"),
        ("INT", Arc::new(StringArray::from(vec!["1", "x"])), "x"),
        ("BIGINT", Arc::new(Float64Array::from(vec![1.0, 1e30])), "1e30"),
        ("BOOLEAN", Arc::new(StringArray::from(vec!["true", "perhaps"])), "perhaps"),
        ("DATE", Arc::new(StringArray::from(vec!["2020-01-01", "2020-13-45"])), "2020-13-45"),
        ("TIMESTAMP", Arc::new(StringArray::from(vec!["2020-01-01T00:00:00", "tomorrow"])), "tomorrow"),
        ("DECIMAL(5,2)", Arc::new(Int64Array::from(vec![1, 123456])), "123456"),
        ("SMALLINT", Arc::new(TimestampMicrosecondArray::from(vec![1, i64::MAX])), "9223372036854775807"),
    ];
    let (ty, arr, bad) = pick(r, &cases).clone();
    let is_csv = chance(r, 0.5);
    let t = format!("fit{n}");
    let first = match ty { "BOOLEAN" => "true", "DATE" => "DATE '2020-01-01'", "TIMESTAMP" => "TIMESTAMP '2020-01-01T00:00:00'", _ => "1" };
    match post(rt, "/q", &format!("CREATE TABLE {t} (v {ty}); INSERT INTO {t} VALUES ({first})"), &[]).await { Ok(a) if a.status == 200 => (), a => { ctx.violation("misfit/create", &format!("{a:?}")); return } }
    let before = post(rt, "/q", &format!("SELECT * FROM {t}"), &[]).await.map(|a| a.body).unwrap_or_default();
    let data = if is_csv { format!("v\n1\n{bad}\n").into_bytes() } else { parquet_bytes(&["v".into()], vec![arr.clone()], 100) };
    let (ct, body) = multipart(&[("data", Some(if is_csv { "f.csv" } else { "f.parquet" }), &data)]);
    let a = ask(rt, "POST", &format!("/upload/public/{t}"), &[("content-type", &ct)], body).await;
    ctx.eval(&format!("misfit/{ty}/{}/{is_csv}", arr.data_type()), true);
    let after = post(rt, "/q", &format!("SELECT * FROM {t}"), &[]).await.map(|a| a.body).unwrap_or_default();
    let form = if is_csv { "csv" } else { "parquet" };
    match a {
        Err(e) => ctx.violation(&format!("misfit/{form}/no-answer"), &e),
        Ok(a) if a.status == 200 => ctx.violation(&format!("misfit/{form}/accepted/{ty}"), &format!("{bad} of {} into {ty}: accepted, table now {}", arr.data_type(), String::from_utf8_lossy(&after))),
        Ok(_) => if before != after { ctx.violation(&format!("misfit/{form}/changed"), &format!("{bad} into {ty}: {} -> {}", String::from_utf8_lossy(&before), String::from_utf8_lossy(&after))) },
    }
    let _ = post(rt, "/q", &format!("DROP TABLE {t}"), &[]).await;
}

pub fn c45(ctx: &Ctx) {
    ctx.rule("one evaluation = one query answered over HTTP and compared cell by cell with the values it was built from, or one upload and the comparison of the table after it with a model; distinct by (route, first type, size) and by (file form, append or create, fault, size)");
    let rt = super::rt(4);
    rt.block_on(async {
        let mut r = ctx.rng("results");
        let rounds = ctx.n(6, 120);
        for round in 0..rounds {
            if ctx.out_of_time() { break }
            let sf = if round % 2 == 0 { Sf::memory("").await } else { Sf::disk("[misc]\nmax_partition_size = 700").await };
            let routes = routes(&sf.ctx, seafowl::config::schema::HttpFrontend { read_access: seafowl::config::schema::AccessSettings::Any, write_access: seafowl::config::schema::AccessSettings::Any, ..Default::default() });
            for s in ["CREATE DATABASE db2", "CREATE SCHEMA other", "CREATE SCHEMA \"Mixed\"", "CREATE SCHEMA \"dot.ted\""] { sf.sql(s).await.unwrap(); }
            for s in ["CREATE SCHEMA other", "CREATE SCHEMA \"Mixed\"", "CREATE SCHEMA \"dot.ted\"", "CREATE SCHEMA public"] { let _ = post(&routes, "/db2/q", s, &[]).await; }
            for n in 0..ctx.n(40, 60) {
                if ctx.out_of_time() { break }
                generated(ctx, &mut r, &routes, n as usize).await;
                if n % 2 == 0 { uploads(ctx, &mut r, &routes, n as usize).await }
                if n % 3 == 0 { misfits(ctx, &mut r, &routes, n as usize).await }
                if n % 4 == 0 { multi(ctx, &mut r, &routes, n as usize).await }
                if n % 20 == 0 { large(ctx, &mut r, &routes, n as usize).await }
            }
        }
    });
}
