//! C25: filters pushed down to remote databases.
use super::dialect::{self, Dia, V};
use crate::filter_pushdown::*;
use ::datafusion::arrow::array::*;
use ::datafusion::arrow::datatypes::{DataType, Field, Schema, TimeUnit};
use ::datafusion::common::{Column, DFSchema};
use ::datafusion::logical_expr::{Between, BinaryExpr, Case, Cast, Expr, Like, Operator, TryCast};
use ::datafusion::logical_expr::expr::InList;
use ::datafusion::prelude::SessionContext;
use ::datafusion::scalar::ScalarValue as S;
use rand::{rngs::StdRng, Rng};
use sfv::{chance, pick, Ctx};
use std::sync::Arc;

// -------------------------------------------------------------------- a minimal SQLite handle
struct Lite(*mut libsqlite3_sys::sqlite3);
impl Lite {
    fn new() -> Lite { let mut p = std::ptr::null_mut(); unsafe { assert_eq!(libsqlite3_sys::sqlite3_open(c":memory:".as_ptr(), &mut p), 0); } Lite(p) }
    fn rows(&self, sql: &str) -> Result<Vec<i64>, String> {
        unsafe {
            let mut st = std::ptr::null_mut();
            let mut tail = std::ptr::null();
            let b = sql.as_bytes();
            let rc = libsqlite3_sys::sqlite3_prepare_v2(self.0, b.as_ptr() as *const _, b.len() as i32, &mut st, &mut tail);
            if rc != 0 { return Err(self.msg()); }
            let left = b.len() - (tail as usize - b.as_ptr() as usize);
            if left != 0 { libsqlite3_sys::sqlite3_finalize(st); return Err(format!("{left} bytes left over")); }
            let mut out = vec![];
            let r = loop {
                match libsqlite3_sys::sqlite3_step(st) { 100 => out.push(libsqlite3_sys::sqlite3_column_int64(st, 0)), 101 => break Ok(out), _ => break Err(self.msg()) }
            };
            libsqlite3_sys::sqlite3_finalize(st);
            r
        }
    }
    fn msg(&self) -> String { unsafe { std::ffi::CStr::from_ptr(libsqlite3_sys::sqlite3_errmsg(self.0)).to_string_lossy().into_owned() } }
}
impl Drop for Lite { fn drop(&mut self) { unsafe { libsqlite3_sys::sqlite3_close(self.0); } } }

#[derive(Clone, Copy, PartialEq, Debug)]
enum T { I, F, T, B, Ts, D }
const COLS: &[(&str, T)] = &[("i", T::I), ("I 2", T::I), ("k", T::I), ("f", T::F), ("G", T::F), ("t", T::T), ("a\"b", T::T), ("we`ird", T::T), ("b", T::B), ("select", T::B), ("ts", T::Ts), ("d.d", T::D), ("back\\slash", T::I), ("it's", T::I)];
const TEXTS: &[&str] = &["", "a", "A", "b", "ab", "it's", "back\\slash", "\\", "\\'", "q\"q", "per%cent", "un_der", "é", "--", "/*", "'", "''", "a\nb", "NULL", "1", "\\n", "x; DROP TABLE t", "日本", "`", "\t", "ab\\"];
const PATTERNS: &[&str] = &["a", "^a", "b$", "a.b", "^$", "A", "[0-9]", "x|b"];
const LIKES: &[&str] = &["a%", "%b", "_", "%", "a", "%a%", "A%"];

fn int(r: &mut StdRng) -> i64 { if chance(r, 0.2) { *pick(r, &[0, 1, -1, 127, -128, 1000]) } else { r.gen_range(-6..7) } }
fn float(r: &mut StdRng) -> f64 { if chance(r, 0.2) { *pick(r, &[0.0, 0.5, -0.25, 1e15, 1e-7, 123456.75, -1.0, 1e30]) } else { r.gen_range(-12..13) as f64 / 4.0 } }
fn ts(r: &mut StdRng) -> i64 { r.gen_range(0..6) * 86_400_000_000 + *pick(r, &[0i64, 1, 3600, 86_399, -1]) * 1_000_000 }
fn day(r: &mut StdRng) -> i32 { *pick(r, &[0, 1, -1, 19000, 20000, -20000, 11016]) }

struct G<'a> { r: &'a mut StdRng, dia: Dia, float_mod: bool, neg_bits: bool }
impl G<'_> {
    fn col(&mut self, t: T) -> Expr {
        let c: Vec<&str> = COLS.iter().filter(|(_, x)| *x == t).map(|x| x.0).collect();
        Expr::Column(Column::new_unqualified(*pick(self.r, &c)))
    }
    fn lit(&mut self, t: T) -> Expr {
        let null = chance(self.r, 0.07);
        Expr::Literal(match t {
            T::I => S::Int64(if null { None } else { Some(int(self.r)) }),
            T::F => S::Float64(if null { None } else { Some(float(self.r)) }),
            T::T => S::Utf8(if null { None } else { Some(pick(self.r, TEXTS).to_string()) }),
            T::B => S::Boolean(if null { None } else { Some(chance(self.r, 0.5)) }),
            T::Ts => S::TimestampMicrosecond(if null { None } else { Some(ts(self.r)) }, None),
            T::D => S::Date32(if null { None } else { Some(day(self.r)) }),
        })
    }
    fn bin(&mut self, l: Expr, op: Operator, r: Expr) -> Expr { Expr::BinaryExpr(BinaryExpr::new(Box::new(l), op, Box::new(r))) }
    fn leaf(&mut self, t: T) -> Expr { if chance(self.r, 0.6) { self.col(t) } else { self.lit(t) } }
    /// never two literals
    fn pair(&mut self, t: T, d: usize) -> (Expr, Expr) {
        let (mut l, r) = (self.gen(t, d), self.gen(t, d));
        if matches!(l, Expr::Literal(_)) && matches!(r, Expr::Literal(_)) { l = self.col(t); }
        if chance(self.r, 0.5) { (l, r) } else { (r, l) }
    }
    fn gen(&mut self, t: T, d: usize) -> Expr {
        if d == 0 { return self.leaf(t); }
        use Operator::*;
        match t {
            T::I => match self.r.gen_range(0..10) {
                0 | 1 => self.leaf(t),
                2 => { let x = self.gen(t, d - 1); if let Expr::Literal(_) = x { x } else { Expr::Negative(Box::new(x)) } }
                3..=6 => { let (l, r) = self.pair(t, d - 1); let op = *pick(self.r, &[Plus, Minus, Multiply]); self.bin(l, op, r) }
                7 => { let l = self.gen(t, d - 1); let op = *pick(self.r, &[Divide, Modulo]); let l = if let Expr::Literal(_) = l { self.col(t) } else { l }; let v = *pick(self.r, &[1i64, 2, 3, -2, 7]); self.bin(l, op, Expr::Literal(S::Int64(Some(v)))) }
                _ if self.dia == Dia::My && !self.neg_bits => self.leaf(t),
                8 => { let (l, r) = self.pair(t, d - 1); let op = *pick(self.r, &[BitwiseAnd, BitwiseOr, BitwiseXor]); self.bin(l, op, r) }
                _ => { let l = self.col(t); let op = *pick(self.r, &[BitwiseShiftLeft, BitwiseShiftRight]); let v = self.r.gen_range(0..6i64); self.bin(l, op, Expr::Literal(S::Int64(Some(v)))) }
            },
            T::F => match self.r.gen_range(0..8) {
                0 | 1 => self.leaf(t),
                2 => { let x = self.gen(t, d - 1); if let Expr::Literal(_) = x { x } else { Expr::Negative(Box::new(x)) } }
                3 if self.float_mod => { let l = self.col(t); self.bin(l, Modulo, Expr::Literal(S::Float64(Some(0.75)))) }
                4 => { let l = self.gen(t, d - 1); let l = if let Expr::Literal(_) = l { self.col(t) } else { l }; let v = *pick(self.r, &[2.0, -0.5, 4.0]); self.bin(l, Divide, Expr::Literal(S::Float64(Some(v)))) }
                _ => { let (l, r) = self.pair(t, d - 1); let op = *pick(self.r, &[Plus, Minus, Multiply]); self.bin(l, op, r) }
            },
            T::T => match self.r.gen_range(0..3) { 0 | 1 => self.leaf(t), _ => { let (l, r) = self.pair(t, d - 1); self.bin(l, StringConcat, r) } },
            T::Ts | T::D => self.leaf(t),
            // what isn't sent now, but must mean the same if it ever is
            T::B if chance(self.r, 0.015) => {
                let k = *pick(self.r, &[T::I, T::F, T::T, T::Ts, T::D]);
                let x = Box::new(self.col(k));
                match self.r.gen_range(0..6) {
                    0 | 1 => { let (l, h) = (self.gen(k, d - 1), self.gen(k, d - 1)); Expr::Between(Between::new(x, chance(self.r, 0.3), Box::new(l), Box::new(h))) }
                    2 => { let y = Box::new(self.gen(T::B, d - 1)); if chance(self.r, 0.5) { Expr::IsUnknown(y) } else { Expr::IsNotUnknown(y) } }
                    3 => { let l = Box::new(self.col(T::T)); let p = pick(self.r, LIKES).to_string(); Expr::Like(Like::new(chance(self.r, 0.3), l, Box::new(Expr::Literal(S::Utf8(Some(p)))), None, chance(self.r, 0.3))) }
                    4 => { let y = Box::new(self.col(T::F)); let c = if chance(self.r, 0.5) { Expr::Cast(Cast::new(y, DataType::Int64)) } else { Expr::TryCast(TryCast::new(y, DataType::Int64)) }; let l = self.col(T::I); self.bin(c, Lt, l) }
                    _ => { let (c, a, b) = (self.gen(T::B, d - 1), self.col(T::I), self.lit(T::I)); let e = Expr::Case(Case::new(None, vec![(Box::new(c), Box::new(a))], Some(Box::new(b)))); let l = self.col(T::I); self.bin(e, Gt, l) }
                }
            }
            T::B => match self.r.gen_range(0..22) {
                0 => self.leaf(t),
                1..=5 => { let (l, r) = (self.gen(t, d - 1), self.gen(t, d - 1)); let op = *pick(self.r, &[And, Or]); self.bin(l, op, r) }
                6 | 7 => { let x = self.gen(t, d - 1); Expr::Not(Box::new(x)) }
                8 => { let k = *pick(self.r, &[T::I, T::F, T::T, T::B, T::Ts]); let x = self.gen(k, d - 1); let x = if let Expr::Literal(_) = x { self.col(k) } else { x }; if chance(self.r, 0.5) { Expr::IsNull(Box::new(x)) } else { Expr::IsNotNull(Box::new(x)) } }
                9 | 10 => { let x = Box::new(self.gen(t, d - 1)); match self.r.gen_range(0..4) { 0 => Expr::IsTrue(x), 1 => Expr::IsFalse(x), 2 => Expr::IsNotTrue(x), _ => Expr::IsNotFalse(x) } }
                11 | 12 => {
                    let k = *pick(self.r, &[T::I, T::I, T::T, T::F, T::B, T::D]);
                    let x = self.gen(k, d - 1);
                    let x = if let Expr::Literal(_) = x { self.col(k) } else { x };
                    let n = self.r.gen_range(1..5);
                    let list = (0..n).map(|_| if chance(self.r, 0.85) { self.lit(k) } else { self.gen(k, d - 1) }).collect();
                    Expr::InList(InList::new(Box::new(x), list, chance(self.r, 0.5)))
                }
                13 => { let k = *pick(self.r, &[T::I, T::T, T::B]); let (l, r) = self.pair(k, d - 1); let op = *pick(self.r, &[IsDistinctFrom, IsNotDistinctFrom]); self.bin(l, op, r) }
                14 => { let l = self.gen(T::T, d - 1); let l = if let Expr::Literal(_) = l { self.col(T::T) } else { l }; let op = *pick(self.r, &[RegexMatch, RegexIMatch, RegexNotMatch, RegexNotIMatch]); let p = pick(self.r, PATTERNS).to_string(); self.bin(l, op, Expr::Literal(S::Utf8(Some(p)))) }
                15 => { let l = self.gen(T::T, d - 1); let l = if let Expr::Literal(_) = l { self.col(T::T) } else { l }; let op = *pick(self.r, &[LikeMatch, ILikeMatch, NotLikeMatch, NotILikeMatch]); let p = pick(self.r, LIKES).to_string(); self.bin(l, op, Expr::Literal(S::Utf8(Some(p)))) }
                _ => { let k = *pick(self.r, &[T::I, T::I, T::F, T::T, T::T, T::B, T::Ts, T::D]); let (l, r) = self.pair(k, d - 1); let op = *pick(self.r, &[Eq, NotEq, Lt, LtEq, Gt, GtEq]); self.bin(l, op, r) }
            },
        }
    }
}

fn q(s: &str) -> String { format!("\"{}\"", s.replace('"', "\"\"")) }
fn civil(days: i64) -> (i64, i64, i64) {
    let z = days + 719468; let era = z.div_euclid(146097); let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153; let d = doy - (153 * mp + 2) / 5 + 1; let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + (m <= 2) as i64, m, d)
}
fn date_text(days: i64) -> String { let (y, m, d) = civil(days); format!("{y:04}-{m:02}-{d:02}") }
fn ts_text(us: i64) -> String { let s = us.div_euclid(1_000_000); format!("{} {:02}:{:02}:{:02}", date_text(s.div_euclid(86400)), s.rem_euclid(86400) / 3600, s.rem_euclid(3600) / 60, s.rem_euclid(60)) }

struct Data { batch: RecordBatch, rows: Vec<Vec<V>>, lite: Lite }
fn data(r: &mut StdRng, n: usize) -> Data {
    let mut fields = vec![];
    let mut arrays: Vec<ArrayRef> = vec![];
    let mut rows = vec![vec![]; n];
    let mut lit: Vec<Vec<String>> = vec![vec![]; n];
    for (name, t) in COLS {
        let nul: Vec<bool> = (0..n).map(|_| chance(r, 0.2)).collect();
        macro_rules! col { ($arr:ty, $dt:expr, $gen:expr, $v:expr, $s:expr) => {{
            let vals: Vec<_> = (0..n).map(|i| { let x = $gen; if nul[i] { None } else { Some(x) } }).collect();
            for (i, v) in vals.iter().enumerate() { rows[i].push(v.clone().map($v).unwrap_or(V::Null)); lit[i].push(v.clone().map($s).unwrap_or("NULL".into())); }
            arrays.push(Arc::new(<$arr>::from(vals)));
            fields.push(Field::new(*name, $dt, true));
        }} }
        match t {
            T::I => col!(Int64Array, DataType::Int64, int(r), |x| V::I(x as i128), |x| x.to_string()),
            T::F => col!(Float64Array, DataType::Float64, float(r), V::F, |x| format!("{x:e}")),
            T::T => col!(StringArray, DataType::Utf8, pick(r, TEXTS).to_string(), V::T, |x: String| format!("'{}'", x.replace('\'', "''"))),
            T::B => col!(BooleanArray, DataType::Boolean, chance(r, 0.5), V::B, |x| (x as i32).to_string()),
            T::Ts => col!(TimestampMicrosecondArray, DataType::Timestamp(TimeUnit::Microsecond, None), ts(r), |x| V::Ts(x as i128 * 1000), |x| format!("'{}'", ts_text(x))),
            T::D => col!(Date32Array, DataType::Date32, day(r), |x| V::Ts(x as i128 * 86_400_000_000_000), |x| format!("'{}'", date_text(x as i64))),
        }
    }
    let batch = RecordBatch::try_new(Arc::new(Schema::new(fields)), arrays).unwrap();
    let lite = Lite::new();
    let defs: Vec<String> = COLS.iter().map(|(c, t)| format!("{} {}", q(c), match t { T::I => "INTEGER", T::F => "REAL", T::T | T::Ts | T::D => "TEXT", T::B => "BOOLEAN" })).collect();
    lite.rows(&format!("CREATE TABLE t ({})", defs.join(", "))).unwrap();
    for l in &lit { lite.rows(&format!("INSERT INTO t VALUES ({})", l.join(", "))).unwrap(); }
    Data { batch, rows, lite }
}

fn render(d: Dia, e: &Expr) -> Result<Result<String, String>, String> {
    sfv::guarded(|| match d { Dia::Pg => filter_expr_to_sql(e, PostgresFilterPushdown {}), Dia::My => filter_expr_to_sql(e, MySQLFilterPushdown {}), Dia::Lite => filter_expr_to_sql(e, SQLiteFilterPushdown {}) }.map_err(|e| e.to_string()))
}

fn interpreted(d: Dia, sql: &str, rows: &[Vec<V>]) -> Result<Vec<i64>, String> {
    let n = dialect::P::parse(d, sql)?;
    let mut out = vec![];
    for (i, row) in rows.iter().enumerate() {
        let v = dialect::eval(d, &n, &|c| COLS.iter().position(|(x, _)| *x == c).map(|k| row[k].clone()))?;
        match v { V::B(true) => out.push(i as i64 + 1), V::B(false) | V::Null => {} V::I(x) if d != Dia::Pg => if x != 0 { out.push(i as i64 + 1) }, V::F(x) if d != Dia::Pg => if x != 0.0 { out.push(i as i64 + 1) }, x => return Err(format!("a filter of {x:?}")) }
    }
    Ok(out)
}

pub fn c25(ctx: &Ctx) {
    ctx.rule("one evaluation = one filter rendered for one kind of database and run against 40 rows, or one literal rendered; distinct by dialect and filter");
    let sess = SessionContext::new();
    let n = ctx.n(30_000, 400_000) as u64;
    let mut set: Option<(Data, DFSchema)> = None;
    for case in 0..n {
        if ctx.used(0.8) { break; }
        if case % 1000 == 0 { let d = data(&mut ctx.rng_n("data", case / 1000), 40); let s = DFSchema::try_from(d.batch.schema().as_ref().clone()).unwrap(); set = Some((d, s)); }
        let (d, schema) = set.as_ref().unwrap();
        let r = &mut ctx.rng_n("filter", case);
        let dia = *pick(r, &[Dia::Pg, Dia::My, Dia::Lite]);
        let depth = r.gen_range(1..5);
        let (float_mod, neg_bits) = (chance(r, 0.02), chance(r, 0.05));
        let e = G { r, dia, float_mod, neg_bits }.gen(T::B, depth);
        one(ctx, &sess, d, schema, dia, &e, float_mod, neg_bits);
    }
    // every pair of operators, one inside the other, on either side
    let (d, schema) = set.as_ref().unwrap();
    pairs(ctx, &sess, d, schema);
    // the known findings, each from one fixed filter
    let b = data(&mut ctx.rng_n("fixed", 0), 40);
    let s = DFSchema::try_from(b.batch.schema().as_ref().clone()).unwrap();
    let float = COLS.iter().find(|c| c.1 == T::F).unwrap().0;
    let int = COLS.iter().find(|c| c.1 == T::I).unwrap().0;
    let bin = |l: Expr, o: Operator, r: Expr| Expr::BinaryExpr(BinaryExpr::new(Box::new(l), o, Box::new(r)));
    let col = |c: &str| Expr::Column(Column::from_name(c));
    let f = bin(bin(bin(col(float), Operator::Plus, Expr::Literal(S::Float64(Some(0.1)))), Operator::Modulo, Expr::Literal(S::Float64(Some(2.5)))), Operator::Gt, Expr::Literal(S::Float64(Some(0.6))));
    one(ctx, &sess, &b, &s, Dia::Pg, &f, true, false);
    one(ctx, &sess, &b, &s, Dia::Lite, &f, true, false);
    let f = bin(bin(col(int), Operator::BitwiseOr, Expr::Literal(S::Int64(Some(-1)))), Operator::Lt, Expr::Literal(S::Int64(Some(0))));
    one(ctx, &sess, &b, &s, Dia::My, &f, false, true);
    literals(ctx);
}

/// common to all the kinds of databases
fn plain(e: &Expr) -> bool {
    use Operator::*;
    match e {
        Expr::Column(_) | Expr::Not(_) | Expr::IsNull(_) | Expr::IsNotNull(_) | Expr::InList(_) => true,
        Expr::BinaryExpr(b) => matches!(b.op, Eq | NotEq | Lt | LtEq | Gt | GtEq | And | Or | Plus | Minus | Multiply),
        Expr::Literal(S::Int64(Some(_)) | S::Boolean(Some(_))) => true,
        Expr::Literal(S::Utf8(Some(t))) => !t.contains('\0'),
        Expr::Literal(S::Float64(Some(x))) => x.is_finite(),
        _ => false,
    }
}
fn has(e: &Expr, f: &dyn Fn(&Expr) -> bool) -> bool {
    use ::datafusion::common::tree_node::{TreeNode, TreeNodeRecursion};
    let mut hit = false;
    let _ = e.apply(|x| { if f(x) { hit = true; } Ok(TreeNodeRecursion::Continue) });
    hit
}
fn negative_zero(sess: &SessionContext, d: &Data, schema: &DFSchema, e: &Expr) -> bool {
    use ::datafusion::logical_expr::ExprSchemable;
    has(e, &|x| x.get_type(schema).ok() == Some(DataType::Float64) && (|| -> Option<bool> {
        let v = sess.create_physical_expr(x.clone(), schema).ok()?.evaluate(&d.batch).ok()?.into_array(d.batch.num_rows()).ok()?;
        Some(v.as_any().downcast_ref::<Float64Array>()?.iter().flatten().any(|f| f == 0.0 && f.is_sign_negative()))
    })().unwrap_or(false))
}
fn one(ctx: &Ctx, sess: &SessionContext, d: &Data, schema: &DFSchema, dia: Dia, e: &Expr, float_mod: bool, neg_bits: bool) {
    use ::datafusion::arrow::array::AsArray;
    let name = format!("{dia:?}: {e}");
    ctx.eval(&name, true);
    let sql = match render(dia, e) {
        Err(p) => { ctx.violation("panic", format!("{name}: {p}")); return; }
        Ok(Err(m)) => {
            ctx.count(&format!("{dia:?} not pushed down"), 1);
            // what every kind of database understands alike is left to it
            if has(e, &|x| !plain(x)) { return; }
            ctx.violation(&format!("not-sent/{dia:?}"), format!("{name}\n  {m}"));
            return;
        }
        Ok(Ok(s)) => s,
    };
    ctx.count(&format!("{dia:?} pushed down"), 1);
    let truth = sfv::guarded(|| -> Result<Vec<i64>, String> {
        let p = sess.create_physical_expr(e.clone(), schema).map_err(|e| e.to_string())?;
        let a = p.evaluate(&d.batch).map_err(|e| e.to_string())?.into_array(d.batch.num_rows()).map_err(|e| e.to_string())?;
        let a = a.as_boolean_opt().ok_or("not a boolean")?.clone();
        Ok((0..a.len()).filter(|i| a.is_valid(*i) && a.value(*i)).map(|i| i as i64 + 1).collect())
    });
    // what floats and negative numbers cannot do remotely is judged apart
    let special = if float_mod && has(e, &|x| matches!(x, Expr::BinaryExpr(b) if b.op == Operator::Modulo && matches!(*b.right, Expr::Literal(S::Float64(_))))) { "/float-modulo" } else if neg_bits && dia == Dia::My && has(e, &|x| matches!(x, Expr::BinaryExpr(b) if matches!(b.op, Operator::BitwiseAnd | Operator::BitwiseOr | Operator::BitwiseXor | Operator::BitwiseShiftRight | Operator::BitwiseShiftLeft))) { "/bits" } else { "" };
    let by_hand = interpreted(dia, &sql, &d.rows);
    // what overflows is an error in one engine and wraps in another
    if matches!(&by_hand, Err(m) if m == "out of range") { ctx.count("left out: overflow", 1); return; }
    let got = if dia == Dia::Lite {
        let real = d.lite.rows(&format!("SELECT rowid FROM t WHERE {sql}"));
        // the interpreter keeps itself honest on the engine that is here
        if let (Ok(a), Ok(b)) = (&real, &by_hand) { ctx.count("interpreter compared with SQLite", 1); if a != b { ctx.inconclusive(format!("the dialect interpreter disagrees with SQLite on {sql}: {b:?}, SQLite {a:?}")); } }
        real
    } else { by_hand };
    match (truth, got) {
        (Ok(Ok(t)), Ok(g)) => {
            if t != g && negative_zero(sess, d, schema, e) { ctx.count("left out: negative zero, which Arrow orders below zero", 1); return; }
            ctx.count("row sets compared", 1); if !t.is_empty() && t.len() < d.rows.len() { ctx.count("row sets neither empty nor full", 1); } ctx.check(t == g, &format!("rows-differ/{dia:?}{special}"), || format!("{name}\n  sent: {sql}\n  wanted rows {t:?}, got {g:?}")); }
        (Ok(Ok(_)), Err(m)) => { ctx.violation(&format!("ill-formed/{dia:?}{special}"), format!("{name}\n  sent: {sql}\n  {m}")); }
        _ => {
            ctx.count("not evaluated by the query engine", 1);
            if dia != Dia::Lite { if let Err(m) = dialect::P::parse(dia, &sql) { ctx.violation(&format!("ill-formed/{dia:?}{special}"), format!("{name}\n  sent: {sql}\n  {m}")); } }
        }
    }
}

fn pairs(ctx: &Ctx, sess: &SessionContext, d: &Data, schema: &DFSchema) {
    use Operator::*;
    let r = &mut ctx.rng_n("pairs", 0);
    let ops: &[(Operator, T, T)] = &[(Eq, T::I, T::B), (NotEq, T::I, T::B), (Lt, T::I, T::B), (LtEq, T::I, T::B), (Gt, T::I, T::B), (GtEq, T::I, T::B), (Eq, T::B, T::B), (NotEq, T::B, T::B), (Eq, T::T, T::B), (Lt, T::T, T::B), (And, T::B, T::B), (Or, T::B, T::B), (Plus, T::I, T::I), (Minus, T::I, T::I), (Multiply, T::I, T::I),
        (BitwiseAnd, T::I, T::I), (BitwiseOr, T::I, T::I), (BitwiseXor, T::I, T::I), (StringConcat, T::T, T::T), (IsDistinctFrom, T::B, T::B), (IsNotDistinctFrom, T::B, T::B), (IsDistinctFrom, T::I, T::B), (Plus, T::F, T::F), (Minus, T::F, T::F), (Multiply, T::F, T::F)];
    let un: &[(u8, T)] = &[(0, T::B), (1, T::I), (1, T::F), (2, T::B), (2, T::I), (2, T::T), (3, T::B), (3, T::T), (4, T::B), (5, T::B), (6, T::B), (7, T::B), (8, T::I), (8, T::B), (8, T::T), (9, T::I), (9, T::B)];
    let unary = |k: u8, x: Expr, l: Vec<Expr>| { let x = Box::new(x); match k { 0 => Expr::Not(x), 1 => Expr::Negative(x), 2 => Expr::IsNull(x), 3 => Expr::IsNotNull(x), 4 => Expr::IsTrue(x), 5 => Expr::IsFalse(x), 6 => Expr::IsNotTrue(x), 7 => Expr::IsNotFalse(x), k => Expr::InList(InList::new(x, l, k == 9)) } };
    let result = |k: u8, t: T| if k == 1 { t } else { T::B };
    for dia in [Dia::Pg, Dia::My, Dia::Lite] {
        let mut mk: Vec<(Expr, T)> = vec![];
        {
            let g = &mut G { r, dia, float_mod: false, neg_bits: false };
            for (op, a, res) in ops { if dia == Dia::My && matches!(op, BitwiseAnd | BitwiseOr | BitwiseXor) { continue; } let (x, y) = (g.col(*a), g.col(*a)); mk.push((g.bin(x, *op, y), *res)); }
            for (k, a) in un { let x = g.col(*a); let l = vec![g.lit(*a), g.lit(*a), g.col(*a)]; mk.push((unary(*k, x, l), result(*k, *a))); }
            // a minus in front of a minus is the start of a comment
            for v in [-5i64, 7] { mk.push((unary(1, Expr::Literal(S::Int64(Some(v))), vec![]), T::I)); }
            for v in [-1.5f64, 0.25] { mk.push((unary(1, Expr::Literal(S::Float64(Some(v))), vec![]), T::F)); }
            for t in [T::I, T::F] { let x = g.col(t); mk.push((unary(1, unary(1, x, vec![]), vec![]), t)); }
            let mut outer: Vec<(Expr, T)> = vec![];
            for (inner, it) in &mk {
                for (op, a, res) in ops { if a == it && !(dia == Dia::My && matches!(op, BitwiseAnd | BitwiseOr | BitwiseXor)) { let y = g.col(*a); outer.push((g.bin(inner.clone(), *op, y.clone()), *res)); outer.push((g.bin(y, *op, inner.clone()), *res)); } }
                for (k, a) in un { if a == it { let l = vec![g.lit(*a), g.col(*a)]; outer.push((unary(*k, inner.clone(), l.clone()), result(*k, *a))); if *k >= 8 { let x = g.col(*a); outer.push((unary(*k, x, vec![g.lit(*a), inner.clone()]), T::B)); } } }
            }
            mk.extend(outer);
        }
        for (e, t) in mk {
            let e = match t { T::B => e, T::I => { let y = Expr::Literal(S::Int64(Some(1))); Expr::BinaryExpr(BinaryExpr::new(Box::new(e), Gt, Box::new(y))) } T::F => Expr::BinaryExpr(BinaryExpr::new(Box::new(e), Gt, Box::new(Expr::Literal(S::Float64(Some(0.5)))))), _ => Expr::BinaryExpr(BinaryExpr::new(Box::new(e), GtEq, Box::new(Expr::Literal(S::Utf8(Some("b".into())))))) };
            one(ctx, sess, d, schema, dia, &e, false, false);
            ctx.count("operator pairs", 1);
        }
    }
}

/// A literal that is pushed down denotes the same value in the remote database.
fn literals(ctx: &Ctx) {
    let r = &mut ctx.rng_n("literals", 0);
    let mut all: Vec<S> = vec![S::Null, S::Boolean(Some(true)), S::Boolean(Some(false)), S::Boolean(None), S::Float64(Some(f64::NAN)), S::Float64(Some(f64::INFINITY)), S::Float64(Some(f64::NEG_INFINITY)), S::Float32(Some(f32::NAN)), S::Float64(Some(1e300)), S::Float64(Some(5e-324)), S::Float64(Some(-0.0)), S::Float64(Some(f64::MAX)), S::Float32(Some(1.5)),
        S::Decimal128(Some(12345), 5, 2), S::Decimal128(Some(-5), 10, 3), S::Decimal128(None, 5, 2), S::Decimal256(Some(::datafusion::arrow::datatypes::i256::from_i128(-12345)), 50, 2), S::Binary(Some(vec![1, 2, 255])), S::Binary(Some(vec![])), S::Binary(None), S::LargeBinary(Some(b"abc".to_vec())), S::FixedSizeBinary(2, Some(vec![1, 2])), S::BinaryView(Some(vec![1])),
        S::Time32Second(Some(1000)), S::Time32Millisecond(Some(1000)), S::Time64Microsecond(Some(1000)), S::Time64Nanosecond(Some(1000)), S::DurationSecond(Some(5)), S::DurationNanosecond(Some(5)), S::IntervalYearMonth(Some(14)), S::new_interval_dt(1, 2), S::new_interval_mdn(1, 2, 3),
        S::Int8(Some(-128)), S::Int16(Some(-1)), S::Int32(Some(i32::MIN)), S::Int64(Some(i64::MIN)), S::Int64(Some(i64::MAX)), S::UInt8(Some(255)), S::UInt16(Some(65535)), S::UInt32(Some(u32::MAX)), S::UInt64(Some(u64::MAX)), S::Int64(None), S::Utf8(None), S::Date32(None), S::TimestampSecond(None, None),
        S::List(S::new_list_nullable(&[S::Int64(Some(1)), S::Int64(Some(2))], &DataType::Int64)), S::Date32(Some(2_932_896)), S::Date32(Some(2_932_897)), S::Date32(Some(-719_162)), S::Date32(Some(-719_163)), S::Date64(Some(253_402_300_800_000)), S::TimestampSecond(Some(i64::MAX), None), S::TimestampSecond(Some(253_402_300_799), None), S::TimestampSecond(Some(253_402_300_800), None), S::TimestampSecond(Some(-62_135_596_800), None), S::TimestampSecond(Some(-62_135_596_801), None), S::TimestampMicrosecond(Some(i64::MIN), None), S::TimestampNanosecond(Some(i64::MIN), None),
        S::Dictionary(Box::new(DataType::Int32), Box::new(S::Utf8(Some("it's".into())))), S::Dictionary(Box::new(DataType::Int32), Box::new(S::Int64(Some(5)))), S::TimestampSecond(None, Some("UTC".into()))];
    for t in TEXTS { for s in [S::Utf8(Some(t.to_string())), S::LargeUtf8(Some(t.to_string())), S::Utf8View(Some(t.to_string())), S::Dictionary(Box::new(DataType::Int32), Box::new(S::Utf8(Some(t.to_string())))), S::Utf8(Some(format!("a\0{t}")))] { all.push(s); } }
    let extra = ctx.n(600, 60_000);
    for _ in 0..extra {
        all.push(match r.gen_range(0..9) {
            0 => S::Float64(Some(f64::from_bits(r.gen()))), 1 => S::Int64(Some(r.gen())), 2 => S::UInt64(Some(r.gen())), 3 => S::Decimal128(Some(r.gen_range(-10i128.pow(20)..10i128.pow(20))), 38, r.gen_range(-3..10)),
            4 => S::Utf8(Some((0..r.gen_range(0..8)).map(|_| *pick(r, &['a', '\'', '\\', '"', '%', 'é', '\n', ';', '`', '-', '日'])).collect())),
            5 => S::Date32(Some(r.gen_range(-800_000..3_000_000))), 6 => S::TimestampSecond(Some(r.gen_range(-70_000_000_000..260_000_000_000)), None), 7 => S::TimestampNanosecond(Some(r.gen()), None), _ => S::TimestampMicrosecond(Some(r.gen_range(-62_000_000_000_000_000..250_000_000_000_000_000)), None),
        });
    }
    for s in all {
        for dia in [Dia::Pg, Dia::My, Dia::Lite] {
            // what Arrow itself cannot print no filter can carry either
            let Ok(name) = sfv::guarded(|| format!("{dia:?} literal {s:?}")) else { continue };
            ctx.eval(&name, true);
            let sql = match render(dia, &Expr::Literal(s.clone())) { Err(p) => { ctx.violation("panic", format!("{name}: {p}")); continue; } Ok(Err(_)) => { ctx.count("literals not pushed down", 1); continue; } Ok(Ok(x)) => x };
            ctx.count("literals rendered", 1);
            let kind = s.data_type().to_string();
            let kind = kind.split('(').next().unwrap();
            let v = dialect::P::parse(dia, &sql).and_then(|n| dialect::eval(dia, &n, &|_| None));
            let v = match v { Ok(v) => v, Err(m) => { ctx.violation(&format!("literal-ill-formed/{dia:?}/{kind}"), format!("{name} is sent as {sql}: {m}")); continue; } };
            let want_ns = |x: i128| matches!(&v, V::T(t) if dialect::parse_ts(t) == Some(x));
            fn same(s: &S, v: &V, ts: &dyn Fn(i128) -> bool) -> Option<bool> {
                if s.is_null() { return Some(*v == V::Null); }
                let i = |x: i128| Some(*v == V::I(x));
                Some(match s {
                    S::Boolean(Some(b)) => *v == V::B(*b),
                    S::Int8(Some(x)) => return i(*x as i128), S::Int16(Some(x)) => return i(*x as i128), S::Int32(Some(x)) => return i(*x as i128), S::Int64(Some(x)) => return i(*x as i128),
                    S::UInt8(Some(x)) => return i(*x as i128), S::UInt16(Some(x)) => return i(*x as i128), S::UInt32(Some(x)) => return i(*x as i128), S::UInt64(Some(x)) => return i(*x as i128),
                    S::Float64(Some(x)) => match v { V::I(n) => *n as f64 == *x, V::F(n) => n == x, _ => false },
                    S::Float32(Some(x)) => match v { V::I(n) => *n as f64 == *x as f64, V::F(n) => *n == *x as f64, _ => false },
                    S::Utf8(Some(x)) | S::LargeUtf8(Some(x)) | S::Utf8View(Some(x)) => *v == V::T(x.clone()),
                    S::Decimal128(Some(x), _, sc) => { let want = *x as f64 / 10f64.powi(*sc as i32); match v { V::I(n) => *n as f64 == want, V::F(n) => (n - want).abs() <= want.abs() * 1e-12, _ => false } }
                    S::Date32(Some(x)) => ts(*x as i128 * 86_400_000_000_000), S::Date64(Some(x)) | S::TimestampMillisecond(Some(x), None) => ts(*x as i128 * 1_000_000), S::TimestampSecond(Some(x), None) => ts(*x as i128 * 1_000_000_000), S::TimestampMicrosecond(Some(x), None) => ts(*x as i128 * 1000), S::TimestampNanosecond(Some(x), None) => ts(*x as i128),
                    S::Dictionary(_, x) => return same(x, v, ts),
                    _ => return None,
                })
            }
            match same(&s, &v, &want_ns) {
                Some(ok) => { ctx.check(ok, &format!("literal-differs/{dia:?}/{kind}"), || format!("{name} is sent as {sql}, read as {v:?}")); }
                None => ctx.violation(&format!("literal-unfaithful/{dia:?}/{kind}"), format!("{name} is sent as {sql}, read as {v:?}")),
            }
        }
    }
}
