//! C10-C15: SQL texts, types, versions, plan nodes.
use crate::datafusion::parser::{DFParser, Statement, CONVERT_TO_DELTA};
use crate::version::TableVersionProcessor;
use ::datafusion::sql::parser::{CopyToSource, DFParser as EngineParser};
use rand::rngs::StdRng;
use rand::Rng;
use sfv::{chance, pick, Ctx};
use sqlparser::ast::{self, Ident, ObjectName, Statement as S, TableFactor, Value, VisitMut, Visit, VisitorMut};
use sqlparser::dialect::GenericDialect;
use sqlparser::parser::{Parser, ParserError};
use sqlparser::tokenizer::{Token, Tokenizer};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::ops::ControlFlow;
use std::time::Duration;

// ---------------------------------------------------------------------------------------------- texts

const IDS: &[&str] = &["t", "T1", "some_table", "\"Quoted\"", "\"we\"\"ird\"", "\"a.b\"", "`tick`", "col", "ünï", "\"select\"", "a1", "x", "y", "\"sp ace\"", "_u", "public", "\"\"", "date", "value", "name", "key"];

pub fn name(r: &mut StdRng, max: usize) -> String {
    (0..r.gen_range(1..=max)).map(|_| pick(r, IDS).to_string()).collect::<Vec<_>>().join(".")
}
fn lit(r: &mut StdRng) -> String {
    pick(r, &["1", "-2", "3.5", "1e10", "'text'", "'it''s'", "''", "NULL", "TRUE", "DATE '2020-01-01'", "INTERVAL '1 day'", "X'00ff'", "E'a\\nb'", "$$dollar$$", "N'x'", "18446744073709551615", "'2022-01-01 00:00:00'", "TIMESTAMP '2020-01-01 00:00:00'", "ARRAY[1,2]", "'--no comment'", "'; DROP'", "?", "$1", "@v"]).to_string()
}
fn expr(r: &mut StdRng, d: u32) -> String {
    if d == 0 {
        return if chance(r, 0.5) { name(r, 2) } else { lit(r) };
    }
    let n = d - 1;
    match r.gen_range(0..19) {
        0 => lit(r),
        1 => name(r, 3),
        2..=4 => { let o = pick(r, &["+", "-", "*", "/", "%", "=", "<>", "!=", "<", ">=", "AND", "OR", "||", "LIKE", "ILIKE", "IS DISTINCT FROM", "&", "|", "^", "->", "~", "SIMILAR TO", "NOT LIKE"]).to_string(); format!("{} {o} {}", expr(r, n), expr(r, n)) }
        5 => format!("({})", expr(r, n)),
        6 => format!("NOT {}", expr(r, n)),
        7 => format!("{} IS {}NULL", expr(r, n), if chance(r, 0.5) { "NOT " } else { "" }),
        8 => format!("{} {}IN ({}, {})", expr(r, n), if chance(r, 0.5) { "NOT " } else { "" }, expr(r, n), expr(r, n)),
        9 => format!("{} BETWEEN {} AND {}", expr(r, n), lit(r), lit(r)),
        10 => format!("CASE WHEN {} THEN {} ELSE {} END", expr(r, n), expr(r, n), expr(r, n)),
        11 => format!("CAST({} AS {})", expr(r, n), sqltype(r)),
        12 => format!("{}({})", pick(r, &["sum", "count", "coalesce", "my_fn", "lower", "date_trunc"]), (0..r.gen_range(0..3)).map(|_| expr(r, n)).collect::<Vec<_>>().join(", ")),
        13 => format!("count(*) OVER (PARTITION BY {} ORDER BY {} DESC)", name(r, 1), name(r, 1)),
        14 => format!("({})", query(r, n)),
        15 => format!("EXISTS ({})", query(r, n)),
        16 => format!("{} IN ({})", name(r, 1), query(r, n)),
        17 => format!("EXTRACT(YEAR FROM {})", name(r, 1)),
        _ => format!("{}::{}", name(r, 1), sqltype(r)),
    }
}
pub fn sqltype(r: &mut StdRng) -> String {
    pick(r, &["INT", "BIGINT", "SMALLINT UNSIGNED", "TEXT", "VARCHAR(20)", "CHAR(3)", "DECIMAL(10,2)", "NUMERIC", "DOUBLE PRECISION", "REAL", "FLOAT", "BOOLEAN", "DATE", "TIMESTAMP", "TIMESTAMP WITH TIME ZONE", "TIMESTAMP(3)", "TIME", "BYTEA", "INTERVAL", "UUID", "JSON", "STRING", "INT[]", "ARRAY<INT>", "foo", "FLOAT(25)", "TINYINT"]).to_string()
}
fn table_factor(r: &mut StdRng, d: u32) -> String {
    match r.gen_range(0..8) {
        0 if d > 0 => format!("({}) AS {}", query(r, d - 1), name(r, 1)),
        1 => format!("{}('2022-01-01 00:00:00')", name(r, 3)),
        2 => format!("generate_series(1, {})", lit(r)),
        3 => format!("{} AS {}", name(r, 3), name(r, 1)),
        4 if d > 0 => format!("({} CROSS JOIN {})", table_factor(r, d - 1), table_factor(r, d - 1)),
        5 => "(VALUES (1, 'a'), (2, 'b')) AS v (a, b)".into(),
        _ => name(r, 3),
    }
}
pub fn query(r: &mut StdRng, d: u32) -> String {
    let mut s = String::new();
    if chance(r, 0.15) && d > 0 {
        s += &format!("WITH {} AS ({}) ", name(r, 1), query(r, d - 1));
    }
    if chance(r, 0.05) {
        return s + &format!("VALUES ({}), ({})", expr(r, 0), expr(r, 0));
    }
    s += "SELECT ";
    if chance(r, 0.1) { s += "DISTINCT "; }
    s += &(0..r.gen_range(1..4)).map(|_| match r.gen_range(0..5) { 0 => "*".to_string(), 1 => format!("{}.*", name(r, 2)), 2 => format!("{} AS {}", expr(r, d), name(r, 1)), _ => expr(r, d) }).collect::<Vec<_>>().join(", ");
    if chance(r, 0.9) {
        s += &format!(" FROM {}", table_factor(r, d));
        if chance(r, 0.3) {
            let j = pick(r, &["JOIN", "LEFT JOIN", "FULL OUTER JOIN", "INNER JOIN", "RIGHT JOIN"]).to_string();
            s += &format!(" {j} {} ON {}", table_factor(r, d), expr(r, d.min(1)));
        }
        if chance(r, 0.4) { s += &format!(" WHERE {}", expr(r, d)); }
        if chance(r, 0.2) { s += &format!(" GROUP BY {} HAVING {}", name(r, 2), expr(r, d.min(1))); }
    }
    if chance(r, 0.15) && d > 0 { let o = pick(r, &["UNION ALL", "UNION", "EXCEPT", "INTERSECT"]).to_string(); s += &format!(" {o} {}", query(r, d - 1)); }
    if chance(r, 0.2) { s += &format!(" ORDER BY {} DESC NULLS LAST", name(r, 1)); }
    if chance(r, 0.2) { s += &format!(" LIMIT {} OFFSET 2", r.gen_range(0..10)); }
    s
}
fn columns(r: &mut StdRng) -> String {
    let cols: Vec<String> = (0..r.gen_range(1..4)).map(|_| format!("{} {}{}", name(r, 1), sqltype(r), pick(r, &["", " NOT NULL", " NULL", " DEFAULT 1", " PRIMARY KEY", " UNIQUE"]))).collect();
    format!("({})", cols.join(", "))
}
/// statements that are not Seafowl's own
pub fn engine_statement(r: &mut StdRng) -> String {
    let d = r.gen_range(0..3);
    match r.gen_range(0..22) {
        0..=5 => query(r, d),
        6 => format!("INSERT INTO {} {}", name(r, 3), query(r, d)),
        7 => format!("INSERT INTO {} ({}) VALUES ({}), ({})", name(r, 2), name(r, 1), expr(r, 1), expr(r, 1)),
        8 => format!("UPDATE {} SET {} = {} WHERE {}", name(r, 3), name(r, 1), expr(r, d), expr(r, d)),
        9 => format!("DELETE FROM {} WHERE {}", name(r, 3), expr(r, d)),
        10 => format!("CREATE TABLE {}{} {}", if chance(r, 0.3) { "IF NOT EXISTS " } else { "" }, name(r, 3), columns(r)),
        11 => format!("CREATE {}TABLE {} AS {}", if chance(r, 0.5) { "OR REPLACE " } else { "" }, name(r, 2), query(r, d)),
        12 => format!("CREATE {}VIEW {} AS {}", if chance(r, 0.5) { "OR REPLACE " } else { "" }, name(r, 2), query(r, d)),
        13 => format!("DROP {} {}{}", pick(r, &["TABLE", "SCHEMA", "VIEW"]), if chance(r, 0.4) { "IF EXISTS " } else { "" }, name(r, 3)),
        14 => format!("ALTER TABLE {} RENAME TO {}", name(r, 3), name(r, 3)),
        15 => format!("CREATE SCHEMA {}{}", if chance(r, 0.4) { "IF NOT EXISTS " } else { "" }, name(r, 2)),
        16 => format!("CREATE DATABASE {}", name(r, 1)),
        17 => pick(r, &["SHOW TABLES", "SHOW COLUMNS FROM t", "SHOW ALL", "SET a = 1", "BEGIN", "COMMIT", "ROLLBACK", "DESCRIBE t", "USE x", "SHOW datestyle", "ANALYZE TABLE t", "SET TIME ZONE 'UTC'", "DEALLOCATE p", "PREPARE p AS SELECT 1", "EXECUTE p(1)"]).to_string(),
        18 => format!("DROP FUNCTION {}{}", if chance(r, 0.4) { "IF EXISTS " } else { "" }, name(r, 2)),
        19 => format!("CREATE OR REPLACE TABLE {} {}", name(r, 2), columns(r)),
        20 => format!("CREATE {} TABLE {} {}", pick(r, &["TEMPORARY", "TEMP", "GLOBAL TEMPORARY", "OR REPLACE TEMPORARY"]), name(r, 2), columns(r)),
        _ => format!("CREATE INDEX {} ON {} ({})", name(r, 1), name(r, 2), name(r, 1)),
    }
}
fn explain(r: &mut StdRng) -> String {
    let s = engine_statement(r);
    format!("EXPLAIN {}{}", pick(r, &["", "ANALYZE ", "VERBOSE ", "ANALYZE VERBOSE "]), s)
}

// a statement of Seafowl as a list of tokens with its expected meaning
#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Kw(&'static str),
    Id(String),
    Str(String),
    Dollar(String),
    Sym(&'static str),
    Num(String),
    /// text that is kept as written
    Raw(String),
}
fn spell(r: &mut StdRng, t: &Tok) -> String {
    match t {
        Tok::Kw(k) => k.chars().map(|c| if chance(r, 0.4) { c.to_ascii_lowercase() } else { c }).collect(),
        Tok::Id(s) | Tok::Num(s) | Tok::Raw(s) => s.clone(),
        Tok::Str(s) => format!("'{}'", s.replace('\'', "''")),
        Tok::Dollar(s) => format!("$${s}$$"),
        Tok::Sym(s) => s.to_string(),
    }
}
fn write_tokens(r: &mut StdRng, toks: &[Tok]) -> String {
    let mut s = String::new();
    for (i, t) in toks.iter().enumerate() {
        let tight = matches!(t, Tok::Sym(_)) || (i > 0 && matches!(toks[i - 1], Tok::Sym(_)));
        let dot = *t == Tok::Sym(".") || (i > 0 && toks[i - 1] == Tok::Sym("."));
        if i > 0 || chance(r, 0.2) {
            let p = r.gen_range(0..10);
            // no comments or spaces around the dots of a name
            s += if dot { "" } else { match p { 0 => "\n", 1 => "\t ", 2 => " /* c ' ; */ ", 3 => " -- note ; '\n", 4 => "\r\n", 5 | 6 if tight => "", _ => " " } };
        }
        s += &spell(r, t);
    }
    s
}
fn obj(r: &mut StdRng, max: usize) -> (Vec<Tok>, ObjectName) {
    let mut toks = vec![];
    let mut ids = vec![];
    for i in 0..r.gen_range(1..=max) {
        if i > 0 { toks.push(Tok::Sym(".")); }
        let (t, id) = ident(r);
        toks.push(t);
        ids.push(id);
    }
    (toks, ObjectName(ids))
}
fn ident(r: &mut StdRng) -> (Tok, Ident) {
    match r.gen_range(0..5) {
        0 => { let v = pick(r, &["Quoted", "a.b", "select", "sp ace", "ünï", "MiXed", "semi;colon", "--dash", "x'y"]).to_string(); (Tok::Id(format!("\"{v}\"")), Ident::with_quote('"', v)) }
        1 => (Tok::Id("\"we\"\"ird\"".into()), Ident::with_quote('"', "we\"ird")),
        2 => (Tok::Id("`tick`".into()), Ident::with_quote('`', "tick")),
        _ => { let v = pick(r, &["t", "T1", "some_table", "MixedCase", "_u", "a1", "x"]).to_string(); (Tok::Id(v.clone()), Ident::new(v)) }
    }
}
fn string(r: &mut StdRng) -> String {
    pick(r, &["s3://bucket/path", "", "it's", "a;b", "-- x", "/* y */", "ünïcødé \u{1F600}", "{\"entrypoint\": \"f\"}", "new\nline", "\"dq\"", "back\\slash", "tail'", "''", "$$"]).to_string()
}

fn truncate_stmt(name: ObjectName, partitions: Option<Vec<ast::Expr>>, table: bool) -> Statement {
    Statement::Statement(Box::new(S::Truncate {
        table_names: vec![ast::TruncateTableTarget { name }], partitions, table, only: false, identity: None, cascade: None, on_cluster: None,
    }))
}
fn create_function(name: ObjectName, or_replace: bool, body: Value) -> Statement {
    Statement::Statement(Box::new(S::CreateFunction(ast::CreateFunction {
        or_replace, temporary: false, if_not_exists: false, name, args: None, return_type: None,
        function_body: Some(ast::CreateFunctionBody::AsBeforeOptions(ast::Expr::Value(body))),
        behavior: None, called_on_null: None, parallel: None, using: None, language: None, determinism_specifier: None, options: None, remote_connection: None,
    })))
}
fn options(r: &mut StdRng) -> (Vec<Tok>, Vec<(String, Value)>) {
    let mut toks = vec![Tok::Kw("OPTIONS"), Tok::Sym("(")];
    let mut vals = vec![];
    let n = r.gen_range(1..4);
    for i in 0..n {
        let key = match r.gen_range(0..3) {
            0 => { let k = pick(r, &["format.has_header", "a", "Mixed.Key", "OPTIONS.TO"]).to_string(); for (j, p) in k.split('.').enumerate() { if j > 0 { toks.push(Tok::Sym(".")); } toks.push(Tok::Id(p.into())); } k }
            1 => { let k = string(r); toks.push(Tok::Str(k.clone())); k }
            _ => { toks.push(Tok::Id("\"Dq Key\"".into())); "Dq Key".into() }
        };
        let v = match r.gen_range(0..9) / 2 {
            4 => { let (w, v) = *pick(r, &[("E'a\\nb'", "a\nb"), ("e'it\\'s'", "it's"), ("E'plain'", "plain")]); toks.push(Tok::Raw(w.into())); Value::EscapedStringLiteral(v.into()) }
            0 => { let v = string(r); toks.push(Tok::Str(v.clone())); Value::SingleQuotedString(v) }
            1 => { let v = pick(r, &["gzip", "Snappy", "true", "SELECT"]).to_string(); toks.push(Tok::Id(v.clone())); Value::SingleQuotedString(v) }
            2 => { let v = pick(r, &["1", "0.5", "1000000"]).to_string(); toks.push(Tok::Num(v.clone())); Value::Number(v, false) }
            _ => { toks.push(Tok::Id("\"dq\"".into())); Value::SingleQuotedString("dq".into()) }
        };
        vals.push((key, v));
        if i + 1 < n || chance(r, 0.1) { toks.push(Tok::Sym(",")); }
    }
    toks.push(Tok::Sym(")"));
    (toks, vals)
}
fn partition_names(r: &mut StdRng) -> (Vec<Tok>, Vec<String>) {
    let mut toks = vec![Tok::Kw("PARTITIONED"), Tok::Kw("BY"), Tok::Sym("(")];
    let mut vals = vec![];
    let n = r.gen_range(1..4);
    for i in 0..n {
        let (t, id) = ident(r);
        toks.push(t);
        vals.push(id.to_string());
        if i + 1 < n { toks.push(Tok::Sym(",")); }
    }
    toks.push(Tok::Sym(")"));
    (toks, vals)
}
fn format_tok(r: &mut StdRng) -> (Vec<Tok>, String) {
    let f = pick(r, &["PARQUET", "csv", "NdJson", "arrow", "DELTATABLE", "\"parquet\"", "table", "ICEBERG"]).to_string();
    (vec![Tok::Kw("STORED"), Tok::Kw("AS"), Tok::Id(f.clone())], f.trim_matches('"').to_uppercase())
}

/// a random statement of Seafowl with what it means
fn own(r: &mut StdRng) -> (&'static str, Vec<Tok>, Statement) {
    match r.gen_range(0..9) {
        0 => {
            let loc = string(r);
            let (n, name) = obj(r, 3);
            let mut t = vec![Tok::Kw("CONVERT"), Tok::Str(loc.clone()), Tok::Kw("TO"), Tok::Kw("DELTA")];
            t.extend(n);
            ("CONVERT", t, Statement::CopyTo(::datafusion::sql::parser::CopyToStatement { source: CopyToSource::Relation(name), target: loc, options: vec![("CONVERT_TO_DELTA".into(), Value::Boolean(true))], partitioned_by: vec![], stored_as: None }))
        }
        1 => {
            let (n, name) = obj(r, 3);
            let mut t = vec![Tok::Kw("VACUUM"), Tok::Kw("TABLE")];
            t.extend(n);
            ("VACUUM TABLE", t, truncate_stmt(name, None, false))
        }
        2 => {
            let (n, id) = ident(r);
            ("VACUUM DATABASE", vec![Tok::Kw("VACUUM"), Tok::Kw("DATABASE"), n], truncate_stmt(ObjectName(vec![]), Some(vec![ast::Expr::Identifier(id)]), false))
        }
        3 => {
            let (n, name) = obj(r, 3);
            let mut t = vec![Tok::Kw("TRUNCATE"), Tok::Kw("TABLE")];
            t.extend(n);
            ("TRUNCATE", t, truncate_stmt(name, None, true))
        }
        4 | 5 => {
            let or = chance(r, 0.5);
            let (n, name) = obj(r, 3);
            let mut t = vec![Tok::Kw("CREATE")];
            if or { t.extend([Tok::Kw("OR"), Tok::Kw("REPLACE")]); }
            t.push(Tok::Kw("FUNCTION"));
            t.extend(n);
            t.push(Tok::Kw("AS"));
            let body = string(r);
            let v = if chance(r, 0.3) && !body.contains('$') { t.push(Tok::Dollar(body.clone())); Value::DollarQuotedString(ast::DollarQuotedString { value: body, tag: None }) } else { t.push(Tok::Str(body.clone())); Value::SingleQuotedString(body) };
            ("CREATE FUNCTION", t, create_function(name, or, v))
        }
        6 => {
            let mut t = vec![Tok::Kw("COPY")];
            let source = if chance(r, 0.4) {
                let q = query(r, 1);
                let parsed = Parser::new(&GenericDialect).try_with_sql(&q).and_then(|mut p| { let q = p.parse_query()?; p.expect_token(&Token::EOF)?; Ok(q) });
                match parsed {
                    Ok(p) if p.to_string().len() > 3 => { t.extend([Tok::Sym("("), Tok::Raw(q), Tok::Sym(")")]); CopyToSource::Query(p) }
                    _ => { let (n, o) = obj(r, 3); t.extend(n); CopyToSource::Relation(o) }
                }
            } else { let (n, o) = obj(r, 3); t.extend(n); CopyToSource::Relation(o) };
            let target = string(r);
            let mut clauses = vec![vec![Tok::Kw("TO"), Tok::Str(target.clone())]];
            let mut st = ::datafusion::sql::parser::CopyToStatement { source, target, options: vec![], partitioned_by: vec![], stored_as: None };
            if chance(r, 0.5) { let (c, f) = format_tok(r); clauses.push(c); st.stored_as = Some(f); }
            if chance(r, 0.5) { let (c, f) = options(r); clauses.push(c); st.options = f; }
            if chance(r, 0.4) { let (c, f) = partition_names(r); clauses.push(c); st.partitioned_by = f; }
            shuffle(r, &mut clauses);
            t.extend(clauses.into_iter().flatten());
            ("COPY", t, Statement::CopyTo(st))
        }
        _ => {
            let unbounded = chance(r, 0.2);
            let temporary = chance(r, 0.2);
            let ine = chance(r, 0.3);
            let mut t = vec![Tok::Kw("CREATE")];
            if unbounded { t.push(Tok::Kw("UNBOUNDED")); }
            t.push(Tok::Kw("EXTERNAL"));
            if temporary { t.push(Tok::Kw(if chance(r, 0.5) { "TEMPORARY" } else { "TEMP" })); }
            t.push(Tok::Kw("TABLE"));
            if ine { t.extend([Tok::Kw("IF"), Tok::Kw("NOT"), Tok::Kw("EXISTS")]); }
            let (n, name) = obj(r, 3);
            t.extend(n);
            let mut columns = vec![];
            if chance(r, 0.6) {
                t.push(Tok::Sym("("));
                let k = r.gen_range(1..4);
                for i in 0..k {
                    let (n, id) = ident(r);
                    t.push(n);
                    let (txt, dt) = pick(r, &[("INT", ast::DataType::Int(None)), ("TEXT", ast::DataType::Text), ("BIGINT", ast::DataType::BigInt(None)), ("BOOLEAN", ast::DataType::Boolean), ("DATE", ast::DataType::Date)]).clone();
                    t.push(Tok::Kw(txt));
                    let mut options = vec![];
                    if chance(r, 0.3) { t.extend([Tok::Kw("NOT"), Tok::Kw("NULL")]); options.push(ast::ColumnOptionDef { name: None, option: ast::ColumnOption::NotNull }); }
                    columns.push(ast::ColumnDef { name: id, data_type: dt, collation: None, options });
                    if i + 1 < k { t.push(Tok::Sym(",")); }
                }
                t.push(Tok::Sym(")"));
            }
            let location = string(r);
            let (f, file_type) = format_tok(r);
            let mut clauses = vec![f, vec![Tok::Kw("LOCATION"), Tok::Str(location.clone())]];
            let mut opts = vec![];
            let mut parts = vec![];
            let mut order = vec![];
            if chance(r, 0.4) { let (c, o) = options(r); clauses.push(c); opts = o; }
            if chance(r, 0.25) {
                // column definitions
                let mut c = vec![Tok::Kw("PARTITIONED"), Tok::Kw("BY"), Tok::Sym("(")];
                let k = r.gen_range(1..4);
                for i in 0..k {
                    let (n, id) = ident(r);
                    let (txt, dt) = pick(r, &[("INT", ast::DataType::Int(None)), ("TEXT", ast::DataType::Text), ("DATE", ast::DataType::Date)]).clone();
                    c.extend([n, Tok::Kw(txt)]);
                    parts.push(id.to_string());
                    columns.push(ast::ColumnDef { name: id, data_type: dt, collation: None, options: vec![] });
                    if i + 1 < k { c.push(Tok::Sym(",")); }
                }
                c.push(Tok::Sym(")"));
                clauses.push(c);
            } else if chance(r, 0.4) { let (c, p) = partition_names(r); clauses.push(c); parts = p; }
            let mut orders = vec![];
            for _ in 0..if chance(r, 0.4) { r.gen_range(1..4) } else { 0 } {
                let mut c = vec![Tok::Kw("WITH"), Tok::Kw("ORDER"), Tok::Sym("(")];
                let mut one = vec![];
                for i in 0..r.gen_range(1..4) {
                if i > 0 { c.push(Tok::Sym(",")); }
                let (n, id) = ident(r);
                let (dir, asc) = pick(r, &[(vec![], None), (vec![Tok::Kw("ASC")], Some(true)), (vec![Tok::Kw("DESC")], Some(false))]).clone();
                let (nu, nf) = pick(r, &[(vec![], None), (vec![Tok::Kw("NULLS"), Tok::Kw("FIRST")], Some(true)), (vec![Tok::Kw("NULLS"), Tok::Kw("LAST")], Some(false))]).clone();
                c.push(n); c.extend(dir); c.extend(nu);
                one.push(ast::OrderByExpr { expr: ast::Expr::Identifier(id), asc, nulls_first: nf, with_fill: None });
                }
                c.push(Tok::Sym(")"));
                // told apart in the shuffled text by their place in the list
                c.push(Tok::Num(orders.len().to_string()));
                orders.push(one);
                clauses.push(c);
            }
            shuffle(r, &mut clauses);
            for mut c in clauses {
                if c.first() == Some(&Tok::Kw("WITH")) { if let Some(Tok::Num(i)) = c.pop() { order.push(orders[i.parse::<usize>().unwrap()].clone()); } }
                t.extend(c);
            }
            ("CREATE EXTERNAL TABLE", t, Statement::CreateExternalTable(::datafusion::sql::parser::CreateExternalTable {
                name, columns, file_type, location, table_partition_cols: parts, order_exprs: order, if_not_exists: ine, temporary, unbounded, options: opts, constraints: vec![],
            }))
        }
    }
}
fn shuffle<T>(r: &mut StdRng, v: &mut [T]) {
    for i in (1..v.len()).rev() { let j = r.gen_range(0..=i); v.swap(i, j); }
}

fn ours(sql: &str) -> Result<Result<Vec<Statement>, ParserError>, String> {
    sfv::guarded(|| DFParser::parse_sql(sql).map(|v| v.into_iter().collect()))
}
fn show(v: &Result<Vec<Statement>, ParserError>) -> String {
    match v { Ok(v) => sfv::trunc(&format!("{v:?}"), 700), Err(e) => format!("error: {e}") }
}

/// first words of every statement of the text as the tokenizer sees them
fn heads(sql: &str) -> Option<Vec<Vec<String>>> {
    let toks = Tokenizer::new(&GenericDialect, sql).tokenize().ok()?;
    let mut out = vec![];
    for seg in toks.split(|t| *t == Token::SemiColon) {
        let words: Vec<String> = seg.iter().filter(|t| !matches!(t, Token::Whitespace(_))).take(4).map(|t| match t { Token::Word(w) if w.quote_style.is_none() => w.value.to_uppercase(), t => t.to_string() }).collect();
        if !words.is_empty() { out.push(words); }
    }
    Some(out)
}
#[derive(PartialEq, Clone, Copy, Debug)]
enum Kind { Engine, Copied, Explain, Own }
fn kind(w: &[String]) -> Kind {
    match w[0].as_str() {
        "EXPLAIN" => Kind::Explain,
        "CONVERT" | "VACUUM" | "TRUNCATE" => Kind::Own,
        "CREATE" if w.iter().any(|x| x == "FUNCTION") => Kind::Own,
        "CREATE" if w.iter().any(|x| x == "EXTERNAL") => Kind::Copied,
        "COPY" => Kind::Copied,
        _ => Kind::Engine,
    }
}

fn mutate(r: &mut StdRng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..r.gen_range(1..4) {
        let n = c.len();
        match r.gen_range(0..7) {
            0 if n > 0 => { c.truncate(r.gen_range(0..n)); }
            1 if n > 0 => { let i = r.gen_range(0..n); c.remove(i); }
            2 => { let i = r.gen_range(0..=n); let x = *pick(r, &['\'', '"', ';', '(', ')', ',', '.', '-', '/', '*', '$', '`', '\\', '\0', '\u{feff}', 'é', ':', '@', '?', '[', ']', '{', '}', '%', '\u{202e}']); c.insert(i, x); }
            3 if n > 1 => { let i = r.gen_range(0..n - 1); let j = (i + r.gen_range(1..20)).min(n); let part: Vec<char> = c[i..j].to_vec(); let at = r.gen_range(0..=n); for (k, x) in part.into_iter().enumerate() { c.insert(at + k, x); } }
            4 if n > 1 => { let i = r.gen_range(0..n - 1); let j = (i + r.gen_range(1..20)).min(n); c.drain(i..j); }
            _ => {
                let w = pick(r, &[" SELECT ", " FROM ", " TABLE ", " CREATE ", " AS ", " FUNCTION ", " TO ", " OPTIONS ", " PARTITIONED BY ", " STORED AS ", " WITH ", " OR REPLACE ", " EXTERNAL ", " COPY ", " VACUUM ", " TRUNCATE ", " CONVERT ", " DELTA ", " DATABASE ", " NULL ", " 'str' ", " 42 ", " LOCATION ", " EXPLAIN ", " ORDER ", " ( ", " ) ", " , ", ";", " IF NOT EXISTS ", " DROP ", " CAST(", " CASE "]).to_string();
                let i = r.gen_range(0..=n);
                for (k, x) in w.chars().enumerate() { c.insert(i + k, x); }
            }
        }
    }
    c.into_iter().collect()
}

const DEEP: &[(&str, &str, &str, &str)] = &[
    ("parentheses", "SELECT ", "(", ")"),
    ("not", "SELECT ", "NOT ", ""),
    ("minus", "SELECT ", "- ", ""),
    ("subqueries", "SELECT ", "(SELECT ", ")"),
    ("table parentheses", "SELECT * FROM ", "(", ")"),
    ("derived tables", "SELECT * FROM ", "(SELECT * FROM ", ") t"),
    ("case", "SELECT ", "CASE WHEN 1 THEN ", " END"),
    ("functions", "SELECT ", "f(", ")"),
    ("casts", "SELECT ", "CAST(", " AS INT)"),
    ("array types", "CREATE TABLE t (a ", "ARRAY<", ">"),
    ("arrays", "SELECT ", "ARRAY[", "]"),
    ("copy", "COPY ", "(SELECT * FROM ", ") t"),
    ("unions", "SELECT 1 ", "UNION SELECT 1 ", ""),
    ("and", "SELECT 1 ", "AND 1 ", ""),
    ("explain", "", "EXPLAIN ", ""),
    ("with", "", "WITH a AS (", " SELECT 1)"),
    ("create external", "CREATE EXTERNAL TABLE t (a ", "ARRAY<", ">"),
    ("order", "CREATE EXTERNAL TABLE t STORED AS csv LOCATION 'x' WITH ORDER (", "(", ")"),
    ("semicolons", "", ";", ""),
    ("names", "VACUUM TABLE a", ".a", ""),
    ("copy options", "COPY t TO 'x' OPTIONS (", "a b,", ""),
    ("lambda", "SELECT ", "a -> ", ""),
    ("between", "SELECT ", "1 BETWEEN ", ""),
    ("interval", "SELECT ", "INTERVAL ", ""),
    ("index", "SELECT a", "[1]", ""),
    ("joins", "SELECT * FROM t ", "JOIN t ", ""),
    ("pivot", "SELECT * FROM ", "(t JOIN ", ")"),
    ("struct types", "CREATE TABLE t (a ", "STRUCT<a ", ">"),
];

pub fn child_parse(_: &[String]) -> i32 {
    let mut s = String::new();
    use std::io::Read;
    let _ = std::io::stdin().read_to_string(&mut s);
    // the stack of a server thread, doubled for the unoptimised build
    let h = std::thread::Builder::new().stack_size(4 << 20).spawn(move || match ours(&s) { Ok(Ok(v)) => format!("OK {}", v.len()), Ok(Err(e)) => format!("ERR {}", sfv::trunc(&e.to_string(), 200)), Err(p) => format!("PANIC {p}") }).unwrap();
    println!("{}", h.join().unwrap_or_default());
    0
}
pub fn child_engine_parse(_: &[String]) -> i32 {
    let mut s = String::new();
    use std::io::Read;
    let _ = std::io::stdin().read_to_string(&mut s);
    let h = std::thread::Builder::new().stack_size(4 << 20).spawn(move || match sfv::guarded(|| EngineParser::parse_sql(&s)) { Ok(Ok(v)) => format!("OK {}", v.len()), Ok(Err(e)) => format!("ERR {}", sfv::trunc(&e.to_string(), 200)), Err(p) => format!("PANIC {p}") }).unwrap();
    println!("{}", h.join().unwrap_or_default());
    0
}

fn engine_result(sql: &str) -> Option<Result<Vec<Statement>, ParserError>> {
    // the engine takes the semicolon after COPY and CREATE EXTERNAL TABLE for a part of them: one statement at a time, then
    let h = heads(sql)?;
    if h.len() > 1 && h.iter().any(|w| kind(w) == Kind::Copied) {
        // (SHOW reads over semicolons)
        if h.iter().any(|w| w.iter().any(|x| x == "SHOW")) { return None }
        let toks = Tokenizer::new(&GenericDialect, sql).tokenize().ok()?;
        let mut out = vec![];
        for seg in toks.split(|t| *t == Token::SemiColon) {
            let text: String = seg.iter().map(|t| t.to_string()).collect();
            if Tokenizer::new(&GenericDialect, &text).tokenize().ok()?.as_slice() != seg { return None }
            match engine_result(&text)? { Ok(v) => out.extend(v), Err(e) => return Some(Err(e)) }
        }
        return Some(Ok(out));
    }
    sfv::guarded(|| EngineParser::parse_sql(sql).map(|v| v.into_iter().collect())).ok()
}

pub fn c10(ctx: &Ctx) {
    ctx.rule("one evaluation = one text parsed and compared (engine's parser, parts against whole, or bare termination); distinct by text");
    let n = ctx.n(12_000, 600_000) as u64;
    for case in 0..n {
        if ctx.used(0.7) { break; }
        let r = &mut ctx.rng_n("text", case);
        let base = match r.gen_range(0..8) {
            0 => { let (_, t, _) = own(r); write_tokens(r, &t) }
            1 => explain(r),
            _ => engine_statement(r),
        };
        let sql = match r.gen_range(0..6) { 0..=2 => base, 3 | 4 => mutate(r, &base), _ => { let b = engine_statement(r); let m = format!("{base}; {b}"); if chance(r, 0.5) { mutate(r, &m) } else { m } } };
        ctx.eval(&sql, true);
        let got = match ours(&sql) { Ok(g) => g, Err(p) => { ctx.violation("panic", format!("{sql}: {p}")); continue; } };
        ctx.count(if got.is_ok() { "texts parsed" } else { "texts refused" }, 1);
        let Some(h) = heads(&sql) else {
            ctx.check(got.is_err(), "untokenizable-accepted", || sql.clone());
            continue;
        };
        if h.is_empty() {
            ctx.check(matches!(&got, Ok(v) if v.is_empty()), "empty-text", || format!("{sql:?}: {}", show(&got)));
            continue;
        }
        let kinds: Vec<Kind> = h.iter().map(|w| kind(w)).collect();
        // statements the engine knows as well
        if kinds.iter().all(|k| matches!(k, Kind::Engine | Kind::Copied)) {
            if let Some(want) = engine_result(&sql) {
                ctx.count("compared with the engine's parser", 1);
                let same = match (&got, &want) { (Ok(a), Ok(b)) => a == b, (Err(_), Err(_)) => true, _ => false };
                ctx.check(same, "differs-from-engine", || format!("{sql}\n  seafowl: {}\n  engine: {}", show(&got), show(&want)));
            }
        } else if kinds.len() == 1 && kinds[0] == Kind::Explain {
            if let Ok(want) = sfv::guarded(|| Parser::parse_sql(&GenericDialect, &sql)) {
                ctx.count("compared with the native parser", 1);
                let want = want.map(|v| v.into_iter().map(|s| Statement::Statement(Box::new(s))).collect::<Vec<_>>());
                let same = match (&got, &want) { (Ok(a), Ok(b)) => a == b, (Err(_), Err(_)) => true, _ => false };
                ctx.check(same, "explain-differs", || format!("{sql}\n  seafowl: {}\n  native: {}", show(&got), show(&want)));
            }
        }
    }
    // several statements
    for case in 0..ctx.n(2500, 60_000) as u64 {
        if ctx.used(0.85) { break; }
        let r = &mut ctx.rng_n("multi", case);
        let mut parts = vec![];
        let mut want = vec![];
        for _ in 0..r.gen_range(2..5) {
            let s = match r.gen_range(0..3) { 0 => { let (_, t, _) = own(r); write_tokens(r, &t) } 1 => explain(r), _ => engine_statement(r) };
            let Ok(Ok(v)) = ours(&s) else { continue };
            if v.len() != 1 { continue; }
            want.extend(v);
            parts.push(s);
        }
        if parts.len() < 2 { continue; }
        let mut text = String::new();
        // without one of the separators it is no list of statements, wherever the separator is missing
        let gap = if chance(r, 0.3) { r.gen_range(0..parts.len() - 1) } else { usize::MAX };
        for (i, p) in parts.iter().enumerate() {
            text += p;
            text += if i == gap { "\n" } else { *pick(r, &["\n;", "\n;\n", "\n; ;\n", "\n;-- c\n"]) };
        }
        if gap != usize::MAX {
            let Some(h) = heads(&text) else { continue };
            let own = heads(&parts[gap]).map_or(false, |h| h.len() == 1 && kind(&h[0]) == Kind::Own);
            let next = heads(&parts[gap + 1]).and_then(|h| h[0].first().cloned()).unwrap_or_default();
            let verb = ["SELECT", "INSERT", "UPDATE", "DELETE", "CREATE", "COPY", "DROP", "ALTER", "CONVERT", "VACUUM", "TRUNCATE", "EXPLAIN"].contains(&next.as_str());
            ctx.eval(&text, true);
            let got = match ours(&text) { Ok(g) => g, Err(p) => { ctx.violation("panic", format!("{text}: {p}")); continue } };
            if h.iter().any(|w| w.iter().any(|x| x == "SHOW")) { continue }
            if own && verb {
                ctx.count("lists without a separator", 1);
                ctx.check(got.is_err(), "missing-separator-accepted", || format!("{text}\n  {}", show(&got)));
            } else if h.iter().all(|w| matches!(kind(w), Kind::Engine | Kind::Copied)) {
                if let Some(want) = engine_result(&text) {
                    ctx.count("lists without a separator", 1);
                    let same = match (&got, &want) { (Ok(a), Ok(b)) => a == b, (Err(_), Err(_)) => true, _ => false };
                    ctx.check(same, "differs-from-engine", || format!("{text}\n  seafowl: {}\n  engine: {}", show(&got), show(&want)));
                }
            }
            continue;
        }
        if chance(r, 0.5) { text = text.trim_end_matches(|c| c != '\n').trim_end().to_string() + "\n"; }
        if chance(r, 0.3) { text = format!(";;{text}"); }
        let keep_last = text.trim_end().ends_with(';') || text.contains(parts.last().unwrap().as_str());
        if !keep_last { continue; }
        ctx.eval(&text, true);
        ctx.count("statement lists", 1);
        match ours(&text) {
            Err(p) => ctx.violation("panic", format!("{text}: {p}")),
            Ok(got) => {
                let firsts: Vec<&str> = parts.iter().map(|p| p.split_whitespace().next().unwrap_or("")).collect();
                // sqlparser's SHOW takes every following word and semicolon for a part of the variable's name
                let shows = want[..want.len() - 1].iter().any(|w| match w {
                    Statement::Statement(b) => match &**b { ast::Statement::ShowVariable { .. } => true, ast::Statement::Explain { statement, .. } => matches!(**statement, ast::Statement::ShowVariable { .. }), _ => false },
                    _ => false,
                });
                ctx.check(got.as_ref().ok() == Some(&want), if shows { "list-differs/show" } else { "list-differs-from-parts" }, || format!("{firsts:?}: {text}\n  parts: {want:?}\n  whole: {}", show(&got)));
            }
        }
    }
    // depth
    let depths: &[usize] = if ctx.thorough { &[5, 20, 45, 60, 200, 1000, 10_000, 100_000] } else { &[20, 60, 1000, 20_000] };
    let jobs: Vec<(usize, usize)> = DEEP.iter().enumerate().flat_map(|(i, _)| depths.iter().map(move |d| (i, *d))).filter(|(i, d)| *d <= if ctx.thorough { 60 } else { 20 } || !matches!(DEEP[*i].0, "casts" | "arrays")).collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for _ in 0..8 {
            sc.spawn(|| loop {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if k >= jobs.len() || ctx.out_of_time() { break; }
                let (i, d) = jobs[k];
                let (what, start, open, close) = DEEP[i];
                let core = if what == "with" { "" } else if what == "array types" || what == "create external" || what == "struct types" { "INT" } else if what.contains("table") || what == "pivot" || what == "copy" { "t" } else if what == "explain" { "SELECT 1" } else if matches!(what, "unions" | "and" | "semicolons" | "names" | "index" | "joins") { "" } else { "1" };
                let tail = if matches!(what, "array types" | "create external" | "order" | "copy options" | "struct types") { ")" } else { "" };
                let tail2 = if what == "create external" { " STORED AS csv LOCATION 'x'" } else if what == "with" { "SELECT 1" } else { "" };
                let sql = format!("{start}{}{core}{}{tail}{tail2}", open.repeat(d), close.repeat(d));
                let limit = Duration::from_secs(20);
                match sfv::run_child(&["--child-parse"], sql.as_bytes(), limit) {
                    Err(e) => ctx.inconclusive(format!("child: {e}")),
                    Ok(res) => {
                        ctx.eval(&format!("deep {what} {d}"), true);
                        ctx.count("deeply nested texts", 1);
                        let out = res.stdout.trim().to_string();
                        let bad = if res.timed_out { Some("no-end") } else if out.starts_with("OK") || out.starts_with("ERR") { None } else if out.starts_with("PANIC") { Some("panic") } else { Some("abort") };
                        if let Some(b) = bad {
                            // texts that the engine's own parser cannot cope with are out of Seafowl's hands
                            let engine = sfv::run_child(&["--child-engine-parse"], sql.as_bytes(), limit);
                            let also = matches!(&engine, Ok(e) if e.timed_out || !(e.stdout.starts_with("OK") || e.stdout.starts_with("ERR")));
                            ctx.violation(&format!("deep/{what}/{b}{}", if also { "/engine" } else { "" }), format!("depth {d}: code {:?} signal {:?} {out} {}", res.code, res.signal, sfv::trunc(&res.stderr, 200)));
                        }
                    }
                }
            });
        }
    });
}

// ------------------------------------------------------------------------------------------------ C11

/// reference reader of Seafowl's own statements over the tokens (None: malformed)
fn reference(t: &[Tok]) -> Option<Statement> {
    let mut p = 0usize;
    fn kw(t: &[Tok], p: &mut usize, k: &str) -> Option<()> {
        match t.get(*p)? { Tok::Kw(x) if *x == k => { *p += 1; Some(()) } _ => None }
    }
    fn name(t: &[Tok], p: &mut usize) -> Option<ObjectName> {
        let mut ids = vec![];
        loop {
            match t.get(*p)? {
                Tok::Id(s) => ids.push(as_ident(s)),
                _ => return None,
            }
            *p += 1;
            if t.get(*p) == Some(&Tok::Sym(".")) { *p += 1; } else { return Some(ObjectName(ids)); }
        }
    }
    fn s(t: &[Tok], p: &mut usize) -> Option<String> {
        match t.get(*p)? { Tok::Str(x) => { *p += 1; Some(x.clone()) } _ => None }
    }
    let out = match t.first()? {
        Tok::Kw("CONVERT") => {
            p = 1;
            let loc = s(t, &mut p)?;
            kw(t, &mut p, "TO")?;
            kw(t, &mut p, "DELTA")?;
            let name = name(t, &mut p)?;
            Statement::CopyTo(::datafusion::sql::parser::CopyToStatement { source: CopyToSource::Relation(name), target: loc, options: vec![("CONVERT_TO_DELTA".into(), Value::Boolean(true))], partitioned_by: vec![], stored_as: None })
        }
        Tok::Kw("VACUUM") => {
            p = 1;
            if kw(t, &mut p, "TABLE").is_some() { truncate_stmt(name(t, &mut p)?, None, false) } else {
                kw(t, &mut p, "DATABASE")?;
                let n = name(t, &mut p)?;
                if n.0.len() != 1 { return None; }
                truncate_stmt(ObjectName(vec![]), Some(vec![ast::Expr::Identifier(n.0[0].clone())]), false)
            }
        }
        Tok::Kw("TRUNCATE") => { p = 1; kw(t, &mut p, "TABLE")?; truncate_stmt(name(t, &mut p)?, None, true) }
        Tok::Kw("CREATE") => {
            p = 1;
            let or = kw(t, &mut p, "OR").is_some();
            if or { kw(t, &mut p, "REPLACE")?; }
            kw(t, &mut p, "FUNCTION")?;
            let n = name(t, &mut p)?;
            kw(t, &mut p, "AS")?;
            let v = match t.get(p)? { Tok::Str(x) => Value::SingleQuotedString(x.clone()), Tok::Dollar(x) => Value::DollarQuotedString(ast::DollarQuotedString { value: x.clone(), tag: None }), _ => return None };
            p += 1;
            create_function(n, or, v)
        }
        _ => return None,
    };
    if p == t.len() { Some(out) } else { None }
}
fn as_ident(s: &str) -> Ident {
    match s.chars().next() {
        Some(q @ ('"' | '`')) => { let inner = &s[1..s.len() - 1]; Ident::with_quote(q, inner.replace("\"\"", "\"")) }
        _ => Ident::new(s),
    }
}

pub fn c11(ctx: &Ctx) {
    ctx.rule("one evaluation = one spelling of a Seafowl statement parsed and compared with the statement it was generated from, or one altered token list judged by a reference reader; distinct by text");
    for case in 0..ctx.n(10_000, 300_000) as u64 {
        if ctx.used(0.55) { break; }
        let r = &mut ctx.rng_n("own", case);
        let (what, toks, want) = own(r);
        let sql = write_tokens(r, &toks);
        ctx.eval(&sql, true);
        ctx.count(what, 1);
        match ours(&sql) {
            Err(p) => ctx.violation(&format!("panic/{what}"), format!("{sql}: {p}")),
            Ok(got) => {
                ctx.check(got.as_ref().ok() == Some(&vec![want.clone()]), &format!("statement/{what}"), || format!("{sql}\n  wanted {want:?}\n  got {}", show(&got)));
            }
        }
        if case < 6 { ctx.sample(sfv::serde_json::json!({"sql": sql})); }
        // the flag that marks CONVERT cannot be written by a user
        if what == "COPY" {
            let Ok(Ok(v)) = ours(&sql) else { continue };
            if let Statement::CopyTo(c) = &v[0] { ctx.check(!c.options.contains(&CONVERT_TO_DELTA), "copy-taken-for-convert", || sql.clone()); }
        }
    }
    for sql in ["COPY t TO 'x' OPTIONS (CONVERT_TO_DELTA true)", "COPY t TO 'x' OPTIONS ('CONVERT_TO_DELTA' 'true')", "COPY t TO 'x' OPTIONS (\"CONVERT_TO_DELTA\" TRUE)", "COPY t TO 'x' OPTIONS (CONVERT_TO_DELTA 1)"] {
        if let Ok(Ok(v)) = ours(sql) {
            if let Statement::CopyTo(c) = &v[0] { ctx.check(!c.options.contains(&CONVERT_TO_DELTA), "copy-taken-for-convert", || sql.into()); }
        }
        ctx.eval(sql, true);
    }
    // altered statements
    for case in 0..ctx.n(12_000, 300_000) as u64 {
        if ctx.used(0.85) { break; }
        let r = &mut ctx.rng_n("altered", case);
        let (what, mut toks, _) = own(r);
        if matches!(what, "COPY" | "CREATE EXTERNAL TABLE") { continue; }
        for _ in 0..r.gen_range(1..3) {
            let n = toks.len();
            if n == 0 { break; }
            match r.gen_range(0..6) {
                0 => { toks.truncate(r.gen_range(1..=n)); }
                1 => { toks.remove(r.gen_range(0..n)); }
                2 => { let i = r.gen_range(0..n); let x = toks[i].clone(); toks.insert(i, x); }
                3 => { let i = r.gen_range(0..n); let j = r.gen_range(0..n); toks.swap(i, j); }
                _ => {
                    let x = match r.gen_range(0..5) { 0 => Tok::Kw(*pick(r, &["TABLE", "DATABASE", "TO", "DELTA", "AS", "FUNCTION", "OR", "REPLACE", "VACUUM", "TRUNCATE", "CONVERT"])), 1 => ident(r).0, 2 => Tok::Str(string(r)), 3 => Tok::Sym(*pick(r, &[",", "(", ")", "."])), _ => Tok::Num("5".into()) };
                    let at = r.gen_range(0..=n);
                    toks.insert(at, x);
                }
            }
        }
        // only lists that still start as one of Seafowl's statements and have no keyword where a name could stand
        let Some(Tok::Kw(first)) = toks.first() else { continue };
        if !matches!(*first, "CONVERT" | "VACUUM" | "TRUNCATE" | "CREATE") { continue; }
        if *first == "CREATE" && !matches!((toks.get(1), toks.get(2), toks.get(3)), (Some(Tok::Kw("FUNCTION")), _, _) | (Some(Tok::Kw("OR")), Some(Tok::Kw("REPLACE")), Some(Tok::Kw("FUNCTION")))) { continue; }
        // a keyword or a string in the place of a name is a name to the tokenizer: leave those to the comparison with the engine
        let name_pos_kw = { let start = match *first { "CONVERT" => 4, "VACUUM" | "TRUNCATE" => 2, _ => if toks.get(1) == Some(&Tok::Kw("OR")) { 4 } else { 2 } };
            toks.iter().enumerate().any(|(i, t)| (i == start || (i > 0 && toks[i - 1] == Tok::Sym("."))) && !matches!(t, Tok::Id(_))) };
        if name_pos_kw { continue; }
        // sqlparser also reads a bare word where a string belongs
        if toks.iter().zip(toks.iter().skip(1)).any(|(a, b)| matches!(a, Tok::Kw("CONVERT" | "AS")) && matches!(b, Tok::Id(_) | Tok::Kw(_))) { continue; }
        let want = reference(&toks);
        let sql = write_tokens(r, &toks);
        ctx.eval(&sql, true);
        ctx.count(if want.is_some() { "altered, still well-formed" } else { "altered, malformed" }, 1);
        match ours(&sql) {
            Err(p) => ctx.violation(&format!("panic/{what}"), format!("{sql}: {p}")),
            Ok(got) => match &want {
                Some(w) => { ctx.check(got.as_ref().ok() == Some(&vec![w.clone()]), &format!("altered/{what}"), || format!("{sql}\n  wanted {w:?}\n  got {}", show(&got))); }
                None => { ctx.check(got.is_err(), &format!("malformed-accepted/{what}"), || format!("{sql}\n  got {}", show(&got))); }
            },
        }
    }
    // lists of COPY and CREATE EXTERNAL TABLE which aren't parted by commas or closed by a parenthesis
    for case in 0..ctx.n(6000, 100_000) as u64 {
        if ctx.used(0.9) { break; }
        let r = &mut ctx.rng_n("lists", case);
        let (what, mut toks, _) = own(r);
        if !matches!(what, "COPY" | "CREATE EXTERNAL TABLE") { continue; }
        let at: Vec<usize> = (0..toks.len()).filter(|i| matches!(toks[*i], Tok::Sym("," | ")"))).collect();
        if at.is_empty() { continue; }
        let i = *pick(r, &at);
        toks[i] = Tok::Sym(*pick(r, &[";", "}", "{", ":="]));
        let sql = write_tokens(r, &toks);
        ctx.eval(&sql, true);
        ctx.count("lists with a wrong separator", 1);
        match ours(&sql) {
            Err(p) => ctx.violation("panic/lists", format!("{sql}: {p}")),
            Ok(got) => { ctx.check(got.is_err(), &format!("malformed-accepted/{what}"), || format!("{sql}\n  got {}", show(&got))); }
        }
    }
    // duplicated or missing clauses of COPY and CREATE EXTERNAL TABLE
    for case in 0..ctx.n(3000, 60_000) as u64 {
        if ctx.out_of_time() { break; }
        let r = &mut ctx.rng_n("clauses", case);
        let copy = chance(r, 0.5);
        let (head, required): (&str, Vec<Vec<Tok>>) = if copy { ("COPY t", vec![vec![Tok::Kw("TO"), Tok::Str("x".into())]]) } else { ("CREATE EXTERNAL TABLE t", vec![vec![Tok::Kw("STORED"), Tok::Kw("AS"), Tok::Id("CSV".into())], vec![Tok::Kw("LOCATION"), Tok::Str("x".into())]]) };
        let mut optional = vec![options(r).0, partition_names(r).0];
        if copy { optional.push(vec![Tok::Kw("STORED"), Tok::Kw("AS"), Tok::Id("CSV".into())]); }
        let mut clauses = required.clone();
        for o in &optional { if chance(r, 0.4) { clauses.push(o.clone()); } }
        let why = match r.gen_range(0..5) {
            0 => { let i = r.gen_range(0..clauses.len()); let c = clauses[i].clone(); clauses.push(c); "duplicated clause" }
            1 => { let i = r.gen_range(0..required.len()); clauses.remove(i); "missing clause" }
            2 => { clauses.push(vec![Tok::Kw("WITH"), Tok::Kw("HEADER"), Tok::Kw("ROW")]); "retired clause" }
            3 => { clauses.push(vec![Tok::Id("nonsense".into())]); "unknown clause" }
            _ => { clauses.push(vec![Tok::Kw("OPTIONS"), Tok::Sym("("), Tok::Str("a".into()), Tok::Sym(")")]); "option without a value" }
        };
        shuffle(r, &mut clauses);
        let toks: Vec<Tok> = std::iter::once(Tok::Raw(head.into())).chain(clauses.into_iter().flatten()).collect();
        let sql = write_tokens(r, &toks);
        ctx.eval(&sql, true);
        ctx.count(why, 1);
        match ours(&sql) {
            Err(p) => ctx.violation("panic/clauses", format!("{sql}: {p}")),
            Ok(got) => { ctx.check(got.is_err(), &format!("accepted/{why}"), || format!("{sql}\n  got {}", show(&got))); }
        }
    }
}

// ------------------------------------------------------------------------------------------------ C12

fn columns_of(sql: &str) -> Option<Vec<ast::ColumnDef>> {
    match DFParser::parse_sql(sql).ok()?.pop_front()? {
        Statement::Statement(s) => match *s { S::CreateTable(c) => Some(c.columns), _ => None },
        _ => None,
    }
}

pub fn c12(ctx: &Ctx) {
    use crate::datafusion::utils::build_schema;
    use arrow_schema::{DataType as D, IntervalUnit, TimeUnit};
    ctx.rule("one evaluation = one column of a generated CREATE TABLE mapped to its Arrow field; distinct by column text");
    // meaning of every accepted type name; None: must be refused
    let fixed: Vec<(&str, Option<D>)> = vec![
        ("BOOLEAN", Some(D::Boolean)), ("BOOL", Some(D::Boolean)), ("TINYINT", Some(D::Int8)), ("SMALLINT", Some(D::Int16)), ("INT2", Some(D::Int16)),
        ("INT", Some(D::Int32)), ("INTEGER", Some(D::Int32)), ("INT4", Some(D::Int32)), ("BIGINT", Some(D::Int64)), ("INT8", Some(D::Int64)),
        ("TINYINT UNSIGNED", Some(D::UInt8)), ("SMALLINT UNSIGNED", Some(D::UInt16)), ("INT2 UNSIGNED", Some(D::UInt16)), ("INT UNSIGNED", Some(D::UInt32)),
        ("INTEGER UNSIGNED", Some(D::UInt32)), ("INT4 UNSIGNED", Some(D::UInt32)), ("BIGINT UNSIGNED", Some(D::UInt64)), ("INT8 UNSIGNED", Some(D::UInt64)),
        ("FLOAT", Some(D::Float32)), ("REAL", Some(D::Float32)), ("FLOAT4", Some(D::Float32)), ("DOUBLE", Some(D::Float64)), ("DOUBLE PRECISION", Some(D::Float64)), ("FLOAT8", Some(D::Float64)),
        ("CHAR", Some(D::Utf8)), ("CHAR(3)", Some(D::Utf8)), ("VARCHAR", Some(D::Utf8)), ("VARCHAR(100)", Some(D::Utf8)), ("TEXT", Some(D::Utf8)), ("STRING", Some(D::Utf8)),
        ("TIMESTAMP", Some(D::Timestamp(TimeUnit::Microsecond, None))), ("TIMESTAMP WITHOUT TIME ZONE", Some(D::Timestamp(TimeUnit::Microsecond, None))),
        ("TIMESTAMP WITH TIME ZONE", Some(D::Timestamp(TimeUnit::Microsecond, Some("+00:00".into())))), ("TIMESTAMPTZ", Some(D::Timestamp(TimeUnit::Microsecond, Some("+00:00".into())))),
        ("DATE", Some(D::Date32)), ("TIME", Some(D::Time64(TimeUnit::Nanosecond))), ("TIME WITHOUT TIME ZONE", Some(D::Time64(TimeUnit::Nanosecond))),
        ("BYTEA", Some(D::Binary)), ("INTERVAL", Some(D::Interval(IntervalUnit::MonthDayNano))),
        ("TIME WITH TIME ZONE", None), ("TIMETZ", None), ("TIMESTAMP(3)", None), ("TIMESTAMP(6) WITH TIME ZONE", None), ("TIME(3)", None), ("UUID", None), ("JSON", None), ("JSONB", None),
        ("BLOB", None), ("BINARY(3)", None), ("VARBINARY(3)", None), ("NVARCHAR(3)", None), ("DATETIME", None), ("MEDIUMINT", None), ("MEDIUMINT UNSIGNED", None), ("CHARACTER(3)", None),
        ("CHARACTER VARYING(3)", None), ("CHAR VARYING(3)", None), ("CLOB", None), ("DEC(3)", None), ("BIGNUMERIC(3)", None), ("BIGDECIMAL(3,1)", None), ("BYTES", None), ("INT64", None), ("FLOAT64", None),
        ("INT[]", None), ("ARRAY<INT>", None), ("ENUM('a','b')", None), ("SET('a')", None), ("REGCLASS", None), ("foo", None), ("foo(1)", None), ("INT16", None), ("INT128", None), ("UINT8", None),
        ("UINT64", None), ("FLOAT32", None), ("DATE32", None), ("STRUCT<a INT>", None), ("BIT(3)", None), ("TINYTEXT", None), ("LONGBLOB", None), ("MAP(INT, INT)", None),
    ];
    let n = ctx.n(4000, 200_000) as u64;
    for case in 0..n {
        if ctx.out_of_time() { break; }
        let r = &mut ctx.rng_n("types", case);
        let mut cols = vec![];
        let mut want = vec![];
        let mut bad = None;
        for i in 0..r.gen_range(1..6) {
            let (txt, dt): (String, Option<D>) = if case < fixed.len() as u64 && i == 0 {
                let (t, d) = &fixed[case as usize];
                (t.to_string(), d.clone())
            } else if chance(r, 0.4) {
                let p: u64 = *pick(r, &[0u64, 1, 2, 5, 10, 18, 37, 38, 39, 76, 127, 128, 255, 256, 257, 266, 294, 1000, 65536 + 10, u32::MAX as u64 + 1 + 10, u64::MAX]);
                let p = if chance(r, 0.5) { r.gen_range(1..=38) } else { p };
                let s: u64 = if chance(r, 0.6) { r.gen_range(0..=p.min(40)) } else { *pick(r, &[0u64, 1, 38, 39, 127, 128, 129, 255, 256, 258, 261, 512, 65536, u64::MAX, u32::MAX as u64 + 3]) };
                let w = pick(r, &["DECIMAL", "NUMERIC"]).to_string();
                match r.gen_range(0..4) {
                    0 => (w, Some(D::Decimal128(38, 10))),
                    1 => (format!("{w}({p})"), if (1..=38).contains(&p) { Some(D::Decimal128(p as u8, 0)) } else { None }),
                    _ => (format!("{w}({p}, {s})"), if (1..=38).contains(&p) && s <= p { Some(D::Decimal128(p as u8, s as i8)) } else { None }),
                }
            } else {
                // refusals seldom, so that most lists are accepted
                let acc: Vec<_> = fixed.iter().filter(|(_, d)| d.is_some() || r.gen_bool(0.03)).collect();
                let (t, d) = *pick(r, &acc);
                (t.to_string(), d.clone())
            };
            let txt = if chance(r, 0.3) { txt.to_lowercase() } else { txt };
            let base = format!("c{i}");
            let (cname, field) = match r.gen_range(0..5) { 4 => (format!("ÄÉ_{base}İ_X"), format!("ÄÉ_{base}İ_x")), 0 => (format!("\"Q {base}\""), format!("Q {base}")), 1 => (format!("UP{base}"), format!("up{base}")), 2 => (format!("\"{}\"", base.to_uppercase()), base.to_uppercase()), _ => (base.clone(), base) };
            let (opt, nullable) = pick(r, &[("", true), (" NOT NULL", false), (" NULL", true), (" DEFAULT 1 NOT NULL", false), (" CONSTRAINT nn NOT NULL", false), (" COMMENT 'not null'", true)]).clone();
            if dt.is_none() { bad = Some(txt.clone()); }
            want.push((field, dt, nullable, txt.clone()));
            cols.push(format!("{cname} {txt}{opt}"));
        }
        let sql = format!("CREATE TABLE t ({})", cols.join(", "));
        let Some(defs) = columns_of(&sql) else {
            // texts the grammar itself refuses are errors as well
            ctx.count("refused by the grammar", 1);
            if bad.is_none() { ctx.violation("accepted-types-unparseable", sql); }
            continue;
        };
        for (d, w) in defs.iter().zip(&want) {
            ctx.eval(&format!("{d}"), true);
            let got = sfv::guarded(|| build_schema(vec![d.clone()]));
            match (got, &w.1) {
                (Err(p), _) => ctx.violation("panic", format!("{d}: {p}")),
                (Ok(Ok(s)), None) => ctx.violation("unfaithful-type-accepted", format!("{d} became {:?}", s.field(0))),
                (Ok(Err(e)), Some(t)) => ctx.violation("type-refused", format!("{d} should be {t:?}: {e}")),
                (Ok(Ok(s)), Some(t)) => {
                    let f = s.field(0);
                    ctx.seen("types", t);
                    ctx.check(f.data_type() == t, "type-differs", || format!("{d} became {:?}, wanted {t:?}", f.data_type()));
                    ctx.check(*f.name() == w.0, "name-differs", || format!("{d} became {:?}, wanted {:?}", f.name(), w.0));
                    ctx.check(f.is_nullable() == w.2, "nullability-differs", || format!("{d} became nullable={}", f.is_nullable()));
                }
                (Ok(Err(_)), None) => ctx.count("refused", 1),
            }
        }
        // the whole list: all columns in order, or an error
        match sfv::guarded(|| build_schema(defs.clone())) {
            Err(p) => ctx.violation("panic", format!("{sql}: {p}")),
            Ok(Ok(s)) => {
                if let Some(b) = &bad { ctx.violation("unfaithful-type-accepted", format!("{sql}: {b}")); }
                let names: Vec<&String> = s.fields().iter().map(|f| f.name()).collect();
                ctx.check(names == want.iter().map(|w| &w.0).collect::<Vec<_>>(), "columns-differ", || format!("{sql}: {names:?}"));
            }
            Ok(Err(e)) => { ctx.check(bad.is_some(), "type-refused", || format!("{sql}: {e}")); }
        }
    }
    ctx.assume("lengths of CHAR and VARCHAR and display widths are not enforced; FLOAT is a 32-bit float whatever its parameter");
}

// ------------------------------------------------------------------------------------------------ C13

struct Rename<'a> {
    which: &'a [bool],
    at: usize,
    found: Vec<ObjectName>,
}
impl VisitorMut for Rename<'_> {
    type Break = ();
    fn pre_visit_table_factor(&mut self, f: &mut TableFactor) -> ControlFlow<()> {
        if let TableFactor::Table { name, .. } = f {
            if self.which.get(self.at).copied().unwrap_or(false) {
                self.found.push(name.clone());
                *name.0.last_mut().unwrap() = Ident::new("zzph");
            }
            self.at += 1;
        }
        ControlFlow::Continue(())
    }
}
fn norm(i: &Ident) -> String {
    match i.quote_style { Some(_) => i.value.clone(), None => i.value.to_ascii_lowercase() }
}
/// catalog, schema, table as the query engine resolves the written name
fn resolve(n: &ObjectName, cat: &str, sch: &str) -> (String, String, String) {
    let p: Vec<String> = n.0.iter().map(norm).collect();
    match p.len() {
        1 => (cat.into(), sch.into(), p[0].clone()),
        2 => (cat.into(), p[0].clone(), p[1].clone()),
        _ => (p[0].clone(), p[1].clone(), p[2].clone()),
    }
}

pub fn c13(ctx: &Ctx) {
    ctx.rule("one evaluation = one query with table references rewritten and compared with the unversioned form; distinct by query text");
    let tables = ["t", "T", "tab", "\"T\"", "\"Mixed Case\"", "`t`", "\"we\"\"ird\"", "\"a.b\"", "ta", "ÄT", "ät", "\"t\"", "x.t", "s.t", "s.\"T\"", "\"S\".t", "db.s.t", "db.s.tab", "cat.pub.t", "pub.t", "PUB.T", "\"dot.ted\".\"x.y\"", "ü", "\"Ü\""];
    let versions = ["2022-01-01 00:00:00", "2022-01-01 00:00:01", "2022-01-01T00:00:00Z", "2022-01-01t00:00:00z", "Fri, 14 Jul 2017 02:40:00 +0000", "fri, 14 jul 2017 02:40:00 +0000", "test_version", "", "it's", "ünï", "2022-01-01 00:00:00 +02:00", "x\"y", "a.b"];
    for case in 0..ctx.n(6000, 200_000) as u64 {
        if ctx.out_of_time() { break; }
        let r = &mut ctx.rng_n("tt", case);
        // some of the fixed versions, and neighbours of one of them
        let versions: Vec<String> = {
            let base = pick(r, &versions).to_string();
            let mut v = vec![base.clone()];
            for _ in 0..r.gen_range(0..6) {
                let cs: Vec<char> = base.chars().collect();
                let at = r.gen_range(0..=cs.len());
                let (x, y): (String, String) = (cs[..at].iter().collect(), cs[at..].iter().collect());
                v.push(match r.gen_range(0..9) {
                    0 => format!("{base} "),
                    1 => format!(" {base}"),
                    2 => format!("{x} {y}"),
                    3 => format!("{x}{}{y}", pick(r, &["0", "1", ":", "-", "Z", ".", "é", "\t", "''"])),
                    4 => x,
                    5 => y,
                    6 => base.replace(' ', "  "),
                    7 => base.replace(['-', ':', ' '], &pick(r, &["", "_", "-"]).to_string()),
                    _ => format!("{base}{}", pick(r, &[".1", ".100", ".5", "+00:00", "Z", " +0000", ":t"])),
                });
            }
            for _ in 0..r.gen_range(0..3) { v.push(pick(r, &versions).to_string()); }
            v
        };
        // text with placeholders {k} for references
        let mut refs: Vec<(String, Option<String>, bool)> = vec![]; // (name, version, versioned)
        let mut plain_fn = 0;
        let mut gen_ref = |r: &mut StdRng, refs: &mut Vec<(String, Option<String>, bool)>, aliased: bool| -> (String, String) {
            let n = pick(r, &tables).to_string();
            let alias = if aliased && chance(r, 0.5) { format!(" AS al{}", refs.len()) } else { String::new() };
            match r.gen_range(0..6) {
                0 | 1 | 2 => {
                    let v = pick(r, &versions).to_string();
                    let call = format!("{n}('{}'){alias}", v.replace('\'', "''"));
                    let prefix = split_prefix(&n);
                    refs.push((n.clone(), Some(v), true));
                    (call, format!("{prefix}zzph{alias}"))
                }
                3 => {
                    plain_fn += 1;
                    let call = format!("{n}({}){alias}", pick(r, &["1", "'a', 'b'", "", "x => 'a'", "'a' || 'b'", "NULL", "CAST('a' AS TEXT)", "1, 'a'", "-1", "col", "N'a'"]));
                    refs.push((n, None, false));
                    (call.clone(), call)
                }
                _ => { refs.push((n.clone(), None, false)); (format!("{n}{alias}"), format!("{n}{alias}")) }
            }
        };
        let mut a = String::new();
        let mut b = String::new();
        let lead = pick(r, &["", "INSERT INTO target ", "CREATE TABLE target AS ", "EXPLAIN "]).to_string();
        fn q(r: &mut StdRng, refs: &mut Vec<(String, Option<String>, bool)>, g: &mut dyn FnMut(&mut StdRng, &mut Vec<(String, Option<String>, bool)>, bool) -> (String, String), d: u32) -> (String, String) {
            let (mut a, mut b) = (String::new(), String::new());
            macro_rules! put { ($s:expr) => {{ let s: &str = $s; a += s; b += s; }}; }
            macro_rules! sub { ($e:expr) => {{ let (x, y) = $e; a += &x; b += &y; }}; }
            if d > 0 && chance(r, 0.2) { put!("WITH w AS ("); sub!(q(r, refs, g, d - 1)); put!(") "); }
            put!("SELECT 'lit(''2022-01-01'')' AS c, f('2022-01-01 00:00:00')");
            if d > 0 && chance(r, 0.2) { put!(", ("); sub!(q(r, refs, g, d - 1)); put!(")"); }
            put!(" FROM ");
            if d > 0 && chance(r, 0.2) { put!("("); sub!(q(r, refs, g, d - 1)); put!(") AS d"); } else { sub!(g(r, refs, true)); }
            for _ in 0..r.gen_range(0..3) {
                if chance(r, 0.5) { put!(" JOIN "); sub!(g(r, refs, true)); put!(" ON a = b"); } else { put!(", "); sub!(g(r, refs, true)); }
            }
            if d > 0 && chance(r, 0.3) { put!(" WHERE a IN ("); sub!(q(r, refs, g, d - 1)); put!(") AND EXISTS ("); sub!(q(r, refs, g, d - 1)); put!(")"); }
            if d > 0 && chance(r, 0.2) { put!(" UNION ALL "); sub!(q(r, refs, g, d - 1)); }
            (a, b)
        }
        let (x, y) = q(r, &mut refs, &mut gen_ref, 2);
        a += &lead; a += &x;
        b += &lead; b += &y;
        let (Ok(mut pa), Ok(pb)) = (Parser::parse_sql(&GenericDialect, &a), Parser::parse_sql(&GenericDialect, &b)) else { ctx.count("not parseable", 1); continue };
        // names in the order the references are visited
        struct Names(Vec<(ObjectName, bool)>, bool);
        let mut order: Vec<(ObjectName, Option<String>)> = vec![];
        {
            struct Collect<'a>(&'a mut Vec<(ObjectName, Option<String>)>);
            impl ast::Visitor for Collect<'_> {
                type Break = ();
                fn pre_visit_table_factor(&mut self, f: &TableFactor) -> ControlFlow<()> {
                    if let TableFactor::Table { name, args, .. } = f {
                        let v = match args {
                            Some(ast::TableFunctionArgs { args, .. }) if args.len() == 1 => match &args[0] {
                                ast::FunctionArg::Unnamed(ast::FunctionArgExpr::Expr(ast::Expr::Value(Value::SingleQuotedString(s)))) => Some(s.clone()),
                                _ => None,
                            },
                            _ => None,
                        };
                        self.0.push((name.clone(), v));
                    }
                    ControlFlow::Continue(())
                }
            }
            let _ = Visit::visit(&pa, &mut Collect(&mut order));
        }
        let versioned = order.iter().filter(|x| x.1.is_some()).count();
        if versioned != refs.iter().filter(|x| x.2).count() { ctx.count("not parseable", 1); continue; }
        ctx.eval(&a, versioned > 0);
        ctx.count("versioned references", versioned as u64);
        ctx.count("other references", (order.len() - versioned) as u64);
        let mut proc = TableVersionProcessor::new("cat".into(), "pub".into());
        if let Err(p) = sfv::guarded(|| { let _ = VisitMut::visit(&mut pa, &mut proc); }) {
            ctx.violation("panic", format!("{a}: {p}"));
            continue;
        }
        let which: Vec<bool> = order.iter().map(|x| x.1.is_some()).collect();
        let rewritten = pa[0].to_string();
        let mut ren = Rename { which: &which, at: 0, found: vec![] };
        let _ = VisitMut::visit(&mut pa, &mut ren);
        ctx.check(pa == pb, "rest-of-query-changed", || format!("{a}\n  rewritten {rewritten}\n  apart from the names it should be {}", pb[0]));
        // replacements
        let mut by_ref: BTreeMap<((String, String, String), String), (String, String, String)> = BTreeMap::new();
        let mut by_repl: HashMap<(String, String, String), ((String, String, String), String)> = HashMap::new();
        let mut want_set = BTreeSet::new();
        let pool: HashSet<(String, String, String)> = order.iter().filter(|x| x.1.is_none()).map(|x| resolve(&x.0, "cat", "pub")).collect();
        for ((n, v), repl) in order.iter().filter(|x| x.1.is_some()).zip(&ren.found) {
            let key = (resolve(n, "cat", "pub"), v.clone().unwrap().to_ascii_lowercase());
            let rep = resolve(repl, "cat", "pub");
            want_set.insert((key.0.clone(), v.clone().unwrap()));
            ctx.check(!pool.contains(&rep), "replacement-is-a-plain-table", || format!("{a}: {rep:?}"));
            ctx.check((&rep.0, &rep.1) == (&key.0 .0, &key.0 .1), "replacement-in-another-schema", || format!("{a}: {n} became {repl}"));
            if let Some(old) = by_ref.insert(key.clone(), rep.clone()) {
                ctx.check(old == rep, "same-reference-two-replacements", || format!("{a}: {key:?} became {old:?} and {rep:?}"));
            }
            if let Some(old) = by_repl.insert(rep.clone(), key.clone()) {
                ctx.check(old == key, "two-references-one-replacement", || format!("{a}: {old:?} and {key:?} both became {rep:?}"));
            }
        }
        let got_set: BTreeSet<((String, String, String), String)> = proc.table_versions.iter().map(|(n, v)| { let p: Vec<String> = n.0.iter().map(|i| i.value.clone()).collect(); ((p[0].clone(), p.get(1).cloned().unwrap_or_default(), p.get(2).cloned().unwrap_or_default()), v.clone()) }).collect();
        ctx.check(got_set == want_set, "collected-versions", || format!("{a}: collected {got_set:?}, wanted {want_set:?}"));
        // the name under which a collected version is registered is the name that was put into the query
        for (n, v) in &proc.table_versions {
            let reg = TableVersionProcessor::table_with_version(n, v);
            let p: Vec<String> = n.0.iter().map(|i| i.value.clone()).collect();
            let key = ((p[0].clone(), p.get(1).cloned().unwrap_or_default(), p.get(2).cloned().unwrap_or_default()), v.to_ascii_lowercase());
            if let Some(rep) = by_ref.get(&key) {
                ctx.check(rep.2 == reg, "registered-under-another-name", || format!("{a}: {key:?} is registered as {reg:?}, the query refers to {:?}", rep.2));
            }
        }
    }
    ctx.assume("versions differing only in letter case are the same version; table names contain no colon");
}
fn split_prefix(n: &str) -> String {
    // everything up to the last dot outside quotes
    let mut q: Option<char> = None;
    let mut cut = 0;
    for (i, c) in n.char_indices() {
        match q { Some(x) if c == x => q = None, Some(_) => {} None if c == '"' || c == '`' => q = Some(c), None if c == '.' => cut = i + 1, None => {} }
    }
    n[..cut].to_string()
}

// ------------------------------------------------------------------------------------------------ C14

/// days since 1970-01-01 (proleptic Gregorian)
fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (if m > 2 { m - 3 } else { m + 9 }) + 2) / 5 + d - 1;
    era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468
}
pub fn c14_versions(ctx: &Ctx) {
    let wd = ["Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed"];
    let mon = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];
    for case in 0..ctx.n(20_000, 1_000_000) as u64 {
        if ctx.used(0.5) { break; }
        let r = &mut ctx.rng_n("version", case);
        let y = *pick(r, &[1970i64, 1969, 2000, 1999, 2024, 2023, 2038, 9999, 1, 1900, 2100]);
        let y = if chance(r, 0.5) { r.gen_range(1901..2200) } else { y };
        let m = r.gen_range(1..=12i64);
        let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
        let dim = [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m as usize - 1];
        let d = if chance(r, 0.3) { dim } else { r.gen_range(1..=dim) };
        let (h, mi, s) = if chance(r, 0.2) { *pick(r, &[(0, 0, 0), (23, 59, 59), (12, 0, 0)]) } else { (r.gen_range(0..24i64), r.gen_range(0..60i64), r.gen_range(0..60i64)) };
        let days = days_from_civil(y, m, d);
        let local = days * 86400 + h * 3600 + mi * 60 + s;
        let off = *pick(r, &[0i64, 60, -60, 120, 330, 345, -210, 720, -720, 840, -705, 1, -1, 1439, -1439]);
        let (sg, oh, om) = (if off < 0 { '-' } else { '+' }, off.abs() / 60, off.abs() % 60);
        let digits = r.gen_range(0..=9usize);
        let frac: u32 = r.gen_range(0..10u32.pow(digits as u32).max(1));
        let nanos = frac as i64 * 10i64.pow(9 - digits as u32);
        let fr = if digits == 0 { String::new() } else { format!(".{frac:0digits$}") };
        let (txt, want): (String, Option<(i64, i64)>) = match r.gen_range(0..9) {
            0 => (format!("{y:04}-{m:02}-{d:02}T{h:02}:{mi:02}:{s:02}{fr}{sg}{oh:02}:{om:02}"), Some((local - off * 60, nanos))),
            1 => (format!("{y:04}-{m:02}-{d:02}{}{h:02}:{mi:02}:{s:02}{fr}{}", pick(r, &["T", "t"]), pick(r, &["Z", "z"])), Some((local, nanos))),
            2 => (format!("{y:04}-{m:02}-{d:02} {h:02}:{mi:02}:{s:02} {sg}{oh:02}{}{om:02}", pick(r, &["", ":"])), Some((local - off * 60, 0))),
            3 => (format!("{y:04}-{m:02}-{d:02} {h:02}:{mi:02}:{s:02}"), Some((local, 0))),
            4 => (format!("{}, {d:02} {} {y:04} {h:02}:{mi:02}:{s:02} {sg}{oh:02}{om:02}", wd[days.rem_euclid(7) as usize], mon[m as usize - 1]), Some((local - off * 60, 0))),
            5 => (format!("{d} {} {y:04} {h:02}:{mi:02}:{s:02} GMT", mon[m as usize - 1]), if y >= 1900 { Some((local, 0)) } else { None }),
            // wrong weekday, impossible dates and times, garbage
            6 => (format!("{}, {d:02} {} {y:04} {h:02}:{mi:02}:{s:02} +0000", wd[(days + r.gen_range(1..6)).rem_euclid(7) as usize], mon[m as usize - 1]), None),
            7 => match r.gen_range(0..6) {
                0 => (format!("{y:04}-{m:02}-{:02} {h:02}:{mi:02}:{s:02}", dim + 1), None),
                1 => (format!("{y:04}-13-{d:02} {h:02}:{mi:02}:{s:02}"), None),
                2 => (format!("{y:04}-{m:02}-{d:02} 24:{mi:02}:{s:02}"), None),
                3 => (format!("{y:04}-{m:02}-{d:02} {h:02}:60:{s:02}"), None),
                4 => (format!("{y:04}-{m:02}-{d:02} {h:02}:{mi:02}:{s:02} +02:00x"), None),
                _ => (format!("{y:04}-{m:02}-{d:02}T{h:02}:{mi:02}:{s:02}"), None),
            },
            _ => (pick(r, &["", "now", "latest", "5", "2020", "2020-01-01", "12:00:00", "yesterday", "2020-01-01 00:00", "\u{0}", "٢٠٢٠-01-01 00:00:00"]).to_string(), None),
        };
        // the mail format writes years below 1900 in other ways
        if y < 1900 && txt.contains(',') { continue; }
        if y < 1900 && txt.contains("GMT") { continue; }
        ctx.eval(&txt, true);
        match sfv::guarded(|| TableVersionProcessor::version_to_datetime(&txt)) {
            Err(p) => ctx.violation("version-panic", format!("{txt:?}: {p}")),
            Ok(Ok(dt)) => match want {
                None => {
                    ctx.violation("not-a-version-accepted", format!("{txt:?} read as {dt}"));
                }
                Some((sec, ns)) => { ctx.count("version texts read", 1); ctx.check((dt.timestamp(), dt.timestamp_subsec_nanos() as i64) == (sec, ns), "version-instant", || format!("{txt:?} read as {dt} = {}.{:09}, wanted {sec}.{ns:09}", dt.timestamp(), dt.timestamp_subsec_nanos())); }
            },
            Ok(Err(e)) => match want {
                None => ctx.count("version texts refused", 1),
                Some(_) => ctx.violation("version-refused", format!("{txt:?}: {e}")),
            },
        }
    }
}

// ------------------------------------------------------------------------------------------------ C15

pub fn c15(ctx: &Ctx) {
    use crate::nodes::*;
    use crate::wasm_udf::data_types::*;
    use ::datafusion::common::DFSchema;
    use ::datafusion::logical_expr::{Extension, LogicalPlan, UserDefinedLogicalNode};
    use arrow_schema::{DataType, Field, Schema};
    use std::hash::{Hash, Hasher};
    use std::sync::Arc;
    ctx.rule("one evaluation = one pair of plan nodes compared, or one node rebuilt, described or sent through the optimizer; distinct by the described operations");
    let out = || Arc::new(DFSchema::empty());
    let names = ["a", "A", "a.b", "", "tab le", "\"Q\"", "b"];
    let gen = |r: &mut StdRng| -> (String, SeafowlExtensionNode, Vec<String>) {
        let n = |r: &mut StdRng| pick(r, &names).to_string();
        match r.gen_range(0..7) {
            0 => { let (l, t) = (n(r), n(r)); (format!("convert {l:?} {t:?}"), SeafowlExtensionNode::ConvertTable(ConvertTable { location: l.clone(), name: t.clone(), output_schema: out() }), vec!["Convert".into(), l, t]) }
            1 => {
                let t = n(r);
                let ine = chance(r, 0.5);
                let k = r.gen_range(0..3);
                let fields: Vec<Field> = (0..k).map(|i| Field::new(format!("c{i}"), if chance(r, 0.5) { DataType::Int32 } else { DataType::Utf8 }, chance(r, 0.5))).collect();
                (format!("create {t:?} {ine} {fields:?}"), SeafowlExtensionNode::CreateTable(CreateTable { schema: Schema::new(fields), name: t.clone(), if_not_exists: ine, output_schema: out() }), vec!["Create".into(), t])
            }
            2 => {
                let t = n(r);
                let or = chance(r, 0.5);
                let d = CreateFunctionDetails { entrypoint: n(r), language: if chance(r, 0.5) { CreateFunctionLanguage::Wasm } else { CreateFunctionLanguage::WasmMessagePack }, input_types: (0..r.gen_range(0..2)).map(|_| if chance(r, 0.5) { CreateFunctionDataType::INT } else { CreateFunctionDataType::TEXT }).collect(), return_type: if chance(r, 0.5) { CreateFunctionDataType::INT } else { CreateFunctionDataType::DECIMAL { precision: r.gen_range(1..3), scale: 1 } }, data: n(r), volatility: pick(r, &[CreateFunctionVolatility::Immutable, CreateFunctionVolatility::Stable, CreateFunctionVolatility::Volatile]).clone() };
                (format!("function {t:?} {or} {d:?}"), SeafowlExtensionNode::CreateFunction(CreateFunction { name: t.clone(), or_replace: or, details: d, output_schema: out() }), vec!["CreateFunction".into(), t])
            }
            3 => {
                let f: Vec<String> = (0..r.gen_range(1..4)).map(|_| n(r)).collect();
                let ie = chance(r, 0.5);
                let mut w = vec!["DropFunction".to_string()];
                w.extend(f.clone());
                (format!("drop {f:?} {ie}"), SeafowlExtensionNode::DropFunction(DropFunction { if_exists: ie, func_names: f, output_schema: out() }), w)
            }
            4 => { let (a, b) = (n(r), n(r)); (format!("rename {a:?} {b:?}"), SeafowlExtensionNode::RenameTable(RenameTable { old_name: a.clone(), new_name: b.clone(), output_schema: out() }), vec!["RenameTable".into(), a, b]) }
            5 => { let t = n(r); (format!("truncate {t:?}"), SeafowlExtensionNode::Truncate(Truncate { table_name: t.clone(), output_schema: out() }), vec!["Truncate".into(), t]) }
            _ => {
                let (db, t) = match r.gen_range(0..3) { 0 => (Some(n(r)), None), 1 => (None, Some(n(r))), _ => (Some(n(r)), Some(n(r))) };
                let what = if db.is_some() { "database" } else { "tables" };
                (format!("vacuum {db:?} {t:?}"), SeafowlExtensionNode::Vacuum(Vacuum { database: db, table_name: t, output_schema: out() }), vec!["Vacuum".into(), what.into()])
            }
        }
    };
    fn h(n: &dyn UserDefinedLogicalNode) -> u64 {
        let mut s = std::collections::hash_map::DefaultHasher::new();
        n.dyn_hash(&mut s);
        s.finish()
    }
    // somebody else's node, whatever it's called
    #[derive(Debug, Hash, PartialEq, Eq, PartialOrd)]
    struct Foreign(&'static str);
    static NOTHING: std::sync::OnceLock<::datafusion::common::DFSchemaRef> = std::sync::OnceLock::new();
    impl ::datafusion::logical_expr::UserDefinedLogicalNodeCore for Foreign {
        fn name(&self) -> &str { self.0 }
        fn inputs(&self) -> Vec<&LogicalPlan> { vec![] }
        fn schema(&self) -> &::datafusion::common::DFSchemaRef { NOTHING.get_or_init(|| Arc::new(DFSchema::empty())) }
        fn expressions(&self) -> Vec<::datafusion::logical_expr::Expr> { vec![] }
        fn fmt_for_explain(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(self.0) }
        fn with_exprs_and_inputs(&self, _: Vec<::datafusion::logical_expr::Expr>, _: Vec<LogicalPlan>) -> ::datafusion::common::Result<Self> { Ok(Foreign(self.0)) }
    }
    let state = ::datafusion::prelude::SessionContext::new().state();
    for case in 0..ctx.n(6000, 200_000) as u64 {
        if ctx.out_of_time() { break; }
        let r = &mut ctx.rng_n("node", case);
        if case < 200 {
            let (_, n, _) = gen(r);
            for name in ["Foreign", "Truncate", "SeafowlExtensionNode", ""] {
                let o = Foreign(name);
                ctx.check(!n.dyn_eq(&o) && n.dyn_ord(&o).is_none(), "equals-a-foreign-node", || format!("{n:?}, {name:?}"));
                let o = Arc::new(o) as Arc<dyn UserDefinedLogicalNode>;
                ctx.check(SeafowlExtensionNode::from_dynamic(&o).is_none(), "taken-for-a-foreign-node", || format!("{name:?}"));
                let (pn, po) = (LogicalPlan::Extension(Extension { node: Arc::new(n.clone()) }), LogicalPlan::Extension(Extension { node: o }));
                ctx.check(pn != po && po != pn, "plan-equals-a-foreign-plan", || format!("{n:?}, {name:?}"));
            }
        }
        let (ka, a, words) = gen(r);
        let (kb, b, _) = if chance(r, 0.3) { let seed = r.gen::<u64>(); let x = &mut ctx.rng_n("pair", seed); let y = gen(x); (y.0, y.1, y.2) } else { gen(r) };
        let same = ka == kb;
        ctx.eval(&(&ka, &kb), true);
        ctx.count(if same { "equal pairs" } else { "different pairs" }, 1);
        ctx.check((a == b) == same, "equality", || format!("{ka} / {kb}"));
        ctx.check(a.dyn_eq(&b) == same, "dyn-equality", || format!("{ka} / {kb}"));
        let (ab, ba) = (a.dyn_ord(&b), b.dyn_ord(&a));
        ctx.check((ab == Some(std::cmp::Ordering::Equal)) == same && ab == ba.map(|o| o.reverse()), "dyn-order", || format!("{ka} / {kb}: {ab:?} and {ba:?}"));
        let twin = a.clone();
        ctx.check(a.dyn_eq(&twin) && h(&a) == h(&twin), "equal-nodes-hash-apart", || ka.clone());
        if !same { ctx.count("hashes that collide", (h(&a) == h(&b)) as u64); ctx.check(h(&a) != h(&b), "different-operations-hash-alike", || format!("{ka} / {kb}")); }
        let pa = LogicalPlan::Extension(Extension { node: Arc::new(a.clone()) });
        let pb = LogicalPlan::Extension(Extension { node: Arc::new(b.clone()) });
        ctx.check((pa == pb) == same, "plan-equality", || format!("{ka} / {kb}"));
        ctx.check(a.inputs().is_empty() && a.expressions().is_empty() && a.schema().fields().is_empty(), "parts", || ka.clone());
        // rebuilt from its parts
        let rebuilt = a.with_exprs_and_inputs(a.expressions(), a.inputs().into_iter().cloned().collect());
        match rebuilt {
            Ok(n) => { ctx.check(n.dyn_eq(&a), "rebuilt-node-differs", || ka.clone()); ctx.check(SeafowlExtensionNode::from_dynamic(&n) == Some(&a), "rebuilt-node-lost", || ka.clone()); }
            Err(e) => ctx.violation("rebuild-failed", format!("{ka}: {e}")),
        }
        let mut d = ::datafusion::logical_expr::LogicalPlan::Extension(Extension { node: Arc::new(a.clone()) });
        match state.optimize(&d) {
            Ok(o) => { d = o; }
            Err(e) => ctx.violation("optimizer", format!("{ka}: {e}")),
        }
        match &d {
            LogicalPlan::Extension(Extension { node }) => { ctx.check(SeafowlExtensionNode::from_dynamic(node) == Some(&a), "optimizer-changed-node", || ka.clone()); }
            other => ctx.violation("optimizer-changed-node", format!("{ka} became {other}")),
        }
        let text = pa.to_string();
        let mut at = 0;
        for w in &words {
            match text[at..].find(w.as_str()) {
                Some(i) => at += i + w.len(),
                None => { ctx.violation("description", format!("{ka} is described as {text:?}")); break; }
            }
        }
        let _ = a.name();
    }
}
