//! C57: the command line runs exactly what is typed and shows exactly what comes of it
use crate::sf::{scratch, Sf};
use arrow::array::{ArrayRef, Int64Array, StringArray};
use arrow::record_batch::RecordBatch;
use arrow::util::pretty::pretty_format_batches;
use serde_json::{json, Value};
use sfv::{chance, pick, rand::{rngs::StdRng, Rng}, Ctx};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::path::Path;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::time::{Duration, Instant};

type Rows = Vec<(i64, Option<String>)>;
/// tables (schema, name) with what is in them
type Model = BTreeMap<(String, String), Rows>;

#[derive(Clone, Debug)]
enum Expect {
    Nothing,
    Table(String, String, Rows),
    /// refused when it is its turn, with this in the message
    Fails(String),
}

#[derive(Clone, Debug)]
enum Input {
    Statements(Vec<(String, Expect)>),
    /// cannot be parsed, so that nothing of it is done
    Garbled(String),
    Help,
    List(Vec<(String, String)>),
    Describe(String, String, bool),
    Unknown(String),
    Quit(&'static str),
    /// no semicolon, and then the end
    Unfinished(String),
}

fn quote(s: &Option<String>) -> String { s.as_ref().map(|s| format!("'{}'", s.replace('\'', "''"))).unwrap_or("NULL".into()) }

fn word(r: &mut StdRng) -> Option<String> {
    if chance(r, 0.15) { return None }
    Some(pick(r, &["x", "a;b", "it's", "two words", "é☃", "\\d", "\\q", "-- no", "/* no", "\"q\"", ";;", "a,b", "{\"a\": 1}", "NULL", "semi; colon; end", "Time: 1.000s", "#", "tab"]).to_string())
}

fn name(t: &(String, String)) -> String { if t.0 == "public" { t.1.clone() } else { format!("{}.{}", t.0, t.1) } }

fn statement(r: &mut StdRng, m: &mut Model, n: &mut i64) -> (String, Expect) {
    let have: Vec<_> = m.keys().cloned().collect();
    *n += 1;
    match if have.is_empty() { r.gen_range(0..3) } else { r.gen_range(0..17) } {
        0 | 1 => {
            let t = (pick(r, &["public", "other"]).to_string(), format!("t{}", r.gen_range(0..3)));
            if m.contains_key(&t) { return (format!("CREATE TABLE {} (n BIGINT, s TEXT)", name(&t)), Expect::Fails(t.1)) }
            m.insert(t.clone(), vec![]);
            (format!("CREATE TABLE {} (n BIGINT, s TEXT)", name(&t)), Expect::Nothing)
        }
        2 => { let (k, w) = (*n, word(r)); (format!("SELECT {k} AS n, {} AS \"w_s\"", quote(&w)), Expect::Table("n".into(), "w_s".into(), vec![(k, w)])) }
        3..=6 => {
            let t = pick(r, &have).clone();
            let rows: Rows = (0..r.gen_range(1..4)).map(|_| { *n += 1; (*n, word(r)) }).collect();
            m.get_mut(&t).unwrap().extend(rows.clone());
            (format!("INSERT INTO {} VALUES {}", name(&t), rows.iter().map(|(a, b)| format!("({a}, {})", quote(b))).collect::<Vec<_>>().join(", ")), Expect::Nothing)
        }
        7 => { let t = pick(r, &have).clone(); let k = r.gen_range(2..4); m.get_mut(&t).unwrap().retain(|x| x.0 % k != 0); (format!("DELETE FROM {} WHERE n % {k} = 0", name(&t)), Expect::Nothing) }
        8 => { let t = pick(r, &have).clone(); let w = word(r); m.get_mut(&t).unwrap().iter_mut().for_each(|x| if x.0 % 2 == 0 { x.1 = w.clone() }); (format!("UPDATE {} SET s = {} WHERE n % 2 = 0", name(&t), quote(&w)), Expect::Nothing) }
        9 | 10 if chance(r, 0.6) => { let t = pick(r, &have).clone(); m.remove(&t); (format!("DROP TABLE {}", name(&t)), Expect::Nothing) }
        11 if chance(r, 0.5) => { let t = pick(r, &have).clone(); m.insert(t.clone(), vec![]); (format!("TRUNCATE TABLE {}", name(&t)), Expect::Nothing) }
        12 if chance(r, 0.5) => { let t = pick(r, &have).clone(); (format!("VACUUM TABLE {}", name(&t)), Expect::Nothing) }
        13 if chance(r, 0.6) => (format!("SELECT * FROM missing_{n}"), Expect::Fails(format!("missing_{n}"))),
        14 if chance(r, 0.4) => (format!("SELECT CAST('bad_{n}' AS INT) AS n"), Expect::Fails(format!("bad_{n}"))),
        _ => {
            let t = pick(r, &have).clone();
            let mut rows = m[&t].clone();
            rows.sort();
            let (cond, rows) = if chance(r, 0.3) { let k = r.gen_range(0..*n); (format!(" WHERE n > {k}"), rows.into_iter().filter(|x| x.0 > k).collect()) } else { (String::new(), rows) };
            (format!("SELECT n, s FROM {}{cond} ORDER BY n", name(&t)), Expect::Table("n".into(), "s".into(), rows))
        }
    }
}

/// statements on one input line; those after one that fails are not run
fn statements(r: &mut StdRng, m: &mut Model, n: &mut i64) -> Vec<(String, Expect)> {
    let mut out = vec![];
    for _ in 0..*pick(r, &[1, 1, 1, 2, 2, 3, 4]) {
        let s = statement(r, m, n);
        let fails = matches!(s.1, Expect::Fails(_));
        out.push(s);
        if fails {
            // never reached
            if chance(r, 0.5) { out.push(statement(r, &mut m.clone(), n)) }
            break;
        }
    }
    out
}

fn session(r: &mut StdRng, m: &mut Model, n: &mut i64) -> Vec<Input> {
    let mut out = vec![];
    for _ in 0..r.gen_range(3..14) {
        out.push(match r.gen_range(0..14) {
            0 => Input::Help,
            1 => Input::List(m.keys().cloned().collect()),
            2 => match m.keys().next().cloned() { Some(t) if chance(r, 0.7) => Input::Describe(t.0, t.1, true), _ => { *n += 1; Input::Describe("public".into(), format!("missing_{n}"), false) } },
            3 if chance(r, 0.5) => Input::Unknown(pick(r, &["\\x", "\\", "\\dt", "\\Q", "\\quit now", "\\q 1", "\\D", "\\? x", "\\ q", "\\ d", "\\q;", "\\help", "\\\\d", "\\é"]).to_string()),
            4 if chance(r, 0.4) => { *n += 1; Input::Garbled(pick(r, &["SELECT FROM WHERE", "CREATE TABLE", "INSERT INTO VALUES (1)", "SELEKT 1", "SELECT 'open", "SELECT 1 AS n; DROP DROP"]).to_string()) }
            _ => Input::Statements(statements(r, m, n)),
        });
    }
    match r.gen_range(0..4) { 0 => out.push(Input::Quit("\\q")), 1 => out.push(Input::Quit("\\quit")), 2 => { let t = m.keys().next().map(name).unwrap_or("t0".into()); out.push(Input::Unfinished(pick(r, &[format!("INSERT INTO {t} VALUES (1, 'x')"), format!("DROP TABLE {t}"), format!("DROP TABLE {t}; --")]).clone())) } _ => {} }
    out
}

/// the text over some lines; none but the last ends in a semicolon
fn lay_out(r: &mut StdRng, texts: &[&str]) -> String {
    let mut t = texts.join(*pick(r, &["; ", ";", " ;  "]));
    if chance(r, 0.3) {
        let (mut out, mut inside) = (String::new(), false);
        for c in t.chars() {
            if c == '\'' { inside = !inside }
            if c == ' ' && !inside && !out.ends_with(';') && !out.ends_with(' ') && chance(r, 0.3) { out.push_str(*pick(r, &["\n", "\n  ", "\n\n", " \n"])) } else { out.push(c) }
        }
        t = out;
    }
    match r.gen_range(0..12) { 0 => t = format!("-- a comment\n{t}"), 1 => t = format!("/* some;\\d\n text */ {t}"), 2 => t = format!("  {t}"), 3 => t = format!("\n{t}"), _ => {} }
    t.push_str(*pick(r, &[";", ";", ";", " ;", ";  ", "\n;", "; -- done\n;"]));
    t
}

fn pretty(a: &str, b: &str, rows: &Rows) -> String {
    let batch = RecordBatch::try_from_iter(vec![
        (a, Arc::new(Int64Array::from_iter_values(rows.iter().map(|x| x.0))) as ArrayRef),
        (b, Arc::new(StringArray::from_iter(rows.iter().map(|x| x.1.clone()))) as ArrayRef),
    ]).unwrap();
    format!("{}\n", pretty_format_batches(&[batch]).unwrap())
}

struct Ran { code: Option<i32>, out: String, err: String }

fn run(dir: &Path, args: &[&str], input: &str) -> Option<Ran> {
    let exe = std::env::current_exe().unwrap().with_file_name("seafowl_server");
    let mut c = std::process::Command::new(exe);
    c.args(["-c", "c.toml"]).args(args).current_dir(dir).env_clear().env("RUST_LOG", "off").env("RUST_BACKTRACE", "0").stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped());
    let mut child = c.spawn().expect("starting seafowl_server");
    let (mut si, mut so, mut se) = (child.stdin.take().unwrap(), child.stdout.take().unwrap(), child.stderr.take().unwrap());
    let text = input.to_string();
    let w = std::thread::spawn(move || { let _ = si.write_all(text.as_bytes()); });
    let o = std::thread::spawn(move || { let mut b = vec![]; let _ = so.read_to_end(&mut b); b });
    let e = std::thread::spawn(move || { let mut b = vec![]; let _ = se.read_to_end(&mut b); b });
    let t = Instant::now();
    let status = loop {
        if let Some(s) = child.try_wait().unwrap() { break Some(s) }
        if t.elapsed().as_secs() > 90 { let _ = child.kill(); let _ = child.wait(); break None }
        std::thread::sleep(Duration::from_millis(4));
    };
    let _ = w.join();
    let text = |h: std::thread::JoinHandle<Vec<u8>>| String::from_utf8_lossy(&h.join().unwrap_or_default()).into_owned();
    let (out, err) = (text(o), text(e));
    Some(Ran { code: status?.code(), out, err })
}

/// takes what is expected off the front
struct Out<'a> { rest: &'a str }
impl<'a> Out<'a> {
    fn exact(&mut self, t: &str) -> Result<(), String> {
        self.rest = self.rest.strip_prefix(t).ok_or_else(|| format!("expected\n{t}before\n{}", sfv::trunc(self.rest, 700)))?;
        Ok(())
    }
    fn time(&mut self) -> Result<(), String> {
        let l = self.rest.lines().next().unwrap_or_default();
        let ok = l.strip_prefix("Time: ").and_then(|x| x.strip_suffix('s')).is_some_and(|x| x.parse::<f64>().is_ok_and(|v| (0.0..100.0).contains(&v)));
        if !ok { return Err(format!("expected the time before\n{}", sfv::trunc(self.rest, 700))) }
        self.exact(&format!("{l}\n"))
    }
    fn table(&mut self) -> Result<Vec<Vec<String>>, String> {
        let (mut borders, mut rows, mut used) = (0, vec![], 0);
        for l in self.rest.split_inclusive('\n') {
            used += l.len();
            let l = l.trim_end_matches('\n');
            if l.starts_with("+-") { borders += 1; if borders == 3 { self.rest = &self.rest[used..]; return Ok(rows) } }
            else if l.starts_with('|') { rows.push(l.trim_matches('|').split('|').map(|c| c.trim().to_string()).collect()) }
            else { break }
        }
        Err(format!("expected a table before\n{}", sfv::trunc(self.rest, 700)))
    }
}

fn interactive(r: &mut StdRng, dir: &Path, inputs: &[Input], trace: &mut Vec<String>) -> Result<(), (&'static str, String)> {
    let mut text = String::new();
    for i in inputs {
        let t = match i {
            Input::Statements(s) => lay_out(r, &s.iter().map(|x| x.0.as_str()).collect::<Vec<_>>()),
            Input::Garbled(s) => format!("{s};"),
            Input::Help => pick(r, &["\\?", "\\? ", "\\?   "]).to_string(),
            Input::List(_) => pick(r, &["\\d", "\\d  "]).to_string(),
            Input::Describe(s, t, _) => format!("\\d{}{}", pick(r, &[" ", "  ", "\t"]), name(&(s.clone(), t.clone()))),
            Input::Unknown(s) => s.clone(),
            Input::Quit(s) => format!("{s}\nDROP TABLE t0;\nSELECT 1;"),
            Input::Unfinished(s) => s.clone(),
        };
        trace.push(format!("> {t}"));
        text.push_str(&t);
        text.push('\n');
    }
    let Some(ran) = run(dir, &["--cli"], &text) else { return Err(("hangs", "the session does not end".into())) };
    let all = || format!("printed:\n{}\nand on stderr:\n{}", sfv::trunc(&ran.out, 3000), sfv::trunc(&ran.err, 1500));
    if ran.code != Some(0) { return Err(("ends badly", format!("exit {:?}\n{}", ran.code, all()))) }
    let mut o = Out { rest: &ran.out };
    let mut err = ran.err.as_str();
    let mut complains = |marker: &str| -> Result<(), String> {
        let at = err.find(marker).ok_or_else(|| format!("no complaint about {marker} in\n{}", sfv::trunc(err, 700)))?;
        err = &err[at + marker.len()..];
        // the rest of that line
        err = err.split_once('\n').map(|x| x.1).unwrap_or("");
        Ok(())
    };
    let (mut quit, mut garbled) = (false, 0);
    for (k, i) in inputs.iter().enumerate() {
        let res: Result<(), String> = (|| {
            match i {
                Input::Statements(s) => {
                    for (_, e) in s {
                        match e {
                            Expect::Nothing => {}
                            Expect::Table(a, b, rows) => { let t = pretty(a, b, rows); if !rows.is_empty() || o.rest.starts_with(&t) { o.exact(&t)? } }
                            Expect::Fails(m) => { complains(m)?; return Ok(()) }
                        }
                    }
                    o.time()
                }
                Input::Garbled(_) => { garbled += 1; Ok(()) }
                Input::Help => {
                    let t = o.table()?;
                    for c in ["\\q", "\\?", "\\d", "\\d name"] { if t.iter().filter(|x| x[0] == c && !x[1].is_empty()).count() != 1 { return Err(format!("the help has no {c}: {t:?}")) } }
                    Ok(())
                }
                Input::List(want) => {
                    let mut got: Vec<(String, String)> = o.table()?.into_iter().skip(1).filter(|x| x[3] == "BASE TABLE").map(|x| (x[1].clone(), x[2].clone())).collect();
                    got.sort();
                    if got != *want { return Err(format!("lists {got:?}, not {want:?}")) }
                    o.time()
                }
                Input::Describe(s, t, true) => {
                    let got: Vec<Vec<String>> = o.table()?.into_iter().skip(1).map(|x| x[1..].to_vec()).collect();
                    let want: Vec<Vec<String>> = [("n", "Int64"), ("s", "Utf8")].iter().map(|c| vec![s.clone(), t.clone(), c.0.into(), c.1.into(), "YES".into()]).collect();
                    if got != want { return Err(format!("describes {got:?}, not {want:?}")) }
                    o.time()
                }
                Input::Describe(_, t, false) => complains(t),
                Input::Unknown(s) => complains(&format!("'{}' is not a valid command", s)),
                Input::Quit(_) => { quit = true; Ok(()) }
                Input::Unfinished(_) => Ok(()),
            }
        })();
        if let Err(e) = res { return Err(("output", format!("input {} ({i:?}): {e}\nthe session {}", k + 1, all()))) }
    }
    if !quit { if let Err(e) = o.exact("\\q\n") { return Err(("output/end", format!("{e}\n{}", all()))) } }
    if !o.rest.is_empty() { return Err(("output/more", format!("there is more: {}\n{}", o.rest, all()))) }
    let fails = inputs.iter().any(|i| matches!(i, Input::Garbled(_) | Input::Unknown(_) | Input::Describe(_, _, false)) || matches!(i, Input::Statements(s) if s.iter().any(|x| matches!(x.1, Expect::Fails(_)))));
    if !fails && !ran.err.is_empty() { return Err(("complains", all())) }
    if garbled > 0 && ran.err.is_empty() { return Err(("says nothing", all())) }
    Ok(())
}

fn one_off(r: &mut StdRng, dir: &Path, s: &[(String, Expect)], trace: &mut Vec<String>) -> Result<(), (&'static str, String)> {
    let text = format!("{}{}", s.iter().map(|x| x.0.as_str()).collect::<Vec<_>>().join("; "), pick(r, &["", ";", " ; "]));
    trace.push(format!("--one-off {text}"));
    let flag = *pick(r, &["--one-off", "-o"]);
    let Some(ran) = run(dir, &[flag, &text], "") else { return Err(("hangs", "does not end".into())) };
    let all = || format!("exit {:?}, printed:\n{}\nand on stderr:\n{}", ran.code, sfv::trunc(&ran.out, 3000), sfv::trunc(&ran.err, 1500));
    let mut want: Vec<Value> = vec![];
    let mut fails = None;
    for (_, e) in s {
        match e {
            Expect::Nothing => {}
            Expect::Table(a, b, rows) => for x in rows { let mut o = serde_json::Map::new(); o.insert(a.clone(), json!(x.0)); if let Some(v) = &x.1 { o.insert(b.clone(), json!(v)); } want.push(Value::Object(o)) },
            Expect::Fails(m) => { fails = Some(m.clone()); break }
        }
    }
    let got: Result<Vec<Value>, _> = ran.out.lines().map(serde_json::from_str::<Value>).collect();
    match got { Ok(g) if g == want => {} Ok(_) | Err(_) => return Err(("one-off/output", format!("{}\ninstead of {want:?}", all()))) }
    match fails {
        None if ran.code != Some(0) || !ran.err.is_empty() => Err(("one-off/status", all())),
        Some(m) if ran.code == Some(0) || !ran.err.contains(&m) => Err(("one-off/failure", format!("the failure ({m}) is not reported: {}", all()))),
        _ => Ok(()),
    }
}

fn history(ctx: &Ctx, h: u64) {
    let mut r = ctx.rng_n("history", h);
    let dir = scratch();
    std::fs::create_dir_all(dir.join("data")).unwrap();
    std::fs::write(dir.join("c.toml"), format!("[object_store]\ntype = \"local\"\ndata_dir = \"{0}/data\"\n[catalog]\ntype = \"sqlite\"\ndsn = \"{0}/seafowl.sqlite\"\n", dir.display())).unwrap();
    let rt = super::rt(1);
    rt.block_on(async { let sf = Sf::open(&dir, "").await; if let Err(e) = sf.sql("CREATE SCHEMA other").await { ctx.violation("setup", e.to_string()) } sf.into_kept(); });
    let mut m = Model::new();
    let mut n = 0;
    let mut trace = vec![];
    for part in 0..r.gen_range(2..5) {
        if ctx.used(0.95) { break }
        let res = if chance(&mut r, 0.3) {
            let s = statements(&mut r, &mut m, &mut n);
            ctx.count("one_off", 1);
            ctx.eval(&(h, part), true);
            one_off(&mut r, &dir, &s, &mut trace)
        } else {
            let s = session(&mut r, &mut m, &mut n);
            ctx.count("sessions", 1);
            for i in &s { ctx.count(match i { Input::Statements(x) if x.len() > 1 => "input: several statements", Input::Statements(_) => "input: statement", Input::Garbled(_) => "input: garbled", Input::Help => "input: help", Input::List(_) => "input: list", Input::Describe(..) => "input: describe", Input::Unknown(_) => "input: unknown command", Input::Quit(_) => "input: quit", Input::Unfinished(_) => "input: unfinished" }, 1); }
            ctx.eval(&(h, part), s.len() > 2);
            interactive(&mut r, &dir, &s, &mut trace)
        };
        if let Err((sig, d)) = res {
            ctx.violation(sig, format!("{d}\nhistory {h}:\n{}", trace.join("\n")));
            break;
        }
        // and what it did
        let got = rt.block_on(async {
            let sf = Sf::open(&dir, "").await;
            let mut out = Model::new();
            let res: datafusion::error::Result<()> = async {
                for t in sf.rows("SELECT table_schema, table_name FROM information_schema.tables WHERE table_type = 'BASE TABLE'").await? {
                    let mut rows: Rows = sf.rows(&format!("SELECT n, s IS NULL, s FROM {}.{}", t[0], t[1])).await?.into_iter().map(|x| (x[0].parse().unwrap(), (x[1] == "false").then(|| x[2].clone()))).collect();
                    rows.sort();
                    out.insert((t[0].clone(), t[1].clone()), rows);
                }
                Ok(())
            }.await;
            sf.into_kept();
            res.map(|_| out)
        });
        m.values_mut().for_each(|x| x.sort());
        match got {
            Ok(g) if g == m => {}
            Ok(g) => { ctx.violation("effects", format!("afterwards there is {g:?}\ninstead of {m:?}\nhistory {h}:\n{}", trace.join("\n"))); break }
            Err(e) => { ctx.violation("effects", format!("afterwards: {e}\nhistory {h}:\n{}", trace.join("\n"))); break }
        }
        ctx.seen("models", &format!("{m:?}"));
        ctx.sample(json!(trace.iter().rev().take(6).collect::<Vec<_>>()));
    }
    drop(rt);
    let _ = std::fs::remove_dir_all(&dir);
}

pub fn c57(ctx: &Ctx) {
    ctx.rule("what is printed, complained about and changed by a session or a one-off command is what its statements, in order, say");
    let next = AtomicU64::new(0);
    let n = ctx.n(60, 6000) as u64;
    std::thread::scope(|s| {
        for _ in 0..7 {
            s.spawn(|| loop {
                let h = next.fetch_add(1, SeqCst);
                if h >= n || ctx.used(0.9) || ctx.violated() { break }
                if let Err(p) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| history(ctx, h))) { ctx.stopped(p) }
            });
        }
    });
}
