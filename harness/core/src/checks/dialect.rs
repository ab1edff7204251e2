//! An interpreter of WHERE clauses written from the documented lexical rules and operator tables
//! of PostgreSQL, MySQL and SQLite.

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Dia { Pg, My, Lite }

#[derive(Clone, Debug, PartialEq)]
pub enum V { Null, B(bool), I(i128), F(f64), T(String), Ts(i128) }

#[derive(Clone, Debug, PartialEq)]
pub enum Tok { Ident(String), QIdent(String), Str(String), Num(String), Op(String), LP, RP, Comma }

pub fn lex(d: Dia, s: &str) -> Result<Vec<Tok>, String> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < c.len() {
        let ch = c[i];
        if ch == '\0' { return Err("NUL character".into()); }
        if ch.is_whitespace() { i += 1; continue; }
        if ch == '-' && c.get(i + 1) == Some(&'-') && (d != Dia::My || c.get(i + 2).map(|x| x.is_whitespace()).unwrap_or(true)) { return Err("starts a comment".into()); }
        if ch == '/' && c.get(i + 1) == Some(&'*') { return Err("starts a comment".into()); }
        if ch == '#' && d == Dia::My { return Err("starts a comment".into()); }
        let quoted = |q: char, back: bool, i: &mut usize| -> Result<String, String> {
            let mut t = String::new();
            *i += 1;
            loop {
                match c.get(*i) {
                    None => return Err(format!("unterminated {q}")),
                    Some('\0') if d == Dia::Pg => return Err("NUL character".into()),
                    Some(x) if *x == q => if c.get(*i + 1) == Some(&q) { t.push(q); *i += 2; } else { *i += 1; return Ok(t); },
                    Some('\\') if back => {
                        match c.get(*i + 1) {
                            None => return Err("unterminated".into()),
                            Some('0') => t.push('\0'), Some('b') => t.push('\u{8}'), Some('n') => t.push('\n'), Some('r') => t.push('\r'), Some('t') => t.push('\t'), Some('Z') => t.push('\u{1a}'),
                            Some('%') => t.push_str("\\%"), Some('_') => t.push_str("\\_"),
                            Some(x) => t.push(*x),
                        }
                        *i += 2;
                    }
                    Some(x) => { t.push(*x); *i += 1; }
                }
            }
        };
        match ch {
            '\'' => { let t = quoted('\'', d == Dia::My, &mut i)?; out.push(Tok::Str(t)); }
            '"' => { let t = quoted('"', d == Dia::My, &mut i)?; out.push(if d == Dia::My { Tok::Str(t) } else { Tok::QIdent(t) }); }
            '`' if d != Dia::Pg => { let t = quoted('`', false, &mut i)?; out.push(Tok::QIdent(t)); }
            '(' => { out.push(Tok::LP); i += 1; }
            ')' => { out.push(Tok::RP); i += 1; }
            ',' => { out.push(Tok::Comma); i += 1; }
            x if x.is_ascii_digit() || (x == '.' && c.get(i + 1).map(|y| y.is_ascii_digit()).unwrap_or(false)) => {
                let st = i;
                while i < c.len() && (c[i].is_ascii_digit() || c[i] == '.') { i += 1; }
                if i < c.len() && (c[i] == 'e' || c[i] == 'E') { i += 1; if i < c.len() && (c[i] == '-' || c[i] == '+') { i += 1; } while i < c.len() && c[i].is_ascii_digit() { i += 1; } }
                if i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') { return Err("junk after a number".into()); }
                let t: String = c[st..i].iter().collect();
                if t.parse::<f64>().is_err() { return Err(format!("bad number {t}")); }
                out.push(Tok::Num(t));
            }
            x if x.is_alphabetic() || x == '_' => {
                let st = i;
                while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_' || c[i] == '$') { i += 1; }
                out.push(Tok::Ident(c[st..i].iter().collect()));
            }
            _ => {
                let all: &[&str] = match d {
                    Dia::Pg => &["!~~*", "!~~", "!~*", "!~", "~~*", "~~", "~*", "~", "<@", "@>", "<<", ">>", "<=", ">=", "<>", "!=", "||", "&", "|", "#", "<", ">", "=", "+", "-", "*", "/", "%", "^"],
                    Dia::My => &["<=>", "<<", ">>", "<=", ">=", "<>", "!=", "||", "&&", "&", "|", "^", "~", "<", ">", "=", "+", "-", "*", "/", "%"],
                    Dia::Lite => &["<<", ">>", "<=", ">=", "<>", "!=", "==", "||", "&", "|", "~", "<", ">", "=", "+", "-", "*", "/", "%"],
                };
                let rest: String = c[i..(i + 4).min(c.len())].iter().collect();
                let op = all.iter().find(|o| rest.starts_with(**o)).ok_or_else(|| format!("unknown operator at {rest}"))?;
                i += op.len();
                out.push(Tok::Op(op.to_string()));
            }
        }
    }
    Ok(out)
}

#[derive(Clone, Debug)]
pub enum Node { Col(String), Val(V), Bin(String, Box<Node>, Box<Node>), Un(String, Box<Node>), Is(Box<Node>, &'static str, bool), In(Box<Node>, Vec<Node>, bool) }

pub struct P { d: Dia, t: Vec<Tok>, i: usize }
impl P {
    pub fn parse(d: Dia, s: &str) -> Result<Node, String> {
        let mut p = P { d, t: lex(d, s)?, i: 0 };
        let n = p.expr(0)?;
        if p.i != p.t.len() { return Err(format!("left over: {:?}", &p.t[p.i..])); }
        Ok(n)
    }
    fn kw(&self, k: usize) -> Option<String> { match self.t.get(self.i + k) { Some(Tok::Ident(x)) => Some(x.to_uppercase()), _ => None } }
    fn is_kw(&self, k: usize, w: &str) -> bool { self.kw(k).as_deref() == Some(w) }
    /// (binding strength, left-associative) of a binary operator
    fn bin(&self, op: &str) -> Option<(u32, bool)> {
        Some(match self.d {
            Dia::Pg => match op { "OR" => (1, true), "AND" => (2, true), "IS" => (4, false), "<" | ">" | "=" | "<=" | ">=" | "<>" | "!=" => (5, false), "IN" | "NOT IN" => (6, false), "+" | "-" => (8, true), "*" | "/" | "%" => (9, true), "^" => (10, true), _ => (7, true) },
            Dia::My => match op { "OR" | "||" => (1, true), "AND" | "&&" => (2, true), "=" | "<=>" | ">=" | ">" | "<=" | "<" | "<>" | "!=" | "IS" | "RLIKE" | "NOT RLIKE" | "IN" | "NOT IN" => (5, true), "|" => (6, true), "&" => (7, true), "<<" | ">>" => (8, true), "+" | "-" => (9, true), "*" | "/" | "%" | "DIV" => (10, true), "^" => (11, true), _ => return None },
            Dia::Lite => match op { "OR" => (1, true), "AND" => (2, true), "=" | "==" | "<>" | "!=" | "IS" | "IN" | "NOT IN" => (4, true), "<" | ">" | "<=" | ">=" => (5, true), "&" | "|" | "<<" | ">>" => (6, true), "+" | "-" => (7, true), "*" | "/" | "%" => (8, true), "||" => (9, true), _ => return None },
        })
    }
    fn expr(&mut self, min: u32) -> Result<Node, String> {
        let mut l = self.prefix()?;
        let mut last_non = 0;
        loop {
            let (op, n): (String, usize) = match self.t.get(self.i) {
                Some(Tok::Op(o)) => (o.clone(), 1),
                Some(Tok::Ident(w)) => match w.to_uppercase().as_str() {
                    "AND" => ("AND".into(), 1), "OR" => ("OR".into(), 1), "IS" => ("IS".into(), 1), "IN" => ("IN".into(), 1),
                    "DIV" if self.d == Dia::My => ("DIV".into(), 1),
                    "RLIKE" if self.d == Dia::My => ("RLIKE".into(), 1),
                    "NOT" if self.is_kw(1, "IN") => ("NOT IN".into(), 2),
                    "NOT" if self.d == Dia::My && self.is_kw(1, "RLIKE") => ("NOT RLIKE".into(), 2),
                    x => return Err(format!("unexpected word {x}")),
                },
                None | Some(Tok::RP) | Some(Tok::Comma) => break,
                Some(t) => return Err(format!("unexpected {t:?}")),
            };
            let Some((p, left)) = self.bin(&op) else { return Err(format!("no operator {op}")) };
            if p < min { break; }
            if !left && last_non == p { return Err(format!("{op} is not associative")); }
            last_non = if left { 0 } else { p };
            self.i += n;
            match op.as_str() {
                "IS" => {
                    let not = if self.is_kw(0, "NOT") { self.i += 1; true } else { false };
                    let what = match self.kw(0).as_deref() {
                        Some("NULL") => "NULL", Some("TRUE") => "TRUE", Some("FALSE") => "FALSE",
                        Some("DISTINCT") if self.d != Dia::My && self.is_kw(1, "FROM") => {
                            self.i += 2;
                            let r = self.expr(p + 1)?;
                            l = Node::Bin(if not { "IS NOT DISTINCT FROM" } else { "IS DISTINCT FROM" }.into(), Box::new(l), Box::new(r));
                            continue;
                        }
                        // SQLite's IS is a binary operator: only a bare TRUE or FALSE to its right is a test
                        _ if self.d == Dia::Lite => "",
                        x => return Err(format!("IS {x:?}")),
                    };
                    if self.d == Dia::Lite {
                        let r = self.expr(p + 1)?;
                        l = match r { Node::Val(V::B(b)) => Node::Is(Box::new(l), if b { "TRUE" } else { "FALSE" }, not), r => Node::Bin(if not { "IS DISTINCT FROM" } else { "IS NOT DISTINCT FROM" }.into(), Box::new(l), Box::new(r)) };
                        continue;
                    }
                    self.i += 1;
                    l = Node::Is(Box::new(l), what, not);
                }
                "IN" | "NOT IN" => {
                    if self.t.get(self.i) != Some(&Tok::LP) { return Err("IN without a list".into()); }
                    self.i += 1;
                    let mut v = vec![];
                    if self.t.get(self.i) == Some(&Tok::RP) { if self.d != Dia::Lite { return Err("empty IN list".into()); } }
                    else { loop { v.push(self.expr(0)?); match self.t.get(self.i) { Some(Tok::Comma) => self.i += 1, Some(Tok::RP) => break, x => return Err(format!("in list: {x:?}")) } } }
                    self.i += 1;
                    l = Node::In(Box::new(l), v, op == "NOT IN");
                }
                _ => { let r = self.expr(p + 1)?; l = Node::Bin(op, Box::new(l), Box::new(r)); }
            }
        }
        Ok(l)
    }
    fn prefix(&mut self) -> Result<Node, String> {
        let t = self.t.get(self.i).cloned().ok_or("unexpected end")?;
        self.i += 1;
        Ok(match t {
            Tok::LP => { let e = self.expr(0)?; if self.t.get(self.i) != Some(&Tok::RP) { return Err("missing )".into()); } self.i += 1; e }
            Tok::Op(o) if o == "-" || o == "+" => { let e = self.expr(90)?; Node::Un(o, Box::new(e)) }
            Tok::Str(s) => Node::Val(V::T(s)),
            Tok::Num(n) => Node::Val(n.parse::<i128>().map(V::I).unwrap_or_else(|_| V::F(n.parse().unwrap()))),
            Tok::QIdent(n) => Node::Col(n),
            Tok::Ident(w) => match w.to_uppercase().as_str() {
                "NOT" => { let p = 3; let e = self.expr(p)?; Node::Un("NOT".into(), Box::new(e)) }
                "NULL" => Node::Val(V::Null), "TRUE" => Node::Val(V::B(true)), "FALSE" => Node::Val(V::B(false)),
                _ => Node::Col(w),
            },
            x => return Err(format!("unexpected {x:?}")),
        })
    }
}

fn num(v: &V) -> Option<f64> { match v { V::I(i) => Some(*i as f64), V::F(f) => Some(*f), V::B(b) => Some(*b as i32 as f64), _ => None } }
fn truth(d: Dia, v: &V) -> Result<Option<bool>, String> {
    Ok(match v {
        V::Null => None, V::B(b) => Some(*b),
        x if d == Dia::Pg => return Err(format!("{x:?} is not a boolean")),
        V::T(s) => { let n: String = s.trim_start().chars().take_while(|c| c.is_ascii_digit()).collect(); Some(n.parse::<f64>().unwrap_or(0.0) != 0.0) }
        x => Some(num(x).ok_or("not a truth value")? != 0.0),
    })
}
pub fn parse_ts(s: &str) -> Option<i128> {
    let (d, t) = match s.split_once(' ') { Some((d, t)) => (d, t), None => (s, "00:00:00") };
    let p: Vec<&str> = d.split('-').collect();
    if p.len() != 3 || p[0].len() != 4 || p[1].len() != 2 || p[2].len() != 2 { return None; }
    let (y, m, dd): (i64, i64, i64) = (p[0].parse().ok()?, p[1].parse().ok()?, p[2].parse().ok()?);
    let q: Vec<&str> = t.split(':').collect();
    if q.len() != 3 { return None; }
    let (h, mi): (i64, i64) = (q[0].parse().ok()?, q[1].parse().ok()?);
    let (s, fr) = match q[2].split_once('.') { Some((a, b)) => (a, b), None => (q[2], "") };
    if fr.len() > 9 || !fr.chars().all(|c| c.is_ascii_digit()) { return None; }
    let sec: i64 = s.parse().ok()?;
    let ns: i64 = format!("{fr:0<9}").parse().ok()?;
    if y == 0 || !(1..=12).contains(&m) || !(1..=31).contains(&dd) || h > 23 || mi > 59 || sec > 59 { return None; }
    let (yy, mm) = if m <= 2 { (y - 1, m + 12) } else { (y, m) };
    let days = 365 * yy + yy.div_euclid(4) - yy.div_euclid(100) + yy.div_euclid(400) + (153 * (mm - 3) + 2) / 5 + dd - 1 - 719468;
    Some(((days * 86400 + h * 3600 + mi * 60 + sec) as i128) * 1_000_000_000 + ns as i128)
}
fn cmp(d: Dia, a: &V, b: &V) -> Result<Option<std::cmp::Ordering>, String> {
    Ok(match (a, b) {
        (V::Null, _) | (_, V::Null) => None,
        (V::T(x), V::T(y)) => Some(x.as_bytes().cmp(y.as_bytes())),
        (V::Ts(x), V::Ts(y)) => Some(x.cmp(y)),
        (V::Ts(x), V::T(y)) => Some(x.cmp(&parse_ts(y).ok_or_else(|| format!("{y:?} is not a timestamp"))?)),
        (V::T(x), V::Ts(y)) => Some(parse_ts(x).ok_or_else(|| format!("{x:?} is not a timestamp"))?.cmp(y)),
        (V::I(x), V::I(y)) => Some(x.cmp(y)),
        (V::B(x), V::B(y)) => Some(x.cmp(y)),
        (V::B(_), _) | (_, V::B(_)) if d == Dia::Pg => return Err(format!("cannot compare {a:?} and {b:?}")),
        _ => match (num(a), num(b)) { (Some(x), Some(y)) => Some(x.partial_cmp(&y).ok_or("NaN")?), _ => return Err(format!("cannot compare {a:?} and {b:?}")) },
    })
}
fn b(v: Option<bool>) -> V { v.map(V::B).unwrap_or(V::Null) }
pub fn like(s: &str, p: &str) -> bool {
    fn go(s: &[char], p: &[char]) -> bool {
        match p.first() {
            None => s.is_empty(),
            Some('%') => (0..=s.len()).any(|i| go(&s[i..], &p[1..])),
            Some('_') => !s.is_empty() && go(&s[1..], &p[1..]),
            Some('\\') if p.len() > 1 => s.first() == Some(&p[1]) && go(&s[1..], &p[2..]),
            Some(c) => s.first() == Some(c) && go(&s[1..], &p[1..]),
        }
    }
    go(&s.chars().collect::<Vec<_>>(), &p.chars().collect::<Vec<_>>())
}

pub fn eval(d: Dia, n: &Node, row: &dyn Fn(&str) -> Option<V>) -> Result<V, String> {
    let e = |x: &Node| eval(d, x, row);
    Ok(match n {
        Node::Col(c) => row(c).ok_or_else(|| format!("no column {c:?}"))?,
        Node::Val(v) => v.clone(),
        Node::Un(o, x) => { let v = e(x)?; match o.as_str() {
            "NOT" => b(truth(d, &v)?.map(|x| !x)),
            o => match v { V::Null => V::Null, V::I(i) => V::I(if o == "-" { -i } else { i }), V::F(f) => V::F(if o == "-" { -f } else { f }), V::B(x) if d != Dia::Pg => V::I(-(x as i128)), x => return Err(format!("{o} of {x:?}")) },
        } }
        Node::Is(x, what, not) => { let v = e(x)?; let r = match *what { "NULL" => v == V::Null, "TRUE" => truth(d, &v)? == Some(true), _ => truth(d, &v)? == Some(false) }; V::B(r != *not) }
        Node::In(x, l, not) => {
            let v = e(x)?;
            let mut r = Some(false);
            if l.is_empty() { return Ok(V::B(*not)); }
            for y in l { match cmp(d, &v, &e(y)?)? { Some(std::cmp::Ordering::Equal) => { r = Some(true); break; } None => r = None, _ => {} } }
            b(r.map(|x| x != *not))
        }
        Node::Bin(o, x, y) => {
            let (l, r) = (e(x)?, e(y)?);
            use std::cmp::Ordering::*;
            let arith = |i: &dyn Fn(i128, i128) -> Result<V, String>, f: &dyn Fn(f64, f64) -> Result<V, String>| -> Result<V, String> {
                Ok(match (&l, &r) {
                    (V::Null, V::Null) => V::Null,
                    (V::Null, z) | (z, V::Null) => if d == Dia::Pg && !matches!(z, V::I(_) | V::F(_)) { return Err(format!("{o} of {z:?}")) } else { V::Null },
                    (V::B(_), _) | (_, V::B(_)) | (V::T(_), _) | (_, V::T(_)) | (V::Ts(_), _) | (_, V::Ts(_)) if d == Dia::Pg => return Err(format!("{o} of {l:?} and {r:?}")),
                    (V::I(a), V::I(c)) => i(*a, *c)?,
                    (a, c) => match (num(a), num(c)) { (Some(a), Some(c)) => f(a, c)?, _ => return Err(format!("{o} of {l:?} and {r:?}")) },
                })
            };
            let bits = |f: &dyn Fn(i64, i64) -> i64| -> Result<V, String> {
                match (&l, &r) {
                    (V::Null, _) | (_, V::Null) => Ok(V::Null),
                    (V::I(a), V::I(c)) => { let v = f(*a as i64, *c as i64); Ok(V::I(if d == Dia::My { v as u64 as i128 } else { v as i128 })) }
                    _ => Err(format!("{o} of {l:?} and {r:?}")),
                }
            };
            let text = |f: &dyn Fn(&str, &str) -> Result<V, String>| -> Result<V, String> { match (&l, &r) { (V::Null, _) | (_, V::Null) => Ok(V::Null), (V::T(a), V::T(c)) => f(a, c), _ => Err(format!("{o} of {l:?} and {r:?}")) } };
            let re = |p: &str, ci: bool| regex::RegexBuilder::new(p).case_insensitive(ci).build().map_err(|e| e.to_string());
            match o.as_str() {
                "AND" | "&&" => { let (p, q) = (truth(d, &l)?, truth(d, &r)?); b(match (p, q) { (Some(false), _) | (_, Some(false)) => Some(false), (Some(true), Some(true)) => Some(true), _ => None }) }
                "OR" => { let (p, q) = (truth(d, &l)?, truth(d, &r)?); b(match (p, q) { (Some(true), _) | (_, Some(true)) => Some(true), (Some(false), Some(false)) => Some(false), _ => None }) }
                "||" if d == Dia::My => { let (p, q) = (truth(d, &l)?, truth(d, &r)?); b(match (p, q) { (Some(true), _) | (_, Some(true)) => Some(true), (Some(false), Some(false)) => Some(false), _ => None }) }
                "||" => text(&|a, c| Ok(V::T(format!("{a}{c}"))))?,
                "=" | "==" => b(cmp(d, &l, &r)?.map(|o| o == Equal)),
                "<>" | "!=" => b(cmp(d, &l, &r)?.map(|o| o != Equal)),
                "<" => b(cmp(d, &l, &r)?.map(|o| o == Less)), ">" => b(cmp(d, &l, &r)?.map(|o| o == Greater)),
                "<=" => b(cmp(d, &l, &r)?.map(|o| o != Greater)), ">=" => b(cmp(d, &l, &r)?.map(|o| o != Less)),
                "IS DISTINCT FROM" | "IS NOT DISTINCT FROM" => { let same = match (&l, &r) { (V::Null, V::Null) => true, (V::Null, _) | (_, V::Null) => false, _ => cmp(d, &l, &r)? == Some(Equal) }; V::B(same == (o == "IS NOT DISTINCT FROM")) }
                "+" => arith(&|a, c| a.checked_add(c).filter(|x| i64::try_from(*x).is_ok()).map(V::I).ok_or("out of range".to_string()), &|a, c| Ok(V::F(a + c)))?,
                "-" => arith(&|a, c| a.checked_sub(c).filter(|x| i64::try_from(*x).is_ok()).map(V::I).ok_or("out of range".to_string()), &|a, c| Ok(V::F(a - c)))?,
                "*" => arith(&|a, c| a.checked_mul(c).filter(|x| i64::try_from(*x).is_ok()).map(V::I).ok_or("out of range".to_string()), &|a, c| Ok(V::F(a * c)))?,
                "/" => arith(&|a, c| if c == 0 { if d == Dia::Pg { Err("division by zero".into()) } else { Ok(V::Null) } } else if d == Dia::My { Ok(V::F(a as f64 / c as f64)) } else { Ok(V::I(a / c)) },
                    &|a, c| if c == 0.0 { if d == Dia::Pg { Err("division by zero".into()) } else { Ok(V::Null) } } else { Ok(V::F(a / c)) })?,
                "DIV" => arith(&|a, c| if c == 0 { Ok(V::Null) } else { Ok(V::I(a / c)) }, &|a, c| if c == 0.0 { Ok(V::Null) } else { Ok(V::I((a / c).trunc() as i128)) })?,
                "%" => arith(&|a, c| if c == 0 { if d == Dia::Pg { Err("division by zero".into()) } else { Ok(V::Null) } } else { Ok(V::I(a % c)) },
                    &|a, c| match d { Dia::Pg => Err("no operator double precision % double precision".into()), Dia::My => Ok(if c == 0.0 { V::Null } else { V::F(a % c) }), Dia::Lite => Ok(if c as i64 == 0 { V::Null } else { V::F((a as i64 % c as i64) as f64) }) })?,
                "&" => bits(&|a, c| a & c)?, "|" => bits(&|a, c| a | c)?, "#" => bits(&|a, c| a ^ c)?,
                "^" if d == Dia::My => bits(&|a, c| a ^ c)?,
                "<<" => bits(&|a, c| a.wrapping_shl(c as u32))?, ">>" => if d == Dia::My { bits(&|a, c| (a as u64).wrapping_shr(c as u32) as i64)? } else { bits(&|a, c| a.wrapping_shr(c as u32))? },
                "~" | "RLIKE" => text(&|a, c| Ok(V::B(re(c, false)?.is_match(a))))?,
                "!~" | "NOT RLIKE" => text(&|a, c| Ok(V::B(!re(c, false)?.is_match(a))))?,
                "~*" => text(&|a, c| Ok(V::B(re(c, true)?.is_match(a))))?,
                "!~*" => text(&|a, c| Ok(V::B(!re(c, true)?.is_match(a))))?,
                "~~" => text(&|a, c| Ok(V::B(like(a, c))))?, "!~~" => text(&|a, c| Ok(V::B(!like(a, c))))?,
                "~~*" => text(&|a, c| Ok(V::B(like(&a.to_lowercase(), &c.to_lowercase()))))?, "!~~*" => text(&|a, c| Ok(V::B(!like(&a.to_lowercase(), &c.to_lowercase()))))?,
                x => return Err(format!("operator {x} not known")),
            }
        }
    })
}
