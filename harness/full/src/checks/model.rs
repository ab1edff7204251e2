//! A small SQL database to compare with: values, three-valued logic, expressions and statements
use sfv::rand::rngs::StdRng;
use sfv::rand::Rng;
use sfv::{chance, pick};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum V { Null, I(i64), F(f64), T(String), B(bool) }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum K { I, N, F, T, B }

impl K {
    pub fn sql(self) -> &'static str { match self { K::I => "BIGINT", K::N => "INT", K::F => "DOUBLE", K::T => "TEXT", K::B => "BOOLEAN" } }
    pub fn all() -> &'static [K] { &[K::I, K::I, K::N, K::F, K::T, K::T, K::B] }
}

impl V {
    pub fn show(&self) -> String {
        match self { V::Null => "NULL".into(), V::I(i) => i.to_string(), V::F(f) => format!("{f:?}"), V::T(t) => format!("T{t}"), V::B(b) => b.to_string() }
    }
    pub fn lit(&self) -> String {
        match self { V::Null => "NULL".into(), V::I(i) if *i < 0 => format!("({i})"), V::I(i) => i.to_string(), V::F(f) if *f < 0.0 => format!("(CAST('{f:?}' AS DOUBLE))"), V::F(f) => format!("CAST('{f:?}' AS DOUBLE)"), V::T(t) => format!("'{}'", t.replace('\'', "''")), V::B(b) => b.to_string() }
    }
}

pub fn value(r: &mut StdRng, k: K) -> V {
    if chance(r, 0.2) { return V::Null }
    match k {
        K::I | K::N => V::I(match r.gen_range(0..12) { 0 => 1000, 1 => -1000, 2 if k == K::I => 5_000_000_000, 3 if k == K::I => -5_000_000_000, _ => r.gen_range(-6..7) }),
        K::F => V::F(*pick(r, &[0.5, -0.5, 1.0, 2.25, -3.0, 1e10, 1e-3, 7.0])),
        K::T => V::T(pick(r, &["", "a", "A", "ab", "abc", "b", "ba", "it's", "é", "zz", "null", "%", "1", "12", "-5", "a b", "🦅"]).to_string()),
        K::B => V::B(r.gen()),
    }
}

// ---------------------------------------------------------------- expressions
#[derive(Clone, Debug)]
pub enum X {
    Lit(V, K), Col(usize, K),
    Arith(char, Box<X>, Box<X>), Neg(Box<X>), Concat(Box<X>, Box<X>), Upper(Box<X>), Coalesce(Box<X>, Box<X>), Case(Box<X>, Box<X>, Option<Box<X>>), Div(Box<X>, Box<X>), CastInt(Box<X>), CastText(Box<X>),
    Cmp(&'static str, Box<X>, Box<X>), And(Box<X>, Box<X>), Or(Box<X>, Box<X>), Not(Box<X>), IsNull(Box<X>, bool), Distinct(Box<X>, Box<X>, bool), In(Box<X>, Vec<X>, bool), Between(Box<X>, Box<X>, Box<X>, bool), Like(Box<X>, String, bool), Is(Box<X>, &'static str),
}

pub type R = Result<V, String>;

fn ord(a: &V, b: &V) -> Option<std::cmp::Ordering> {
    match (a, b) {
        (V::I(a), V::I(b)) => Some(a.cmp(b)),
        (V::F(a), V::F(b)) => a.partial_cmp(b),
        (V::I(a), V::F(b)) => (*a as f64).partial_cmp(b),
        (V::F(a), V::I(b)) => a.partial_cmp(&(*b as f64)),
        (V::T(a), V::T(b)) => Some(a.as_bytes().cmp(b.as_bytes())),
        (V::B(a), V::B(b)) => Some(a.cmp(b)),
        _ => None,
    }
}

fn like(s: &[char], p: &[char]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some('%') => (0..=s.len()).any(|i| like(&s[i..], &p[1..])),
        Some('_') => !s.is_empty() && like(&s[1..], &p[1..]),
        Some(c) => s.first() == Some(c) && like(&s[1..], &p[1..]),
    }
}

fn not(v: V) -> V { if let V::B(b) = v { V::B(!b) } else { v } }
fn and(a: V, b: V) -> V { if a == V::B(false) || b == V::B(false) { V::B(false) } else if a == V::Null || b == V::Null { V::Null } else { V::B(true) } }
fn or(a: V, b: V) -> V { not(and(not(a), not(b))) }

impl X {
    pub fn eval(&self, row: &[V]) -> R {
        Ok(match self {
            X::Lit(v, _) => v.clone(),
            X::Col(i, _) => row[*i].clone(),
            X::Arith(op, a, b) => match (a.eval(row)?, b.eval(row)?) {
                (V::I(a), V::I(b)) => V::I(match op { '+' => a.checked_add(b), '-' => a.checked_sub(b), _ => a.checked_mul(b) }.ok_or("overflow")?),
                _ => V::Null,
            },
            X::Div(a, b) => match (a.eval(row)?, b.eval(row)?) { (V::I(_), V::I(0)) => return Err("division by zero".into()), (V::I(a), V::I(b)) => V::I(a / b), _ => V::Null },
            X::Neg(a) => match a.eval(row)? { V::I(i) => V::I(-i), V::F(f) => V::F(-f), v => v },
            X::Concat(a, b) => match (a.eval(row)?, b.eval(row)?) { (V::T(a), V::T(b)) => V::T(a + &b), _ => V::Null },
            X::Upper(a) => match a.eval(row)? { V::T(t) => V::T(t.to_uppercase()), v => v },
            X::Coalesce(a, b) => { let (a, b) = (a.eval(row)?, b.eval(row)?); if a == V::Null { b } else { a } }
            X::Case(c, a, b) => if c.eval(row)? == V::B(true) { a.eval(row)? } else { match b { Some(b) => b.eval(row)?, None => V::Null } },
            X::CastInt(a) => match a.eval(row)? { V::T(t) => V::I(t.parse().map_err(|_| "cast")?), v => v },
            X::CastText(a) => match a.eval(row)? { V::I(i) => V::T(i.to_string()), V::B(b) => V::T(b.to_string()), v => v },
            X::Cmp(op, a, b) => match ord(&a.eval(row)?, &b.eval(row)?) {
                None => V::Null,
                Some(o) => V::B(match *op { "=" => o.is_eq(), "<>" => o.is_ne(), "<" => o.is_lt(), "<=" => o.is_le(), ">" => o.is_gt(), _ => o.is_ge() }),
            },
            X::And(a, b) => and(a.eval(row)?, b.eval(row)?),
            X::Or(a, b) => or(a.eval(row)?, b.eval(row)?),
            X::Not(a) => not(a.eval(row)?),
            X::IsNull(a, neg) => V::B((a.eval(row)? == V::Null) != *neg),
            X::Distinct(a, b, neg) => { let (a, b) = (a.eval(row)?, b.eval(row)?); V::B(((a == V::Null) != (b == V::Null) || (a != V::Null && ord(&a, &b).is_some_and(|o| o.is_ne()))) != *neg) }
            X::In(a, l, neg) => {
                let a = a.eval(row)?;
                let mut res = V::B(false);
                for x in l { let x = x.eval(row)?; res = or(res, match ord(&a, &x) { None => V::Null, Some(o) => V::B(o.is_eq()) }) }
                if *neg { not(res) } else { res }
            }
            X::Between(a, l, h, neg) => {
                let (a, l, h) = (a.eval(row)?, l.eval(row)?, h.eval(row)?);
                let ge = ord(&a, &l).map(|o| V::B(o.is_ge())).unwrap_or(V::Null);
                let le = ord(&a, &h).map(|o| V::B(o.is_le())).unwrap_or(V::Null);
                let b = and(ge, le);
                if *neg { not(b) } else { b }
            }
            X::Like(a, p, neg) => match a.eval(row)? { V::T(t) => V::B(like(&t.chars().collect::<Vec<_>>(), &p.chars().collect::<Vec<_>>()) != *neg), _ => V::Null },
            X::Is(a, what) => { let v = a.eval(row)?; V::B(match *what { "TRUE" => v == V::B(true), "NOT TRUE" => v != V::B(true), "FALSE" => v == V::B(false), "NOT FALSE" => v != V::B(false), "UNKNOWN" => v == V::Null, _ => v != V::Null }) }
        })
    }
    pub fn sql(&self, names: &[String]) -> String {
        let s = |x: &X| x.sql(names);
        match self {
            X::Lit(V::Null, K::B) => "CAST(NULL AS BOOLEAN)".into(),
            X::Lit(V::Null, k) => format!("CAST(NULL AS {})", k.sql()),
            X::Lit(v, _) => v.lit(),
            X::Col(i, _) => ident(&names[*i]),
            X::Arith(o, a, b) => format!("({} {o} {})", s(a), s(b)),
            X::Div(a, b) => format!("({} / {})", s(a), s(b)),
            X::Neg(a) => format!("(- {})", s(a)),
            X::Concat(a, b) => format!("({} || {})", s(a), s(b)),
            X::Upper(a) => format!("upper({})", s(a)),
            X::Coalesce(a, b) => format!("coalesce({}, {})", s(a), s(b)),
            X::Case(c, a, b) => format!("CASE WHEN {} IS TRUE THEN {}{} END", s(c), s(a), b.as_ref().map(|b| format!(" ELSE {}", s(b))).unwrap_or_default()),
            X::CastInt(a) => format!("CAST({} AS BIGINT)", s(a)),
            X::CastText(a) => format!("CAST({} AS TEXT)", s(a)),
            X::Cmp(o, a, b) => format!("({} {o} {})", s(a), s(b)),
            X::And(a, b) => format!("({} AND {})", s(a), s(b)),
            X::Or(a, b) => format!("({} OR {})", s(a), s(b)),
            X::Not(a) => format!("(NOT {})", s(a)),
            X::IsNull(a, n) => format!("({} IS {}NULL)", s(a), if *n { "NOT " } else { "" }),
            X::Distinct(a, b, n) => format!("({} IS {}DISTINCT FROM {})", s(a), if *n { "NOT " } else { "" }, s(b)),
            X::In(a, l, n) => format!("({} {}IN ({}))", s(a), if *n { "NOT " } else { "" }, l.iter().map(s).collect::<Vec<_>>().join(", ")),
            X::Between(a, l, h, n) => format!("({} {}BETWEEN {} AND {})", s(a), if *n { "NOT " } else { "" }, s(l), s(h)),
            X::Like(a, p, n) => format!("({} {}LIKE '{}')", s(a), if *n { "NOT " } else { "" }, p.replace('\'', "''")),
            X::Is(a, w) => format!("({} IS {w})", s(a)),
        }
    }
}

pub fn ident(s: &str) -> String { format!("\"{}\"", s.replace('"', "\"\"")) }

fn base(k: K) -> K { if k == K::N { K::I } else { k } }

/// an expression of the given kind that can't fail
pub fn scalar(r: &mut StdRng, kinds: &[K], k: K, depth: u32) -> X {
    let cols: Vec<usize> = (0..kinds.len()).filter(|i| base(kinds[*i]) == base(k)).collect();
    let leaf = |r: &mut StdRng| if !cols.is_empty() && chance(r, 0.75) { let i = *pick(r, &cols); X::Col(i, kinds[i]) } else { let k = if k == K::N { K::N } else { k }; X::Lit(value(r, k), k) };
    if depth == 0 || kinds.is_empty() || chance(r, 0.4) { return leaf(r) }
    let b = |x| Box::new(x);
    match base(k) {
        K::I => match r.gen_range(0..4) {
            0 | 1 => X::Arith(*pick(r, &['+', '-', '*']), b(scalar(r, kinds, k, depth - 1)), b(X::Lit(V::I(r.gen_range(0..4)), K::I))),
            2 => X::Coalesce(b(scalar(r, kinds, k, depth - 1)), b(X::Lit(V::I(r.gen_range(-4..4)), K::I))),
            _ => X::Case(b(on_column(r, kinds)), b(scalar(r, kinds, k, depth - 1)), if chance(r, 0.7) { Some(b(scalar(r, kinds, k, depth - 1))) } else { None }),
        },
        K::T => match r.gen_range(0..4) {
            0 => X::Concat(b(scalar(r, kinds, k, depth - 1)), b(scalar(r, kinds, k, depth - 1))),
            1 => X::Upper(b(scalar(r, kinds, k, depth - 1))),
            2 => X::Coalesce(b(scalar(r, kinds, k, depth - 1)), b(X::Lit(V::T("d".into()), K::T))),
            _ => X::CastText(b(scalar(r, kinds, K::I, depth - 1))),
        },
        K::B => predicate(r, kinds, depth - 1),
        _ => X::Case(b(on_column(r, kinds)), b(scalar(r, kinds, k, depth - 1)), Some(b(leaf(r)))),
    }
}

/// a condition that depends on a column, as the engine's CASE can't be used with a constant one
fn on_column(r: &mut StdRng, kinds: &[K]) -> X {
    let i = r.gen_range(0..kinds.len());
    let c = Box::new(X::Col(i, kinds[i]));
    let v = (0..9).map(|_| value(r, kinds[i])).find(|v| *v != V::Null);
    match v { Some(v) if chance(r, 0.7) => X::Cmp(*pick(r, &["=", "<", ">="]), c, Box::new(X::Lit(v, kinds[i]))), _ => X::IsNull(c, r.gen()) }
}

impl X {
    fn parts(&self) -> Vec<&X> {
        match self {
            X::Lit(..) | X::Col(..) => vec![],
            X::Neg(a) | X::Upper(a) | X::CastInt(a) | X::CastText(a) | X::Not(a) | X::IsNull(a, _) | X::Like(a, ..) | X::Is(a, _) => vec![a],
            X::Arith(_, a, b) | X::Concat(a, b) | X::Coalesce(a, b) | X::Div(a, b) | X::Cmp(_, a, b) | X::And(a, b) | X::Or(a, b) | X::Distinct(a, b, _) => vec![a, b],
            X::Between(a, b, c, _) => vec![a, b, c],
            X::Case(a, b, c) => [Some(a), Some(b), c.as_ref()].into_iter().flatten().map(|x| &**x).collect(),
            X::In(a, l, _) => std::iter::once(&**a).chain(l).collect(),
        }
    }
    fn all(&self) -> Vec<&X> { let mut o = vec![self]; for p in self.parts() { o.extend(p.all()) } o }
    /// whether both conditions may be lists of values of the same thing, of which the engine takes the intersection or union
    /// without regard to NULLs
    fn lists_with(&self, o: &X) -> bool {
        let cols = |x: &X| -> Vec<usize> { x.all().into_iter().filter(|y| matches!(y, X::In(..) | X::Cmp("=" | "<>", ..))).flat_map(|y| y.all()).filter_map(|y| match y { X::Col(i, _) => Some(*i), _ => None }).collect() };
        let has = |x: &X| (x.all().iter().any(|y| matches!(y, X::In(..))), x.all().iter().any(|y| matches!(y, X::And(..) | X::Or(..))));
        let (a, b) = (has(self), has(o));
        (a.0 || b.0 || (a.1 && b.1)) && cols(self).iter().any(|c| cols(o).contains(c))
    }
}

pub fn predicate(r: &mut StdRng, kinds: &[K], depth: u32) -> X {
    let b = |x| Box::new(x);
    if depth > 0 && chance(r, 0.45) {
        let kind = r.gen_range(0..7);
        if kind < 4 {
            let l = predicate(r, kinds, depth - 1);
            let Some(o) = (0..5).map(|_| predicate(r, kinds, depth - 1)).find(|o| !l.lists_with(o)) else { return l };
            return if kind < 2 { X::And(b(l), b(o)) } else { X::Or(b(l), b(o)) };
        }
        return match kind {
            4 | 5 => X::Not(b(predicate(r, kinds, depth - 1))),
            _ => X::Is(b(predicate(r, kinds, depth - 1)), *pick(r, &["TRUE", "NOT TRUE", "FALSE", "NOT FALSE", "UNKNOWN", "NOT UNKNOWN"])),
        };
    }
    let k = if chance(r, 0.97) && !kinds.is_empty() { *pick(r, kinds) } else { K::I };
    let d = depth.min(1);
    let ops = ["=", "<>", "<", "<=", ">", ">="];
    match r.gen_range(0..12) {
        0..=4 => { let a = scalar(r, kinds, k, d); let c = if chance(r, 0.8) { X::Lit(value(r, k), k) } else { scalar(r, kinds, k, d) }; if chance(r, 0.85) { X::Cmp(*pick(r, &ops), b(a), b(c)) } else { X::Cmp(*pick(r, &ops), b(c), b(a)) } }
        5 => X::IsNull(b(scalar(r, kinds, k, d)), r.gen()),
        6 => X::In(b(scalar(r, kinds, k, d)), (0..r.gen_range(1..6)).map(|_| X::Lit(value(r, k), k)).collect(), r.gen()),
        7 => X::Between(b(scalar(r, kinds, k, d)), b(X::Lit(value(r, k), k)), b(X::Lit(value(r, k), k)), r.gen()),
        8 => { let a = scalar(r, kinds, K::T, d); X::Like(b(a), pick(r, &["%", "a%", "%b", "_", "%'%", "ab_", "", "é%", "%a%b%"]).to_string(), r.gen()) }
        9 => X::Distinct(b(scalar(r, kinds, k, d)), b(X::Lit(value(r, k), k)), r.gen()),
        10 => { let l = V::B(r.gen()); if chance(r, 0.3) { X::Lit(V::Null, K::B) } else { X::Lit(l, K::B) } }
        _ => if let Some(i) = kinds.iter().position(|k| *k == K::B) { X::Col(i, K::B) } else { X::Cmp("=", b(X::Lit(V::I(1), K::I)), b(X::Lit(V::I(r.gen_range(1..3)), K::I))) },
    }
}

// ---------------------------------------------------------------- tables
#[derive(Clone, Debug, PartialEq)]
pub struct Table { pub names: Vec<String>, pub kinds: Vec<K>, pub rows: Vec<Vec<V>> }

pub fn fit(v: V, k: K) -> R {
    match (v, k) {
        (V::I(i), K::N) if i32::try_from(i).is_err() => Err("out of range".into()),
        (V::I(i), K::F) => Ok(V::F(i as f64)),
        (v, _) => Ok(v),
    }
}

impl Table {
    pub fn shown(&self) -> Vec<Vec<String>> {
        let mut o: Vec<Vec<String>> = self.rows.iter().map(|r| r.iter().map(|v| v.show()).collect()).collect();
        o.sort();
        o
    }
    pub fn update(&mut self, set: &[(usize, X)], cond: Option<&X>) -> Result<usize, String> {
        let mut out = vec![];
        let mut n = 0;
        for row in &self.rows {
            if match cond { Some(c) => c.eval(row)? == V::B(true), None => true } {
                n += 1;
                let mut new = row.clone();
                for (i, x) in set { new[*i] = fit(x.eval(row)?, self.kinds[*i])? }
                out.push(new);
            } else { out.push(row.clone()) }
        }
        self.rows = out;
        Ok(n)
    }
    pub fn delete(&mut self, cond: Option<&X>) -> Result<usize, String> {
        let mut out = vec![];
        for row in &self.rows { if !match cond { Some(c) => c.eval(row)? == V::B(true), None => true } { out.push(row.clone()) } }
        let n = self.rows.len() - out.len();
        self.rows = out;
        Ok(n)
    }
}

pub type Name = (String, String);
pub fn full(n: &Name) -> String { format!("{}.{}", ident(&n.0), ident(&n.1)) }
pub type Db = BTreeMap<Name, Table>;
