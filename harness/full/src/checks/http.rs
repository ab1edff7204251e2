//! C40, C42, C43, C44, C45: the HTTP interface
use crate::sf::{self, Sf};
use seafowl::auth::{can_perform_action, token_to_principal, AccessPolicy, Action, Principal, Resource, UserContext};
use seafowl::config::schema::{str_to_hex_hash, AccessSettings, HttpFrontend};
use seafowl::frontend::http::filters;
use seafowl::frontend::http_utils::ApiError;
use sfv::rand::rngs::StdRng;
use sfv::rand::Rng;
use sfv::{chance, pick, Ctx};
use sha2::{Digest, Sha256};
use std::sync::Arc;
use warp::hyper::{Body, Response};
use warp::{Filter, Reply};

fn sha(s: &[u8]) -> String {
    hex::encode(Sha256::digest(s))
}

pub type Routes = Arc<dyn Fn(warp::test::RequestBuilder) -> futures::future::BoxFuture<'static, warp::http::Response<bytes::Bytes>> + Send + Sync>;

/// the whole of the HTTP interface of a context
pub fn routes(ctx: &Arc<seafowl::context::SeafowlContext>, cfg: HttpFrontend) -> Routes {
    let f = filters(ctx.clone(), cfg);
    Arc::new(move |q| {
        let f = f.clone();
        Box::pin(async move { q.reply(&f).await })
    })
}

#[derive(Debug, Clone)]
pub struct Answer {
    pub status: u16,
    pub headers: warp::http::HeaderMap,
    pub body: Vec<u8>,
}
impl Answer {
    pub fn text(&self) -> String {
        String::from_utf8_lossy(&self.body).into_owned()
    }
    pub fn header(&self, n: &str) -> Option<String> {
        self.headers.get(n).and_then(|v| v.to_str().ok()).map(|s| s.to_string())
    }
}

/// Err when the handler panicked or never answered
pub async fn ask(r: &Routes, method: &str, path: &str, headers: &[(&str, &str)], body: Vec<u8>) -> Result<Answer, String> {
    use futures::FutureExt;
    let mut q = warp::test::request().method(method).path(path);
    for (k, v) in headers {
        q = q.header(*k, *v);
    }
    q = q.header("content-length", body.len()).body(body);
    match tokio::time::timeout(std::time::Duration::from_secs(60), std::panic::AssertUnwindSafe(r(q)).catch_unwind()).await {
        Ok(Ok(a)) => Ok(Answer { status: a.status().as_u16(), headers: a.headers().clone(), body: a.body().to_vec() }),
        Ok(Err(p)) => Err(format!("panic: {} / {}", sfv::panic_text(p), sfv::last_panic_any())),
        Err(_) => Err("no answer in 60 s".into()),
    }
}

pub async fn post(r: &Routes, path: &str, sql: &str, headers: &[(&str, &str)]) -> Result<Answer, String> {
    let mut h = vec![("content-type", "application/json")];
    h.extend_from_slice(headers);
    ask(r, "POST", path, &h, serde_json::json!({ "query": sql }).to_string().into_bytes()).await
}

pub async fn get(r: &Routes, path: &str, sql: &str, headers: &[(&str, &str)]) -> Result<Answer, String> {
    let enc = percent(sql);
    let mut h = vec![("x-seafowl-query", enc.as_str())];
    h.extend_from_slice(headers);
    ask(r, "GET", &format!("{path}/{}", sha(sql.as_bytes())), &h, vec![]).await
}

pub fn percent(s: &str) -> String {
    s.bytes().map(|b| if b.is_ascii_alphanumeric() { (b as char).to_string() } else { format!("%{b:02X}") }).collect()
}

pub fn multipart(parts: &[(&str, Option<&str>, &[u8])]) -> (String, Vec<u8>) {
    let b = "XyZ0123456789boundary";
    let mut body = vec![];
    for (name, file, data) in parts {
        body.extend_from_slice(format!("--{b}\r\nContent-Disposition: form-data; name=\"{name}\"").as_bytes());
        if let Some(f) = file {
            body.extend_from_slice(format!("; filename=\"{f}\"\r\nContent-Type: application/octet-stream").as_bytes());
        }
        body.extend_from_slice(b"\r\n\r\n");
        body.extend_from_slice(data);
        body.extend_from_slice(b"\r\n");
    }
    body.extend_from_slice(format!("--{b}--\r\n").as_bytes());
    (format!("multipart/form-data; boundary={b}"), body)
}

// ------------------------------------------------------------------------------------------ C40

#[derive(Clone, Debug, PartialEq, Hash)]
enum Setting { Any, Off, Pw(String) }
impl Setting {
    fn real(&self) -> AccessSettings {
        // as a configuration file would give it
        let text = match self { Setting::Any => "any".to_string(), Setting::Off => "off".into(), Setting::Pw(p) => sha(p.as_bytes()) };
        serde_json::from_value(serde_json::Value::String(text)).unwrap()
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Verdict { Unauthorized, Useless, As { read: bool, write: bool } }

/// what the settings say
fn verdict(read: &Setting, write: &Setting, token: Option<&str>) -> Verdict {
    let anyone = (*read == Setting::Any, *write == Setting::Any);
    match token {
        None if !anyone.0 && !anyone.1 => Verdict::Unauthorized,
        None => Verdict::As { read: anyone.0, write: anyone.1 },
        Some(t) => {
            let (r, w) = (matches!(read, Setting::Pw(p) if p == t), matches!(write, Setting::Pw(p) if p == t));
            if !matches!(read, Setting::Pw(_)) && !matches!(write, Setting::Pw(_)) {
                Verdict::Useless
            } else if w {
                Verdict::As { read: true, write: true }
            } else if r {
                Verdict::As { read: true, write: anyone.1 }
            } else {
                Verdict::Unauthorized
            }
        }
    }
}

const PASSWORDS: &[&str] = &["hunter2", "", "Bearer ", "Bearer hunter2", "any", "off", "pass word", " lead", "trail ", "f52fbd32b2b3b86ff88ef6c490628285f482af15ddcb29541f94bcf526a3f6c7", "ÄÖ", "x"];

pub fn c40(ctx: &Ctx) {
    ctx.rule("one evaluation = one decision (function level) or one HTTP request (end to end) compared with the table of what the settings grant; distinct by (read setting, write setting, credential, request kind)");
    let mut r = ctx.rng("direct");
    for _ in 0..ctx.n(4000, 60000) {
        let set = |r: &mut StdRng| match r.gen_range(0..4) { 0 => Setting::Any, 1 => Setting::Off, _ => Setting::Pw(pick(r, PASSWORDS).to_string()) };
        let (read, write) = (set(&mut r), set(&mut r));
        let token = credential(&mut r, &read, &write);
        let policy = AccessPolicy { read: read.real(), write: write.real() };
        let want = verdict(&read, &write, token.as_deref());
        let got = match sfv::guarded(|| token_to_principal(token.clone(), &policy)) {
            Err(p) => { ctx.violation("auth-panic", format!("{read:?} {write:?} {token:?}: {p}")); continue }
            Ok(Err(ApiError::UselessAccessToken)) => Verdict::Useless,
            Ok(Err(ApiError::NeedAccessToken)) if token.is_none() => Verdict::Unauthorized,
            Ok(Err(ApiError::WrongAccessToken)) if token.is_some() => Verdict::Unauthorized,
            Ok(Err(e)) => { ctx.violation("auth-odd-error", format!("{read:?} {write:?} {token:?}: {e:?}")); continue }
            Ok(Ok(p)) => {
                let u = UserContext { principal: p.clone(), policy: policy.clone() };
                let a = (u.can_perform_action(Action::Read), u.can_perform_action(Action::Write));
                let b = (can_perform_action(&p, Action::Read, Resource::Database, &policy), can_perform_action(&p, Action::Write, Resource::Database, &policy));
                ctx.check(a == b, "auth-two-answers", || format!("{a:?} {b:?}"));
                Verdict::As { read: a.0, write: a.1 }
            }
        };
        ctx.check(got == want, "auth-decision", || format!("read {read:?} write {write:?} token {token:?}: {got:?}, the settings say {want:?}"));
        ctx.eval(&(&read, &write, &token), true);
        ctx.count("decisions", 1);
    }
    super::rt(4).block_on(c40_http(ctx));
}

fn credential(r: &mut StdRng, read: &Setting, write: &Setting) -> Option<String> {
    let of = |s: &Setting| if let Setting::Pw(p) = s { Some(p.clone()) } else { None };
    match r.gen_range(0..9) {
        0 => None,
        1 | 2 => of(read).or(Some("guess".into())),
        3 | 4 => of(write).or(Some("guess".into())),
        5 => of(write).or(of(read)).map(|p| sha(p.as_bytes())), // the hash is not the password
        6 => of(write).or(of(read)).map(|p| match r.gen_range(0..5) { 0 => format!("{p} "), 1 => format!(" {p}"), 2 => p.to_uppercase() + "q", 3 => p.chars().skip(1).collect::<String>() + "z", _ => format!("{p}{p}!") }),
        _ => Some(pick(r, PASSWORDS).to_string()),
    }
}

async fn c40_http(ctx: &Ctx) {
    let s = Sf::memory("").await;
    s.sql("CREATE TABLE secret (a INT)").await.unwrap();
    s.sql("INSERT INTO secret VALUES (4711)").await.unwrap();
    let mut r = ctx.rng("http");
    let mut made = 0u64;
    for i in 0..ctx.n(120, 800) {
        if ctx.out_of_time() { break }
        let set = |r: &mut StdRng| match r.gen_range(0..4) { 0 => Setting::Any, 1 => Setting::Off, _ => Setting::Pw(pick(r, PASSWORDS).to_string()) };
        let (read, write) = (set(&mut r), set(&mut r));
        let cfg = HttpFrontend { read_access: read.real(), write_access: write.real(), ..Default::default() };
        let rts = routes(&s.ctx, cfg);
        for _ in 0..14 {
            // the header as sent, and the credential it presents (None: no header; Err: not a credential)
            let (header, token): (Option<String>, Result<Option<String>, ()>) = match r.gen_range(0..10) {
                0 | 1 => (None, Ok(None)),
                2 => {
                    let h = pick(&mut r, &["hunter2", "Basic aHVudGVyMjo=", "bearer hunter2", "Bearer", "Bearerhunter2", "BEARER hunter2", "", "Token x"]).to_string();
                    (Some(h), Err(()))
                }
                _ => {
                    let t = credential(&mut r, &read, &write).unwrap_or("nothing".into());
                    if !t.is_ascii() || t.ends_with(' ') || t.is_empty() { continue }
                    (Some(format!("Bearer {t}")), Ok(Some(t)))
                }
            };
            let mut h: Vec<(&str, &str)> = vec![];
            if let Some(x) = &header { h.push(("authorization", x)); }
            let what = r.gen_range(0..6);
            made += 1;
            let name = format!("t_{i}_{made}");
            let (kind, ans) = match what {
                0 => ("get", get(&rts, "/q", "SELECT a FROM secret", &h).await),
                1 => ("post-read", post(&rts, "/q", "SELECT a FROM secret", &h).await),
                2 => ("post-write", post(&rts, "/q", &format!("CREATE TABLE {name} (x INT)"), &h).await),
                3 => ("post-both", post(&rts, "/q", &format!("CREATE TABLE {name} (x INT); SELECT a FROM secret"), &h).await),
                4 => {
                    let (ct, body) = multipart(&[("data", Some("x.csv"), b"x\n1\n")]);
                    let mut h2 = h.clone();
                    h2.push(("content-type", &ct));
                    ("upload", ask(&rts, "POST", &format!("/upload/public/{name}"), &h2, body).await)
                }
                _ => ("get-raw", ask(&rts, "GET", &format!("/q/{}", percent("SELECT a FROM secret")), &h, vec![]).await),
            };
            let ans = match ans { Ok(a) => a, Err(e) => { ctx.violation("http-panic", format!("{kind} {read:?} {write:?} {header:?}: {e}")); continue } };
            let v = match &token { Err(()) => Verdict::Unauthorized, Ok(t) => verdict(&read, &write, t.as_deref()) };
            let (needs_read, needs_write) = match kind { "get" | "get-raw" | "post-read" => (true, false), "post-both" => (true, true), _ => (false, true) };
            let want: u16 = match v {
                Verdict::Unauthorized => 401,
                Verdict::Useless => 400,
                Verdict::As { .. } if kind.starts_with("get") && read == Setting::Off => 405,
                Verdict::As { read, write } => if (needs_read && !read) || (needs_write && !write) { 403 } else { 200 },
            };
            let shown = ans.text().contains("4711");
            let exists = matches!(kind, "post-write" | "post-both" | "upload") && s.sql(&format!("SELECT * FROM {name}")).await.is_ok();
            let desc = || format!("{kind} with read={read:?} write={write:?} header={header:?}: {} {:?} (expected {want}), secret shown: {shown}, table made: {exists}", ans.status, ans.text());
            ctx.check(ans.status == want, &format!("auth-http-{kind}-{want}-{}", ans.status), desc);
            ctx.check(shown == (want == 200 && needs_read) && exists == (want == 200 && needs_write), &format!("auth-http-effect-{kind}"), desc);
            ctx.eval(&(&read, &write, &header, kind), true);
            ctx.seen("http_outcomes", &(kind, want));
            ctx.count("http_requests", 1);
            ctx.sample(serde_json::json!({"read": format!("{read:?}"), "write": format!("{write:?}"), "header": header, "kind": kind, "status": ans.status}));
        }
    }
}
