//! C32: the HTTP object store
use super::mock::{Answer, Mock, Req};
use crate::sf::Sf;
use bytes::Bytes;
use futures::{FutureExt, TryStreamExt};
use object_store::path::Path;
use object_store::{Error, GetOptions, GetRange, ObjectStore, PutMode, PutMultipartOpts};
use seafowl::object_store::http::HttpObjectStore;
use sfv::rand::rngs::StdRng;
use sfv::rand::Rng;
use sfv::{chance, pick, Ctx};
use std::ops::Range;
use std::panic::AssertUnwindSafe;
use std::sync::{Arc, Mutex};

#[derive(Debug, Clone, PartialEq)]
enum Fault {
    None,
    Missing,
    Status(u16),
    /// the connection closes this many bytes early
    Cut(usize),
    /// a shorter body, honest in Content-Length, under the headers of the whole
    Short(usize),
    /// a different range than the one asked for, honest about it
    Moved(isize, isize),
    Header(&'static str, &'static [u8]),
    NoHeader(&'static str),
    Chunked,
    Garbage,
    Close,
}
#[derive(Debug, Clone, Copy, PartialEq)]
enum Head { Fine, Refused(u16) }

#[derive(Debug, Clone)]
struct Site {
    path: String,
    body: Vec<u8>,
    head: Head,
    ranges: bool,
    etag: Option<String>,
    modified: bool,
    fault: Fault,
}
const WHEN: &str = "Wed, 21 Oct 2015 07:28:00 GMT";

impl Site {
    fn answer(&self, q: &Req) -> Vec<u8> {
        let head = q.method == "HEAD";
        let plain = |c: u16| { let mut a = Answer::new(c, b"some words about it"); a.head = head; a };
        let mut a = if q.target != self.path || self.fault == Fault::Missing { plain(if head { if let Head::Refused(403) = self.head { 403 } else { 404 } } else { 404 }) }
        else if head {
            match self.head {
                Head::Refused(c) => plain(c),
                Head::Fine => { let mut a = Answer::new(200, &self.body); a.head = true; if self.ranges { a.set("Accept-Ranges", b"bytes") } a }
            }
        } else if q.method != "GET" { plain(405) }
        else if q.h("if-none-match").is_some_and(|t| Some(t) == self.etag.as_deref()) || (q.h("if-none-match").is_none() && self.modified && q.h("if-modified-since") == Some(WHEN)) { Answer::new(304, b"") }
        else if q.h("if-match").is_some_and(|t| Some(t) != self.etag.as_deref()) { plain(412) }
        else {
            match q.h("range").filter(|_| self.ranges) {
                None => Answer::new(200, &self.body),
                Some(r) => match range(r, self.body.len()) {
                    None => plain(416).with("Content-Range", format!("bytes */{}", self.body.len())),
                    Some(mut r) => {
                        if let Fault::Moved(a, b) = self.fault {
                            let n = self.body.len() as isize;
                            let s = (r.start as isize + a).clamp(0, n - 1);
                            let e = (r.end as isize + b).clamp(s + 1, n);
                            r = s as usize..e as usize;
                        }
                        Answer::new(206, &self.body[r.clone()]).with("Content-Range", format!("bytes {}-{}/{}", r.start, r.end - 1, self.body.len()))
                    }
                },
            }
        };
        if let Some(t) = &self.etag { a.set("ETag", t.as_bytes()) }
        if self.modified { a.set("Last-Modified", WHEN.as_bytes()) }
        if !(200..300).contains(&a.status) { return a.bytes() }
        match &self.fault {
            Fault::None | Fault::Missing | Fault::Moved(..) => {}
            Fault::Status(c) => a.status = *c,
            Fault::Cut(n) => a.sent = a.body.len().saturating_sub(*n),
            // (nothing in a reply with all of an object tells that it isn't all)
            Fault::Short(n) => if a.status == 206 { let k = a.body.len().saturating_sub(*n); a.body.truncate(k) },
            Fault::Header(k, v) => a.set(k, v),
            Fault::NoHeader(k) => { a.headers.retain(|(x, _)| !x.eq_ignore_ascii_case(k)); if k.eq_ignore_ascii_case("content-length") { a.length = false } }
            Fault::Chunked => {
                a.length = false;
                a.set("Transfer-Encoding", b"chunked");
                if !head { let mut b = format!("{:x}\r\n", a.body.len()).into_bytes(); b.extend_from_slice(&a.body); b.extend_from_slice(b"\r\n0\r\n\r\n"); if a.body.is_empty() { b = b"0\r\n\r\n".to_vec() } a.body = b }
            }
            Fault::Garbage => return b"\x00\x01nothing of the kind\r\n\r\n".to_vec(),
            Fault::Close => return vec![],
        }
        a.bytes()
    }
}

pub fn range(s: &str, n: usize) -> Option<Range<usize>> {
    let (a, b) = s.strip_prefix("bytes=")?.split_once('-')?;
    let r = if a.is_empty() { let k: usize = b.parse().ok()?; n.saturating_sub(k)..n } else {
        let a: usize = a.parse().ok()?;
        a..if b.is_empty() { n } else { b.parse::<usize>().ok()?.checked_add(1)?.min(n) }
    };
    (r.start < r.end).then_some(r)
}

fn fault(r: &mut StdRng) -> Fault {
    match r.gen_range(0..9) {
        0 | 1 => Fault::Status(*pick(r, &[200, 201, 203, 204, 205, 206, 300, 302, 304, 400, 401, 404, 410, 416, 429, 500, 503])),
        2 => Fault::Cut(*pick(r, &[1, 5, 100, 100_000])),
        3 => Fault::Short(*pick(r, &[1, 3, 50])),
        4 => Fault::Moved(*pick(r, &[0, 1, -1, 7, -100]), *pick(r, &[0, 1, -1, 9, -9])),
        5 => Fault::NoHeader(*pick(r, &["Content-Length", "Content-Range", "Accept-Ranges"])),
        6 | 7 => {
            let (k, v): (&str, &[u8]) = *pick(r, &[
                ("Content-Range", b"" as &[u8]), ("Content-Range", b"bytes 0-0"), ("Content-Range", b"bytes 0-0/"), ("Content-Range", b"bytes 0-0/*"), ("Content-Range", b"bytes */5"),
                ("Content-Range", b"items 0-0/5"), ("Content-Range", b"bytes 0-18446744073709551615/18446744073709551615"), ("Content-Range", b"bytes 0-99999999999999999999999/5"),
                ("Content-Range", b"bytes 9-3/20"), ("Content-Range", b"bytes -1-3/20"), ("Content-Range", b"\xff\xfe"), ("Content-Range", b"bytes 0-0 77"), ("Content-Range", b"bytes 0-0/5x"), ("Content-Range", b"bytes 1000-2000/99999"),
                ("Content-Length", b"-1"), ("Content-Length", b"abc"), ("Content-Length", b"99999999999999999999999"), ("Content-Length", b"1.5"),
                ("Last-Modified", b"yesterday"), ("Last-Modified", b"\xff"), ("ETag", b"\xff\xfe"),
                ("Accept-Ranges", b"none"), ("Accept-Ranges", b"\xff"), ("Accept-Ranges", b"lines"),
            ]);
            Fault::Header(k, v)
        }
        _ => pick(r, &[Fault::Chunked, Fault::Garbage, Fault::Close]).clone(),
    }
}

/// a panic becomes an error of its own
async fn caught<T>(f: impl std::future::Future<Output = object_store::Result<T>>) -> Result<object_store::Result<T>, String> {
    match tokio::time::timeout(std::time::Duration::from_secs(30), AssertUnwindSafe(f).catch_unwind()).await {
        Ok(Ok(r)) => Ok(r),
        Ok(Err(p)) => Err(format!("panic: {} / {}", sfv::panic_text(p), sfv::last_panic_any())),
        Err(_) => Err("no answer in 30 s".into()),
    }
}

async fn store_round(ctx: &Ctx, r: &mut StdRng, m: &Mock, k: usize) {
    let body: Vec<u8> = { let n = *pick(r, &[0, 1, 2, 10, 100, 1000, 5000]); let n = if n > 5 { r.gen_range(n / 2..=n) } else { n }; (0..n).map(|_| r.gen()).collect() };
    let path = format!("/{k}/{}", pick(r, &["f.parquet", "some/dir/f", "x", "f?a=b&c=d"]));
    let mut s = Site {
        path: path.clone(), body, ranges: chance(r, 0.85), etag: chance(r, 0.6).then(|| "\"v1\"".to_string()), modified: chance(r, 0.6),
        head: if chance(r, 0.6) { Head::Fine } else { Head::Refused(*pick(r, &[403, 403, 403, 401, 404, 405, 500])) },
        fault: Fault::None,
    };
    let n = s.body.len();
    // a Path with special characters is what DataFusion makes of a URL
    let loc = Path::parse(format!("{}{path}", m.host())).unwrap();
    let store = HttpObjectStore::new("http".into(), &None);
    for _ in 0..8 {
        s.fault = if chance(r, 0.35) { Fault::None } else if chance(r, 0.08) { Fault::Missing } else { fault(r) };
        let site = Arc::new(s.clone());
        { let site = site.clone(); m.serve(Arc::new(move |q| site.answer(q))) }
        let op = r.gen_range(0..7);
        let a = r.gen_range(0..n + 3);
        let b = if chance(r, 0.1) { a } else { r.gen_range(a..n + 20) + 1 };
        let (ok, gone) = (s.fault == Fault::None, s.fault == Fault::Missing);
        m.taken();
        let what = || format!("object of {n} bytes, HEAD {:?}, ranges {}, fault {:?}; requests {:?}", s.head, s.ranges, s.fault, m.log.lock().unwrap().iter().map(|q| (&q.method, &q.target, q.h("range").map(String::from))).collect::<Vec<_>>());
        let bad = |sig: &str, d: String| ctx.violation(&format!("{sig}/{}", if ok { "sound" } else { "faulty" }), format!("{d}; {}", what()));
        let missing = |e: &Error, sig: &str| { if gone { ctx.check(matches!(e, Error::NotFound { .. }), &format!("{sig}/notfound"), || format!("{e:?}; {}", what())); } };
        let key = (op, n == 0, a >= n, b > n, b == a, s.head == Head::Fine, s.ranges, format!("{:?}", s.fault));
        match op {
            0 | 1 => {
                let res = if op == 0 { caught(store.head(&loc)).await } else {
                    caught(async { let v: Vec<_> = store.list(Some(&loc)).try_collect().await?; if v.len() != 1 { panic!("{} objects listed", v.len()) } Ok(v[0].clone()) }).await
                };
                ctx.eval(&key, true);
                match res {
                    Err(e) => bad("head/panic", e),
                    Ok(Ok(meta)) => {
                        // only a reply that says something else about the size can be believed wrongly
                        if gone || meta.size != n || meta.location != loc { bad("head", format!("gave {meta:?}")) }
                    }
                    Ok(Err(e)) => {
                        if ok && (s.head == Head::Fine && s.ranges || s.head == Head::Refused(403) && s.ranges && n > 0) { bad("head/refused", format!("{e:?}")) }
                        if s.head == Head::Fine || s.head == Head::Refused(403) { missing(&e, "head") }
                    }
                }
            }
            2 | 3 => {
                let opts = if op == 2 { GetOptions::default() } else {
                    GetOptions { range: Some(match r.gen_range(0..4) { 0 => GetRange::Offset(a), 1 => GetRange::Suffix(b), _ => GetRange::Bounded(a..b) }), ..Default::default() }
                };
                let want = match &opts.range { None => 0..n, Some(GetRange::Bounded(r)) => r.start.min(n)..r.end.min(n), Some(GetRange::Offset(o)) => (*o).min(n)..n, Some(GetRange::Suffix(k)) => n.saturating_sub(*k)..n };
                let asked = format!("{:?}", opts.range);
                let res = caught(async { let g = store.get_opts(&loc, opts.clone()).await?; let (r, m) = (g.range.clone(), g.meta.clone()); Ok((r, m, g.bytes().await?)) }).await;
                ctx.eval(&(&key, opts.range.as_ref().map(std::mem::discriminant)), true);
                match res {
                    Err(e) => bad("get/panic", format!("{asked}: {e}")),
                    Ok(Ok((range, meta, bytes))) => {
                        if gone || bytes != s.body[want.clone()] || range != want || meta.size != n { bad("get", format!("{asked}: {} bytes, range {range:?}, size {}; expected {want:?}, data {}", bytes.len(), meta.size, if bytes == s.body[want.clone()] { "right" } else { "wrong" })) }
                        if ok { ctx.check(meta.e_tag == s.etag && (!s.modified || meta.last_modified.to_rfc2822().contains("21 Oct 2015 07:28:00")), "get/meta", || format!("{meta:?}; {}", what())); }
                    }
                    Ok(Err(e)) => {
                        if ok && (opts.range.is_none() || s.ranges && !want.is_empty()) { bad("get/refused", format!("{asked}: {e:?}")) }
                        missing(&e, "get");
                    }
                }
            }
            4 | 5 => {
                let rs = if op == 4 { vec![a..b] } else { (0..r.gen_range(1..4)).map(|_| { let a = r.gen_range(0..n + 1); a..r.gen_range(a..n + 5) + 1 }).collect() };
                let res = if op == 4 { caught(store.get_range(&loc, a..b)).await.map(|r| r.map(|b| vec![b])) } else { caught(store.get_ranges(&loc, &rs)).await };
                ctx.eval(&key, true);
                match res {
                    Err(e) => bad("range/panic", format!("{rs:?}: {e}")),
                    Ok(Ok(v)) => for (x, q) in v.iter().zip(&rs) {
                        let want = &s.body[q.start.min(n)..q.end.min(n)];
                        if gone && !q.is_empty() || x != want { bad("range", format!("{rs:?}: {} bytes for {q:?}, expected {}", x.len(), want.len())) }
                    },
                    Ok(Err(e)) => {
                        if ok && s.ranges && rs.iter().all(|q| q.start < n && q.start < q.end) { bad("range/refused", format!("{rs:?}: {e:?}")) }
                        missing(&e, "range");
                    }
                }
            }
            _ => {
                let some = WHEN.parse::<chrono::DateTime<chrono::Utc>>().ok().or_else(|| chrono::DateTime::parse_from_rfc2822(WHEN).ok().map(|d| d.into()));
                let (opts, answers) = match r.gen_range(0..4) {
                    0 => (GetOptions { if_none_match: Some("\"v1\"".into()), ..Default::default() }, s.etag.is_none()),
                    1 => (GetOptions { if_match: Some("\"v1\"".into()), ..Default::default() }, s.etag.is_some()),
                    2 => (GetOptions { if_match: Some("\"v2\"".into()), ..Default::default() }, false),
                    _ => (GetOptions { if_modified_since: some, ..Default::default() }, !s.modified),
                };
                let res = caught(async { store.get_opts(&loc, opts.clone()).await?.bytes().await }).await;
                ctx.eval(&(&key, format!("{opts:?}")), true);
                match res {
                    Err(e) => bad("cond/panic", e),
                    Ok(Ok(b)) => if !answers || b != s.body || gone { bad("cond", format!("{opts:?}: {} bytes", b.len())) },
                    Ok(Err(e)) => { if ok && answers { bad("cond/refused", format!("{opts:?}: {e:?}")) } missing(&e, "cond") }
                }
            }
        }
        ctx.count("requests_seen", m.taken().len() as u64);
        ctx.seen("faults", &format!("{:?}", s.fault));
    }
    // nothing can be written, and nothing listed
    s.fault = Fault::None;
    let site = Arc::new(s.clone());
    m.serve(Arc::new(move |q| site.answer(q)));
    m.taken();
    let other = Path::parse(format!("{}/other", m.host())).unwrap();
    let mut res: Vec<(&str, bool)> = vec![];
    macro_rules! refused { ($n:expr, $f:expr) => { match AssertUnwindSafe($f).catch_unwind().await { Ok(x) => res.push(($n, x.is_err())), Err(_) => res.push(($n, false)) } } }
    refused!("put", store.put(&loc, Bytes::from_static(b"x").into()));
    refused!("put create", store.put_opts(&loc, Bytes::from_static(b"x").into(), PutMode::Create.into()));
    refused!("put_multipart", store.put_multipart(&loc));
    refused!("put_multipart_opts", store.put_multipart_opts(&loc, PutMultipartOpts::default()));
    refused!("delete", store.delete(&loc));
    refused!("copy", store.copy(&loc, &other));
    refused!("copy_if_not_exists", store.copy_if_not_exists(&loc, &other));
    refused!("rename", store.rename(&loc, &other));
    refused!("rename_if_not_exists", store.rename_if_not_exists(&loc, &other));
    refused!("list", store.list(None).try_collect::<Vec<_>>());
    refused!("list_with_delimiter", store.list_with_delimiter(Some(&loc)));
    ctx.eval(&"refused", true);
    for (w, r) in res { ctx.check(r, "refused", || format!("{w} was not refused")); }
    for q in m.taken() { ctx.check(q.method == "GET" || q.method == "HEAD", "refused/sent", || format!("{} {}", q.method, q.target)); }
    let shown = sfv::guarded(|| (format!("{store}"), format!("{store:?}")));
    ctx.check(shown.is_ok(), "display", || format!("{shown:?}"));
}

/// external tables over HTTP
async fn tables(ctx: &Ctx, r: &mut StdRng, m: &Mock, sf: &Sf, k: usize) {
    let n = *pick(r, &[0usize, 1, 3, 200, 3000]);
    let rows: Vec<(i64, String)> = (0..n).map(|i| (r.gen_range(-1000..1000), format!("v{i}"))).collect();
    let (fmt, body) = if chance(r, 0.5) {
        let mut s = String::from("a,b\n");
        for (a, b) in &rows { s += &format!("{a},{b}\n") }
        ("CSV", s.into_bytes())
    } else {
        use arrow::array::{ArrayRef, Int64Array, StringArray};
        let b = arrow::record_batch::RecordBatch::try_from_iter([("a", Arc::new(Int64Array::from_iter_values(rows.iter().map(|x| x.0))) as ArrayRef), ("b", Arc::new(StringArray::from_iter_values(rows.iter().map(|x| &x.1))) as ArrayRef)]).unwrap();
        let mut out = vec![];
        let mut w = parquet::arrow::ArrowWriter::try_new(&mut out, b.schema(), None).unwrap();
        w.write(&b).unwrap();
        w.close().unwrap();
        ("PARQUET", out)
    };
    if fmt == "CSV" && n == 0 { return }
    let name = pick(r, &["f", "a%20b", "a%2Fb", "50%25", "é", "x+y", "q%3Fz", "a.b", "~t", "p%23q"]);
    let query = pick(r, &["", "?k=v", "?sig=a%2Bb%2F%26&x=1", "?a=b=c&d", "?u=%C3%A9"]);
    let url = url::Url::parse(&format!("http://{}/{k}/{name}.{}{query}", m.host(), fmt.to_lowercase())).unwrap();
    let target = url[url::Position::BeforePath..].to_string();
    let mut s = Site { path: target.clone(), body, head: if chance(r, 0.7) { Head::Fine } else { Head::Refused(403) }, ranges: chance(r, 0.9), etag: None, modified: true, fault: Fault::None };
    // a fault from one request on
    let from = if chance(r, 0.5) { usize::MAX } else { r.gen_range(0..4) };
    let f = if chance(r, 0.1) { Fault::Missing } else { fault(r) };
    let seen = Arc::new(Mutex::new(0usize));
    { let (s, f, seen) = (s.clone(), f.clone(), seen.clone());
      m.serve(Arc::new(move |q| { let mut c = seen.lock().unwrap(); *c += 1; if *c > from { Site { fault: f.clone(), ..s.clone() }.answer(q) } else { s.answer(q) } })); }
    s.fault = if from == usize::MAX { Fault::None } else { f };
    m.taken();
    let written = format!("http://{}/{k}/{name}.{}{query}", m.host(), fmt.to_lowercase());
    let opts = if fmt == "CSV" { " OPTIONS ('format.has_header' 'true')" } else { "" };
    let ddl = format!("CREATE EXTERNAL TABLE t{k} (a BIGINT, b TEXT) STORED AS {fmt}{opts} LOCATION '{written}'");
    let ddl = if chance(r, 0.5) { ddl.replace(" (a BIGINT, b TEXT)", "") } else { ddl };
    let q = format!("SELECT a, b FROM staging.t{k}");
    let res = AssertUnwindSafe(async { sf.sql(&ddl).await?; sf.rows(&q).await }).catch_unwind().await;
    ctx.eval(&(fmt, name, query, n, s.ranges, s.head == Head::Fine, format!("{:?}", s.fault), from), true);
    let log = m.taken();
    let what = || format!("{ddl}; {n} rows, {} bytes, HEAD {:?}, ranges {}, fault {:?} from request {from}; requests {:?}", s.body.len(), s.head, s.ranges, s.fault, log.iter().map(|q| (&q.method, &q.target, q.h("range").map(String::from))).collect::<Vec<_>>());
    for x in &log { ctx.check(x.target == target, "table/target", || format!("{} was asked for instead of {target}; {}", x.target, what())); }
    match res {
        Err(p) => ctx.violation("table/panic", format!("{} / {}; {}", sfv::panic_text(p), sfv::last_panic_any(), what())),
        Ok(Ok(mut got)) => {
            let mut want: Vec<Vec<String>> = rows.iter().map(|(a, b)| vec![a.to_string(), b.clone()]).collect();
            got.sort(); want.sort();
            ctx.check(got == want, "table/rows", || format!("{} rows read; {}", got.len(), what()));
            ctx.count("tables_read", 1);
        }
        Ok(Err(e)) => { ctx.check(s.fault != Fault::None || !s.ranges, "table/refused", || format!("{e}; {}", what())); ctx.count("tables_refused", 1); }
    }
    ctx.count("requests_seen", log.len() as u64);
    let _ = sf.sql(&format!("DROP TABLE staging.t{k}")).await;
}

pub fn c32(ctx: &Ctx) {
    ctx.rule("one evaluation = one operation of the HTTP store (or one external table) against a server of a known object, behaving well or with one fault; distinct by (operation, kind of range, object empty or not, server's abilities, fault)");
    sfv::quiet_panics();
    super::rt(4).block_on(async {
        let m = Mock::start(Arc::new(|_| Answer::new(500, b"").bytes())).await;
        let mut r = ctx.rng("http store");
        for k in 0..ctx.n(400, 40_000) { if ctx.out_of_time() { break } store_round(ctx, &mut r, &m, k).await; }
        let sf = Sf::memory("").await;
        for k in 0..ctx.n(150, 10_000) { if ctx.out_of_time() { break } tables(ctx, &mut r, &m, &sf, k).await; }
    });
}
