//! A raw HTTP server that answers whatever a check tells it to, and records every request
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use tokio::io::{AsyncReadExt, AsyncWriteExt};

#[derive(Debug, Clone)]
pub struct Req {
    pub method: String,
    pub target: String,
    pub headers: BTreeMap<String, String>,
    pub body: Vec<u8>,
}
impl Req {
    pub fn h(&self, n: &str) -> Option<&str> { self.headers.get(n).map(|s| s.as_str()) }
}
pub type Handler = Arc<dyn Fn(&Req) -> Vec<u8> + Send + Sync>;

pub struct Mock {
    pub port: u16,
    pub log: Arc<Mutex<Vec<Req>>>,
    handler: Arc<Mutex<Handler>>,
    task: tokio::task::JoinHandle<()>,
}
impl Drop for Mock {
    fn drop(&mut self) { self.task.abort() }
}

impl Mock {
    pub async fn start(h: Handler) -> Mock {
        let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
        let port = l.local_addr().unwrap().port();
        let log: Arc<Mutex<Vec<Req>>> = Default::default();
        let handler = Arc::new(Mutex::new(h));
        let (lg, hd) = (log.clone(), handler.clone());
        let task = tokio::spawn(async move {
            loop {
                let Ok((mut s, _)) = l.accept().await else { continue };
                let (lg, hd) = (lg.clone(), hd.clone());
                tokio::spawn(async move {
                    let Some(q) = read(&mut s).await else { return };
                    lg.lock().unwrap().push(q.clone());
                    let h = hd.lock().unwrap().clone();
                    let a = h(&q);
                    let _ = s.write_all(&a).await;
                    let _ = s.shutdown().await;
                    // let the client read the rest before the socket goes
                    let mut sink = [0; 64];
                    let _ = tokio::time::timeout(std::time::Duration::from_secs(2), s.read(&mut sink)).await;
                });
            }
        });
        Mock { port, log, handler, task }
    }
    pub fn serve(&self, h: Handler) { *self.handler.lock().unwrap() = h }
    pub fn taken(&self) -> Vec<Req> { std::mem::take(&mut *self.log.lock().unwrap()) }
    pub fn host(&self) -> String { format!("127.0.0.1:{}", self.port) }
}

async fn read(s: &mut tokio::net::TcpStream) -> Option<Req> {
    let mut buf = vec![];
    let mut part = [0u8; 4096];
    let end = loop {
        if let Some(p) = buf.windows(4).position(|w| w == b"\r\n\r\n") { break p }
        match s.read(&mut part).await { Ok(0) | Err(_) => return None, Ok(n) => buf.extend_from_slice(&part[..n]) }
    };
    let head = String::from_utf8_lossy(&buf[..end]).into_owned();
    let mut lines = head.split("\r\n");
    let mut first = lines.next()?.split(' ');
    let (method, target) = (first.next()?.to_string(), first.next()?.to_string());
    let headers: BTreeMap<String, String> = lines.filter_map(|l| l.split_once(':')).map(|(k, v)| (k.to_ascii_lowercase(), v.trim().to_string())).collect();
    let mut body = buf[end + 4..].to_vec();
    let n: usize = headers.get("content-length").and_then(|v| v.parse().ok()).unwrap_or(0);
    while body.len() < n {
        match s.read(&mut part).await { Ok(0) | Err(_) => break, Ok(k) => body.extend_from_slice(&part[..k]) }
    }
    Some(Req { method, target, headers, body })
}

/// a reply; a Content-Length of the body's size is added unless there is one
#[derive(Debug, Clone)]
pub struct Answer {
    pub status: u16,
    pub headers: Vec<(String, Vec<u8>)>,
    pub body: Vec<u8>,
    /// send a Content-Length at all
    pub length: bool,
    /// how much of the body is really sent
    pub sent: usize,
    pub head: bool,
}
impl Answer {
    pub fn new(status: u16, body: &[u8]) -> Self { Answer { status, headers: vec![], body: body.to_vec(), length: true, sent: usize::MAX, head: false } }
    pub fn with(mut self, k: &str, v: impl AsRef<[u8]>) -> Self { self.set(k, v.as_ref()); self }
    pub fn set(&mut self, k: &str, v: &[u8]) {
        self.headers.retain(|(x, _)| !x.eq_ignore_ascii_case(k));
        self.headers.push((k.to_string(), v.to_vec()));
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = format!("HTTP/1.1 {} Some Reason\r\nConnection: close\r\n", self.status).into_bytes();
        for (k, v) in &self.headers {
            o.extend_from_slice(k.as_bytes());
            o.extend_from_slice(b": ");
            o.extend_from_slice(v);
            o.extend_from_slice(b"\r\n");
        }
        if self.length && !self.headers.iter().any(|(k, _)| k.eq_ignore_ascii_case("content-length")) {
            o.extend_from_slice(format!("Content-Length: {}\r\n", self.body.len()).as_bytes());
        }
        o.extend_from_slice(b"\r\n");
        if !self.head { o.extend_from_slice(&self.body[..self.body.len().min(self.sent)]) }
        o
    }
}
