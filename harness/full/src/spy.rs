//! An object store that records what is asked of it and can be told to fail or to take its time.
use async_trait::async_trait;
use bytes::Bytes;
use futures::stream::{BoxStream, StreamExt};
use object_store::{path::Path, *};
use std::ops::Range;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Debug)]
pub struct Call {
    pub op: &'static str,
    pub path: String,
    pub range: Option<Range<usize>>,
    pub ok: bool,
    pub bytes: usize,
}

type FaultFn = dyn Fn(&str, &str) -> bool + Send + Sync;

pub struct Spy {
    pub inner: Arc<dyn ObjectStore>,
    pub log: Arc<Mutex<Vec<Call>>>,
    /// operations for which this holds fail before reaching the store
    fault: Arc<Mutex<Option<Arc<FaultFn>>>>,
    /// told of what was done
    after: Mutex<Option<Arc<dyn Fn() + Send + Sync>>>,
    /// each operation takes up to this many microseconds
    pub delay_us: AtomicU64,
    ticket: AtomicU64,
    pub faults_hit: Arc<AtomicU64>,
}

impl std::fmt::Debug for Spy {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "Spy({})", self.inner) }
}
impl std::fmt::Display for Spy {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "Spy({})", self.inner) }
}

impl Spy {
    pub fn new(inner: Arc<dyn ObjectStore>) -> Arc<Self> {
        Arc::new(Spy { inner, log: Default::default(), fault: Default::default(), after: Default::default(), delay_us: AtomicU64::new(0), ticket: AtomicU64::new(0), faults_hit: Default::default() })
    }
    pub fn set_fault(&self, f: Option<Arc<FaultFn>>) { *self.fault.lock().unwrap() = f; }
    pub fn set_after(&self, f: Option<Arc<dyn Fn() + Send + Sync>>) { *self.after.lock().unwrap() = f; }
    pub fn take(&self) -> Vec<Call> { std::mem::take(&mut *self.log.lock().unwrap()) }
    async fn before(&self, op: &'static str, path: &str) -> Result<()> {
        let d = self.delay_us.load(Ordering::Relaxed);
        if d > 0 {
            let t = self.ticket.fetch_add(1, Ordering::Relaxed);
            tokio::time::sleep(Duration::from_micros(sfv::hash_of(&(t, path)) % d)).await;
        }
        self.judge(op, path)
    }
    fn judge(&self, op: &'static str, path: &str) -> Result<()> {
        let f = self.fault.lock().unwrap().clone();
        if let Some(f) = f && f(op, path) {
            self.faults_hit.fetch_add(1, Ordering::Relaxed);
            self.note(op, path, None, false, 0);
            return Err(Error::Generic { store: "spy", source: "injected failure".into() });
        }
        Ok(())
    }
    fn upload(&self, location: &Path, inner: Box<dyn MultipartUpload>) -> Box<dyn MultipartUpload> {
        Box::new(SpyUpload { inner, path: location.to_string(), fault: self.fault.clone(), log: self.log.clone(), hit: self.faults_hit.clone() })
    }
    fn note(&self, op: &'static str, path: &str, range: Option<Range<usize>>, ok: bool, bytes: usize) {
        self.log.lock().unwrap().push(Call { op, path: path.to_string(), range, ok, bytes });
        let f = self.after.lock().unwrap().clone();
        if let Some(f) = f { f() }
    }
}

#[async_trait]
impl ObjectStore for Spy {
    async fn put_opts(&self, location: &Path, payload: PutPayload, opts: PutOptions) -> Result<PutResult> {
        self.before("put", location.as_ref()).await?;
        let n = payload.content_length();
        let r = self.inner.put_opts(location, payload, opts).await;
        self.note("put", location.as_ref(), None, r.is_ok(), n);
        r
    }
    async fn put_multipart(&self, location: &Path) -> Result<Box<dyn MultipartUpload>> {
        self.before("put_multipart", location.as_ref()).await?;
        let r = self.inner.put_multipart(location).await;
        self.note("put_multipart", location.as_ref(), None, r.is_ok(), 0);
        Ok(self.upload(location, r?))
    }
    async fn put_multipart_opts(&self, location: &Path, opts: PutMultipartOpts) -> Result<Box<dyn MultipartUpload>> {
        self.before("put_multipart", location.as_ref()).await?;
        let r = self.inner.put_multipart_opts(location, opts).await;
        self.note("put_multipart", location.as_ref(), None, r.is_ok(), 0);
        Ok(self.upload(location, r?))
    }
    async fn get_opts(&self, location: &Path, options: GetOptions) -> Result<GetResult> {
        self.before("get", location.as_ref()).await?;
        let r = self.inner.get_opts(location, options).await;
        self.note("get", location.as_ref(), None, r.is_ok(), 0);
        r
    }
    async fn get_range(&self, location: &Path, range: Range<usize>) -> Result<Bytes> {
        self.before("get_range", location.as_ref()).await?;
        let r = self.inner.get_range(location, range.clone()).await;
        self.note("get_range", location.as_ref(), Some(range), r.is_ok(), r.as_ref().map(|b| b.len()).unwrap_or(0));
        r
    }
    async fn head(&self, location: &Path) -> Result<ObjectMeta> {
        self.before("head", location.as_ref()).await?;
        let r = self.inner.head(location).await;
        self.note("head", location.as_ref(), None, r.is_ok(), 0);
        r
    }
    async fn delete(&self, location: &Path) -> Result<()> {
        self.before("delete", location.as_ref()).await?;
        let r = self.inner.delete(location).await;
        self.note("delete", location.as_ref(), None, r.is_ok(), 0);
        r
    }
    fn list(&self, prefix: Option<&Path>) -> BoxStream<'_, Result<ObjectMeta>> {
        let p = prefix.map(|p| p.to_string()).unwrap_or_default();
        if let Err(e) = self.judge("list", &p) {
            return futures::stream::once(async move { Err(e) }).boxed();
        }
        self.note("list", &p, None, true, 0);
        self.inner.list(prefix)
    }
    async fn list_with_delimiter(&self, prefix: Option<&Path>) -> Result<ListResult> {
        let p = prefix.map(|p| p.to_string()).unwrap_or_default();
        self.before("list", &p).await?;
        self.note("list", &p, None, true, 0);
        self.inner.list_with_delimiter(prefix).await
    }
    async fn copy(&self, from: &Path, to: &Path) -> Result<()> {
        self.before("copy", to.as_ref()).await?;
        let r = self.inner.copy(from, to).await;
        self.note("copy", to.as_ref(), None, r.is_ok(), 0);
        r
    }
    async fn copy_if_not_exists(&self, from: &Path, to: &Path) -> Result<()> {
        self.before("copy", to.as_ref()).await?;
        let r = self.inner.copy_if_not_exists(from, to).await;
        self.note("copy", to.as_ref(), None, r.is_ok(), 0);
        r
    }
}

/// An upload in parts, the parts of which can fail as well
struct SpyUpload {
    inner: Box<dyn MultipartUpload>,
    path: String,
    fault: Arc<Mutex<Option<Arc<FaultFn>>>>,
    log: Arc<Mutex<Vec<Call>>>,
    hit: Arc<AtomicU64>,
}
impl std::fmt::Debug for SpyUpload {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "SpyUpload({})", self.path) }
}
impl SpyUpload {
    fn judge(&self, op: &'static str, bytes: usize) -> Result<()> {
        let f = self.fault.lock().unwrap().clone();
        let bad = f.map_or(false, |f| f(op, &self.path));
        self.log.lock().unwrap().push(Call { op, path: self.path.clone(), range: None, ok: !bad, bytes });
        if bad { self.hit.fetch_add(1, Ordering::Relaxed); return Err(Error::Generic { store: "spy", source: "injected failure".into() }) }
        Ok(())
    }
}
#[async_trait]
impl MultipartUpload for SpyUpload {
    fn put_part(&mut self, data: PutPayload) -> UploadPart {
        if let Err(e) = self.judge("put_part", data.content_length()) { return Box::pin(async move { Err(e) }) }
        self.inner.put_part(data)
    }
    async fn complete(&mut self) -> Result<PutResult> {
        self.judge("complete", 0)?;
        self.inner.complete().await
    }
    async fn abort(&mut self) -> Result<()> {
        self.judge("abort", 0)?;
        self.inner.abort().await
    }
}
