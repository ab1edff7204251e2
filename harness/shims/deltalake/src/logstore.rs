use crate::kernel::Action;
use crate::storage::{ObjectStoreRef, StorageOptions};
use crate::{DeltaResult, DeltaTableError};
use bytes::Bytes;
use futures::{StreamExt, TryStreamExt};
use object_store::{path::Path, ObjectMeta, ObjectStore, PutMode, PutOptions};
use std::collections::BTreeMap;
use std::sync::Arc;
use url::Url;

pub type LogStoreRef = Arc<dyn LogStore>;

#[async_trait::async_trait]
pub trait LogStore: Sync + Send + std::fmt::Debug {
    fn object_store(&self) -> Arc<dyn ObjectStore>;
    fn location(&self) -> &Url;
    fn root_uri(&self) -> String {
        let u = self.location();
        if u.scheme() == "file" {
            format!("{}/", u.as_str().trim_end_matches('/').replacen("file://", "", 1))
        } else {
            u.as_str().to_string()
        }
    }
    async fn is_delta_table_location(&self) -> DeltaResult<bool> {
        Ok(!self.versions().await?.is_empty())
    }
    /// The commits there are, by version
    async fn versions(&self) -> DeltaResult<BTreeMap<i64, ObjectMeta>> {
        let mut out = BTreeMap::new();
        let (store, prefix) = (self.object_store(), Path::from("_delta_log"));
        let mut l = store.list(Some(&prefix)).boxed();
        while let Some(m) = l.try_next().await? {
            if let Some(v) = m.location.filename().and_then(|f| f.strip_suffix(".json")).filter(|f| f.len() == 20).and_then(|f| f.parse().ok()) {
                out.insert(v, m);
            }
        }
        Ok(out)
    }
    async fn read_commit(&self, v: i64) -> DeltaResult<Vec<Action>> {
        let b = self.object_store().get(&commit_path(v)).await?.bytes().await?;
        b.split(|c| *c == b'\n').filter(|l| !l.is_empty()).map(|l| Ok(serde_json::from_slice(l)?)).collect()
    }
    async fn write_commit(&self, v: i64, actions: &[Action]) -> DeltaResult<()> {
        let mut b = vec![];
        for a in actions {
            serde_json::to_writer(&mut b, a)?;
            b.push(b'\n');
        }
        match self.object_store().put_opts(&commit_path(v), Bytes::from(b).into(), PutOptions::from(PutMode::Create)).await {
            Ok(_) => Ok(()),
            Err(object_store::Error::AlreadyExists { .. }) => Err(DeltaTableError::VersionAlreadyExists(v)),
            Err(e) => Err(e.into()),
        }
    }
}
pub fn commit_path(v: i64) -> Path {
    Path::from(format!("_delta_log/{v:020}.json"))
}

#[derive(Debug)]
pub struct DefaultLogStore {
    store: ObjectStoreRef,
    location: Url,
}
impl LogStore for DefaultLogStore {
    fn object_store(&self) -> Arc<dyn ObjectStore> {
        self.store.clone()
    }
    fn location(&self) -> &Url {
        &self.location
    }
}
pub fn default_logstore(store: ObjectStoreRef, location: &Url, _options: &StorageOptions) -> LogStoreRef {
    Arc::new(DefaultLogStore { store, location: location.clone() })
}
