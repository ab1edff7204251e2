use crate::DeltaResult;
use dashmap::DashMap;
use object_store::{path::Path, ObjectStore};
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};
use url::Url;

pub type ObjectStoreRef = Arc<dyn ObjectStore>;
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct StorageOptions(pub HashMap<String, String>);
pub trait ObjectStoreFactory: Send + Sync {
    fn parse_url_opts(&self, url: &Url, options: &StorageOptions) -> DeltaResult<(ObjectStoreRef, Path)>;
}
pub type FactoryRegistry = Arc<DashMap<Url, Arc<dyn ObjectStoreFactory>>>;
pub fn factories() -> FactoryRegistry {
    static F: OnceLock<FactoryRegistry> = OnceLock::new();
    F.get_or_init(|| Arc::new(DashMap::new())).clone()
}
