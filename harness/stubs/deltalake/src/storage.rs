use crate::{errors::DeltaResult, Path};
use dashmap::DashMap;
use std::collections::HashMap;
use std::fmt::Debug;
use std::sync::{Arc, OnceLock};
use url::Url;

pub type ObjectStoreRef = Arc<dyn object_store::ObjectStore>;
pub type FactoryRegistry = Arc<DashMap<Url, Arc<dyn ObjectStoreFactory>>>;

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct StorageOptions(pub HashMap<String, String>);

pub trait ObjectStoreFactory: Send + Sync + Debug {
    fn parse_url_opts(&self, url: &Url, options: &StorageOptions) -> DeltaResult<(ObjectStoreRef, Path)>;
}

pub fn factories() -> FactoryRegistry {
    static REGISTRY: OnceLock<FactoryRegistry> = OnceLock::new();
    REGISTRY.get_or_init(Default::default).clone()
}
