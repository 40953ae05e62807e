use crate::errors::DeltaResult;
use crate::storage::{ObjectStoreRef, StorageOptions};
use crate::Path;
use futures::StreamExt;
use std::fmt::Debug;
use std::sync::Arc;
use url::Url;

pub type LogStoreRef = Arc<dyn LogStore>;

#[async_trait::async_trait]
pub trait LogStore: Send + Sync + Debug {
    fn root_uri(&self) -> String;
    fn root_url(&self) -> Url;
    fn object_store(&self) -> ObjectStoreRef;

    async fn is_delta_table_location(&self) -> DeltaResult<bool> {
        let store = self.object_store();
        let log = Path::from("_delta_log");
        let mut list = store.list(Some(&log));
        match list.next().await {
            Some(Ok(_)) => Ok(true),
            Some(Err(object_store::Error::NotFound { .. })) | None => Ok(false),
            Some(Err(e)) => Err(e.into()),
        }
    }
}

#[derive(Debug)]
struct DefaultLogStore {
    store: ObjectStoreRef,
    location: Url,
}

impl LogStore for DefaultLogStore {
    fn root_uri(&self) -> String {
        match self.location.scheme() {
            "file" => format!("{}/", self.location.as_ref().trim_end_matches('/')).replace("file://", ""),
            _ => self.location.as_ref().trim_end_matches('/').to_string(),
        }
    }

    fn root_url(&self) -> Url {
        self.location.clone()
    }

    fn object_store(&self) -> ObjectStoreRef {
        self.store.clone()
    }
}

pub fn default_logstore(store: ObjectStoreRef, location: &Url, _options: &StorageOptions) -> LogStoreRef {
    Arc::new(DefaultLogStore { store, location: location.clone() })
}
