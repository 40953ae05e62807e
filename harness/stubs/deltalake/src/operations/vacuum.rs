use crate::errors::DeltaResult;
use crate::logstore::LogStoreRef;
use crate::table::{DeltaTable, DeltaTableState};
use crate::Path;
use chrono::{TimeDelta, Utc};
use futures::future::BoxFuture;
use futures::TryStreamExt;
use std::future::IntoFuture;

pub struct VacuumBuilder {
    log_store: LogStoreRef,
    snapshot: DeltaTableState,
    retention: TimeDelta,
    enforce: bool,
}

pub struct VacuumMetrics {
    pub dry_run: bool,
    pub files_deleted: Vec<String>,
}

impl VacuumBuilder {
    pub fn new(log_store: LogStoreRef, snapshot: DeltaTableState) -> Self {
        Self { log_store, snapshot, retention: TimeDelta::hours(168), enforce: true }
    }

    pub fn with_retention_period(mut self, retention: TimeDelta) -> Self {
        self.retention = retention;
        self
    }

    pub fn with_enforce_retention_duration(mut self, enforce: bool) -> Self {
        self.enforce = enforce;
        self
    }
}

impl IntoFuture for VacuumBuilder {
    type Output = DeltaResult<(DeltaTable, VacuumMetrics)>;
    type IntoFuture = BoxFuture<'static, Self::Output>;

    fn into_future(self) -> Self::IntoFuture {
        Box::pin(async move {
            if self.enforce && self.retention < TimeDelta::hours(168) {
                return Err(crate::DeltaTableError::Generic("Invalid retention period".into()));
            }
            let until = (Utc::now() - self.retention).timestamp_millis();
            let store = self.log_store.object_store();
            let present: Vec<_> = store.list(None).try_collect().await?;
            let mut files_deleted = vec![];
            for meta in present {
                let path = meta.location.to_string();
                let live = self.snapshot.files.iter().any(|f| f.path == path);
                let expired =
                    self.snapshot.tombstones.iter().any(|t| t.path == path && t.deletion_timestamp.unwrap_or(0) <= until);
                if !live && expired {
                    store.delete(&Path::from(path.clone())).await?;
                    files_deleted.push(path);
                }
            }
            let state = self.snapshot.clone();
            let mut table = DeltaTable::new(self.log_store, Default::default());
            table.state = Some(state);
            Ok((table, VacuumMetrics { dry_run: false, files_deleted }))
        })
    }
}
