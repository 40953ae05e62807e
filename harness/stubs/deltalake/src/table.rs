use crate::errors::{DeltaResult, DeltaTableError};
use crate::kernel::{Action, Add, CommitInfo, Metadata, Remove};
use crate::logstore::LogStoreRef;
use crate::storage::ObjectStoreRef;
use crate::Path;
use arrow_schema::SchemaRef;
use chrono::{DateTime, Utc};
use futures::TryStreamExt;
use serde_json::Value;
use std::fmt::{Display, Formatter};
use std::sync::Arc;

#[derive(Clone, Debug, Default)]
pub struct DeltaTableConfig {}

/// One version of a table
#[derive(Clone, Debug)]
pub struct DeltaTableState {
    pub(crate) version: i64,
    pub metadata: Metadata,
    pub(crate) files: Vec<Add>,
    pub(crate) tombstones: Vec<Remove>,
    pub(crate) schema: SchemaRef,
}

impl DeltaTableState {
    pub fn version(&self) -> i64 {
        self.version
    }

    pub fn file_actions(&self) -> DeltaResult<Vec<Add>> {
        Ok(self.files.clone())
    }

    pub fn arrow_schema(&self) -> SchemaRef {
        self.schema.clone()
    }
}

pub(crate) fn commit_path(version: i64) -> Path {
    Path::from(format!("_delta_log/{version:020}.json"))
}

pub(crate) async fn latest_version(store: &ObjectStoreRef) -> DeltaResult<i64> {
    let metas: Vec<_> = store.list(Some(&Path::from("_delta_log"))).try_collect().await?;
    Ok(metas
        .iter()
        .filter_map(|m| m.location.filename()?.strip_suffix(".json")?.parse::<i64>().ok())
        .max()
        .unwrap_or(-1))
}

pub(crate) async fn read_commit(store: &ObjectStoreRef, version: i64) -> DeltaResult<(Vec<Action>, i64)> {
    let got = store.get(&commit_path(version)).await?;
    let modified = got.meta.last_modified.timestamp_millis();
    let bytes = got.bytes().await?;
    let (mut actions, mut time) = (vec![], modified);
    for line in bytes.split(|b| *b == b'\n').filter(|l| !l.is_empty()) {
        let value: Value = serde_json::from_slice(line)?;
        match value.get("at").and_then(Value::as_i64) {
            Some(at) => time = at,
            None => actions.push(serde_json::from_value(value)?),
        }
    }
    Ok((actions, time))
}

pub(crate) async fn state_at(store: &ObjectStoreRef, version: i64) -> DeltaResult<DeltaTableState> {
    let (mut metadata, mut files, mut tombstones) = (None, Vec::<Add>::new(), vec![]);
    for v in 0..=version {
        for action in read_commit(store, v).await?.0 {
            match action {
                Action::Metadata(m) => metadata = Some(m),
                Action::Add(a) => {
                    files.retain(|f| f.path != a.path);
                    files.push(a)
                }
                Action::Remove(r) => {
                    files.retain(|f| f.path != r.path);
                    tombstones.push(r)
                }
                Action::CommitInfo(_) => {}
            }
        }
    }
    let metadata: Metadata = metadata.ok_or(DeltaTableError::NotInitialized)?;
    let schema = Arc::new(metadata.schema.arrow());
    Ok(DeltaTableState { version, metadata, files, tombstones, schema })
}

#[derive(Clone)]
pub struct DeltaTable {
    pub(crate) state: Option<DeltaTableState>,
    log_store: LogStoreRef,
}

impl DeltaTable {
    pub fn new(log_store: LogStoreRef, _config: DeltaTableConfig) -> Self {
        Self { state: None, log_store }
    }

    pub fn version(&self) -> i64 {
        self.state.as_ref().map(|s| s.version).unwrap_or(-1)
    }

    pub fn table_uri(&self) -> String {
        self.log_store.root_uri()
    }

    pub fn log_store(&self) -> LogStoreRef {
        self.log_store.clone()
    }

    pub fn object_store(&self) -> ObjectStoreRef {
        self.log_store.object_store()
    }

    pub fn snapshot(&self) -> DeltaResult<&DeltaTableState> {
        self.state.as_ref().ok_or(DeltaTableError::NotInitialized)
    }

    pub fn get_files_count(&self) -> usize {
        self.state.as_ref().map(|s| s.files.len()).unwrap_or(0)
    }

    pub async fn load(&mut self) -> DeltaResult<()> {
        let version = latest_version(&self.object_store()).await?;
        if version < 0 {
            return Err(DeltaTableError::NotATable(format!("No snapshot or version 0 found, perhaps {} is an empty dir?", self.table_uri())));
        }
        self.load_version(version).await
    }

    pub async fn load_version(&mut self, version: i64) -> DeltaResult<()> {
        self.state = Some(state_at(&self.object_store(), version).await?);
        Ok(())
    }

    /// The last version written at or before the given time, and the first one if there is none
    pub async fn load_with_datetime(&mut self, datetime: DateTime<Utc>) -> DeltaResult<()> {
        let store = self.object_store();
        let latest = latest_version(&store).await?;
        if latest < 0 {
            return Err(DeltaTableError::NotATable(self.table_uri()));
        }
        let mut version = 0;
        for v in 0..=latest {
            if read_commit(&store, v).await?.1 <= datetime.timestamp_millis() {
                version = v
            }
        }
        self.load_version(version).await
    }

    /// What the commits say about themselves, latest first
    pub async fn history(&self, limit: Option<usize>) -> DeltaResult<Vec<CommitInfo>> {
        let mut infos = vec![];
        for v in (0..=self.version()).rev().take(limit.unwrap_or(usize::MAX)) {
            let info = read_commit(&self.object_store(), v).await?.0.into_iter().find_map(|a| match a {
                Action::CommitInfo(i) => Some(i),
                _ => None,
            });
            infos.push(info.unwrap_or_default());
        }
        Ok(infos)
    }
}

impl Display for DeltaTable {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "DeltaTable({})\n\tversion: {}", self.table_uri(), self.version())
    }
}

impl std::fmt::Debug for DeltaTable {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "DeltaTable <{}>", self.table_uri())
    }
}
