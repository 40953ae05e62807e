use crate::errors::{DeltaResult, DeltaTableError};
use crate::kernel::{Action, CommitInfo};
use crate::logstore::LogStoreRef;
use crate::protocol::DeltaOperation;
use crate::table::{commit_path, latest_version, read_commit, DeltaTableState};
use chrono::Utc;
use futures::future::BoxFuture;
use object_store::{PutMode, PutOptions};
use std::future::IntoFuture;

pub struct FinalizedCommit {
    pub version: i64,
}

#[derive(Default)]
pub struct CommitBuilder {
    actions: Vec<Action>,
}

impl CommitBuilder {
    pub fn with_actions(mut self, actions: Vec<Action>) -> Self {
        self.actions = actions;
        self
    }

    pub fn build(self, snapshot: Option<&DeltaTableState>, log_store: LogStoreRef, operation: DeltaOperation) -> PreCommit {
        PreCommit { actions: self.actions, read: snapshot.map(|s| s.version).unwrap_or(-1), log_store, operation }
    }
}

pub struct PreCommit {
    actions: Vec<Action>,
    read: i64,
    log_store: LogStoreRef,
    operation: DeltaOperation,
}

impl PreCommit {
    /// Writes the next commit. If others have committed since the version that was read, the commit is placed after
    /// theirs, unless they removed a file that it removes too.
    async fn commit(self) -> DeltaResult<FinalizedCommit> {
        let mut actions = self.actions;
        let now = Utc::now().timestamp_millis();
        if !actions.iter().any(|a| matches!(a, Action::CommitInfo(_))) {
            actions.push(Action::CommitInfo(CommitInfo {
                timestamp: Some(now),
                operation: Some(self.operation.name().to_string()),
                ..Default::default()
            }));
        }
        let removed: Vec<String> = actions
            .iter()
            .filter_map(|a| if let Action::Remove(r) = a { Some(r.path.clone()) } else { None })
            .collect();
        let store = self.log_store.object_store();
        let mut seen = self.read;
        loop {
            let mut text = format!("{{\"at\":{}}}\n", Utc::now().timestamp_millis());
            for action in &actions {
                text.push_str(&serde_json::to_string(action)?);
                text.push('\n');
            }
            let opts = PutOptions { mode: PutMode::Create, ..Default::default() };
            match store.put_opts(&commit_path(seen + 1), text.into(), opts).await {
                Ok(_) => return Ok(FinalizedCommit { version: seen + 1 }),
                Err(object_store::Error::AlreadyExists { .. }) => {
                    let latest = latest_version(&store).await?;
                    for v in seen + 1..=latest {
                        for action in read_commit(&store, v).await?.0 {
                            match action {
                                Action::Remove(r) if removed.contains(&r.path) => {
                                    return Err(DeltaTableError::Transaction(format!(
                                        "Commit failed: a concurrent transaction deleted the same data: {}",
                                        r.path
                                    )))
                                }
                                Action::Metadata(_) => {
                                    return Err(DeltaTableError::Transaction("Metadata changed since last commit.".into()))
                                }
                                _ => {}
                            }
                        }
                    }
                    seen = latest;
                }
                Err(e) => return Err(e.into()),
            }
        }
    }
}

impl IntoFuture for PreCommit {
    type Output = DeltaResult<FinalizedCommit>;
    type IntoFuture = BoxFuture<'static, Self::Output>;

    fn into_future(self) -> Self::IntoFuture {
        Box::pin(self.commit())
    }
}
