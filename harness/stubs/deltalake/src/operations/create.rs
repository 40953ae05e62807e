use crate::errors::{DeltaResult, DeltaTableError};
use crate::kernel::{Action, Metadata, StructField, StructType};
use crate::logstore::LogStoreRef;
use crate::operations::transaction::CommitBuilder;
use crate::protocol::DeltaOperation;
use crate::table::DeltaTable;
use futures::future::BoxFuture;
use std::future::IntoFuture;

#[derive(Default)]
pub struct CreateBuilder {
    log_store: Option<LogStoreRef>,
    name: Option<String>,
    columns: Vec<StructField>,
    comment: Option<String>,
    pub(crate) actions: Vec<Action>,
}

impl CreateBuilder {
    pub fn new() -> Self {
        Self::default()
    }

    pub fn with_log_store(mut self, log_store: LogStoreRef) -> Self {
        self.log_store = Some(log_store);
        self
    }

    pub fn with_table_name(mut self, name: impl Into<String>) -> Self {
        self.name = Some(name.into());
        self
    }

    pub fn with_comment(mut self, comment: impl Into<String>) -> Self {
        self.comment = Some(comment.into());
        self
    }

    pub fn with_columns(mut self, columns: impl IntoIterator<Item = impl Into<StructField>>) -> Self {
        self.columns = columns.into_iter().map(|c| c.into()).collect();
        self
    }

    pub(crate) fn with_actions(mut self, actions: Vec<Action>) -> Self {
        self.actions = actions;
        self
    }
}

impl IntoFuture for CreateBuilder {
    type Output = DeltaResult<DeltaTable>;
    type IntoFuture = BoxFuture<'static, Self::Output>;

    fn into_future(self) -> Self::IntoFuture {
        Box::pin(async move {
            let log_store = self.log_store.ok_or_else(|| DeltaTableError::Generic("no location".into()))?;
            if log_store.is_delta_table_location().await? {
                return Err(DeltaTableError::Generic("A Delta Lake table already exists at that location.".into()));
            }
            if self.columns.is_empty() {
                return Err(DeltaTableError::Generic("At least one column must be defined to create a table.".into()));
            }
            let mut actions = vec![Action::Metadata(Metadata {
                id: uuid::Uuid::new_v4().to_string(),
                name: self.name,
                description: self.comment,
                schema: StructType { fields: self.columns },
            })];
            actions.extend(self.actions);
            CommitBuilder::default().with_actions(actions).build(None, log_store.clone(), DeltaOperation::Create).await?;
            let mut table = DeltaTable::new(log_store, Default::default());
            table.load().await?;
            Ok(table)
        })
    }
}
