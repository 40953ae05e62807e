use crate::errors::{DeltaResult, DeltaTableError};
use crate::kernel::{Action, StructType};
use crate::logstore::LogStoreRef;
use crate::operations::create::CreateBuilder;
use crate::protocol::SaveMode;
use crate::table::DeltaTable;
use crate::writer::create_add;
use futures::future::BoxFuture;
use futures::TryStreamExt;
use parquet::arrow::async_reader::{ParquetObjectReader, ParquetRecordBatchStreamBuilder};
use std::future::IntoFuture;

#[derive(Default)]
pub struct ConvertToDeltaBuilder {
    log_store: Option<LogStoreRef>,
    name: Option<String>,
    comment: Option<String>,
}

impl ConvertToDeltaBuilder {
    pub fn new() -> Self {
        Self::default()
    }

    pub fn with_log_store(mut self, log_store: LogStoreRef) -> Self {
        self.log_store = Some(log_store);
        self
    }

    pub fn with_table_name(mut self, name: impl Into<String>) -> Self {
        self.name = Some(name.into());
        self
    }

    pub fn with_comment(mut self, comment: impl Into<String>) -> Self {
        self.comment = Some(comment.into());
        self
    }

    pub fn with_save_mode(self, _mode: SaveMode) -> Self {
        self
    }
}

impl IntoFuture for ConvertToDeltaBuilder {
    type Output = DeltaResult<DeltaTable>;
    type IntoFuture = BoxFuture<'static, Self::Output>;

    fn into_future(self) -> Self::IntoFuture {
        Box::pin(async move {
            let log_store = self.log_store.ok_or_else(|| DeltaTableError::Generic("Log store is not provided".into()))?;
            if log_store.is_delta_table_location().await? {
                return Err(DeltaTableError::Generic("The given location is already a delta table location".into()));
            }
            let store = log_store.object_store();
            let mut metas: Vec<_> = store.list(None).try_collect().await?;
            metas.retain(|m| m.location.extension() == Some("parquet"));
            metas.sort_by(|a, b| a.location.cmp(&b.location));
            if metas.is_empty() {
                return Err(DeltaTableError::Generic("No parquet file is found in the given location".into()));
            }
            let (mut adds, mut schemas) = (vec![], vec![]);
            for meta in metas {
                let reader = ParquetObjectReader::new(store.clone(), meta.clone());
                let builder = ParquetRecordBatchStreamBuilder::new(reader).await?;
                let mut schema = builder.schema().as_ref().clone();
                schema.metadata.clear();
                schemas.push(schema);
                let md = crate::writer::thrift(builder.metadata());
                adds.push(Action::Add(create_add(
                    &Default::default(),
                    meta.location.to_string(),
                    meta.size as i64,
                    &md,
                    -1,
                    &None::<Vec<String>>,
                )?));
            }
            let schema = StructType::try_from(&arrow_schema::Schema::try_merge(schemas)?)?;
            let mut create = CreateBuilder::new().with_log_store(log_store).with_columns(schema.fields().cloned()).with_actions(adds);
            if let Some(name) = self.name {
                create = create.with_table_name(name);
            }
            if let Some(comment) = self.comment {
                create = create.with_comment(comment);
            }
            create.await
        })
    }
}
