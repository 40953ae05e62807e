//! A stand-in for the table provider of the `iceberg-datafusion` fork
use arrow_schema::SchemaRef;
use async_trait::async_trait;
use datafusion::catalog::Session;
use datafusion::common::Result;
use datafusion::datasource::{MemTable, TableProvider, TableType};
use datafusion::error::DataFusionError;
use datafusion::logical_expr::Expr;
use datafusion::physical_plan::ExecutionPlan;
use iceberg::table::Table;
use std::any::Any;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct IcebergTableProvider {
    table: Table,
    schema: SchemaRef,
}

impl IcebergTableProvider {
    pub async fn try_new_from_table(table: Table) -> iceberg::Result<Self> {
        let schema = iceberg::arrow::schema_to_arrow_schema(table.metadata().current_schema())?;
        Ok(Self { table, schema: Arc::new(schema) })
    }

    pub fn table(&self) -> Table {
        self.table.clone()
    }
}

#[async_trait]
impl TableProvider for IcebergTableProvider {
    fn as_any(&self) -> &dyn Any {
        self
    }

    fn schema(&self) -> SchemaRef {
        self.schema.clone()
    }

    fn table_type(&self) -> TableType {
        TableType::Base
    }

    async fn scan(
        &self,
        session: &dyn Session,
        projection: Option<&Vec<usize>>,
        filters: &[Expr],
        limit: Option<usize>,
    ) -> Result<Arc<dyn ExecutionPlan>> {
        let rows = self.table.rows().await.map_err(|e| DataFusionError::External(Box::new(e)))?;
        let rows = rows
            .into_iter()
            .map(|b| Ok(b.with_schema(self.schema.clone())?))
            .collect::<Result<Vec<_>>>()?;
        MemTable::try_new(self.schema.clone(), vec![rows])?.scan(session, projection, filters, limit).await
    }
}

pub mod table_provider_factory {
    use super::*;
    use datafusion::catalog::TableProviderFactory;
    use datafusion::logical_expr::CreateExternalTable;

    #[derive(Debug)]
    pub struct IcebergTableProviderFactory {}

    #[async_trait]
    impl TableProviderFactory for IcebergTableProviderFactory {
        async fn create(&self, _state: &dyn Session, _cmd: &CreateExternalTable) -> Result<Arc<dyn TableProvider>> {
            Err(DataFusionError::NotImplemented("external Iceberg tables".into()))
        }
    }
}
