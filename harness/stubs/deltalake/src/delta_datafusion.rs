use crate::errors::{DeltaResult, DeltaTableError};
use crate::kernel::Add;
use crate::logstore::LogStoreRef;
use crate::table::{DeltaTable, DeltaTableState};
use crate::Path;
use arrow::array::{ArrayRef, BooleanArray, UInt64Array};
use arrow_schema::{DataType, SchemaRef, TimeUnit};
use async_trait::async_trait;
use chrono::{TimeZone, Utc};
use datafusion::catalog::{Session, TableProviderFactory};
use datafusion::common::{Column, DFSchema, Result as DFResult};
use datafusion::datasource::listing::PartitionedFile;
use datafusion::datasource::physical_plan::parquet::ParquetExecBuilder;
use datafusion::datasource::physical_plan::FileScanConfig;
use datafusion::datasource::{TableProvider, TableType};
use datafusion::error::DataFusionError;
use datafusion::execution::object_store::ObjectStoreUrl;
use datafusion::logical_expr::{utils::conjunction, CreateExternalTable, Expr, TableProviderFilterPushDown};
use datafusion::physical_optimizer::pruning::{PruningPredicate, PruningStatistics};
use datafusion::physical_plan::ExecutionPlan;
use datafusion::scalar::ScalarValue;
use object_store::ObjectMeta;
use serde_json::Value;
use std::any::Any;
use std::collections::HashSet;
use std::sync::Arc;

fn scalar(value: Option<&Value>, data_type: &DataType) -> Option<ScalarValue> {
    let null = ScalarValue::try_from(data_type).ok()?;
    let Some(v) = value else { return Some(null) };
    let int = || v.as_i64();
    Some(match data_type {
        DataType::Boolean => ScalarValue::Boolean(v.as_bool()),
        DataType::Int8 => ScalarValue::Int8(int().and_then(|i| i.try_into().ok())),
        DataType::Int16 => ScalarValue::Int16(int().and_then(|i| i.try_into().ok())),
        DataType::Int32 => ScalarValue::Int32(int().and_then(|i| i.try_into().ok())),
        DataType::Int64 => ScalarValue::Int64(int()),
        DataType::Float32 => ScalarValue::Float32(v.as_f64().map(|f| f as f32)),
        DataType::Float64 => ScalarValue::Float64(v.as_f64()),
        DataType::Utf8 => ScalarValue::Utf8(v.as_str().map(str::to_string)),
        DataType::Date32 => ScalarValue::Date32(int().and_then(|i| i.try_into().ok())),
        DataType::Timestamp(TimeUnit::Microsecond, tz) => ScalarValue::TimestampMicrosecond(int(), tz.clone()),
        DataType::Decimal128(p, s) => ScalarValue::Decimal128(v.as_str().and_then(|s| s.parse().ok()), *p, *s),
        _ => null,
    })
}

impl DeltaTableState {
    fn bounds(&self, column: &Column, of: impl Fn(&crate::kernel::Stats, &str) -> Option<Value>) -> Option<ArrayRef> {
        let field = self.schema.field_with_name(&column.name).ok()?;
        let values = self
            .files
            .iter()
            .map(|f| {
                let stats = f.get_json_stats().ok().flatten();
                let v = stats.and_then(|s| of(&s, &column.name));
                scalar(v.as_ref(), field.data_type())
            })
            .collect::<Option<Vec<_>>>()?;
        if values.is_empty() {
            return None;
        }
        ScalarValue::iter_to_array(values).ok()
    }
}

impl PruningStatistics for DeltaTableState {
    fn min_values(&self, column: &Column) -> Option<ArrayRef> {
        self.bounds(column, |s, c| s.min_values.get(c).cloned())
    }

    fn max_values(&self, column: &Column) -> Option<ArrayRef> {
        self.bounds(column, |s, c| s.max_values.get(c).cloned())
    }

    fn num_containers(&self) -> usize {
        self.files.len()
    }

    fn null_counts(&self, column: &Column) -> Option<ArrayRef> {
        self.schema.field_with_name(&column.name).ok()?;
        let counts: Vec<Option<u64>> = self
            .files
            .iter()
            .map(|f| f.get_json_stats().ok().flatten().and_then(|s| s.null_count.get(&column.name).map(|n| *n as u64)))
            .collect();
        Some(Arc::new(UInt64Array::from(counts)))
    }

    fn row_counts(&self, _column: &Column) -> Option<ArrayRef> {
        let counts: Vec<Option<u64>> =
            self.files.iter().map(|f| f.get_json_stats().ok().flatten().map(|s| s.num_records as u64)).collect();
        Some(Arc::new(UInt64Array::from(counts)))
    }

    fn contained(&self, _column: &Column, _values: &HashSet<ScalarValue>) -> Option<BooleanArray> {
        None
    }
}

async fn scan(
    state: &DeltaTableState,
    files: Option<&Vec<Add>>,
    log_store: &LogStoreRef,
    session: &dyn Session,
    projection: Option<&Vec<usize>>,
    filters: &[Expr],
    limit: Option<usize>,
) -> DFResult<Arc<dyn ExecutionPlan>> {
    let root = log_store.root_url();
    let name = format!("{}-{}{}", root.scheme(), root.host_str().unwrap_or("-"), root.path().replace('/', "-"));
    let url = ObjectStoreUrl::parse(format!("delta-rs://{name}"))?;
    session.runtime_env().register_object_store(url.as_ref(), log_store.object_store());

    let mut chosen = files.cloned().unwrap_or_else(|| state.files.clone());
    if let (None, Some(filter)) = (files, conjunction(filters.iter().cloned())) {
        let df_schema = DFSchema::try_from(state.schema.as_ref().clone())?;
        let physical = session.create_physical_expr(filter, &df_schema)?;
        let keep = PruningPredicate::try_new(physical, state.schema.clone())?.prune(state)?;
        chosen = chosen.into_iter().zip(keep).filter_map(|(f, k)| k.then_some(f)).collect();
    }
    let group = chosen
        .iter()
        .map(|f| {
            PartitionedFile::from(ObjectMeta {
                location: Path::from(f.path.as_str()),
                last_modified: Utc.timestamp_millis_opt(f.modification_time).unwrap(),
                size: f.size as usize,
                e_tag: None,
                version: None,
            })
        })
        .collect::<Vec<_>>();
    let config = FileScanConfig::new(url, state.schema.clone())
        .with_file_groups(vec![group])
        .with_projection(projection.cloned())
        .with_limit(limit);
    Ok(ParquetExecBuilder::new(config).build_arc())
}

#[async_trait]
impl TableProvider for DeltaTable {
    fn as_any(&self) -> &dyn Any {
        self
    }

    fn schema(&self) -> SchemaRef {
        self.snapshot().unwrap().schema.clone()
    }

    fn table_type(&self) -> TableType {
        TableType::Base
    }

    async fn scan(
        &self,
        session: &dyn Session,
        projection: Option<&Vec<usize>>,
        filters: &[Expr],
        limit: Option<usize>,
    ) -> DFResult<Arc<dyn ExecutionPlan>> {
        scan(self.snapshot()?, None, &self.log_store(), session, projection, filters, limit).await
    }

    fn supports_filters_pushdown(&self, filter: &[&Expr]) -> DFResult<Vec<TableProviderFilterPushDown>> {
        Ok(vec![TableProviderFilterPushDown::Inexact; filter.len()])
    }
}

#[derive(Clone, Debug, Default)]
pub struct DeltaScanConfig {}

#[derive(Debug)]
pub struct DeltaTableProvider {
    snapshot: DeltaTableState,
    log_store: LogStoreRef,
    files: Option<Vec<Add>>,
}

impl DeltaTableProvider {
    pub fn try_new(snapshot: DeltaTableState, log_store: LogStoreRef, _config: DeltaScanConfig) -> DeltaResult<Self> {
        Ok(Self { snapshot, log_store, files: None })
    }

    pub fn with_files(mut self, files: Vec<Add>) -> Self {
        self.files = Some(files);
        self
    }
}

#[async_trait]
impl TableProvider for DeltaTableProvider {
    fn as_any(&self) -> &dyn Any {
        self
    }

    fn schema(&self) -> SchemaRef {
        self.snapshot.schema.clone()
    }

    fn table_type(&self) -> TableType {
        TableType::Base
    }

    async fn scan(
        &self,
        session: &dyn Session,
        projection: Option<&Vec<usize>>,
        filters: &[Expr],
        limit: Option<usize>,
    ) -> DFResult<Arc<dyn ExecutionPlan>> {
        scan(&self.snapshot, self.files.as_ref(), &self.log_store, session, projection, filters, limit).await
    }

    fn supports_filters_pushdown(&self, filter: &[&Expr]) -> DFResult<Vec<TableProviderFilterPushDown>> {
        Ok(vec![TableProviderFilterPushDown::Inexact; filter.len()])
    }
}

#[derive(Debug)]
pub struct DeltaTableFactory {}

#[async_trait]
impl TableProviderFactory for DeltaTableFactory {
    async fn create(&self, _state: &dyn Session, cmd: &CreateExternalTable) -> DFResult<Arc<dyn TableProvider>> {
        Err(DataFusionError::External(Box::new(DeltaTableError::InvalidTableLocation(cmd.location.clone()))))
    }
}
