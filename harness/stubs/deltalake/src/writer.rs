use crate::errors::DeltaTableError;
use crate::kernel::{Add, Stats};
use datafusion::scalar::ScalarValue;
use parquet::basic::{ConvertedType, LogicalType};
use parquet::file::metadata::{ParquetMetaData, RowGroupMetaData};
use parquet::file::statistics::Statistics;
use parquet::format::FileMetaData;
use parquet::schema::types::{from_thrift, to_thrift, ColumnDescriptor, SchemaDescriptor};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::Arc;

pub(crate) fn thrift(md: &ParquetMetaData) -> FileMetaData {
    let file = md.file_metadata();
    FileMetaData::new(
        file.version(),
        to_thrift(file.schema()).expect("a Parquet schema"),
        file.num_rows(),
        md.row_groups().iter().map(|g| g.to_thrift()).collect::<Vec<_>>(),
        None,
        None,
        None,
        None,
        None,
    )
}

fn decimal(descr: &ColumnDescriptor) -> bool {
    matches!(descr.logical_type(), Some(LogicalType::Decimal { .. })) || descr.converted_type() == ConvertedType::DECIMAL
}

fn text(descr: &ColumnDescriptor) -> bool {
    matches!(descr.logical_type(), Some(LogicalType::String)) || descr.converted_type() == ConvertedType::UTF8
}

fn big_endian(b: &[u8]) -> Value {
    let mut v: i128 = if b.first().is_some_and(|x| x & 0x80 != 0) { -1 } else { 0 };
    for x in b {
        v = (v << 8) | *x as i128;
    }
    json!(v.to_string())
}

fn bounds(stats: &Statistics, descr: &ColumnDescriptor) -> (Option<Value>, Option<Value>) {
    let float = |v: f64| v.is_finite().then(|| json!(v));
    let int = |v: i64| Some(if decimal(descr) { json!(v.to_string()) } else { json!(v) });
    let bytes = |b: &[u8]| {
        if decimal(descr) {
            Some(big_endian(b))
        } else if text(descr) {
            std::str::from_utf8(b).ok().map(|s| json!(s))
        } else {
            None
        }
    };
    match stats {
        Statistics::Boolean(s) => (s.min_opt().map(|v| json!(v)), s.max_opt().map(|v| json!(v))),
        Statistics::Int32(s) => (s.min_opt().and_then(|v| int(*v as i64)), s.max_opt().and_then(|v| int(*v as i64))),
        Statistics::Int64(s) => (s.min_opt().and_then(|v| int(*v)), s.max_opt().and_then(|v| int(*v))),
        Statistics::Float(s) => (s.min_opt().and_then(|v| float(*v as f64)), s.max_opt().and_then(|v| float(*v as f64))),
        Statistics::Double(s) => (s.min_opt().and_then(|v| float(*v)), s.max_opt().and_then(|v| float(*v))),
        Statistics::ByteArray(s) => (s.min_opt().and_then(|v| bytes(v.data())), s.max_opt().and_then(|v| bytes(v.data()))),
        Statistics::FixedLenByteArray(s) => (s.min_opt().and_then(|v| bytes(v.data())), s.max_opt().and_then(|v| bytes(v.data()))),
        Statistics::Int96(_) => (None, None),
    }
}

fn compare(a: &Value, b: &Value) -> std::cmp::Ordering {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => match (x.as_i64(), y.as_i64()) {
            (Some(x), Some(y)) => x.cmp(&y),
            _ => x.as_f64().unwrap().total_cmp(&y.as_f64().unwrap()),
        },
        (Value::String(x), Value::String(y)) => x.as_bytes().cmp(y.as_bytes()),
        (Value::Bool(x), Value::Bool(y)) => x.cmp(y),
        _ => std::cmp::Ordering::Equal,
    }
}

fn compare_decimal(a: &Value, b: &Value) -> std::cmp::Ordering {
    a.as_str().unwrap().parse::<i128>().unwrap().cmp(&b.as_str().unwrap().parse::<i128>().unwrap())
}

/// Describes a Parquet file that was written, with the bounds of its columns
pub fn create_add(
    _partition_values: &HashMap<String, ScalarValue>,
    path: String,
    size: i64,
    file_metadata: &FileMetaData,
    _num_indexed_cols: i32,
    _stats_columns: &Option<Vec<impl AsRef<str>>>,
) -> Result<Add, DeltaTableError> {
    let descr = Arc::new(SchemaDescriptor::new(from_thrift(&file_metadata.schema)?));
    let mut stats = Stats { num_records: file_metadata.num_rows, ..Default::default() };
    let groups = file_metadata
        .row_groups
        .iter()
        .map(|g| RowGroupMetaData::from_thrift(descr.clone(), g.clone()))
        .collect::<Result<Vec<_>, _>>()?;
    for (i, column) in descr.columns().iter().enumerate() {
        if column.path().parts().len() != 1 {
            continue;
        }
        let name = column.name().to_string();
        let (mut min, mut max, mut nulls): (Option<Value>, Option<Value>, Option<i64>) = (None, None, Some(0));
        let mut known = true;
        for group in &groups {
            let (lo, hi, n) = match group.column(i).statistics() {
                Some(s) => {
                    let (lo, hi) = bounds(s, column);
                    (lo, hi, s.null_count_opt())
                }
                None => (None, None, None),
            };
            nulls = nulls.zip(n).map(|(a, b)| a + b as i64);
            let all_null = n == Some(group.num_rows() as u64);
            let cmp = if decimal(column) { compare_decimal } else { compare };
            match (lo, hi) {
                (Some(lo), Some(hi)) => {
                    min = Some(match min {
                        Some(m) if cmp(&m, &lo).is_le() => m,
                        _ => lo,
                    });
                    max = Some(match max {
                        Some(m) if cmp(&m, &hi).is_ge() => m,
                        _ => hi,
                    });
                }
                _ => known &= all_null,
            }
        }
        if let Some(n) = nulls {
            stats.null_count.insert(name.clone(), n);
        }
        if let (true, Some(lo), Some(hi)) = (known, min, max) {
            stats.min_values.insert(name.clone(), lo);
            stats.max_values.insert(name, hi);
        }
    }
    Ok(Add {
        path,
        size,
        modification_time: chrono::Utc::now().timestamp_millis(),
        data_change: true,
        stats: Some(serde_json::to_string(&stats)?),
        ..Default::default()
    })
}
