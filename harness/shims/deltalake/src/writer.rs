use crate::kernel::Add;
use crate::DeltaResult;
use datafusion::parquet::data_type::Decimal;
use datafusion::parquet::file::metadata::{FileMetaData as _Unused, RowGroupMetaData};
use datafusion::parquet::file::statistics::Statistics;
use datafusion::parquet::basic::{ConvertedType, LogicalType, TimeUnit};
use datafusion::parquet::format::FileMetaData;
use datafusion::parquet::schema::types::{from_thrift, SchemaDescriptor, ColumnDescriptor};
use indexmap::IndexMap;
use serde_json::{json, Map, Value};
use std::cmp::Ordering;
use std::sync::Arc;

#[allow(dead_code)]
fn _unused(_: Option<(_Unused, Decimal)>) {}

/// The addition of a file just written, with the statistics the file itself carries
pub fn create_add(
    partition_values: &IndexMap<String, String>,
    path: String,
    size: i64,
    metadata: &FileMetaData,
    _num_indexed_cols: i32,
    _stats_columns: &Option<Vec<impl AsRef<str>>>,
) -> DeltaResult<Add> {
    let schema = Arc::new(SchemaDescriptor::new(from_thrift(&metadata.schema)?));
    let groups = metadata.row_groups.iter().map(|g| RowGroupMetaData::from_thrift(schema.clone(), g.clone())).collect::<Result<Vec<_>, _>>()?;
    Ok(Add {
        path,
        partition_values: partition_values.iter().map(|(k, v)| (k.clone(), Some(v.clone()))).collect(),
        size,
        modification_time: chrono::Utc::now().timestamp_millis(),
        data_change: true,
        stats: Some(stats_json(&schema, &groups, metadata.num_rows)),
        ..Default::default()
    })
}

fn order(a: &Value, b: &Value) -> Option<Ordering> {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => match (x.as_i64(), y.as_i64()) {
            (Some(x), Some(y)) => Some(x.cmp(&y)),
            _ => x.as_f64()?.partial_cmp(&y.as_f64()?),
        },
        (Value::String(x), Value::String(y)) => Some(x.as_bytes().cmp(y.as_bytes())),
        (Value::Bool(x), Value::Bool(y)) => Some(x.cmp(y)),
        _ => None,
    }
}
fn micros(us: i64) -> Option<Value> {
    let t = chrono::DateTime::from_timestamp_micros(us)?;
    // text order is time order only within years of four digits
    use chrono::Datelike;
    (0..=9999).contains(&t.year()).then(|| json!(t.format("%Y-%m-%dT%H:%M:%S%.6fZ").to_string()))
}
fn bounds(c: &ColumnDescriptor, s: &Statistics) -> Option<(Value, Value)> {
    if c.path().parts().len() != 1 {
        return None;
    }
    if !(s.min_is_exact() && s.max_is_exact()) {
        return None;
    }
    let logical = c.logical_type();
    Some(match s {
        Statistics::Boolean(s) => (json!(s.min_opt()?), json!(s.max_opt()?)),
        Statistics::Int32(s) => {
            let (a, b) = (*s.min_opt()?, *s.max_opt()?);
            match (&logical, c.converted_type()) {
                (Some(LogicalType::Date), _) => {
                    use chrono::Datelike;
                    let d = |n: i32| chrono::NaiveDate::from_ymd_opt(1970, 1, 1)?.checked_add_signed(chrono::Duration::days(n as i64)).filter(|d| (0..=9999).contains(&d.year())).map(|d| json!(d.format("%Y-%m-%d").to_string()));
                    (d(a)?, d(b)?)
                }
                (Some(LogicalType::Decimal { .. }), _) => return None,
                (Some(LogicalType::Integer { is_signed: false, .. }), _) | (_, ConvertedType::UINT_32) => return None,
                _ => (json!(a), json!(b)),
            }
        }
        Statistics::Int64(s) => {
            let (a, b) = (*s.min_opt()?, *s.max_opt()?);
            match &logical {
                Some(LogicalType::Timestamp { unit, .. }) => {
                    let k = match unit { TimeUnit::MILLIS(_) => 1000, TimeUnit::MICROS(_) => 1, TimeUnit::NANOS(_) => return None };
                    (micros(a.checked_mul(k)?)?, micros(b.checked_mul(k)?)?)
                }
                Some(LogicalType::Decimal { .. }) | Some(LogicalType::Integer { is_signed: false, .. }) | Some(LogicalType::Time { .. }) => return None,
                _ => (json!(a), json!(b)),
            }
        }
        Statistics::Float(s) => (json!(finite(*s.min_opt()? as f64)?), json!(finite(*s.max_opt()? as f64)?)),
        Statistics::Double(s) => (json!(finite(*s.min_opt()?)?), json!(finite(*s.max_opt()?)?)),
        Statistics::ByteArray(s) if matches!(logical, Some(LogicalType::String)) || c.converted_type() == ConvertedType::UTF8 => {
            (json!(std::str::from_utf8(s.min_opt()?.data()).ok()?), json!(std::str::from_utf8(s.max_opt()?.data()).ok()?))
        }
        _ => return None,
    })
}
fn finite(f: f64) -> Option<f64> {
    f.is_finite().then_some(f)
}
pub(crate) fn stats_json(schema: &SchemaDescriptor, groups: &[RowGroupMetaData], rows: i64) -> String {
    let (mut min, mut max, mut nulls) = (Map::new(), Map::new(), Map::new());
    for (i, c) in schema.columns().iter().enumerate() {
        if c.path().parts().len() != 1 || c.max_rep_level() > 0 {
            continue;
        }
        let name = c.name().to_string();
        let mut count = Some(0i64);
        let mut b: Option<(Value, Value)> = None;
        let mut known = true;
        for g in groups {
            let Some(s) = g.column(i).statistics() else { count = None; known = false; break };
            let n = s.null_count_opt().map(|n| n as i64);
            count = count.zip(n).map(|(a, b)| a + b);
            if n == Some(g.num_rows()) {
                continue;
            }
            match (bounds(c, s), &mut b) {
                (None, _) => { known = false; }
                (Some(x), None) => b = Some(x),
                (Some((lo, hi)), Some((l, h))) => {
                    match order(&lo, l) { Some(Ordering::Less) => *l = lo, Some(_) => {}, None => known = false }
                    match order(&hi, h) { Some(Ordering::Greater) => *h = hi, Some(_) => {}, None => known = false }
                }
            }
        }
        // floats: a NaN is in no bound
        if known {
            if let Some((lo, hi)) = b {
                min.insert(name.clone(), lo);
                max.insert(name.clone(), hi);
            }
        }
        if let Some(n) = count {
            nulls.insert(name, json!(n));
        }
    }
    json!({"numRecords": rows, "minValues": min, "maxValues": max, "nullCount": nulls}).to_string()
}
