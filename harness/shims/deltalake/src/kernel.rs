//! Actions of the log and the table schema.
use arrow_schema::{ArrowError, DataType as A, Field, Schema as ArrowSchema, TimeUnit};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::HashMap;

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct Add {
    pub path: String,
    pub partition_values: HashMap<String, Option<String>>,
    pub size: i64,
    pub modification_time: i64,
    pub data_change: bool,
    pub stats: Option<String>,
    pub tags: Option<HashMap<String, Option<String>>>,
    #[serde(skip)]
    pub deletion_vector: Option<()>,
    pub base_row_id: Option<i64>,
    pub default_row_commit_version: Option<i64>,
    pub clustering_provider: Option<String>,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct Remove {
    pub path: String,
    pub data_change: bool,
    pub deletion_timestamp: Option<i64>,
    pub extended_file_metadata: Option<bool>,
    pub partition_values: Option<HashMap<String, Option<String>>>,
    pub size: Option<i64>,
    pub tags: Option<HashMap<String, Option<String>>>,
    #[serde(skip)]
    pub deletion_vector: Option<()>,
    pub base_row_id: Option<i64>,
    pub default_row_commit_version: Option<i64>,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Default)]
#[serde(rename_all = "camelCase")]
pub struct CommitInfo {
    pub timestamp: Option<i64>,
    pub operation: Option<String>,
    #[serde(flatten, default)]
    pub info: HashMap<String, Value>,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Default)]
#[serde(rename_all = "camelCase")]
pub struct Metadata {
    pub id: String,
    pub name: Option<String>,
    pub description: Option<String>,
    pub schema_string: String,
    pub partition_columns: Vec<String>,
    pub created_time: Option<i64>,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Default)]
#[serde(rename_all = "camelCase")]
pub struct Protocol {
    pub min_reader_version: i32,
    pub min_writer_version: i32,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
#[serde(rename_all = "camelCase")]
pub enum Action {
    #[serde(rename = "metaData")]
    Metadata(Metadata),
    Add(Add),
    Remove(Remove),
    Protocol(Protocol),
    CommitInfo(CommitInfo),
}
impl Action {
    pub fn commit_info(info: HashMap<String, Value>) -> Self {
        Action::CommitInfo(CommitInfo { info, ..Default::default() })
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct StructField {
    pub name: String,
    pub data_type: Value,
    pub nullable: bool,
    pub metadata: HashMap<String, Value>,
}
#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct StructType {
    pub fields: Vec<StructField>,
}
pub type Schema = StructType;

impl StructType {
    pub fn fields(&self) -> impl Iterator<Item = &StructField> {
        self.fields.iter()
    }
    pub fn new(fields: Vec<StructField>) -> Self {
        Self { fields }
    }
    pub fn to_json(&self) -> Value {
        json!({"type": "struct", "fields": self.fields.iter().map(|f| json!({"name": f.name, "type": f.data_type, "nullable": f.nullable, "metadata": f.metadata})).collect::<Vec<_>>()})
    }
    pub fn from_json(v: &Value) -> Result<Self, ArrowError> {
        let bad = || ArrowError::SchemaError(format!("bad schema {v}"));
        let fields = v["fields"].as_array().ok_or_else(bad)?;
        Ok(Self {
            fields: fields.iter().map(|f| Ok(StructField {
                name: f["name"].as_str().ok_or_else(bad)?.to_string(),
                data_type: f["type"].clone(),
                nullable: f["nullable"].as_bool().ok_or_else(bad)?,
                metadata: f["metadata"].as_object().map(|m| m.iter().map(|(k, v)| (k.clone(), v.clone())).collect()).unwrap_or_default(),
            })).collect::<Result<_, ArrowError>>()?,
        })
    }
}

fn to_delta(t: &A) -> Result<Value, ArrowError> {
    Ok(match t {
        A::Utf8 | A::LargeUtf8 | A::Utf8View => json!("string"),
        A::Int64 | A::UInt64 => json!("long"),
        A::Int32 | A::UInt32 => json!("integer"),
        A::Int16 | A::UInt16 => json!("short"),
        A::Int8 | A::UInt8 => json!("byte"),
        A::Float32 => json!("float"),
        A::Float64 => json!("double"),
        A::Boolean => json!("boolean"),
        A::Binary | A::LargeBinary | A::BinaryView | A::FixedSizeBinary(_) => json!("binary"),
        A::Date32 | A::Date64 => json!("date"),
        A::Decimal128(p, s) if *s >= 0 => json!(format!("decimal({p},{s})")),
        A::Decimal256(p, s) if *s >= 0 && *p <= 38 => json!(format!("decimal({p},{s})")),
        A::Timestamp(TimeUnit::Microsecond, None) => json!("timestamp_ntz"),
        A::Timestamp(TimeUnit::Microsecond, Some(tz)) if ["utc", "+00:00", "z"].contains(&tz.to_lowercase().as_str()) => json!("timestamp"),
        A::Struct(fs) => StructType { fields: fs.iter().map(|f| field_to_delta(f)).collect::<Result<_, _>>()? }.to_json(),
        A::List(f) | A::LargeList(f) | A::FixedSizeList(f, _) => json!({"type": "array", "elementType": to_delta(f.data_type())?, "containsNull": f.is_nullable()}),
        A::Map(f, _) => match f.data_type() {
            A::Struct(kv) => json!({"type": "map", "keyType": to_delta(kv[0].data_type())?, "valueType": to_delta(kv[1].data_type())?, "valueContainsNull": kv[1].is_nullable()}),
            t => return Err(ArrowError::SchemaError(format!("Invalid data type for Delta Lake: {t}"))),
        },
        A::Dictionary(_, v) => to_delta(v)?,
        t => return Err(ArrowError::SchemaError(format!("Invalid data type for Delta Lake: {t}"))),
    })
}
fn field_to_delta(f: &Field) -> Result<StructField, ArrowError> {
    Ok(StructField {
        name: f.name().clone(),
        data_type: to_delta(f.data_type())?,
        nullable: f.is_nullable(),
        metadata: f.metadata().iter().map(|(k, v)| (k.clone(), json!(v))).collect(),
    })
}
fn to_arrow(v: &Value) -> Result<A, ArrowError> {
    let bad = || ArrowError::SchemaError(format!("Invalid data type {v}"));
    if let Some(s) = v.as_str() {
        return Ok(match s {
            "string" => A::Utf8,
            "long" => A::Int64,
            "integer" => A::Int32,
            "short" => A::Int16,
            "byte" => A::Int8,
            "float" => A::Float32,
            "double" => A::Float64,
            "boolean" => A::Boolean,
            "binary" => A::Binary,
            "date" => A::Date32,
            "timestamp" => A::Timestamp(TimeUnit::Microsecond, Some("UTC".into())),
            "timestamp_ntz" => A::Timestamp(TimeUnit::Microsecond, None),
            d => {
                let (p, s) = d.strip_prefix("decimal(").and_then(|x| x.strip_suffix(')')).and_then(|x| x.split_once(',')).ok_or_else(bad)?;
                A::Decimal128(p.parse().map_err(|_| bad())?, s.parse().map_err(|_| bad())?)
            }
        });
    }
    Ok(match v["type"].as_str() {
        Some("struct") => A::Struct(StructType::from_json(v)?.fields.iter().map(field_to_arrow).collect::<Result<Vec<Field>, _>>()?.into()),
        Some("array") => A::List(Field::new("element", to_arrow(&v["elementType"])?, v["containsNull"].as_bool().ok_or_else(bad)?).into()),
        Some("map") => A::Map(Field::new("entries", A::Struct(vec![Field::new("keys", to_arrow(&v["keyType"])?, false), Field::new("values", to_arrow(&v["valueType"])?, v["valueContainsNull"].as_bool().ok_or_else(bad)?)].into()), false).into(), false),
        _ => return Err(bad()),
    })
}
fn field_to_arrow(f: &StructField) -> Result<Field, ArrowError> {
    Ok(Field::new(&f.name, to_arrow(&f.data_type)?, f.nullable)
        .with_metadata(f.metadata.iter().map(|(k, v)| (k.clone(), v.as_str().map(|s| s.to_string()).unwrap_or_else(|| v.to_string()))).collect()))
}
impl TryFrom<&ArrowSchema> for StructType {
    type Error = ArrowError;
    fn try_from(s: &ArrowSchema) -> Result<Self, ArrowError> {
        Ok(Self { fields: s.fields().iter().map(|f| field_to_delta(f)).collect::<Result<_, _>>()? })
    }
}
impl TryFrom<&StructType> for ArrowSchema {
    type Error = ArrowError;
    fn try_from(s: &StructType) -> Result<Self, ArrowError> {
        Ok(ArrowSchema::new(s.fields.iter().map(field_to_arrow).collect::<Result<Vec<_>, _>>()?))
    }
}

/// What a file's statistics say of its size
#[derive(Debug, Clone)]
pub struct FileStats {
    pub num_records: i64,
}
impl Add {
    pub fn get_json_stats(&self) -> Result<Option<FileStats>, serde_json::Error> {
        self.stats.as_deref().map(|s| serde_json::from_str::<Value>(s).map(|v| FileStats { num_records: v["numRecords"].as_i64().unwrap_or(0) })).transpose()
    }
}
