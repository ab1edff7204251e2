//! The names of iceberg-rust that Seafowl uses. No operation is available; each is an error, except that a table
//! can be opened by its metadata location, which then remembers where it was said to be and with what properties.
use std::collections::HashMap;
use std::fmt;
use std::sync::Arc;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ErrorKind { DataInvalid, FeatureUnsupported, Unexpected }
#[derive(Debug)]
pub struct Error { kind: ErrorKind, message: String }
impl Error {
    pub fn new(kind: ErrorKind, message: impl Into<String>) -> Self { Self { kind, message: message.into() } }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?} => {}", self.kind, self.message) }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
pub(crate) fn na<T>() -> Result<T> { Err(Error::new(ErrorKind::FeatureUnsupported, "Iceberg is not available in this build")) }

#[derive(Debug, Clone)]
pub struct TableIdent { pub parts: Vec<String> }
impl TableIdent {
    pub fn from_strs(i: impl IntoIterator<Item = impl ToString>) -> Result<Self> { Ok(Self { parts: i.into_iter().map(|s| s.to_string()).collect() }) }
}
pub struct TableCreation;
pub struct TableCreationBuilder;
impl TableCreation { pub fn builder() -> TableCreationBuilder { TableCreationBuilder } }
impl TableCreationBuilder {
    pub fn name(self, _: String) -> Self { self }
    pub fn schema(self, _: spec::Schema) -> Self { self }
    pub fn location(self, _: String) -> Self { self }
    pub fn build(self) -> TableCreation { TableCreation }
}

pub mod io {
    use super::*;
    pub const S3_ENDPOINT: &str = "s3.endpoint";
    pub const S3_ACCESS_KEY_ID: &str = "s3.access-key-id";
    pub const S3_SECRET_ACCESS_KEY: &str = "s3.secret-access-key";
    pub const S3_REGION: &str = "s3.region";
    pub const S3_ALLOW_ANONYMOUS: &str = "s3.allow-anonymous";
    pub const S3_DISABLE_EC2_METADATA: &str = "s3.disable-ec2-metadata";
    pub const S3_DISABLE_CONFIG_LOAD: &str = "s3.disable-config-load";
    #[derive(Debug, Clone)]
    pub struct FileIO { pub props: HashMap<String, String> }
    pub struct FileIOBuilder { props: HashMap<String, String> }
    impl FileIO {
        pub fn from_path(_: impl AsRef<str>) -> Result<FileIOBuilder> { Ok(FileIOBuilder { props: HashMap::new() }) }
        pub fn new_input(&self, _: impl AsRef<str>) -> Result<InputFile> { na() }
        pub fn new_output(&self, _: impl AsRef<str>) -> Result<OutputFile> { na() }
    }
    impl FileIOBuilder {
        pub fn with_props(mut self, p: impl IntoIterator<Item = (impl ToString, impl ToString)>) -> Self { self.props.extend(p.into_iter().map(|(k, v)| (k.to_string(), v.to_string()))); self }
        pub fn build(self) -> Result<FileIO> { Ok(FileIO { props: self.props }) }
    }
    pub struct InputFile;
    pub struct OutputFile;
    impl InputFile {
        pub async fn exists(&self) -> Result<bool> { na() }
        pub async fn read(&self) -> Result<bytes::Bytes> { na() }
    }
    impl OutputFile {
        pub async fn write(&self, _: bytes::Bytes) -> Result<()> { na() }
        pub async fn write_exclusive(&self, _: bytes::Bytes) -> Result<()> { na() }
    }
}

pub mod table {
    use super::*;
    #[derive(Debug, Clone)]
    pub struct Table { io: io::FileIO, pub path: String, pub ident: TableIdent }
    impl Table {
        pub fn metadata(&self) -> &spec::TableMetadata { unreachable!() }
        pub fn file_io(&self) -> &io::FileIO { &self.io }
    }
    pub struct StaticTable(Table);
    impl StaticTable {
        pub async fn from_metadata_file(path: &str, ident: TableIdent, io: io::FileIO) -> Result<Self> { Ok(Self(Table { io, path: path.into(), ident })) }
        pub fn into_table(self) -> Table { self.0 }
    }
}

pub mod arrow {
    use super::*;
    pub fn arrow_schema_to_schema(_: &arrow_schema::Schema) -> Result<spec::Schema> { na() }
}

pub mod spec {
    use super::*;
    #[derive(Debug, Clone)]
    pub struct NestedField { pub name: String, pub required: bool, pub field_type: String }
    #[derive(Debug, Clone)]
    pub struct StructType { f: Vec<NestedField> }
    impl StructType { pub fn fields(&self) -> &[NestedField] { &self.f } }
    #[derive(Debug, Clone)]
    pub struct Schema { s: StructType }
    impl Schema { pub fn as_struct(&self) -> &StructType { &self.s } }
    #[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
    pub struct TableMetadata {}
    impl TableMetadata {
        pub fn location(&self) -> &str { unreachable!() }
        pub fn current_snapshot(&self) -> Option<&Arc<Snapshot>> { unreachable!() }
        pub fn current_schema(&self) -> &Arc<Schema> { unreachable!() }
        pub fn last_sequence_number(&self) -> i64 { unreachable!() }
    }
    pub struct TableMetadataBuilder;
    pub struct TableMetadataBuildResult;
    impl From<TableMetadataBuildResult> for TableMetadata { fn from(_: TableMetadataBuildResult) -> Self { unreachable!() } }
    impl TableMetadataBuilder {
        pub fn from_table_creation(_: TableCreation) -> Result<Self> { na() }
        pub fn new_from_metadata(_: TableMetadata, _: Option<String>) -> Self { Self }
        pub fn add_snapshot(self, _: Snapshot) -> Result<Self> { na() }
        pub fn set_ref(self, _: &str, _: SnapshotReference) -> Result<Self> { na() }
        pub fn build(self) -> Result<TableMetadataBuildResult> { na() }
    }
    #[derive(Debug, Clone)]
    pub struct Snapshot;
    pub struct SnapshotBuilder;
    impl Snapshot {
        pub fn builder() -> SnapshotBuilder { SnapshotBuilder }
        pub fn snapshot_id(&self) -> i64 { unreachable!() }
        pub async fn load_manifest_list(&self, _: &io::FileIO, _: &TableMetadata) -> Result<ManifestList> { na() }
    }
    impl SnapshotBuilder {
        pub fn with_snapshot_id(self, _: i64) -> Self { self }
        pub fn with_schema_id(self, _: i32) -> Self { self }
        pub fn with_manifest_list(self, _: String) -> Self { self }
        pub fn with_sequence_number(self, _: i64) -> Self { self }
        pub fn with_timestamp_ms(self, _: i64) -> Self { self }
        pub fn with_summary(self, _: Summary) -> Self { self }
        pub fn build(self) -> Snapshot { Snapshot }
    }
    pub struct SnapshotReference;
    impl SnapshotReference { pub fn new(_: i64, _: SnapshotRetention) -> Self { Self } }
    pub struct SnapshotRetention;
    impl SnapshotRetention { pub fn branch(_: Option<i32>, _: Option<i64>, _: Option<i64>) -> Self { Self } }
    pub struct Summary { pub operation: Operation, pub additional_properties: HashMap<String, String> }
    pub enum Operation { Append }
    pub struct ManifestList;
    impl ManifestList { pub fn consume_entries(self) -> Vec<ManifestFile> { vec![] } }
    #[derive(Debug)]
    pub struct ManifestFile { pub manifest_path: String }
    pub struct ManifestListWriter;
    impl ManifestListWriter {
        pub fn v2(_: io::OutputFile, _: i64, _: Option<i64>, _: i64) -> Self { Self }
        pub fn add_manifests(&mut self, _: impl Iterator<Item = ManifestFile>) -> Result<()> { na() }
        pub async fn close(self) -> Result<()> { na() }
    }
    pub struct ManifestWriter;
    impl ManifestWriter {
        pub fn new(_: io::OutputFile, _: i64, _: Vec<u8>) -> Self { Self }
        pub async fn write(self, _: Manifest) -> Result<ManifestFile> { na() }
    }
    pub struct Manifest;
    impl Manifest { pub fn new(_: ManifestMetadata, _: Vec<ManifestEntry>) -> Self { Self } }
    pub struct ManifestMetadata;
    pub struct ManifestMetadataBuilder;
    impl ManifestMetadata { pub fn builder() -> ManifestMetadataBuilder { ManifestMetadataBuilder } }
    impl ManifestMetadataBuilder {
        pub fn schema_id(self, _: i32) -> Self { self }
        pub fn schema(self, _: Arc<Schema>) -> Self { self }
        pub fn partition_spec(self, _: PartitionSpec) -> Self { self }
        pub fn content(self, _: ManifestContentType) -> Self { self }
        pub fn format_version(self, _: FormatVersion) -> Self { self }
        pub fn build(self) -> ManifestMetadata { ManifestMetadata }
    }
    pub struct ManifestEntry;
    pub struct ManifestEntryBuilder;
    impl ManifestEntry { pub fn builder() -> ManifestEntryBuilder { ManifestEntryBuilder } }
    impl ManifestEntryBuilder {
        pub fn status(self, _: ManifestStatus) -> Self { self }
        pub fn snapshot_id(self, _: i64) -> Self { self }
        pub fn data_file(self, _: DataFile) -> Self { self }
        pub fn build(self) -> ManifestEntry { ManifestEntry }
    }
    #[derive(Debug, Clone)]
    pub struct DataFile;
    impl DataFile { pub fn file_path(&self) -> &str { unreachable!() } }
    pub struct DataFileBuilder;
    impl DataFileBuilder {
        pub fn content(&mut self, _: DataContentType) -> &mut Self { self }
        pub fn partition(&mut self, _: Struct) -> &mut Self { self }
        pub fn build(&self) -> Result<DataFile> { na() }
    }
    pub enum ManifestStatus { Added }
    pub enum ManifestContentType { Data }
    pub enum DataContentType { Data }
    pub enum DataFileFormat { Parquet }
    pub enum FormatVersion { V2 }
    pub struct Struct;
    impl Struct { pub fn empty() -> Self { Self } }
    pub struct PartitionSpec;
    pub struct PartitionSpecBuilder;
    impl PartitionSpec { pub fn builder(_: Arc<Schema>) -> PartitionSpecBuilder { PartitionSpecBuilder } }
    impl PartitionSpecBuilder {
        pub fn with_spec_id(self, _: i32) -> Self { self }
        pub fn build(self) -> Result<PartitionSpec> { na() }
    }
}

pub mod writer {
    pub mod file_writer {
        use crate::*;
        pub mod location_generator {
            use crate::*;
            #[derive(Clone)]
            pub struct DefaultLocationGenerator;
            impl DefaultLocationGenerator { pub fn new(_: spec::TableMetadata) -> Result<Self> { na() } }
            #[derive(Clone)]
            pub struct DefaultFileNameGenerator;
            impl DefaultFileNameGenerator { pub fn new(_: String, _: Option<String>, _: spec::DataFileFormat) -> Self { Self } }
        }
        #[allow(async_fn_in_trait)]
        pub trait FileWriterBuilder { type R: FileWriter; fn build(self) -> impl std::future::Future<Output = Result<Self::R>> + Send; }
        pub trait FileWriter {
            fn write(&mut self, _: &::arrow::record_batch::RecordBatch) -> impl std::future::Future<Output = Result<()>> + Send;
            fn close(self) -> impl std::future::Future<Output = Result<Vec<spec::DataFileBuilder>>> + Send;
        }
        pub struct ParquetWriterBuilder;
        impl ParquetWriterBuilder {
            pub fn new(_: parquet::file::properties::WriterProperties, _: Arc<spec::Schema>, _: io::FileIO, _: location_generator::DefaultLocationGenerator, _: location_generator::DefaultFileNameGenerator) -> Self { Self }
        }
        pub struct ParquetWriter;
        impl FileWriterBuilder for ParquetWriterBuilder { type R = ParquetWriter; async fn build(self) -> Result<ParquetWriter> { na() } }
        impl FileWriter for ParquetWriter {
            async fn write(&mut self, _: &::arrow::record_batch::RecordBatch) -> Result<()> { na() }
            async fn close(self) -> Result<Vec<spec::DataFileBuilder>> { na() }
        }
    }
}
