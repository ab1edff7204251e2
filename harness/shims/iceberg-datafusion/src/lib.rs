//! Stand-in for the iceberg-rust fork's DataFusion side; a table has one row, which says where it is and with what properties.
use datafusion::arrow::array::{ArrayRef, RecordBatch, StringArray};
use arrow_schema::{DataType, Field, Schema, SchemaRef};
use async_trait::async_trait;
use datafusion::catalog::Session;
use datafusion::datasource::{MemTable, TableProvider, TableType};
use datafusion::error::{DataFusionError, Result};
use datafusion::physical_plan::ExecutionPlan;
use datafusion_expr::Expr;
use iceberg::table::Table;
use std::any::Any;
use std::sync::Arc;

#[derive(Debug, Clone)]
pub struct IcebergTableProvider { table: Table }
impl IcebergTableProvider {
    pub async fn try_new_from_table(table: Table) -> iceberg::Result<Self> { Ok(Self { table }) }
    pub fn table(&self) -> Table { self.table.clone() }
}
#[async_trait]
impl TableProvider for IcebergTableProvider {
    fn as_any(&self) -> &dyn Any { self }
    fn schema(&self) -> SchemaRef {
        Arc::new(Schema::new(["path", "ident", "props"].map(|n| Field::new(n, DataType::Utf8, false)).to_vec()))
    }
    fn table_type(&self) -> TableType { TableType::Base }
    async fn scan(&self, s: &dyn Session, p: Option<&Vec<usize>>, f: &[Expr], l: Option<usize>) -> Result<Arc<dyn ExecutionPlan>> {
        let mut props: Vec<String> = self.table.file_io().props.iter().map(|(k, v)| format!("{k}={v}")).collect();
        props.sort();
        let cells = [self.table.path.clone(), self.table.ident.parts.join("/"), props.join(" ")];
        let row = RecordBatch::try_new(self.schema(), cells.map(|c| Arc::new(StringArray::from(vec![c])) as ArrayRef).to_vec())?;
        MemTable::try_new(self.schema(), vec![vec![row]])?.scan(s, p, f, l).await
    }
}
pub mod table_provider_factory {
    use super::*;
    use datafusion::catalog::TableProviderFactory;
    use datafusion_expr::CreateExternalTable;
    #[derive(Debug)]
    pub struct IcebergTableProviderFactory {}
    #[async_trait]
    impl TableProviderFactory for IcebergTableProviderFactory {
        async fn create(&self, _: &dyn Session, _: &CreateExternalTable) -> Result<Arc<dyn TableProvider>> { Err(DataFusionError::NotImplemented("Iceberg".into())) }
    }
}
