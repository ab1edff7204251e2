#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum SaveMode { Append, Overwrite, ErrorIfExists, Ignore }
#[derive(Debug, Clone)]
pub enum DeltaOperation {
    Create { mode: SaveMode, location: String },
    Write { mode: SaveMode, partition_by: Option<Vec<String>>, predicate: Option<String> },
    Delete { predicate: Option<String> },
    Convert,
    VacuumStart,
    Vacuum,
}
impl DeltaOperation {
    pub fn name(&self) -> &str {
        match self {
            Self::Create { .. } => "CREATE TABLE",
            Self::Write { .. } => "WRITE",
            Self::Delete { .. } => "DELETE",
            Self::Convert => "CONVERT",
            Self::VacuumStart => "VACUUM START",
            Self::Vacuum => "VACUUM END",
        }
    }
}
