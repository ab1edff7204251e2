use crate::kernel::{Action, CommitInfo};
use crate::logstore::LogStoreRef;
use crate::protocol::DeltaOperation;
use crate::table::DeltaTableState;
use crate::{DeltaResult, DeltaTableError};
use futures::future::BoxFuture;
use std::collections::{HashMap, HashSet};
use std::future::IntoFuture;

#[derive(Default)]
pub struct CommitBuilder { actions: Vec<Action> }
impl CommitBuilder {
    pub fn with_actions(mut self, a: Vec<Action>) -> Self { self.actions = a; self }
    pub fn build(self, read: Option<&DeltaTableState>, log: LogStoreRef, op: DeltaOperation) -> PreCommit {
        PreCommit { actions: self.actions, read: read.map(|s| s.version), log, op }
    }
}
pub struct PreCommit { actions: Vec<Action>, read: Option<i64>, log: LogStoreRef, op: DeltaOperation }
pub struct FinalizedCommit { pub version: i64 }

pub(crate) fn commit_info(op: &DeltaOperation) -> Action {
    Action::CommitInfo(CommitInfo { timestamp: Some(chrono::Utc::now().timestamp_millis()), operation: Some(op.name().to_string()), info: HashMap::new() })
}

impl IntoFuture for PreCommit {
    type Output = DeltaResult<FinalizedCommit>;
    type IntoFuture = BoxFuture<'static, Self::Output>;
    fn into_future(self) -> Self::IntoFuture {
        Box::pin(async move {
            let Self { mut actions, read, log, op } = self;
            if !actions.iter().any(|a| matches!(a, Action::CommitInfo(_))) {
                actions.push(commit_info(&op));
            } else {
                for a in &mut actions {
                    if let Action::CommitInfo(c) = a {
                        c.timestamp = Some(chrono::Utc::now().timestamp_millis());
                        c.operation = Some(op.name().to_string());
                    }
                }
            }
            let removed: HashSet<String> = actions.iter().filter_map(|a| if let Action::Remove(r) = a { Some(r.path.clone()) } else { None }).collect();
            let mut v = read.unwrap_or(-1) + 1;
            for _ in 0..1 + 15 {
                match log.write_commit(v, &actions).await {
                    Ok(()) => return Ok(FinalizedCommit { version: v }),
                    Err(DeltaTableError::VersionAlreadyExists(_)) => {
                        // the winner may not have removed what is removed here, nor changed the table itself
                        for a in log.read_commit(v).await? {
                            match a {
                                Action::Remove(r) if removed.contains(&r.path) => return Err(DeltaTableError::Transaction(
                                    "Failed to commit transaction: Commit failed: a concurrent transaction deleted the same data your transaction deletes.\nHelp: you should retry your write operation, if it is still needed.".into())),
                                Action::Metadata(_) | Action::Protocol(_) => return Err(DeltaTableError::Transaction("Failed to commit transaction: Metadata changed since last commit.".into())),
                                _ => {}
                            }
                        }
                        v += 1;
                    }
                    Err(e) => return Err(e),
                }
            }
            Err(DeltaTableError::Transaction("Failed to commit transaction: Max commit attempts exceeded".into()))
        })
    }
}
