//! The record of dropped tables against DroppedTables.tla
use crate::repository::interface::*;
use crate::repository::sqlite::SqliteRepository;
use crate::v_catalog::class;
use crate::v_graph::*;
use crate::v_util::*;
use async_trait::async_trait;
use futures::FutureExt;
use serde_json::{json, Value};
use sqlx::sqlite::SqliteJournalMode;
use std::collections::BTreeSet;
use std::panic::AssertUnwindSafe;
use std::sync::Arc;
use uuid::Uuid;

struct Dropped {
    repo: Option<Arc<SqliteRepository>>,
    dbs: BTreeSet<String>,
}

fn uuid(u: &str) -> Uuid {
    // close to each other, one of them nil
    match u {
        "u1" => Uuid::nil(),
        "?" => Uuid::from_u128(0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff),
        u => Uuid::from_u128(u[1..].parse::<u128>().unwrap()),
    }
}
fn name(u: Uuid) -> String {
    ["u1", "u2", "u3", "u4", "?"].iter().find(|x| uuid(x) == u).map(|x| x.to_string()).unwrap_or(u.to_string())
}
fn status(s: &str) -> DroppedTableDeletionStatus {
    match s {
        "PENDING" => DroppedTableDeletionStatus::Pending,
        "RETRY" => DroppedTableDeletionStatus::Retry,
        "FAILED" => DroppedTableDeletionStatus::Failed,
        x => panic!("harness: status {x}"),
    }
}
fn status_name(s: DroppedTableDeletionStatus) -> &'static str {
    match s {
        DroppedTableDeletionStatus::Pending => "PENDING",
        DroppedTableDeletionStatus::Retry => "RETRY",
        DroppedTableDeletionStatus::Failed => "FAILED",
    }
}

#[async_trait(?Send)]
impl Sys for Dropped {
    async fn reset(&mut self) {
        if let Some(r) = self.repo.take() {
            r.executor.close().await;
        }
        self.repo =
            Some(Arc::new(SqliteRepository::try_new("sqlite::memory:".into(), SqliteJournalMode::Wal).await.expect("harness: open")));
    }
    async fn apply(&mut self, op: &Value) -> Value {
        let repo = self.repo.clone().unwrap();
        let u = uuid(s(op, "u"));
        let call = async {
            match s(op, "op") {
                "env_dropped" => {
                    // what the last version that deferred deletions stored; the uuid's table name repeats between databases
                    sqlx::query("INSERT INTO dropped_table (database_name, collection_name, table_name, uuid) VALUES ($1, $2, $3, $4)")
                        .bind(s(op, "d"))
                        .bind("public")
                        .bind("some_table")
                        .bind(u)
                        .execute(&repo.executor)
                        .await
                        .expect("harness: dropped_table");
                    Ok(())
                }
                "update_dropped_table" => repo.update_dropped_table(u, status(s(op, "st"))).await,
                "delete_dropped_table" => repo.delete_dropped_table(u).await,
                x => panic!("harness: op {x}"),
            }
        };
        json!(match AssertUnwindSafe(call).catch_unwind().await {
            Ok(Ok(())) => "ok".to_string(),
            Ok(Err(e)) => class(&e),
            Err(p) => format!("panic: {}", panic_text(p)),
        })
    }
    async fn project(&mut self) -> Value {
        let repo = self.repo.clone().unwrap();
        let mut prob = vec![];
        let mut list = |r: std::thread::Result<Result<Vec<DroppedTablesResult>>>| match r {
            Ok(Ok(v)) => v,
            Ok(Err(e)) => {
                prob.push(format!("get_dropped_tables: {e}"));
                vec![]
            }
            Err(p) => {
                prob.push(format!("get_dropped_tables panicked: {}", panic_text(p)));
                vec![]
            }
        };
        let all = list(AssertUnwindSafe(repo.get_dropped_tables(None)).catch_unwind().await);
        let mut parts = vec![];
        for d in self.dbs.iter().chain([&"elsewhere".to_string()]) {
            parts.push((d.clone(), list(AssertUnwindSafe(repo.get_dropped_tables(Some(d.clone()))).catch_unwind().await)));
        }
        for (d, p) in parts {
            let want: Vec<_> = all.iter().filter(|x| x.database_name == d).cloned().collect();
            if p.len() != want.len() || want.iter().any(|w| !p.contains(w)) {
                prob.push(format!("get_dropped_tables({d}) = {p:?}, of {all:?}"));
            }
        }
        if all.iter().any(|x| x.collection_name != "public" || x.table_name != "some_table") {
            prob.push(format!("{all:?}"));
        }
        let mut v = json!({"entSet": all.iter().map(|x| json!({"u": name(x.uuid), "d": x.database_name, "st": status_name(x.deletion_status)})).collect::<Vec<_>>()});
        if !prob.is_empty() {
            v["probSet"] = json!(prob);
        }
        v
    }
}

pub fn tour(cfg: &Value) -> Value {
    let g = Arc::new(Graph::load(s(cfg, "graph")));
    let dbs: BTreeSet<String> = g.edges.iter().filter_map(|e| e.op["d"].as_str().map(|x| x.to_string())).collect();
    let mut r = crate::v_graph::tour(g.clone(), TourOpts::from(cfg), move || Dropped { repo: None, dbs: dbs.clone() });
    crate::v_graph::report(&g, &mut r)
}
