//! Schemas, tables and external tables on two servers (Schemas.tla)
use crate::v_graph::{Graph, Sys, TourOpts};
use crate::v_sys;
use crate::v_util::*;
use arrow::array::{Int64Array, RecordBatch};
use async_trait::async_trait;
use seafowl::context::SeafowlContext;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

struct Names {
    dir: Option<tempfile::TempDir>,
    servers: BTreeMap<String, Arc<SeafowlContext>>,
    turn: usize,
    about: Vec<String>,
}
impl Names {
    async fn start(&mut self, v: &str) {
        self.servers.remove(v);
        let c = v_sys::start(&v_sys::local_config(self.dir.as_ref().unwrap().path(), 2, "")).await;
        self.servers.insert(v.into(), c);
    }
    async fn run(&mut self, v: &str, q: &str) -> Result<Vec<Vec<String>>, String> {
        v_sys::run(&self.servers[v], q).await.map(|b| v_sys::rows(&b))
    }
    fn spell(&mut self, s: &str) -> String {
        self.turn += 1;
        match (s, self.turn % 3) {
            ("S", _) => "\"S\"".into(),
            (s, 0) => format!("\"{s}\""),
            ("s", 1) => "S".into(),
            (s, _) => s.to_string(),
        }
    }
    /// Tables of each schema, and the external ones
    async fn seen(&mut self, v: &str) -> Result<(Value, Value), String> {
        let mut shared = json!({});
        for r in self.run(v, "SELECT schema_name FROM information_schema.schemata").await? {
            if !["staging", "system", "information_schema"].contains(&r[0].as_str()) {
                shared[&r[0]] = json!(0);
            }
        }
        let mut ext = json!(0);
        let mut twice = BTreeSet::new();
        for r in self.run(v, "SELECT table_schema, table_name FROM information_schema.tables").await? {
            let (schema, table) = (r[0].as_str(), r[1].as_str());
            if ["system", "information_schema"].contains(&schema) {
                continue;
            }
            if !twice.insert((schema.to_string(), table.to_string())) || table != "t" {
                return Err(format!("listed: {r:?}"));
            }
            let is = self.run(v, &format!("SELECT x FROM \"{schema}\".\"{table}\"")).await?;
            let is = json!(is.iter().map(|r| r[0].parse::<i64>().unwrap_or(-1)).sum::<i64>());
            if schema == "staging" { ext = is } else { shared[schema] = is }
        }
        Ok((shared, ext))
    }
}
#[async_trait(?Send)]
impl Sys for Names {
    async fn reset(&mut self) {
        self.servers.clear();
        self.about.clear();
        let dir = tempfile::tempdir().expect("harness: scratch");
        std::fs::write(dir.path().join("11.csv"), "x\n11\n").expect("harness: file");
        let b = RecordBatch::try_from_iter([("x", Arc::new(Int64Array::from(vec![5, 7])) as _)]).unwrap();
        let mut w = parquet::arrow::ArrowWriter::try_new(std::fs::File::create(dir.path().join("12.parquet")).unwrap(), b.schema(), None).unwrap();
        w.write(&b).unwrap();
        w.close().unwrap();
        self.dir = Some(dir);
        self.start("A").await;
        self.start("B").await;
    }
    async fn apply(&mut self, o: &Value) -> Value {
        let v = s(o, "server").to_string();
        let flag = |k: &str, text: &'static str| if o[k] == json!(true) { text } else { "" };
        let q = match s(o, "op") {
            "restart" => {
                self.start(&v).await;
                return json!("ok");
            }
            "create schema" => format!("CREATE SCHEMA {}{}", flag("ine", "IF NOT EXISTS "), self.spell(s(o, "s"))),
            "drop schema" => format!("DROP SCHEMA {}{}", flag("ie", "IF EXISTS "), self.spell(s(o, "s"))),
            "create" => {
                let n = self.spell(s(o, "s"));
                if s(o, "from") == "rows" {
                    format!("CREATE TABLE {n}.t AS SELECT CAST(1 AS BIGINT) AS x")
                } else {
                    format!("CREATE TABLE {n}.t AS SELECT x FROM staging.t")
                }
            }
            "drop" => format!("DROP TABLE {}{}.t", flag("ie", "IF EXISTS "), self.spell(s(o, "s"))),
            "move" => format!("ALTER TABLE {}.t RENAME TO {}.t", self.spell(s(o, "a")), self.spell(s(o, "b"))),
            "external" => {
                let d = self.dir.as_ref().unwrap().path().display();
                let how = if o["file"] == json!(11) { format!("STORED AS CSV LOCATION '{d}/11.csv' OPTIONS ('format.has_header' 'true')") } else { format!("STORED AS PARQUET LOCATION '{d}/12.parquet'") };
                format!("CREATE EXTERNAL TABLE {}{}t {how}", flag("ine", "IF NOT EXISTS "), s(o, "where"))
            }
            "drop external" => format!("DROP TABLE {}staging.t", flag("ie", "IF EXISTS ")),
            x => panic!("harness: op {x}"),
        };
        match self.run(&v, &q).await {
            Ok(_) => json!("ok"),
            Err(e) if e.starts_with("PANIC") => json!(e),
            Err(e) => {
                self.about.push(format!("{q}: {e}"));
                json!("no")
            }
        }
    }
    async fn project(&mut self) -> Value {
        let mut all: Option<Value> = None;
        let mut ext = json!({});
        for v in ["A", "B"] {
            let (shared, x) = match self.seen(v).await {
                Ok(r) => r,
                Err(e) => return json!({"unreadable": e}),
            };
            ext[v] = x;
            if let Some(a) = &all {
                if a != &shared {
                    return json!({"on A": a, "on B": shared});
                }
            }
            all = Some(shared);
        }
        json!({"shared": all, "ext": ext})
    }
    fn accepts(&self, e: &Value, a: &Value) -> bool {
        e == a
    }
    fn about(&self) -> Value {
        json!({"errors": self.about})
    }
}

pub fn tour(cfg: &Value) -> Value {
    let g = Arc::new(Graph::load(s(cfg, "graph")));
    let mut r = crate::v_graph::tour(g.clone(), TourOpts::from(cfg), move || Names { dir: None, servers: Default::default(), turn: 0, about: vec![] });
    crate::v_graph::report(&g, &mut r)
}
