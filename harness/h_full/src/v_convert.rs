//! Files put into the storage become tables (Convert.tla)
use crate::v_graph::{Graph, Sys, TourOpts};
use crate::v_sys;
use crate::v_util::*;
use arrow::array::{Int64Array, RecordBatch, StringArray};
use async_trait::async_trait;
use seafowl::context::SeafowlContext;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::Arc;

const PLACES: [&str; 3] = ["01020304-0506-4708-890a-0b0c0d0e0f10", "a1b2c3d4-e5f6-4a1b-8c2d-3e4f50617283", "ffffffff-0000-4000-8000-000000000001"];
struct Places {
    dir: Option<tempfile::TempDir>,
    ctx: Option<Arc<SeafowlContext>>,
    turn: usize,
    about: Vec<String>,
}
/// File f of place p, 10p+f, has f rows of its own, the third one is in a directory below
fn rows_of(f: i64) -> Vec<(i64, String)> {
    (0..f % 10).map(|i| (10 * f + i, format!("{f}'{i}"))).collect()
}
impl Places {
    fn at(&self, p: &Value) -> std::path::PathBuf {
        self.dir.as_ref().unwrap().path().join(PLACES[p.as_u64().unwrap() as usize - 1])
    }
    async fn run(&self, q: &str) -> Result<Vec<Vec<String>>, String> {
        v_sys::run(self.ctx.as_ref().unwrap(), q).await.map(|b| v_sys::rows(&b))
    }
    async fn start(&mut self) {
        self.ctx = None;
        self.ctx = Some(v_sys::start(&v_sys::local_config(self.dir.as_ref().unwrap().path(), 2, "")).await);
    }
    fn spelled(&mut self, p: &Value) -> String {
        self.turn += 1;
        let u = PLACES[p.as_u64().unwrap() as usize - 1];
        match self.turn % 4 {
            0 => format!("/{u}"),
            1 => u.to_uppercase(),
            2 => u.replace('-', ""),
            _ => u.into(),
        }
    }
    async fn shown(&self, n: &str) -> Result<Value, String> {
        let there = self.run(&format!("SELECT 1 FROM information_schema.tables WHERE table_schema = 'public' AND table_name = '{n}'")).await?;
        if there.is_empty() {
            return match self.run(&format!("SELECT * FROM {n}")).await {
                Ok(_) => Err(format!("{n} isn't listed but can be read")),
                Err(_) => Ok(json!({"there": false})),
            };
        }
        let mut by: BTreeMap<i64, Vec<(i64, String)>> = Default::default();
        for r in self.run(&format!("SELECT x, y FROM {n}")).await? {
            let x: i64 = r[0].parse().map_err(|_| format!("{r:?}"))?;
            by.entry(x / 10).or_default().push((x, r[1].clone()));
        }
        let more = by.remove(&9).unwrap_or_default();
        let mut files = vec![];
        for (f, mut rs) in by {
            rs.sort();
            if rs != rows_of(f) {
                return Err(format!("rows of file {f}: {rs:?}"));
            }
            files.push(f);
        }
        if more.iter().any(|m| m != &(90, "new".to_string())) {
            return Err(format!("rows: {more:?}"));
        }
        Ok(json!({"there": true, "filesSet": files, "more": more.len()}))
    }
}
#[async_trait(?Send)]
impl Sys for Places {
    async fn reset(&mut self) {
        self.about.clear();
        self.dir = Some(tempfile::tempdir().expect("harness: scratch"));
        self.start().await;
    }
    async fn apply(&mut self, o: &Value) -> Value {
        let n = o["n"].as_str().unwrap_or("");
        let q = match s(o, "op") {
            "put" => {
                let at = self.at(&o["p"]);
                let f = o["f"].as_i64().unwrap();
                let at = if f == 3 { at.join("more") } else { at };
                std::fs::create_dir_all(&at).expect("harness: directory");
                std::fs::write(at.join("notes.txt"), "not a table").expect("harness: file");
                let rs = rows_of(10 * o["p"].as_i64().unwrap() + f);
                let b = RecordBatch::try_from_iter_with_nullable([
                    ("x", Arc::new(Int64Array::from(rs.iter().map(|r| r.0).collect::<Vec<_>>())) as _, true),
                    ("y", Arc::new(StringArray::from(rs.iter().map(|r| r.1.clone()).collect::<Vec<_>>())) as _, true),
                ]).unwrap();
                let mut w = parquet::arrow::ArrowWriter::try_new(std::fs::File::create(at.join(format!("{f}.parquet"))).unwrap(), b.schema(), None).unwrap();
                w.write(&b).unwrap();
                w.close().unwrap();
                return json!("ok");
            }
            "restart" => {
                self.start().await;
                return json!("ok");
            }
            "convert" => format!("CONVERT '{}' TO DELTA {n}", self.spelled(&o["p"])),
            "elsewhere" => match s(o, "where") {
                "empty" => format!("CONVERT '{}' TO DELTA {n}", PLACES[2]),
                "path" => format!("CONVERT 'x/{}' TO DELTA {n}", PLACES[0]),
                _ => format!("CONVERT 'word' TO DELTA {n}"),
            },
            "create" => format!("CREATE TABLE {n} (x BIGINT, y TEXT)"),
            "insert" => format!("INSERT INTO {n} VALUES (90, 'new')"),
            "drop" => format!("DROP TABLE {n}"),
            x => panic!("harness: op {x}"),
        };
        match self.run(&q).await {
            Ok(_) => json!("ok"),
            Err(e) if e.starts_with("PANIC") => json!(e),
            Err(e) => {
                self.about.push(format!("{q}: {}", v_sys::short(&e)));
                json!("no")
            }
        }
    }
    async fn project(&mut self) -> Value {
        let mut tabs = json!({});
        for n in ["t", "u"] {
            tabs[n] = match self.shown(n).await {
                Ok(v) => v,
                Err(e) => return json!({"unreadable": e}),
            };
        }
        let mut places = vec![];
        for p in 1..3 {
            let at = self.at(&json!(p));
            let files: Vec<i64> = (1..4).filter(|f| at.join(if *f == 3 { "more" } else { "." }).join(format!("{f}.parquet")).is_file()).collect();
            let delta = std::fs::read_dir(at.join("_delta_log")).is_ok_and(|mut d| d.any(|f| f.is_ok_and(|f| f.path().extension().is_some_and(|e| e == "json"))));
            places.push(json!({"filesSet": files, "delta": delta}));
        }
        json!({"tabs": tabs, "places": places})
    }
    fn about(&self) -> Value {
        json!({"errors": self.about})
    }
}

pub fn tour(cfg: &Value) -> Value {
    let g = Arc::new(Graph::load(s(cfg, "graph")));
    let mut r = crate::v_graph::tour(g.clone(), TourOpts::from(cfg), move || Places { dir: None, ctx: None, turn: 0, about: vec![] });
    crate::v_graph::report(&g, &mut r)
}
