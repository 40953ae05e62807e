//! Files uploaded over HTTP (Upload.tla)
use crate::v_graph::{Graph, Sys, TourOpts};
use crate::v_sys;
use crate::v_util::*;
use arrow::array::{ArrayRef, Int64Array, RecordBatch, StringArray};
use async_trait::async_trait;
use seafowl::context::SeafowlContext;
use seafowl::frontend::http::filters;
use serde_json::{json, Value};
use std::sync::Arc;
use warp::test::request;

const TEXTS: [&str; 2] = ["it's, \"so\"", "ü %2C"];
const B: &str = "-----vp1234";
struct Uploads {
    ctx: Option<Arc<SeafowlContext>>,
    about: Vec<String>,
    turn: usize,
}
fn csv(rs: &[usize], w: &Value) -> Vec<u8> {
    let wide = s(w, "form") == "columns";
    let mut t = String::new();
    if w["head"] == json!(true) {
        t += if wide { "a,b,c\n" } else { "a,b\n" };
    }
    let line = |a: &str, r: usize| format!("{a},\"{}\"{}\n", TEXTS[r - 1].replace('"', "\"\""), if wide { ",1" } else { "" });
    for r in rs {
        t += &line(&r.to_string(), *r);
    }
    if s(w, "form") == "late" {
        t += &line("1", 1).repeat(9000);
    }
    if ["late", "cell"].contains(&s(w, "form")) {
        t += &line("x", 1);
    }
    t.into_bytes()
}
fn parquet(rs: &[usize], w: &Value) -> Vec<u8> {
    let a = Arc::new(Int64Array::from(rs.iter().map(|r| *r as i64).collect::<Vec<_>>())) as ArrayRef;
    let b = Arc::new(StringArray::from(rs.iter().map(|r| TEXTS[*r - 1]).collect::<Vec<_>>())) as ArrayRef;
    let mut cols = vec![("a", a, true), ("b", b, true)];
    if s(w, "form") == "reordered" {
        cols.reverse();
    }
    let batch = RecordBatch::try_from_iter_with_nullable(cols).unwrap();
    let mut out = vec![];
    let mut writer = datafusion::parquet::arrow::ArrowWriter::try_new(&mut out, batch.schema(), None).unwrap();
    writer.write(&batch).unwrap();
    writer.close().unwrap();
    match s(w, "form") {
        "cut" => out[..out.len() * 3 / 5].to_vec(),
        "garbage" => vec![b'P'; 200],
        _ => out,
    }
}
impl Uploads {
    async fn run(&self, q: &str) -> Result<Vec<Vec<String>>, String> {
        v_sys::run(self.ctx.as_ref().unwrap(), q).await.map(|b| v_sys::rows(&b))
    }
    fn body(&mut self, o: &Value) -> Vec<u8> {
        let w = &o["w"];
        let rs: Vec<usize> = o["rs"].as_array().unwrap().iter().map(|r| r.as_u64().unwrap() as usize).collect();
        let mut parts: Vec<(String, Vec<u8>)> = vec![];
        let said = match s(w, "says") {
            "yes" => Some("true"),
            "no" => Some("false"),
            _ => None,
        };
        if let Some(v) = said {
            parts.push(("name=\"has_header\"".into(), v.into()));
        }
        if w["types"] == json!(true) {
            let field = |n: &str, t: &str| json!({"name": n, "data_type": t, "nullable": true, "dict_id": 0, "dict_is_ordered": false, "metadata": {}});
            parts.push(("name=\"schema\"".into(), json!({"fields": [field("a", "Int64"), field("b", "Utf8")], "metadata": {}}).to_string().into_bytes()));
        }
        let kind = s(w, "kind");
        if !kind.is_empty() {
            let name = ["rows", "a.parquet.b", "my rows"][self.turn % 3];
            let data = if kind == "parquet" { parquet(&rs, w) } else { csv(&rs, w) };
            // the file may be called either, and come before the rest
            let at = if self.turn % 2 == 0 { 0 } else { parts.len() };
            parts.insert(at, (format!("name=\"{}\"; filename=\"{name}.{kind}\"", ["data", "file"][self.turn / 2 % 2]), data));
        }
        let mut out = vec![];
        for (head, data) in parts {
            out.extend(format!("--{B}\r\nContent-Disposition: form-data; {head}\r\n\r\n").as_bytes());
            out.extend(data);
            out.extend(b"\r\n");
        }
        out.extend(format!("--{B}--\r\n").as_bytes());
        out
    }
}
#[async_trait(?Send)]
impl Sys for Uploads {
    async fn reset(&mut self) {
        self.about.clear();
        self.ctx = Some(v_sys::start(&v_sys::memory_config(4000, "")).await);
    }
    async fn apply(&mut self, o: &Value) -> Value {
        self.turn += 1;
        let t = s(o, "t").to_string();
        if s(o, "op") == "drop" {
            return match self.run(&format!("DROP TABLE {t}")).await {
                Ok(_) => json!("ok"),
                Err(e) if e.starts_with("PANIC") => json!(e),
                Err(_) => json!("no"),
            };
        }
        let body = self.body(o);
        let http = v_sys::config(&v_sys::memory_config(4000, "")).frontend.http.expect("harness: http");
        let ctx = self.ctx.clone().unwrap();
        let prefix = ["", "/default"][self.turn / 4 % 2];
        let path = format!("{prefix}/upload/{}", t.replace('.', "/"));
        let r = v_sys::guard(async move {
            request().method("POST").path(&path).header("Content-Type", format!("multipart/form-data; boundary={B}")).body(body).reply(&filters(ctx, http)).await
        })
        .await;
        match r {
            Err(e) => json!(e),
            Ok(a) => {
                let text = String::from_utf8_lossy(a.body()).to_string();
                if a.status() == 200 && text.contains("appended") {
                    json!("ok")
                } else if a.status().is_client_error() || a.status().is_server_error() {
                    self.about.push(text.chars().take(200).collect());
                    json!("no")
                } else {
                    json!(format!("{} {text}", a.status()))
                }
            }
        }
    }
    async fn project(&mut self) -> Value {
        let mut tabs = json!({});
        for t in ["public.t", "other.t"] {
            let (schema, name) = t.split_once('.').unwrap();
            let listed = match self.run(&format!("SELECT 1 FROM information_schema.tables WHERE table_schema = '{schema}' AND table_name = '{name}'")).await {
                Ok(r) => r.len(),
                Err(e) => return json!({"unreadable": e}),
            };
            tabs[t] = match (listed, self.run(&format!("SELECT a, b FROM {t}")).await) {
                (0, Err(_)) => json!({"there": false}),
                (1, Ok(rs)) => {
                    let mut n = [0, 0];
                    for r in rs {
                        match r[0].parse::<usize>() {
                            Ok(i) if (1..3).contains(&i) && r[1] == TEXTS[i - 1] => n[i - 1] += 1,
                            _ => return json!({"row": r}),
                        }
                    }
                    json!({"there": true, "rows": n})
                }
                (_, r) => return json!({"listed": listed, "read": format!("{r:?}")}),
            };
        }
        tabs
    }
    fn about(&self) -> Value {
        json!({"errors": self.about})
    }
}

pub fn tour(cfg: &Value) -> Value {
    let g = Arc::new(Graph::load(s(cfg, "graph")));
    let mut r = crate::v_graph::tour(g.clone(), TourOpts::from(cfg), move || Uploads { ctx: None, about: vec![], turn: 0 });
    crate::v_graph::report(&g, &mut r)
}
