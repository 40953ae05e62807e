//! The HTTP interface (HttpServer.tla) in front of a running system
use crate::v_graph::{Graph, Sys, TourOpts};
use crate::v_sys;
use crate::v_util::*;
use async_trait::async_trait;
use bytes::Bytes;
use futures::future::LocalBoxFuture;
use seafowl::config::schema::str_to_hex_hash;
use seafowl::context::SeafowlContext;
use seafowl::frontend::http::filters;
use serde_json::{json, Value};
use std::sync::Arc;
use warp::http::Response;
use warp::test::{request, RequestBuilder};

type Send = Box<dyn Fn(RequestBuilder) -> LocalBoxFuture<'static, Response<Bytes>>>;
const READ: &str = "let me read";
const WRITE: &str = "let me write";

pub struct Server {
    ctx: Option<Arc<SeafowlContext>>,
    other: Option<Arc<SeafowlContext>>,
    send: Option<Send>,
    pol: Value,
    /// what the client remembers: query, tag, answer
    slot: Option<(String, Option<String>, Value)>,
    turn: usize,
    about: Vec<Value>,
}

fn query(q: &str) -> &'static str {
    match q {
        "t" => "SELECT a FROM t ORDER BY a",
        "join" => "SELECT t.a FROM t JOIN u ON t.a = u.a ORDER BY 1",
        "in" => "SELECT a FROM t WHERE a IN (SELECT a FROM u) ORDER BY a",
        "scalar" => "SELECT a FROM t WHERE a <= (SELECT COUNT(*) FROM u) ORDER BY a",
        "exists" => "SELECT a FROM t WHERE EXISTS (SELECT 1 FROM u WHERE u.a > t.a) ORDER BY a",
        "union" => "SELECT a FROM t UNION ALL SELECT a FROM u ORDER BY a",
        "count" => "SELECT (SELECT COUNT(*) FROM u) AS a",
        "cte" => "WITH x AS (SELECT a FROM u) SELECT a FROM x ORDER BY a",
        "const" => "SELECT 7 AS a",
        "schema" => "SELECT COUNT(*) AS a FROM information_schema.tables WHERE table_name = 'z'",
        "both" => "SELECT (SELECT COUNT(*) FROM t) + (SELECT COUNT(*) FROM information_schema.tables WHERE table_name = 'z') AS a",
        x => panic!("harness: query {x}"),
    }
}
const INSERT: &str = "INSERT INTO t SELECT COUNT(*) + 1 FROM t";
const DELETE: &str = "DELETE FROM t";

/// The numbers in column a of JSON lines
fn numbers(body: &[u8]) -> Value {
    let t = String::from_utf8_lossy(body);
    let l: Option<Vec<Value>> = t.lines().map(|l| serde_json::from_str::<Value>(l).ok().and_then(|v| v.as_object().filter(|o| o.len() == 1).and_then(|o| o.get("a").cloned()))).collect();
    l.map(Value::Array).unwrap_or_else(|| json!(format!("unexpected body: {t}")))
}
fn encode(q: &str) -> String {
    q.bytes().map(|b| if b.is_ascii_alphanumeric() { (b as char).to_string() } else { format!("%{b:02X}") }).collect()
}
fn file_(name: &str, n: u64) -> (String, String) {
    let b = "-----vp1234".to_string();
    let body = format!("--{b}\r\nContent-Disposition: form-data; name=\"schema\"\r\n\r\n{}\r\n--{b}\r\nContent-Disposition: form-data; name=\"has_header\"\r\n\r\ntrue\r\n--{b}\r\nContent-Disposition: form-data; name=\"file\"; filename=\"{name}\"\r\nContent-Type: application/octet-stream\r\n\r\na\n{n}\n\r\n--{b}--\r\n",
        json!({"fields": [{"name": "a", "data_type": "Int64", "nullable": true, "dict_id": 0, "dict_is_ordered": false, "metadata": {}}], "metadata": {}}));
    (format!("multipart/form-data; boundary={b}"), body)
}

impl Server {
    fn new() -> Self {
        Server { ctx: None, other: None, send: None, pol: json!(null), slot: None, turn: 0, about: vec![] }
    }
    async fn on(&self, db: &str, q: &str) -> Result<Vec<Vec<String>>, String> {
        let c = if db == "other" { &self.other } else { &self.ctx };
        v_sys::run(c.as_ref().unwrap(), q).await.map(|b| v_sys::rows(&b))
    }
    async fn must(&self, db: &str, q: &str) -> Vec<Vec<String>> {
        self.on(db, q).await.unwrap_or_else(|e| panic!("harness: {q}: {e}"))
    }
    /// GET in one of the ways there are
    fn get(&self, db: &str, q: &str, hash: Option<&str>, style: usize) -> RequestBuilder {
        let prefix = if db == "default" { "" } else { &format!("/{db}") };
        let h = hash.map(|h| h.to_string()).unwrap_or_else(|| str_to_hex_hash(q));
        let r = request().method("GET");
        match style % 5 {
            0 if hash.is_none() => r.path(&format!("{prefix}/q/{}", encode(q))),
            1 => r.path(&format!("{prefix}/q/{h}.csv")).header("X-Seafowl-Query", encode(q)),
            2 => r.path(&format!("{prefix}/q/{h}")).json(&json!({"query": q})),
            _ => r.path(&format!("{prefix}/q/{h}")).header("X-Seafowl-Query", q),
        }
    }
    fn post(&self, db: &str, q: &str) -> RequestBuilder {
        let prefix = if db == "default" { "" } else { &format!("/{db}") };
        request().method("POST").path(&format!("{prefix}/q")).json(&json!({"query": q}))
    }
    async fn reply(&self, r: RequestBuilder) -> Response<Bytes> {
        (self.send.as_ref().unwrap())(r).await
    }
}

#[async_trait(?Send)]
impl Sys for Server {
    async fn reset(&mut self) {
        let ctx = v_sys::start(&v_sys::memory_config(2, "")).await;
        for q in ["CREATE TABLE t (a BIGINT)", "CREATE TABLE u (a BIGINT)", "CREATE DATABASE other"] {
            v_sys::run(&ctx, q).await.unwrap_or_else(|e| panic!("harness: {q}: {e}"));
        }
        let other = ctx.scope_to_catalog("other".into());
        v_sys::run(&other, "CREATE TABLE t (a BIGINT)").await.unwrap_or_else(|e| panic!("harness: {e}"));
        self.ctx = Some(ctx);
        self.other = Some(other);
        self.send = None;
        self.pol = json!({"r": "none", "w": "none"});
        self.slot = None;
        self.turn = 0;
        self.about.clear();
    }
    async fn apply(&mut self, o: &Value) -> Value {
        self.turn += 1;
        match s(o, "op") {
            "serve" => {
                self.pol = o["p"].clone();
                let access = |k: &str, pw: &str| if s(&self.pol, k) == "pw" { str_to_hex_hash(pw) } else { s(&self.pol, k).to_string() };
                let text = v_sys::memory_config(2, "")
                    .replace("read_access = \"any\"", &format!("read_access = \"{}\"", access("r", READ)))
                    .replace("write_access = \"any\"", &format!("write_access = \"{}\"", access("w", WRITE)));
                let http = v_sys::config(&text).frontend.http.expect("harness: http");
                let f = Arc::new(filters(self.ctx.clone().unwrap(), http));
                self.send = Some(Box::new(move |r| {
                    let f = f.clone();
                    Box::pin(async move { r.reply(&*f).await })
                }));
                json!({"s": 0})
            }
            "request" => {
                let (k, c, d) = (s(o, "k"), s(o, "c"), s(o, "d"));
                let w = if o["full"] == json!(true) { DELETE } else { INSERT };
                let sel = "SELECT a FROM t ORDER BY a";
                let prefix = if d == "default" { "" } else { &format!("/{d}") };
                let mut r = match k {
                    "get read" => self.get(d, sel, None, self.turn),
                    "get write" => self.get(d, w, None, self.turn),
                    "get hash" => self.get(d, sel, Some(&str_to_hex_hash("SELECT a FROM u")), 1 + self.turn % 3),
                    "get bad" => self.get(d, "SELECTED", None, self.turn),
                    "get twice" => self.get(d, "SELECT a FROM t; SELECT a FROM t", None, self.turn),
                    "get explain" => self.get(d, "EXPLAIN SELECT a FROM t", None, self.turn),
                    "post read" => self.post(d, sel),
                    "post explain" => self.post(d, &format!("EXPLAIN {w}")),
                    "post analyze" => self.post(d, &format!("EXPLAIN ANALYZE {w}")),
                    "post show" => self.post(d, "SHOW TABLES"),
                    "post read read" => self.post(d, &format!("{sel}; {sel}")),
                    "post write" => self.post(d, w),
                    "post write write" => self.post(d, &format!("{w}; {w}")),
                    "post write read" => self.post(d, &format!("{w}; {sel}")),
                    "post read write" => self.post(d, &format!("{sel}; {w}")),
                    "post empty" => self.post(d, ([" ", ";", "-- nothing"][self.turn % 3])),
                    "post bad" => self.post(d, &format!("{w}; SELECTED")),
                    "upload" => {
                        let n = self.on(d, "SELECT COUNT(*) + 1 FROM t").await.ok().and_then(|r| r[0][0].parse().ok()).unwrap_or(1);
                        let (t, b) = file_("rows.csv", n);
                        request().method("POST").path(&format!("{prefix}/upload/public/t")).header("Content-Type", t).body(b)
                    }
                    "health" => request().method("GET").path(["/healthz", "/readyz"][self.turn % 2]),
                    "nowhere" => request().method(["GET", "POST"][self.turn % 2]).path(["/", "/nope", "/a/b/c/d/e"][self.turn % 3]),
                    x => panic!("harness: request {x}"),
                };
                r = match c {
                    "none" => r,
                    "malformed" => r.header("Authorization", ["Basic bGV0OnJlYWQ=", WRITE, "bearer let me write", "Bearer"][self.turn % 4]),
                    "read" => r.header("Authorization", format!("Bearer {READ}")),
                    "write" => r.header("Authorization", format!("Bearer {WRITE}")),
                    "wrong" => r.header("Authorization", format!("Bearer {}", [
                        "let me Write".into(), str_to_hex_hash(WRITE), str_to_hex_hash(READ), "let me".to_string(), format!("Bearer {WRITE}"), format!("Bearer {READ}")][self.turn % 6])),
                    "empty" => r.header("Authorization", "Bearer "),
                    x => panic!("harness: credential {x}"),
                };
                let a = self.reply(r).await;
                let body = if a.status() == 200 && matches!(k, "get read" | "post read" | "post write read") { numbers(a.body()) } else { json!([]) };
                self.about.push(json!({"policy": self.pol, "request": o, "status": a.status().as_u16(), "body": String::from_utf8_lossy(a.body()).chars().take(300).collect::<String>()}));
                json!({"s": a.status().as_u16(), "b": body})
            }
            "ask" => {
                let q = s(o, "q").to_string();
                let a = self.reply(self.get("default", query(&q), None, self.turn)).await;
                let b = if a.status() == 200 { numbers(a.body()) } else { json!(String::from_utf8_lossy(a.body())) };
                let tag = a.headers().get("etag").map(|v| v.to_str().unwrap().to_string());
                self.slot = Some((q, tag, b.clone()));
                json!({"s": a.status().as_u16(), "b": b, "hit": false})
            }
            "again" => {
                let (q, tag, known) = self.slot.clone().expect("harness: slot");
                let mut r = self.get("default", query(&q), None, self.turn);
                if let Some(t) = &tag {
                    r = r.header("If-None-Match", t.as_str());
                }
                let a = self.reply(r).await;
                self.about.push(json!({"query": query(&q), "tag": tag, "status": a.status().as_u16()}));
                let versioned = q != "schema" && q != "both";
                if a.status() == 304 {
                    if tag.is_none() {
                        return json!("304 without anything to compare with");
                    }
                    return json!({"s": 200, "b": known, "hit": versioned});
                }
                let b = if a.status() == 200 { numbers(a.body()) } else { json!(String::from_utf8_lossy(a.body())) };
                let tag = a.headers().get("etag").map(|v| v.to_str().unwrap().to_string());
                self.slot = Some((q, tag, b.clone()));
                json!({"s": a.status().as_u16(), "b": b, "hit": false})
            }
            "change" => {
                let x = s(o, "x");
                match s(o, "how") {
                    "insert" => drop(self.must("default", &format!("INSERT INTO {x} SELECT COUNT(*) + 1 FROM {x}")).await),
                    "delete" => drop(self.must("default", &format!("DELETE FROM {x}")).await),
                    _ => {
                        self.must("default", &format!("DROP TABLE {x}")).await;
                        self.must("default", &format!("CREATE TABLE {x} (a BIGINT)")).await;
                    }
                }
                json!({"s": 0})
            }
            "toggle" => {
                self.must("default", if o["there"] == json!(true) { "CREATE TABLE z (b TEXT)" } else { "DROP TABLE z" }).await;
                json!({"s": 0})
            }
            x => panic!("harness: operation {x}"),
        }
    }
    async fn project(&mut self) -> Value {
        let mut n = serde_json::Map::new();
        for (k, db, q) in [("t", "default", "t"), ("u", "default", "u"), ("o", "other", "t")] {
            let l: Vec<String> = self.must(db, &format!("SELECT a FROM {q} ORDER BY a")).await.into_iter().map(|r| r[0].clone()).collect();
            let want: Vec<String> = (1..=l.len()).map(|i| i.to_string()).collect();
            n.insert(k.into(), if l == want { json!(l.len()) } else { json!(l) });
        }
        let z = self.must("default", "SELECT COUNT(*) FROM information_schema.tables WHERE table_name = 'z'").await;
        json!({"pol": self.pol, "n": n, "z": z[0][0] == "1"})
    }
    fn accepts(&self, expected: &Value, actual: &Value) -> bool {
        ["pol", "n", "z"].iter().all(|k| expected[*k] == actual[*k])
    }
    fn about(&self) -> Value {
        json!(self.about.iter().rev().take(5).collect::<Vec<_>>())
    }
}

pub fn tour(cfg: &Value) -> Value {
    let g = Arc::new(Graph::load(s(cfg, "graph")));
    let mut r = crate::v_graph::tour(g.clone(), TourOpts::from(cfg), Server::new);
    crate::v_graph::report(&g, &mut r)
}
