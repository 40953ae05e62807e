//! Queries over Arrow Flight (Flight.tla), sent to the real server over the loopback
use crate::v_graph::{Graph, Sys, TourOpts};
use crate::v_sys;
use crate::v_util::*;
use arrow_flight::sql::{Any, CommandStatementQuery, CommandStatementUpdate, ProstMessageExt, TicketStatementQuery};
use arrow_flight::{FlightClient, FlightDescriptor, Ticket};
use async_trait::async_trait;
use clade::schema::{InlineMetastoreCommandStatementQuery, ListSchemaResponse, SchemaObject, TableFormat, TableObject};
use futures::TryStreamExt;
use prost::Message;
use seafowl::context::SeafowlContext;
use seafowl::frontend::flight::run_flight_server;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::Arc;
use tonic::transport::Channel;

const ASK: &str = "SELECT min(a.tag), max(a.tag), min(b.tag), max(b.tag), count(*) FROM t a CROSS JOIN t b";

struct Flight {
    rt: Option<tokio::runtime::Runtime>,
    ctx: Option<Arc<SeafowlContext>>,
    channel: Option<Channel>,
    /// tables of catalogs that are sent along
    paths: BTreeMap<String, String>,
    tickets: Vec<Option<Ticket>>,
    rows: BTreeMap<String, u64>,
    about: Vec<String>,
}
impl Drop for Flight {
    fn drop(&mut self) {
        if let Some(rt) = self.rt.take() {
            rt.shutdown_background();
        }
    }
}

/// One request: metadata and command
#[derive(Clone)]
struct Request {
    schema: Option<&'static str>,
    cmd: Any,
}
async fn ask(channel: Channel, r: Request) -> Result<Ticket, String> {
    let mut c = FlightClient::new(channel);
    if let Some(p) = r.schema {
        c.metadata_mut().insert("search-path", tonic::metadata::MetadataValue::from_static(p));
    }
    let i = c.get_flight_info(FlightDescriptor::new_cmd(r.cmd.encode_to_vec())).await.map_err(|e| e.to_string())?;
    Ok(i.endpoint[0].ticket.clone().expect("harness: ticket"))
}
async fn redeem(channel: Channel, t: Ticket) -> Result<Vec<Vec<String>>, String> {
    let s = FlightClient::new(channel).do_get(t).await.map_err(|e| e.to_string())?;
    let b: Vec<_> = s.try_collect().await.map_err(|e| e.to_string())?;
    Ok(v_sys::rows(&b))
}
/// The answer in the specification's words
fn told(r: Result<Vec<Vec<String>>, String>) -> String {
    match r {
        Err(e) if e.contains("transport") || e.contains("h2 protocol") || e.contains("cancel") => format!("no answer: {e}"),
        Err(_) => "refused".into(),
        Ok(r) => match &r[..] {
            [x] if x.len() == 5 && x[0] == x[1] && x[1] == x[2] && x[2] == x[3] => {
                let n = x[4].parse::<f64>().unwrap_or(-1.).sqrt();
                format!("{}:{}", x[0], n as i64)
            }
            x => format!("{x:?}"),
        },
    }
}
fn refused(r: Result<Ticket, String>) -> Result<Ticket, String> {
    r.map_err(|e| told(Err(e)))
}

impl Flight {
    async fn run(&self, q: String) -> Result<Vec<Vec<String>>, String> {
        let ctx = self.ctx.clone().unwrap();
        let h = self.rt.as_ref().unwrap().spawn(async move { v_sys::run(&ctx, &q).await.map(|b| v_sys::rows(&b)) });
        h.await.unwrap_or_else(|e| Err(format!("PANIC {e}")))
    }
    fn request(&self, a: &str) -> Request {
        let query = |q: &str| CommandStatementQuery { query: q.into(), transaction_id: None }.as_any();
        let table = |schema: &str, name: &str, path: &str, store: Option<&str>| ListSchemaResponse {
            schemas: vec![SchemaObject {
                name: schema.into(),
                tables: vec![TableObject { name: name.into(), path: path.into(), store: store.map(|s| s.into()), format: TableFormat::Delta.into() }],
            }],
            stores: vec![],
        };
        let inline = |l: Option<ListSchemaResponse>| InlineMetastoreCommandStatementQuery { query: ASK.into(), schemas: l }.as_any();
        let (x, y) = (self.paths["X"].as_str(), self.paths["Y"].as_str());
        let (schema, cmd) = match a {
            "plain" => (None, query(ASK)),
            "path second" => (Some("second"), query(ASK)),
            "path of no schema" => (Some("third"), query(ASK)),
            "inline X" => (None, inline(Some(table("public", "t", x, None)))),
            "inline Y" => (None, inline(Some(table("public", "t", y, None)))),
            "path second, inline second X" => (Some("second"), inline(Some(table("second", "t", x, None)))),
            "inline without t" => (None, inline(Some(table("public", "u", x, None)))),
            "inline with no such store" => (None, inline(Some(table("public", "t", x, Some("store"))))),
            "inline without catalog" => (None, inline(None)),
            "not SQL" => (None, query("SELECT FROM WHERE")),
            "two statements" => (None, query(&format!("{ASK}; {ASK}"))),
            "foreign command" => (None, Any { type_url: "type.googleapis.com/some.Thing".into(), value: vec![0xff, 0xff, 0xff].into() }),
            "other command" => (None, CommandStatementUpdate { query: ASK.into(), transaction_id: None }.as_any()),
            x => panic!("harness: request {x}"),
        };
        Request { schema, cmd }
    }
}

#[async_trait(?Send)]
impl Sys for Flight {
    async fn reset(&mut self) {
        if let Some(rt) = self.rt.take() {
            rt.shutdown_background();
        }
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build().unwrap();
        self.tickets.clear();
        self.about.clear();
        loop {
            let port = std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port();
            let more = format!("[frontend.flight]\nbind_host = \"127.0.0.1\"\nbind_port = {port}\n");
            let ctx = rt.spawn(async move { v_sys::start(&v_sys::memory_config(2, &more)).await }).await.expect("harness: start");
            let f = run_flight_server(ctx.clone(), ctx.config.frontend.flight.clone().unwrap(), std::future::pending());
            let h = rt.spawn(f);
            let c = Channel::from_shared(format!("http://127.0.0.1:{port}")).unwrap();
            let mut channel = None;
            for _ in 0..400 {
                if h.is_finished() {
                    break;
                }
                if let Ok(c) = c.connect().await {
                    channel = Some(c);
                    break;
                }
                tokio::time::sleep(std::time::Duration::from_millis(5)).await;
            }
            // somebody else may have taken the port
            tokio::time::sleep(std::time::Duration::from_millis(1)).await;
            if channel.is_some() && !h.is_finished() {
                (self.ctx, self.channel) = (Some(ctx), channel);
                break;
            }
        }
        self.rt = Some(rt);
        self.rows.clear();
        for (q, t) in [("t", "public"), ("second.t", "second"), ("x", "X"), ("y", "Y")] {
            if t == "second" {
                self.run("CREATE SCHEMA second".into()).await.expect("harness: schema");
            }
            self.run(format!("CREATE TABLE {q} (tag TEXT)")).await.expect("harness: table");
            self.run(format!("INSERT INTO {q} VALUES ('{t}')")).await.expect("harness: row");
            if t == "X" || t == "Y" {
                let ctx = self.ctx.clone().unwrap();
                let u = ctx.get_table_uuid(q).await.expect("harness: uuid");
                self.paths.insert(t.into(), u.to_string());
            }
        }
        self.run("INSERT INTO y VALUES ('Y')".into()).await.expect("harness: row");
        self.rows = [("public", 1), ("second", 1), ("X", 1), ("Y", 2)].into_iter().map(|(t, n)| (t.to_string(), n)).collect();
    }
    async fn apply(&mut self, o: &Value) -> Value {
        let channel = self.channel.clone().unwrap();
        match s(o, "op") {
            "write" => {
                let t = s(o, "t");
                let q = match t {
                    "public" => "t",
                    "second" => "second.t",
                    "X" => "x",
                    _ => "y",
                };
                self.run(format!("INSERT INTO {q} VALUES ('{t}')")).await.map_or_else(|e| json!(e), |_| json!("ok"))
            }
            "insert" => {
                let cmd = CommandStatementQuery { query: "INSERT INTO t VALUES ('public')".into(), transaction_id: None }.as_any();
                ask(channel, Request { schema: None, cmd }).await.map_or_else(|e| json!(e), |_| json!("ok"))
            }
            "ask" => match refused(ask(channel, self.request(s(o, "a"))).await) {
                Ok(t) => {
                    self.tickets.push(Some(t));
                    json!("ok")
                }
                Err(e) => json!(e),
            },
            "forged" => {
                let t = TicketStatementQuery { statement_handle: "00000000-0000-0000-0000-000000000000".into() };
                json!(told(redeem(channel, Ticket::new(t.as_any().encode_to_vec())).await))
            }
            "redeem" => {
                let i = o["i"].as_u64().unwrap() as usize - 1;
                let r = told(redeem(channel, self.tickets[i].clone().unwrap()).await);
                json!(r)
            }
            "forget" => {
                self.tickets.clear();
                json!("ok")
            }
            "both" => {
                let mut seen: Vec<String> = vec![];
                for i in 0..o["tries"].as_u64().unwrap() {
                    let one = |r: Request, wait: u64| {
                        let c = channel.clone();
                        self.rt.as_ref().unwrap().spawn(async move {
                            tokio::time::sleep(std::time::Duration::from_micros(wait)).await;
                            match ask(c.clone(), r).await {
                                Ok(t) => told(redeem(c, t).await),
                                Err(e) => told(Err(e)),
                            }
                        })
                    };
                    let (a, b) = (one(self.request(s(o, "a")), (i % 3) * 700), one(self.request(s(o, "b")), (i % 2) * 900));
                    let r = format!("{} and {}", a.await.expect("harness: task"), b.await.expect("harness: task"));
                    if !seen.contains(&r) {
                        seen.push(r);
                    }
                }
                if seen.len() == 1 { json!(seen[0]) } else { json!(seen) }
            }
            x => panic!("harness: op {x}"),
        }
    }
    async fn project(&mut self) -> Value {
        let mut n = json!({});
        for (q, t) in [("t", "public"), ("second.t", "second"), ("x", "X"), ("y", "Y")] {
            n[t] = match self.run(format!("SELECT count(*) FROM {q}")).await {
                Ok(r) => json!(r[0][0].parse::<u64>().unwrap()),
                Err(e) => json!(e),
            };
        }
        json!({"n": n})
    }
    fn accepts(&self, e: &Value, a: &Value) -> bool {
        // what a ticket is good for is seen when it is redeemed
        e["n"] == a["n"] && e["tick"].as_array().map(|t| t.len()).unwrap_or(0) == self.tickets.len()
    }
    fn about(&self) -> Value {
        json!({"errors": self.about})
    }
}

pub fn tour(cfg: &Value) -> Value {
    let g = Arc::new(Graph::load(s(cfg, "graph")));
    let make = || Flight { rt: None, ctx: None, channel: None, paths: Default::default(), tickets: vec![], rows: Default::default(), about: vec![] };
    let mut r = crate::v_graph::tour(g.clone(), TourOpts::from(cfg), make);
    crate::v_graph::report(&g, &mut r)
}
