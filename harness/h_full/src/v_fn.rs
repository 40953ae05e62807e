//! User-defined functions as statements see them (FunctionLife.tla)
use crate::v_graph::{Graph, Sys, TourOpts};
use crate::v_sys;
use crate::v_util::*;
use async_trait::async_trait;
use seafowl::context::SeafowlContext;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::Arc;

/// A module of constant functions: `one` and `two` of a BIGINT, `flt` of a DOUBLE
fn module() -> Vec<u8> {
    let mut m: Vec<u8> = vec![0, 0x61, 0x73, 0x6d, 1, 0, 0, 0];
    // types: (i64) -> i64, (f64) -> f64
    m.extend([1, 11, 2, 0x60, 1, 0x7e, 1, 0x7e, 0x60, 1, 0x7c, 1, 0x7c]);
    m.extend([3, 4, 3, 0, 0, 1]);
    let names: [&[u8]; 3] = [b"one", b"two", b"flt"];
    let mut e = vec![3];
    for (i, n) in names.iter().enumerate() {
        e.push(n.len() as u8);
        e.extend(*n);
        e.extend([0, i as u8]);
    }
    m.push(7);
    m.push(e.len() as u8);
    m.extend(e);
    // 101 and 102 as signed LEB128, 103.0 as eight bytes
    let mut bodies: Vec<Vec<u8>> = vec![vec![0, 0x42, 0xe5, 0x00, 0x0b], vec![0, 0x42, 0xe6, 0x00, 0x0b]];
    let mut f = vec![0, 0x44];
    f.extend(103.0f64.to_le_bytes());
    f.push(0x0b);
    bodies.push(f);
    let mut c = vec![3];
    for b in bodies {
        c.push(b.len() as u8);
        c.extend(b);
    }
    m.push(10);
    m.push(c.len() as u8);
    m.extend(c);
    m
}
fn base64(b: &[u8]) -> String {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut r = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            r.push(if i <= c.len() { T[(n >> (18 - 6 * i)) as usize & 63] as char } else { '=' });
        }
    }
    r
}
fn definition(def: &str) -> String {
    let code = base64(&module());
    let (entry, ty, code) = match def {
        "one" => ("one", "bigint", code),
        "two" => ("two", "BigInt", code),
        "flt" => ("flt", "double", code),
        "untyped" => ("one", "double", code),
        "not code" => ("one", "bigint", "AAAA".to_string()),
        "no such entry" => ("three", "bigint", code),
        x => panic!("harness: definition {x}"),
    };
    json!({"entrypoint": entry, "language": "wasm", "input_types": [ty], "return_type": ty, "data": code}).to_string()
}

struct Fns {
    dir: Option<tempfile::TempDir>,
    servers: BTreeMap<String, Arc<SeafowlContext>>,
    about: Vec<String>,
}
impl Fns {
    async fn start(&mut self, v: &str) {
        // the old one goes first
        self.servers.remove(v);
        let c = v_sys::start(&v_sys::local_config(self.dir.as_ref().unwrap().path(), 2, "")).await;
        self.servers.insert(v.into(), c);
    }
    async fn run(&mut self, v: &str, d: &str, q: &str) -> Result<Vec<Vec<String>>, String> {
        let c = &self.servers[v];
        let r = if d == "default" { v_sys::run(c, q).await } else { v_sys::run(&c.scope_to_catalog(d.into()), q).await };
        r.map(|b| v_sys::rows(&b))
    }
    fn answer(&mut self, r: Result<Vec<Vec<String>>, String>) -> Value {
        match r {
            Ok(_) => json!("ok"),
            Err(e) if e.starts_with("PANIC") => json!(e),
            Err(e) => {
                self.about.push(e);
                json!("no")
            }
        }
    }
}
#[async_trait(?Send)]
impl Sys for Fns {
    async fn reset(&mut self) {
        self.servers.clear();
        self.about.clear();
        self.dir = Some(tempfile::tempdir().expect("harness: scratch"));
        self.start("A").await;
        let r = self.run("A", "default", "CREATE DATABASE other").await;
        r.expect("harness: database");
        self.start("B").await;
    }
    async fn apply(&mut self, o: &Value) -> Value {
        match s(o, "op") {
            "restart" => {
                self.start(s(o, "server")).await;
                json!("ok")
            }
            "create" => {
                let q = format!(
                    "CREATE {}FUNCTION {} AS '{}'",
                    if o["rep"] == json!(true) { "OR REPLACE " } else { "" },
                    s(o, "w"),
                    definition(s(o, "def"))
                );
                let r = self.run(s(o, "server"), s(o, "d"), &q).await;
                self.answer(r)
            }
            "drop" => {
                let ws: Vec<&str> = o["ws"].as_array().unwrap().iter().map(|w| w.as_str().unwrap()).collect();
                let q = format!("DROP FUNCTION {}{}", if o["ex"] == json!(true) { "IF EXISTS " } else { "" }, ws.join(", "));
                let r = self.run(s(o, "server"), s(o, "d"), &q).await;
                self.answer(r)
            }
            x => panic!("harness: op {x}"),
        }
    }
    async fn project(&mut self) -> Value {
        let mut seen: Option<Value> = None;
        for v in ["A", "B"] {
            let mut all = json!({});
            for d in ["default", "other"] {
                for (name, calls) in [("f", vec!["f", "F", "\"f\""]), ("F", vec!["\"F\""]), ("abs", vec!["abs"])] {
                    if d == "other" && v == "B" && name != "f" {
                        all[d][name] = seen.as_ref().unwrap()[d][name].clone();
                        continue;
                    }
                    let together: Vec<_> = calls.iter().map(|w| format!("{w}(7)")).collect();
                    let q = format!("SELECT {}", together.join(", "));
                    let mut is: Vec<String> = match self.run(v, d, &q).await {
                        Ok(r) => r[0].clone(),
                        Err(e) if e.starts_with("PANIC") => vec![e],
                        Err(_) => vec![],
                    };
                    if is.is_empty() && calls.len() > 1 {
                        for w in &together {
                            match self.run(v, d, &format!("SELECT {w}")).await {
                                Ok(r) => is.push(r[0][0].clone()),
                                Err(_) => is.push("none".into()),
                            }
                        }
                    }
                    is.dedup();
                    all[d][name] = match &is[..] {
                        [] => json!("none"),
                        [x] => json!(match x.as_str() {
                            "101" => "one",
                            "102" => "two",
                            "103.0" => "flt",
                            "7" => "built-in",
                            x => x,
                        }),
                        _ => json!({"spelled in different ways": is}),
                    };
                }
            }
            if let Some(x) = &seen {
                if x != &all {
                    return json!({"on A": x, "on B": all});
                }
            }
            seen = Some(all);
        }
        json!({"fn": seen})
    }
    fn accepts(&self, e: &Value, a: &Value) -> bool {
        e == a
    }
    fn about(&self) -> Value {
        json!({"errors": self.about})
    }
}

pub fn tour(cfg: &Value) -> Value {
    let g = Arc::new(Graph::load(s(cfg, "graph")));
    let mut r = crate::v_graph::tour(g.clone(), TourOpts::from(cfg), move || Fns { dir: None, servers: Default::default(), about: vec![] });
    crate::v_graph::report(&g, &mut r)
}
