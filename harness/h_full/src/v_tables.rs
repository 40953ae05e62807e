//! Statements on tables (Tables.tla) against the running system
use crate::v_graph::{Graph, Sys, TourOpts};
use crate::v_sys;
use crate::v_util::*;
use async_trait::async_trait;
use seafowl::context::SeafowlContext;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

pub const NL: i64 = 9999;

fn int(v: &Value) -> String {
    match v.as_i64() {
        Some(NL) => "NULL".into(),
        Some(i) => i.to_string(),
        None => panic!("harness: number {v}"),
    }
}
fn text(v: &Value) -> String {
    match v.as_str() {
        Some("~") => "NULL".into(),
        Some(s) => format!("'{}'", s.replace('\'', "''")),
        None => panic!("harness: text {v}"),
    }
}
pub fn expr(e: &Value) -> String {
    match s2(e, 0) {
        "col" => s2(e, 1).to_string(),
        "int" => int(&e[1]),
        "str" => text(&e[1]),
        "boom" => "1 / (a - a)".into(),
        o => {
            let side = |x: &Value| if x[0] == json!("int") && x[1] == json!(NL) { "CAST(NULL AS BIGINT)".into() } else { expr(x) };
            format!("({} {o} {})", side(&e[1]), side(&e[2]))
        }
    }
}
fn s2(v: &Value, i: usize) -> &str {
    v[i].as_str().unwrap_or_else(|| panic!("harness: no string at {i} of {v}"))
}
fn list(v: &Value) -> String {
    let l = v.as_array().unwrap();
    l.iter().map(|x| if x.is_string() { text(x) } else { int(x) }).collect::<Vec<_>>().join(", ")
}
pub fn pred(p: &Value) -> String {
    match s2(p, 0) {
        "lit" => match p[1].as_i64().unwrap() {
            0 => "FALSE".into(),
            1 => "TRUE".into(),
            _ => "NULL".into(),
        },
        "cmp" | "scmp" => format!("{} {} {}", expr(&p[2]), s2(p, 1), expr(&p[3])),
        "null" => format!("{} IS NULL", s2(p, 1)),
        "in" | "sin" => format!("{} IN ({})", expr(&p[1]), list(&p[2])),
        "not" => format!("NOT ({})", pred(&p[1])),
        o @ ("and" | "or") => format!("({}) {o} ({})", pred(&p[1]), pred(&p[2])),
        o => panic!("harness: predicate {o}"),
    }
}
fn where_(p: &Value) -> String {
    if s2(p, 0) == "none" { String::new() } else { format!(" WHERE {}", pred(p)) }
}
fn strs(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
}

/// How the names of the specification are written
pub fn name(style: usize, n: &str) -> String {
    match (style % 4, n) {
        (0, n) => n.into(),
        (1, "t") => "\"T\"".into(),
        (1, n) => format!("\"{n} v\""),
        (2, n) => format!("other.{n}"),
        (_, "t") => "default.public.t".into(),
        (_, n) => n.into(),
    }
}

pub fn sql(style: usize, o: &Value) -> String {
    let n = |k: &str| name(style, s(o, k));
    let select = |as_: bool| {
        let es: Vec<String> = o["es"].as_array().unwrap().iter().map(expr).collect();
        let cs = strs(&o["cs"]);
        let es = if as_ { es.iter().zip(&cs).map(|(e, c)| format!("{e} AS {c}")).collect() } else { es };
        format!("SELECT {} FROM {}{}", es.join(", "), n("m"), where_(&o["p"]))
    };
    match s(o, "op") {
        "create" => {
            let nn = strs(&o["nn"]);
            let c = [("a", "BIGINT"), ("b", "TEXT"), ("c", "BIGINT")].map(|(c, t)| format!("{c} {t}{}", if nn.iter().any(|x| x == c) { " NOT NULL" } else { "" }));
            format!("CREATE TABLE {}{} ({})", if o["ine"] == json!(true) { "IF NOT EXISTS " } else { "" }, n("n"), c.join(", "))
        }
        "insert" => {
            let rows: Vec<String> = o["vs"]
                .as_array()
                .unwrap()
                .iter()
                .map(|r| format!("({})", r.as_array().unwrap().iter().map(expr).collect::<Vec<_>>().join(", ")))
                .collect();
            format!("INSERT INTO {} ({}) VALUES {}", n("n"), strs(&o["cs"]).join(", "), rows.join(", "))
        }
        "insertselect" => format!("INSERT INTO {} ({}) {}", n("n"), strs(&o["cs"]).join(", "), select(true)),
        "ctas" => format!("CREATE TABLE {}{} AS {}", if o["ine"] == json!(true) { "IF NOT EXISTS " } else { "" }, n("n"), select(true)),
        "update" => {
            let es: Vec<String> = o["es"].as_array().unwrap().iter().map(expr).collect();
            let a: Vec<String> = strs(&o["cs"]).iter().zip(es).map(|(c, e)| format!("{c} = {e}")).collect();
            format!("UPDATE {} SET {}{}", n("n"), a.join(", "), where_(&o["p"]))
        }
        "delete" => format!("DELETE FROM {}{}", n("n"), where_(&o["p"])),
        "truncate" => format!("TRUNCATE TABLE {}", n("n")),
        "drop" => format!("DROP TABLE {}{}", if o["ie"] == json!(true) { "IF EXISTS " } else { "" }, n("n")),
        "rename" => format!("ALTER TABLE {} RENAME TO {}", n("n"), n("m")),
        "vacuum" => format!("VACUUM TABLE {}", n("n")),
        x => panic!("harness: operation {x}"),
    }
}

/// Rows a, b, c as the specification writes them, with their number
pub fn bag(rows: Vec<Vec<String>>) -> Value {
    let mut m: BTreeMap<String, (Value, usize)> = BTreeMap::new();
    for r in rows {
        let num = |x: &str| if x == "~" { NL } else { x.parse::<i64>().unwrap_or(-777_777) };
        let v = json!([num(&r[0]), r[1], num(&r[2])]);
        m.entry(v.to_string()).or_insert((v, 0)).1 += 1;
    }
    Value::Array(m.into_values().map(|(v, n)| json!({"r": v, "n": n})).collect())
}

pub struct Tables {
    pub ctx: Option<Arc<SeafowlContext>>,
    pub names: Vec<String>,
    pub style: usize,
    pub partition: usize,
    pub versions: bool,
    marks: Vec<String>,
    /// by identity: marks there were when it was created, lowest version that must be listed
    born: HashMap<String, usize>,
    floor: HashMap<String, i64>,
    pub done: Vec<String>,
    pub error: Option<String>,
}

impl Tables {
    pub fn new(names: Vec<String>, style: usize, partition: usize, versions: bool) -> Self {
        Tables { ctx: None, names, style, partition, versions, marks: vec![], born: Default::default(), floor: Default::default(), done: vec![], error: None }
    }
    async fn uuid(&self, n: &str) -> Option<String> {
        self.ctx.as_ref().unwrap().get_table_uuid(name(self.style, n)).await.ok().map(|u| u.to_string())
    }
    async fn version(&self, n: &str) -> Option<i64> {
        let ctx = self.ctx.as_ref().unwrap();
        let mut t = ctx.try_get_delta_table(name(self.style, n)).await.ok()?;
        t.load().await.ok()?;
        Some(t.version())
    }
    /// Versions listed are exactly those since the table was created or vacuumed
    async fn listed(&self, n: &str, uuid: &str) -> Value {
        let ctx = self.ctx.as_ref().unwrap();
        let (bare, schema) = (self.bare(n), self.schema_name());
        let q = format!("SELECT version FROM system.table_versions WHERE table_name = '{bare}' AND table_schema = '{schema}'");
        let mut l: Vec<i64> = match v_sys::run(ctx, &q).await {
            Ok(b) => v_sys::rows(&b).iter().map(|r| r[0].parse().unwrap_or(-9)).collect(),
            Err(e) => return json!(format!("unreadable: {e}")),
        };
        l.sort();
        let now = self.version(n).await;
        let want: Vec<i64> = (self.floor.get(uuid).copied().unwrap_or(0)..=now.unwrap_or(-5)).collect();
        if l == want { json!(true) } else { json!(format!("listed {l:?}, expected {want:?}")) }
    }
    fn schema_name(&self) -> &'static str {
        if self.style % 4 == 2 { "other" } else { "public" }
    }
    fn bare(&self, n: &str) -> String {
        name(self.style, n).replace('"', "").rsplit('.').next().unwrap().to_string()
    }
    /// A file appended to a table, as the upload endpoint does
    async fn upload(&self, o: &Value) -> Result<(), String> {
        use arrow::array::{ArrayRef, Int64Array, RecordBatch, StringArray};
        use arrow::datatypes::{DataType, Field, Schema};
        let rs = o["rs"].as_array().unwrap();
        let number = |i: usize| rs.iter().map(|r| r[i].as_i64().filter(|x| *x != NL)).collect::<Vec<_>>();
        let schema = Arc::new(Schema::new(vec![Field::new("a", DataType::Int64, true), Field::new("b", DataType::Utf8, true), Field::new("c", DataType::Int64, true)]));
        let b: Vec<Option<&str>> = rs.iter().map(|r| r[1].as_str().filter(|x| *x != "~")).collect();
        let batch = RecordBatch::try_new(schema.clone(), vec![Arc::new(Int64Array::from(number(0))) as ArrayRef, Arc::new(StringArray::from(b)), Arc::new(Int64Array::from(number(2)))]).unwrap();
        let kind = s(o, "kind");
        let header = self.style % 2 == 0;
        let mut f = tempfile::Builder::new().suffix(&format!(".{kind}")).tempfile().expect("harness: scratch file");
        if kind == "csv" {
            let mut w = arrow::csv::WriterBuilder::new().with_header(header).build(&mut f);
            w.write(&batch).unwrap();
        } else {
            let mut w = datafusion::parquet::arrow::ArrowWriter::try_new(&mut f, schema.clone(), None).unwrap();
            w.write(&batch).unwrap();
            w.close().unwrap();
        }
        let ctx = self.ctx.as_ref().unwrap();
        let given = if kind == "csv" { Some(schema) } else { None };
        let go = ctx.file_to_table(f.path().display().to_string(), kind, given, header, self.schema_name().into(), self.bare(s(o, "n")));
        v_sys::guard(go).await?.map(|_| ()).map_err(|e| v_sys::short(&e.to_string()))
    }
    async fn not_null(&self, n: &str) -> Value {
        let ctx = self.ctx.as_ref().unwrap();
        let Ok(t) = ctx.inner.table_provider(name(self.style, n)).await else { return json!("no such table") };
        let schema = t.schema();
        let mut c: Vec<String> = schema.fields().iter().filter(|f| !f.is_nullable()).map(|f| f.name().clone()).collect();
        c.sort();
        json!(c)
    }
    async fn read(&self, source: &str) -> Result<Value, String> {
        let b = v_sys::run(self.ctx.as_ref().unwrap(), &format!("SELECT a, b, c FROM {source}")).await?;
        Ok(bag(v_sys::rows(&b)))
    }
}

pub fn instant() -> String {
    chrono::DateTime::<chrono::Utc>::from(std::time::SystemTime::now()).to_rfc3339_opts(chrono::SecondsFormat::Millis, true)
}

#[async_trait(?Send)]
impl Sys for Tables {
    async fn reset(&mut self) {
        let ctx = v_sys::start(&v_sys::memory_config(self.partition, "")).await;
        if self.style % 4 == 2 {
            v_sys::run(&ctx, "CREATE SCHEMA other").await.unwrap_or_else(|e| panic!("harness: {e}"));
        }
        self.ctx = Some(ctx);
        self.marks.clear();
        self.born.clear();
        self.floor.clear();
        self.done.clear();
    }
    async fn apply(&mut self, o: &Value) -> Value {
        if s(o, "op") == "mark" {
            tokio::time::sleep(std::time::Duration::from_millis(4)).await;
            self.marks.push(instant());
            tokio::time::sleep(std::time::Duration::from_millis(4)).await;
            return json!("ok");
        }
        let text = if s(o, "op") == "upload" { format!("upload {} to {}: {}", s(o, "kind"), name(self.style, s(o, "n")), o["rs"]) } else { sql(self.style, o) };
        self.done.push(text.clone());
        let before = if let Some(n) = o["n"].as_str() { self.uuid(n).await } else { None };
        let r = if s(o, "op") == "upload" { self.upload(o).await.map(|_| vec![]) } else { v_sys::run(self.ctx.as_ref().unwrap(), &text).await };
        match s(o, "op") {
            "create" | "ctas" | "upload" if r.is_ok() => {
                let u = self.uuid(s(o, "n")).await;
                if let Some(u) = u && before.as_ref() != Some(&u) {
                    self.born.insert(u, self.marks.len());
                }
            }
            "vacuum" if r.is_ok() => {
                if let (Some(u), Some(v)) = (self.uuid(s(o, "n")).await, self.version(s(o, "n")).await) {
                    self.floor.insert(u, v);
                }
            }
            _ => {}
        }
        if std::env::var("VP_SQL").is_ok() {
            eprintln!("{text};  {r:?}");
        }
        self.error = r.as_ref().err().cloned();
        match r {
            Ok(_) => json!("ok"),
            Err(e) if e.starts_with("PANIC") => json!(e),
            Err(_) => json!("error"),
        }
    }
    async fn project(&mut self) -> Value {
        let mut tabs = Map::new();
        for n in &self.names {
            let src = name(self.style, n);
            // reading reloads what is registered
            let rows = self.read(&src).await;
            let v = match (self.uuid(n).await, rows) {
                (None, Err(_)) => json!({"there": false, "nn": [], "rowsSet": [], "past": [], "listed": true}),
                (None, Ok(_)) => json!("readable, but not in the catalog"),
                (Some(_), Err(e)) => json!(format!("unreadable: {e}")),
                (Some(u), Ok(rows)) => {
                    let born = self.born.get(&u).copied().unwrap_or(0);
                    let mut past = vec![];
                    for (i, m) in self.marks.iter().enumerate() {
                        past.push(if i < born {
                            json!({"known": false, "rowsSet": []})
                        } else {
                            match self.read(&format!("{src}('{m}')")).await {
                                Ok(r) => json!({"known": true, "rowsSet": r}),
                                Err(e) => json!({"known": true, "rowsSet": [format!("unreadable: {e}")]}),
                            }
                        });
                    }
                    let listed = if self.versions { self.listed(n, &u).await } else { json!(true) };
                    json!({"there": true, "nn": self.not_null(n).await, "rowsSet": rows, "past": past, "listed": listed})
                }
            };
            tabs.insert(n.clone(), v);
        }
        json!({"tabs": tabs, "marks": self.marks.len()})
    }
    fn accepts(&self, expected: &Value, actual: &Value) -> bool {
        // contents nothing is promised about
        let (mut e, mut a) = (expected.clone(), actual.clone());
        if let (Some(es), Some(a)) = (e["tabs"].as_object_mut(), a["tabs"].as_object_mut()) {
            for (n, x) in es.iter_mut() {
                if let Some(o) = x.as_object_mut() {
                    o.remove("fresh");
                }
                let (Some(x), Some(y)) = (x.get_mut("past").and_then(|p| p.as_array_mut()), a.get_mut(n).and_then(|p| p.get_mut("past")).and_then(|p| p.as_array_mut())) else { continue };
                for (i, x) in x.iter_mut().enumerate() {
                    if x["known"] == json!(false) && i < y.len() {
                        y[i] = x.clone();
                    }
                }
            }
        }
        e == a
    }
    fn about(&self) -> Value {
        json!({"style": self.style, "statements": self.done})
    }
}

pub fn tour(cfg: &Value) -> Value {
    let g = Arc::new(Graph::load(s(cfg, "graph")));
    let names: Vec<String> = g.states[g.init]["tabs"].as_object().unwrap().keys().cloned().collect();
    let o = TourOpts::from(cfg);
    let partition = cfg["partition"].as_u64().unwrap_or(2) as usize;
    let versions = cfg["versions"] == json!(true);
    let k = AtomicUsize::new(o.seed as usize);
    let mut r = crate::v_graph::tour(g.clone(), o, move || Tables::new(names.clone(), k.fetch_add(1, Ordering::SeqCst), partition, versions));
    crate::v_graph::report(&g, &mut r)
}

const TEXTS: [&str; 7] = ["", "B", "a", "x", "y", "é", "~"];
const OPS: [&str; 6] = ["=", "<>", "<", "<=", ">", ">="];
fn number(r: &mut Rng) -> i64 {
    [-2, -1, 0, 1, 2, 3, 4, NL][r.below(8)]
}
fn numeric(r: &mut Rng, d: usize) -> Value {
    match r.below(if d == 0 { 5 } else { 8 }) {
        0..=1 => json!(["col", "a"]),
        2 => json!(["col", "c"]),
        3..=4 => json!(["int", number(r)]),
        5..=6 => json!(["+", numeric(r, d - 1), ["int", ([-1, 1, 2][r.below(3)])]]),
        _ => json!(["-", numeric(r, d - 1), numeric(r, d - 1)]),
    }
}
fn computed(r: &mut Rng) -> Value {
    if r.below(12) == 0 { json!(["boom"]) } else { numeric(r, 1) }
}
fn string(r: &mut Rng) -> Value {
    if r.below(2) == 0 { json!(["col", "b"]) } else { json!(["str", TEXTS[r.below(7)]]) }
}
fn predicate(r: &mut Rng, d: usize) -> Value {
    if d > 0 && r.below(3) > 0 {
        return match r.below(5) {
            0 => json!(["not", predicate(r, d - 1)]),
            1..=2 => json!(["and", predicate(r, d - 1), predicate(r, d - 1)]),
            _ => json!(["or", predicate(r, d - 1), predicate(r, d - 1)]),
        };
    }
    match r.below(16) {
        0..=5 => json!(["cmp", OPS[r.below(6)], numeric(r, 1), numeric(r, 1)]),
        6..=9 => json!(["scmp", OPS[r.below(6)], string(r), string(r)]),
        10..=11 => json!(["null", (["a", "b", "c"][r.below(3)])]),
        12..=13 => json!(["in", numeric(r, 0), (0..1 + r.below(5)).map(|_| number(r)).collect::<Vec<_>>()]),
        14 => json!(["sin", ["col", "b"], (0..1 + r.below(4)).map(|_| TEXTS[r.below(7)]).collect::<Vec<_>>()]),
        _ => json!(["lit", ([0, 1, NL][r.below(3)])]),
    }
}
fn columns(r: &mut Rng) -> Vec<&'static str> {
    let mut c = vec!["a", "b", "c"];
    for i in (1..3).rev() {
        c.swap(i, r.below(i + 1));
    }
    c.truncate([3, 3, 3, 2, 1][r.below(5)]);
    c
}

/// Random statements, recorded for TablesTrace.tla
pub fn random(cfg: &Value) -> Value {
    use std::io::Write;
    let seed = cfg["seed"].as_u64().unwrap_or(1);
    let mut r = Rng::new(seed);
    let len = cfg["len"].as_u64().unwrap_or(300) as usize;
    let marks = cfg["marks"].as_u64().unwrap_or(0) as usize;
    let names: Vec<String> = ["t", "u", "v"].iter().map(|x| x.to_string()).collect();
    let mut out = std::io::BufWriter::new(std::fs::File::create(s(cfg, "trace")).expect("harness: trace"));
    let mut kinds: BTreeMap<String, usize> = Default::default();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let partition = cfg["partition"].as_u64().unwrap_or(3) as usize;
    let events = rt.block_on(async {
        let mut sys = Tables::new(names.clone(), cfg["style"].as_u64().unwrap_or(seed) as usize, partition, cfg["versions"] == json!(true));
        sys.reset().await;
        let mut now = sys.project().await;
        let mut taken = 0;
        for i in 0..len {
            let there: Vec<&String> = names.iter().filter(|n| now["tabs"][n.as_str()]["there"] == json!(true)).collect();
            let pick = |r: &mut Rng| if there.is_empty() || r.below(12) == 0 { names[r.below(3)].clone() } else { there[r.below(there.len())].clone() };
            let n = pick(&mut r);
            let size = |n: &str| now["tabs"][n]["rowsSet"].as_array().map(|a| a.iter().map(|x| x["n"].as_u64().unwrap_or(0)).sum::<u64>()).unwrap_or(0);
            // a predicate over what all tables have: columns of tables made by SELECT may be fewer
            let p = if r.below(8) == 0 { json!(["none"]) } else { predicate(&mut r, 2) };
            let exprs = |r: &mut Rng, c: &[&str]| -> Vec<Value> { c.iter().map(|c| if *c == "b" { string(r) } else { computed(r) }).collect() };
            let k = r.below(100);
            let op = if size(&n) > 14 {
                json!({"op": "delete", "n": n, "p": if k < 20 { json!(["none"]) } else { p }})
            } else {
                match k {
                    0..=2 => {
                        let nn: Vec<&str> = ["a", "b", "c"].into_iter().filter(|_| r.below(5) == 0).collect();
                        json!({"op": "create", "n": names[r.below(3)], "nn": nn, "ine": r.below(2) == 0})
                    }
                    3..=5 => {
                        let rs: Vec<Value> = (0..1 + r.below(4)).map(|_| json!([number(&mut r), TEXTS[r.below(7)], number(&mut r)])).collect();
                        json!({"op": "upload", "n": names[r.below(3)], "kind": (["csv", "parquet"][r.below(2)]), "rs": rs})
                    }
                    6..=9 => {
                        let c = { let mut c = columns(&mut r); while c.len() < 3 { c = columns(&mut r); } c };
                        json!({"op": "ctas", "n": names[r.below(3)], "m": pick(&mut r), "cs": c, "es": exprs(&mut r, &c).into_iter().map(|e| if e[1] == json!("~") || e[1] == json!(NL) { json!([e[0], if e[0] == json!("str") { json!("x") } else { json!(7) }]) } else { e }).collect::<Vec<_>>(), "p": p, "ine": r.below(2) == 0})
                    }
                    10..=35 => {
                        let c = columns(&mut r);
                        let vs: Vec<Vec<Value>> = (0..1 + r.below(6))
                            .map(|_| c.iter().map(|c| if *c == "b" { json!(["str", TEXTS[r.below(7)]]) } else { json!(["int", number(&mut r)]) }).collect())
                            .collect();
                        json!({"op": "insert", "n": n, "cs": c, "vs": vs})
                    }
                    36..=45 => {
                        let c = columns(&mut r);
                        json!({"op": "insertselect", "n": n, "m": pick(&mut r), "cs": c, "es": exprs(&mut r, &c), "p": p})
                    }
                    46..=68 => {
                        let c = columns(&mut r);
                        json!({"op": "update", "n": n, "cs": c, "es": exprs(&mut r, &c), "p": p})
                    }
                    69..=84 => json!({"op": "delete", "n": n, "p": p}),
                    85..=86 => json!({"op": "truncate", "n": n}),
                    87..=88 => json!({"op": "drop", "n": n, "ie": r.below(2) == 0}),
                    89..=92 => json!({"op": "rename", "n": n, "m": names[r.below(3)]}),
                    93..=95 if !there.is_empty() => json!({"op": "vacuum", "n": there[r.below(there.len())]}),
                    _ if taken < marks && !there.is_empty() => json!({"op": "mark"}),
                    _ => json!({"op": "delete", "n": n, "p": p}),
                }
            };
            if s(&op, "op") == "mark" {
                taken += 1;
            }
            let _busy = busy(&op);
            let res = sys.apply(&op).await;
            now = sys.project().await;
            *kinds.entry(format!("{}:{}", s(&op, "op"), res.as_str().unwrap_or("?"))).or_default() += 1;
            writeln!(out, "{}", json!({"o": op, "r": res, "t": now["tabs"], "sql": sys.done.last(), "error": sys.error.clone().unwrap_or_default()})).expect("harness: trace");
            if now["tabs"].as_object().unwrap().values().any(|t| t.is_string()) || res.as_str().is_some_and(|r| r.starts_with("PANIC")) {
                return (i + 1, Some(json!({"what": "a table that cannot be read, or a statement that panics", "state": now, "result": res, "about": sys.about()})));
            }
        }
        (len, None)
    });
    out.flush().unwrap();
    json!({"events": events.0, "steps": events.0, "operations": kinds, "failure": events.1})
}
