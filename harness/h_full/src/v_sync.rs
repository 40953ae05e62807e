//! Replicated changes of rows (SyncRows.tla)
use crate::v_graph::{Graph, Sys, TourOpts};
use crate::v_sys;
use crate::v_util::*;
use arrow::array::*;
use arrow_schema::{Field, Schema};
use async_trait::async_trait;
use clade::sync::{ColumnDescriptor, ColumnRole};
use deltalake::DeltaTable;
use futures::TryStreamExt;
use object_store::{path::Path, ObjectStore, PutPayload};
use seafowl::context::SeafowlContext;
use seafowl::sync::schema::SyncSchema;
use seafowl::sync::{LakehouseSyncTarget, SyncWriter};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::Arc;

/// The columns of a key, and what the k-th key is there
pub fn key_columns(kind: &str, ks: &[Option<usize>]) -> Vec<(&'static str, ArrayRef)> {
    let far = |k: usize| k as i64 * 3_000_000_000 - 7_000_000_000;
    let names = ["", "a", "B", "b", "ą", "z z", "'q'"];
    let text = |k: usize| if k < names.len() { names[k].to_string() } else { format!("row {k}") };
    match kind {
        "upper" => vec![("Id", Arc::new(Int32Array::from_iter(ks.iter().map(|k| k.map(|k| k as i32 - 2)))))],
        "int" => vec![("k", Arc::new(Int32Array::from_iter(ks.iter().map(|k| k.map(|k| k as i32 - 2)))))],
        "bigint" => vec![("k", Arc::new(Int64Array::from_iter(ks.iter().map(|k| k.map(far)))))],
        "text" => vec![("k", Arc::new(StringArray::from_iter(ks.iter().map(|k| k.map(text)))))],
        "date" => vec![("k", Arc::new(Date32Array::from_iter(ks.iter().map(|k| k.map(|k| k as i32 * 400 - 900)))))],
        "double" => vec![("k", Arc::new(Float64Array::from_iter(ks.iter().map(|k| k.map(|k| k as f64 / 3.0 - 1.0)))))],
        "same" => vec![
            ("l", Arc::new(Int64Array::from_iter(ks.iter().map(|k| k.map(|k| k as i64 % 3 + 1))))),
            ("k", Arc::new(Int64Array::from_iter(ks.iter().map(|k| k.map(|k| k as i64 / 3 + 1))))),
        ],
        // keys that differ in the second column only, in the first only, or in both
        "pair" => vec![
            ("k", Arc::new(Int64Array::from_iter(ks.iter().map(|k| k.map(|k| (k as i64 + 1) / 2))))),
            ("l", Arc::new(StringArray::from_iter(ks.iter().map(|k| k.map(|k| ["x", "y"][k % 2]))))),
        ],
        "pair2" => vec![
            ("l", Arc::new(StringArray::from_iter(ks.iter().map(|k| k.map(|k| ["x", "y", "z"][k % 3]))))),
            ("k", Arc::new(Int64Array::from_iter(ks.iter().map(|k| k.map(|k| k as i64 / 3))))),
        ],
        x => panic!("harness: key kind {x}"),
    }
}
fn key_text(kind: &str, k: usize) -> Vec<String> {
    let cols = key_columns(kind, &[Some(k)]);
    let schema = Schema::new(cols.iter().map(|(n, a)| Field::new(*n, a.data_type().clone(), true)).collect::<Vec<_>>());
    let b = RecordBatch::try_new(Arc::new(schema), cols.into_iter().map(|c| c.1).collect()).unwrap();
    v_sys::rows(&[b]).remove(0)
}

#[derive(Clone, Debug)]
pub struct Change {
    pub s: String,
    pub o: usize,
    pub n: usize,
    pub cv: bool,
    pub cw: bool,
    /// what the columns get
    pub v: i64,
    pub w: String,
}

/// Changes of the same column set as what a sender sends
pub fn message(kind: &str, cs: &[Change], order: usize, rng: &mut Rng) -> (SyncSchema, Vec<RecordBatch>) {
    let s = &cs[0].s;
    let how = |x: char| if s.contains(x) { "all" } else if s.contains(x.to_ascii_uppercase()) { "flag" } else { "no" };
    let mut parts = vec![];
    let mut i = 0;
    while i < cs.len() {
        let n = 1 + rng.below(cs.len() - i);
        parts.push(&cs[i..i + n]);
        i += n;
    }
    let null = rng.below(2) == 0;
    let mut desc = vec![];
    let mut batches = vec![];
    for p in parts {
        desc.clear();
        let mut cols: Vec<(String, ArrayRef)> = vec![];
        let mut add = |role: ColumnRole, name: &str, a: ArrayRef| {
            desc.push(ColumnDescriptor { role: role as i32, name: name.to_string() });
            // the names of fields have no meaning
            cols.push((if role == ColumnRole::Value { name.to_string() } else { format!("{}{}", ["c", "C", "c.", "c "][s.len() % 4], desc.len()) }, a));
        };
        let key = |k: usize| (k != 0).then_some(k);
        let olds = key_columns(kind, &p.iter().map(|c| key(c.o)).collect::<Vec<_>>());
        let news = key_columns(kind, &p.iter().map(|c| key(c.n)).collect::<Vec<_>>());
        let mut values = vec![];
        for x in ['v', 'w'] {
            let set = |c: &Change| how(x) == "all" || if x == 'v' { c.cv } else { c.cw };
            let given = |c: &Change| set(c) && (c.n != 0 || !null);
            let a: ArrayRef = if x == 'v' {
                Arc::new(Int64Array::from_iter(p.iter().map(|c| given(c).then_some(c.v))))
            } else {
                Arc::new(StringArray::from_iter(p.iter().map(|c| given(c).then_some(c.w.clone()))))
            };
            let f: ArrayRef = Arc::new(BooleanArray::from_iter(p.iter().map(|c| Some(if c.n == 0 { null } else { set(c) }))));
            values.push((x.to_string(), a, f));
        }
        // another order of columns for each column set
        let order = order + s.bytes().map(|b| b as usize).sum::<usize>();
        let (order, flags) = (order % 3, order / 3 % 3);
        if flags == 2 {
            for (n, _, f) in &values {
                if how(n.chars().next().unwrap()) == "flag" { add(ColumnRole::Changed, n, f.clone()); }
            }
        }
        if order == 0 {
            for (n, a) in olds { add(ColumnRole::OldPk, n, a); }
            for (n, a) in news { add(ColumnRole::NewPk, n, a); }
        } else if order == 1 {
            for (n, a) in news { add(ColumnRole::NewPk, n, a); }
            // not in the order of the new key's columns
            for (n, a) in olds.into_iter().rev() { add(ColumnRole::OldPk, n, a); }
        } else {
            for ((n, a), (m, b)) in olds.into_iter().zip(news) {
                add(ColumnRole::OldPk, n, a);
                add(ColumnRole::NewPk, m, b);
            }
            values.reverse();
        }
        for (n, a, f) in values {
            match how(n.chars().next().unwrap()) {
                "all" => add(ColumnRole::Value, &n, a),
                "flag" => {
                    if flags == 1 { add(ColumnRole::Changed, &n, f.clone()); }
                    add(ColumnRole::Value, &n, a);
                    if flags == 0 { add(ColumnRole::Changed, &n, f); }
                }
                _ => {}
            }
        }
        let schema = Arc::new(Schema::new(cols.iter().map(|(n, a)| Field::new(n, a.data_type().clone(), true)).collect::<Vec<_>>()));
        batches.push(RecordBatch::try_new(schema, cols.into_iter().map(|c| c.1).collect()).expect("harness: batch"));
    }
    (SyncSchema::try_new(desc, batches[0].schema(), true).expect("harness: schema"), batches)
}

pub fn target(ctx: &SeafowlContext, path: &str) -> LakehouseSyncTarget {
    LakehouseSyncTarget::Delta(ctx.get_internal_object_store().unwrap().get_log_store(path))
}

/// The rows of a table, by key (0: a key that is none of them)
pub async fn read(ctx: &SeafowlContext, path: &str, kind: &str, keys: usize) -> Result<BTreeMap<usize, Vec<(String, String)>>, String> {
    let log = ctx.get_internal_object_store().unwrap().get_log_store(path);
    let mut t = DeltaTable::new(log, Default::default());
    t.load().await.map_err(|e| e.to_string())?;
    let names: Vec<String> = key_columns(kind, &[]).iter().map(|c| format!("\"{}\"", c.0)).collect();
    ctx.inner.deregister_table("vp_synced").map_err(|e| e.to_string())?;
    ctx.inner.register_table("vp_synced", Arc::new(t)).map_err(|e| e.to_string())?;
    let df = ctx.inner.sql(&format!("SELECT {}, v, w FROM vp_synced", names.join(", "))).await.map_err(|e| v_sys::short(&e.to_string()))?;
    let b = df.collect().await.map_err(|e| v_sys::short(&e.to_string()))?;
    let known: BTreeMap<Vec<String>, usize> = (1..=keys).map(|k| (key_text(kind, k), k)).collect();
    let mut r: BTreeMap<usize, Vec<(String, String)>> = Default::default();
    for row in v_sys::rows(&b) {
        let n = names.len();
        let k = known.get(&row[..n]).copied().unwrap_or(0);
        r.entry(k).or_default().push((row[n].clone(), row[n + 1].clone()));
    }
    Ok(r)
}

/// Makes the statistics of the files of a table as others could have written them
pub async fn restate(ctx: &SeafowlContext, path: &str, how: &str, turn: usize) {
    let store = ctx.get_internal_object_store().unwrap();
    let logs: Vec<_> = store.inner.list(Some(&Path::from(format!("{path}/_delta_log")))).try_collect().await.expect("harness: logs");
    for l in logs {
        let text = store.inner.get(&l.location).await.expect("harness: log").bytes().await.expect("harness: log");
        let mut out = String::new();
        for (i, line) in std::str::from_utf8(&text).unwrap().lines().enumerate() {
            let mut j: Value = serde_json::from_str(line).expect("harness: log");
            if let Some(st) = j.pointer("/add/stats").and_then(|s| s.as_str()).map(|s| s.to_string()) {
                let mut st: Value = serde_json::from_str(&st).expect("harness: stats");
                if how.contains("many") {
                    st["numRecords"] = json!(4_000_000);
                }
                if how.contains("unbounded") && (i + turn) % 2 == 0 {
                    st["maxValues"] = json!({});
                    if (i + turn) % 4 == 0 {
                        st["minValues"] = json!({});
                    }
                }
                j["add"]["stats"] = json!(st.to_string());
                if how.contains("none") && (i + turn) % 2 == 0 {
                    j["add"].as_object_mut().unwrap().remove("stats");
                }
            }
            out.push_str(&j.to_string());
            out.push('\n');
        }
        store.inner.put(&l.location, PutPayload::from(out.into_bytes())).await.expect("harness: log");
    }
}

static EACH: std::sync::Mutex<BTreeMap<String, Value>> = std::sync::Mutex::new(BTreeMap::new());

struct Rows {
    ctx: Option<Arc<SeafowlContext>>,
    writer: Option<SyncWriter>,
    opts: Value,
    session: usize,
    kind: String,
    stats: String,
    path: String,
    keys: usize,
    counter: i64,
    order: usize,
    seq: u64,
    pend: Vec<Change>,
    /// what the labels of the specification stand for
    kept: BTreeMap<(usize, char), String>,
    base: Value,
    rng: Rng,
    sent: Vec<Value>,
}
fn pick(v: &Value, i: usize) -> String {
    let a = v.as_array().expect("harness: list");
    a[i % a.len()].as_str().unwrap().to_string()
}
impl Rows {
    fn new(opts: Value, worker: usize) -> Self {
        Rows { ctx: None, writer: None, opts, session: worker, kind: "".into(), stats: "".into(), path: "".into(), keys: 0, counter: 0, order: 0, seq: 0, pend: vec![],
            kept: Default::default(), base: json!(null), rng: Rng::new(worker as u64 + 1), sent: vec![] }
    }
    fn send(&mut self, cs: &[Change]) -> Result<(), String> {
        if self.rng.below(2) == 0 { self.order = self.rng.below(9); }
        let (schema, batches) = message(&self.kind, cs, self.order, &mut self.rng);
        self.sent.push(json!(batches.iter().map(|b| json!({"schema": schema.to_string(), "rows": v_sys::rows(&[b.clone()])})).collect::<Vec<_>>()));
        self.seq += 1;
        let t = target(self.ctx.as_ref().unwrap(), &self.path);
        self.writer.as_mut().unwrap().enqueue_sync(t, Some(self.seq), "here".into(), schema, batches).map_err(|e| e.to_string())
    }
    async fn flush(&mut self) -> Result<(), String> {
        let w = self.writer.as_mut().unwrap();
        v_sys::guard(w.flush()).await?.map_err(|e| v_sys::short(&e.to_string()))
    }
    /// A new table with these rows
    async fn fresh(&mut self, rows: &BTreeMap<usize, Vec<(String, String)>>) {
        self.path = format!("synced/{}-{}", self.session, self.counter);
        self.writer = Some(SyncWriter::new(self.ctx.clone().unwrap()));
        self.seq = 0;
        // the first message makes the table
        for (o, n) in [(0, 1), (1, 0)] {
            let c = self.change(&json!({"s": "vw", "o": o, "n": n, "cv": true, "cw": true}));
            self.send(&[c]).expect("harness: first message");
            self.flush().await.unwrap_or_else(|e| panic!("harness: first flush: {e}"));
        }
        for (k, r) in rows {
            let s = format!("{}{}", if r[0].0 == "~" { "" } else { "v" }, if r[0].1 == "~" { "" } else { "w" });
            let c = Change { s, o: 0, n: *k, cv: true, cw: true, v: r[0].0.parse().unwrap_or(0), w: r[0].1.clone() };
            self.send(&[c]).expect("harness: message");
            self.flush().await.unwrap_or_else(|e| panic!("harness: flush: {e}"));
        }
    }
    fn change(&mut self, c: &Value) -> Change {
        self.counter += 1;
        Change {
            s: s(c, "s").into(),
            o: c["o"].as_u64().unwrap() as usize,
            n: c["n"].as_u64().unwrap() as usize,
            cv: c["cv"] == json!(true),
            cw: c["cw"] == json!(true),
            v: self.counter,
            w: format!("w{}", self.counter),
        }
    }
    fn label(&self, l: &str, x: char) -> String {
        let i: usize = l[1..].parse().unwrap_or(0);
        match &l[..1] {
            "b" => self.kept[&(i, x)].clone(),
            "p" => if x == 'v' { self.pend[i - 1].v.to_string() } else { self.pend[i - 1].w.clone() },
            _ => "~".into(),
        }
    }
}

#[async_trait(?Send)]
impl Sys for Rows {
    async fn reset(&mut self) {
        if self.ctx.is_none() {
            let part = self.opts["partition"].as_u64().unwrap() as usize;
            self.ctx = Some(v_sys::start(&v_sys::memory_config(part, "[misc.sync_conf]\nmax_replication_lag_s = 0\n")).await);
        }
        self.session += 8;
        self.kind = pick(&self.opts["keys"], self.session / 3);
        self.stats = pick(&self.opts["stats"], self.session);
        self.pend.clear();
        self.kept.clear();
        self.sent.clear();
        self.fresh(&Default::default()).await;
        self.base = json!(null);
    }
    async fn apply(&mut self, o: &Value) -> Value {
        match s(o, "op") {
            "change" => {
                let c = self.change(&o["c"]);
                self.pend.push(c);
                json!("ok")
            }
            "flush" => {
                let now = o["now"].as_object().unwrap().clone();
                self.keys = now.len();
                self.sent.clear();
                // the order of columns changes from one write to another
                self.order = self.rng.below(9);
                let pend = self.pend.clone();
                for _ in 0..if o["again"] == json!(true) { 2 } else { 1 } {
                let mut i = 0;
                while i < pend.len() {
                    // one message or several, where they have the same columns
                    let mut n = 1;
                    while i + n < pend.len() && pend[i + n].s == pend[i].s && self.rng.below(3) != 0 {
                        n += 1;
                    }
                    if let Err(e) = self.send(&pend[i..i + n]) {
                        return json!(e);
                    }
                    i += n;
                }
                if let Err(e) = self.flush().await {
                    return json!(e);
                }
                }
                let got = match read(self.ctx.as_ref().unwrap(), &self.path, &self.kind, self.keys).await {
                    Ok(r) => r,
                    Err(e) => return json!(e),
                };
                let mut want: BTreeMap<usize, Vec<(String, String)>> = Default::default();
                let mut kept = BTreeMap::new();
                let mut base = serde_json::Map::new();
                for (k, r) in &now {
                    let k: usize = k.parse().unwrap();
                    let (v, w) = (s(r, "v"), s(r, "w"));
                    if v != "none" {
                        let (v, w) = (self.label(v, 'v'), self.label(w, 'w'));
                        kept.insert((k, 'v'), v.clone());
                        kept.insert((k, 'w'), w.clone());
                        want.insert(k, vec![(v, w)]);
                    }
                    let b = |x: &str| json!(if x == "none" || x == "null" { x.to_string() } else { format!("b{k}") });
                    base.insert(k.to_string(), json!({"v": b(v), "w": b(w)}));
                }
                if got != want && self.opts["each"] == json!(true) {
                    // every history that fails is told on its own
                    let l = |x: &str| if x == "null" { "n" } else if x == "none" { "-" } else { "b" };
                    let b: Vec<String> = if self.base.is_null() { vec!["none".into()] } else {
                        self.base.as_object().unwrap().values().map(|r| format!("{}{}", l(s(r, "v")), l(s(r, "w")))).collect()
                    };
                    let c: Vec<String> = self.pend.iter().map(|c| format!("{}{}>{}", c.s, c.o, c.n)).collect();
                    let key = format!("lost:{}:{}", b.join(","), c.join(","));
                    EACH.lock().unwrap().entry(key.clone()).or_insert_with(|| json!({"what": "rows after changes", "key": key, "rows expected": format!("{want:?}"),
                        "rows found": format!("{got:?}"), "sent": self.sent, "keys": self.kind}));
                    self.fresh(&want).await;
                } else if got != want {
                    return json!({"rows expected": format!("{want:?}"), "rows found": format!("{got:?}"), "sent": self.sent, "statistics": self.stats, "keys": self.kind});
                }
                self.kept = kept;
                self.base = json!(base);
                self.pend.clear();
                if self.stats != "own" {
                    restate(self.ctx.as_ref().unwrap(), &self.path, &self.stats.clone(), self.session).await;
                }
                json!("ok")
            }
            x => panic!("harness: op {x}"),
        }
    }
    async fn project(&mut self) -> Value {
        self.base.clone()
    }
    fn accepts(&self, e: &Value, a: &Value) -> bool {
        a.is_null() || &e["base"] == a
    }
    fn about(&self) -> Value {
        json!({"keys": self.kind, "statistics": self.stats, "sent": self.sent})
    }
}

pub fn rows_tour(cfg: &Value) -> Value {
    let g = Arc::new(Graph::load(s(cfg, "graph")));
    let opts = cfg.clone();
    let turn = std::sync::atomic::AtomicUsize::new(0);
    let mut r = crate::v_graph::tour(g.clone(), TourOpts::from(cfg), move || Rows::new(opts.clone(), turn.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
    let mut r = crate::v_graph::report(&g, &mut r);
    r["failures"] = json!(std::mem::take(&mut *EACH.lock().unwrap()).into_values().collect::<Vec<_>>());
    r
}

/// Descriptions of changes (SyncSchemas.tla)
fn describe(l: &Value, turn: usize) -> (Vec<ColumnDescriptor>, Arc<Schema>) {
    use arrow_schema::DataType;
    let l = l.as_array().expect("harness: list");
    let mut desc = vec![];
    let mut fields = vec![];
    for (i, c) in l.iter().enumerate() {
        desc.push(ColumnDescriptor {
            role: match s(c, "role") { "old" => ColumnRole::OldPk as i32, "new" => ColumnRole::NewPk as i32, "value" => ColumnRole::Value as i32,
                "changed" => ColumnRole::Changed as i32, _ => [17, -1, 4][turn % 3] },
            name: s(c, "name").into(),
        });
        let t = match s(c, "type") { "int" => DataType::Int32, "text" => DataType::Utf8, _ => DataType::Boolean };
        // what the fields are called has no meaning
        let f = match turn % 3 { 0 => format!("c{i}"), 1 => format!("{}", l.len() - i), _ => format!("{}_{}", s(c, "role"), if i % 2 == 0 { i } else { 100 - i }) };
        fields.push(Field::new(f, t, turn % 2 == 0 || s(c, "role") != "changed"));
    }
    (desc, Arc::new(Schema::new(fields)))
}

pub fn schemas(cfg: &Value) -> Value {
    use crate::v_cases;
    let n = std::sync::atomic::AtomicUsize::new(0);
    v_cases::run(v_cases::load(s(cfg, "graph")), 8, v_cases::known(cfg), || (), move |_, c| {
        let turn = n.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let make = |l: &Value, turn: usize| {
            let (d, f) = describe(l, turn);
            SyncSchema::try_new(d, f, true)
        };
        let bad = |what: &str, x: String| Err(json!({"what": what, "case": c, "actual": x}));
        if let Some(b) = c.get("b") {
            let (a, b) = match (make(&c["a"], turn), make(b, turn / 3)) {
                (Ok(a), Ok(b)) => (a, b),
                x => return bad("a description of changes is accepted", format!("{x:?}")),
            };
            let same = c["same"] == json!(true);
            if a.is_compatible_with(&b) != same || b.is_compatible_with(&a) != same {
                return bad("two descriptions go together exactly if they agree", format!("{}", !same));
            }
            return Ok(2);
        }
        let r = make(&c["a"], turn);
        let ok = c["ok"] == json!(true);
        if r.is_ok() != ok {
            return bad("a description is accepted exactly if it describes changes of rows", format!("{r:?}"));
        }
        let Ok(r) = r else { return Ok(1) };
        // what it says is kept
        let told: Vec<Value> = r.columns().iter().map(|x| json!({
            "role": match x.role() { ColumnRole::OldPk => "old", ColumnRole::NewPk => "new", ColumnRole::Value => "value", ColumnRole::Changed => "changed" },
            "name": x.name(),
            "type": match x.field().data_type() { arrow_schema::DataType::Int32 => "int", arrow_schema::DataType::Utf8 => "text", _ => "bool" },
        })).collect();
        if json!(told) != c["a"] {
            return bad("a description keeps its columns", format!("{told:?}"));
        }
        // a column more or less than the data has
        let (mut d, f) = describe(&c["a"], turn);
        let one = d.pop().unwrap();
        if SyncSchema::try_new(d.clone(), f.clone(), true).is_ok() {
            return bad("a description of fewer columns than the data has is refused", "accepted".into());
        }
        d.push(one.clone());
        d.push(ColumnDescriptor { role: ColumnRole::Value as i32, name: "more".into() });
        if SyncSchema::try_new(d, f.clone(), true).is_ok() {
            return bad("a description of more columns than the data has is refused", "accepted".into());
        }
        // two of the same name in the data can't be told apart
        let (d, _) = describe(&c["a"], turn);
        let mut fields: Vec<Field> = f.fields().iter().map(|x| x.as_ref().clone()).collect();
        let (last, first) = (fields.len() - 1, fields[0].name().clone());
        fields[last] = fields[last].clone().with_name(first);
        if SyncSchema::try_new(d, Arc::new(Schema::new(fields)), true).is_ok() {
            return bad("data with two fields of one name is refused", "accepted".into());
        }
        Ok(4)
    })
}

/// Given messages, written together: {"key": kind, "partition": n, "writes": [[{"s", "order", "ch": [[old, new, v given]]}]]}
pub fn replay(cfg: &Value) -> Value {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    rt.block_on(async {
        let ctx = v_sys::start(&v_sys::memory_config(cfg["partition"].as_u64().unwrap() as usize, "[misc.sync_conf]\nmax_replication_lag_s = 0\n")).await;
        let kind = s(cfg, "key");
        let mut w = SyncWriter::new(ctx.clone());
        let (mut seq, mut v, mut seen) = (0, 0, vec![]);
        for write in cfg["writes"].as_array().unwrap() {
            for m in write.as_array().unwrap() {
                let cs: Vec<Change> = m["ch"].as_array().unwrap().iter().map(|c| {
                    v += 1;
                    Change { s: s(m, "s").into(), o: c[0].as_u64().unwrap() as usize, n: c[1].as_u64().unwrap() as usize, cv: c[2] != json!(false), cw: c[2] != json!(false),
                        v, w: format!("w{v}") }
                }).collect();
                let split: Vec<u64> = m["split"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect()).unwrap_or_default();
                let (schema, batches) = (1..10_000)
                    .map(|i| message(kind, &cs, m["order"].as_u64().unwrap() as usize, &mut Rng::new(i)))
                    .find(|b| split.is_empty() || b.1.iter().map(|b| b.num_rows() as u64).collect::<Vec<_>>() == split)
                    .expect("harness: split");
                eprintln!("{schema} {:?}", batches.iter().map(|b| v_sys::rows(&[b.clone()])).collect::<Vec<_>>());
                seq += 1;
                w.enqueue_sync(target(&ctx, "t"), Some(seq), "o".into(), schema, batches).expect("enqueue");
            }
            let r = v_sys::guard(w.flush()).await;
            seen.push(json!([format!("{r:?}"), format!("{:?}", read(&ctx, "t", kind, 8).await)]));
        }
        json!(seen)
    })
}
