//! Replication: a receiver of transactions of changes, observed (SyncTrace.tla)
use crate::v_sync::{message, read, target, Change};
use crate::v_sys;
use crate::v_util::*;
use arrow::array::RecordBatch;
use async_trait::async_trait;
use futures::stream::BoxStream;
use object_store::memory::InMemory;
use object_store::path::Path;
use object_store::{Error, GetOptions, GetResult, ListResult, MultipartUpload, ObjectMeta, ObjectStore, PutMultipartOpts, PutOptions, PutPayload, PutResult, Result as OResult};
use seafowl::config::context::build_context;
use object_store_factory::ObjectStoreConfig;
use seafowl::context::SeafowlContext;
use seafowl::object_store::wrapped::InternalObjectStore;
use seafowl::sync::SyncWriter;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::Arc;

/// Objects in memory; the n-th request from now fails, before or after it has done its work
#[derive(Debug)]
struct Breaking {
    inner: InMemory,
    left: AtomicI64,
    after: AtomicI64,
    hit: AtomicI64,
}
impl std::fmt::Display for Breaking {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "breaking")
    }
}
fn broken() -> Error {
    Error::Generic { store: "breaking", source: "out of order".into() }
}
impl Breaking {
    fn turn(&self) -> (bool, bool) {
        let now = self.left.fetch_sub(1, Ordering::SeqCst) == 1;
        if now {
            self.hit.store(1, Ordering::SeqCst);
        }
        let after = self.after.load(Ordering::SeqCst) == 1;
        (now && !after, now && after)
    }
}
#[async_trait]
impl ObjectStore for Breaking {
    async fn put_opts(&self, l: &Path, p: PutPayload, o: PutOptions) -> OResult<PutResult> {
        let (before, after) = self.turn();
        if before { return Err(broken()); }
        let r = self.inner.put_opts(l, p, o).await;
        if after { return Err(broken()); }
        r
    }
    async fn put_multipart_opts(&self, l: &Path, o: PutMultipartOpts) -> OResult<Box<dyn MultipartUpload>> {
        if self.turn() != (false, false) { return Err(broken()); }
        self.inner.put_multipart_opts(l, o).await
    }
    async fn get_opts(&self, l: &Path, o: GetOptions) -> OResult<GetResult> {
        if self.turn() != (false, false) { return Err(broken()); }
        self.inner.get_opts(l, o).await
    }
    async fn delete(&self, l: &Path) -> OResult<()> {
        self.inner.delete(l).await
    }
    fn list(&self, p: Option<&Path>) -> BoxStream<'_, OResult<ObjectMeta>> {
        if self.turn() != (false, false) {
            return Box::pin(futures::stream::once(async { Err(broken()) }));
        }
        self.inner.list(p)
    }
    async fn list_with_delimiter(&self, p: Option<&Path>) -> OResult<ListResult> {
        self.inner.list_with_delimiter(p).await
    }
    async fn copy(&self, a: &Path, b: &Path) -> OResult<()> {
        self.inner.copy(a, b).await
    }
    async fn copy_if_not_exists(&self, a: &Path, b: &Path) -> OResult<()> {
        self.inner.copy_if_not_exists(a, b).await
    }
}

const TABLES: [&str; 3] = ["x", "y", "z"];
const KEYS: usize = 4;

#[derive(Clone)]
struct Sent {
    o: &'static str,
    t: &'static str,
    seq: u64,
    ch: Vec<(usize, usize, i64)>,
}

struct Run {
    shared: Arc<SeafowlContext>,
    store: Arc<Breaking>,
    writer: SyncWriter,
    rng: Rng,
    order: usize,
    kind: String,
    dir: String,
    counter: i64,
    events: Vec<Value>,
    kinds: BTreeMap<String, usize>,
}

async fn context(settings: &str) -> (SeafowlContext, Arc<Breaking>) {
    let store = Arc::new(Breaking { inner: InMemory::new(), left: 0.into(), after: 0.into(), hit: 0.into() });
    let mut ctx = build_context(v_sys::config(&v_sys::memory_config(2, settings))).await.expect("harness: context");
    ctx.internal_object_store = Some(Arc::new(InternalObjectStore::new(store.clone(), ObjectStoreConfig::Memory)));
    (ctx, store)
}

impl Run {
    async fn rows(&self) -> Result<Value, String> {
        let mut r = serde_json::Map::new();
        for t in TABLES {
            let path = format!("{}/{t}", self.dir);
            let there = self.shared.get_internal_object_store().unwrap().get_log_store(&path).is_delta_table_location().await.map_err(|e| e.to_string())?;
            let mut a = vec![0i64; KEYS];
            if there {
                for (k, v) in read(&self.shared, &path, &self.kind, KEYS).await? {
                    // a key that is none of them, twice, or with values that don't belong together: no rows of any table
                    let v: Vec<i64> = v.iter().map(|x| if x.1 == format!("w{}", x.0) { x.0.parse().unwrap_or(-1) } else { -1 }).collect();
                    if k == 0 || v.len() != 1 {
                        a[k.max(1) - 1] = -2;
                    } else {
                        a[k - 1] = v[0];
                    }
                }
            }
            r.insert(t.into(), json!(a));
        }
        Ok(json!(r))
    }
    fn numbers(&self) -> (Value, Value) {
        let n = |i: usize| json!(["A", "B"].iter().map(|o| {
            let (m, d) = self.writer.stored_sequences(&o.to_string());
            (o.to_string(), json!([m, d][i].unwrap_or(0)))
        }).collect::<serde_json::Map<String, Value>>());
        (n(0), n(1))
    }
    async fn note(&mut self, mut e: Value) -> Result<(), Value> {
        let (mem, dur) = self.numbers();
        match self.rows().await {
            Ok(r) => e["rows"] = r,
            Err(x) => return Err(json!({"what": "a table can't be read", "error": x, "event": e})),
        }
        (e["mem"], e["dur"]) = (mem, dur);
        let k = format!("{}{}", s(&e, "e"), e["r"].as_str().map(|r| format!(" {r}")).unwrap_or_default());
        *self.kinds.entry(k).or_default() += 1;
        self.events.push(e);
        Ok(())
    }
    fn arm(&mut self, faults: bool) {
        self.store.hit.store(0, Ordering::SeqCst);
        let arm = faults && self.rng.below(4) == 0;
        self.store.after.store(self.rng.below(2) as i64, Ordering::SeqCst);
        self.store.left.store(if arm { 1 + self.rng.below(14) as i64 } else { 0 }, Ordering::SeqCst);
    }
    fn disarm(&mut self) -> bool {
        self.store.left.store(0, Ordering::SeqCst);
        self.store.hit.load(Ordering::SeqCst) == 1
    }
    /// What the server does with a message
    async fn send(&mut self, m: &Sent, again: bool, faults: bool) -> Result<String, Value> {
        let all = ["vw", "Vw", "vW", "VW"][self.rng.below(4)];
        let cs: Vec<Change> = m.ch.iter().map(|c| Change { s: all.into(), o: c.0, n: c.1, cv: true, cw: true, v: c.2, w: format!("w{}", c.2) }).collect();
        let (schema, batches) = if cs.is_empty() { (seafowl::sync::schema::SyncSchema::empty(), vec![]) } else {
            if self.rng.below(3) == 0 { self.order = self.rng.below(9); }
            message(&self.kind, &cs, self.order, &mut self.rng)
        };
        let t = target(&self.shared, &format!("{}/{}", self.dir, m.t));
        self.arm(faults);
        let r = self.writer.enqueue_sync(t, (m.seq != 0).then_some(m.seq), m.o.to_string(), schema, batches);
        let mut error = String::new();
        let r = match r {
            Err(e) if e.to_string().contains("ransaction") => { error = e.to_string(); "refused" }
            Err(e) => { error = e.to_string(); "failed" }
            Ok(()) => match v_sys::guard(self.writer.flush()).await {
                Ok(Ok(())) => "ok",
                Ok(Err(e)) => { error = v_sys::short(&e.to_string()); "failed" }
                Err(e) => { error = e; "failed" }
            },
        };
        let fault = self.disarm();
        self.note(json!({"e": "msg", "o": m.o, "t": m.t, "seq": m.seq, "ch": m.ch, "r": r, "again": again, "fault": fault, "error": error})).await?;
        Ok(r.to_string())
    }
    async fn flush(&mut self, all: bool, faults: bool) -> Result<(), Value> {
        self.arm(faults);
        let (r, error) = match v_sys::guard(self.writer.flush()).await {
            Ok(Ok(())) => ("ok", String::new()),
            Ok(Err(e)) => ("failed", v_sys::short(&e.to_string())),
            Err(e) => ("failed", e),
        };
        let fault = self.disarm();
        self.note(json!({"e": "flush", "r": r, "all": all, "fault": fault, "error": error})).await
    }
}

async fn session(run: &mut Run, len: usize, faults: bool, restarts: bool, lag: u64) -> Result<(), Value> {
    let mut truth: BTreeMap<&str, Vec<bool>> = TABLES.iter().map(|t| (*t, vec![false; KEYS])).collect();
    // what the senders keep: the transactions not known to be written, the last one may be open
    let mut kept: Vec<Vec<Sent>> = vec![];
    let mut next: BTreeMap<&str, u64> = [("A", 1), ("B", 1)].into();
    for _ in 0..len {
        let _busy = busy(&json!(run.events.last()));
        let open = kept.last().is_some_and(|t| t.last().unwrap().seq == 0);
        let k = run.rng.below(40);
        if k == 0 && restarts {
            run.writer = SyncWriter::new(run.shared.clone());
            run.note(json!({"e": "restart"})).await?;
            let old = kept.clone();
            for m in old.iter().flatten() {
                run.send(m, true, faults).await?;
            }
        } else if k < 3 {
            run.flush(lag == 0, faults).await?;
        } else {
            let cur = kept.last().map(|t| t[0].o).unwrap_or("A");
            let o = if open && run.rng.below(8) != 0 { cur } else { ["A", "B"][run.rng.below(2)] };
            let t = TABLES[run.rng.below(3)];
            let mut ch = vec![];
            let refused = open && o != cur;
            let mut now = truth[t].clone();
            // rows that may be sent again are left where they are (what happens otherwise: SyncHistories.tla)
            let again: Vec<usize> = kept.iter().flatten().filter(|m| restarts && m.t == t).flat_map(|m| &m.ch).filter(|c| c.0 != c.1).map(|c| c.1).collect();
            for _ in 0..run.rng.below(4) {
                let there: Vec<usize> = (1..=KEYS).filter(|k| now[*k - 1]).collect();
                let loose: Vec<usize> = there.iter().copied().filter(|k| !again.contains(k)).collect();
                let free: Vec<usize> = (1..=KEYS).filter(|k| !now[*k - 1]).collect();
                let any = |r: &mut Rng, a: &Vec<usize>| a[r.below(a.len())];
                let (old, new) = match run.rng.below(5) {
                    0 | 1 if !free.is_empty() => (0, any(&mut run.rng, &free)),
                    2 if !there.is_empty() => { let k = any(&mut run.rng, &there); (k, k) }
                    3 if !loose.is_empty() && !free.is_empty() => (any(&mut run.rng, &loose), any(&mut run.rng, &free)),
                    _ if !loose.is_empty() => (any(&mut run.rng, &loose), 0),
                    _ if !free.is_empty() => (0, any(&mut run.rng, &free)),
                    _ => { let k = any(&mut run.rng, &there); (k, k) }
                };
                if old != 0 { now[old - 1] = false; }
                if new != 0 { now[new - 1] = true; }
                run.counter += 1;
                ch.push((old, new, run.counter));
            }
            let done = run.rng.below(3) != 0;
            let seq = if done || ch.is_empty() { next[o] + run.rng.below(3) as u64 } else { 0 };
            let m = Sent { o, t, seq, ch };
            let r = run.send(&m, false, faults).await?;
            if r != "refused" {
                if refused {
                    return Err(json!({"what": "a message of another origin within a transaction is refused", "actual": run.events.last()}));
                }
                truth.insert(t, now);
                if seq != 0 { next.insert(o, seq + 1); }
                if open { kept.last_mut().unwrap().push(m) } else { kept.push(vec![m]) }
            }
            // what is known to be written needn't be sent again
            let dur: BTreeMap<&str, u64> = ["A", "B"].into_iter().map(|o| (o, run.writer.stored_sequences(&o.to_string()).1.unwrap_or(0))).collect();
            kept.retain(|t| t.last().unwrap().seq == 0 || t.last().unwrap().seq > dur[t[0].o]);
        }
    }
    if kept.last().is_some_and(|t| t.last().unwrap().seq == 0) {
        // the end of the last transaction, without a change
        let o = kept.last().unwrap()[0].o;
        run.send(&Sent { o, t: "x", seq: next[o], ch: vec![] }, false, faults).await?;
    }
    if lag != 0 {
        tokio::time::sleep(std::time::Duration::from_millis(lag * 1000 + 1050)).await;
    }
    run.flush(true, false).await?;
    run.note(json!({"e": "end"})).await
}

/// Records sessions into files, one each
pub fn random(cfg: &Value) -> Value {
    let n = cfg["sessions"].as_u64().unwrap_or(8) as usize;
    let len = cfg["len"].as_u64().unwrap_or(60) as usize;
    let seed = cfg["seed"].as_u64().unwrap_or(1);
    let dir = s(cfg, "dir").to_string();
    let hs: Vec<_> = (0..8)
        .map(|w| {
            let dir = dir.clone();
            std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
                let (mut all, mut kinds, mut failure): (Vec<Value>, BTreeMap<String, usize>, Option<Value>) = Default::default();
                for i in (w..n).step_by(8) {
                    let (lag, settings) = match i % 3 {
                        0 => (0, "[misc.sync_conf]\nmax_replication_lag_s = 0\n"),
                        1 => (1, "[misc.sync_conf]\nmax_replication_lag_s = 1\nmax_syncs_per_url = 2\n"),
                        _ => (1, "[misc.sync_conf]\nmax_replication_lag_s = 1\nmax_in_memory_bytes = 4000\n"),
                    };
                    failure = rt.block_on(async {
                        let (ctx, store) = context(settings).await;
                        let shared = Arc::new(ctx);
                        let mut run = Run { writer: SyncWriter::new(shared.clone()), shared, store, rng: Rng::new(seed * 1000 + i as u64), order: 0,
                            kind: ["int", "pair", "text"][i / 3 % 3].into(), dir: "synced".into(), counter: 0, events: vec![], kinds: Default::default() };
                        let r = match run.note(json!({"e": "new"})).await {
                            Ok(()) => session(&mut run, len, i % 2 == 1, i / 2 % 2 == 1, lag).await,
                            e => e,
                        };
                        all.append(&mut run.events);
                        for (k, v) in run.kinds {
                            *kinds.entry(k).or_default() += v;
                        }
                        r.err()
                    });
                    if failure.is_some() { break; }
                }
                let p = format!("{dir}/sessions{w}.ndjson");
                std::fs::write(&p, all.iter().map(|e| format!("{e}\n")).collect::<String>()).expect("harness: trace");
                json!({"trace": p, "events": all.len(), "kinds": kinds, "failure": failure})
            }).unwrap()
        })
        .collect();
    let all: Vec<Value> = hs.into_iter().map(|h| h.join().unwrap_or_else(|p| panic!("harness: session: {}", panic_text(p)))).collect();
    json!({"sessions": all})
}

/// The same batch, which takes a lot of memory
fn wide(b: &RecordBatch) -> RecordBatch {
    let n = b.num_rows();
    let cols = b.columns().iter().map(|c| {
        let more = arrow::array::new_null_array(c.data_type(), 20_000);
        arrow::compute::concat(&[c.as_ref(), more.as_ref()]).expect("harness: concat").slice(0, n)
    });
    RecordBatch::try_new(b.schema(), cols.collect()).expect("harness: wide")
}

/// Changes that end up in one write (SyncHistories.tla)
pub fn histories(cfg: &Value) -> Value {
    use crate::v_cases;
    let seed = cfg["seed"].as_u64().unwrap_or(1);
    let turn = Arc::new(std::sync::atomic::AtomicU64::new(0));
    let late_ones = cfg["late"] == json!(true);
    let make = || {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let soon = rt.block_on(context("[misc.sync_conf]\nmax_replication_lag_s = 0\n")).0;
        // big messages make it compact what it has
        let (mut late, _) = rt.block_on(context("[misc.sync_conf]\nmax_replication_lag_s = 3600\nmax_in_memory_bytes = 100000\nmax_syncs_per_url = 2\n"));
        late.internal_object_store = soon.internal_object_store.clone();
        (rt, Arc::new(soon), Arc::new(late))
    };
    v_cases::run(v_cases::load(s(cfg, "graph")), 8, v_cases::known(cfg), make, move |(rt, soon, late), c| {
        let n = turn.fetch_add(1, Ordering::SeqCst);
        let mut rng = Rng::new(seed.wrapping_mul(7919).wrapping_add(n));
        let (start, ch, want) = (c["start"].as_array().unwrap(), c["ch"].as_array().unwrap(), c["want"].as_array().unwrap());
        let (squash, restart) = (c["squash"].as_u64().unwrap() as usize, c["restart"].as_u64().unwrap() as usize);
        let keys = start.len();
        let kind = ["int", "pair", "text"][rng.below(3)];
        let path = format!("h{n}");
        let order = rng.below(9);
        let key = |k: &Value| k.as_u64().unwrap() as usize;
        let make = |cs: &[(usize, usize, i64)], rng: &mut Rng| {
            let cs: Vec<Change> = cs.iter().map(|c| Change { s: "vw".into(), o: c.0, n: c.1, cv: true, cw: true, v: c.2, w: format!("w{}", c.2) }).collect();
            message(kind, &cs, order, rng)
        };
        let rows: Vec<(usize, usize, i64)> = start.iter().enumerate().filter(|x| x.1 != &json!(0)).map(|(i, v)| (0, i + 1, v.as_i64().unwrap())).collect();
        let changes: Vec<(usize, usize, i64)> = ch.iter().enumerate().map(|(i, c)| (key(&c[0]), key(&c[1]), i as i64 + 1)).collect();
        let failed = |x: String| json!({"what": "changes are received and written", "actual": x});
        rt.block_on(async {
            let mut w = SyncWriter::new(soon.clone());
            let put = |w: &mut SyncWriter, cs: &[(usize, usize, i64)], seq: Option<u64>, big: bool, rng: &mut Rng| {
                let (schema, mut batches) = make(cs, rng);
                if big { batches = batches.iter().map(wide).collect(); }
                w.enqueue_sync(target(soon, &path), seq, "o".into(), schema, batches).map_err(|e| failed(e.to_string()))
            };
            if !rows.is_empty() {
                put(&mut w, &rows, Some(1), false, &mut rng)?;
                w.flush().await.map_err(|e| failed(e.to_string()))?;
            }
            if restart > 0 {
                for c in &changes[..restart] { put(&mut w, &[*c], None, false, &mut rng)?; }
                w.flush().await.map_err(|e| failed(e.to_string()))?;
            }
            drop(w);
            // nothing of the first receiver is left
            let mut w = SyncWriter::new(if late_ones { late.clone() } else { soon.clone() });
            let last = changes.len() - 1;
            for (i, c) in changes.iter().enumerate() {
                put(&mut w, &[*c], (i == last && !late_ones).then_some(2), i + 1 == squash, &mut rng)?;
                if i + 1 == squash {
                    v_sys::guard(w.flush()).await.and_then(|r| r.map_err(|e| e.to_string())).map_err(failed)?;
                    let there = soon.get_internal_object_store().unwrap().get_log_store(&path).is_delta_table_location().await.map_err(|e| failed(e.to_string()))?;
                    if there != !rows.is_empty() { panic!("harness: written too early") }
                }
            }
            if late_ones {
                // a message of another form makes it write
                let cs = [Change { s: "vw".into(), o: 0, n: keys + 1, cv: true, cw: true, v: 99, w: "w99".into() }];
                let (schema, batches) = message(kind, &cs, order + 1, &mut rng);
                w.enqueue_sync(target(soon, &path), Some(2), "o".into(), schema, batches).map_err(|e| failed(e.to_string()))?;
            }
            v_sys::guard(w.flush()).await.and_then(|r| r.map_err(|e| e.to_string())).map_err(failed)?;
            if w.stored_sequences(&"o".into()) != (Some(2), Some(2)) {
                return Err(json!({"what": "what is written is told", "actual": format!("{:?}", w.stored_sequences(&"o".into()))}));
            }
            let mut seen = vec![0i64; keys];
            let all = read(soon, &path, kind, keys + 1).await.map_err(failed)?;
            for (k, v) in all {
                if k == keys + 1 { continue; }
                let ok = k > 0 && v.len() == 1 && v[0].1 == format!("w{}", v[0].0);
                if k > 0 { seen[k - 1] = if ok { v[0].0.parse().unwrap_or(-1) } else { -2 }; } else { seen[0] = -3; }
            }
            if json!(seen) != c["want"] {
                let key = if json!(seen) == c["stays"] { json!("resent:short-lived-row-stays") } else { Value::Null };
                return Err(json!({"what": "the rows are those after all of the changes", "actual": seen, "expected": want, "key": key}));
            }
            Ok(1)
        })
    })
}
