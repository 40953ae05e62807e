//! C07: interleavings of concurrent catalog operations, against the sequential transitions of Catalog.tla.
//! C08: crashes, restarts, journal modes, read-only opening.
use crate::repository::interface::*;
use crate::repository::sqlite::SqliteRepository;
use crate::v_catalog::*;
use crate::v_graph::*;
use crate::v_util::*;
use serde_json::{json, Value};
use sqlx::sqlite::{SqliteConnectOptions, SqliteJournalMode, SqlitePoolOptions};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::future::Future;
use std::path::Path;
use std::str::FromStr;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use uuid::Uuid;

tokio::task_local! { static OP: usize; }

/// Holds back every acquisition of a connection until the scheduler lets that operation pass
#[derive(Default)]
struct Gate {
    waiting: Mutex<BTreeMap<usize, tokio::sync::oneshot::Sender<()>>>,
    changed: tokio::sync::Notify,
    active: AtomicBool,
    /// connections given out and not yet back in the pool, rollbacks included
    out: AtomicUsize,
}

async fn gated_pool(file: &Path, n: u32, gate: Arc<Gate>) -> SqliteRepository {
    let gate2 = gate.clone();
    let options = SqliteConnectOptions::from_str(&file.to_string_lossy())
        .unwrap()
        .journal_mode(SqliteJournalMode::Memory)
        .synchronous(sqlx::sqlite::SqliteSynchronous::Off);
    let pool = SqlitePoolOptions::new()
        .max_connections(n)
        .min_connections(n)
        .test_before_acquire(false)
        .after_release(move |conn, _| {
            let gate = gate2.clone();
            Box::pin(async move {
                let _ = sqlx::Connection::ping(conn).await;
                if gate.active.load(Ordering::SeqCst) {
                    let _ = gate.out.fetch_update(Ordering::SeqCst, Ordering::SeqCst, |x| x.checked_sub(1));
                    gate.changed.notify_one();
                }
                Ok(true)
            })
        })
        .before_acquire(move |_, _| {
            let gate = gate.clone();
            Box::pin(async move {
                if gate.active.load(Ordering::SeqCst) && let Ok(id) = OP.try_with(|x| *x) {
                    let (tx, rx) = tokio::sync::oneshot::channel();
                    gate.waiting.lock().unwrap().insert(id, tx);
                    gate.changed.notify_one();
                    let _ = rx.await;
                    gate.out.fetch_add(1, Ordering::SeqCst);
                }
                Ok(true)
            })
        })
        .connect_with(options)
        .await
        .expect("harness: connect");
    SqliteRepository { executor: pool }
}

/// Runs the operations under one schedule (a list of choices, then the first one waiting); gives the results, what was
/// created, and the number of options there was at each choice
async fn run_schedule(repo: &Arc<SqliteRepository>, gate: &Arc<Gate>, ids: &Ids, ops: &[Value], uuids: &[Uuid], choices: &[usize])
    -> Result<(Vec<(String, Option<Done>)>, Vec<usize>), String> {
    let _busy = crate::v_util::busy(&json!(ops));
    gate.active.store(true, Ordering::SeqCst);
    let n = ops.len();
    let done: Arc<Mutex<BTreeSet<usize>>> = Default::default();
    let mut hs = vec![];
    for i in 0..n {
        let (repo, ids, op, u, done, gate) = (repo.clone(), ids.clone(), ops[i].clone(), uuids[i], done.clone(), gate.clone());
        hs.push(tokio::spawn(OP.scope(i, async move {
            let r = Cat::guarded(&repo, &ids, &op, u).await;
            done.lock().unwrap().insert(i);
            gate.changed.notify_one();
            r
        })));
    }
    let mut options = vec![];
    let mut k = 0;
    loop {
        // everyone has either finished or is held back
        let w: Vec<usize> = loop {
            let d = done.lock().unwrap().len();
            let w: Vec<usize> = gate.waiting.lock().unwrap().keys().copied().collect();
            if d + w.len() == n {
                // the last one to run gives its connection back, unless it asks for a second one meanwhile
                let t0 = Instant::now();
                while gate.out.load(Ordering::SeqCst) > 0 && t0.elapsed() < Duration::from_millis(300) {
                    let _ = tokio::time::timeout(Duration::from_millis(20), gate.changed.notified()).await;
                }
                break w;
            }
            if tokio::time::timeout(Duration::from_secs(20), gate.changed.notified()).await.is_err() {
                gate.active.store(false, Ordering::SeqCst);
                for (_, t) in std::mem::take(&mut *gate.waiting.lock().unwrap()) {
                    let _ = t.send(());
                }
                return Err("an operation neither finished nor asked for a connection within 20 s".into());
            }
        };
        if w.is_empty() {
            break;
        }
        let c = choices.get(k).copied().unwrap_or(0);
        options.push(w.len());
        k += 1;
        let t = gate.waiting.lock().unwrap().remove(&w[c]).unwrap();
        let _ = t.send(());
    }
    gate.active.store(false, Ordering::SeqCst);
    let mut out = vec![];
    for h in hs {
        out.push(h.await.expect("harness: join"));
    }
    Ok((out, options))
}

/// The edge of an operation in a state; identifiers of objects that are gone are as good as unknown ones
fn edge_of(g: &Graph, st: usize, op: &Value) -> Option<usize> {
    let s = &g.states[st];
    let has = |set: &str, f: &dyn Fn(&Value) -> bool| s[set].as_array().unwrap().iter().any(f);
    let mut want = op.clone();
    if op["op"] == "create_table" {
        want["h"] = Value::Null;
    } else if op["h"].is_string() && !has("tabSet", &|x| x["h"] == op["h"]) {
        want["h"] = json!("?");
    }
    if op["op"] != "create_database" && op["c"].is_string() && op["op"] != "create_collection" && !has("collSet", &|x| x[0] == op["d"] && x[1] == op["c"]) {
        want["d"] = json!("?");
        want["c"] = json!("?");
    }
    if op["op"] != "create_database" && op["d"].is_string() && want["d"] != "?" && !has("dbSet", &|x| x == &op["d"]) {
        want["d"] = json!("?");
    }
    g.out[st].iter().copied().find(|e| {
        let mut o = g.edges[*e].op.clone();
        if o["op"] == "create_table" {
            o["h"] = Value::Null;
        }
        o == want
    })
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    permutations(n - 1)
        .into_iter()
        .flat_map(|p| {
            (0..n).map(move |i| {
                let mut q = p.clone();
                q.insert(i, n - 1);
                q
            })
        })
        .collect()
}

/// Sequential executions: results, and final state with the tables of the k-th operation called "new<k>"
fn sequential(g: &Graph, st: usize, ops: &[Value]) -> Option<Vec<(Vec<String>, Value)>> {
    let mut out = vec![];
    for p in permutations(ops.len()) {
        let mut cur = st;
        let mut res = vec![String::new(); ops.len()];
        let mut alias: HashMap<String, String> = HashMap::new();
        for i in p {
            let e = &g.edges[edge_of(g, cur, &ops[i])?];
            res[i] = e.res.as_str().unwrap().to_string();
            if ops[i]["op"] == "create_table" && res[i] == "ok" {
                alias.insert(s(&e.op, "h").to_string(), format!("new{i}"));
            }
            cur = e.to;
        }
        let mut v = g.states[cur].clone();
        for t in v["tabSet"].as_array_mut().unwrap() {
            if let Some(a) = alias.get(t["h"].as_str().unwrap()) {
                t["h"] = json!(a);
            }
        }
        out.push((res, canon(&v)));
    }
    Some(out)
}

async fn build_state(g: &Graph, st: usize, u: &Universe, file: &Path) -> Option<(Ids, Vec<Value>)> {
    let path = g.path(g.init, |s| s == st)?;
    let repo = SqliteRepository::try_new(file.to_string_lossy().to_string(), SqliteJournalMode::Delete).await.ok()?;
    let mut c = Cat::new(u.clone());
    c.repo = Some(Arc::new(repo));
    let mut trail = vec![];
    for e in path {
        let r = c.apply(&g.edges[e].op).await;
        if r != g.edges[e].res {
            return None; // a defect of single operations: other checks report it
        }
        trail.push(g.edges[e].op.clone());
    }
    if canon(&c.project().await) != g.states[st] {
        return None;
    }
    c.repo.take().unwrap().executor.close().await;
    Some((c.ids.clone(), trail))
}

pub fn concurrent(cfg: &Value) -> Value {
    let g = Arc::new(Graph::load(s(cfg, "graph")));
    let u = Universe::of(g.edges.iter().map(|e| &e.op));
    let seed = cfg["seed"].as_u64().unwrap_or(1);
    let budget = Duration::from_secs_f64(cfg["budget_s"].as_f64().unwrap_or(60.0));
    let per_state = cfg["per_state"].as_u64().unwrap_or(40) as usize;
    let deadline = Instant::now() + budget;
    let next = Arc::new(AtomicUsize::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let mut order: Vec<usize> = (0..g.states.len()).collect();
    let mut rng = Rng::new(seed);
    for i in (1..order.len()).rev() {
        order.swap(i, rng.below(i + 1));
    }
    // states with most to do first, in random order otherwise
    order.sort_by_key(|s| std::cmp::Reverse((g.states[*s]["tabSet"].as_array().unwrap().len() > 0) as usize));
    let order = Arc::new(order);
    let hs: Vec<_> = (0..8)
        .map(|w| {
            let (g, u, next, stop, order) = (g.clone(), u.clone(), next.clone(), stop.clone(), order.clone());
            std::thread::spawn(move || {
                let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
                rt.block_on(async move {
                    let mut tot = (0usize, 0usize, 0usize, BTreeSet::<String>::new(), None::<Value>);
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= order.len() || stop.load(Ordering::SeqCst) || Instant::now() > deadline {
                            return tot;
                        }
                        let mut rng = Rng::new(seed * 7919 + i as u64);
                        one_state(&g, &u, order[i], per_state, &mut rng, deadline, &mut tot).await;
                        if tot.4.is_some() {
                            stop.store(true, Ordering::SeqCst);
                            return tot;
                        }
                        let _ = w;
                    }
                })
            })
        })
        .collect();
    let (mut groups, mut runs, mut states, mut kinds, mut failure) = (0, 0, 0, BTreeSet::new(), None);
    for h in hs {
        match h.join() {
            Ok(t) => {
                groups += t.0;
                runs += t.1;
                states += t.2;
                kinds.extend(t.3);
                failure = failure.or(t.4);
            }
            Err(e) => {
                eprintln!("harness: {}", panic_text(e));
                std::process::exit(2);
            }
        }
    }
    json!({"states": g.states.len(), "transitions": g.edges.len(), "start_states": states, "groups": groups, "schedules": runs,
           "kind_groups": kinds.len(), "failure": failure})
}

async fn one_state(g: &Graph, u: &Universe, st: usize, per_state: usize, rng: &mut Rng, deadline: Instant,
    tot: &mut (usize, usize, usize, BTreeSet<String>, Option<Value>)) {
    let dir = scratch();
    let base = dir.path().join("base.sqlite");
    let Some((ids, trail)) = build_state(g, st, u, &base).await else { return };
    let image = std::fs::read(&base).expect("harness: image");
    tot.2 += 1;
    let edges = &g.out[st];
    if edges.is_empty() {
        return;
    }
    let file = dir.path().join("run.sqlite");
    for _ in 0..per_state {
        let three = rng.below(5) == 0;
        let mut ops: Vec<Value> = vec![];
        for _ in 0..(if three { 3 } else { 2 }) {
            // prefer operations that do something here
            let pick = |rng: &mut Rng| edges[rng.below(edges.len())];
            let mut e = pick(rng);
            for _ in 0..3 {
                if g.edges[e].from == g.edges[e].to {
                    e = pick(rng);
                }
            }
            ops.push(g.edges[e].op.clone());
        }
        // row identifiers may be used again after a deletion: three operations could meet that
        if ops.len() == 3 && ops.iter().any(|o| s(o, "op").starts_with("delete_") && o["op"] != "delete_old_versions" || o["op"] == "drop_function") {
            ops.pop();
        }
        let Some(allowed) = sequential(g, st, &ops) else { continue };
        tot.0 += 1;
        let mut kinds: Vec<&str> = ops.iter().map(|o| s(o, "op")).collect();
        kinds.sort();
        tot.3.insert(kinds.join("+"));
        let mut choices: Vec<usize> = vec![];
        for _ in 0..60 {
            if Instant::now() > deadline {
                return;
            }
            std::fs::write(&file, &image).expect("harness: write");
            let gate = Arc::new(Gate::default());
            let repo = Arc::new(gated_pool(&file, ops.len() as u32, gate.clone()).await);
            let uuids: Vec<Uuid> = (0..ops.len()).map(|i| Uuid::from_u128(0xabc0 + i as u128)).collect();
            let r = run_schedule(&repo, &gate, &ids, &ops, &uuids, &choices).await;
            tot.1 += 1;
            let (res, options) = match r {
                Ok(x) => x,
                Err(e) => {
                    tot.4 = Some(json!({"what": e, "start": g.states[st], "setup": trail, "ops": ops, "schedule": choices}));
                    return;
                }
            };
            let mut c = Cat::new(u.clone());
            c.ids = ids.clone();
            let mut results = vec![];
            for (i, (r, d)) in res.into_iter().enumerate() {
                let d = match d {
                    Some(Done::Tab(_, t, u, v)) => Some(Done::Tab(format!("new{i}"), t, u, v)),
                    // the operations of a group may both replace a function
                    d => d,
                };
                c.learn(d);
                results.push(r);
            }
            // identifiers of dropped objects
            c.repo = Some(repo.clone());
            let shown = canon(&c.project().await);
            repo.executor.close().await;
            let ok = allowed.iter().any(|(r, s)| *r == results && *s == shown);
            if !ok {
                tot.4 = Some(json!({"what": "concurrent operations whose results and final state fit no sequential order",
                    "start": g.states[st], "setup": trail, "ops": ops, "schedule": choices,
                    "actual": {"results": results, "state": shown},
                    "allowed": allowed.iter().map(|(r, s)| json!({"results": r, "state": s})).collect::<Vec<_>>()}));
                return;
            }
            // next schedule, depth first
            let mut full: Vec<usize> = choices.clone();
            full.resize(options.len(), 0);
            while let Some(last) = full.pop() {
                if last + 1 < options[full.len()] {
                    full.push(last + 1);
                    break;
                }
            }
            if full.is_empty() {
                break;
            }
            choices = full;
        }
    }
}

/// Operations on a catalog opened as the server opens it, running freely on several threads
pub fn free(cfg: &Value) -> Value {
    let g = Arc::new(Graph::load(s(cfg, "graph")));
    let u = Universe::of(g.edges.iter().map(|e| &e.op));
    let seed = cfg["seed"].as_u64().unwrap_or(1);
    let deadline = Instant::now() + Duration::from_secs_f64(cfg["budget_s"].as_f64().unwrap_or(10.0));
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(8).enable_all().build().unwrap();
    let dir = scratch();
    let mut rng = Rng::new(seed);
    let (mut groups, mut kinds, mut failure) = (0usize, BTreeSet::new(), None);
    while failure.is_none() && Instant::now() < deadline {
        let st = rng.below(g.states.len());
        let (edges, Some(path)) = (&g.out[st], g.path(g.init, |x| x == st)) else { continue };
        let writers: Vec<usize> = edges.iter().copied().filter(|e| g.edges[*e].from != g.edges[*e].to).collect();
        if writers.is_empty() {
            continue;
        }
        // row identifiers may be used again after a deletion
        let safe = |o: &Value| !(s(o, "op").starts_with("delete_") && o["op"] != "delete_old_versions" || o["op"] == "drop_function");
        let mut ops: Vec<Value> = vec![g.edges[writers[rng.below(writers.len())]].op.clone()];
        while ops.len() < 4 && (ops.len() < 2 || ops.iter().all(safe)) {
            let from = if rng.below(3) == 0 { edges } else { &writers };
            let o = g.edges[from[rng.below(from.len())]].op.clone();
            if ops.len() < 2 || safe(&o) {
                ops.push(o);
            }
        }
        let Some(allowed) = sequential(&g, st, &ops) else { continue };
        let memory = rng.below(2) == 0;
        let file = dir.path().join("free.sqlite");
        let dsn = if memory { "sqlite::memory:".to_string() } else { file.to_string_lossy().to_string() };
        let r: Option<(Vec<String>, Value)> = rt.block_on(async {
            for x in ["free.sqlite", "free.sqlite-wal", "free.sqlite-shm", "free.sqlite-journal"] {
                let _ = std::fs::remove_file(dir.path().join(x));
            }
            let repo = Arc::new(SqliteRepository::try_new(dsn.clone(), SqliteJournalMode::Wal).await.ok()?);
            let mut c = Cat::new(u.clone());
            c.repo = Some(repo.clone());
            for e in path {
                if c.apply(&g.edges[e].op).await != g.edges[e].res {
                    return None;
                }
            }
            let ids = c.ids.clone();
            let start = Arc::new(tokio::sync::Barrier::new(ops.len()));
            let hs: Vec<_> = ops
                .iter()
                .cloned()
                .enumerate()
                .map(|(i, op)| {
                    let (repo, ids, start) = (repo.clone(), ids.clone(), start.clone());
                    tokio::spawn(async move {
                        start.wait().await;
                        Cat::guarded(&repo, &ids, &op, Uuid::from_u128(0xabc0 + i as u128)).await
                    })
                })
                .collect();
            let mut results = vec![];
            for (i, h) in hs.into_iter().enumerate() {
                let (r, d) = h.await.expect("harness: join");
                c.learn(match d {
                    Some(Done::Tab(_, t, u, v)) => Some(Done::Tab(format!("new{i}"), t, u, v)),
                    d => d,
                });
                results.push(r);
            }
            let shown = canon(&c.project().await);
            c.repo.take();
            repo.executor.close().await;
            Some((results, shown))
        });
        let Some((results, shown)) = r else { continue };
        groups += 1;
        let mut k: Vec<&str> = ops.iter().map(|o| s(o, "op")).collect();
        k.sort();
        kinds.insert(k.join("+"));
        if !allowed.iter().any(|(r, s)| *r == results && *s == shown) {
            failure = Some(json!({"what": "operations of several clients whose results and final state fit no sequential order",
                "catalog": dsn, "start": g.states[st], "ops": ops, "actual": {"results": results, "state": shown},
                "allowed": allowed.iter().map(|(r, s)| json!({"results": r, "state": s})).collect::<Vec<_>>()}));
        }
    }
    json!({"states": g.states.len(), "transitions": g.edges.len(), "groups": groups, "kind_groups": kinds.len(), "failure": failure})
}

// ------------------------------------------------------------------------------------------------------------------

fn mode(s: &str) -> SqliteJournalMode {
    SqliteJournalMode::from_str(s).expect("harness: journal mode")
}

/// A child process: performs the operations of a history on the catalog in a file, acknowledging each on stdout, and
/// dies at a given step of the database engine.
pub fn child(cfg: &Value) -> Value {
    use std::io::Write;
    let hist = cfg["ops"].as_array().unwrap().clone();
    let kill: i64 = std::env::args().nth(3).and_then(|x| x.parse().ok()).unwrap_or(0);
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    rt.block_on(async {
        let f = Arc::new(Faults::default());
        let options = SqliteConnectOptions::from_str(s(cfg, "file")).unwrap().create_if_missing(true).journal_mode(mode(s(cfg, "mode")));
        let g = f.clone();
        let pool = SqlitePoolOptions::new()
            .max_connections(1)
            .after_connect(move |conn, _| {
                let g = g.clone();
                Box::pin(async move {
                    conn.lock_handle().await?.set_progress_handler(1, move || {
                        let n = g.steps.fetch_add(1, Ordering::SeqCst) + 1;
                        if n == g.kill_at.load(Ordering::SeqCst) {
                            unsafe { crate::v_catalog::_exit(77) }
                        }
                        true
                    });
                    Ok(())
                })
            })
            .connect_with(options)
            .await
            .expect("harness: connect");
        let repo = SqliteRepository { executor: pool };
        repo.setup().await;
        // crashes inside setup are a different matter: count from here
        f.steps.store(0, Ordering::SeqCst);
        f.kill_at.store(kill, Ordering::SeqCst);
        let mut c = Cat::new(Universe::default());
        c.repo = Some(Arc::new(repo));
        let mut out = std::io::stdout();
        for op in &hist {
            let r = c.apply(op).await;
            writeln!(out, "ACK {}", json!({"r": r, "ids": ids_json(&c.ids)})).unwrap();
            out.flush().unwrap();
        }
        writeln!(out, "STEPS {}", f.steps.load(Ordering::SeqCst)).unwrap();
        out.flush().unwrap();
        unsafe { crate::v_catalog::_exit(0) }
    })
}

fn ids_json(i: &Ids) -> Value {
    json!({"db": i.db.iter().collect::<Vec<_>>(), "coll": i.coll.iter().collect::<Vec<_>>(),
           "tab": i.tab.iter().map(|(h, (t, u))| json!([h, t, u.to_string()])).collect::<Vec<_>>(), "fun": i.fun.iter().collect::<Vec<_>>()})
}
fn ids_from(v: &Value) -> Ids {
    let mut i = Ids::default();
    if v.is_null() {
        return i;
    }
    i.db = serde_json::from_value::<Vec<(String, i64)>>(v["db"].clone()).unwrap().into_iter().collect();
    i.coll = serde_json::from_value::<Vec<((String, String), i64)>>(v["coll"].clone()).unwrap().into_iter().collect();
    i.fun = serde_json::from_value::<Vec<((String, String), i64)>>(v["fun"].clone()).unwrap().into_iter().collect();
    i.tab = serde_json::from_value::<Vec<(String, i64, String)>>(v["tab"].clone())
        .unwrap()
        .into_iter()
        .map(|(h, t, u)| (h, (t, Uuid::parse_str(&u).unwrap())))
        .collect();
    i
}

/// A random history through the graph: (operation, expected result, expected state)
fn history(g: &Graph, rng: &mut Rng, len: usize) -> Vec<(Value, Value, usize)> {
    let mut cur = g.init;
    let mut out = vec![];
    for _ in 0..len {
        let es = &g.out[cur];
        let mut e = es[rng.below(es.len())];
        for _ in 0..4 {
            let x = &g.edges[e];
            if x.from == x.to || s(&x.op, "op").starts_with("delete_") && rng.below(2) == 0 {
                e = es[rng.below(es.len())];
            }
        }
        let x = &g.edges[e];
        out.push((x.op.clone(), x.res.clone(), x.to));
        cur = x.to;
    }
    out
}

async fn shown(repo: SqliteRepository, ids: &Ids, u: &Universe) -> (Value, Arc<SqliteRepository>) {
    let repo = Arc::new(repo);
    let v = canon(&Cat::show(&repo, ids, u).await);
    (v, repo)
}

/// Identifiers of objects the interrupted operation may have created
async fn learn_created(repo: &SqliteRepository, ids: &Ids, op: &Value, uuid: Uuid) -> Ids {
    let mut ids = ids.clone();
    let (d, c) = (op["d"].as_str().unwrap_or("?"), op["c"].as_str().unwrap_or("?"));
    match s(op, "op") {
        "create_database" => {
            if let Ok(r) = repo.get_database(d).await {
                ids.db.insert(d.into(), r.id);
            }
        }
        "create_collection" => {
            if let Ok(r) = repo.get_collection(d, c).await {
                ids.coll.insert((d.into(), c.into()), r.id);
            }
        }
        "create_table" => {
            if let Ok(r) = repo.get_table(d, c, s(op, "n")).await {
                ids.tab.insert(s(op, "h").into(), (r.id, uuid));
            }
        }
        "create_function" => {
            if let Some(db) = ids.db.get(d) && let Ok(fs) = repo.get_all_functions_in_database(*db).await {
                for f in fs {
                    if f.name == s(op, "f") {
                        ids.fun.insert((d.into(), f.name), f.id);
                    }
                }
            }
        }
        _ => {}
    }
    ids
}

pub fn durable(cfg: &Value) -> Value {
    let g = Arc::new(Graph::load(s(cfg, "graph")));
    let u = Universe::of(g.edges.iter().map(|e| &e.op));
    let seed = cfg["seed"].as_u64().unwrap_or(1);
    let deadline = Instant::now() + Duration::from_secs_f64(cfg["budget_s"].as_f64().unwrap_or(60.0));
    let per_history = cfg["per_history"].as_u64().unwrap_or(30) as usize;
    let len = cfg["len"].as_u64().unwrap_or(14) as usize;
    let histories = cfg["histories"].as_u64().unwrap_or(64) as usize;
    let next = Arc::new(AtomicUsize::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let hs: Vec<_> = (0..8)
        .map(|_| {
            let (g, u, next, stop) = (g.clone(), u.clone(), next.clone(), stop.clone());
            std::thread::spawn(move || {
                let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
                rt.block_on(async move {
                    let mut t = Tally::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= histories || stop.load(Ordering::SeqCst) || Instant::now() > deadline {
                            return t;
                        }
                        let mut rng = Rng::new(seed * 104729 + i as u64);
                        let r = if i % 4 == 3 {
                            restarts(&g, &u, i / 4, &mut rng, len * 3, &mut t).await
                        } else {
                            crashes(&g, &u, i, &mut rng, len, per_history, deadline, &mut t).await
                        };
                        if let Err(f) = r {
                            t.failure = Some(f);
                            stop.store(true, Ordering::SeqCst);
                            return t;
                        }
                    }
                })
            })
        })
        .collect();
    let mut sum = Tally::default();
    for h in hs {
        match h.join() {
            Ok(t) => {
                sum.crashes += t.crashes;
                sum.in_flight += t.in_flight;
                sum.reopens += t.reopens;
                sum.refused += t.refused;
                sum.histories += t.histories;
                sum.modes.extend(t.modes);
                sum.failure = sum.failure.take().or(t.failure);
            }
            Err(e) => {
                eprintln!("harness: {}", panic_text(e));
                std::process::exit(2);
            }
        }
    }
    json!({"states": g.states.len(), "transitions": g.edges.len(), "histories": sum.histories, "crashes": sum.crashes,
        "crashes_after_effect": sum.in_flight, "reopens": sum.reopens, "read_only_refusals": sum.refused,
        "journal_modes": sum.modes.len(), "failure": sum.failure})
}

#[derive(Default)]
struct Tally {
    crashes: usize,
    in_flight: usize,
    reopens: usize,
    refused: usize,
    histories: usize,
    modes: BTreeSet<String>,
    failure: Option<Value>,
}

async fn open(file: &Path, m: &str) -> Result<SqliteRepository, String> {
    let f = SqliteRepository::try_new(file.to_string_lossy().to_string(), mode(m));
    match futures::FutureExt::catch_unwind(std::panic::AssertUnwindSafe(f)).await {
        Ok(Ok(r)) => Ok(r),
        Ok(Err(e)) => Err(format!("opening the catalog again failed: {e}")),
        Err(p) => Err(format!("opening the catalog again panicked: {}", panic_text(p))),
    }
}

async fn crashes(g: &Graph, u: &Universe, i: usize, rng: &mut Rng, len: usize, n: usize, deadline: Instant, t: &mut Tally) -> Result<(), Value> {
    // a killed process, not a power failure: with MEMORY and OFF even that may corrupt the file, as SQLite documents
    let m = ["delete", "wal", "truncate", "persist"][i % 4];
    t.modes.insert(m.into());
    t.histories += 1;
    let hist = history(g, rng, len);
    let ops: Vec<&Value> = hist.iter().map(|x| &x.0).collect();
    let dir = scratch();
    let mut total = 0i64;
    for k in 0..=n {
        if Instant::now() > deadline {
            return Ok(());
        }
        let file = dir.path().join(format!("c{k}.sqlite"));
        let cfg = dir.path().join("child.json");
        std::fs::write(&cfg, json!({"ops": ops, "file": file, "mode": m}).to_string()).expect("harness: cfg");
        // the first run is not killed: it tells how many steps there are, and is not shut down cleanly either
        let kill = if k == 0 { 0 } else { 1 + rng.below(total as usize) as i64 };
        let out = std::process::Command::new(std::env::current_exe().unwrap())
            .arg("catalog-child")
            .arg(&cfg)
            .arg(kill.to_string())
            .output()
            .expect("harness: child");
        let text = String::from_utf8_lossy(&out.stdout).to_string();
        let acks: Vec<Value> = text.lines().filter_map(|l| l.strip_prefix("ACK ")).map(|l| serde_json::from_str(l).unwrap()).collect();
        if let Some(x) = text.lines().find_map(|l| l.strip_prefix("STEPS ")) {
            total = x.parse().unwrap();
        } else if out.status.code() != Some(77) {
            panic!("harness: child ended with {:?}: {}", out.status, String::from_utf8_lossy(&out.stderr));
        }
        t.crashes += 1;
        let at = |j: usize| if j == 0 { g.init } else { hist[j - 1].2 };
        let done = acks.len();
        let bad = |what: &str, e: &Value, a: &Value| {
            Err(json!({"what": what, "expected": e, "actual": a, "journal_mode": m, "killed_at_step": kill, "acknowledged": done,
                       "history": hist.iter().map(|(o, r, s)| json!({"o": o, "r": r, "t": g.states[*s]})).collect::<Vec<_>>()}))
        };
        for (j, a) in acks.iter().enumerate() {
            if a["r"] != hist[j].1 {
                return bad(&format!("result of operation {j}"), &hist[j].1, &a["r"]);
            }
        }
        let ids = acks.last().map(|a| ids_from(&a["ids"])).unwrap_or_default();
        let next = hist.get(done);
        for round in 0..2 {
            let repo = match open(&file, m).await {
                Ok(r) => r,
                Err(e) => return bad(&e, &Value::Null, &Value::Null),
            };
            t.reopens += 1;
            let (v, repo) = shown(repo, &ids, u).await;
            let mut ok = v == g.states[at(done)];
            let mut w = v.clone();
            if !ok && let Some((op, _, to)) = next {
                let creations = hist[..done].len() as u128 + 1;
                let ids2 = learn_created(&repo, &ids, op, Uuid::from_u128(creations << 64 | 0x7777)).await;
                w = canon(&Cat::show(&repo, &ids2, u).await);
                ok = w == g.states[*to];
                if ok && round == 0 {
                    t.in_flight += 1;
                }
            }
            repo.executor.close().await;
            if !ok {
                return bad("catalog after a crash", &json!([g.states[at(done)], next.map(|x| &g.states[x.2])]), &json!([v, w]));
            }
        }
        for e in ["", "-wal", "-shm", "-journal"] {
            let _ = std::fs::remove_file(dir.path().join(format!("c{k}.sqlite{e}")));
        }
    }
    Ok(())
}

/// Histories interrupted by reopenings, in all journal modes, with a read-only reader
async fn restarts(g: &Graph, u: &Universe, i: usize, rng: &mut Rng, len: usize, t: &mut Tally) -> Result<(), Value> {
    let m = ["delete", "wal", "truncate", "persist", "memory", "off"][i % 6];
    t.modes.insert(m.into());
    t.histories += 1;
    let dir = scratch();
    let file = dir.path().join("r.sqlite");
    let hist = history(g, rng, len);
    let mut c = Cat::new(u.clone());
    let mut cur = g.init;
    let trail = |k: usize| hist[..k].iter().map(|(o, r, s)| json!({"o": o, "r": r, "t": g.states[*s]})).collect::<Vec<_>>();
    let bad = |what: String, e: &Value, a: &Value, k: usize| Err(json!({"what": what, "expected": e, "actual": a, "journal_mode": m, "history": trail(k)}));
    for (k, (op, res, to)) in hist.iter().enumerate() {
        if c.repo.is_none() || rng.below(3) == 0 {
            if let Some(r) = c.repo.take() {
                r.executor.close().await;
            }
            t.reopens += 1;
            match open(&file, m).await {
                Ok(r) => c.repo = Some(Arc::new(r)),
                Err(e) => return bad(e, &Value::Null, &Value::Null, k),
            }
            let v = canon(&c.project().await);
            if v != g.states[cur] {
                return bad("catalog after reopening".into(), &g.states[cur], &v, k);
            }
        }
        if rng.below(3) == 0 {
            // a read-only reader beside (or, half the time, instead of) the writer
            let alone = rng.below(2) == 0;
            if alone {
                c.repo.take().unwrap().executor.close().await;
            }
            let before = alone.then(|| std::fs::read(&file).unwrap());
            let ro = match SqliteRepository::try_new_read_only(file.to_string_lossy().to_string(), mode(m)).await {
                Ok(r) => Arc::new(r),
                Err(e) => return bad(format!("opening read-only failed: {e}"), &Value::Null, &Value::Null, k),
            };
            let v = canon(&Cat::show(&ro, &c.ids, u).await);
            if v != g.states[cur] {
                return bad("catalog opened read-only".into(), &g.states[cur], &v, k);
            }
            for e in &g.out[cur] {
                let e = &g.edges[*e];
                if e.from == e.to || rng.below(4) > 0 {
                    continue;
                }
                let (r, _) = Cat::guarded(&ro, &c.ids, &e.op, Uuid::from_u128(99)).await;
                t.refused += 1;
                if r.starts_with("ok") || r.starts_with("panic") {
                    return bad(format!("{} on a catalog opened read-only", e.op), &json!("an error"), &json!(r), k);
                }
            }
            let v = canon(&Cat::show(&ro, &c.ids, u).await);
            if v != g.states[cur] {
                return bad("catalog opened read-only, after refused operations".into(), &g.states[cur], &v, k);
            }
            ro.executor.close().await;
            if let Some(b) = before && b != std::fs::read(&file).unwrap() {
                return bad("a read-only catalog changed the file".into(), &Value::Null, &Value::Null, k);
            }
            if alone {
                match open(&file, m).await {
                    Ok(r) => c.repo = Some(Arc::new(r)),
                    Err(e) => return bad(e, &Value::Null, &Value::Null, k),
                }
            }
        }
        let r = c.apply(op).await;
        if r != *res {
            return bad(format!("result of {op}"), res, &r, k + 1);
        }
        cur = *to;
        let v = canon(&c.project().await);
        if v != g.states[cur] {
            return bad("state after operation".into(), &g.states[cur], &v, k + 1);
        }
    }
    c.repo.take().unwrap().executor.close().await;
    Ok(())
}
