//! The memory pool against Memory.tla, and its reports from several threads against MemoryReport.tla
use crate::memory_pool::MemoryPoolMetrics;
use crate::v_cases;
use crate::v_graph::*;
use crate::v_util::*;
use async_trait::async_trait;
use datafusion::execution::memory_pool::*;
use metrics::{Counter, Gauge, Histogram, Key, KeyName, Metadata, Recorder, SharedString, Unit};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::panic::AssertUnwindSafe;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex};

// ------------------------------------------------------------------ what is reported
#[derive(Default)]
struct Meter {
    counters: Mutex<BTreeMap<String, Arc<AtomicU64>>>,
    gauges: Mutex<BTreeMap<String, Arc<AtomicU64>>>,
}
fn text(k: &Key) -> String {
    let mut l: Vec<String> = k.labels().map(|l| format!("{}={}", l.key(), l.value())).collect();
    l.sort();
    format!("{}|{}", k.name(), l.join("|"))
}
impl Recorder for Meter {
    fn describe_counter(&self, _: KeyName, _: Option<Unit>, _: SharedString) {}
    fn describe_gauge(&self, _: KeyName, _: Option<Unit>, _: SharedString) {}
    fn describe_histogram(&self, _: KeyName, _: Option<Unit>, _: SharedString) {}
    fn register_counter(&self, k: &Key, _: &Metadata<'_>) -> Counter {
        Counter::from_arc(self.counters.lock().unwrap().entry(text(k)).or_default().clone())
    }
    fn register_gauge(&self, k: &Key, _: &Metadata<'_>) -> Gauge {
        Gauge::from_arc(self.gauges.lock().unwrap().entry(text(k)).or_default().clone())
    }
    fn register_histogram(&self, _: &Key, _: &Metadata<'_>) -> Histogram {
        Histogram::noop()
    }
}
const ALLOCATED: &str = "seafowl_datafusion_memory_pool_allocated_bytes_total";
const FREED: &str = "seafowl_datafusion_memory_pool_freed_bytes_total";
const RESERVED: &str = "seafowl_datafusion_memory_pool_reserved_bytes_current";
impl Meter {
    fn totals(&self) -> BTreeMap<String, u64> {
        self.counters.lock().unwrap().iter().map(|(k, v)| (k.clone(), v.load(Ordering::SeqCst))).filter(|x| x.1 != 0).collect()
    }
    fn gauge(&self) -> f64 {
        self.gauges.lock().unwrap().get(&format!("{RESERVED}|")).map(|g| f64::from_bits(g.load(Ordering::SeqCst))).unwrap_or(f64::NAN)
    }
}
/// The difference between two readings, as the specification writes it
fn added(a: &BTreeMap<String, u64>, b: &BTreeMap<String, u64>) -> Value {
    let mut r = json!({"kind": "", "granted": 0, "refused": 0, "freed": 0});
    for (k, v) in b {
        let old = a.get(k).copied().unwrap_or(0);
        if *v == old {
            continue;
        }
        let d = *v as i64 - old as i64;
        let p: Vec<&str> = k.split('|').collect();
        let kind = p.iter().find_map(|x| x.strip_prefix("consumer="));
        let result = p.iter().find_map(|x| x.strip_prefix("result="));
        let field = match (p[0], result, p.len(), kind) {
            (ALLOCATED, Some("success"), 3, Some(_)) => "granted",
            (ALLOCATED, Some("error"), 3, Some(_)) => "refused",
            (FREED, None, 2, Some(_)) => "freed",
            _ => return json!({"unexpected": k, "by": d}),
        };
        if r[field] != 0 || (r["kind"] != "" && r["kind"] != kind.unwrap()) {
            return json!({"also": k, "by": d, "with": r});
        }
        r["kind"] = json!(kind.unwrap());
        r[field] = json!(d);
    }
    r
}

// ------------------------------------------------------------------ one thread
struct Mem {
    meter: Arc<Meter>,
    kind: String,
    inner: Option<Arc<dyn MemoryPool>>,
    pool: Option<Arc<dyn MemoryPool>>,
    slots: Vec<Option<(u64, MemoryReservation)>>,
    n: usize,
}
impl Mem {
    fn fresh(&self) -> u64 {
        (1..).find(|x| !self.slots.iter().flatten().any(|s| s.0 == *x)).unwrap()
    }
    fn put(&mut self, j: usize, reg: u64, r: MemoryReservation) {
        assert!(self.slots[j].is_none(), "harness: slot {j} is taken");
        self.slots[j] = Some((reg, r));
    }
    fn run(&mut self, op: &Value) -> &'static str {
        let i = op["i"].as_u64().unwrap_or(0) as usize;
        let j = op["j"].as_u64().unwrap_or(0) as usize;
        let n = op["n"].as_u64().unwrap_or(0) as usize;
        let ok = |r: bool| if r { "ok" } else { "refused" };
        if s(op, "op") == "open" {
            let limit = op["limit"].as_u64().unwrap() as usize;
            self.kind = s(op, "pool").to_string();
            let inner: Arc<dyn MemoryPool> = match s(op, "pool") {
                "greedy" => Arc::new(GreedyMemoryPool::new(limit)),
                "fair" => Arc::new(FairSpillPool::new(limit)),
                _ => Arc::new(UnboundedMemoryPool::default()),
            };
            self.inner = Some(inner.clone());
            self.pool = Some(Arc::new(MemoryPoolMetrics::new(inner)));
            return "ok";
        }
        if s(op, "op") == "register" {
            let c = MemoryConsumer::new(s(op, "name")).with_can_spill(op["spill"].as_bool().unwrap());
            let reg = self.fresh();
            let r = c.register(self.pool.as_ref().unwrap());
            self.put(i - 1, reg, r);
            return "ok";
        }
        let (reg, r) = self.slots[i - 1].as_mut().expect("harness: slot");
        let reg = *reg;
        match s(op, "op") {
            "grow" => r.grow(n),
            "try_grow" => return ok(r.try_grow(n).is_ok()),
            "shrink" => r.shrink(n),
            "try_shrink" => return ok(r.try_shrink(n).is_ok()),
            "resize" => r.resize(n),
            "try_resize" => return ok(r.try_resize(n).is_ok()),
            "free" => {
                r.free();
            }
            "split" => {
                let x = r.split(n);
                self.put(j - 1, reg, x)
            }
            "take" => {
                let x = r.take();
                self.put(j - 1, reg, x)
            }
            "new_empty" => {
                let x = r.new_empty();
                self.put(j - 1, reg, x)
            }
            "drop" => self.slots[i - 1] = None,
            x => panic!("harness: op {x}"),
        }
        "ok"
    }
}
#[async_trait(?Send)]
impl Sys for Mem {
    async fn reset(&mut self) {
        let old = self.meter.clone();
        metrics::with_local_recorder(&*old, || self.slots.clear());
        *self = Mem { meter: Default::default(), kind: "none".into(), inner: None, pool: None, slots: (0..self.n).map(|_| None).collect(), n: self.n };
    }
    async fn apply(&mut self, op: &Value) -> Value {
        let m = self.meter.clone();
        let before = m.totals();
        let r = metrics::with_local_recorder(&*m, || std::panic::catch_unwind(AssertUnwindSafe(|| self.run(op))));
        let r = match r {
            Ok(x) => x.to_string(),
            Err(p) => {
                let t = panic_text(p);
                if t.contains("harness:") {
                    panic!("{t}")
                }
                format!("panic: {t}")
            }
        };
        json!({"r": r, "add": added(&before, &m.totals())})
    }
    async fn project(&mut self) -> Value {
        let slots: Vec<Value> = self
            .slots
            .iter()
            .map(|x| match x {
                None => json!({"reg": 0, "size": 0, "name": ""}),
                Some((g, r)) => json!({"reg": g, "size": r.size(), "name": r.consumer().name()}),
            })
            .collect();
        let mut v = json!({"pool": self.kind, "slots": slots, "reserved": 0});
        if let (Some(p), Some(i)) = (&self.pool, &self.inner) {
            v["reserved"] = json!(p.reserved());
            if i.reserved() != p.reserved() || self.meter.gauge() != p.reserved() as f64 {
                v["reported"] = json!({"pool": p.reserved(), "inner pool": i.reserved(), "gauge": self.meter.gauge()});
            }
        }
        v
    }
}
pub fn tour(cfg: &Value) -> Value {
    let g = Arc::new(Graph::load(s(cfg, "graph")));
    let n = g.states[g.init]["slots"].as_array().unwrap().len();
    let mut r = crate::v_graph::tour(g.clone(), TourOpts::from(cfg), move || Mem {
        meter: Default::default(),
        kind: "none".into(),
        inner: None,
        pool: None,
        slots: vec![],
        n,
    });
    crate::v_graph::report(&g, &mut r)
}

// ------------------------------------------------------------------ several threads
/// Lets one thread run at a time; which one is decided at every gate
#[derive(Default)]
struct Gates {
    st: Mutex<GateState>,
    cv: Condvar,
}
#[derive(Default)]
struct GateState {
    turn: Option<usize>,
    waiting: Vec<bool>,
    done: Vec<bool>,
}
thread_local! {
    static ME: std::cell::Cell<Option<usize>> = const { std::cell::Cell::new(None) };
}
impl Gates {
    /// Called by a thread under control: waits for its turn
    fn gate(&self) {
        let Some(me) = ME.get() else { return };
        let mut g = self.st.lock().unwrap();
        g.waiting[me] = true;
        if g.turn == Some(me) {
            g.turn = None;
        }
        self.cv.notify_all();
        while g.turn != Some(me) {
            g = self.cv.wait(g).unwrap();
        }
        g.waiting[me] = false;
    }
    fn finish(&self) {
        let me = ME.get().unwrap();
        let mut g = self.st.lock().unwrap();
        g.done[me] = true;
        g.waiting[me] = false;
        if g.turn == Some(me) {
            g.turn = None;
        }
        self.cv.notify_all();
    }
}
/// A pool that stops after each change and each reading
struct Gated {
    inner: GreedyMemoryPool,
    gates: Arc<Gates>,
}
impl std::fmt::Debug for Gated {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Gated")
    }
}
impl MemoryPool for Gated {
    fn register(&self, c: &MemoryConsumer) {
        self.inner.register(c)
    }
    fn unregister(&self, c: &MemoryConsumer) {
        self.inner.unregister(c)
    }
    fn grow(&self, r: &MemoryReservation, n: usize) {
        self.inner.grow(r, n);
        self.gates.gate()
    }
    fn shrink(&self, r: &MemoryReservation, n: usize) {
        self.inner.shrink(r, n);
        self.gates.gate()
    }
    fn try_grow(&self, r: &MemoryReservation, n: usize) -> datafusion::common::Result<()> {
        let x = self.inner.try_grow(r, n);
        self.gates.gate();
        x
    }
    fn reserved(&self) -> usize {
        let x = self.inner.reserved();
        self.gates.gate();
        x
    }
}

/// One run of a program along a schedule; returns the choices there were and the outcome
fn run_once(prog: &Value, limit: usize, schedule: &[usize]) -> (Vec<(usize, usize)>, Value) {
    let ts = prog.as_array().unwrap();
    let gates = Arc::new(Gates::default());
    {
        let mut g = gates.st.lock().unwrap();
        g.waiting = vec![false; ts.len()];
        g.done = vec![false; ts.len()];
    }
    let meter = Arc::new(Meter::default());
    let inner = Arc::new(Gated { inner: GreedyMemoryPool::new(limit), gates: gates.clone() });
    let pool: Arc<dyn MemoryPool> = metrics::with_local_recorder(&*meter, || Arc::new(MemoryPoolMetrics::new(inner)) as _);
    let sizes = Arc::new(Mutex::new(vec![0usize; ts.len()]));
    let hs: Vec<_> = ts
        .iter()
        .cloned()
        .enumerate()
        .map(|(i, p)| {
            let (gates, meter, pool, sizes) = (gates.clone(), meter.clone(), pool.clone(), sizes.clone());
            std::thread::spawn(move || {
                ME.set(Some(i));
                let r = std::panic::catch_unwind(AssertUnwindSafe(|| {
                    metrics::with_local_recorder(&*meter, || {
                        let mut r = MemoryConsumer::new(format!("Op[{i}]")).register(&pool);
                        for o in p.as_array().unwrap() {
                            gates.gate();
                            let n = o["n"].as_u64().unwrap() as usize;
                            match s(o, "op") {
                                "grow" => r.grow(n),
                                "shrink" => r.shrink(n),
                                _ => {
                                    let _ = r.try_grow(n);
                                }
                            }
                        }
                        sizes.lock().unwrap()[i] = r.size();
                        std::mem::forget(r);
                    })
                }));
                gates.finish();
                r.map_err(panic_text)
            })
        })
        .collect();
    let mut choices = vec![];
    loop {
        let mut g = gates.st.lock().unwrap();
        while g.turn.is_some() || (0..ts.len()).any(|i| !g.waiting[i] && !g.done[i]) {
            g = gates.cv.wait(g).unwrap();
        }
        let can: Vec<usize> = (0..ts.len()).filter(|i| g.waiting[*i]).collect();
        if can.is_empty() {
            break;
        }
        let c = schedule.get(choices.len()).copied().unwrap_or(0);
        choices.push((c, can.len()));
        g.turn = Some(can[c]);
        gates.cv.notify_all();
    }
    let mut panics = vec![];
    for h in hs {
        if let Err(e) = h.join().unwrap() {
            panics.push(e)
        }
    }
    let t = meter.totals();
    let get = |k: String| t.get(&k).copied().unwrap_or(0);
    let mut v = json!({"size": *sizes.lock().unwrap(), "pool": pool.reserved(), "gauge": meter.gauge() as i64,
        "granted": get(format!("{ALLOCATED}|consumer=Op|result=success")), "refused": get(format!("{ALLOCATED}|consumer=Op|result=error")),
        "freed": get(format!("{FREED}|consumer=Op"))});
    if !panics.is_empty() {
        v["panics"] = json!(panics);
    }
    (choices, v)
}

pub fn report(cfg: &Value) -> Value {
    let mut progs: BTreeMap<String, Vec<Value>> = BTreeMap::new();
    for c in v_cases::load(s(cfg, "graph")) {
        progs.entry(c["prog"].to_string()).or_default().push(c);
    }
    let cases: Vec<Value> = progs.into_values().map(Value::Array).collect();
    let max = cfg["schedules"].as_u64().unwrap_or(2000) as usize;
    let seed = cfg["seed"].as_u64().unwrap_or(1);
    let until = std::time::Instant::now() + std::time::Duration::from_secs_f64(cfg["budget_s"].as_f64().unwrap_or(60.0));
    v_cases::run(cases, 8, v_cases::known(cfg), || (), move |_, c| {
        let (prog, limit) = (&c[0]["prog"], c[0]["limit"].as_u64().unwrap() as usize);
        let outcomes: Vec<Value> = c
            .as_array()
            .unwrap()
            .iter()
            .map(|x| json!({"size": x["size"], "pool": x["pool"], "gauge": x["gauge"], "granted": x["granted"], "refused": x["refused"], "freed": x["freed"]}))
            .collect();
        let mut rng = Rng::new(seed);
        let (mut n, mut sched, mut all): (usize, Vec<usize>, bool) = (0, vec![], false);
        while n < max && std::time::Instant::now() < until {
            let (choices, got) = run_once(prog, limit, &sched);
            n += 1;
            if !outcomes.contains(&got) {
                let who: Vec<usize> = choices.iter().map(|x| x.0).collect();
                return Err(json!({"what": "changes and their reports from several threads: not an outcome the specification allows",
                    "schedule": who, "got": got, "allowed": outcomes}));
            }
            // the next schedule, depth first; at random past half of the budget
            if n < max / 2 && !all {
                let mut next: Vec<(usize, usize)> = choices;
                while let Some((c, k)) = next.pop() {
                    if c + 1 < k {
                        next.push((c + 1, k));
                        break;
                    }
                }
                if next.is_empty() {
                    all = true;
                    break;
                }
                sched = next.iter().map(|x| x.0).collect();
            } else {
                sched = choices.iter().map(|x| rng.below(x.1)).collect();
            }
        }
        Ok(n)
    })
}
