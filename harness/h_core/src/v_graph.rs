//! Transitions of a TLC state graph, and tours through them on a real system.
use crate::v_util::{canon, Rng};
use async_trait::async_trait;
use serde_json::{json, Value};
use std::collections::{HashMap, VecDeque};
use std::io::BufRead;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

pub struct Edge {
    pub from: usize,
    pub to: usize,
    pub op: Value,
    pub res: Value,
}
pub struct Graph {
    pub states: Vec<Value>,
    pub edges: Vec<Edge>,
    pub out: Vec<Vec<usize>>,
    pub init: usize,
}

#[derive(serde::Deserialize)]
struct Line<'a> {
    #[serde(borrow)]
    s: &'a serde_json::value::RawValue,
    #[serde(borrow)]
    o: &'a serde_json::value::RawValue,
    #[serde(borrow)]
    r: &'a serde_json::value::RawValue,
    #[serde(borrow)]
    t: &'a serde_json::value::RawValue,
}

/// Names of the specification, as names that come close to each other: patterns of one another, differing in case only
const NAMES: [(&str, &str); 6] =
    [("d1", "a_b"), ("d2", "A%B"), ("c1", "pub_ic"), ("c2", "PUB%"), ("t1", "Some_table"), ("t2", "some_%")];
fn concrete(mut text: String) -> String {
    for (a, c) in NAMES {
        text = text.replace(&format!("\"{a}\""), &format!("\"{c}\""));
    }
    text
}

impl Graph {
    /// Reads the lines printed by TLC's ACTION_CONSTRAINT (a JSON string per line); the first state seen is initial.
    pub fn load(path: &str) -> Graph {
        let f = std::io::BufReader::new(std::fs::File::open(path).unwrap_or_else(|e| panic!("harness: {path}: {e}")));
        let mut raw: HashMap<String, usize> = HashMap::new();
        let mut ids: HashMap<String, usize> = HashMap::new();
        let mut states = vec![];
        let mut edges: Vec<(usize, usize, String, String)> = vec![];
        let mut seen = std::collections::HashSet::new();
        for line in f.lines() {
            let line = line.expect("harness: read");
            if !line.starts_with("\"{") {
                continue;
            }
            let text: String = serde_json::from_str(&line).unwrap_or_else(|e| panic!("harness: {line}: {e}"));
            let text = concrete(text);
            let l: Line = serde_json::from_str(&text).unwrap_or_else(|e| panic!("harness: {text}: {e}"));
            let mut id = |r: &str| -> usize {
                if let Some(i) = raw.get(r) {
                    return *i;
                }
                let v = canon(&serde_json::from_str(r).unwrap());
                let n = states.len();
                let i = *ids.entry(v.to_string()).or_insert(n);
                if i == n {
                    states.push(v);
                }
                raw.insert(r.to_string(), i);
                i
            };
            let (a, b) = (id(l.s.get()), id(l.t.get()));
            let e = (a, b, l.o.get().to_string(), l.r.get().to_string());
            if seen.insert(e.clone()) {
                edges.push(e);
            }
        }
        assert!(!edges.is_empty(), "harness: no transitions in {path}");
        // independent of the order in which several TLC workers print
        let init = edges[0].0;
        let init_text = states[init].to_string();
        let mut order: Vec<usize> = (0..states.len()).collect();
        let texts: Vec<String> = states.iter().map(|s| s.to_string()).collect();
        order.sort_by(|a, b| texts[*a].cmp(&texts[*b]));
        let mut pos = vec![0; states.len()];
        for (i, o) in order.iter().enumerate() {
            pos[*o] = i;
        }
        let states: Vec<Value> = order.iter().map(|o| states[*o].clone()).collect();
        for e in edges.iter_mut() {
            e.0 = pos[e.0];
            e.1 = pos[e.1];
        }
        edges.sort();
        let init = states.iter().position(|s| s.to_string() == init_text).unwrap();
        let mut out = vec![vec![]; states.len()];
        let edges: Vec<Edge> = edges
            .into_iter()
            .enumerate()
            .map(|(i, (from, to, o, r))| {
                out[from].push(i);
                Edge { from, to, op: serde_json::from_str(&o).unwrap(), res: serde_json::from_str(&r).unwrap() }
            })
            .collect();
        Graph { states, edges, out, init }
    }

    /// States in depth-first order from the initial state: neighbours get neighbouring positions
    pub fn dfs_order(&self) -> Vec<usize> {
        let mut seen = vec![false; self.states.len()];
        let mut order = vec![];
        let mut stack = vec![self.init];
        while let Some(s) = stack.pop() {
            if std::mem::replace(&mut seen[s], true) {
                continue;
            }
            order.push(s);
            for e in self.out[s].iter().rev() {
                if !seen[self.edges[*e].to] {
                    stack.push(self.edges[*e].to);
                }
            }
        }
        order
    }

    /// Shortest path (edge indices) from `from` to a state satisfying `goal`
    pub fn path(&self, from: usize, goal: impl Fn(usize) -> bool) -> Option<Vec<usize>> {
        let mut prev: HashMap<usize, usize> = HashMap::new();
        let mut q = VecDeque::from([from]);
        let mut seen = vec![false; self.states.len()];
        seen[from] = true;
        while let Some(s) = q.pop_front() {
            if goal(s) {
                let mut p = vec![];
                let mut c = s;
                while c != from {
                    let e = prev[&c];
                    p.push(e);
                    c = self.edges[e].from;
                }
                p.reverse();
                return Some(p);
            }
            for e in &self.out[s] {
                let t = self.edges[*e].to;
                if !seen[t] {
                    seen[t] = true;
                    prev.insert(t, *e);
                    q.push_back(t);
                }
            }
        }
        None
    }
}

#[async_trait(?Send)]
pub trait Sys {
    /// A fresh system in the initial state
    async fn reset(&mut self);
    /// Performs one operation; its result in the specification's vocabulary
    async fn apply(&mut self, op: &Value) -> Value;
    /// The abstract state, as the specification emits it
    async fn project(&mut self) -> Value;
    /// A step of the environment that the specification does not distinguish
    async fn noise(&mut self, _rng: &mut Rng) {}
    /// Whether the state seen is one that the specification's state allows
    fn accepts(&self, expected: &Value, actual: &Value) -> bool {
        expected == actual
    }
    /// What to say about this system in a report
    fn about(&self) -> Value {
        Value::Null
    }
    /// Takes a transition for the first time: may try it under faults before it takes it. Gives the result and
    /// the number of such trials, or a failure {what, expected, actual}.
    async fn first(&mut self, g: &Graph, edge: usize, _rng: &mut Rng) -> Result<(Value, usize), Value> {
        Ok((self.apply(&g.edges[edge].op).await, 0))
    }
}

#[derive(Default)]
pub struct Outcome {
    pub steps: usize,
    pub histories: usize,
    pub covered: usize,
    pub probes: usize,
    pub failure: Option<Value>,
}

#[derive(Clone)]
pub struct TourOpts {
    pub seed: u64,
    pub threads: usize,
    pub budget: Duration,
    pub max_len: usize,
    pub project_every: usize,
    /// only transitions of these operations are targets (empty: all)
    pub only: Vec<String>,
}
impl TourOpts {
    pub fn from(cfg: &Value) -> Self {
        TourOpts {
            seed: cfg["seed"].as_u64().unwrap_or(1),
            threads: cfg["threads"].as_u64().unwrap_or(8) as usize,
            budget: Duration::from_secs_f64(cfg["budget_s"].as_f64().unwrap_or(60.0)),
            max_len: cfg["max_len"].as_u64().unwrap_or(600) as usize,
            project_every: 1,
            only: cfg["only"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default(),
        }
    }
}

/// Covers every transition of the graph by walks on real systems, comparing result and state after each step.
pub fn tour<S: Sys, F: Fn() -> S + Send + Sync + 'static>(g: Arc<Graph>, o: TourOpts, make: F) -> Outcome {
    let order = g.dfs_order();
    let mut rank = vec![usize::MAX; g.states.len()];
    for (i, s) in order.iter().enumerate() {
        rank[*s] = i;
    }
    let target = |e: usize| o.only.is_empty() || o.only.iter().any(|x| g.edges[e].op["op"] == x.as_str());
    let total: usize = order.iter().map(|s| g.out[*s].iter().filter(|e| target(**e)).count()).sum();
    // contiguous chunks of the depth-first order, about equally many transitions each
    let mut owner = vec![0usize; g.states.len()];
    let mut acc = 0;
    for s in &order {
        owner[*s] = (acc * o.threads / total.max(1)).min(o.threads - 1);
        acc += g.out[*s].iter().filter(|e| target(**e)).count();
    }
    let owner = Arc::new(owner);
    let stop = Arc::new(AtomicBool::new(false));
    let make = Arc::new(make);
    let deadline = Instant::now() + o.budget;
    let hs: Vec<_> = (0..o.threads)
        .map(|w| {
            let (g, o, owner, stop, make) = (g.clone(), o.clone(), owner.clone(), stop.clone(), make.clone());
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
                    rt.block_on(walk(&g, &o, w, &owner, &stop, make(), deadline))
                })
                .unwrap()
        })
        .collect();
    let mut sum = Outcome::default();
    for h in hs {
        match h.join() {
            Ok(r) => {
                sum.steps += r.steps;
                sum.histories += r.histories;
                sum.covered += r.covered;
                sum.probes += r.probes;
                if sum.failure.is_none() {
                    sum.failure = r.failure;
                }
            }
            Err(e) => {
                eprintln!("harness: worker died: {}", crate::v_util::panic_text(e));
                std::process::exit(2);
            }
        }
    }
    sum
}

async fn walk<S: Sys>(g: &Graph, o: &TourOpts, w: usize, owner: &[usize], stop: &AtomicBool, mut sys: S, deadline: Instant) -> Outcome {
    let mut rng = Rng::new(o.seed * 1000 + w as u64);
    let mut done = vec![false; g.edges.len()];
    let target = |e: usize| o.only.is_empty() || o.only.iter().any(|x| g.edges[e].op["op"] == x.as_str());
    let mut todo: Vec<Vec<usize>> = g
        .out
        .iter()
        .enumerate()
        .map(|(s, es)| {
            if owner[s] != w {
                return vec![];
            }
            let mut v: Vec<usize> = es.iter().copied().filter(|e| target(*e)).collect();
            for i in (1..v.len()).rev() {
                v.swap(i, rng.below(i + 1));
            }
            // operations that change nothing first, while we are here
            v.sort_by_key(|e| (g.edges[*e].from == g.edges[*e].to) as u8);
            v
        })
        .collect();
    let mut r = Outcome::default();
    'history: loop {
        let _busy = crate::v_util::busy(&g.states[g.init]);
        sys.reset().await;
        r.histories += 1;
        let mut cur = g.init;
        let mut trail: Vec<Value> = vec![];
        let p = sys.project().await;
        if let Some(f) = differs(&sys, &g.states[cur], &p, "initial state", &trail) {
            r.failure = Some(f);
            stop.store(true, Ordering::SeqCst);
            return r;
        }
        while trail.len() < o.max_len {
            if stop.load(Ordering::SeqCst) || Instant::now() > deadline {
                return r;
            }
            while let Some(e) = todo[cur].last() {
                if done[*e] {
                    todo[cur].pop();
                } else {
                    break;
                }
            }
            let plan: Vec<usize> = if let Some(e) = todo[cur].pop() {
                vec![e]
            } else {
                match g.path(cur, |s| todo[s].iter().any(|e| !done[*e])) {
                    Some(p) => p,
                    None if cur == g.init || trail.is_empty() => return r,
                    None => match g.path(g.init, |s| todo[s].iter().any(|e| !done[*e])) {
                        Some(_) => continue 'history,
                        None => return r,
                    },
                }
            };
            for e in plan {
                let edge = &g.edges[e];
                let _busy = crate::v_util::busy(&edge.op);
                sys.noise(&mut rng).await;
                let res = if !done[e] {
                    match sys.first(g, e, &mut rng).await {
                        Ok((res, n)) => {
                            r.probes += n;
                            res
                        }
                        Err(mut f) => {
                            f["history"] = json!(trail);
                            f["op"] = edge.op.clone();
                            r.failure = Some(f);
                            stop.store(true, Ordering::SeqCst);
                            return r;
                        }
                    }
                } else {
                    sys.apply(&edge.op).await
                };
                r.steps += 1;
                trail.push(json!({"o": edge.op, "r": edge.res, "t": edge.to}));
                let fail = if res != edge.res {
                    Some(json!({"what": "result", "op": edge.op, "expected": edge.res, "actual": res, "history": trail}))
                } else {
                    let p = sys.project().await;
                    differs(&sys, &g.states[edge.to], &p, "state after operation", &trail)
                };
                if let Some(mut f) = fail {
                    f["about"] = sys.about();
                    r.failure = Some(f);
                    stop.store(true, Ordering::SeqCst);
                    return r;
                }
                if !done[e] && owner[edge.from] == w && target(e) {
                    r.covered += 1;
                }
                done[e] = true;
                cur = edge.to;
            }
        }
    }
}

pub fn differs<S: Sys>(sys: &S, expected: &Value, actual: &Value, what: &str, trail: &[Value]) -> Option<Value> {
    let a = canon(actual);
    (!sys.accepts(expected, &a)).then(|| json!({"what": what, "expected": expected, "actual": a, "history": trail}))
}

pub fn report(g: &Graph, r: &mut Outcome) -> Value {
    if let Some(h) = r.failure.as_mut().and_then(|f| f["history"].as_array_mut()) {
        for x in h.iter_mut() {
            if let Some(i) = x["t"].as_u64() {
                x["t"] = g.states[i as usize].clone();
            }
        }
    }
    json!({"states": g.states.len(), "transitions": g.edges.len(), "covered": r.covered, "steps": r.steps,
           "histories": r.histories, "probes": r.probes, "failure": r.failure})
}
