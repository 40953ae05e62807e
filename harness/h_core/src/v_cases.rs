//! Cases printed by TLC: one JSON object per reachable state of a specification, each evaluated on the real code.
use crate::v_util::panic_text;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::io::BufRead;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

pub fn load(path: &str) -> Vec<Value> {
    let f = std::io::BufReader::new(std::fs::File::open(path).unwrap_or_else(|e| panic!("harness: {path}: {e}")));
    let mut lines: Vec<String> = vec![];
    for l in f.lines() {
        let l = l.expect("harness: read");
        if l.starts_with("\"{") {
            lines.push(serde_json::from_str(&l).unwrap_or_else(|e| panic!("harness: {l}: {e}")));
        }
    }
    // several TLC workers print in any order
    lines.sort();
    lines.dedup();
    assert!(!lines.is_empty(), "harness: no cases in {path}");
    lines.iter().map(|l| serde_json::from_str(l).unwrap_or_else(|e| panic!("harness: {l}: {e}"))).collect()
}

/// What a case did: Ok(n) evaluations agreed, Err what did not
pub type Verdict = Result<usize, Value>;

/// Runs all cases over several threads. `make` builds per-thread state. Returns the RESULT object.
pub fn run<S, M, F>(cases: Vec<Value>, threads: usize, known: Vec<String>, make: M, f: F) -> Value
where
    M: Fn() -> S + Send + Sync + 'static,
    F: Fn(&mut S, &Value) -> Verdict + Send + Sync + 'static,
{
    let n = cases.len();
    let cases = Arc::new(cases);
    let next = Arc::new(AtomicUsize::new(0));
    let evals = Arc::new(AtomicUsize::new(0));
    let fails: Arc<Mutex<Vec<(usize, Value)>>> = Default::default();
    let nf = Arc::new(AtomicUsize::new(0));
    let (make, f) = (Arc::new(make), Arc::new(f));
    let known: HashSet<String> = known.into_iter().collect();
    let known = Arc::new(known);
    let hs: Vec<_> = (0..threads)
        .map(|_| {
            let (cases, next, evals, fails, nf, make, f, known) =
                (cases.clone(), next.clone(), evals.clone(), fails.clone(), nf.clone(), make.clone(), f.clone(), known.clone());
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut st = make();
                    loop {
                        let a = next.fetch_add(16, Ordering::SeqCst);
                        if a >= cases.len() || nf.load(Ordering::SeqCst) > 20 {
                            break;
                        }
                        for i in a..(a + 16).min(cases.len()) {
                            let c = &cases[i];
                            let _busy = crate::v_util::busy(c);
                            let r = catch_unwind(AssertUnwindSafe(|| f(&mut st, c))).unwrap_or_else(|p| {
                                let m = panic_text(p);
                                if m.contains("harness:") {
                                    eprintln!("{m} on {c}");
                                    std::process::exit(2)
                                }
                                Err(json!({"what": format!("panic: {m}")}))
                            });
                            match r {
                                Ok(k) => {
                                    evals.fetch_add(k, Ordering::SeqCst);
                                }
                                Err(mut e) => {
                                    evals.fetch_add(1, Ordering::SeqCst);
                                    e["case"] = c.clone();
                                    let is_known = e["key"].as_str().map(|k| known.contains(k)).unwrap_or(false);
                                    if !is_known {
                                        nf.fetch_add(1, Ordering::SeqCst);
                                    }
                                    let mut v = fails.lock().unwrap();
                                    if !is_known || !v.iter().any(|x| x.1["key"] == e["key"]) {
                                        v.push((i, e));
                                    }
                                }
                            }
                        }
                    }
                })
                .unwrap()
        })
        .collect();
    for h in hs {
        h.join().expect("harness: worker");
    }
    let mut v = std::mem::take(&mut *fails.lock().unwrap());
    v.sort_by_key(|x| (x.1["case"].to_string().len(), x.0));
    let failures: Vec<Value> = v.into_iter().map(|x| x.1).take(20).collect();
    let done = next.load(Ordering::SeqCst).min(n);
    json!({"states": n, "transitions": n, "covered": done, "evaluations": evals.load(Ordering::SeqCst), "distinct": n,
           "traces": done, "failures": failures})
}
pub fn known(cfg: &Value) -> Vec<String> {
    cfg["known"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default()
}
