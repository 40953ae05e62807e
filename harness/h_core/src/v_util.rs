use serde_json::Value;

/// Sets are emitted as arrays under keys ending in "Set": order them. An empty TLA+ function may be
/// printed as [] or {}: make both [].
pub fn canon(v: &Value) -> Value {
    fn go(v: &Value, set: bool) -> Value {
        match v {
            Value::Array(a) => {
                let mut a: Vec<Value> = a.iter().map(|x| go(x, false)).collect();
                if set {
                    a.sort_by_cached_key(|x| x.to_string());
                    a.dedup();
                }
                Value::Array(a)
            }
            Value::Object(o) if o.is_empty() => Value::Array(vec![]),
            Value::Object(o) => Value::Object(o.iter().map(|(k, x)| (k.clone(), go(x, k.ends_with("Set")))).collect()),
            x => x.clone(),
        }
    }
    go(v, false)
}

pub fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or_else(|| panic!("harness: no string {k} in {v}"))
}

/// A panic of the code under test is a result like any other: keep it off stderr, keep its message.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        if m.contains("harness:") || std::env::var("VP_PANICS").is_ok() {
            eprintln!("{m}");
        }
    }));
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "?".into())
}

/// Small deterministic generator, so that a run is a function of its seed
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n.max(1) as u64)) as usize
    }
}

pub fn scratch() -> tempfile::TempDir {
    let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    tempfile::Builder::new().prefix("vp-h-").tempdir_in(base).or_else(|_| tempfile::tempdir()).expect("harness: scratch dir")
}

/// A step which never ends is a result as well: while the guard lives, a watchdog counts the seconds of this thread's
/// step, and gives up on it (and with it on the run) after two minutes.
pub struct Busy(std::thread::ThreadId);
static STEPS: std::sync::OnceLock<std::sync::Mutex<std::collections::HashMap<std::thread::ThreadId, (u32, String)>>> =
    std::sync::OnceLock::new();
pub fn busy(what: &Value) -> Busy {
    let steps = STEPS.get_or_init(|| {
        std::thread::spawn(|| loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let Some(steps) = STEPS.get() else { continue };
            for (n, what) in steps.lock().unwrap().values_mut() {
                *n += 1;
                if *n > 120 {
                    let step: Value = serde_json::from_str(what).unwrap_or(Value::Null);
                    println!("RESULT {}", serde_json::json!({"failure": {"what": "a step does not end", "step": step}}));
                    std::process::exit(0);
                }
            }
        });
        Default::default()
    });
    let id = std::thread::current().id();
    steps.lock().unwrap().insert(id, (0, what.to_string()));
    Busy(id)
}
impl Drop for Busy {
    fn drop(&mut self) {
        if let Some(s) = STEPS.get() {
            s.lock().unwrap_or_else(|e| e.into_inner()).remove(&self.0);
        }
    }
}
