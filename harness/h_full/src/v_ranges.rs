//! Reading ranges of objects through the cache (RangeCache.tla)
use crate::v_graph::{Graph, Sys, TourOpts};
use crate::v_util::*;
use async_trait::async_trait;
use bytes::Bytes;
use futures::stream::BoxStream;
use futures::FutureExt;
use object_store::{memory::InMemory, path::Path, *};
use seafowl::object_store::cache::CachingObjectStore;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::ops::Range;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// A store that fails when told to and knows what it was asked for
#[derive(Debug)]
pub struct Observed {
    inner: InMemory,
    pub down: AtomicBool,
    asked: Mutex<Vec<(String, Range<usize>)>>,
    turn: AtomicUsize,
}
impl std::fmt::Display for Observed {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "observed")
    }
}
impl Observed {
    fn new() -> Arc<Self> {
        Arc::new(Observed { inner: InMemory::new(), down: false.into(), asked: Default::default(), turn: 0.into() })
    }
    fn check(&self) -> Result<()> {
        if self.down.load(Ordering::SeqCst) {
            return Err(Error::Generic { store: "observed", source: "out of order".into() });
        }
        Ok(())
    }
}
#[async_trait]
impl ObjectStore for Observed {
    async fn put_opts(&self, l: &Path, p: PutPayload, o: PutOptions) -> Result<PutResult> {
        self.inner.put_opts(l, p, o).await
    }
    async fn put_multipart_opts(&self, l: &Path, o: PutMultipartOpts) -> Result<Box<dyn MultipartUpload>> {
        self.inner.put_multipart_opts(l, o).await
    }
    async fn get_opts(&self, l: &Path, o: GetOptions) -> Result<GetResult> {
        if let Some(GetRange::Bounded(r)) = &o.range {
            self.asked.lock().unwrap().push((l.to_string(), r.clone()));
        } else {
            self.asked.lock().unwrap().push((l.to_string(), 0..1 << 20));
        }
        // other readers get their turn in the meantime
        for _ in 0..self.turn.fetch_add(1, Ordering::SeqCst) % 4 {
            tokio::task::yield_now().await;
        }
        self.check()?;
        self.inner.get_opts(l, o).await
    }
    async fn delete(&self, l: &Path) -> Result<()> {
        self.inner.delete(l).await
    }
    fn list(&self, p: Option<&Path>) -> BoxStream<'_, Result<ObjectMeta>> {
        self.inner.list(p)
    }
    async fn list_with_delimiter(&self, p: Option<&Path>) -> Result<ListResult> {
        self.inner.list_with_delimiter(p).await
    }
    async fn copy(&self, a: &Path, b: &Path) -> Result<()> {
        self.inner.copy(a, b).await
    }
    async fn copy_if_not_exists(&self, a: &Path, b: &Path) -> Result<()> {
        self.inner.copy_if_not_exists(a, b).await
    }
}

#[repr(C)]
struct Limit(u64, u64);
extern "C" {
    fn setrlimit(what: i32, l: *const Limit) -> i32;
    fn getrlimit(what: i32, l: *mut Limit) -> i32;
    fn signal(what: i32, how: usize) -> usize;
}
/// Files of this process can have this many bytes (as when the disk is full)
fn limit_files(n: Option<u64>) {
    unsafe {
        signal(25, 1);
        let mut l = Limit(0, 0);
        getrlimit(1, &mut l);
        l.0 = n.unwrap_or(l.1);
        assert_eq!(setrlimit(1, &l), 0, "harness: rlimit");
    }
}

pub struct Cache {
    pub c: usize,
    pub lens: Vec<usize>,
    capacity: u64,
    ttl: Duration,
    scratch: tempfile::TempDir,
    base: PathBuf,
    inner: Arc<Observed>,
    stores: Vec<Arc<CachingObjectStore>>,
    turn: usize,
    opened: usize,
    about: Vec<Value>,
    /// what is compared: the data read, or what the cache keeps
    watch: String,
}
impl Cache {
    pub fn new(c: usize, lens: Vec<usize>, capacity: u64, ttl: Duration) -> Self {
        let scratch = scratch();
        Cache { c, lens, capacity, ttl, base: scratch.path().join("0"), scratch, inner: Observed::new(), stores: vec![], turn: 0, opened: 0, about: vec![], watch: "".into() }
    }
    pub fn bytes(&self, o: usize) -> Vec<u8> {
        (0..self.lens[o - 1]).map(|i| (o * 64 + i) as u8).collect()
    }
    fn path(o: usize) -> Path {
        // namesakes in other directories, and neighbours
        Path::from(["some/part-0.parquet", "other/part-0.parquet", "some/part-1.parquet", "other/some/part-0.parquet"][o % 4])
    }
    /// What is left of the cache after it has gone
    pub async fn open(&mut self) -> Vec<String> {
        let mut left = vec![];
        if !self.stores.is_empty() {
            self.settle().await;
            self.stores.clear();
            if self.base.exists() {
                left.push(format!("left behind: {}", std::fs::read_dir(&self.base).map(|d| d.count()).unwrap_or(0)));
            }
        }
        self.opened += 1;
        self.base = self.scratch.path().join(self.opened.to_string());
        std::fs::create_dir(&self.base).expect("harness: mkdir");
        let a = CachingObjectStore::new(self.inner.clone(), &self.base, self.c as u64, self.capacity, self.ttl);
        let b = CachingObjectStore::new_from_sibling(&a, self.inner.clone());
        self.stores = vec![Arc::new(a), Arc::new(b)];
        left
    }
    pub async fn fill(&mut self) {
        self.inner = Observed::new();
        for o in 1..=self.lens.len() {
            self.inner.inner.put(&Self::path(o), self.bytes(o).into()).await.expect("harness: put");
        }
    }
    /// Wait until the tasks of the cache are through
    pub async fn settle(&self) {
        let m = tokio::runtime::Handle::current().metrics();
        let t = std::time::Instant::now();
        while m.num_alive_tasks() > 0 {
            assert!(t.elapsed() < Duration::from_secs(20), "harness: tasks of the cache don't end");
            tokio::task::yield_now().await;
            std::thread::yield_now();
        }
    }
    async fn read(&self, o: usize, s: usize, e: usize, style: usize) -> std::result::Result<Bytes, String> {
        let store = self.stores[style % 2].clone();
        let p = Self::path(o);
        let f = async move {
            if s < e && style % 3 == 2 {
                store.get_ranges(&p, &[s..e]).await.map(|mut v| v.remove(0))
            } else {
                store.get_range(&p, Range { start: s, end: e }).await
            }
        };
        match std::panic::AssertUnwindSafe(f).catch_unwind().await {
            Ok(Ok(b)) => Ok(b),
            Ok(Err(e)) => Err(e.to_string()),
            Err(p) => Err(format!("panic: {}", panic_text(p))),
        }
    }
    /// Several reads at a time, and the chunks the store was asked for
    pub async fn reads(&mut self, rs: &[(usize, usize, usize)]) -> (Vec<std::result::Result<Bytes, String>>, BTreeSet<(usize, usize)>) {
        self.inner.asked.lock().unwrap().clear();
        let fs: Vec<_> = rs.iter().enumerate().map(|(i, (o, s, e))| self.read(*o, *s, *e, self.turn + i)).collect();
        let got = futures::future::join_all(fs).await;
        self.turn += 1;
        let mut asked = BTreeSet::new();
        for (p, r) in self.inner.asked.lock().unwrap().iter() {
            for o in 1..=self.lens.len() {
                if *p == Self::path(o).to_string() && r.start < r.end {
                    for c in r.start / self.c..=(r.end - 1).min(self.lens[o - 1].saturating_sub(1).max(r.start)) / self.c {
                        asked.insert((o, c));
                    }
                }
            }
        }
        (got, asked)
    }
    /// The chunks that are on the disk, by what the files hold, and files that hold something else
    pub fn files(&self) -> (BTreeSet<(usize, usize)>, Vec<(PathBuf, (usize, usize))>, Vec<String>) {
        let (mut there, mut paths, mut stray) = (BTreeSet::new(), vec![], vec![]);
        let mut dirs = vec![self.base.clone()];
        while let Some(d) = dirs.pop() {
            for f in std::fs::read_dir(d).into_iter().flatten().flatten() {
                if f.path().is_dir() {
                    dirs.push(f.path());
                    continue;
                }
                let Ok(b) = std::fs::read(f.path()) else { continue };
                let chunk = (1..=self.lens.len()).find_map(|o| self.bytes(o).chunks(self.c).position(|x| x == b).map(|c| (o, c)));
                match chunk {
                    Some(k) if there.insert(k) => paths.push((f.path(), k)),
                    _ => stray.push(format!("{}: {b:?}", f.file_name().to_string_lossy())),
                }
            }
        }
        (there, paths, stray)
    }
}

#[async_trait(?Send)]
impl Sys for Cache {
    async fn reset(&mut self) {
        limit_files(None);
        if !self.stores.is_empty() {
            self.settle().await;
        }
        self.fill().await;
        let left = self.open().await;
        self.turn = self.opened;
        self.about = left.into_iter().map(|l| json!(l)).collect();
    }
    async fn apply(&mut self, o: &Value) -> Value {
        match s(o, "op") {
            "read" => {
                let rs = o["reads"].as_array().unwrap();
                let n = |v: &Value, k: &str| v[k].as_u64().unwrap() as usize;
                let (got, asked) = self.reads(&rs.iter().map(|r| (n(r, "o"), n(r, "s"), n(r, "e"))).collect::<Vec<_>>()).await;
                let data: Vec<Value> = rs
                    .iter()
                    .zip(&got)
                    .map(|(r, g)| {
                        let want: Vec<u8> = r["bytes"].as_array().unwrap().iter().map(|b| self.bytes(n(r, "o"))[b.as_u64().unwrap() as usize]).collect();
                        let exact = matches!(g, Ok(b) if b.as_ref() == want);
                        let refused = matches!(g, Err(e) if !e.starts_with("panic"));
                        match s(r, "answer") {
                            x if self.watch == "files" => json!(x),
                            "nothing" if refused || matches!(g, Ok(b) if b.is_empty()) => json!("nothing"),
                            "either" if exact || refused => json!("either"),
                            "bytes" if exact => json!("bytes"),
                            "error" if refused => json!("error"),
                            _ => json!(format!("{g:?} for bytes {want:?}")),
                        }
                    })
                    .collect();
                let again: Vec<Value> = o["cachedSet"].as_array().unwrap().iter().filter(|k| asked.contains(&(k[0].as_u64().unwrap() as usize, k[1].as_u64().unwrap() as usize))).cloned().collect();
                self.about.push(json!({"reads": rs.iter().map(|r| json!([r["o"], r["s"], r["e"]])).collect::<Vec<_>>(), "asked": asked.iter().collect::<Vec<_>>()}));
                json!({"data": data, "again": (if self.watch == "data" { vec![] } else { again })})
            }
            "lose" => {
                let k = (o["o"].as_u64().unwrap() as usize, o["c"].as_u64().unwrap() as usize);
                for (p, c) in self.files().1 {
                    if c == k {
                        std::fs::remove_file(p).expect("harness: rm");
                    }
                }
                json!({"data": [], "again": []})
            }
            "break" => {
                let on = o["on"] == json!(true);
                if s(o, "what") == "store" {
                    self.inner.down.store(on, Ordering::SeqCst);
                } else {
                    limit_files(on.then_some(1));
                }
                json!({"data": [], "again": []})
            }
            "reopen" => json!({"data": self.open().await, "again": []}),
            x => panic!("harness: operation {x}"),
        }
    }
    async fn project(&mut self) -> Value {
        self.settle().await;
        let (there, _, stray) = self.files();
        json!({"on": there.iter().map(|(o, c)| json!([o, c])).collect::<Vec<_>>(), "stray": stray})
    }
    fn accepts(&self, expected: &Value, actual: &Value) -> bool {
        if self.watch == "data" {
            return true;
        }
        let on: BTreeSet<String> = actual["on"].as_array().unwrap().iter().map(|x| x.to_string()).collect();
        actual["stray"] == json!([])
            && expected["have"].as_array().unwrap().iter().enumerate().all(|(o, cs)| {
                // chunks 0..n as an object with numbers for keys
                cs.as_object().unwrap().iter().all(|(c, h)| {
                    let there = on.contains(&json!([o + 1, c.parse::<usize>().unwrap()]).to_string());
                    match h.as_str().unwrap() {
                        "yes" => there,
                        "no" => !there,
                        _ => true,
                    }
                })
            })
    }
    fn about(&self) -> Value {
        json!({"chunk": self.c, "lengths": self.lens, "last": self.about.iter().rev().take(4).collect::<Vec<_>>()})
    }
}

pub fn tour(cfg: &Value) -> Value {
    let g = Arc::new(Graph::load(s(cfg, "graph")));
    let c = cfg["chunk"].as_u64().unwrap() as usize;
    let lens: Vec<usize> = cfg["lens"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
    let watch = s(cfg, "watch").to_string();
    let mut r = crate::v_graph::tour(g.clone(), TourOpts::from(cfg), move || {
        let mut x = Cache::new(c, lens.clone(), 1 << 20, Duration::from_secs(3600));
        x.watch = watch.clone();
        x
    });
    limit_files(None);
    crate::v_graph::report(&g, &mut r)
}

/// Caches too small for the objects, with entries that expire, and several readers: recorded for RangeCacheTrace.tla
pub fn random(cfg: &Value) -> Value {
    use std::io::Write;
    let seed = cfg["seed"].as_u64().unwrap_or(1);
    let (sessions, len) = (cfg["sessions"].as_u64().unwrap() as usize, cfg["len"].as_u64().unwrap() as usize);
    let hs: Vec<_> = (0..sessions)
        .map(|i| {
            std::thread::spawn(move || {
                let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build().unwrap();
                rt.block_on(session(seed * 1000 + i as u64, i % 4 == 3, len))
            })
        })
        .collect();
    let mut out = std::io::BufWriter::new(std::fs::File::create(s(cfg, "trace")).expect("harness: trace"));
    let (mut events, mut evicted) = (0, 0);
    for h in hs {
        let (es, n) = h.join().unwrap_or_else(|e| panic!("harness: {}", panic_text(e)));
        evicted += n;
        for e in es {
            writeln!(out, "{e}").unwrap();
            events += 1;
        }
    }
    json!({"events": events, "sessions": sessions, "chunks_dropped": evicted})
}

async fn session(seed: u64, ttl: bool, len: usize) -> (Vec<Value>, usize) {
    let mut r = Rng::new(seed);
    let cap = 4 + 2 * r.below(6) as u64;
    let mut c = Cache::new(2, vec![9, 6, 4], cap, if ttl { Duration::from_secs(1) } else { Duration::from_secs(3600) });
    c.fill().await;
    c.open().await;
    let mut es = vec![json!({"k": "open", "cap": cap, "ttl": ttl})];
    let (mut before, mut gone) = (BTreeSet::new(), 0);
    for i in 0..len {
        let waits = ttl && i % 5 == 4;
        if waits {
            tokio::time::sleep(Duration::from_millis(1100)).await;
        }
        let mut rs: Vec<(usize, usize, usize)> = (0..if waits || r.below(3) > 0 { 1 } else { 2 + r.below(4) })
            .map(|_| {
                let o = 1 + r.below(3);
                let s = r.below(c.lens[o - 1]);
                let most = 1 + r.below(8);
                (o, s, s + 1 + r.below((c.lens[o - 1] - s).min(most)))
            })
            .collect();
        let _busy = busy(&json!(rs));
        let (mut got, mut asked) = c.reads(&rs).await;
        c.settle().await;
        // the cache tidies up now and then, when it's used: read something that's there
        tokio::time::sleep(Duration::from_millis(320)).await;
        let there = c.files().0;
        if let Some((o, k)) = there.iter().nth(r.below(there.len())) {
            let x = (*o, k * 2, k * 2 + 1);
            let (g, a) = c.reads(&[x]).await;
            rs.push(x);
            got.extend(g);
            asked.extend(a);
            c.settle().await;
        }
        let (files, _, stray) = c.files();
        gone += before.difference(&files).count();
        before = files.clone();
        let reads: Vec<Value> = rs
            .iter()
            .zip(got)
            .map(|((o, s, e), g)| {
                let data = c.bytes(*o);
                json!({"o": o, "s": s, "e": e, "got": match g {
                    Ok(b) => b.iter().map(|b| data.iter().position(|x| x == b).map(|p| p as i64).unwrap_or(-1)).collect(),
                    Err(_) => vec![-2i64],
                }})
            })
            .collect();
        es.push(json!({"k": if waits { "waited" } else { "reads" }, "reads": reads, "asked": asked, "files": files, "stray": stray.len()}));
    }
    let left = c.open().await.len();
    es.push(json!({"k": "closed", "left": left}));
    (es, gone)
}
