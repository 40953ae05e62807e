//! Moving finished files into a local store against FastUpload.tla. Runs without privileges, in directories of its own.
use crate::object_store::utils::fast_upload;
use crate::v_graph::*;
use crate::v_util::*;
use async_trait::async_trait;
use futures::FutureExt;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::panic::AssertUnwindSafe;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

const LIMIT: u64 = 4096;
const NOBODY: u32 = 65534;

fn content(c: &str) -> &'static [u8] {
    static ALL: std::sync::OnceLock<BTreeMap<&str, Vec<u8>>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| ["empty", "small", "large", "huge"].map(|c| (c, make_content(c))).into()).get(c).unwrap_or_else(|| panic!("harness: content {c}"))
}
fn make_content(c: &str) -> Vec<u8> {
    match c {
        "empty" => vec![],
        "small" => b"some rows".to_vec(),
        "large" => (0..9000u32).map(|x| (x % 251) as u8).collect(),
        "huge" => (0..70_000u32).map(|x| (x % 241) as u8).collect(),
        x => panic!("harness: content {x}"),
    }
}
fn content_name(p: &Path) -> String {
    let Ok(m) = std::fs::symlink_metadata(p) else { return "-".into() };
    if m.is_dir() {
        return "dir".into();
    }
    if !m.is_file() {
        return "something else".into();
    }
    let b = std::fs::read(p).expect("harness: read");
    ["empty", "small", "large", "huge"].iter().find(|c| content(c) == b.as_slice()).map(|c| c.to_string()).unwrap_or(format!("{} other bytes", b.len()))
}
fn clear(p: &Path) {
    match std::fs::symlink_metadata(p) {
        Ok(m) if m.is_dir() => {
            std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o755)).expect("harness: chmod");
            for e in std::fs::read_dir(p).expect("harness: list") {
                clear(&e.unwrap().path())
            }
            std::fs::remove_dir(p).expect("harness: rmdir")
        }
        Ok(_) => std::fs::remove_file(p).expect("harness: rm"),
        Err(_) => {}
    }
}

struct Fs {
    base: [PathBuf; 2],
    limit: bool,
    protect: [bool; 2],
    dir: [String; 2],
    doubt: BTreeMap<(usize, String), ()>,
    paths: Vec<String>,
    n: usize,
}
fn ix(f: &str) -> usize {
    (f == "B") as usize
}
impl Fs {
    fn srcdir(&self, f: usize) -> PathBuf {
        self.base[f].join("finished")
    }
    fn source(&self, f: usize) -> PathBuf {
        self.srcdir(f).join("part-0.parquet")
    }
    fn target(&self, g: usize, p: &str) -> PathBuf {
        self.base[g].join("store").join(p)
    }
    fn set_limit(on: bool) {
        unsafe {
            libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
            let mut l: libc::rlimit = std::mem::zeroed();
            libc::getrlimit(libc::RLIMIT_FSIZE, &mut l);
            l.rlim_cur = if on { LIMIT } else { l.rlim_max };
            if libc::setrlimit(libc::RLIMIT_FSIZE, &l) != 0 {
                panic!("harness: setrlimit")
            }
        }
    }
    fn chmod(p: &Path, m: u32) {
        std::fs::set_permissions(p, std::fs::Permissions::from_mode(m)).expect("harness: chmod")
    }
}
#[async_trait(?Send)]
impl Sys for Fs {
    async fn reset(&mut self) {
        if self.limit {
            Fs::set_limit(false);
        }
        for f in 0..2 {
            for e in std::fs::read_dir(&self.base[f]).expect("harness: list") {
                clear(&e.unwrap().path())
            }
            std::fs::create_dir(self.srcdir(f)).expect("harness: mkdir");
            std::fs::create_dir(self.base[f].join("store")).expect("harness: mkdir");
        }
        self.limit = false;
        self.protect = [false; 2];
        self.dir = ["absent".into(), "absent".into()];
        self.doubt.clear();
    }
    async fn apply(&mut self, op: &Value) -> Value {
        let f = op["f"].as_str().map(ix).unwrap_or(0);
        match s(op, "op") {
            "env_finish" => {
                let l = self.limit;
                if l {
                    Fs::set_limit(false)
                }
                std::fs::write(self.source(f), content(s(op, "c"))).expect("harness: write");
                if l {
                    Fs::set_limit(true)
                }
            }
            "env_discard" => clear(&self.source(f)),
            "env_protect" => {
                let on = op["on"].as_bool().unwrap();
                self.protect[f] = on;
                Fs::chmod(&self.srcdir(f), if on { 0o555 } else { 0o755 })
            }
            "env_dir" => {
                let d = self.target(f, "d");
                clear(&d);
                let k = s(op, "kind");
                match k {
                    "dir" => std::fs::create_dir(&d).expect("harness: mkdir"),
                    "ro" => {
                        std::fs::create_dir(&d).expect("harness: mkdir");
                        Fs::chmod(&d, 0o555)
                    }
                    "file" => std::fs::write(&d, "in the way").expect("harness: write"),
                    _ => {}
                }
                self.dir[f] = k.to_string();
                self.doubt.retain(|x, _| x.0 != f || x.1 == "t");
            }
            "env_target" => {
                let t = self.target(f, "t");
                clear(&t);
                if s(op, "kind") == "dir" {
                    std::fs::create_dir(&t).expect("harness: mkdir");
                }
                self.doubt.remove(&(f, "t".to_string()));
            }
            "env_limit" => {
                self.limit = op["on"].as_bool().unwrap();
                Fs::set_limit(self.limit)
            }
            "move" => {
                let (g, p) = (ix(s(op, "g")), s(op, "p").to_string());
                let (from, to) = (self.source(f), self.target(g, &p));
                let to = to.to_str().unwrap().to_string();
                let r = match AssertUnwindSafe(fast_upload(&from, to)).catch_unwind().await {
                    Ok(Ok(())) => "ok".to_string(),
                    Ok(Err(_)) => "error".to_string(),
                    Err(e) => format!("panic: {}", panic_text(e)),
                };
                if r == "ok" {
                    if p != "t" {
                        self.dir[g] = "dir".into();
                    }
                    self.doubt.remove(&(g, p));
                } else {
                    self.doubt.insert((g, p), ());
                }
                return json!(r);
            }
            x => panic!("harness: op {x}"),
        }
        json!("ok")
    }
    async fn project(&mut self) -> Value {
        let mut v = json!({"src": {}, "srcro": {}, "tgt": {}, "dir": {}, "limit": self.limit});
        for (f, n) in ["A", "B"].iter().enumerate() {
            v["src"][n] = json!(content_name(&self.source(f)));
            v["srcro"][n] = json!(self.protect[f]);
            v["dir"][n] = json!(self.dir[f]);
            let t: serde_json::Map<String, Value> = self
                .paths
                .iter()
                .map(|p| {
                    let d = self.doubt.contains_key(&(f, p.clone()));
                    (p.clone(), json!(if d { "?".to_string() } else { content_name(&self.target(f, p)) }))
                })
                .collect();
            v["tgt"][n] = json!(t);
            // nothing but what is expected to be there (leftovers of failed moves apart)
            let names = |p: &Path| -> Vec<String> {
                std::fs::read_dir(p)
                    .map(|d| d.map(|e| e.unwrap().file_name().to_string_lossy().to_string()).collect())
                    .unwrap_or_default()
            };
            let mut extra: Vec<String> = names(&self.srcdir(f)).into_iter().filter(|x| x != "part-0.parquet").collect();
            if self.doubt.is_empty() {
                extra.extend(names(&self.target(f, "")).into_iter().filter(|x| x != "t" && x != "d"));
            }
            if !extra.is_empty() {
                v["extra"] = json!(extra);
            }
        }
        v
    }
}

/// Two directories on different filesystems (or the same, if there is only one), usable without privileges
fn bases() -> (Vec<PathBuf>, bool) {
    let mut out: Vec<(PathBuf, u64)> = vec![];
    for c in ["/dev/shm", "/tmp", "/var/tmp", "/run", "/verif/.build"] {
        let Ok(m) = std::fs::metadata(c) else { continue };
        if out.iter().any(|x| x.1 == m.dev()) {
            continue;
        }
        let p = PathBuf::from(format!("{c}/vp-upload-{}", std::process::id()));
        if std::fs::create_dir(&p).is_ok() {
            Fs::chmod(&p, 0o755);
            let _ = std::os::unix::fs::chown(&p, Some(NOBODY), Some(NOBODY));
            out.push((p, m.dev()));
        }
    }
    assert!(!out.is_empty(), "harness: no scratch directory");
    let two = out.len() > 1;
    for x in out.iter().skip(2) {
        clear(&x.0)
    }
    out.truncate(2);
    if !two {
        out.push(out[0].clone());
    }
    (out.into_iter().map(|x| x.0).collect(), two)
}

pub fn tour(cfg: &Value) -> Value {
    let g = Arc::new(Graph::load(s(cfg, "graph")));
    let paths: Vec<String> = g.states[g.init]["tgt"]["A"].as_object().unwrap().keys().cloned().collect();
    let (b, two) = bases();
    if !two {
        for p in &b {
            if p.exists() {
                clear(p)
            }
        }
        return json!({"states": 0, "transitions": 0, "covered": 0, "skipped": "there is only one filesystem to write to here"});
    }
    // the code under test moves and removes files: from here on it can only do so to what nobody owns
    let dropped = unsafe {
        libc::setgroups(0, std::ptr::null()) == 0 && libc::setresgid(NOBODY, NOBODY, NOBODY) == 0 && libc::setresuid(NOBODY, NOBODY, NOBODY) == 0
    };
    let usable = dropped && b.iter().all(|p| std::fs::write(p.join("x"), "").is_ok() && std::fs::remove_file(p.join("x")).is_ok());
    assert!(usable, "harness: cannot work without privileges in {b:?}");
    let n = AtomicUsize::new(0);
    let bb = b.clone();
    let o = TourOpts::from(cfg);
    let mut r = crate::v_graph::tour(g.clone(), o, move || {
        let k = n.fetch_add(1, Ordering::SeqCst);
        let base = [0, 1].map(|i| {
            let p = bb[i].join(format!("{k}"));
            std::fs::create_dir(&p).expect("harness: mkdir");
            p
        });
        Fs { base, limit: false, protect: [false; 2], dir: [String::new(), String::new()], doubt: BTreeMap::new(), paths: paths.clone(), n: k }
    });
    Fs::set_limit(false);
    for p in &b {
        clear_inside(p)
    }
    crate::v_graph::report(&g, &mut r)
}
/// The directories themselves are removed by whoever made them (see checks.py) if nobody may not
fn clear_inside(p: &Path) {
    for e in std::fs::read_dir(p).expect("harness: list") {
        clear(&e.unwrap().path())
    }
    let _ = std::fs::remove_dir(p);
}
