//! Object store settings and stores against StoreOptions.tla, StoreConfig.tla and LocalStore.tla
use crate::stores::{google, local, memory};
use crate::v_cases;
use crate::v_graph::*;
use crate::v_util::*;
use async_trait::async_trait;
use futures::{StreamExt, TryStreamExt};
use object_store::{gcp::GoogleConfigKey, path::Path as StorePath, ClientConfigKey, ObjectStore, PutMode, PutOptions};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use std::sync::Arc;

const NOBODY: u32 = 65534;
const ENVS: [&str; 11] = [
    "GOOGLE_SERVICE_ACCOUNT", "GOOGLE_SERVICE_ACCOUNT_KEY", "GOOGLE_BUCKET", "GOOGLE_BUCKET_NAME", "GOOGLE_APPLICATION_CREDENTIALS",
    "GOOGLE_TIMEOUT", "GOOGLE_NONSENSE", "BUCKET", "google_bucket", "SERVICE_ACCOUNT", "TIMEOUT",
];
/// The environment belongs to the process: one thread
pub fn options(cfg: &Value) -> Value {
    for (k, _) in std::env::vars_os() {
        if k.to_string_lossy().starts_with("GOOGLE_") {
            std::env::remove_var(k)
        }
    }
    v_cases::run(
        v_cases::load(s(cfg, "graph")),
        1,
        v_cases::known(cfg),
        || (),
        |_, c| {
            let env: Vec<&str> = c["env"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
            for e in ENVS {
                if env.contains(&e) {
                    std::env::set_var(e, e)
                } else {
                    std::env::remove_var(e)
                }
            }
            let given: HashMap<String, String> = c["given"].as_array().unwrap().iter().map(|g| (s(g, "as").to_string(), s(g, "as").to_string())).collect();
            let mut o = match google::map_options_into_google_config_keys(given) {
                Err(e) if c["bad"] == json!(true) => {
                    // ... and says which
                    let m = e.to_string();
                    let named = c["given"].as_array().unwrap().iter().any(|g| s(g, "key") == "?" && m.contains(s(g, "as")));
                    return if named { Ok(1) } else { Err(json!({"what": "the error does not name the unknown option", "actual": m})) };
                }
                Err(e) => return Err(json!({"what": "accepted options are refused", "actual": e.to_string()})),
                Ok(_) if c["bad"] == json!(true) => return Err(json!({"what": "an unknown option is accepted"})),
                Ok(o) => o,
            };
            google::add_google_cloud_storage_environment_variables(&mut o);
            let name = |k: &GoogleConfigKey| match k {
                GoogleConfigKey::ServiceAccount => "sa".to_string(),
                GoogleConfigKey::ServiceAccountKey => "sak".to_string(),
                GoogleConfigKey::Bucket => "bucket".to_string(),
                GoogleConfigKey::ApplicationCredentials => "creds".to_string(),
                GoogleConfigKey::Client(ClientConfigKey::Timeout) => "timeout".to_string(),
                k => format!("{k:?}"),
            };
            let got: BTreeMap<String, String> = o.iter().map(|(k, v)| (name(k), v.clone())).collect();
            for (k, allowed) in c["want"].as_object().unwrap() {
                let a = allowed.as_array().unwrap();
                let ok = match got.get(k) {
                    None => a.is_empty(),
                    Some(v) => a.contains(&json!(v)),
                };
                if !ok {
                    return Err(json!({"what": format!("the setting {k}"), "expected": allowed, "actual": got}));
                }
            }
            if let Some(k) = got.keys().find(|k| !c["want"].as_object().unwrap().contains_key(*k)) {
                return Err(json!({"what": format!("a setting {k} out of nowhere"), "actual": got}));
            }
            Ok(1)
        },
    )
}

pub fn config(cfg: &Value) -> Value {
    v_cases::run(
        v_cases::load(s(cfg, "graph")),
        4,
        v_cases::known(cfg),
        || (),
        |_, c| {
            let k = &c["c"];
            let opt = |f: &str| if s(k, f) == "-" { None } else { Some(s(k, f).to_string()) };
            let more = k["more"] == json!(true);
            let bad = |what: &str, x: Value| Err(json!({"what": what, "actual": x}));
            let mut map: HashMap<String, String> = HashMap::new();
            let mut put = |n: &str, v: &Option<String>| {
                if let Some(v) = v {
                    map.insert(n.to_string(), v.clone());
                }
            };
            if s(k, "store") == "local" {
                put("data_dir", &opt("dir"));
                put("disable_hardlinks", &opt("flag"));
                if more {
                    put("bucket", &Some("elsewhere".into()));
                    put("format.data_dir", &Some("/elsewhere".into()));
                }
                let disable = c["disable"].as_bool().unwrap();
                match local::LocalConfig::from_hashmap(&map) {
                    Ok(l) => {
                        if c["ok"] == json!(false) {
                            return bad("a local store without a directory is accepted", json!(l.data_dir));
                        }
                        if Some(&l.data_dir) != opt("dir").as_ref() || l.disable_hardlinks != disable {
                            return bad("the settings of a local store", json!(format!("{l:?}")));
                        }
                        let back = local::LocalConfig::from_hashmap(&l.to_hashmap());
                        if !back.as_ref().map(|b| *b == l).unwrap_or(false) {
                            return bad("the options of a local store describe another", json!(format!("{:?} as {:?}", l, l.to_hashmap())));
                        }
                        if l.to_hashmap().len() != 2 {
                            return bad("the options of a local store", json!(format!("{:?}", l.to_hashmap())));
                        }
                        // as a configuration file has them
                        let mut j = json!({"data_dir": l.data_dir});
                        if ["true", "false"].contains(&s(k, "flag")) {
                            j["disable_hardlinks"] = json!(disable);
                        }
                        match serde_json::from_value::<local::LocalConfig>(j.clone()) {
                            Ok(f) if f == l || s(k, "flag") != "-" && j.get("disable_hardlinks").is_none() => {}
                            f => return bad("the same settings from a configuration file", json!(format!("{f:?}"))),
                        }
                    }
                    Err(e) if c["ok"] == json!(true) => return bad("a local store is refused", json!(e.to_string())),
                    Err(_) => {}
                }
                return Ok(3);
            }
            put("bucket", &opt("bucket"));
            put("prefix", &opt("prefix"));
            put("google_application_credentials", &opt("creds"));
            if more {
                put("data_dir", &Some("/elsewhere".into()));
            }
            let g = match google::GCSConfig::from_hashmap(&map) {
                Ok(g) => g,
                Err(e) => return bad("a bucket is refused", json!(e.to_string())),
            };
            if Some(&g.bucket) != opt("bucket").as_ref() || g.prefix != opt("prefix") || g.google_application_credentials != opt("creds") {
                return bad("the settings of a bucket", json!(format!("{g:?}")));
            }
            let j = json!({"bucket": opt("bucket"), "prefix": opt("prefix"), "google_application_credentials": opt("creds")});
            match serde_json::from_value::<google::GCSConfig>(j) {
                Ok(f) if f == g => {}
                f => return bad("the same settings from a configuration file", json!(format!("{f:?}"))),
            }
            // from a statement: the options it knows are consumed, all others left
            let mut stmt: HashMap<String, String> = [("format.has_header".to_string(), "true".to_string())].into();
            if let Some(x) = opt("creds") {
                stmt.insert("format.google_application_credentials".into(), x);
            }
            if more {
                stmt.insert("google_application_credentials".into(), "/elsewhere".into());
            }
            match google::GCSConfig::from_bucket_and_options(g.bucket.clone(), &mut stmt) {
                Ok(f) if f.bucket == g.bucket && f.prefix.is_none() && f.google_application_credentials == opt("creds") => {}
                f => return bad("the same settings from a statement", json!(format!("{f:?}"))),
            }
            if stmt.len() != 1 + more as usize || stmt.get("format.has_header").map(|x| x.as_str()) != Some("true") {
                return bad("the options left of a statement", json!(format!("{stmt:?}")));
            }
            if g.bucket_to_url() != format!("gs://{}", s(k, "bucket")) {
                return bad("the URL of a bucket", json!(g.bucket_to_url()));
            }
            if g.get_base_url() != opt("prefix").map(StorePath::from) {
                return bad("the base path of a bucket", json!(format!("{:?}", g.get_base_url())));
            }
            // the options that describe the bucket to others
            match google::map_options_into_google_config_keys(g.to_hashmap()) {
                Ok(o) => {
                    let mut want: HashMap<GoogleConfigKey, String> = [(GoogleConfigKey::Bucket, g.bucket.clone())].into();
                    if let Some(x) = opt("creds") {
                        want.insert(GoogleConfigKey::ApplicationCredentials, x);
                    }
                    if o != want {
                        return bad("the options of a bucket describe another", json!(format!("{o:?}")));
                    }
                }
                Err(e) if g.prefix.is_some() => {
                    return Err(json!({"what": "the options of a bucket with a prefix cannot be used", "key": "gcs-prefix-option", "actual": e.to_string()}))
                }
                Err(e) => return bad("the options of a bucket cannot be used", json!(e.to_string())),
            }
            Ok(6)
        },
    )
}

struct Store {
    dir: Option<tempfile::TempDir>,
    root: PathBuf,
    store: Option<Arc<dyn ObjectStore>>,
    local: bool,
    paths: Vec<String>,
    dirs: Vec<String>,
    n: usize,
}
#[async_trait(?Send)]
impl Sys for Store {
    async fn reset(&mut self) {
        if self.local {
            let d = self.dir.get_or_insert_with(scratch);
            self.n += 1;
            if self.root.starts_with(d.path()) {
                std::fs::remove_dir_all(&self.root).ok();
            }
            self.root = d.path().join(format!("s{}", self.n));
            std::fs::create_dir(&self.root).expect("harness: mkdir");
            let c = local::LocalConfig { data_dir: self.root.to_str().unwrap().into(), disable_hardlinks: self.n % 2 == 0 };
            self.store = Some(c.build_local_storage().expect("a local store can be built"));
        } else {
            self.store = Some(memory::build_in_memory_storage().expect("a store in memory can be built"));
        }
    }
    async fn apply(&mut self, op: &Value) -> Value {
        let st = self.store.clone().unwrap();
        let p = StorePath::from(s(op, "path"));
        let v = s(op, "value").to_string();
        let r = match s(op, "op") {
            "put" => st.put(&p, v.into()).await.map(|_| ()),
            "create" => st.put_opts(&p, v.into(), PutOptions { mode: PutMode::Create, ..Default::default() }).await.map(|_| ()),
            "delete" => st.delete(&p).await,
            x => panic!("harness: op {x}"),
        };
        json!(match r {
            Ok(()) => "ok".to_string(),
            Err(object_store::Error::NotFound { .. }) => "absent".to_string(),
            // the store in memory does not tell
            Err(object_store::Error::AlreadyExists { .. }) => "exists".to_string(),
            Err(e) => e.to_string(),
        })
    }
    async fn project(&mut self) -> Value {
        let st = self.store.clone().unwrap();
        let mut objects = serde_json::Map::new();
        for p in &self.paths {
            let v = match st.get(&StorePath::from(p.as_str())).await {
                Ok(r) => String::from_utf8_lossy(&r.bytes().await.expect("harness: bytes")).to_string(),
                Err(object_store::Error::NotFound { .. }) => "-".to_string(),
                Err(e) => e.to_string(),
            };
            objects.insert(p.clone(), json!(v));
        }
        for o in st.list(None).try_collect::<Vec<_>>().await.expect("harness: list") {
            let p = self.paths.iter().find(|p| StorePath::from(p.as_str()) == o.location);
            match p {
                Some(p) if objects[p] != json!("-") => {
                    if self.local {
                        let on_disk = std::fs::read_to_string(self.root.join(p)).unwrap_or("not there".into());
                        if json!(on_disk) != objects[p] {
                            objects.insert(format!("on disk {p}"), json!(on_disk));
                        }
                    }
                }
                _ => {
                    objects.insert(format!("unexpected {}", o.location), json!("?"));
                }
            }
        }
        let mut dirs: serde_json::Map<String, Value> = self.dirs.iter().map(|d| (d.clone(), json!(self.root.join(d).is_dir()))).collect();
        if !self.local {
            // directories do not exist here
            for d in &self.dirs {
                let there = self.paths.iter().any(|p| p.starts_with(&format!("{d}/")) && objects[p] != json!("-"));
                dirs.insert(d.clone(), json!(there));
            }
        }
        if self.local && !self.root.is_dir() {
            objects.insert("the directory of the store".into(), json!("gone"));
        }
        json!({"objects": objects, "dirs": dirs})
    }
}
pub fn tour(cfg: &Value) -> Value {
    let g = Arc::new(Graph::load(s(cfg, "graph")));
    let keys = |k: &str| -> Vec<String> { g.states[g.init][k].as_object().map(|m| m.keys().cloned().collect()).unwrap_or_default() };
    let (paths, dirs) = (keys("objects"), keys("dirs"));
    let local = s(cfg, "store") == "local";
    // the code under test says where files are written and removed: only what nobody owns can be
    if local {
        let dropped = unsafe { libc::setgroups(0, std::ptr::null()) == 0 && libc::setresgid(NOBODY, NOBODY, NOBODY) == 0 && libc::setresuid(NOBODY, NOBODY, NOBODY) == 0 };
        assert!(dropped, "harness: cannot work without privileges");
    }
    let o = TourOpts::from(cfg);
    let mut r = crate::v_graph::tour(g.clone(), o, move || Store {
        dir: None,
        root: PathBuf::from("/nowhere"),
        store: None,
        local,
        paths: paths.clone(),
        dirs: dirs.clone(),
        n: 0,
    });
    crate::v_graph::report(&g, &mut r)
}
