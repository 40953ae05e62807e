//! Cleaning up after dropped tables (Cleanup.tla)
use crate::v_graph::{Graph, Sys, TourOpts};
use crate::v_sys;
use crate::v_util::*;
use async_trait::async_trait;
use futures::stream::{self, BoxStream};
use futures::{StreamExt, TryStreamExt};
use object_store::{memory::InMemory, path::Path, *};
use object_store_factory::google::GCSConfig;
use object_store_factory::ObjectStoreConfig;
use seafowl::catalog::metastore::Metastore;
use seafowl::config::context::build_context;
use seafowl::context::SeafowlContext;
use seafowl::object_store::wrapped::InternalObjectStore;
use seafowl::repository::interface::{DroppedTableDeletionStatus as Status, Repository};
use seafowl::repository::sqlite::SqliteRepository;
use seafowl::utils::gc_databases;
use serde_json::{json, Value};
use sqlx::sqlite::SqliteJournalMode;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use uuid::Uuid;

/// Objects in memory; listing and deleting fails when told to
#[derive(Debug)]
struct Failing {
    inner: InMemory,
    /// what fails, and below which path
    fault: Mutex<(String, String)>,
}
impl std::fmt::Display for Failing {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "failing")
    }
}
fn broken() -> Error {
    Error::Generic { store: "failing", source: "out of order".into() }
}
impl Failing {
    fn now(&self, what: &str, below: &str) -> bool {
        let f = self.fault.lock().unwrap();
        f.0 == what && (below == f.1 || below.starts_with(&format!("{}/", f.1)))
    }
    async fn all(&self, p: Option<&Path>) -> Vec<ObjectMeta> {
        let mut r: Vec<_> = self.inner.list(p).try_collect().await.expect("harness: list");
        r.sort_by(|a, b| a.location.cmp(&b.location));
        r
    }
}
#[async_trait]
impl ObjectStore for Failing {
    async fn put_opts(&self, l: &Path, p: PutPayload, o: PutOptions) -> Result<PutResult> {
        self.inner.put_opts(l, p, o).await
    }
    async fn put_multipart_opts(&self, l: &Path, o: PutMultipartOpts) -> Result<Box<dyn MultipartUpload>> {
        self.inner.put_multipart_opts(l, o).await
    }
    async fn get_opts(&self, l: &Path, o: GetOptions) -> Result<GetResult> {
        self.inner.get_opts(l, o).await
    }
    async fn delete(&self, l: &Path) -> Result<()> {
        if self.now("delete", l.as_ref()) {
            let below = Path::from(self.fault.lock().unwrap().1.clone());
            if self.all(Some(&below)).await.last().is_some_and(|m| &m.location == l) {
                return Err(broken());
            }
        }
        self.inner.delete(l).await
    }
    fn list(&self, p: Option<&Path>) -> BoxStream<'_, Result<ObjectMeta>> {
        let p = p.cloned();
        stream::once(async move {
            let below = p.as_ref().map(|p| p.to_string()).unwrap_or_default();
            let mut r: Vec<Result<ObjectMeta>> = self.all(p.as_ref()).await.into_iter().map(Ok).collect();
            if self.now("list", &below) {
                r = vec![Err(broken())];
            }
            if self.now("listmid", &below) && !r.is_empty() {
                // a failed request can be followed by ones that succeed
                let i = r.len() / 2;
                r[i] = Err(broken());
            }
            stream::iter(r)
        })
        .flatten()
        .boxed()
    }
    async fn list_with_delimiter(&self, p: Option<&Path>) -> Result<ListResult> {
        if self.now("list", p.map(|p| p.as_ref()).unwrap_or_default()) {
            return Err(broken());
        }
        self.inner.list_with_delimiter(p).await
    }
    async fn copy(&self, a: &Path, b: &Path) -> Result<()> {
        self.inner.copy(a, b).await
    }
    async fn copy_if_not_exists(&self, a: &Path, b: &Path) -> Result<()> {
        self.inner.copy_if_not_exists(a, b).await
    }
}

const FILES: [&str; 5] = ["_delta_log/00000000000000000000.json", "_delta_log/00000000000000000001.json", "a/b=1/part-2.parquet", "part-0.parquet", "part-1.parquet"];

struct Gc {
    ctx: Option<SeafowlContext>,
    repo: Option<Arc<SqliteRepository>>,
    store: Option<Arc<Failing>>,
    internal: Option<Arc<InternalObjectStore>>,
    opened: usize,
    about: Vec<String>,
}
fn uuid(u: &str) -> Uuid {
    // close to each other, one of them nil
    match u {
        "u1" => Uuid::nil(),
        "none" => Uuid::from_u128(u128::MAX),
        u => Uuid::from_u128(u[1..].parse::<u128>().unwrap()),
    }
}
impl Gc {
    fn prefix(&self, dir: &str) -> String {
        // in the root of the store, or in a folder of it
        ["".to_string(), "data/".to_string()][self.opened % 2].clone() + dir
    }
    /// What is not of any table here: names that begin alike, files next to the folders, other tables
    fn others(&self) -> Vec<String> {
        let mut r = vec![self.prefix("part-0.parquet"), "elsewhere.parquet".to_string()];
        for u in ["u1", "u2", "u3", "u4"] {
            let d = uuid(u).to_string();
            r.push(self.prefix(&format!("{d}x/part-0.parquet")));
            r.push(self.prefix(&format!("{d}.parquet")));
            r.push(self.prefix(&format!("z/{d}/part-0.parquet")));
            r.push(self.prefix(&format!("{}/part-0.parquet", &d[..d.len() - 1])));
        }
        r.push(format!("{}/part-0.parquet", Uuid::from_u128(77)));
        r.sort();
        r.dedup();
        r
    }
}

#[async_trait(?Send)]
impl Sys for Gc {
    async fn reset(&mut self) {
        self.opened += 1;
        self.about.clear();
        let store = Arc::new(Failing { inner: InMemory::new(), fault: Default::default() });
        let config = match self.opened % 2 {
            0 => ObjectStoreConfig::Memory,
            _ => ObjectStoreConfig::GoogleCloudStorage(GCSConfig { bucket: "b".into(), prefix: Some("data".into()), google_application_credentials: None }),
        };
        let internal = Arc::new(InternalObjectStore::new(store.clone(), config));
        if self.ctx.is_none() {
            let repo = Arc::new(SqliteRepository::try_new("sqlite::memory:".into(), SqliteJournalMode::Wal).await.expect("harness: open"));
            let mut ctx = build_context(v_sys::config(&v_sys::memory_config(2, ""))).await.expect("harness: context");
            ctx.metastore = Arc::new(Metastore::new_from_repository(repo.clone(), ctx.metastore.object_stores.clone()));
            for d in ["default", "other"] {
                ctx.metastore.catalogs.create(d).await.expect("harness: database");
                ctx.metastore.schemas.create(d, "public").await.expect("harness: schema");
            }
            (self.ctx, self.repo) = (Some(ctx), Some(repo));
        }
        for q in ["DROP TRIGGER IF EXISTS vp_stay", "DELETE FROM dropped_table"] {
            sqlx::query(q).execute(&self.repo.as_ref().unwrap().executor).await.expect("harness: clear");
        }
        self.ctx.as_mut().unwrap().internal_object_store = Some(internal.clone());
        for o in self.others() {
            store.inner.put(&Path::from(o), "other".into()).await.expect("harness: put");
        }
        for u in ["u1", "u2", "u3", "u4"] {
            for f in FILES {
                store.inner.put(&Path::from(self.prefix(&format!("{}/{f}", uuid(u)))), "file".into()).await.expect("harness: put");
            }
        }
        (self.store, self.internal) = (Some(store), Some(internal));
    }
    async fn apply(&mut self, o: &Value) -> Value {
        let (ctx, repo, store) = (self.ctx.as_ref().unwrap(), self.repo.clone().unwrap(), self.store.clone().unwrap());
        match s(o, "op") {
            "drop" => {
                sqlx::query("INSERT INTO dropped_table (database_name, collection_name, table_name, uuid) VALUES ($1, $2, $3, $4)")
                    .bind(s(o, "d"))
                    .bind("public")
                    .bind("some_table")
                    .bind(uuid(s(o, "u")))
                    .execute(&repo.executor)
                    .await
                    .expect("harness: dropped_table");
            }
            "break" => {
                sqlx::query("DROP TRIGGER IF EXISTS vp_stay").execute(&repo.executor).await.expect("harness: trigger");
                let what = s(o, "what");
                if what == "remove" {
                    sqlx::query("CREATE TRIGGER vp_stay BEFORE DELETE ON dropped_table BEGIN SELECT RAISE(ABORT, 'not now'); END")
                        .execute(&repo.executor)
                        .await
                        .expect("harness: trigger");
                }
                *store.fault.lock().unwrap() = (what.to_string(), self.prefix(&uuid(s(o, "u")).to_string()));
            }
            "clean" => {
                let d = s(o, "d");
                if s(o, "how") == "vacuum" {
                    if let Err(e) = v_sys::run(ctx, &format!("VACUUM DATABASE {}", if d == "default" { "\"default\"" } else { d })).await {
                        self.about.push(e.clone());
                        return json!(e);
                    }
                } else {
                    let gc = gc_databases(ctx, self.internal.clone().unwrap(), if d == "*" { None } else { Some(d.to_string()) });
                    if let Err(e) = v_sys::guard(gc).await {
                        return json!(e);
                    }
                }
            }
            x => panic!("harness: op {x}"),
        }
        json!("ok")
    }
    async fn project(&mut self) -> Value {
        let store = self.store.as_ref().unwrap();
        let mut rec: BTreeMap<String, Value> = Default::default();
        let known = self.repo.as_ref().unwrap().get_dropped_tables(None).await.expect("harness: dropped tables");
        let mut obj: BTreeMap<String, Value> = Default::default();
        let mut all: Vec<String> = store.all(None).await.into_iter().map(|m| m.location.to_string()).collect();
        for u in ["u1", "u2", "u3", "u4"] {
            let of: Vec<_> = known.iter().filter(|k| k.uuid == uuid(u)).collect();
            rec.insert(u.into(), match &of[..] {
                [] => json!({"d": "none", "st": "none"}),
                [k] => json!({"d": k.database_name, "st": match k.deletion_status { Status::Pending => "PENDING", Status::Retry => "RETRY", Status::Failed => "FAILED" }}),
                _ => json!("several records"),
            });
            let p = self.prefix(&format!("{}/", uuid(u)));
            let n = all.iter().filter(|a| a.starts_with(&p)).count();
            all.retain(|a| !a.starts_with(&p));
            obj.insert(u.into(), json!(if n == FILES.len() { "full" } else if n == 0 { "gone" } else { "part" }));
        }
        let mut others: Vec<_> = self.others().into_iter().map(|o| Path::from(o).to_string()).collect();
        others.retain(|o| match all.iter().position(|a| a == o) {
            Some(i) => {
                all.remove(i);
                false
            }
            None => true,
        });
        let mut r = json!({"rec": rec, "obj": obj});
        if !others.is_empty() || !all.is_empty() {
            r["foreign files missing"] = json!(others);
            r["foreign files new"] = json!(all);
        }
        r
    }
    fn accepts(&self, e: &Value, a: &Value) -> bool {
        // after a failure some files can be gone already
        a.as_object().unwrap().len() == 2
            && e["rec"].as_object().unwrap().iter().all(|(u, r)| &a["rec"][u] == r)
            && e["obj"].as_object().unwrap().iter().all(|(u, o)| &a["obj"][u] == o || (o == "part" && a["obj"][u] == "full"))
    }
    fn about(&self) -> Value {
        json!({"folder of the tables": self.prefix(""), "errors": self.about})
    }
}

pub fn tour(cfg: &Value) -> Value {
    let g = Arc::new(Graph::load(s(cfg, "graph")));
    let seed = std::sync::atomic::AtomicUsize::new(0);
    let mut r = crate::v_graph::tour(g.clone(), TourOpts::from(cfg), move || {
        let opened = seed.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        Gc { ctx: None, repo: None, store: None, internal: None, opened, about: vec![] }
    });
    crate::v_graph::report(&g, &mut r)
}
