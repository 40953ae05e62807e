//! The metadata catalog against Catalog.tla
use crate::repository::interface::*;
use crate::repository::sqlite::SqliteRepository;
use crate::v_graph::*;
use crate::v_util::*;
use crate::wasm_udf::data_types::*;
use arrow_schema::{DataType, Field, Schema, TimeUnit};
use async_trait::async_trait;
use futures::FutureExt;
use serde_json::{json, Value};
use sqlx::sqlite::{SqliteConnectOptions, SqliteJournalMode, SqlitePoolOptions};
use sqlx::Row;
use std::collections::{BTreeSet, HashMap};
use std::panic::AssertUnwindSafe;
use std::str::FromStr;
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::{Arc, Mutex};
use uuid::Uuid;

/// What the opaque column lists of the specification stand for
pub fn schema(s: &str) -> Schema {
    let f = |n: &str, t: DataType, nl: bool| Field::new(n, t, nl);
    match s {
        "A" => Schema::new(vec![f("value", DataType::Float64, false), f("date", DataType::Date64, true)]),
        "B" => Schema::new(vec![
            f("x", DataType::Utf8, true),
            f("Weird \"name\"; --", DataType::Timestamp(TimeUnit::Microsecond, Some("+01:00".into())), false),
            f("z", DataType::Decimal128(38, 10), true)
                .with_metadata(HashMap::from([("k".to_string(), "v".to_string())])),
        ]),
        "E" => Schema::empty(),
        "W" => Schema::new((0..40).map(|i| f(&format!("c{i}"), DataType::Int32, i % 2 == 0)).collect::<Vec<_>>()),
        // no table can have two columns of one name
        "D" => Schema::new(vec![f("p", DataType::Int64, true), f("q", DataType::Int64, true), f("p", DataType::Utf8, true)]),
        x => panic!("harness: schema {x}"),
    }
}
pub const SCHEMA_CHOICES: [&str; 5] = ["A", "B", "E", "W", "D"];
pub const SCHEMAS: [&str; 4] = ["A", "B", "E", "W"];

pub fn details(d: &str) -> CreateFunctionDetails {
    use CreateFunctionDataType as T;
    match d {
        "x" => CreateFunctionDetails {
            entrypoint: "main".into(),
            language: CreateFunctionLanguage::Wasm,
            input_types: vec![T::FLOAT, T::BIGINT],
            return_type: T::INT,
            data: "AGFzbQ==".into(),
            volatility: CreateFunctionVolatility::Volatile,
        },
        "y" => CreateFunctionDetails {
            entrypoint: "other'; \"entry".into(),
            language: CreateFunctionLanguage::WasmMessagePack,
            input_types: vec![T::TEXT, T::DECIMAL { precision: 38, scale: 7 }, T::TIMESTAMP],
            return_type: T::BOOLEAN,
            data: "".into(),
            volatility: CreateFunctionVolatility::Immutable,
        },
        "z" => CreateFunctionDetails {
            entrypoint: "".into(),
            language: CreateFunctionLanguage::WasmMessagePack,
            input_types: vec![],
            return_type: T::VARCHAR,
            data: "x".repeat(5000),
            volatility: CreateFunctionVolatility::Stable,
        },
        x => panic!("harness: details {x}"),
    }
}
pub const DETAILS: [&str; 3] = ["x", "y", "z"];

/// How a definition is expected to look in storage: the textual encodings of its attributes
fn stored(d: &CreateFunctionDetails) -> (String, String, String, String, String, String) {
    (
        d.entrypoint.clone(),
        d.language.to_string(),
        serde_json::to_string(&d.input_types).unwrap(),
        d.return_type.to_string(),
        d.data.clone(),
        d.volatility.to_string(),
    )
}

pub fn class(e: &Error) -> String {
    match e {
        Error::UniqueConstraintViolation(_) => "unique".into(),
        Error::FKConstraintViolation(_) => "fk".into(),
        Error::SqlxError(sqlx::Error::RowNotFound) => "missing".into(),
        e => format!("error: {e}"),
    }
}

/// Names that occur in the transitions of a graph
#[derive(Clone, Debug, Default)]
pub struct Universe {
    pub d: BTreeSet<String>,
    pub c: BTreeSet<String>,
    pub n: BTreeSet<String>,
}
impl Universe {
    pub fn of<'a>(ops: impl Iterator<Item = &'a Value>) -> Self {
        let mut u = Universe::default();
        for o in ops {
            for (k, set) in [("d", &mut u.d), ("c", &mut u.c), ("n", &mut u.n)] {
                if let Some(x) = o[k].as_str() && x != "?" {
                    set.insert(x.to_string());
                }
            }
        }
        u
    }
}

/// Identifiers handed out by the catalog, by the specification's names
#[derive(Clone, Default, Debug)]
pub struct Ids {
    pub db: HashMap<String, i64>,
    pub coll: HashMap<(String, String), i64>,
    pub tab: HashMap<String, (i64, Uuid)>,
    pub fun: HashMap<(String, String), i64>,
}

/// Faults injected into the connection of a catalog. They make a statement fail without ending its transaction:
/// interrupts and refused commits end it behind sqlx's back, and sqlx 0.7 may then execute the failed statement once
/// more on its own, which is not this project's doing.
#[derive(Default, Debug)]
pub struct Faults {
    /// refuse to prepare any statement from the n-th authorization request on (0: never)
    pub prep_at: AtomicI64,
    pub preps: AtomicI64,
    /// fail every change of a row from the n-th on (0: never)
    pub row_at: AtomicI64,
    pub rows: AtomicI64,
    pub fired: AtomicI64,
    /// terminate the process at this step of the database engine (0: never)
    pub kill_at: AtomicI64,
    pub steps: AtomicI64,
}

pub struct Cat {
    pub repo: Option<Arc<SqliteRepository>>,
    pub u: Universe,
    pub ids: Ids,
    pub faults: Option<Arc<Faults>>,
    pub age: bool,
    pub uuid_seed: u64,
    /// fault injection: largest number of engine steps / changed rows seen per kind of operation; samples per transition
    pub span: HashMap<String, i64>,
    pub row_done: HashMap<String, i64>,
    pub samples: usize,
}

unsafe extern "C" fn row_fault(ctx: *mut libsqlite3_sys::sqlite3_context, _n: i32, _v: *mut *mut libsqlite3_sys::sqlite3_value) {
    let f = &*(libsqlite3_sys::sqlite3_user_data(ctx) as *const Faults);
    let n = f.rows.fetch_add(1, Ordering::SeqCst) + 1;
    let at = f.row_at.load(Ordering::SeqCst);
    if at > 0 && n >= at {
        f.fired.fetch_add(1, Ordering::SeqCst);
        libsqlite3_sys::sqlite3_result_error(ctx, c"injected fault".as_ptr(), -1);
    } else {
        libsqlite3_sys::sqlite3_result_null(ctx);
    }
}

unsafe extern "C" fn authorize(
    p: *mut std::ffi::c_void,
    action: i32,
    a: *const std::ffi::c_char,
    _b: *const std::ffi::c_char,
    _c: *const std::ffi::c_char,
    _d: *const std::ffi::c_char,
) -> i32 {
    let f = &*(p as *const Faults);
    if action == libsqlite3_sys::SQLITE_TRANSACTION && !a.is_null() && std::ffi::CStr::from_ptr(a).to_bytes().eq_ignore_ascii_case(b"rollback") {
        return libsqlite3_sys::SQLITE_OK;
    }
    let n = f.preps.fetch_add(1, Ordering::SeqCst) + 1;
    let at = f.prep_at.load(Ordering::SeqCst);
    if at > 0 && n >= at {
        f.fired.fetch_add(1, Ordering::SeqCst);
        return libsqlite3_sys::SQLITE_DENY;
    }
    libsqlite3_sys::SQLITE_OK
}

/// The repository of SqliteRepository::try_new, with a fault hook on its only connection
pub async fn faulty_repo(dsn: &str, mode: SqliteJournalMode, faults: Arc<Faults>) -> SqliteRepository {
    let options =
        SqliteConnectOptions::from_str(dsn).unwrap().create_if_missing(true).journal_mode(mode).statement_cache_capacity(0);
    let pool = SqlitePoolOptions::new()
        .max_connections(1)
        .after_connect(move |conn, _| {
            let f = faults.clone();
            Box::pin(async move {
                let mut h = conn.lock_handle().await?;
                let g = f.clone();
                if f.kill_at.load(Ordering::SeqCst) >= 0 {
                    let g = f.clone();
                    h.set_progress_handler(1, move || {
                        let n = g.steps.fetch_add(1, Ordering::SeqCst) + 1;
                        if n == g.kill_at.load(Ordering::SeqCst) {
                            unsafe { _exit(77) }
                        }
                        true
                    });
                }
                unsafe {
                    // the connection may outlive the pool's owner: this reference is never given back
                    let p = Arc::into_raw(f) as *mut std::ffi::c_void;
                    let db = h.as_raw_handle().as_ptr();
                    libsqlite3_sys::sqlite3_create_function_v2(
                        db,
                        c"vp_fault".as_ptr(),
                        0,
                        libsqlite3_sys::SQLITE_UTF8,
                        p,
                        Some(row_fault),
                        None,
                        None,
                        None,
                    );
                    libsqlite3_sys::sqlite3_set_authorizer(db, Some(authorize), p);
                }
                Ok(())
            })
        })
        .connect_with(options)
        .await
        .expect("harness: connect");
    let repo = SqliteRepository { executor: pool };
    repo.setup().await;
    let names: Vec<String> = sqlx::query("SELECT name FROM sqlite_master WHERE type = 'table' AND name NOT LIKE 'sqlite%'")
        .fetch_all(&repo.executor)
        .await
        .map(|r| r.iter().map(|x| x.get::<String, _>(0)).collect())
        .expect("harness: tables");
    for (i, n) in names.iter().enumerate() {
        for ev in ["INSERT", "UPDATE", "DELETE"] {
            let q = format!("CREATE TEMP TRIGGER vp_{ev}_{i} BEFORE {ev} ON \"{n}\" BEGIN SELECT vp_fault(); END");
            sqlx::query(&q).execute(&repo.executor).await.expect("harness: trigger");
        }
    }
    repo
}

extern "C" {
    pub fn _exit(code: i32) -> !;
}

impl Cat {
    pub fn new(u: Universe) -> Self {
        Cat { repo: None, u, ids: Ids::default(), faults: None, age: true, uuid_seed: 0, span: HashMap::new(), row_done: HashMap::new(), samples: 8 }
    }
    pub fn r(&self) -> Arc<SqliteRepository> {
        self.repo.clone().unwrap()
    }

    /// Performs an operation, without touching the bookkeeping
    pub async fn call(repo: &SqliteRepository, ids: &Ids, op: &Value, new_uuid: Uuid) -> Result<Done, Error> {
        let d = op["d"].as_str().unwrap_or("?").to_string();
        let c = op["c"].as_str().unwrap_or("?").to_string();
        let h = op["h"].as_str().unwrap_or("?").to_string();
        let db = ids.db.get(&d).copied().unwrap_or(-7);
        let coll = ids.coll.get(&(d.clone(), c.clone())).copied().unwrap_or(-7);
        let (tid, uuid) = ids.tab.get(&h).copied().unwrap_or((-7, Uuid::from_u128(0xdead_beef_0000_0000_0000_0000_0000_0001)));
        Ok(match s(op, "op") {
            "create_database" => Done::Db(d.clone(), repo.create_database(&d).await?),
            "create_collection" => {
                let i = repo.create_collection(db, &c).await?;
                Done::Coll(d, c, i)
            }
            "create_table" => {
                let (t, v) = repo.create_table(coll, s(op, "n"), &schema(s(op, "s")), new_uuid).await?;
                Done::Tab(h, t, new_uuid, v)
            }
            "create_new_version" => Done::Ver(h, repo.create_new_version(uuid, op["v"].as_i64().unwrap()).await?),
            "delete_old_versions" => Done::Count(repo.delete_old_versions(tid).await?),
            "rename_table" => {
                let to = if op["stay"].as_bool().unwrap() { None } else { Some(coll) };
                repo.rename_table(tid, s(op, "n"), to).await?;
                Done::Unit
            }
            "delete_table" => {
                repo.delete_table(tid).await?;
                Done::Unit
            }
            "delete_collection" => {
                repo.delete_collection(coll).await?;
                Done::Unit
            }
            "delete_database" => {
                repo.delete_database(db).await?;
                Done::Unit
            }
            "create_function" => {
                let f = s(op, "f").to_string();
                let i = repo.create_function(db, &f, op["repl"].as_bool().unwrap(), &details(s(op, "det"))).await?;
                Done::Fun(d, f, i)
            }
            "drop_function" => {
                let fs: Vec<String> = op["fs"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().into()).collect();
                repo.drop_function(db, &fs).await?;
                Done::Unit
            }
            x => panic!("harness: op {x}"),
        })
    }

    pub async fn guarded(repo: &SqliteRepository, ids: &Ids, op: &Value, new_uuid: Uuid) -> (String, Option<Done>) {
        match AssertUnwindSafe(Self::call(repo, ids, op, new_uuid)).catch_unwind().await {
            Ok(Ok(Done::Count(n))) => (format!("ok:{n}"), None),
            Ok(Ok(d)) => ("ok".into(), Some(d)),
            Ok(Err(e)) => (class(&e), None),
            Err(p) => (format!("panic: {}", panic_text(p)), None),
        }
    }

    pub fn learn(&mut self, done: Option<Done>) -> Option<String> {
        match done {
            Some(Done::Db(d, i)) => {
                self.ids.db.insert(d, i);
            }
            Some(Done::Coll(d, c, i)) => {
                self.ids.coll.insert((d, c), i);
            }
            Some(Done::Tab(h, t, u, _)) => {
                self.ids.tab.insert(h, (t, u));
            }
            Some(Done::Fun(d, f, i)) => {
                if let Some(old) = self.ids.fun.insert((d, f), i) && old != i {
                    return Some(format!("replacing a function changed its identity from {old} to {i}"));
                }
            }
            _ => {}
        }
        None
    }

    pub fn fresh_uuid(&mut self) -> Uuid {
        self.uuid_seed += 1;
        Uuid::from_u128((self.uuid_seed as u128) << 64 | 0x7777)
    }

    /// Forget identifiers of objects that the abstract state no longer has
    fn forget(&mut self, abs: &Value) {
        let dbs: BTreeSet<String> = abs["dbSet"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().into()).collect();
        let colls: BTreeSet<(String, String)> = abs["collSet"]
            .as_array()
            .unwrap()
            .iter()
            .map(|x| (x[0].as_str().unwrap().to_string(), x[1].as_str().unwrap().to_string()))
            .collect();
        let tabs: BTreeSet<String> = abs["tabSet"].as_array().unwrap().iter().map(|x| s(x, "h").to_string()).collect();
        let fns: BTreeSet<(String, String)> =
            abs["fnSet"].as_array().unwrap().iter().map(|x| (s(x, "d").to_string(), s(x, "f").to_string())).collect();
        self.ids.db.retain(|k, _| dbs.contains(k));
        self.ids.coll.retain(|k, _| colls.contains(k));
        self.ids.tab.retain(|k, _| tabs.contains(k));
        self.ids.fun.retain(|k, _| fns.contains(k));
    }

    /// Everything the catalog shows, through every reading operation; "probSet" lists contradictions between them
    pub async fn show(repo: &SqliteRepository, ids: &Ids, u: &Universe) -> Value {
        let mut prob: Vec<String> = vec![];
        let (mut dbs, mut colls, mut tabs, mut fns) = (vec![], vec![], vec![], vec![]);
        macro_rules! get {
            ($e: expr, $what: expr) => {
                match AssertUnwindSafe($e).catch_unwind().await {
                    Ok(Ok(x)) => Some(x),
                    Ok(Err(Error::SqlxError(sqlx::Error::RowNotFound))) => None,
                    Ok(Err(e)) => {
                        prob.push(format!("{}: {e}", $what));
                        None
                    }
                    Err(p) => {
                        prob.push(format!("{} panicked: {}", $what, panic_text(p)));
                        None
                    }
                }
            };
        }
        for d in &u.d {
            let rec = get!(repo.get_database(d), "get_database");
            let rows = get!(repo.list_collections(d), "list_collections").unwrap_or_default();
            let vers = get!(repo.get_all_versions(d, None), "get_all_versions").unwrap_or_default();
            if let Some(r) = &rec {
                dbs.push(d.clone());
                if &r.name != d || ids.db.get(d) != Some(&r.id) {
                    prob.push(format!("get_database({d}) = {r:?}, created as {:?}", ids.db.get(d)));
                }
                for f in get!(repo.get_all_functions_in_database(r.id), "get_all_functions").unwrap_or_default() {
                    let got = (f.entrypoint, f.language, f.input_types, f.return_type, f.data, f.volatility);
                    let det = DETAILS.iter().find(|x| stored(&details(x)) == got).map(|x| x.to_string());
                    if ids.fun.get(&(d.clone(), f.name.clone())) != Some(&f.id) {
                        prob.push(format!("function {d}.{} has id {}", f.name, f.id));
                    }
                    fns.push(json!({"d": d, "f": f.name, "det": det.unwrap_or(format!("{got:?}"))}));
                }
            } else if !rows.is_empty() || !vers.is_empty() {
                prob.push(format!("database {d} does not exist but lists {} rows, {} versions", rows.len(), vers.len()));
            }
            let listed: BTreeSet<String> = rows.iter().map(|r| r.collection_name.clone()).collect();
            if rows.iter().any(|r| &r.database_name != d) || vers.iter().any(|v| &v.database_name != d) {
                prob.push(format!("{d} lists rows of another database"));
            }
            for c in u.c.union(&listed) {
                let rec = get!(repo.get_collection(d, c), "get_collection");
                if rec.is_some() != listed.contains(c) {
                    prob.push(format!("get_collection({d}, {c}) = {rec:?}, listed: {}", listed.contains(c)));
                }
                if listed.contains(c) {
                    colls.push(json!([d, c]));
                }
                if let Some(r) = rec {
                    if &r.name != c || ids.coll.get(&(d.clone(), c.clone())) != Some(&r.id) || ids.db.get(d) != Some(&r.database_id) {
                        prob.push(format!("get_collection({d}, {c}) = {r:?}"));
                    }
                }
                let here: Vec<&AllDatabaseColumnsResult> = rows.iter().filter(|r| &r.collection_name == c).collect();
                if here.len() > 1 && here.iter().any(|r| r.table_name.is_none()) {
                    prob.push(format!("{d}.{c} lists a row without a table beside tables"));
                }
                let names: BTreeSet<String> = here.iter().filter_map(|r| r.table_name.clone()).collect();
                for n in u.n.union(&names) {
                    let rec = get!(repo.get_table(d, c, n), "get_table");
                    if rec.is_some() != names.contains(n) {
                        prob.push(format!("get_table({d}, {c}, {n}) = {rec:?}, listed: {}", names.contains(n)));
                    }
                    if let Some(r) = &rec {
                        if &r.name != n || ids.coll.get(&(d.clone(), c.clone())) != Some(&r.collection_id) {
                            prob.push(format!("get_table({d}, {c}, {n}) = {r:?}"));
                        }
                    }
                    let cols: Vec<&&AllDatabaseColumnsResult> = here.iter().filter(|r| r.table_name.as_ref() == Some(n)).collect();
                    if cols.is_empty() {
                        continue;
                    }
                    let one = |f: &dyn Fn(&AllDatabaseColumnsResult) -> String| -> BTreeSet<String> { cols.iter().map(|r| f(r)).collect() };
                    let ident = one(&|r| format!("{:?} {:?} {:?}", r.table_id, r.table_uuid, r.table_version_id));
                    if ident.len() != 1 {
                        prob.push(format!("{d}.{c}.{n} is listed with several identities: {ident:?}"));
                    }
                    let uuid = cols[0].table_uuid;
                    let h = ids.tab.iter().find(|(_, (_, u))| Some(*u) == uuid).map(|(h, _)| h.clone());
                    let tid = h.as_ref().map(|h| ids.tab[h].0);
                    if tid != cols[0].table_id || rec.as_ref().map(|r| r.id) != cols[0].table_id {
                        prob.push(format!("{d}.{c}.{n}: id {:?}, {rec:?}, created as {tid:?}", cols[0].table_id));
                    }
                    let mut hist: Vec<(i64, i64, i64)> = vers
                        .iter()
                        .filter(|v| &v.collection_name == c && &v.table_name == n)
                        .map(|v| (v.table_version_id, v.version, v.creation_time))
                        .collect();
                    hist.sort();
                    if hist.last().map(|x| x.0) != cols[0].table_version_id {
                        prob.push(format!("{d}.{c}.{n} shows version {:?} of {hist:?}", cols[0].table_version_id));
                    }
                    if hist.windows(2).any(|w| w[0].0 == w[1].0) {
                        prob.push(format!("{d}.{c}.{n} lists a version twice: {hist:?}"));
                    }
                    let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64;
                    if hist.iter().any(|x| x.2 > now + 2 || x.2 < now - 2_000_000_000) || hist.windows(2).any(|w| w[0].2 > w[1].2) {
                        prob.push(format!("{d}.{c}.{n} has creation times {hist:?} at {now}"));
                    }
                    let mut got: Vec<(String, String)> =
                        cols.iter().filter_map(|r| Some((r.column_name.clone()?, r.column_type.clone().unwrap_or_default()))).collect();
                    got.sort();
                    let sch = SCHEMAS
                        .iter()
                        .find(|x| {
                            let s = schema(x);
                            let mut want: Vec<&str> = s.fields().iter().map(|f| f.name().as_str()).collect();
                            want.sort();
                            want.len() == got.len()
                                && got.iter().zip(want).all(|(g, w)| {
                                    g.0 == w
                                        && serde_json::from_str::<Field>(&g.1).map(|f| &f == s.field_with_name(w).unwrap()).unwrap_or(false)
                                })
                        })
                        .map(|x| x.to_string());
                    tabs.push(json!({"h": h.unwrap_or(format!("{uuid:?}")), "d": d, "c": c, "n": n,
                        "s": sch.unwrap_or(format!("{got:?}")), "vs": hist.iter().map(|x| x.1).collect::<Vec<_>>()}));
                }
            }
            // restricting the history to names
            let all: Vec<String> = u.n.iter().cloned().collect();
            let mut asks: Vec<Vec<String>> = all.iter().map(|n| vec![n.clone()]).collect();
            asks.push(all);
            asks.push(vec![]);
            if rec.is_some() {
                for a in asks {
                    let mut got = get!(repo.get_all_versions(d, Some(a.clone())), "get_all_versions").unwrap_or_default();
                    let mut want: Vec<_> = vers.iter().filter(|v| a.is_empty() || a.contains(&v.table_name)).collect();
                    got.sort_by_key(|v| v.table_version_id);
                    want.sort_by_key(|v| v.table_version_id);
                    if got.iter().collect::<Vec<_>>() != want {
                        prob.push(format!("get_all_versions({d}, {a:?}) = {got:?}, without restriction {vers:?}"));
                    }
                }
            }
        }
        if dbs.is_empty() {
            for (t, n) in leftovers(repo).await {
                prob.push(format!("no database exists but {t} holds {n} rows"));
            }
        }
        let mut v = json!({"dbSet": dbs, "collSet": colls, "tabSet": tabs, "fnSet": fns});
        if !prob.is_empty() {
            v["probSet"] = json!(prob);
        }
        v
    }
}

/// Rows in any table of the store
async fn leftovers(repo: &SqliteRepository) -> Vec<(String, i64)> {
    let mut out = vec![];
    let names: Vec<String> = sqlx::query(
        "SELECT name FROM sqlite_master WHERE type = 'table' AND name NOT LIKE 'sqlite%' AND name NOT LIKE '%migrations%' AND name <> 'dropped_table'",
    )
    .fetch_all(&repo.executor)
    .await
    .map(|r| r.iter().map(|x| x.get::<String, _>(0)).collect())
    .unwrap_or_default();
    for n in names {
        let c: i64 = sqlx::query(&format!("SELECT count(*) FROM \"{n}\""))
            .fetch_one(&repo.executor)
            .await
            .map(|r| r.get(0))
            .unwrap_or(0);
        if c > 0 {
            out.push((n, c));
        }
    }
    out
}

#[derive(Debug, Clone)]
pub enum Done {
    Db(String, i64),
    Coll(String, String, i64),
    Tab(String, i64, Uuid, i64),
    Ver(String, i64),
    Fun(String, String, i64),
    Count(u64),
    Unit,
}

#[async_trait(?Send)]
impl Sys for Cat {
    async fn reset(&mut self) {
        if let Some(r) = self.repo.take() {
            r.executor.close().await;
        }
        self.ids = Ids::default();
        self.repo = Some(Arc::new(match &self.faults {
            None => SqliteRepository::try_new("sqlite::memory:".into(), SqliteJournalMode::Wal).await.expect("harness: open"),
            Some(f) => {
                f.kill_at.store(-1, Ordering::SeqCst);
                faulty_repo("sqlite::memory:", SqliteJournalMode::Wal, f.clone()).await
            }
        }));
    }
    async fn apply(&mut self, op: &Value) -> Value {
        let u = self.fresh_uuid();
        let repo = self.r();
        let (res, done) = Self::guarded(&repo, &self.ids, op, u).await;
        match self.learn(done) {
            Some(p) => json!(p),
            None => json!(res),
        }
    }
    async fn project(&mut self) -> Value {
        let repo = self.r();
        let v = Self::show(&repo, &self.ids, &self.u).await;
        self.forget(&v);
        v
    }
    /// Time passes: everything recorded so far gets older
    async fn noise(&mut self, rng: &mut Rng) {
        if self.age && rng.below(6) == 0 {
            let _ = sqlx::query("UPDATE table_version SET creation_time = creation_time - 1000").execute(&self.r().executor).await;
        }
    }
    async fn first(&mut self, g: &Graph, edge: usize, rng: &mut Rng) -> Result<(Value, usize), Value> {
        let e = &g.edges[edge];
        let Some(f) = self.faults.clone() else { return Ok((self.apply(&e.op).await, 0)) };
        let before = &g.states[e.from];
        let kind = s(&e.op, "op").to_string();
        // fail at the k-th changed row, and at sampled (or all) points where a statement is prepared
        let mut plan: Vec<(&str, i64)> = vec![];
        if e.from != e.to {
            plan.extend((1..=self.row_done.get(&kind).copied().unwrap_or(60)).map(|k| ("row", k)));
        }
        let span = self.span.get(&kind).copied().unwrap_or(60);
        if (span as usize) <= self.samples {
            plan.extend((1..=span).map(|k| ("prepare", k)));
        } else {
            plan.extend((0..self.samples).map(|_| ("prepare", 1 + rng.below(span as usize) as i64)));
        }
        let mut n = 0;
        for (how, k) in plan {
            for a in [&f.fired, &f.rows, &f.preps] {
                a.store(0, Ordering::SeqCst);
            }
            let arm = if how == "row" { &f.row_at } else { &f.prep_at };
            let u = self.fresh_uuid();
            let repo = self.r();
            arm.store(k, Ordering::SeqCst);
            let (res, done) = Self::guarded(&repo, &self.ids, &e.op, u).await;
            if how == "row" {
                // The fault lasts until the connection is idle: sqlx's worker may be executing the failed statement
                // once more at this moment
                let _ = sqlx::query("SELECT 1").execute(&repo.executor).await;
            }
            arm.store(0, Ordering::SeqCst);
            let fired = f.fired.load(Ordering::SeqCst) > 0;
            if !fired {
                let m = self.span.entry(kind.clone()).or_insert(1);
                *m = (*m).max(f.preps.load(Ordering::SeqCst));
                if how == "row" && res.starts_with("ok") {
                    let m = self.row_done.entry(kind.clone()).or_insert(1);
                    *m = (*m).max(f.rows.load(Ordering::SeqCst) + 1);
                }
            } else {
                n += 1;
            }
            // Either the fault was not met, or it hit something the operation could do without: then what is reported
            // must be the result, in full
            if !fired || res.starts_with("ok") {
                let p = self.learn(done);
                return Ok((p.map(|p| json!(p)).unwrap_or(json!(res)), n));
            }
            let st = canon(&self.project().await);
            if res.starts_with("panic") || st != *before {
                return Err(json!({"what": format!("state after {kind} failed ({how} fault {k}, reported {res:?})"),
                    "expected": before, "actual": st, "fault": {"how": how, "k": k}}));
            }
        }
        Ok((self.apply(&e.op).await, n))
    }
}

pub fn tour(cfg: &Value) -> Value {
    let g = Arc::new(Graph::load(s(cfg, "graph")));
    let u = Universe::of(g.edges.iter().map(|e| &e.op));
    let faults = cfg["faults"].as_bool().unwrap_or(false);
    let samples = cfg["samples"].as_u64().unwrap_or(8) as usize;
    let mut r = crate::v_graph::tour(g.clone(), TourOpts::from(cfg), move || {
        let mut c = Cat::new(u.clone());
        if faults {
            c.faults = Some(Arc::new(Faults::default()));
            c.samples = samples;
        }
        c
    });
    crate::v_graph::report(&g, &mut r)
}

pub fn replay(cfg: &Value) -> Value {
    let hist = cfg["history"].as_array().expect("history").clone();
    let u = Universe::of(hist.iter().map(|e| &e["o"]));
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    rt.block_on(async {
        let mut c = Cat::new(u);
        c.reset().await;
        let mut out = vec![];
        for e in &hist {
            let r = c.apply(&e["o"]).await;
            let p = canon(&c.project().await);
            let ok = r == e["r"] && p == canon(&e["t"]);
            out.push(json!({"o": e["o"], "expected": e["r"], "actual": r, "ok": ok}));
            if !ok {
                out.push(json!({"expected": e["t"], "actual": p}));
                break;
            }
        }
        json!(out)
    })
}

/// A long random history over many names, recorded for CatalogTrace.tla
pub fn random(cfg: &Value) -> Value {
    use std::io::Write;
    let mut rng = Rng::new(cfg["seed"].as_u64().unwrap_or(1));
    let len = cfg["len"].as_u64().unwrap_or(400) as usize;
    let n = |k: &str, d: u64| cfg[k].as_u64().unwrap_or(d) as usize;
    let (nd, nc, nt, nf) = (n("dbs", 3), n("colls", 3), n("names", 4), n("fns", 4));
    // names that differ in ways a store might confuse
    let style = |p: &str, i: usize| match i {
        0 => p.to_string(),
        1 => p.to_uppercase(),
        2 => format!("{p}%_'\""),
        3 => format!("{p} "),
        i => format!("{p}{i}ü"),
    };
    let d: Vec<String> = (0..nd).map(|i| style("db", i)).collect();
    let c: Vec<String> = (0..nc).map(|i| style("public", i)).collect();
    let t: Vec<String> = (0..nt).map(|i| style("table", i)).collect();
    let fs: Vec<String> = (0..nf).map(|i| style("fun", i)).collect();
    let mut u = Universe::default();
    u.d.extend(d.iter().cloned());
    u.c.extend(c.iter().cloned());
    u.n.extend(t.iter().cloned());
    let mut out = std::io::BufWriter::new(std::fs::File::create(s(cfg, "trace")).expect("harness: trace"));
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let mut kinds: std::collections::BTreeMap<String, usize> = Default::default();
    rt.block_on(async {
        let mut cat = Cat::new(u);
        cat.reset().await;
        let mut handles = 0;
        let mut known: Vec<String> = vec![];
        for _ in 0..len {
            let p = |rng: &mut Rng, v: &Vec<String>| v[rng.below(v.len())].clone();
            let live: Vec<String> = cat.ids.tab.keys().cloned().collect::<BTreeSet<_>>().into_iter().collect();
            let h = if live.is_empty() || rng.below(20) == 0 { "?".to_string() } else { p(&mut rng, &live) };
            // schemas that exist, mostly
            let colls: Vec<(String, String)> = cat.ids.coll.keys().cloned().collect::<BTreeSet<_>>().into_iter().collect();
            let (cd, cc) =
                if colls.is_empty() || rng.below(20) == 0 { ("?".into(), "?".into()) } else { colls[rng.below(colls.len())].clone() };
            let dbs: Vec<String> = cat.ids.db.keys().cloned().collect::<BTreeSet<_>>().into_iter().collect();
            let dd = if dbs.is_empty() || rng.below(20) == 0 { "?".to_string() } else { p(&mut rng, &dbs) };
            let op = match rng.below(100) {
                0..=7 => json!({"op": "create_database", "d": p(&mut rng, &d)}),
                8..=17 => json!({"op": "create_collection", "d": dd, "c": p(&mut rng, &c)}),
                18..=39 => {
                    handles += 1;
                    json!({"op": "create_table", "d": cd, "c": cc, "n": p(&mut rng, &t), "h": format!("h{handles}"),
                           "s": SCHEMA_CHOICES[rng.below(5)]})
                }
                40..=54 => json!({"op": "create_new_version", "h": h, "v": rng.below(6)}),
                55..=61 => json!({"op": "delete_old_versions", "h": h}),
                62..=74 => {
                    let stay = rng.below(2) == 0;
                    json!({"op": "rename_table", "h": h, "n": p(&mut rng, &t), "stay": stay,
                           "d": if stay { "?".into() } else { cd }, "c": if stay { "?".into() } else { cc }})
                }
                75..=78 => json!({"op": "delete_table", "h": h}),
                79..=80 => json!({"op": "delete_collection", "d": cd, "c": cc}),
                81 => json!({"op": "delete_database", "d": dd}),
                82..=93 => json!({"op": "create_function", "d": dd, "f": p(&mut rng, &fs), "repl": rng.below(2) == 0,
                                  "det": DETAILS[rng.below(3)]}),
                _ => {
                    let k = 1 + rng.below(3);
                    json!({"op": "drop_function", "d": dd, "fs": (0..k).map(|_| p(&mut rng, &fs)).collect::<Vec<_>>()})
                }
            };
            let _busy = busy(&op);
            cat.noise(&mut rng).await;
            let r = cat.apply(&op).await;
            let v = canon(&cat.project().await);
            *kinds.entry(format!("{}:{}", s(&op, "op"), r.as_str().unwrap().split(':').next().unwrap())).or_default() += 1;
            writeln!(out, "{}", json!({"o": op, "r": r, "t": v})).unwrap();
            known = live;
        }
        let _ = known;
    });
    out.flush().unwrap();
    json!({"events": len, "kinds": kinds})
}
