//! Rows written to data files (DataFiles.tla)
use crate::{v_cases, v_sys};
use crate::v_util::*;
use arrow::array::{Array, ArrayRef, Int64Array, RecordBatch, StringArray};
use arrow_schema::{DataType, Field, Schema};
use async_trait::async_trait;
use datafusion::physical_plan::memory::MemoryExec;
use datafusion::physical_plan::ExecutionPlan;
use futures::stream::BoxStream;
use futures::TryStreamExt;
use object_store::memory::InMemory;
use object_store::path::Path;
use object_store::{Error, GetOptions, GetResult, ListResult, MultipartUpload, ObjectMeta, ObjectStore, PutMultipartOpts, PutOptions, PutPayload, PutResult, Result as OResult, UploadPart};
use seafowl::context::delta::plan_to_delta_adds;
use serde_json::{json, Value};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::sync::Arc;

/// Requests of an upload, of which the n-th fails
#[derive(Debug, Default)]
struct Turns {
    left: AtomicI64,
    hit: AtomicI64,
}
impl Turns {
    fn turn(&self) -> OResult<()> {
        if self.left.fetch_sub(1, Ordering::SeqCst) == 1 {
            self.hit.store(1, Ordering::SeqCst);
            return Err(Error::Generic { store: "failing", source: "out of order".into() });
        }
        Ok(())
    }
}
#[derive(Debug)]
struct Failing {
    inner: Arc<InMemory>,
    turns: Arc<Turns>,
}
impl std::fmt::Display for Failing {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "failing")
    }
}
#[derive(Debug)]
struct Upload {
    inner: Box<dyn MultipartUpload>,
    turns: Arc<Turns>,
}
#[async_trait]
impl MultipartUpload for Upload {
    fn put_part(&mut self, data: PutPayload) -> UploadPart {
        if let Err(e) = self.turns.turn() {
            return Box::pin(async { Err(e) });
        }
        self.inner.put_part(data)
    }
    async fn complete(&mut self) -> OResult<PutResult> {
        self.turns.turn()?;
        self.inner.complete().await
    }
    async fn abort(&mut self) -> OResult<()> {
        self.inner.abort().await
    }
}
#[async_trait]
impl ObjectStore for Failing {
    async fn put_opts(&self, l: &Path, p: PutPayload, o: PutOptions) -> OResult<PutResult> {
        self.turns.turn()?;
        self.inner.put_opts(l, p, o).await
    }
    async fn put_multipart_opts(&self, l: &Path, o: PutMultipartOpts) -> OResult<Box<dyn MultipartUpload>> {
        self.turns.turn()?;
        Ok(Box::new(Upload { inner: self.inner.put_multipart_opts(l, o).await?, turns: self.turns.clone() }))
    }
    async fn get_opts(&self, l: &Path, o: GetOptions) -> OResult<GetResult> {
        self.inner.get_opts(l, o).await
    }
    async fn delete(&self, l: &Path) -> OResult<()> {
        self.inner.delete(l).await
    }
    fn list(&self, p: Option<&Path>) -> BoxStream<'_, OResult<ObjectMeta>> {
        self.inner.list(p)
    }
    async fn list_with_delimiter(&self, p: Option<&Path>) -> OResult<ListResult> {
        self.inner.list_with_delimiter(p).await
    }
    async fn copy(&self, a: &Path, b: &Path) -> OResult<()> {
        self.inner.copy(a, b).await
    }
    async fn copy_if_not_exists(&self, a: &Path, b: &Path) -> OResult<()> {
        self.inner.copy_if_not_exists(a, b).await
    }
}

/// 3 MB that don't compress well
fn big(i: usize) -> String {
    let mut x = 88172645463325252u64.wrapping_add(i as u64 * 7919);
    let mut bytes = Vec::with_capacity(4 << 20);
    while bytes.len() < 4 << 20 {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        for k in 0..8 {
            bytes.push(b' ' + (x >> (8 * k)) as u8 % 94);
        }
    }
    String::from_utf8(bytes).unwrap()
}
fn text(kind: &str, i: usize) -> Option<String> {
    match kind {
        "s" => Some(format!("row {i}")),
        "n" => None,
        "e" => Some(String::new()),
        _ => Some(big(i)),
    }
}

pub fn run(cfg: &Value) -> Value {
    let turn = AtomicU64::new(0);
    let make = || {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let ctx = rt.block_on(v_sys::start(&v_sys::memory_config(2, "")));
        (rt, ctx)
    };
    v_cases::run(v_cases::load(s(cfg, "graph")), 8, v_cases::known(cfg), make, move |(rt, ctx), c| {
        let n = turn.fetch_add(1, Ordering::SeqCst);
        let kinds: Vec<&str> = c["rows"].as_array().unwrap().iter().map(|k| k.as_str().unwrap()).collect();
        let texts: Vec<Option<String>> = kinds.iter().enumerate().map(|(i, k)| text(k, i)).collect();
        let (limit, fault, most) = (c["limit"].as_u64().unwrap() as u32, c["fault"].as_i64().unwrap(), c["most"].as_u64().unwrap() as usize);
        let schema = Arc::new(Schema::new(vec![Field::new("i", DataType::Int64, true), Field::new("Text", DataType::Utf8, true)]));
        let (mut parts, mut at): (Vec<Vec<RecordBatch>>, usize) = (vec![vec![]], 0);
        for p in c["plan"].as_array().unwrap() {
            let k = p.as_u64().unwrap() as usize;
            if k == 100 {
                parts.push(vec![]);
                continue;
            }
            // some of them are slices of others
            let (from, to) = if n % 2 == 0 { (at, at + k) } else { (0, texts.len()) };
            let cols: Vec<ArrayRef> = vec![
                Arc::new(Int64Array::from_iter((from..to).map(|i| (kinds[i] != "n").then_some(i as i64)))),
                Arc::new(StringArray::from_iter(texts[from..to].iter().map(|t| t.as_deref()))),
            ];
            parts.last_mut().unwrap().push(RecordBatch::try_new(schema.clone(), cols).unwrap().slice(at - from, k));
            at += k;
        }
        let plan: Arc<dyn ExecutionPlan> = Arc::new(MemoryExec::try_new(&parts, schema.clone(), None).expect("harness: plan"));
        let mem = Arc::new(InMemory::new());
        let turns = Arc::new(Turns::default());
        turns.left.store(fault, Ordering::SeqCst);
        let dir = tempfile::tempdir().expect("harness: directory");
        let local = (c["store"] == json!("dir")).then(|| dir.path().to_str().unwrap().to_string());
        let store: Arc<dyn ObjectStore> = Arc::new(Failing { inner: mem.clone(), turns: turns.clone() });
        let bad = |what: &str, x: Value| Err(json!({"what": what, "actual": x}));
        rt.block_on(async {
            let r = plan_to_delta_adds(&ctx.inner().state(), &plan, store, local.clone(), limit).await;
            let hit = turns.hit.load(Ordering::SeqCst) == 1;
            let adds = match r {
                Err(_) if hit => return Ok(1),
                Err(e) => return bad("rows are written", json!(e.to_string())),
                Ok(_) if hit => return bad("a failing upload is told", json!("success")),
                Ok(adds) => adds,
            };
            let read: Arc<dyn ObjectStore> = match &local {
                Some(_) => Arc::new(object_store::local::LocalFileSystem::new_with_prefix(dir.path()).unwrap()),
                None => mem,
            };
            let there: Vec<ObjectMeta> = read.list(None).try_collect().await.expect("harness: list");
            if there.len() != adds.len() || adds.len() > most {
                return bad("each file of rows is told, once, and no more of them are needed than rows demand", json!([there.len(), adds.len(), most]));
            }
            let (mut ids, mut nulls) = (vec![], 0usize);
            for add in &adds {
                let Some(meta) = there.iter().find(|m| m.location.as_ref() == add.path) else {
                    return bad("the files told are there", json!(add.path));
                };
                if add.size as usize != meta.size {
                    return bad("the size of a file is told", json!([add.size, meta.size]));
                }
                let bytes = read.get(&meta.location).await.expect("harness: get").bytes().await.expect("harness: bytes");
                let batches = match parquet::arrow::arrow_reader::ParquetRecordBatchReaderBuilder::try_new(bytes).and_then(|b| b.build()) {
                    Ok(r) => r,
                    Err(e) => return bad("a file can be read", json!(e.to_string())),
                };
                let mut rows = 0;
                for b in batches {
                    let b = match b {
                        Ok(b) => b,
                        Err(e) => return bad("a file can be read", json!(e.to_string())),
                    };
                    rows += b.num_rows();
                    let i = b.column(0).as_any().downcast_ref::<Int64Array>().unwrap();
                    let t = b.column(1).as_any().downcast_ref::<StringArray>().unwrap();
                    for r in 0..b.num_rows() {
                        if i.is_null(r) != t.is_null(r) || (!i.is_null(r) && texts[i.value(r) as usize].as_deref() != Some(t.value(r))) {
                            return bad("rows are written as they are", json!([i.is_null(r), t.is_null(r)]));
                        }
                        if i.is_null(r) { nulls += 1 } else { ids.push(i.value(r) as usize) }
                    }
                }
                if rows > limit as usize {
                    return bad("a file has at most so many rows", json!([rows, limit]));
                }
                let stats: Value = serde_json::from_str(add.stats.as_deref().unwrap_or("{}")).unwrap_or_default();
                if stats["numRecords"] != json!(rows) {
                    return bad("what is told of a file is about it", json!([stats, rows]));
                }
            }
            ids.sort();
            let want: Vec<usize> = (0..kinds.len()).filter(|i| kinds[*i] != "n").collect();
            if ids != want || nulls != kinds.len() - want.len() {
                return bad("all rows are written, once", json!([ids, nulls]));
            }
            // nothing else is left behind
            if let Some(d) = &local {
                let n = std::fs::read_dir(d).expect("harness: dir").count();
                if n != adds.len() {
                    return bad("no other files are left in the directory", json!([n, adds.len()]));
                }
            }
            Ok(1)
        })
    })
}
