//! A running Seafowl: the context the server builds from a configuration, over objects in memory or in a scratch folder
use arrow::array::RecordBatch;
use arrow::util::display::{ArrayFormatter, FormatOptions};
use seafowl::config::context::build_context;
use seafowl::config::schema::{load_config_from_string, SeafowlConfig};
use seafowl::context::SeafowlContext;
use futures::FutureExt;
use std::panic::AssertUnwindSafe;
use std::sync::Arc;

pub fn config(text: &str) -> SeafowlConfig {
    load_config_from_string(text, true, None).unwrap_or_else(|e| panic!("harness: configuration: {e}"))
}

pub fn memory_config(partition: usize, more: &str) -> String {
    format!(
        "[object_store]\ntype = \"memory\"\n[catalog]\ntype = \"sqlite\"\ndsn = \":memory:\"\n[frontend.http]\nread_access = \"any\"\nwrite_access = \"any\"\n[misc]\nmax_partition_size = {partition}\n{more}\n"
    )
}

pub fn local_config(dir: &std::path::Path, partition: usize, more: &str) -> String {
    let d = dir.to_str().unwrap();
    format!(
        "[object_store]\ntype = \"local\"\ndata_dir = \"{d}\"\n[catalog]\ntype = \"sqlite\"\ndsn = \"{d}/catalog.sqlite\"\n[frontend.http]\nread_access = \"any\"\nwrite_access = \"any\"\n[misc]\nmax_partition_size = {partition}\n{more}\n"
    )
}

pub async fn start(text: &str) -> Arc<SeafowlContext> {
    Arc::new(build_context(config(text)).await.unwrap_or_else(|e| panic!("harness: context: {e}")))
}

pub fn short(e: &str) -> String {
    e.split("\n\nbacktrace").next().unwrap().to_string()
}

/// Panics as errors
pub async fn guard<T>(f: impl std::future::Future<Output = T>) -> Result<T, String> {
    AssertUnwindSafe(f).catch_unwind().await.map_err(|p| format!("PANIC {}", crate::v_util::panic_text(p)))
}

/// One statement, planned and run the way the frontends do
pub async fn run(ctx: &SeafowlContext, sql: &str) -> Result<Vec<RecordBatch>, String> {
    let go = async {
        let p = ctx.plan_query(sql).await.map_err(|e| short(&e.to_string()))?;
        ctx.collect(p).await.map_err(|e| short(&e.to_string()))
    };
    guard(go).await.unwrap_or_else(Err)
}

/// Rows as text, "~" for NULL
pub fn rows(b: &[RecordBatch]) -> Vec<Vec<String>> {
    let o = FormatOptions::default().with_null("~");
    let mut r = vec![];
    for b in b {
        let f: Vec<_> = b.columns().iter().map(|c| ArrayFormatter::try_new(c, &o).unwrap()).collect();
        for i in 0..b.num_rows() {
            r.push(f.iter().map(|f| f.value(i).to_string()).collect());
        }
    }
    r
}
