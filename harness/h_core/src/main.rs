// Conformance harness: drives the code in /repo/src through behaviours of the TLA+ specifications.
#![feature(let_chains)]
#![allow(dead_code, unused_imports)]

#[path = "/repo/src/datafusion/mod.rs"]
pub mod datafusion;
#[path = "/repo/src/nodes.rs"]
pub mod nodes;
#[path = "/repo/src/repository/mod.rs"]
pub mod repository;
#[path = "/repo/src/version.rs"]
pub mod version;
#[path = "/repo/src/wasm_udf/mod.rs"]
pub mod wasm_udf;
#[path = "/repo/src/memory_pool.rs"]
pub mod memory_pool;
#[path = "/repo/datafusion_remote_tables/src/filter_pushdown.rs"]
pub mod filter_pushdown;
pub mod frontend {
    #[path = "/repo/src/frontend/http_utils.rs"]
    pub mod http_utils;
}
pub mod object_store {
    #[path = "/repo/src/object_store/utils.rs"]
    pub mod utils;
}
pub mod stores {
    #[path = "/repo/object_store_factory/src/google.rs"]
    pub mod google;
    #[path = "/repo/object_store_factory/src/local.rs"]
    pub mod local;
    #[path = "/repo/object_store_factory/src/memory.rs"]
    pub mod memory;
}
pub mod catalog {
    include!(concat!(env!("OUT_DIR"), "/catalog_consts.rs"));
}
extern crate lazy_static;

mod v_cases;
mod v_catalog;
mod v_conc;
mod v_dropped;
mod v_filter;
mod v_graph;
mod v_memory;
mod v_http;
mod v_nodes;
mod v_sql;
mod v_store;
mod v_upload;
mod v_util;
mod v_wasm;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cfg: serde_json::Value = match args.get(2) {
        Some(p) => serde_json::from_str(&std::fs::read_to_string(p).expect("config file")).expect("config json"),
        None => serde_json::json!({}),
    };
    v_util::quiet_panics();
    let out = match args.get(1).map(|s| s.as_str()) {
        Some("catalog-tour") => v_catalog::tour(&cfg),
        Some("catalog-random") => v_catalog::random(&cfg),
        Some("catalog-free") => v_conc::free(&cfg),
        Some("catalog-concurrent") => v_conc::concurrent(&cfg),
        Some("catalog-durable") => v_conc::durable(&cfg),
        Some("catalog-child") => v_conc::child(&cfg),
        Some("dropped-tour") => v_dropped::tour(&cfg),
        Some("filters") => v_filter::filters(&cfg),
        Some("literals") => v_filter::literals(&cfg),
        Some("quoting") => v_filter::quoting(&cfg),
        Some("scripts") => v_sql::scripts(&cfg),
        Some("statements") => v_sql::statements(&cfg),
        Some("columns") => v_sql::columns(&cfg),
        Some("time-travel") => v_sql::time_travel(&cfg),
        Some("timestamps") => v_sql::timestamps(&cfg),
        Some("wasm-rows") => v_wasm::rows(&cfg),
        Some("wasm-values") => v_wasm::values(&cfg),
        Some("wasm-calls") => v_wasm::calls(&cfg),
        Some("memory-tour") => v_memory::tour(&cfg),
        Some("memory-report") => v_memory::report(&cfg),
        Some("upload-tour") => v_upload::tour(&cfg),
        Some("plan-nodes") => v_nodes::nodes(&cfg),
        Some("store-options") => v_store::options(&cfg),
        Some("store-config") => v_store::config(&cfg),
        Some("store-tour") => v_store::tour(&cfg),
        Some("http-errors") => v_http::errors(&cfg),
        Some("catalog-replay") => v_catalog::replay(&cfg),
        other => {
            eprintln!("unknown subcommand {other:?}");
            std::process::exit(2)
        }
    };
    println!("RESULT {out}");
}
