// The whole server, driven through behaviours of the TLA+ specifications
#![feature(let_chains)]
#![allow(dead_code)]
#[path = "../../h_core/src/v_cases.rs"]
mod v_cases;
#[path = "../../h_core/src/v_graph.rs"]
mod v_graph;
mod v_convert;
mod v_defs;
mod v_flight;
mod v_files;
mod v_fn;
mod v_gc;
mod v_ranges;
mod v_replica;
mod v_schemas;
mod v_server;
mod v_sync;
mod v_sys;
mod v_tables;
mod v_uploads;
#[path = "../../h_core/src/v_util.rs"]
mod v_util;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cfg: serde_json::Value = match args.get(2) {
        Some(p) if args[1] != "sql" => serde_json::from_str(&std::fs::read_to_string(p).expect("config file")).expect("config json"),
        _ => serde_json::json!({}),
    };
    v_util::quiet_panics();
    let out = match args.get(1).map(|s| s.as_str()) {
        Some("sql") => return sql(),
        Some("tables-tour") => v_tables::tour(&cfg),
        Some("functions-tour") => v_fn::tour(&cfg),
        Some("definitions") => v_defs::run(&cfg),
        Some("flight-tour") => v_flight::tour(&cfg),
        Some("gc-tour") => v_gc::tour(&cfg),
        Some("sync-tour") => v_sync::rows_tour(&cfg),
        Some("sync-replay") => v_sync::replay(&cfg),
        Some("convert-tour") => v_convert::tour(&cfg),
        Some("uploads-tour") => v_uploads::tour(&cfg),
        Some("schemas-tour") => v_schemas::tour(&cfg),
        Some("data-files") => v_files::run(&cfg),
        Some("sync-histories") => v_replica::histories(&cfg),
        Some("sync-random") => v_replica::random(&cfg),
        Some("sync-schemas") => v_sync::schemas(&cfg),
        Some("ranges-tour") => v_ranges::tour(&cfg),
        Some("ranges-random") => v_ranges::random(&cfg),
        Some("server-tour") => v_server::tour(&cfg),
        Some("tables-random") => v_tables::random(&cfg),
        _ => panic!("harness: what?"),
    };
    println!("RESULT {out}");
}

/// Lines of statements from standard input, for looking around
fn sql() {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    rt.block_on(async {
        let ctx = v_sys::start(&v_sys::memory_config(2, "")).await;
        for l in std::io::stdin().lines() {
            let l = l.unwrap();
            if l.trim().is_empty() { continue; }
            let t = std::time::Instant::now();
            let r = v_sys::run(&ctx, &l).await.map(|b| v_sys::rows(&b)).map_err(|e| e.split("\n\nbacktrace").next().unwrap().chars().take(200).collect::<String>());
            println!("{l}\n   {r:?}  {:?}", t.elapsed());
        }
    })
}
