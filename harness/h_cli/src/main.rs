// Drives the real command line (src/cli) with typed lines and compares what it does with Cli.tla
#![feature(let_chains)]
#![allow(dead_code)]
#[path = "/repo/src/cli/mod.rs"]
pub mod cli;
pub mod context;
#[path = "../../h_core/src/v_cases.rs"]
mod v_cases;
#[path = "../../h_core/src/v_util.rs"]
mod v_util;

use serde_json::{json, Value};
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::Arc;
use std::time::{Duration, Instant};
use v_util::*;

/// The child: the real command loop, typed lines on standard input
fn session() {
    let ctx = Arc::new(context::SeafowlContext { default_catalog: "default".into() });
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let r = rt.block_on(cli::SeafowlCli::new(ctx).command_loop());
    if let Err(e) = r {
        println!("@@{}", json!({"act": "broken", "what": e.to_string()}));
    }
}
fn run_case(dir: &std::path::Path, c: &Value) -> v_cases::Verdict {
    let mut input: String = c["typed"].as_array().unwrap().iter().map(|l| format!("{}\n", l.as_str().unwrap())).collect();
    if c["open"] == json!(false) {
        input.push_str("never;\n");
    }
    let mut ends = [0i32; 2];
    if unsafe { libc::pipe2(ends.as_mut_ptr(), libc::O_CLOEXEC) } != 0 {
        panic!("harness: pipe")
    }
    use std::os::fd::FromRawFd;
    let (mut from, to) = unsafe { (std::fs::File::from_raw_fd(ends[0]), std::fs::File::from_raw_fd(ends[1])) };
    let mut child = {
        let to2 = to.try_clone().expect("harness: dup");
        Command::new(std::env::current_exe().unwrap())
            .arg("session")
            .current_dir(dir)
            .env("TERM", "xterm")
            .stdin(Stdio::piped())
            .stdout(to)
            .stderr(to2)
            .spawn()
            .expect("harness: spawn")
    };
    let mut stdin = child.stdin.take().unwrap();
    let _ = stdin.write_all(input.as_bytes());
    drop(stdin);
    let reader = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = from.read_to_end(&mut b);
        String::from_utf8_lossy(&b).to_string()
    });
    let t = Instant::now();
    let ended = loop {
        match child.try_wait().expect("harness: wait") {
            Some(st) => break st.success(),
            None if t.elapsed() > Duration::from_secs(20) => {
                child.kill().ok();
                child.wait().ok();
                break false;
            }
            None => std::thread::sleep(Duration::from_millis(1)),
        }
    };
    let out = reader.join().unwrap();
    let bad = |what: &str, x: Value| Err(json!({"what": what, "actual": x, "output": out}));
    if !ended {
        return bad("the command line does not end with its input", json!(null));
    }
    let mut did: Vec<Value> = vec![];
    let mut shown: Vec<String> = vec![];
    for l in out.lines() {
        if let Some(i) = l.find("@@") {
            did.push(serde_json::from_str(&l[i + 2..]).unwrap_or_else(|_| panic!("harness: {l}")));
        } else if l.contains("is not a valid command") {
            did.push(json!({"act": "unknown", "what": ""}));
        } else if l.contains("@!failed") {
            did.push(json!({"act": "error", "what": ""}));
        } else if l.contains("describe table") {
            did.push(json!({"act": "help", "what": ""}));
        } else if let (Some(a), Some(b)) = (l.find("@="), l.rfind("=@")) {
            let x = l[a + 2..b].to_string();
            let last = did.iter().rev().find(|d| s(d, "act") == "run");
            if last.map(|d| s(d, "what") != x).unwrap_or(true) {
                return bad("a result is shown that no statement has given", json!(x));
            }
            shown.push(x);
        }
    }
    // quitting shows only in that nothing follows
    let want: Vec<Value> = c["did"].as_array().unwrap().iter().filter(|a| s(a, "act") != "quit").cloned().collect();
    if did != want {
        return bad("what the command line does", json!(did));
    }
    let results: Vec<&str> = want.iter().filter(|a| s(a, "act") == "run").map(|a| s(a, "what")).filter(|x| *x != "badrun" && *x != "nothing").collect();
    if shown != results {
        return bad("the results shown", json!(shown));
    }
    Ok(1)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|x| x.as_str()) == Some("session") {
        return session();
    }
    let cfg: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("config file")).expect("config json");
    quiet_panics();
    let out = match args[1].as_str() {
        "cli" => v_cases::run(v_cases::load(s(&cfg, "graph")), 8, v_cases::known(&cfg), scratch, |d, c| run_case(d.path(), c)),
        x => {
            eprintln!("unknown subcommand {x}");
            std::process::exit(2)
        }
    };
    println!("RESULT {out}");
}
