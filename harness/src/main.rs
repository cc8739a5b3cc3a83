//! Conformance harness: executes scenarios against the real chopper code and
//! records what was observed, one JSON line per scenario. It judges nothing;
//! the TLA+ trace specifications do.
//!
//! usage: conformance run SCENARIOS.ndjson OUT.ndjson FIRST_LINE
mod bufreader;
mod cli;
mod csvout;
mod csvin;
mod dest;
mod dcformat;
mod detect;
mod http;
mod inject;
mod log;
mod multifile;
mod obs;
mod pack;
mod pipeline;
mod stream;
mod val;

use serde_json::{json, Value};
use std::fs::{File, OpenOptions};
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[global_allocator]
static ALLOCATOR: stream::Counting = stream::Counting;

/// an empty directory of this process, below the working directory
pub fn scratch(name: &str) -> std::path::PathBuf {
    let p = std::env::current_dir()
        .unwrap()
        .join(format!("{}-{}", name, std::process::id()));
    let _ = std::fs::remove_dir_all(&p);
    std::fs::create_dir_all(&p).unwrap();
    p
}

/// something at the place where an output is going to be
pub fn older(sc: &Value, path: &str) {
    let n = sc["old"].as_u64().unwrap_or(0) as usize;
    if n > 0 {
        std::fs::write(path, vec![b'x'; n]).unwrap();
    }
}

fn run_one(sc: &Value) -> Value {
    match sc["op"].as_str().unwrap() {
        "pipeline" => pipeline::run(sc),
        "multi" => multifile::run(sc),
        "buf" => bufreader::run(sc),
        "csv" => csvin::run(sc),
        "range" => csvin::range(sc),
        "csvout" => csvout::run(sc),
        "dest" => dest::run(sc),
        "pack" => pack::run(sc),
        "detect" => detect::run(sc),
        "cli" => cli::run(sc),
        "http" => http::run(sc),
        "stream" => stream::run(sc),
        "dcw" => dcformat::write(sc),
        "dcr" => dcformat::read(sc),
        op => panic!("HARNESS: unknown op {}", op),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 3 && args[1] == "stdin" {
        // one scenario, on this process' standard input
        let sc: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
        std::panic::set_hook(Box::new(|info| {
            log::set_panic(info.to_string());
        }));
        log::reset();
        detect::inner(&sc, &[None]);
        println!("{}", Value::from(log::take()));
        return;
    }
    if args.len() != 5 || args[1] != "run" {
        eprintln!("usage: conformance run SCENARIOS OUT FIRST");
        std::process::exit(3);
    }
    std::panic::set_hook(Box::new(|info| {
        log::set_panic(info.to_string());
    }));
    log::set_beat(format!("{}.beat", args[3]));
    let first: usize = args[4].parse().unwrap();
    let scenarios = BufReader::new(File::open(&args[2]).unwrap());
    let mut out = OpenOptions::new()
        .create(true)
        .append(true)
        .open(&args[3])
        .unwrap();
    for line in scenarios.lines().skip(first) {
        let sc: Value = serde_json::from_str(&line.unwrap()).unwrap();
        log::reset();
        inject::set(&sc);
        let res = catch_unwind(AssertUnwindSafe(|| run_one(&sc)));
        let obs = match res {
            Ok(v) => v,
            Err(_) => {
                let msg = log::take_panic();
                if msg.contains("HARNESS") {
                    eprintln!("harness error: {} in {}", msg, sc);
                    std::process::exit(3);
                }
                log::push(json!({"e": "end", "r": "panic", "id": "", "msg": msg}));
                Value::Null
            }
        };
        let rec = match obs {
            Value::Null => json!({ "ev": log::take() }),
            v => v,
        };
        // one write per line, so that a killed run leaves only complete lines or one partial one
        let mut s = serde_json::to_string(&rec).unwrap();
        s.push('\n');
        out.write_all(s.as_bytes()).unwrap();
    }
}
