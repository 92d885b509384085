//! Conformance executor: runs cases against the real ruplicity crate and records what it
//! observed, as one JSON object per line.  It contains no oracle: every expectation comes from the
//! TLA+ specification (either a case carries what TLC computed, or TLC validates the recording).
//!
//! usage: rupconf CASES.ndjson OUT.ndjson     (appends to OUT, flushing after each case)

mod backend;
mod clock;
mod dump;
mod session;

use serde_json::{json, Value};
use std::fs::{File, OpenOptions};
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn run(case: &Value) -> Value {
    match case["op"].as_str().unwrap_or("") {
        "collections" => session::collections(case),
        "session" => session::session(case),
        "manifest" => session::manifest(case),
        "time" => session::time(case),
        "local" => session::local(case),
        "etype" => session::etype(case),
        op => panic!("harness: unknown op {}", op),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let input = BufReader::new(File::open(&args[1]).expect("cases"));
    let mut out = OpenOptions::new().create(true).append(true).open(&args[2]).expect("out");
    std::panic::set_hook(Box::new(|_| {}));
    for line in input.lines() {
        let line = line.expect("read");
        if line.is_empty() {
            continue;
        }
        let case: Value = serde_json::from_str(&line).expect("case json");
        clock::set(case["now"].as_str().map(|s| s.parse().unwrap()));
        let res = match catch_unwind(AssertUnwindSafe(|| run(&case))) {
            Ok(v) => json!({"id": case["id"], "r": v}),
            Err(e) => json!({"id": case["id"], "panic": panic_msg(&e)}),
        };
        let mut s = serde_json::to_string(&res).unwrap();
        s.push('\n');
        out.write_all(s.as_bytes()).unwrap();
    }
}

pub fn panic_msg(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        (*s).to_owned()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_owned()
    }
}
