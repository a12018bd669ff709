//! Conformance driver: executes cases (one JSON value per line on stdin) against fall's public
//! API and prints one JSON result per line. A panic or a hang of the code under test is a result
//! ("panic"/"hang"), never a failure of the driver.
use std::fs;
use std::io::{self, BufRead, Write};
use std::os::unix::io::{AsRawFd, FromRawFd};
use std::panic;
use std::sync::mpsc;
use std::thread;
use std::time::Duration;

use serde_json::{json, Value};

mod actions;
mod dynlang;
mod langs;
mod listing;
mod engine;
mod findex;
mod gen;
mod rust;
mod sched;
mod sem;
mod text;
mod total;
mod tree;

pub type Exec = fn(&Value) -> Value;

fn commands(name: &str) -> Option<Exec> {
    Some(match name {
        "engine" => engine::run,
        "lang" => langs::run,
        "types" => langs::types,
        "histories" => langs::run_histories,
        "efforts" => engine::run_efforts,
        "findex" => findex::run,
        "gen" => gen::run,
        "refuse" => gen::refuse,
        "actions" => actions::run,
        "rust" => rust::run,
        "symbols" => rust::symbols,
        "listing" => listing::run,
        "examples" => listing::examples,
        "sem" => sem::run,
        "schedules" => sem::schedules,
        "text" => text::run,
        "total" => total::run,
        "query" => tree::query,
        "fileedit" => tree::edit,
        _ => return None,
    })
}

/// Runs `f`, turning a panic into `{"panic": message}`.
pub fn guarded<F: FnOnce() -> Value>(f: F) -> Value {
    match panic::catch_unwind(panic::AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(e) => {
            let msg = if let Some(s) = e.downcast_ref::<String>() { s.clone() }
                else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
                else { "?".to_string() };
            json!({ "panic": msg })
        }
    }
}

fn spawn(exec: Exec) -> (mpsc::Sender<Value>, mpsc::Receiver<Value>) {
    let (tx, rx) = mpsc::channel::<Value>();
    let (otx, orx) = mpsc::channel::<Value>();
    thread::Builder::new().stack_size(512 << 20).spawn(move || {
        for case in rx {
            let r = guarded(|| exec(&case));
            if otx.send(r).is_err() { return }
        }
    }).unwrap();
    (tx, orx)
}

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(old: i32, new: i32) -> i32;
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let exec = match args.get(1).and_then(|c| commands(c)) {
        Some(e) => e,
        None => { eprintln!("unknown command"); std::process::exit(2) }
    };
    let limit = Duration::from_secs(std::env::var("CASE_TIMEOUT").ok().and_then(|s| s.parse().ok()).unwrap_or(20));
    panic::set_hook(Box::new(|_| ()));
    let stdin = io::stdin();
    // what the code under test prints does not mix with the results
    let mut out = unsafe {
        let results = fs::File::from_raw_fd(dup(1));
        let null = fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
        dup2(null.as_raw_fd(), 1);
        io::BufWriter::new(results)
    };
    let (mut tx, mut rx) = spawn(exec);
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() { continue }
        let case: Value = serde_json::from_str(&line).unwrap();
        tx.send(case).unwrap();
        let r = match rx.recv_timeout(limit) {
            Ok(v) => v,
            Err(_) => {
                let (a, b) = spawn(exec);
                tx = a; rx = b;
                json!({ "hang": true })
            }
        };
        writeln!(out, "{}", r).unwrap();
        out.flush().unwrap();
    }
    out.flush().unwrap();
    std::process::exit(0);
}
