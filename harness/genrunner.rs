// Runner for generated parsers; included by a program that defines LANGS.
use std::io::{self, BufRead, Write};
use std::panic;
use std::sync::mpsc;
use std::thread;
use std::time::Duration;
use fall_tree::{File, Language, Node};
use serde_json::{json, Value};

fn rows(lang: &Language, file: &File) -> Value {
    let mut out = Vec::new();
    fn go(lang: &Language, n: Node, d: u32, out: &mut Vec<Value>) {
        let r = n.range();
        out.push(json!([d, lang.node_type_info(n.ty()).name, r.start().utf8_len(), r.end().utf8_len()]));
        for c in n.children() { go(lang, c, d + 1, out) }
    }
    go(lang, file.root(), 0, &mut out);
    Value::Array(out)
}

fn guarded<F: FnOnce() -> Value>(f: F) -> Value {
    match panic::catch_unwind(panic::AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(e) => {
            let msg = if let Some(s) = e.downcast_ref::<String>() { s.clone() }
                else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
                else { "?".to_string() };
            json!({ "panic": msg })
        }
    }
}

fn exec(case: &Value) -> Value {
    let m = case["m"].as_u64().unwrap() as usize;
    let outs: Vec<Value> = case["texts"].as_array().unwrap().iter().map(|t| guarded(|| {
        let lang = LANGS[m].0();
        let file = lang.parse(t.as_str().unwrap().to_string());
        json!({ "rows": rows(lang, &file), "ast": LANGS[m].1(&file) })
    })).collect();
    json!({ "outs": outs })
}

fn spawn() -> (mpsc::Sender<Value>, mpsc::Receiver<Value>) {
    let (tx, rx) = mpsc::channel::<Value>();
    let (otx, orx) = mpsc::channel::<Value>();
    thread::Builder::new().stack_size(256 << 20).spawn(move || {
        for case in rx {
            if otx.send(exec(&case)).is_err() { return }
        }
    }).unwrap();
    (tx, orx)
}

fn main() {
    panic::set_hook(Box::new(|_| ()));
    let (mut tx, mut rx) = spawn();
    let stdin = io::stdin();
    let mut out = io::stdout();
    for line in stdin.lock().lines() {
        let case: Value = serde_json::from_str(&line.unwrap()).unwrap();
        tx.send(case).unwrap();
        let r = match rx.recv_timeout(Duration::from_secs(20)) {
            Ok(v) => v,
            Err(_) => { let (a, b) = spawn(); tx = a; rx = b; json!({ "hang": true }) }
        };
        writeln!(out, "{}", r).unwrap();
    }
    std::process::exit(0);
}
