//! Histories of file system changes around real file indexes, all histories of a batch at once.
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use std::thread;
use std::time::{Duration, Instant};

use indxr::{FileIndex, IndexableFileSet};
use serde_json::{json, Value};

#[derive(Clone)]
struct Val { path: PathBuf, content: u64 }

struct State {
    top: PathBuf,
    armed: Vec<Value>,
    log: Vec<Value>,
    last: Instant,
}

fn real(top: &Path, p: &Value) -> PathBuf {
    let mut r = top.to_owned();
    for n in p.as_array().unwrap() { r.push(n.as_str().unwrap()) }
    r
}

fn relative(top: &Path, p: &Path) -> Value {
    json!(p.strip_prefix(top).unwrap_or(p).components().map(|c| c.as_os_str().to_string_lossy().to_string()).collect::<Vec<_>>())
}

fn perform(top: &Path, o: &Value) -> bool {
    let p = real(top, &o["p"]);
    match o["op"].as_str().unwrap() {
        "write" => fs::write(&p, format!("{}\n", o["c"])).is_ok(),
        "mkdir" => fs::create_dir(&p).is_ok(),
        "rm" => if p.is_dir() { fs::remove_dir_all(&p).is_ok() } else { fs::remove_file(&p).is_ok() },
        "mv" => {
            let q = real(top, &o["q"]);
            if q.is_dir() || (q.exists() && p.is_dir()) { return false }
            fs::rename(&p, &q).is_ok()
        }
        _ => panic!(),
    }
}

impl State {
    fn go(&mut self, o: &Value) {
        let ok = perform(&self.top, o);
        self.log.push(json!({ "o": o, "ok": ok }));
        self.last = Instant::now();
    }

    fn fire(&mut self, at: &str, file: &Value) {
        let (now, later) = self.armed.drain(..).partition(|s| s["at"] == at && &s["file"] == file);
        self.armed = later;
        let now: Vec<Value> = now;
        for s in now { self.go(&s["o"]) }
    }
}

/// What an index of `roots` should hold; only used to decide how long to wait.
fn wanted(top: &Path, roots: &[PathBuf], ext: &str) -> BTreeMap<PathBuf, u64> {
    fn walk(p: &Path, ext: &str, out: &mut BTreeMap<PathBuf, u64>) {
        if p.is_dir() {
            for e in fs::read_dir(p).into_iter().flat_map(|d| d).filter_map(|e| e.ok()) { walk(&e.path(), ext, out) }
        } else if p.extension().map_or(false, |e| e == ext) {
            if let Some(c) = content(p) { out.insert(p.to_owned(), c); }
        }
    }
    let mut out = BTreeMap::new();
    for r in roots { walk(r, ext, &mut out) }
    let _ = top;
    out
}

fn content(p: &Path) -> Option<u64> {
    fs::read_to_string(p).ok()?.trim().parse::<u64>().ok().filter(|&c| c > 0)
}

fn reading(index: &FileIndex<Val>, top: &Path) -> Vec<Value> {
    let mut out = Vec::new();
    index.process_files(&mut |f| {
        out.push(json!([relative(top, &f.path), relative(top, &f.value.path), f.value.content]));
        false
    });
    out.sort_by_key(|v| v.to_string());
    out
}

fn history(top: PathBuf, case: &Value) -> Value {
    for t in case["tops"].as_array().unwrap() { fs::create_dir_all(top.join(t.as_str().unwrap())).unwrap() }
    let state = Arc::new(Mutex::new(State { top: top.clone(), armed: Vec::new(), log: Vec::new(), last: Instant::now() }));
    let steps = case["steps"].as_array().unwrap();
    let mut phases: Vec<Vec<Value>> = vec![Vec::new()];
    let mut st = state.lock().unwrap();
    for s in steps {
        match s["at"].as_str().unwrap() {
            "pre" => st.go(&s["o"]),
            "settle" => phases.push(Vec::new()),
            _ => phases.last_mut().unwrap().push(s.clone()),
        }
    }
    while phases.len() > 1 && phases.last().unwrap().is_empty() { phases.pop(); }
    st.armed = phases[0].iter().filter(|s| s["at"] != "free").cloned().collect();
    drop(st);
    let roots: Vec<PathBuf> = case["roots"].as_array().unwrap().iter().map(|r| real(&top, r)).collect();
    let (s2, t2) = (state.clone(), top.clone());
    let index = FileIndex::new(IndexableFileSet::new(roots.clone(), "x"), Box::new(move |p: &Path| {
        let rel = relative(&t2, p);
        s2.lock().unwrap().fire("before", &rel);
        let c = content(p);
        s2.lock().unwrap().fire("after", &rel);
        c.map(|content| Val { path: p.to_owned(), content })
    }));
    let mut readings = HashSet::new();
    let mut snaps = Vec::new();
    let mut rest = Vec::new();
    let quiet = Duration::from_millis(3200);
    for (k, phase) in phases.iter().enumerate() {
        if k > 0 { state.lock().unwrap().armed = phase.iter().filter(|s| s["at"] != "free").cloned().collect() }
        for s in phase.iter().filter(|s| s["at"] == "free") { state.lock().unwrap().go(&s["o"]) }
        let mut deadline = Instant::now() + Duration::from_secs(40);
        state.lock().unwrap().last = Instant::now();
        loop {
            thread::sleep(Duration::from_millis(25));
            let r = reading(&index, &top);
            readings.insert(json!(r).to_string());
            let mut st = state.lock().unwrap();
            if st.last.elapsed() < quiet { continue }
            if !st.armed.is_empty() {
                // not mapped meanwhile
                let todo: Vec<Value> = st.armed.drain(..).collect();
                for s in todo { st.go(&s["o"]) }
                deadline = Instant::now() + Duration::from_secs(40);
                continue
            }
            let want: Vec<Value> = {
                let mut w: Vec<Value> = wanted(&top, &roots, "x").into_iter()
                    .map(|(p, c)| json!([relative(&top, &p), relative(&top, &p), c])).collect();
                w.sort_by_key(|v| v.to_string());
                w
            };
            if r == want || Instant::now() > deadline {
                let late = r != want;
                snaps.push(json!({ "after": st.log.len(), "index": r, "late": late }));
                // what is wrong now stays so: no need to see more
                if late { rest = vec![()] }
                break
            }
        }
        if !rest.is_empty() { break }
    }
    let n = reading(&index, &top).len();
    let stops: Vec<usize> = (1..=n).map(|j| {
        let mut calls = 0;
        index.process_files(&mut |_| { calls += 1; calls == j });
        calls
    }).collect();
    let st = state.lock().unwrap();
    let mut rs: Vec<Value> = readings.iter().map(|s| serde_json::from_str(s).unwrap()).collect();
    rs.sort_by_key(|v| v.to_string());
    json!({ "tops": case["tops"], "roots": case["roots"], "ops": st.log, "snaps": snaps, "readings": rs, "stops": stops, "size": n })
}

pub fn run(case: &Value) -> Value {
    let top = fs::canonicalize(std::env::var("SCRATCH").unwrap()).unwrap().join(format!("fi-{}", std::process::id()));
    let hs: Vec<_> = case["batch"].as_array().unwrap().iter().enumerate().map(|(k, c)| {
        let (c, d) = (c.clone(), top.join(k.to_string()));
        thread::spawn(move || history(d, &c))
    }).collect();
    let out: Vec<Value> = hs.into_iter().map(|h| h.join().unwrap_or(json!({ "panic": true }))).collect();
    let _ = fs::remove_dir_all(&top);
    json!(out)
}
