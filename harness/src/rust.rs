//! The Rust editor: outline, breadcrumbs, typing help and actions; symbol search over files.
use std::collections::BTreeMap;
use std::fs;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::thread;
use std::time::{Duration, Instant};

use fall_editor::EditorFileImpl;
use fall_tree::{tu, TextRange, TextUnit};
use lang_rust::editor::{RustEditorFile, SymbolIndex};
use serde_json::{json, Value};

use crate::sem::{numbered, range, tree};

const IDS: &[&str] = &["Swap", "Add braces", "Add impl", "No such action"];

fn at(o: TextUnit) -> TextRange { TextRange::from_len(o, tu(0)) }

/// A file and its tree, as the specification sees it.
fn described(f: &RustEditorFile, text: &str) -> Value {
    let (nodes, ids) = numbered(f.file());
    let t = tree(f.file(), &nodes, &ids);
    let lines: Vec<usize> = Some(0).into_iter().chain(text.bytes().enumerate().filter(|p| p.1 == b'\n').map(|p| p.0 + 1)).collect();
    let outline: Vec<Value> = f.structure().into_iter().map(|s| json!([s.name, range(s.range)])).collect();
    json!({ "len": text.len(), "nodes": t[0], "txt": t[1], "lines": lines, "outline": outline })
}

fn errors(f: &RustEditorFile) -> usize {
    let (nodes, _) = numbered(f.file());
    nodes.iter().filter(|n| n.ty() == fall_tree::ERROR).count()
}

pub fn run(case: &Value) -> Value {
    let text = case["text"].as_str().unwrap();
    let f = RustEditorFile::parse(text);
    let mut out = described(&f, text);
    let guard = |g: &dyn Fn() -> Value| match catch_unwind(AssertUnwindSafe(|| g())) { Ok(v) => json!([v]), Err(_) => json!([]) };
    let app = |f: &RustEditorFile, o: TextUnit, id: &str| f.apply_context_action(at(o), id).map(|e| e.apply(f.file().text()).as_text().to_string());
    let mut answers = Vec::new();
    for o in case["offsets"].as_array().unwrap() {
        let o = tu(o.as_u64().unwrap() as u32);
        let applied: Vec<Value> = IDS.iter().map(|id| guard(&|| app(&f, o, id).map_or(json!([]), |s| json!([s])))).collect();
        let broken: Vec<Value> = applied.iter().map(|a| json!(a[0][0].as_str().map_or(0, |s| errors(&RustEditorFile::parse(s))))).collect();
        let back = match catch_unwind(AssertUnwindSafe(|| {
            let once = app(&f, o, "Swap")?;
            let p = crate::actions::moved(f.file(), o, ",")?;
            app(&RustEditorFile::parse(&once), p, "Swap")
        })) { Ok(Some(s)) => json!([s]), _ => json!([]) };
        answers.push(json!([
            u32::from(o),
            guard(&|| json!(f.breadcrumbs(o))),
            guard(&|| f.after_space_typed(o).map_or(json!([]), |s| json!([s]))),
            guard(&|| json!(f.context_actions(at(o)))),
            applied, broken, back,
        ]));
    }
    out["text"] = case["text"].clone();
    out["answers"] = json!(answers);
    out
}

fn search(index: &SymbolIndex, top: &PathBuf, q: &str) -> Vec<Value> {
    let lang = lang_rust::syntax::lang_rust();
    index.query(q).into_iter().map(|(p, s)| {
        let lc = |k: usize| json!([s.lc_range[k].line, s.lc_range[k].col]);
        json!([p.strip_prefix(top).unwrap_or(&p).to_string_lossy(),
               [json!(lang.node_type_info(s.ty).name), json!(s.name), range(s.range), lc(0), lc(1)]])
    }).collect()
}

/// One sequence of states of a folder; the search is asked in each of them. Every file holds `fn <its mark>`.
fn history(top: PathBuf, case: &Value) -> Value {
    fs::create_dir_all(&top).unwrap();
    let put = |now: &BTreeMap<String, Value>, next: &BTreeMap<String, Value>| {
        for p in now.keys().filter(|p| !next.contains_key(*p)) { fs::remove_file(top.join(p)).unwrap() }
        for (p, f) in next.iter().filter(|&(p, f)| now.get(p) != Some(f)) {
            let full = top.join(p);
            fs::create_dir_all(full.parent().unwrap()).unwrap();
            fs::write(full, f["text"].as_str().unwrap()).unwrap();
        }
    };
    let mut now = BTreeMap::new();
    let mut index = None;
    let mut out = Vec::new();
    for state in case["states"].as_array().unwrap() {
        let next: BTreeMap<String, Value> = state["files"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        put(&now, &next);
        let start = Instant::now();
        let changed = index.is_some();
        let index = index.get_or_insert_with(|| SymbolIndex::new(vec![top.clone()]));
        // wait until every file is indexed in its present version
        let marks: BTreeMap<String, Value> = now.iter().chain(next.iter()).map(|(p, f)| (p.clone(), f["mark"].clone())).collect();
        loop {
            let fresh = marks.iter().all(|(p, m)| {
                let m = m.as_str().unwrap();
                let there = search(index, &top, &format!("#{}", m)).iter().any(|r| r[0] == p.as_str() && r[1][1] == m);
                there == next.contains_key(p)
            });
            if (fresh && (!changed || start.elapsed() > Duration::from_millis(3500))) || start.elapsed() > Duration::from_secs(40) { break }
            thread::sleep(Duration::from_millis(50));
        }
        let described: BTreeMap<&String, Value> = next.iter().map(|(p, f)| {
            let text = f["text"].as_str().unwrap();
            (p, described(&RustEditorFile::parse(text), text))
        }).collect();
        let answers: Vec<Value> = state["queries"].as_array().unwrap().iter()
            .map(|q| json!([q, search(index, &top, q.as_str().unwrap())])).collect();
        out.push(json!({ "files": described, "answers": answers, "low": case["low"] }));
        now = next;
    }
    json!(out)
}

pub fn symbols(case: &Value) -> Value {
    let top = fs::canonicalize(std::env::var("SCRATCH").unwrap()).unwrap().join(format!("sy-{}", std::process::id()));
    let hs: Vec<_> = case["batch"].as_array().unwrap().iter().enumerate().map(|(k, c)| {
        let (c, d) = (c.clone(), top.join(k.to_string()));
        thread::Builder::new().stack_size(64 << 20).spawn(move || history(d, &c)).unwrap()
    }).collect();
    let out: Vec<Value> = hs.into_iter().map(|h| h.join().unwrap_or(json!({ "panic": true }))).collect();
    let _ = fs::remove_dir_all(&top);
    json!(out)
}
