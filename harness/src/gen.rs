//! Grammar sources: the generated parser.
use lang_fall::analyse;
use serde_json::{json, Value};
use crate::guarded;

/// {"src"} -> {"out": generated source} | {"err"}; "same" says whether generating again, from the
/// same and from a new analysis, gives the same.
pub fn run(case: &Value) -> Value {
    let src = case["src"].as_str().unwrap().to_string();
    guarded(|| {
        let a = analyse(src.clone());
        let one = a.analyse(|a| fall_gen::generate(a).map_err(|e| e.to_string()));
        let two = a.analyse(|a| fall_gen::generate(a).map_err(|e| e.to_string()));
        let three = analyse(src).analyse(|a| { a.collect_all_diagnostics(); fall_gen::generate(a).map_err(|e| e.to_string()) });
        let same = one == two && one == three;
        match one {
            Ok(out) => json!({ "out": out, "same": same }),
            Err(err) => json!({ "err": err, "same": same }),
        }
    })
}

/// {"text"} -> the syntax tree, "out": code / refused / failed, and whether asking again gives the same.
pub fn refuse(case: &Value) -> Value {
    let text = case["text"].as_str().unwrap().to_string();
    let mut r = run(&json!({ "src": text }));
    let file = lang_fall::parse(text);
    let (nodes, ids) = crate::sem::numbered(&file);
    let t = crate::sem::tree(&file, &nodes, &ids);
    let out = if r.get("out").is_some() { "code" } else if r.get("err").is_some() { "refused" } else { "failed" };
    let why = if out == "code" { json!("") } else { r["err"].take().as_str().or_else(|| r["panic"].as_str()).map_or(json!(""), |s| json!(s)) };
    json!({ "nodes": t[0], "txt": t[1], "out": out, "why": why, "same": r["same"].as_bool().unwrap_or(true) })
}
