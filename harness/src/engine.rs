//! Parser engine cases: a language description and texts, or edit histories.
use fall_tree::{tu, File, Language, Node, TextEdit, TextEditOp, TextRange};
use serde_json::{json, Value};

use crate::{dynlang, guarded};

/// Preorder rows [depth, type, start, end].
pub fn rows(file: &File) -> Value {
    let mut out = Vec::new();
    fn go(n: Node, d: u32, out: &mut Vec<Value>) {
        let r = n.range();
        out.push(json!([d, n.ty().0, r.start().utf8_len(), r.end().utf8_len()]));
        for c in n.children() { go(c, d + 1, out) }
    }
    go(file.root(), 0, &mut out);
    Value::Array(out)
}

/// [["c", from, to] | ["i", text] ...]
pub fn edit_of(ops: &Value) -> TextEdit {
    TextEdit {
        ops: ops.as_array().unwrap().iter().map(|o| {
            if o[0] == "c" {
                TextEditOp::Copy(TextRange::from_to(tu(o[1].as_u64().unwrap() as u32), tu(o[2].as_u64().unwrap() as u32)))
            } else {
                TextEditOp::Insert(o[1].as_str().unwrap().into())
            }
        }).collect()
    }
}

/// {"text": .., "edits": [ops...]} -> {"trees": [rows | {"panic"}...], "texts": [..]}
pub fn history(lang: &Language, input: &Value) -> Value {
    let mut trees = Vec::new();
    let mut texts = Vec::new();
    let text = input["text"].as_str().unwrap().to_string();
    let mut file = None;
    let r = guarded(|| { let f = lang.parse(text); let v = rows(&f); file = Some(f); v });
    trees.push(r);
    if let Some(edits) = input["edits"].as_array() {
        for e in edits {
            let f = match file.take() { Some(f) => f, None => break };
            texts.push(f.text().to_string());
            let mut next = None;
            let edit = edit_of(e);
            let r = guarded(|| { let g = f.edit(&edit); let v = rows(&g); next = Some(g); v });
            trees.push(r);
            file = next;
        }
    }
    if let Some(f) = file { texts.push(f.text().to_string()); }
    json!({ "trees": trees, "texts": texts })
}

pub fn run(case: &Value) -> Value {
    let lang = dynlang::build(&case["lang"]);
    let outs: Vec<Value> = case["ins"].as_array().unwrap().iter().map(|i| history(&lang, i)).collect();
    json!({ "outs": outs })
}

fn fingerprint(v: &Value) -> Value {
    // panics are kept readable; trees are reduced to a 64 bit hash of their listing
    if !v.is_array() { return v.clone(); }
    let mut h: u64 = 0xcbf29ce484222325;
    for b in v.to_string().bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); h ^= h >> 29; }
    json!(format!("{:016x}:{}", h, v.as_array().unwrap().len()))
}

/// Like `history`, but every tree is given as a fingerprint, next to that of a parse from scratch.
pub fn histories(lang: &Language, input: &Value) -> Value {
    let text = input["text"].as_str().unwrap().to_string();
    let mut file = None;
    let first = guarded(|| { let f = lang.parse(text.clone()); let v = rows(&f); file = Some(f); v });
    let again = guarded(|| rows(&lang.parse(text.clone())));
    let mut steps = Vec::new();
    for e in input["edits"].as_array().unwrap() {
        let f = match file.take() { Some(f) => f, None => break };
        let edit = edit_of(e);
        let mut next = None;
        let r = guarded(|| { let g = f.edit(&edit); let v = rows(&g); next = Some(g); v });
        let now = match next { Some(ref g) => g.text().to_string(), None => edit.apply(f.text()).as_text().to_string() };
        let s = guarded(|| rows(&lang.parse(now.clone())));
        steps.push(json!({ "tree": fingerprint(&r), "scratch": fingerprint(&s), "text": now }));
        file = next;
    }
    json!({ "tree0": fingerprint(&first), "scratch0": fingerprint(&again), "steps": steps })
}

/// The effort of reparsing after each edit, next to that of parsing from scratch.
pub fn efforts(lang: &Language, input: &Value) -> Value {
    let text = input["text"].as_str().unwrap().to_string();
    let ends = |f: &File| {
        let mut ends = vec![0];
        let mut error = false;
        fn go(n: Node, ends: &mut Vec<u32>, error: &mut bool) {
            let r = n.range();
            if n.children().next().is_none() && !r.is_empty() {
                ends.push(r.end().utf8_len() as u32);
                if n.ty() == fall_tree::ERROR { *error = true }
            }
            for c in n.children() { go(c, ends, error) }
        }
        go(f.root(), &mut ends, &mut error);
        (ends, error)
    };
    let mut file = Some(lang.parse(text));
    let mut steps = Vec::new();
    for e in input["edits"].as_array().unwrap() {
        let f = file.take().unwrap();
        let mut next = None;
        let r = guarded(|| {
            let (old_ends, error) = ends(&f);
            let g = f.edit(&edit_of(e));
            let s = lang.parse(g.text().to_string());
            let (new_ends, _) = ends(&g);
            let r = json!({
                "relexed": g.metrics().get("relexed region"), "inc": g.metrics().get("parsing ticks"),
                "full": s.metrics().get("parsing ticks"), "oldEnds": old_ends, "newEnds": new_ends, "error": error as u32,
            });
            next = Some(g);
            r
        });
        steps.push(r);
        file = next;
        if file.is_none() { break }
    }
    json!({ "steps": steps })
}

pub fn run_efforts(case: &Value) -> Value {
    let lang = if case["lang"].is_string() { crate::langs::get(case["lang"].as_str().unwrap()) } else { dynlang::build(&case["lang"]) };
    let outs: Vec<Value> = case["ins"].as_array().unwrap().iter().map(|i| efforts(&lang, i)).collect();
    json!({ "outs": outs })
}
