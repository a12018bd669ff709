//! How trees are shown, and the examples of a grammar source.
use std::fs;
use std::path::Path;

use fall_editor::EditorFileImpl;
use fall_gen::{process, Task, TestRenderer};
use fall_tree::{dump_file, dump_file_ws, File, Language, Node};
use serde_json::{json, Value};

use crate::engine::edit_of;
use crate::{dynlang, guarded, langs};

fn lines(s: &str) -> Value { json!(s.split('\n').collect::<Vec<_>>()) }

fn rows(f: &File) -> Value {
    fn go(f: &File, n: Node, d: u32, out: &mut Vec<Value>) {
        let r = n.range();
        out.push(json!([d, f.language().node_type_info(n.ty()).name, r.start().utf8_len(), r.end().utf8_len()]));
        for c in n.children() { go(f, c, d + 1, out) }
    }
    let mut out = Vec::new();
    go(f, f.root(), 0, &mut out);
    Value::Array(out)
}

/// Names of the types in the file that count as blanks.
fn hidden(f: &File) -> Value {
    let mut out = std::collections::BTreeSet::new();
    fall_tree::walk_tree(f.root(), |n| {
        let i = f.language().node_type_info(n.ty());
        if i.whitespace_like { out.insert(i.name); }
    });
    json!(out)
}

fn shown(lang: &str, text: &str) -> Vec<Value> {
    match lang {
        "rust" => vec![lines(&lang_rust::editor::RustEditorFile::parse(text).syntax_tree())],
        "fall" => vec![lines(&lang_fall::FileWithAnalysis::parse(text).syntax_tree())],
        _ => vec![],
    }
}

/// {"lang": name or description, "ins": [{"text", "edits"}]} -> per text and step: rows, both
/// listings and what the editors show.
pub fn run(case: &Value) -> Value {
    let name = case["lang"].as_str().unwrap_or("");
    let lang: Language = if name != "" { langs::get(name) } else { dynlang::build(&case["lang"]) };
    let one = |f: &File| {
        let text = f.text().to_string();
        let v = guarded(|| json!({ "rows": rows(f), "hidden": hidden(f), "short": lines(&dump_file(f)), "full": lines(&dump_file_ws(f)), "shown": shown(name, &text) }));
        json!({ "text": text, "out": v })
    };
    let outs: Vec<Value> = case["ins"].as_array().unwrap().iter().map(|i| {
        let mut f = lang.parse(i["text"].as_str().unwrap().to_string());
        let mut out = vec![one(&f)];
        for e in i["edits"].as_array().unwrap_or(&vec![]) {
            f = f.edit(&edit_of(e));
            out.push(one(&f));
        }
        Value::Array(out)
    }).collect();
    json!({ "outs": outs })
}

/// {"src", "tmp": directory for temporary files, "ones": [test number]}
pub fn examples(case: &Value) -> Value {
    let src = case["src"].as_str().unwrap();
    let tmp = case["tmp"].as_str().unwrap();
    std::env::set_var("TMPDIR", tmp);
    std::env::remove_var("CARGO_TARGET_DIR");
    guarded(|| {
        let gen = lang_fall::analyse(src.to_string()).analyse(|a| fall_gen::generate(a).map_err(|e| e.to_string()));
        let dir = Path::new(tmp).join("scratch");
        let _ = fs::remove_dir_all(&dir);
        fs::create_dir_all(&dir).unwrap();
        let at = dir.join("gr.am.fall");
        fs::write(&at, src).unwrap();
        fs::write(dir.join("gr.am.rs"), "was").unwrap();
        fs::write(dir.join("gr.am.txt"), "was").unwrap();
        let ok = process(Task::Generate(at.clone())).is_ok();
        let rs = fs::read_to_string(dir.join("gr.am.rs")).unwrap();
        let all = TestRenderer.render_all(src.to_string(), None).unwrap();
        let file = lang_fall::parse(src.to_string());
        let ones: Vec<Value> = case["ones"].as_array().unwrap().iter()
            .map(|k| json!([k, lines(&TestRenderer.render_one(&file, k.as_u64().unwrap() as usize))])).collect();
        process(Task::Examples(at.clone())).unwrap();
        let ex = fs::read_to_string(dir.join("gr.am.txt")).unwrap();
        let left: Vec<String> = {
            let mut v: Vec<String> = fs::read_dir(&dir).unwrap().map(|e| e.unwrap().file_name().into_string().unwrap()).collect();
            v.sort();
            v
        };
        let same = fs::read_to_string(&at).unwrap() == src;
        json!({
            "ok": ok as u8, "refused": gen.is_err() as u8,
            // the code itself: only whether the file holds it
            "rs": if rs == "was" { "was" } else if gen.as_ref().ok() == Some(&rs) { "gen" } else { "other" },
            "err": lines(gen.as_ref().err().map_or("", |s| s)),
            "all": lines(&all), "ones": ones, "examples": lines(&ex),
            "files": left, "same": same as u8,
        })
    })
}
