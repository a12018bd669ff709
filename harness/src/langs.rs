//! The languages shipped in the repository.
use fall_tree::Language;
use serde_json::{json, Value};

pub fn get(name: &str) -> Language {
    match name {
        "rust" => lang_rust_syntax::lang_rust().clone(),
        "fall" => lang_fall_syntax::lang_fall().clone(),
        "json" => lang_json::language().clone(),
        "bnf" => lang_bnf::language().clone(),
        "arith" => fall_test::arith::language().clone(),
        "sexp" => fall_test::sexp::language().clone(),
        "weird" => fall_test::weird::language().clone(),
        _ => panic!("no language {}", name),
    }
}

pub fn run(case: &Value) -> Value {
    let lang = get(case["lang"].as_str().unwrap());
    let outs: Vec<Value> = case["ins"].as_array().unwrap().iter()
        .map(|i| crate::engine::history(&lang, i)).collect();
    json!({ "outs": outs })
}

/// Node types of a shipped language: [number, name, whitespace-like].
pub fn types(case: &Value) -> Value {
    let lang = get(case["lang"].as_str().unwrap());
    let mut out = Vec::new();
    let mut ty = 0;
    loop {
        let info = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| lang.node_type_info(fall_tree::NodeType(ty))));
        match info {
            Ok(i) => out.push(json!([ty, i.name, i.whitespace_like])),
            Err(_) if ty > 0 => break,
            Err(_) => (),
        }
        ty = if ty == 0 { 100 } else { ty + 1 };
    }
    json!({ "types": out })
}

pub fn run_histories(case: &Value) -> Value {
    let lang = get(case["lang"].as_str().unwrap());
    let outs: Vec<Value> = case["ins"].as_array().unwrap().iter()
        .map(|i| crate::engine::histories(&lang, i)).collect();
    json!({ "outs": outs })
}
