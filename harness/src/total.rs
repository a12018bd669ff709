//! Everything there is to see of the tree of any text of a shipped language, and of edits of it.
use fall_tree::search::{self, Direction};
use fall_tree::{File, Node};
use serde_json::{json, Value};

/// Rows [ty, start, end, parent, children], the text of every leaf, and every node's neighbours.
fn look(f: &File) -> Value {
    let mut rows: Vec<(Node, usize, Vec<usize>)> = Vec::new();
    // preorder without recursion: error trees can be deep
    let mut stack = vec![(f.root(), 0usize)];
    while let Some((n, parent)) = stack.pop() {
        rows.push((n, parent, Vec::new()));
        let me = rows.len();
        if parent > 0 { rows[parent - 1].2.push(me) }
        let kids: Vec<Node> = n.children().collect();
        for k in kids.into_iter().rev() { stack.push((k, me)) }
    }
    // parents as the tree itself has them
    let of = |n: Option<Node>, near: usize| -> usize {
        match n {
            None => 0,
            Some(n) => {
                if near > 0 && rows[near - 1].0 == n { return near }
                rows.iter().position(|r| r.0 == n).map(|i| i + 1).unwrap_or(rows.len() + 1)
            }
        }
    };
    let mut nodes = Vec::new();
    let mut leaves = Vec::new();
    let mut sibs = Vec::new();
    for (i, r) in rows.iter().enumerate() {
        let n = r.0;
        nodes.push(json!([n.ty().0, n.range().start().utf8_len(), n.range().end().utf8_len(), of(n.parent(), r.1), r.2]));
        if r.2.is_empty() { leaves.push(json!([i + 1, n.text().to_string().into_bytes()])); }
        let k = if r.1 == 0 { vec![] } else { rows[r.1 - 1].2.clone() };
        let p = k.iter().position(|&x| x == i + 1).unwrap_or(0);
        sibs.push(json!([
            of(search::sibling(n, Direction::Left), if p > 0 { k[p - 1] } else { 0 }),
            of(search::sibling(n, Direction::Right), if p + 1 < k.len() { k[p + 1] } else { 0 })
        ]));
    }
    json!({ "nodes": nodes, "leaves": leaves, "sibs": sibs })
}

/// {"lang", "text", "edits"}: the tree of the text parsed twice, and after every edit.
pub fn run(case: &Value) -> Value {
    let lang = crate::langs::get(case["lang"].as_str().unwrap());
    let text = case["text"].as_str().unwrap();
    let mut steps = Vec::new();
    let step = |steps: &mut Vec<Value>, f: &dyn Fn() -> File| -> Option<File> {
        let mut file = None;
        let v = crate::guarded(|| { let f = f(); let v = look(&f); file = Some(f); v });
        steps.push(if v.get("panic").is_some() { json!([]) } else { json!([v]) });
        file
    };
    let mut cur = step(&mut steps, &|| lang.parse(text.to_string()));
    step(&mut steps, &|| lang.parse(text.to_string()));
    for e in case["edits"].as_array().map(|e| e.as_slice()).unwrap_or(&[]) {
        let prev = match cur { Some(f) => f, None => break };
        cur = step(&mut steps, &|| prev.edit(&crate::engine::edit_of(e)));
    }
    json!({ "steps": steps })
}
