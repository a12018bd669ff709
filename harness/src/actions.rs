//! Formatting and editor actions on grammar sources.
use std::panic::{catch_unwind, AssertUnwindSafe};

use fall_editor::EditorFileImpl;
use fall_tree::search::{find_leaf_at_offset, sibling, Direction};
use fall_tree::{tu, File, Node, TextRange, TextUnit};
use lang_fall::FileWithAnalysis;
use serde_json::{json, Value};

use crate::sem::{numbered, tree};

const IDS: &[&str] = &["Swap", "Swap alternatives", "Extract rule", "No such action"];

fn beyond<'f>(node: Node<'f>, dir: Direction) -> Option<Node<'f>> {
    let mut n = sibling(node, dir)?;
    while n.file().language().node_type_info(n.ty()).whitespace_like { n = sibling(n, dir)? }
    Some(n)
}

/// Where the mark between two exchanged neighbours comes to lie.
pub fn moved(file: &File, offset: TextUnit, mark: &str) -> Option<TextUnit> {
    let ls = find_leaf_at_offset(file.root(), offset);
    let m = vec![ls.left_biased(), ls.right_biased()].into_iter().filter_map(|n| n).find(|n| n.text() == mark)?;
    let (l, r) = (beyond(m, Direction::Left)?, beyond(m, Direction::Right)?);
    Some(l.range().start() + r.range().len() + (m.range().start() - l.range().end()))
}

fn at(o: TextUnit) -> TextRange { TextRange::from_len(o, tu(0)) }

pub fn run(case: &Value) -> Value {
    let text = case["text"].as_str().unwrap();
    let f = FileWithAnalysis::parse(text);
    let (nodes, ids) = numbered(f.file());
    let t = tree(f.file(), &nodes, &ids);
    let guard = |g: &dyn Fn() -> Value| match catch_unwind(AssertUnwindSafe(|| g())) { Ok(v) => json!([v]), Err(_) => json!([]) };
    let reformat = |s: &str| { let f = FileWithAnalysis::parse(s); f.reformat().apply(f.file().text()).as_text().to_string() };
    let format = guard(&|| json!(reformat(text)));
    let (mut again, mut solid) = (json!([]), json!([]));
    if let Some(s) = format[0].as_str() {
        again = guard(&|| json!(reformat(s)));
        let g = FileWithAnalysis::parse(s);
        let (nodes, _) = numbered(g.file());
        let leaves: Vec<Value> = nodes.iter().filter(|n| n.children().next().is_none() && !n.range().is_empty())
            .map(|n| json!([g.file().language().node_type_info(n.ty()).name, n.text().to_string()]))
            .filter(|v| v[0] != "WHITESPACE").collect();
        solid = json!(leaves);
    }
    let mut offered = Vec::new();
    let mut applied = Vec::new();
    let mut back = Vec::new();
    for r in case["ranges"].as_array().unwrap() {
        let r = TextRange::from_to(tu(r[0].as_u64().unwrap() as u32), tu(r[1].as_u64().unwrap() as u32));
        offered.push(guard(&|| json!(f.context_actions(r))));
        let app = |f: &FileWithAnalysis, r: TextRange, id: &str| f.apply_context_action(r, id).map(|e| e.apply(f.file().text()).as_text().to_string());
        applied.push(IDS.iter().map(|id| guard(&|| app(&f, r, id).map_or(json!([]), |s| json!([s])))).collect::<Vec<_>>());
        back.push([("Swap", ","), ("Swap alternatives", "|")].iter().map(|&(id, mark)| {
            match catch_unwind(AssertUnwindSafe(|| {
                let once = app(&f, r, id)?;
                let o = moved(f.file(), r.start(), mark)?;
                app(&FileWithAnalysis::parse(&once), at(o), id)
            })) { Ok(Some(s)) => json!([s]), _ => json!([]) }
        }).collect::<Vec<_>>());
    }
    json!({ "text": text, "len": text.len(), "nodes": t[0], "txt": t[1], "format": format, "again": again, "solid": solid,
            "ranges": case["ranges"], "offered": offered, "applied": applied, "back": back })
}
