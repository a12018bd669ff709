//! Trees of any shape, the queries and traversals on them, and structural edits.
use std::any::Any;
use std::collections::HashMap;

use fall_editor::EditorFileImpl;
use fall_tree::search::{self, ast, Direction, LeafAtOffset};
use fall_tree::visitor::{process_node, process_subtree_bottom_up, visitor};
use fall_tree::{
    tu, walk_tree, AstNode, File, FileEdit, Language, LanguageImpl, Metrics, Node, NodeType, NodeTypeInfo, Text, TextEdit,
    TextRange, TextUnit, TreeBuilder,
};
use serde_json::{json, Value};

struct Shape { tree: Value }

impl LanguageImpl for Shape {
    fn parse(&self, _: Text, _: &Metrics, builder: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> {
        // [ty, len] is a leaf, [ty, [..]] an internal node
        fn go(t: &Value, b: &mut TreeBuilder) {
            let ty = NodeType(t[0].as_u64().unwrap() as u32);
            match t[1].as_array() {
                None => b.leaf(ty, tu(t[1].as_u64().unwrap() as u32)),
                Some(kids) => {
                    b.start_internal(ty);
                    for k in kids { go(k, b) }
                    b.finish_internal();
                }
            }
        }
        go(&self.tree, builder);
        None
    }
    fn reparse(&self, _: &dyn Any, _: &TextEdit, text: Text, metrics: &Metrics, builder: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> {
        self.parse(text, metrics, builder)
    }
    /// Types from 90 on are whitespace.
    fn node_type_info(&self, ty: NodeType) -> NodeTypeInfo { NodeTypeInfo { name: "N", whitespace_like: ty.0 >= 90 } }
}

fn file_of(case: &Value) -> File {
    match case["lang"].as_str() {
        Some(l) => crate::langs::get(l).parse(case["text"].as_str().unwrap().to_string()),
        None => Language::new(Shape { tree: case["tree"].clone() }).parse(case["text"].as_str().unwrap().to_string()),
    }
}

struct Ed(File);
impl EditorFileImpl for Ed {
    fn parse(_: &str) -> Self { unimplemented!() }
    fn edit(&self, _: &TextEdit) -> Self { unimplemented!() }
    fn syntax_tree(&self) -> String { unimplemented!() }
    fn file(&self) -> &File { &self.0 }
}

fn refusable<F: FnOnce() -> Value>(f: F) -> Value {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) { Ok(v) => json!([v]), Err(_) => json!([]) }
}

macro_rules! ast_type {
    ($name:ident, $ty:expr) => {
        #[derive(Clone, Copy)]
        struct $name<'f>(Node<'f>);
        impl<'f> AstNode<'f> for $name<'f> {
            fn wrap(node: Node<'f>) -> Option<Self> { if node.ty() == NodeType($ty) { Some($name(node)) } else { None } }
            fn node(self) -> Node<'f> { self.0 }
        }
    };
}
ast_type!(A1, 1);
ast_type!(A2, 2);
ast_type!(A90, 90);

struct Ids<'f>(HashMap<Node<'f>, usize>, Vec<Node<'f>>);

impl<'f> Ids<'f> {
    fn new(f: &'f File) -> Ids<'f> {
        let mut ids = Ids(HashMap::new(), Vec::new());
        fn go<'f>(n: Node<'f>, ids: &mut Ids<'f>) {
            ids.1.push(n);
            let k = ids.1.len();
            ids.0.insert(n, k);
            for c in n.children() { go(c, ids) }
        }
        go(f.root(), &mut ids);
        ids
    }
    fn id(&self, n: Node<'f>) -> usize { *self.0.get(&n).unwrap_or(&0) }
    fn opt(&self, n: Option<Node<'f>>) -> usize { n.map(|n| self.id(n)).unwrap_or(0) }
    fn seq<I: IntoIterator<Item = Node<'f>>>(&self, i: I) -> Vec<usize> { i.into_iter().map(|n| self.id(n)).collect() }
}

pub fn nodes(f: &File) -> Value {
    let ids = Ids::new(f);
    let text = f.text().to_string();
    Value::Array(ids.1.iter().map(|&n| {
        let r = n.range();
        assert!(n.text() == &text[r]);
        json!([n.ty().0, r.start().utf8_len(), r.end().utf8_len(), ids.opt(n.parent()), ids.seq(n.children())])
    }).collect())
}

/// [o...] offsets, [[a, b]...] ranges; everything asked of every node when "full".
pub fn query(case: &Value) -> Value {
    let f = file_of(case);
    let ids = Ids::new(&f);
    let root = f.root();
    let leafq = |n: Node, o: TextUnit| -> Value {
        refusable(|| {
            let l = search::find_leaf_at_offset(n, o);
            let r = match l {
                LeafAtOffset::None => vec![],
                LeafAtOffset::Single(a) => vec![ids.0[&a]],
                LeafAtOffset::Between(a, b) => vec![ids.0[&a], ids.0[&b]],
            };
            let it: Vec<usize> = l.map(|n| ids.0[&n]).collect();
            json!([r, it, l.left_biased().map(|n| ids.0[&n]).unwrap_or(0), l.right_biased().map(|n| ids.0[&n]).unwrap_or(0)])
        })
    };
    let offs: Vec<u32> = case["offsets"].as_array().unwrap().iter().map(|o| o.as_u64().unwrap() as u32).collect();
    let mut leaves = Vec::new();
    for &k in &case["at"].as_array().unwrap().iter().map(|o| o.as_u64().unwrap() as usize).collect::<Vec<_>>() {
        let n = match ids.1.get(k - 1) { Some(&n) => n, None => continue };
        for &o in &offs {
            leaves.push(json!([k, o, leafq(n, tu(o)),
                refusable(|| json!([ast::node_at_offset::<A1>(n, tu(o)).map(|a| ids.0[&a.node()]).unwrap_or(0),
                    ast::node_at_offset::<A90>(n, tu(o)).map(|a| ids.0[&a.node()]).unwrap_or(0)]))]));
        }
    }
    let ed = Ed(file_of(case));
    let mut covers = Vec::new();
    for r in case["ranges"].as_array().unwrap() {
        let r = TextRange::from_to(tu(r[0].as_u64().unwrap() as u32), tu(r[1].as_u64().unwrap() as u32));
        let c = refusable(|| json!(ids.0[&search::find_covering_node(root, r)]));
        let e = refusable(|| match ed.extend_selection(r) { None => json!([]), Some(x) => json!([x.start().utf8_len(), x.end().utf8_len()]) });
        covers.push(json!([r.start().utf8_len(), r.end().utf8_len(), c, e]));
    }
    let mut per = Vec::new();
    if case["full"].as_bool().unwrap_or(false) {
        for &n in &ids.1 {
            let mut bu = Vec::new();
            search::traversal::bottom_up(n, |m| bu.push(m));
            let mut pre = Vec::new();
            walk_tree(n, |m| pre.push(ids.id(m)));
            let tys = [NodeType(1), NodeType(2)];
            let chain = |whole: bool| {
                let v = visitor(Vec::new())
                    .visit::<A1, _>(|a, log: &mut Vec<(u32, usize)>| log.push((1, ids.id(a.node()))))
                    .visit_nodes(&tys, |m, log| log.push((2, ids.id(m))))
                    .visit::<A2, _>(|a, log| log.push((3, ids.id(a.node()))))
                    .visit_nodes(&tys[..1], |m, log| log.push((4, ids.id(m))));
                if whole { process_subtree_bottom_up(n, v) } else { process_node(n, v) }
            };
            per.push(json!({
                "anc": ids.seq(search::ancestors(n)),
                "sib": [ids.opt(search::sibling(n, Direction::Left)), ids.opt(search::sibling(n, Direction::Right))],
                "sub": ids.seq(search::subtree(n)), "bu": ids.seq(bu), "pre": pre,
                "leaf": search::is_leaf(n),
                "child": [ids.opt(search::child_of_type(n, NodeType(1))), ids.opt(search::child_of_type(n, NodeType(2)))],
                "exn": refusable(|| json!(ids.0[&search::child_of_type_exn(n, NodeType(1))])),
                "kids": ids.seq(search::children_of_type(n, NodeType(1))),
                "akids": ids.seq(ast::children_of_type::<A1>(n).map(|a| a.node())),
                "desc": ids.seq(search::descendants_of_type(n, NodeType(1))),
                "adesc": ids.seq(ast::descendants_of_type::<A1>(n).into_iter().map(|a| a.node())),
                "aanc": ids.opt(ast::ancestor::<A1>(n).map(|a| a.node())),
                "aexn": refusable(|| json!(ids.0[&ast::ancestor_exn::<A2>(n).node()])),
                "visit": chain(true), "once": chain(false),
            }));
        }
    }
    json!({ "nodes": nodes(&f), "leaves": leaves, "covers": covers, "per": per })
}

/// Structural edits: [kind, node, text] or ["sub", [a, b], text], recorded in the order given.
pub fn edit(case: &Value) -> Value {
    let f = file_of(case);
    let ids = Ids::new(&f);
    let outs: Vec<Value> = case["histories"].as_array().unwrap().iter().map(|h| refusable(|| {
        let mut e = FileEdit::new(&f);
        for op in h.as_array().unwrap() {
            let text = op[2].as_str().unwrap();
            let node = || ids.1[op[1].as_u64().unwrap() as usize - 1];
            match op[0].as_str().unwrap() {
                "delete" => e.delete(node()),
                "replace" => e.replace_with_text(node(), text.to_string()),
                "insert" => e.insert_text_after(node(), text.to_string()),
                // replacement by another node of the same file
                "copy" => { let src = ids.1[op[3].as_u64().unwrap() as usize - 1]; e.replace(node(), src) }
                _ => {
                    let r = TextRange::from_to(tu(op[1][0].as_u64().unwrap() as u32), tu(op[1][1].as_u64().unwrap() as u32));
                    e.replace_substring(r, text.to_string())
                }
            }
        }
        json!(e.into_text_edit().apply(f.text()).to_string())
    })).collect();
    json!({ "nodes": nodes(&f), "outs": outs })
}
