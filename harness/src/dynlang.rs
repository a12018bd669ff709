//! A `Language` built at run time from a description: node types, lexical rules, expressions.
use std::any::Any;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

use fall_parse::runtime as rt;
use fall_tree::{Language, LanguageImpl, Metrics, NodeType, NodeTypeInfo, Text, TextEdit, TreeBuilder};
use serde_json::Value;

struct Impl {
    me: Arc<Mutex<Option<Language>>>,
    lexer: rt::RegexLexer,
    parser: rt::ParserDefinition,
    infos: HashMap<u32, NodeTypeInfo>,
}

impl LanguageImpl for Impl {
    fn parse(&self, text: Text, metrics: &Metrics, builder: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> {
        let lang = self.me.lock().unwrap().clone().unwrap();
        rt::parse(&lang, &self.lexer, &self.parser, text, metrics, builder)
    }
    fn reparse(&self, data: &dyn Any, edit: &TextEdit, new_text: Text, metrics: &Metrics, builder: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> {
        let lang = self.me.lock().unwrap().clone().unwrap();
        rt::reparse(&lang, &self.lexer, &self.parser, data, edit, new_text, metrics, builder)
    }
    fn node_type_info(&self, ty: NodeType) -> NodeTypeInfo {
        self.infos[&ty.0]
    }
}

// Attachment rules the generated languages use; the specification has the same ones.
fn bind_none(_: NodeType, _: Vec<(NodeType, &str)>, _: bool) -> usize { 0 }
/// Even types take all leading, odd types all trailing skipped tokens.
fn bind_parity(ty: NodeType, s: Vec<(NodeType, &str)>, leading: bool) -> usize {
    if (ty.0 % 2 == 0) == leading { s.len() } else { 0 }
}
/// Takes the adjacent comments (type 2) and single blanks in between, up to the first other token.
fn bind_comments(ty: NodeType, s: Vec<(NodeType, &str)>, leading: bool) -> usize {
    if ty.0 % 3 == 0 { return 0; }
    if leading {
        s.iter().rev().take_while(|&&(t, txt)| t.0 == 2 || txt.len() == 1).count()
    } else {
        s.iter().take_while(|&&(t, txt)| t.0 == 2 || txt.len() == 1).count()
    }
}
/// At most one token on either side.
fn bind_one(_: NodeType, s: Vec<(NodeType, &str)>, _: bool) -> usize { if s.is_empty() { 0 } else { 1 } }

pub fn custom_fn(name: &str) -> rt_custom::F {
    rt_custom::get(name)
}

pub mod rt_custom {
    pub type F = fn(&str) -> Option<usize>;
    /// To the closing `"` followed by as many `#` as the opening has; declines if there is none.
    fn raw_string(s: &str) -> Option<usize> {
        let quote_start = s.find('"')?;
        let mut closing = String::from("\"");
        for _ in 1..quote_start { closing.push('#'); }
        if quote_start > 31 { return None; }
        s[quote_start + 1..].find(&closing).map(|i| i + quote_start + 1 + closing.len())
    }
    /// A nested block comment, to the end of the text when unterminated.
    fn block_comment(s: &str) -> Option<usize> {
        let b = s.as_bytes();
        let (mut i, mut level) = (2, 1);
        while i < b.len() && level > 0 {
            if s[i..].starts_with("/*") { level += 1; i += 2; }
            else if s[i..].starts_with("*/") { level -= 1; i += 2; }
            else { i += 1; while !s.is_char_boundary(i) { i += 1; } }
        }
        Some(i)
    }
    /// To and including the next `!`; declines if there is none.
    fn until_bang(s: &str) -> Option<usize> { s.find('!').map(|i| i + 1) }
    /// One character more than the pattern, if there is one.
    fn grab_two(s: &str) -> Option<usize> { s.char_indices().nth(2).map(|(i, _)| i).or(Some(s.len())) }
    fn decline(_: &str) -> Option<usize> { None }
    pub fn get(name: &str) -> F {
        match name {
            "parse_raw_string" => raw_string,
            "parse_block_comment" => block_comment,
            "until_bang" => until_bang,
            "grab_two" => grab_two,
            "decline" => decline,
            _ => panic!("no custom rule {}", name),
        }
    }
}

fn leak(s: &str) -> &'static str { Box::leak(s.to_string().into_boxed_str()) }

/// {"types": [[ty, name, ws]...] (index = NodeTypeRef), "lex": [[ty, regex, fn|null]...],
///  "rules": fall_parse expressions (JSON), "binder": name}
pub fn build(d: &Value) -> Language {
    let mut node_types = Vec::new();
    let mut infos = HashMap::new();
    for t in d["types"].as_array().unwrap() {
        let ty = t[0].as_u64().unwrap() as u32;
        node_types.push(NodeType(ty));
        infos.insert(ty, NodeTypeInfo { name: leak(t[1].as_str().unwrap()), whitespace_like: t[2].as_bool().unwrap() });
    }
    let lex = d["lex"].as_array().unwrap().iter().map(|r| {
        rt::LexRule::new(
            NodeType(r[0].as_u64().unwrap() as u32),
            r[1].as_str().unwrap(),
            r[2].as_str().map(custom_fn),
        )
    }).collect();
    let rules = rt::parser_from_str(&d["rules"].to_string());
    let parser = rt::ParserDefinition {
        node_types,
        syntactical_rules: rules,
        whitespace_binder: match d["binder"].as_str().unwrap_or("none") {
            "none" => bind_none,
            "parity" => bind_parity,
            "comments" => bind_comments,
            "one" => bind_one,
            b => panic!("no binder {}", b),
        },
    };
    let me = Arc::new(Mutex::new(None));
    let lang = Language::new(Impl { me: me.clone(), lexer: rt::RegexLexer::new(lex), parser, infos });
    *me.lock().unwrap() = Some(lang.clone());
    lang
}
