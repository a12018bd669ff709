//! Grammar sources: analysis, name resolution, usages, outline, highlighting.
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Barrier, Mutex};

use fall_editor::{EditorFileImpl, Severity};
use fall_tree::{tu, AstNode, File, Node, TextRange};
use lang_fall::syntax::*;
use lang_fall::{Analysis, Arity, CallKind, ChildKind, FileWithAnalysis, MethodKind, PratVariant, RefKind};
use serde_json::{json, Value};

use crate::sched;

type Ids<'f> = HashMap<Node<'f>, usize>;

fn walk<'f>(node: Node<'f>, out: &mut Vec<Node<'f>>) {
    out.push(node);
    for k in node.children() { walk(k, out) }
}

pub fn numbered(file: &File) -> (Vec<Node>, Ids) {
    let mut nodes = Vec::new();
    walk(file.root(), &mut nodes);
    let ids = nodes.iter().enumerate().map(|(i, &n)| (n, i + 1)).collect();
    (nodes, ids)
}

pub fn range(r: TextRange) -> Value { json!([u32::from(r.start()), u32::from(r.end())]) }

pub fn tree<'f>(file: &'f File, nodes: &[Node<'f>], ids: &Ids<'f>) -> Value {
    let lang = file.language();
    let rows: Vec<Value> = nodes.iter().map(|&n| {
        let kids: Vec<usize> = n.children().map(|k| ids[&k]).collect();
        json!([lang.node_type_info(n.ty()).name, u32::from(n.range().start()), u32::from(n.range().end()),
               n.parent().map_or(0, |p| ids[&p]), kids])
    }).collect();
    let txt: Vec<String> = nodes.iter().map(|&n| if n.children().next().is_none() { n.text().to_string() } else { String::new() }).collect();
    json!([rows, txt])
}

fn id<'f, N: AstNode<'f>>(ids: &Ids<'f>, n: N) -> usize { ids[&n.node()] }

fn ask<'f>(a: &Analysis<'f>, ids: &Ids<'f>, kind: &str, n: Node<'f>) -> Option<Value> {
    let arity = |x| match x { Arity::Single => "single", Arity::Optional => "optional", Arity::Many => "many" };
    Some(match kind {
        "ref" => match a.resolve_reference(RefExpr::wrap(n)?) {
            None => json!([]),
            Some(RefKind::Token(t)) => json!(["token", id(ids, t)]),
            Some(RefKind::RuleReference(t)) => json!(["rule", id(ids, t)]),
            Some(RefKind::Param(t)) => json!(["param", id(ids, t)]),
        },
        "call" => match a.resolve_call(CallExpr::wrap(n)?) {
            None => json!([]),
            Some(k) => match k {
                CallKind::Eof => json!(["eof"]),
                CallKind::Any => json!(["any"]),
                CallKind::Commit => json!(["commit"]),
                CallKind::Not(e) => json!(["not", id(ids, e)]),
                CallKind::Layer(e, f) => json!(["layer", id(ids, e), id(ids, f)]),
                CallKind::WithSkip(e, f) => json!(["with_skip", id(ids, e), id(ids, f)]),
                CallKind::Inject(e, f) => json!(["inject", id(ids, e), id(ids, f)]),
                CallKind::Enter(c, e) => json!(["enter", c, id(ids, e)]),
                CallKind::Exit(c, e) => json!(["exit", c, id(ids, e)]),
                CallKind::IsIn(c) => json!(["is_in", c]),
                CallKind::RuleCall(r, args) =>
                    json!(["rule", id(ids, r), args.iter().map(|&(p, e)| json!([id(ids, p), id(ids, e)])).collect::<Vec<_>>()]),
                CallKind::PrevIs(rs) => json!(["prev_is", rs.iter().map(|&r| id(ids, r)).collect::<Vec<_>>()]),
            },
        },
        "pratt" => match a.resolve_pratt_variant(SynRule::wrap(n)?) {
            None => json!([]),
            Some(PratVariant::Atom(e)) => json!(["atom", id(ids, e), 0]),
            Some(PratVariant::Bin(o)) => json!(["bin", id(ids, o.op), o.priority]),
            Some(PratVariant::Postfix(o)) => json!(["postfix", id(ids, o.op), o.priority]),
            Some(PratVariant::Prefix(o)) => json!(["prefix", id(ids, o.op), o.priority]),
        },
        "method" => match a.resolve_method(MethodDef::wrap(n)?) {
            None => json!([]),
            Some(MethodKind::NodeAccessor(k, r)) => json!(["node", match k {
                ChildKind::AstNode(x) => id(ids, x),
                ChildKind::AstClass(x) => id(ids, x),
                ChildKind::Token(x) => id(ids, x),
            }, arity(r)]),
            Some(MethodKind::TextAccessor(t, r)) => json!(["text", id(ids, t), arity(r)]),
        },
        "traits" => json!(a.ast_node_traits(AstNodeDef::wrap(n)?).iter().map(|&t| id(ids, t)).collect::<Vec<_>>()),
        _ => return None,
    })
}

fn diagnostics(a: &Analysis) -> Value {
    let ds: Vec<Value> = a.collect_all_diagnostics().into_iter().map(|d| {
        let s = match d.severity { Severity::Error => 0, Severity::Warning => 1 };
        json!([s, u32::from(d.range.start()), u32::from(d.range.end()), d.message])
    }).collect();
    json!(ds)
}

/// All questions the analysis can be asked, in tree order.
fn questions<'f>(nodes: &[Node<'f>]) -> Vec<(&'static str, Node<'f>)> {
    let mut out = Vec::new();
    for &n in nodes {
        if RefExpr::wrap(n).is_some() { out.push(("ref", n)) }
        if CallExpr::wrap(n).is_some() { out.push(("call", n)) }
        if SynRule::wrap(n).is_some() { out.push(("pratt", n)) }
        if MethodDef::wrap(n).is_some() { out.push(("method", n)) }
        if AstNodeDef::wrap(n).is_some() { out.push(("traits", n)) }
    }
    out
}

struct Rng(u64);
impl Rng {
    fn next(&mut self, n: usize) -> usize {
        self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17;
        (self.0 % n as u64) as usize
    }
}

/// One use of an analysis: questions in some order, from some threads; then the diagnostics.
fn usage(file: &File, seed: u64, threads: usize) -> Value {
    let whole = FileWithAnalysis::try_from(file.language().parse(file.text().to_string())).ok().unwrap();
    whole.analyse(|a| {
        let file: &File = a.file();
        // the nodes are those of the analysed copy
        let (nodes, ids) = numbered(file);
        let qs = questions(&nodes);
        let found: Mutex<BTreeMap<(&str, usize), Vec<Value>>> = Mutex::new(BTreeMap::new());
        let bad = Mutex::new(Vec::new());
        let gate = Barrier::new(threads);
        let one = |seed: u64| {
            let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1);
            let mut todo: Vec<(&str, Node)> = qs.clone();
            if seed > 0 {
                for i in (1..todo.len()).rev() { todo.swap(i, r.next(i + 1)) }
                let extra = todo.len() / 3;
                for _ in 0..extra { let q = todo[r.next(todo.len())]; let at = r.next(todo.len() + 1); todo.insert(at, q) }
                if seed % 3 == 0 { let k = r.next(todo.len() + 1); todo.truncate(k) }
            }
            let stop = if seed > 0 && seed % 2 == 0 { r.next(todo.len() + 1) } else { usize::max_value() };
            gate.wait();
            for (i, (k, n)) in todo.into_iter().enumerate() {
                if i == stop && catch_unwind(AssertUnwindSafe(|| diagnostics(a))).is_err() { bad.lock().unwrap().push(json!("diagnostics")); return; }
                let v = match catch_unwind(AssertUnwindSafe(|| ask(a, &ids, k, n).unwrap())) {
                    Ok(v) => v,
                    Err(_) => { bad.lock().unwrap().push(json!([k, ids[&n]])); return; }
                };
                let mut f = found.lock().unwrap();
                let e = f.entry((k, ids[&n])).or_insert_with(Vec::new);
                if !e.contains(&v) { e.push(v) }
            }
        };
        if threads == 1 { one(seed) } else { run_threads(threads, seed, &one) }
        let d = match catch_unwind(AssertUnwindSafe(|| json!([diagnostics(a), diagnostics(a)]))) { Ok(v) => v, Err(_) => json!([]) };
        let found = found.into_inner().unwrap();
        let ans: Vec<Value> = found.iter().flat_map(|((k, n), vs)| vs.iter().map(move |v| json!([k, n, v]))).collect();
        let bad = bad.into_inner().unwrap();
        json!({ "ans": ans, "diags": d, "bad": bad })
    })
}

/// Runs the closure on several threads that may share borrowed data.
fn run_threads<'a>(threads: usize, seed: u64, one: &'a (dyn Fn(u64) + Sync + 'a)) {
    let one: &'static (dyn Fn(u64) + Sync + 'static) = unsafe { std::mem::transmute(one) };
    let hs: Vec<_> = (0..threads as u64).map(|t| {
        std::thread::Builder::new().stack_size(16 << 20).spawn(move || one(seed * 16 + t + 1)).unwrap()
    }).collect();
    for h in hs { let _ = h.join(); }
}

fn refusable<F: FnOnce() -> Value>(f: F) -> Value {
    match catch_unwind(AssertUnwindSafe(f)) { Ok(v) => json!([v]), Err(_) => json!([]) }
}

pub fn run(case: &Value) -> Value {
    let text = case["text"].as_str().unwrap();
    let file = lang_fall::parse(text.to_string());
    let (nodes, ids) = numbered(&file);
    let t = tree(&file, &nodes, &ids);
    let mut runs: Vec<Value> = Vec::new();
    let mut n_runs = 0;
    let mut add = |v: Value| { n_runs += 1; if !runs.contains(&v) { runs.push(v) } };
    add(usage(&file, 0, 1));
    for s in case["seeds"].as_array().unwrap() { add(usage(&file, s.as_u64().unwrap(), 1)) }
    for s in case["threads"].as_array().unwrap() { add(usage(&file, s[1].as_u64().unwrap(), s[0].as_u64().unwrap() as usize)) }
    let mut out = json!({ "nodes": t[0], "txt": t[1], "runs": runs, "n_runs": n_runs });
    if case["editor"].as_bool().unwrap_or(false) {
        let fresh = || FileWithAnalysis::parse(text);
        let step = case["step"].as_u64().unwrap_or(1) as usize;
        let offsets: Vec<u32> = (0..=text.len()).step_by(step).map(|o| o as u32).collect();
        let f = fresh();
        let refs = if case["refs"].as_bool().unwrap_or(true) { offsets.clone() } else { Vec::new() };
        let goto: Vec<Value> = refs.iter().map(|&o| refusable(|| f.resolve_reference(tu(o)).map_or(json!([]), range))).collect();
        let f = fresh();
        let uses: Vec<Value> = refs.iter().map(|&o| refusable(|| json!(f.find_usages(tu(o)).into_iter().map(range).collect::<Vec<_>>()))).collect();
        let tests: Vec<Value> = offsets.iter().map(|&o| refusable(|| f.test_at_offset(tu(o)).map_or(json!([]), |i| json!([i])))).collect();
        let hl = refusable(|| json!(fresh().highlight().into_iter().map(|(r, t)| json!([u32::from(r.start()), u32::from(r.end()), t.0])).collect::<Vec<_>>()));
        let st = refusable(|| json!(fresh().structure().into_iter().map(|s| json!([s.name, u32::from(s.range.start()), u32::from(s.range.end()), s.children.len()])).collect::<Vec<_>>()));
        let dg = refusable(|| json!(fresh().diagnostics().len()));
        out["offsets"] = json!(offsets);
        out["goto"] = json!(goto);
        out["uses"] = json!(uses);
        out["tests"] = json!(tests);
        out["hl"] = hl;
        out["structure"] = st;
        out["n_diags"] = dg;
    }
    out
}

type Found = Mutex<BTreeMap<(&'static str, usize), Vec<Value>>>;

/// One run of the programs, one per thread, under a script of the scheduler.
fn scripted(text: &str, programs: &[Vec<Value>], script: &[usize]) -> (Value, sched::Outcome) {
    let whole: &'static FileWithAnalysis = Box::leak(Box::new(FileWithAnalysis::try_from(lang_fall::parse(text.to_string())).ok().unwrap()));
    whole.analyse(|a| {
        let (nodes, ids) = numbered(a.file());
        let qs = questions(&nodes);
        let found: Found = Mutex::new(BTreeMap::new());
        let bad = Mutex::new(Vec::new());
        let mid: Mutex<Vec<Value>> = Mutex::new(Vec::new());
        // what is recorded inside a thread is kept apart until it ends: recording takes no lock
        let out = {
            let one = |t: usize| {
                let mut got: Vec<(&'static str, usize, Value)> = Vec::new();
                let mut failed = Vec::new();
                let mut collected = Vec::new();
                for step in &programs[t] {
                    let i = step.as_i64().unwrap();
                    if i < 0 {
                        match catch_unwind(AssertUnwindSafe(|| diagnostics(a))) {
                            Ok(d) => collected.push(d),
                            Err(_) => failed.push(json!("diagnostics")),
                        }
                        continue;
                    }
                    if qs.is_empty() { continue }
                    let (k, n) = qs[i as usize % qs.len()];
                    match catch_unwind(AssertUnwindSafe(|| ask(a, &ids, k, n).unwrap())) {
                        Ok(v) => got.push((k, ids[&n], v)),
                        Err(_) => failed.push(json!([k, ids[&n]])),
                    }
                }
                sched::outside(|| {
                    let mut f = found.lock().unwrap();
                    for (k, n, v) in got {
                        let e = f.entry((k, n)).or_insert_with(Vec::new);
                        if !e.contains(&v) { e.push(v) }
                    }
                    bad.lock().unwrap().extend(failed);
                    let mut m = mid.lock().unwrap();
                    for d in collected { if !m.contains(&d) { m.push(d) } }
                });
            };
            let one: &(dyn Fn(usize) + Sync) = &one;
            sched::run(programs.len(), script, one)
        };
        if out.deadlock {
            // the threads stay where they are: keep what they use
            let v = json!({ "ans": [], "diags": [], "bad": ["deadlock"] });
            std::mem::forget((nodes, ids, qs, found, bad, mid));
            return (v, out);
        }
        let mut d = match catch_unwind(AssertUnwindSafe(|| json!([diagnostics(a), diagnostics(a)]))) { Ok(v) => v, Err(_) => json!([]) };
        if let Some(d) = d.as_array_mut() { if !d.is_empty() { d.extend(mid.into_inner().unwrap()) } }
        let found = found.into_inner().unwrap();
        let ans: Vec<Value> = found.iter().flat_map(|((k, n), vs)| vs.iter().map(move |v| json!([k, n, v]))).collect();
        (json!({ "ans": ans, "diags": d, "bad": bad.into_inner().unwrap() }), out)
    })
}

/// Schedules given, and all schedules with a bounded number of preemptions.
pub fn schedules(case: &Value) -> Value {
    let text = case["text"].as_str().unwrap();
    let file = lang_fall::parse(text.to_string());
    let (nodes, ids) = numbered(&file);
    let t = tree(&file, &nodes, &ids);
    let programs: Vec<Vec<Value>> = case["programs"].as_array().unwrap().iter().map(|p| p.as_array().unwrap().clone()).collect();
    let ints = |v: &Value| -> Vec<usize> { v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect() };
    let mut runs = vec![usage(&file, 0, 1)];
    let mut n_runs = 0;
    let mut points = 0;
    let mut free = 0;
    let mut stop = false;
    let mut go = |script: &[usize]| -> Option<sched::Outcome> {
        if stop { return None }
        let (v, o) = scripted(text, &programs, script);
        n_runs += 1;
        points += o.log.len();
        if o.free { free += 1 }
        if !runs.contains(&v) { runs.push(v) }
        if o.deadlock || free > 3 { stop = true }
        Some(o)
    };
    for s in case["scripts"].as_array().unwrap() { go(&ints(s)); }
    let bound = case["bound"].as_u64().unwrap();
    let max = case["max"].as_u64().unwrap();
    let mut todo: Vec<(Vec<usize>, u64)> = if max > 0 { vec![(Vec::new(), 0)] } else { Vec::new() };
    let mut n = 0;
    while let Some((prefix, used)) = todo.pop() {
        if n >= max { break }
        n += 1;
        let o = match go(&prefix) { Some(o) => o, None => break };
        let chosen: Vec<usize> = o.log.iter().map(|l| l.1).collect();
        let mut cost = used;
        for i in prefix.len()..o.log.len() {
            let (ready, next, me) = o.log[i];
            for t in 0..programs.len() {
                if t == next || ready >> t & 1 == 0 { continue }
                // leaving a thread that could go on is a preemption, except at the very start
                let c = cost + if i > 0 && ready >> me & 1 == 1 && t != me { 1 } else { 0 };
                if c <= bound {
                    let mut p = chosen[..i].to_vec();
                    p.push(t);
                    todo.push((p, c));
                }
            }
            if i > 0 && ready >> me & 1 == 1 && next != me { cost += 1 }
        }
    }
    json!({ "nodes": t[0], "txt": t[1], "runs": runs, "n_runs": n_runs, "points": points, "free": free, "complete": todo.is_empty() })
}
