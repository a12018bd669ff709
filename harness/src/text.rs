//! Ranges, text slices and text edits.
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

use fall_tree::{tu, Text, TextBuf, TextEditBuilder, TextRange, TextSuffix, TextUnit};
use serde_json::{json, Value};

use crate::engine::edit_of;

fn or_no<F: FnOnce() -> Value>(f: F) -> Value {
    // refused: no value
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) { Ok(v) => json!([v]), Err(_) => json!([]) }
}

fn u(v: &Value) -> TextUnit { tu(v.as_u64().unwrap() as u32) }
fn n(t: TextUnit) -> u32 { t.into() }
fn ord(o: Ordering) -> i32 { match o { Ordering::Less => -1, Ordering::Equal => 0, Ordering::Greater => 1 } }
fn r(t: TextRange) -> Value { json!([n(t.start()), n(t.end())]) }
fn cps(s: &str) -> Value { Value::Array(s.chars().map(|c| json!(c as u32)).collect()) }
fn string(v: &Value) -> String { v.as_array().unwrap().iter().map(|c| std::char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect() }
fn hash<T: Hash>(t: &T) -> u64 { let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() }

fn range(c: &Value) -> Value {
    let (a, b, k) = (u(&c["r"][0]), u(&c["r"][1]), u(&c["n"]));
    let make = or_no(|| r(TextRange::from_to(a, b)));
    let read = match serde_json::from_value::<TextRange>(c["r"].clone()) { Ok(x) => json!([r(x)]), Err(_) => json!([]) };
    let len_make = or_no(|| { assert!(a <= b); r(TextRange::from_len(a, b - a)) });
    if make == json!([]) { return json!({ "make": make, "read": read, "len_make": len_make }); }
    let x = TextRange::from_to(a, b);
    let mut out = json!({
        "make": make, "read": read, "len_make": len_make,
        "len": n(x.len()), "empty": x.is_empty(), "show": x.to_string(), "shift": or_no(|| r(x.shift_right(k))),
        "touch": x.contains_offset_nonstrict(k),
    });
    let (qa, qb) = (u(&c["q"][0]), u(&c["q"][1]));
    if qa <= qb {
        let q = TextRange::from_to(qa, qb);
        let o = out.as_object_mut().unwrap();
        o.insert("sub".into(), json!(x.is_subrange_of(q)));
        o.insert("disjoint".into(), json!(x.disjoint(q)));
        o.insert("meets".into(), json!(x.intersects(q)));
        o.insert("glue".into(), or_no(|| r(x.glue(q))));
        o.insert("order".into(), json!(x.partial_cmp(&q).map(ord).unwrap_or(2)));
        o.insert("eq".into(), json!(x == q));
    }
    out
}

fn unit(c: &Value) -> Value {
    let (a, b) = (u(&c["a"]), u(&c["b"]));
    let mut to = a;
    to += b;
    let sub_to = or_no(|| { let mut x = a; x -= b; json!(n(x)) });
    json!({
        "cmp": ord(a.cmp(&b)), "eq": a == b, "add": n(a + b), "add_n": n(a + n(b)),
        "add_to": n(to),
        "sum": n(std::iter::Sum::sum(vec![a, b, a].into_iter())),
        "sub": or_no(|| json!(n(a - b))), "sub_n": or_no(|| json!(n(a - n(b)))), "sub_to": sub_to,
        "num": n(a), "size": a.utf8_len(),
    })
}

fn observe(t: Text, c: &Value) -> Value {
    let needle = string(&c["needle"]);
    let other: TextBuf = string(&c["other"]).into();
    let other_s = string(&c["other"]);
    let os: &str = &other_s;
    let ot = other.as_text();
    let buf = t.to_text_buf();
    let off = |o: Option<TextUnit>| o.map(|x| n(x) as i64).unwrap_or(-1);
    let own = t.to_string();
    json!({
        "str": cps(&own), "cow": cps(&t.to_cow()), "buf": cps(&buf.as_text().to_string()), "shown": cps(&format!("{}", t)),
        "rebuf": cps(&TextBuf::from(t).to_string()),
        "chars": t.chars().map(|c| c as u32).collect::<Vec<_>>(),
        "json": cps(serde_json::to_value(&t).unwrap().as_str().unwrap()),
        "len": n(t.len()), "empty": t.is_empty(), "find": off(t.find(&needle)), "rfind": off(t.rfind(&needle)),
        "has": t.contains(&needle), "starts": t.starts_with(&needle), "ends": t.ends_with(&needle), "trim": cps(&t.trim().to_string()),
        "eqs": [t == ot, ot == t, t == os, os == t, !(t != ot), !(t != os), buf == *os, *os == buf, buf == os, os == buf, t.cmp(&ot) == Ordering::Equal],
        "cmps": [ord(t.cmp(&ot)), -ord(ot.cmp(&t)), t.partial_cmp(&ot).map(ord).unwrap_or(9), t.partial_cmp(&os).map(ord).unwrap_or(9)],
        "lt": t < ot, "le": t <= ot, "gt": t > ot, "ge": t >= ot,
        "hash": hash(&t) == hash(&ot),
    })
}

fn text(c: &Value) -> Value {
    let b: TextBuf = string(&c["s"]).into();
    or_no(|| {
        let mut t = b.as_text();
        for cut in c["cuts"].as_array().unwrap() {
            t = if cut.as_array().unwrap().len() == 2 { t.slice(TextRange::from_to(u(&cut[0]), u(&cut[1]))) }
                else { t.slice(TextSuffix::from(u(&cut[0]))) };
        }
        observe(t, c)
    })
}

fn edit(c: &Value) -> Value {
    let b: TextBuf = string(&c["s"]).into();
    or_no(|| {
        let ops: Vec<Value> = c["ops"].as_array().unwrap().iter()
            .map(|o| if o[0] == "c" { o.clone() } else { json!(["i", string(&o[1])]) }).collect();
        cps(&edit_of(&Value::Array(ops)).apply(b.as_text()).to_string())
    })
}

/// {"s": text, "ops": [[kind, from, to, inserted]...]} through the edit builder.
fn builder(c: &Value) -> Value {
    let b: TextBuf = c["s"].as_str().unwrap().into();
    or_no(|| {
        let mut e = TextEditBuilder::new(b.as_text());
        for o in c["ops"].as_array().unwrap() {
            let (f, t, s) = (u(&o[1]), u(&o[2]), o[3].as_str().unwrap());
            match o[0].as_str().unwrap() {
                "insert" => e.insert(f, s),
                "delete" => e.delete(TextRange::from_to(f, t)),
                _ => e.replace(TextRange::from_to(f, t), s),
            }
        }
        json!({ "text": e.build().apply(b.as_text()).to_string() })
    })
}

/// A list of cases; gives the list of outcomes.
pub fn run(cases: &Value) -> Value {
    Value::Array(cases.as_array().unwrap().iter().map(|c| match c["k"].as_str().unwrap() {
        "range" => range(c),
        "unit" => unit(c),
        "text" => text(c),
        "edit" => edit(c),
        "builder" => builder(c),
        k => panic!("{}", k),
    }).collect())
}
