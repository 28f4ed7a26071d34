//! Runs objects which live outside a tree (or with a tree of their own): one event per operation.
//! A run is {"id", "kind", "start", "ops"}; what each operation answered is recorded for TLC.
pub mod codec;
pub mod combi;
pub mod doc;
pub mod field;
pub mod gen_obj;
pub mod logger;
pub mod pure;
pub mod rid;
pub mod sig;

use serde_json::{Map, Value, json};
use std::fs::File;
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};

pub struct Rec { pub out: File }
impl Rec {
    pub fn put(&mut self, v: Value) {
        // One write per event, so that a crash loses nothing.
        let mut s = serde_json::to_string(&v).unwrap();
        s.push('\n');
        self.out.write_all(s.as_bytes()).unwrap();
    }
}

pub fn i(v: &Value, k: &str) -> i64 { v.get(k).and_then(|x| x.as_i64()).unwrap_or(0) }
pub fn s<'a>(v: &'a Value, k: &str) -> &'a str { v.get(k).and_then(|x| x.as_str()).unwrap_or("") }

/// What an operation did not return because it panicked.
pub fn guarded(f: impl FnOnce() -> Value) -> Value {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or(json!("panic"))
}
pub fn opt<T: Into<Value>>(x: Option<T>) -> Value { match x { Some(v) => json!([v.into()]), None => json!([]) } }

/// The event of an operation: its arguments and what it answered.
pub fn event(op: &Value, extra: Value) -> Value {
    let mut m: Map<String, Value> = op.as_object().unwrap().clone();
    m.insert("e".into(), json!("op"));
    if let Value::Object(x) = extra { m.extend(x); }
    Value::Object(m)
}

pub fn run(out: &File, run: &Value) {
    let mut rec = Rec { out: out.try_clone().unwrap() };
    let kind = s(run, "kind");
    rec.put(json!({ "e": "begin", "id": run["id"], "kind": kind, "start": run["start"] }));
    let ops = run["ops"].as_array().unwrap();
    match kind {
        "rid" => rid::run(&mut rec, &run["start"], ops),
        "field" => field::run(&mut rec, &run["start"], ops),
        "opt" => combi::run(&mut rec, &run["start"], ops),
        "sig" => sig::run(&mut rec, &run["start"], ops, run),
        "log" => logger::run(&mut rec, &run["start"], ops),
        "codec" | "glam" => codec::run(&mut rec, &run["start"], ops),
        "doc" => doc::run(&mut rec, ops),
        "name" | "path" => pure::run(&mut rec, kind, ops),
        _ => { eprintln!("unknown kind {kind}"); std::process::exit(2); }
    }
}
