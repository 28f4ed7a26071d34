//! Runs the written programs and records what they did.  One module per program.
#![allow(unused, dead_code, non_camel_case_types, non_snake_case)]
mod base;
mod items;

use serde_json::{Map, Value, json};
use std::cell::RefCell;
use std::fs::File;
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};

thread_local! { static LOG: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) }; }
/// Notes something a hook or function of a program did.
pub fn note(s: impl Into<String>) { LOG.with(|l| l.borrow_mut().push(s.into())); }
pub fn notes() -> Vec<String> { LOG.with(|l| std::mem::take(&mut *l.borrow_mut())) }

pub struct Rec(File);
impl Rec {
    fn put(&mut self, v: Value) { let mut s = v.to_string(); s.push('\n'); self.0.write_all(s.as_bytes()).unwrap(); }
    pub fn begin(&mut self, id: &str, kind: &str, start: &str) {
        let start: Value = serde_json::from_str(start).unwrap();
        self.put(json!({ "e": "begin", "id": id, "kind": kind, "start": start }));
    }
    /// Runs one operation, and records what it answered.
    pub fn op(&mut self, op: &str, f: impl FnOnce() -> Value) {
        let mut m: Map<String, Value> = serde_json::from_str::<Value>(op).unwrap().as_object().unwrap().clone();
        let got = catch_unwind(AssertUnwindSafe(f)).unwrap_or(json!("panic"));
        m.insert("e".into(), json!("op"));
        m.insert("got".into(), got);
        self.put(Value::Object(m));
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let out = std::env::args().nth(1).unwrap();
    let skip: usize = std::env::args().nth(2).unwrap_or_default().parse().unwrap_or(0);
    let mut rec = Rec(File::options().create(true).append(true).open(out).unwrap());
    for (i, run) in items::ALL.iter().enumerate().skip(skip) { run(&mut rec); }
}
