//! Signals on their own.  The operations a callback performs are scripted by its tag and the number of its call.
use super::*;
use node_tree::prelude::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

struct Drv {
    rec: Rec,
    sigs: Vec<&'static Signal<u32>>,
    progs: HashMap<(u64, u64), Vec<Value>>,   // (tag, number of the call) -> operations
    calls: HashMap<u64, u64>,
    tags: u64,
    left: i64,
}
type D = Rc<RefCell<Drv>>;

fn called(d: &D, tag: u64, v: u32) {
    let ops = {
        let mut x = d.borrow_mut();
        x.rec.put(json!({ "e": "op", "op": "cb", "tag": tag, "v": v }));
        let n = { let c = x.calls.entry(tag).or_insert(0); *c += 1; *c };
        x.left -= 1;
        if x.left <= 0 { Vec::new() } else { x.progs.get(&(tag, n)).cloned().unwrap_or_default() }
    };
    for op in ops { exec(d, &op); }
    d.borrow_mut().rec.put(json!({ "e": "op", "op": "cbret" }));
}

fn exec(d: &D, op: &Value) {
    let n = d.borrow().sigs.len();
    let k = (i(op, "s").max(1) as usize - 1).min(n - 1);
    let sig: &'static Signal<u32> = d.borrow().sigs[k];
    match s(op, "op") {
        "conn" => {
            let tag = { let mut x = d.borrow_mut(); x.tags += 1; x.tags };
            let once = op["once"] == true;
            let d2 = d.clone();
            // The closure has state of its own, as closures do.
            let mut seen = 0u64;
            let cb = move |v: &u32| { seen += 1; called(&d2, tag, *v); let _ = seen; };
            let id = unsafe { if once { sig.connect_once(cb) } else { sig.connect(cb) } };
            d.borrow_mut().rec.put(json!({ "e": "op", "op": "conn", "s": k + 1, "once": once, "tag": tag, "got": id.to_string() }));
        }
        "disc" => {
            let id: u64 = s(op, "id").parse().unwrap_or(u64::MAX);
            let got = sig.disconnect(id);
            d.borrow_mut().rec.put(json!({ "e": "op", "op": "disc", "s": k + 1, "id": id.to_string(), "got": got }));
        }
        "emit" => {
            let v = i(op, "v") as u32;
            d.borrow_mut().rec.put(json!({ "e": "op", "op": "emit", "s": k + 1, "v": v }));
            sig.emit(v);
            d.borrow_mut().rec.put(json!({ "e": "op", "op": "done" }));
        }
        "new" | "clone" => {
            let new: Signal<u32> = match (s(op, "op"), i(op, "how")) { ("clone", _) => sig.clone(), (_, 1) => Signal::default(), (_, 2) => <Signal<u32> as Voidable>::void(), _ => Signal::new() };
            let mut x = d.borrow_mut();
            x.sigs.push(Box::leak(Box::new(new)));
            let what = s(op, "op").to_string();
            x.rec.put(json!({ "e": "op", "op": what, "s": k + 1 }));
        }
        _ => (),
    }
}

pub fn run(rec: &mut Rec, _start: &Value, ops: &[Value], run: &Value) {
    let mut progs = HashMap::new();
    if let Some(a) = run["progs"].as_array() {
        for p in a { progs.insert((i(p, "tag") as u64, i(p, "n") as u64), p["ops"].as_array().unwrap().clone()); }
    }
    let d = Rc::new(RefCell::new(Drv { rec: Rec { out: rec.out.try_clone().unwrap() }, sigs: vec![Box::leak(Box::new(Signal::new()))], progs,
        calls: HashMap::new(), tags: 0, left: 60 }));
    for op in ops { exec(&d, op); }
    d.borrow_mut().rec.put(json!({ "e": "op", "op": "end" }));
}
