//! Tree options and results.
use super::*;
use node_tree::prelude::*;
use node_tree::structs::node_base::NodeStatus;
use node_tree::trees::TreeSimple;
use std::cell::RefCell;

class! { pub declare Cnode; }

type O = TreeOption<'static, i64>;
type R = TreeResult<'static, i64, i64>;
enum Cur { O(O), R(R), End }

fn mo(t: *mut dyn NodeTree, own: u64, x: &Value) -> O {
    let x = x.as_array().and_then(|a| a.first()).and_then(|v| v.as_i64());
    unsafe { TreeOption::new(t, own, x) }
}
fn mr(t: *mut dyn NodeTree, own: u64, x: &Value) -> R {
    let v = x[1].as_i64().unwrap_or(0);
    unsafe { TreeResult::new(t, own, if x[0] == "ok" { Ok(v) } else { Err(v) }) }
}
fn vo(o: Option<i64>) -> Value { opt(o) }
fn vr(r: Result<i64, i64>) -> Value { match r { Ok(v) => json!(["ok", v]), Err(v) => json!(["err", v]) } }

pub fn run(rec: &mut Rec, start: &Value, ops: &[Value]) {
    let mut sc = NodeScene::new(Cnode::new());
    sc.append(NodeScene::new(Cnode::new()));
    sc.append(NodeScene::new(Cnode::new()));
    let mut tree: Box<TreeSimple> = TreeSimple::new(sc, LoggerVerbosity::NoDebug);
    for (u, n) in [(0, "R"), (1, "A"), (2, "B")] { tree.get_node_mut(u).unwrap().set_name(n); }
    let own = i(start, "own") as u64;
    if s(start, "gone") == "yes" { tree.get_node_mut(own).unwrap().free(); }
    let t: *mut dyn NodeTree = tree.as_dyn_raw_mut();
    let x = &start["x"];
    let mut cur = if s(start, "sh") == "opt" { Cur::O(mo(t, own, x)) } else { Cur::R(mr(t, own, x)) };
    let mut seen = tree.get_log().len();
    let calls: RefCell<Vec<Value>> = RefCell::new(Vec::new());
    for op in ops {
        if matches!(cur, Cur::End) { break; }
        calls.borrow_mut().clear();
        let now = std::mem::replace(&mut cur, Cur::End);
        let got = guarded(|| {
            let (c, g) = match now {
                Cur::O(o) => run_o(t, o, op, &calls),
                Cur::R(r) => run_r(t, r, op, &calls),
                Cur::End => (Cur::End, json!("end")),
            };
            cur = c;
            g
        });
        let shown = match &cur {
            Cur::O(o) => json!({ "sh": "opt", "x": vo(o.clone().to_option()) }),
            Cur::R(r) => json!({ "sh": "res", "x": vr(r.clone().to_result()) }),
            Cur::End => json!({ "sh": "end", "x": [] }),
        };
        let text = tree.get_log().to_string();
        let lines: Vec<Value> = text[seen.min(text.len())..].lines().filter_map(|l| {
            let p: Vec<&str> = l.splitn(4, " | ").collect();
            if l.starts_with('<') && p.len() == 4 { Some(json!([p[1], p[2], p[3]])) } else { None }
        }).collect();
        seen = text.len();
        let st: Vec<Value> = (0..3).map(|u| match tree.get_node(u) {
            None => json!("none"),
            Some(n) => match n.status() { NodeStatus::Normal => json!("normal"), NodeStatus::JustWarned(_) => json!("warned"), NodeStatus::JustPanicked(m) => json!(format!("panicked {m}")) },
        }).collect();
        rec.put(event(op, json!({ "got": got, "calls": *calls.borrow(), "cur": shown, "o": { "lg": lines, "st": st } })));
    }
    rec.put(json!({ "e": "op", "op": "end", "got": tree.process().has_terminated() }));
}

fn pred(v: i64) -> bool { v % 2 == 0 }

fn run_o(t: *mut dyn NodeTree, mut o: O, op: &Value, calls: &RefCell<Vec<Value>>) -> (Cur, Value) {
    let v = i(op, "v");
    let other = |k: &str| mo(t, 0, &op[k]);
    let f = |x: i64| { calls.borrow_mut().push(json!(x)); x + 1 };
    let p = |x: i64| { calls.borrow_mut().push(json!(x)); pred(x) };
    let unit = || calls.borrow_mut().push(json!("()"));
    let end = |g: Value| (Cur::End, g);
    let next = |o: O| (Cur::O(o), json!("ok"));
    match s(op, "op") {
        "to_option" => end(vo(o.to_option())),
        "is_some" => { let g = json!(o.is_some()); (Cur::O(o), g) }
        "is_none" => { let g = json!(o.is_none()); (Cur::O(o), g) }
        "is_some_and" => { let g = json!(o.is_some_and(|x| p(*x))); (Cur::O(o), g) }
        "as_ref" => { let g = vo(o.as_ref().to_option().copied()); (Cur::O(o), g) }
        "as_mut" => { if let Some(x) = o.as_mut().to_option() { *x += 1; } next(o) }
        "as_slice" => { let g = json!(o.as_slice()); (Cur::O(o), g) }
        "as_mut_slice" => { for x in o.as_mut_slice() { *x += 1; } next(o) }
        "expect" => end(json!(o.expect(s(op, "m")))),
        "unwrap" => end(json!(o.unwrap())),
        "unwrap_or" => end(json!(o.unwrap_or(v))),
        "unwrap_or_else" => end(json!(o.unwrap_or_else(|| { unit(); v }))),
        "unwrap_or_default" => end(json!(o.unwrap_or_default())),
        "unwrap_unchecked" => if o.is_some() { end(json!(unsafe { o.unwrap_unchecked() })) } else { end(json!("skipped")) },
        "map" => next(o.map(f)),
        "inspect" => next(o.inspect(|x| { f(*x); })),
        "map_or" => end(json!(o.map_or(v, f))),
        "map_or_else" => end(json!(o.map_or_else(|| { unit(); v }, f))),
        "ok_or" => (Cur::R(o.ok_or(v)), json!("ok")),
        "ok_or_else" => (Cur::R(o.ok_or_else(|| { unit(); v })), json!("ok")),
        "as_deref" => { let b = o.clone().map(Box::new); let g = vo(b.as_deref().to_option().copied()); (Cur::O(o), g) }
        "as_deref_mut" => { let mut b = o.map(Box::new); if let Some(x) = b.as_deref_mut().to_option() { *x += 1; } next(b.map(|x| *x)) }
        "iter" => { let g = json!(o.iter().collect::<Vec<_>>()); (Cur::O(o), g) }
        "iter_mut" => { for x in o.iter_mut() { *x += 1; } next(o) }
        "and" => next(o.and(other("y"))),
        "and_then" => next(o.and_then(|x| { f(x); other("y") })),
        "filter" => next(o.filter(|x| p(*x))),
        "or" => next(o.or(other("y"))),
        "or_else" => next(o.or_else(|| { unit(); other("y") })),
        "xor" => next(o.xor(other("y"))),
        "insert" => { let r = o.insert(v); let g = json!(*r); *r += 1; (Cur::O(o), g) }
        "get_or_insert" => { let r = o.get_or_insert(v); let g = json!(*r); *r += 1; (Cur::O(o), g) }
        "get_or_insert_default" => { let r = o.get_or_insert_default(); let g = json!(*r); *r += 1; (Cur::O(o), g) }
        "get_or_insert_with" => { let r = o.get_or_insert_with(|| { unit(); v }); let g = json!(*r); *r += 1; (Cur::O(o), g) }
        "take" => { let g = vo(o.take().to_option()); (Cur::O(o), g) }
        "take_if" => { let g = vo(o.take_if(|x| { *x += 1; p(*x) }).to_option()); (Cur::O(o), g) }
        "replace" => { let g = vo(o.replace(v)); (Cur::O(o), g) }
        "zip" => { let z = o.zip(other("y")); let g = match z.as_ref().to_option() { Some((a, b)) => json!([[a, b]]), None => json!([]) }; (Cur::O(z.map(|(a, _)| a)), g) }
        "unzip" => { let (a, b) = o.map(|x| (x, x + 1)).unzip(); let g = json!([vo(a.to_option()), vo(b.clone().to_option())]); (Cur::O(b), g) }
        "transfer_owner" => next(o.transfer_owner(other("y"))),
        "copied" => { let g = vo(o.as_ref().copied().to_option()); (Cur::O(o), g) }
        "cloned" => { let g = vo(o.as_ref().cloned().to_option()); (Cur::O(o), g) }
        "copied_mut" => { let g = vo(o.as_mut().copied().to_option()); (Cur::O(o), g) }
        "cloned_mut" => { let g = vo(o.as_mut().cloned().to_option()); (Cur::O(o), g) }
        "transpose" => {
            let z: TreeOption<TreeResult<i64, i64>> = o.map(|x| unsafe { TreeResult::new(t, 0, if pred(x) { Ok(x) } else { Err(x) }) });
            let r = z.transpose().map(|y| y.to_option());
            let g = match r.as_ref().to_result() { Ok(x) => json!(["ok", vo(*x)]), Err(e) => json!(["err", e]) };
            (Cur::R(r.map(|x| x.unwrap_or(-1))), g)
        }
        "flatten" => next(o.map(|x| unsafe { TreeOption::new(t, 0, if pred(x) { Some(x) } else { None }) }).flatten()),
        _ => { (Cur::O(o), json!("?")) }
    }
}

fn run_r(t: *mut dyn NodeTree, mut r: R, op: &Value, calls: &RefCell<Vec<Value>>) -> (Cur, Value) {
    let v = i(op, "v");
    let other = |k: &str| mr(t, 0, &op[k]);
    let f = |x: i64| { calls.borrow_mut().push(json!(x)); x + 1 };
    let p = |x: i64| { calls.borrow_mut().push(json!(x)); pred(x) };
    let end = |g: Value| (Cur::End, g);
    let next = |r: R| (Cur::R(r), json!("ok"));
    match s(op, "op") {
        "to_result" => end(vr(r.to_result())),
        "to_option" => end(vo(r.to_option())),
        "is_ok" => { let g = json!(r.is_ok()); (Cur::R(r), g) }
        "is_err" => { let g = json!(r.is_err()); (Cur::R(r), g) }
        "is_ok_and" => { let g = json!(r.is_ok_and(|x| p(*x))); (Cur::R(r), g) }
        "is_err_and" => { let g = json!(r.is_err_and(|x| p(*x))); (Cur::R(r), g) }
        "ok" => (Cur::O(r.ok()), json!("ok")),
        "err" => (Cur::O(r.err()), json!("ok")),
        "as_ref" => { let g = vr(match r.as_ref().to_result() { Ok(x) => Ok(*x), Err(x) => Err(*x) }); (Cur::R(r), g) }
        "as_mut" => { match r.as_mut().to_result() { Ok(x) => *x += 1, Err(x) => *x += 2 }; next(r) }
        "map" => next(r.map(f)),
        "map_or" => end(json!(r.map_or(v, f))),
        "map_or_else" => end(json!(r.map_or_else(|e| { calls.borrow_mut().push(json!(["e", e])); v }, f))),
        "map_err" => next(r.map_err(f)),
        "inspect" => next(r.inspect(|x| { f(*x); })),
        "inspect_err" => next(r.inspect_err(|x| { f(*x); })),
        "as_deref" => { let b = r.clone().map(Box::new); let g = vr(match b.as_deref().to_result() { Ok(x) => Ok(*x), Err(x) => Err(*x) }); (Cur::R(r), g) }
        "as_deref_mut" => {
            let mut b = r.map(Box::new);
            { let b2: &mut TreeResult<'static, Box<i64>, i64> = unsafe { &mut *(&mut b as *mut _) };
              match b2.as_deref_mut().to_result() { Ok(x) => *x += 1, Err(x) => *x += 2 } }
            next(b.map(|x| *x))
        }
        "iter" => { let g = json!(r.iter().collect::<Vec<_>>()); (Cur::R(r), g) }
        "iter_mut" => { for x in r.iter_mut() { *x += 1; } next(r) }
        "expect" => end(json!(r.expect(s(op, "m")))),
        "unwrap" => end(json!(r.unwrap())),
        "unwrap_or_default" => end(json!(r.unwrap_or_default())),
        "expect_err" => end(json!(r.expect_err(s(op, "m")))),
        "unwrap_err" => end(json!(r.unwrap_err())),
        "and" => next(r.and(other("y"))),
        "and_then" => next(r.and_then(|x| { f(x); other("y") })),
        "or" => next(r.or(other("y"))),
        "or_else" => next(r.or_else::<(), _>(|e| { f(*e); other("y") })),
        "unwrap_or" => end(json!(r.unwrap_or(v))),
        "unwrap_or_else" => end(json!(r.unwrap_or_else(|e| f(*e)))),
        "unwrap_unchecked" => if r.is_ok() { end(json!(unsafe { r.unwrap_unchecked() })) } else { end(json!("skipped")) },
        "unwrap_err_unchecked" => if r.is_err() { end(json!(unsafe { r.unwrap_err_unchecked() })) } else { end(json!("skipped")) },
        "transfer_owner" => next(r.transfer_owner(other("y"))),
        "copied" => { let g = vr(match r.as_ref().copied().to_result() { Ok(x) => Ok(x), Err(x) => Err(*x) }); (Cur::R(r), g) }
        "cloned" => { let g = vr(match r.as_ref().cloned().to_result() { Ok(x) => Ok(x), Err(x) => Err(*x) }); (Cur::R(r), g) }
        "copied_mut" => { let g = vr(match r.as_mut().copied().to_result() { Ok(x) => Ok(x), Err(x) => Err(*x) }); (Cur::R(r), g) }
        "cloned_mut" => { let g = vr(match r.as_mut().cloned().to_result() { Ok(x) => Ok(x), Err(x) => Err(*x) }); (Cur::R(r), g) }
        "transpose" => {
            let z: TreeResult<TreeOption<i64>, i64> = r.map(|x| unsafe { TreeOption::new(t, 0, if pred(x) { Some(x) } else { None }) });
            let o = z.transpose().map(|y| y.to_result());
            let g = match o.as_ref().to_option() { Some(x) => json!([vr(*x)]), None => json!([]) };
            (Cur::O(o.map(|x| match x { Ok(a) => a, Err(a) => a + 100 })), g)
        }
        "flatten" => {
            let z: TreeResult<TreeResult<i64, i64>, i64> = r.map(|x| unsafe { TreeResult::new(t, 0, if pred(x) { Ok(x) } else { Err(x + 10) }) });
            next(z.flatten())
        }
        _ => (Cur::R(r), json!("?")),
    }
}
