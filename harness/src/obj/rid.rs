//! ID holders.
use super::*;
use node_tree::structs::rid::RIDHolder;

fn rid(op: &Value) -> u64 { s(op, "id").parse().unwrap_or(u64::MAX) }

fn observe(hs: &[RIDHolder<i64>]) -> Value {
    Value::Array(hs.iter().map(|h| {
        let mut p: Vec<(u64, i64)> = h.iter_enumerated().map(|(k, v)| (*k, *v)).collect();
        p.sort();
        let mut it: Vec<i64> = h.iter().copied().collect();
        it.sort();
        json!({ "m": p.iter().map(|(k, v)| json!([k.to_string(), v])).collect::<Vec<_>>(), "it": it, "n": h.len(), "z": h.is_empty() })
    }).collect())
}

pub fn run(rec: &mut Rec, start: &Value, ops: &[Value]) {
    let vals: Vec<i64> = start["v"].as_array().map(|a| a.iter().map(|x| x.as_i64().unwrap()).collect()).unwrap_or_default();
    let mut hs: Vec<RIDHolder<i64>> = vec![match s(start, "how") {
        "from" => RIDHolder::from_vec(vals),
        "default" => RIDHolder::default(),
        _ => RIDHolder::new(),
    }];
    rec.put(json!({ "e": "op", "op": "look", "h": 1, "got": "ok", "o": observe(&hs) }));
    for op in ops {
        let k = (i(op, "h").max(1) as usize - 1).min(hs.len() - 1);
        let mut op = op.clone();
        op["h"] = json!(k + 1);
        let got = guarded(|| {
            let h = &mut hs[k];
            match s(&op, "op") {
                "push" => json!(h.push(i(&op, "v")).to_string()),
                "get" => opt(h.retrieve(rid(&op)).copied()),
                "mod" => match h.modify(rid(&op)) { Some(x) => { let old = *x; *x = i(&op, "v"); json!([old]) } None => json!([]) },
                "take" => opt(h.take(rid(&op))),
                "addall" => { for x in h.iter_mut() { *x += i(&op, "v"); } json!("ok") }
                "addenum" => { for (_, x) in h.iter_mut_enumerated() { *x += i(&op, "v"); } json!("ok") }
                "clone" => { let c = h.clone(); hs.push(c); json!("ok") }
                _ => json!("ok"),
            }
        });
        rec.put(event(&op, json!({ "got": got, "o": observe(&hs) })));
    }
}
