//! Random runs of the objects.
use super::*;
use crate::gen_ops::Rng;

fn small(r: &mut Rng) -> i64 { r.below(12) as i64 - 3 }
fn xo(r: &mut Rng) -> Value { if r.chance(0.4) { json!([]) } else { json!([small(r)]) } }
fn xr(r: &mut Rng) -> Value { let v = small(r); if r.chance(0.5) { json!(["ok", v]) } else { json!(["err", v]) } }

/// An ID below a bound, or rarely one that only looks like it.
fn far(r: &mut Rng, below: u64) -> String {
    let id = r.below(below);
    (if r.chance(0.06) { id.wrapping_add(1 << *r.pick(&[8, 16, 31, 32, 33, 63])) } else { id }).to_string()
}

/// Strings a user might pick, and some nobody would.
pub fn text(r: &mut Rng) -> String {
    let frag = ["A", "b", "Node", "7", "0", "00", "99", "9", "10", "007", "18446744073709551615", "18446744073709551614", "99999999999999999999", "1234567890123456789",
                "_", "-", " ", ".", "..", "/", "\u{c4}", "\u{1F600}", "\u{0663}", "\u{b2}", "\u{2160}", "\\", "\"", "x", "é", "\t", "9999999999999999999999999999999", "1"];
    let n = if r.chance(0.005) { 20 + r.below(200) } else { r.below(5) };
    (0..n).map(|_| *r.pick(&frag)).collect()
}

pub fn make(kind: &str, r: &mut Rng) -> Value {
    let mut ops: Vec<Value> = Vec::new();
    let mut start = json!({});
    let mut progs: Vec<Value> = Vec::new();
    // A few runs are far longer than the others.
    let long = r.chance(if kind == "rid" { 0.003 } else { 0.015 });
    match kind {
        "rid" if long => {
            start = json!({ "how": "from", "v": (0..r.below(300)).map(|_| small(r)).collect::<Vec<_>>() });
            let keep = r.chance(0.5);
            for k in 0..260 + r.below(200) {
                let v = small(r);
                let id = far(r, 200 + k);
                ops.push(match r.below(if keep { 12 } else { 16 }) {
                    0..=8 => json!({ "op": "push", "h": 1, "v": v }), 9 => json!({ "op": "get", "h": 1, "id": id }), 10 => json!({ "op": "mod", "h": 1, "id": id, "v": v }), _ => json!({ "op": "take", "h": 1, "id": id }) });
            }
        }
        "sig" if long => {
            for k in 0..300 + r.below(100) { ops.push(match r.below(if k < 280 { 12 } else { 4 }) {
                0 => json!({ "op": "disc", "s": 1, "id": r.below(k + 1).to_string() }), 1 if k % 5 == 0 => json!({ "op": "emit", "s": 1, "v": r.below(5), "ref": r.chance(0.5) }), _ => json!({ "op": "conn", "s": 1, "once": r.chance(0.1) }) }); }
            ops.push(json!({ "op": "emit", "s": 1, "v": 1, "ref": true }));
            ops.push(json!({ "op": "emit", "s": 1, "v": 2, "ref": true }));
        }
        "log" if long => {
            start = json!({ "v": *r.pick(&["All", "All", "NoDebug", "OnlyIssues", "OnlyPanics"]) });
            for _ in 0..150 + r.below(150) { ops.push(json!({ "op": "post", "sys": *r.pick(&["named", "path"]), "from": text(r), "l": *r.pick(&["D", "I", "W", "P"]), "m": text(r) })); }
            let m: String = (0..300).map(|_| text(r)).collect();
            ops.push(json!({ "op": "post", "sys": "path", "from": m, "l": "P", "m": m }));
        }
        "name" if long => for _ in 0..3 {
            let stem = text(r);
            let from = *r.pick(&[0, 0, 1, 2, 90, 250]);
            let n = from + *r.pick(&[9, 10, 11, 99, 100, 101, 150, 255, 256, 257, 270]);
            let gap = from + r.below(2 * n);
            let mut taken: Vec<String> = (from..n).filter(|i| *i != gap).map(|i| if i == 0 && r.chance(0.5) { stem.clone() } else { format!("{stem}{i}") }).collect();
            if r.chance(0.5) { taken.push(stem.clone()); }
            taken.sort(); taken.dedup();
            let name = if r.chance(0.5) { stem.clone() } else { format!("{stem}{}", from + r.below(2)) };
            ops.push(json!({ "op": "unique", "name": name, "taken": taken }));
        },
        "rid" => {
            start = match r.below(3) { 0 => json!({ "how": "new", "v": [] }), 1 => json!({ "how": "default", "v": [] }), _ => { let n = r.below(6); json!({ "how": "from", "v": (0..n).map(|_| small(r)).collect::<Vec<_>>() }) } };
            for _ in 0..5 + r.below(30) {
                let h = 1 + r.below(3);
                let id = if r.chance(0.03) { "18446744073709551615".to_string() } else { far(r, 14) };
                let v = small(r);
                ops.push(match r.below(12) {
                    0..=3 => json!({ "op": "push", "h": h, "v": v }), 4 | 5 => json!({ "op": "take", "h": h, "id": id }), 6 | 7 => json!({ "op": "get", "h": h, "id": id }),
                    8 => json!({ "op": "mod", "h": h, "id": id, "v": v }), 9 => json!({ "op": "addall", "h": h, "v": v }), 10 => json!({ "op": "addenum", "h": h, "v": v }),
                    _ => if r.chance(0.3) { json!({ "op": "clone", "h": h }) } else { json!({ "op": "push", "h": h, "v": v }) } });
            }
        }
        "field" => {
            let k = *r.pick(&["plain", "unique", "export", "default"]);
            start = json!({ "k": k, "v": [xo(r), xo(r)] });
            for _ in 0..4 + r.below(if long { 300 } else { 16 }) {
                let f = 1 + r.below(2);
                let v = small(r);
                let o2 = *r.pick(&["+", "-", "*", "/", "%", "|", "^", "&", "<<", ">>"]);
                let v2 = match o2 { "*" => *r.pick(&[-1, 0, 1, 2, 3]), "<<" => r.below(2) as i64, ">>" => r.below(4) as i64, "|" | "^" | "&" => r.below(12) as i64, _ => v };
                ops.push(match r.below(14) {
                    0 => json!({ "op": "get", "f": f }), 1 => json!({ "op": "set", "f": f, "v": v }), 2 => json!({ "op": "write", "f": f, "v": v }), 3 => json!({ "op": "reach", "f": f }),
                    4 => json!({ "op": "isvoid", "f": f }), 5 => json!({ "op": "take", "f": f }), 6 => json!({ "op": "force", "f": f }), 7 => json!({ "op": "from", "f": f, "v": v }),
                    8 => json!({ "op": "void", "f": f }), 9 => json!({ "op": "copy", "f": f }), 10 | 11 => json!({ "op": "with", "f": f, "o2": o2, "v": v2 }),
                    12 => json!({ "op": "withf", "f": f, "o2": o2, "r": if r.chance(0.2) { json!([]) } else { json!([v2]) } }), _ => json!({ "op": "ghost", "f": f }) });
            }
        }
        "opt" => {
            let o = r.chance(0.5);
            start = json!({ "sh": if o { "opt" } else { "res" }, "x": if o { xo(r) } else { xr(r) }, "own": 1 + r.below(2), "gone": if r.chance(0.2) { "yes" } else { "no" } });
            const O: &[&str] = &["is_some", "is_none", "is_some_and", "as_ref", "as_mut", "as_slice", "as_mut_slice", "map", "inspect", "ok_or", "ok_or_else", "as_deref", "as_deref_mut", "iter", "iter_mut", "and", "and_then",
                "filter", "or", "or_else", "xor", "insert", "get_or_insert", "get_or_insert_default", "get_or_insert_with", "take", "take_if", "replace", "zip", "unzip", "transfer_owner", "copied", "cloned",
                "copied_mut", "cloned_mut", "transpose", "flatten", "expect", "unwrap", "unwrap_or", "unwrap_or_else", "unwrap_or_default", "unwrap_unchecked", "map_or", "map_or_else", "to_option"];
            const R: &[&str] = &["is_ok", "is_err", "is_ok_and", "is_err_and", "ok", "err", "as_ref", "as_mut", "map", "map_err", "inspect", "inspect_err", "as_deref", "as_deref_mut", "iter", "iter_mut", "and", "and_then",
                "or", "or_else", "transfer_owner", "copied", "cloned", "copied_mut", "cloned_mut", "transpose", "flatten", "expect", "unwrap", "unwrap_or_default", "expect_err", "unwrap_err", "unwrap_or", "unwrap_or_else",
                "unwrap_unchecked", "unwrap_err_unchecked", "map_or", "map_or_else", "to_result", "to_option"];
            // The shape at each step is not tracked: an operation the shape does not have is skipped by the driver.
            let mut shape = o;
            for _ in 0..1 + r.below(if long { 80 } else { 7 }) {
                let name = if shape { *r.pick(O) } else { *r.pick(R) };
                let y = match (shape, name) { (true, _) => xo(r), (false, _) => xr(r) };
                ops.push(json!({ "op": name, "v": small(r), "y": y, "m": *r.pick(&["m", "no luck", "Ä!"]) }));
                match name { "ok_or" | "ok_or_else" => shape = false, "ok" | "err" => shape = true, "transpose" => shape = !shape, _ => () }
            }
        }
        "sig" => {
            let gen_op = |r: &mut Rng, nested: bool| {
                let sg = 1 + r.below(3);
                match r.below(if nested { 8 } else { 10 }) {
                    0..=2 => json!({ "op": "conn", "s": sg, "once": r.chance(0.5) }),
                    3 | 4 => json!({ "op": "disc", "s": sg, "id": far(r, 6) }),
                    5 | 6 => json!({ "op": "emit", "s": sg, "v": r.below(5), "ref": r.chance(0.5) }),
                    7 => if r.chance(0.5) { json!({ "op": "clone", "s": sg }) } else { json!({ "op": "new", "s": sg, "how": r.below(3) }) },
                    _ => json!({ "op": "emit", "s": sg, "v": r.below(5), "ref": r.chance(0.5) }),
                }
            };
            for _ in 0..4 + r.below(14) { ops.push(gen_op(r, false)); }
            for _ in 0..r.below(12) {
                let n = 1 + r.below(3);
                progs.push(json!({ "tag": 1 + r.below(6), "n": 1 + r.below(3), "ops": (0..n).map(|_| gen_op(r, true)).collect::<Vec<_>>() }));
            }
        }
        "log" => {
            start = json!({ "v": *r.pick(&["All", "NoDebug", "OnlyIssues", "OnlyPanics"]) });
            for _ in 0..3 + r.below(10) {
                ops.push(json!({ "op": "post", "sys": *r.pick(&["named", "path"]), "from": text(r), "l": *r.pick(&["D", "I", "W", "P"]), "m": text(r) }));
            }
        }
        "doc" => (start, ops) = (json!({ "doc": [] }), super::doc::make(r)),
        "codec" | "glam" => (start, ops) = codec::make(r, kind == "glam"),
        "name" => for _ in 0..20 {
            let name = text(r);
            let stem: String = name.trim_end_matches(|c: char| c.is_ascii_digit()).to_string();
            let n = r.below(7);
            let mut taken: Vec<String> = (0..n).map(|_| match r.below(5) { 0 => text(r), 1 => name.clone(), 2 => stem.clone(), 3 => format!("{stem}{}", r.below(4)), _ => {
                let d = name[stem.len()..].parse::<u128>().unwrap_or(0); format!("{stem}{}", d + r.below(3) as u128) } }).collect();
            if r.chance(0.6) { taken.push(name.clone()); }
            taken.sort(); taken.dedup();
            ops.push(json!({ "op": "unique", "name": name, "taken": taken }));
        },
        _ => {
            for _ in 0..3 + r.below(if long { 60 } else { 10 }) {
                let frag = ["A", "b", "/", "/", "//", ".", "..", "...", "a b", "\u{c4}", "é", " ", "/A", "A/", "\u{1F600}"];
                let n = if long && r.chance(0.3) { 30 + r.below(400) } else { r.below(6) };
                let p: String = (0..n).map(|_| *r.pick(&frag)).collect();
                let seg = if r.chance(0.9) { p.replace('/', "") } else { String::new() };
                ops.push(match r.below(9) { 0 => json!({ "op": "new" }), 1 => json!({ "op": "newabs" }), 2 | 3 => json!({ "op": "parse", "p": p }), 4 => json!({ "op": "add", "p": seg }),
                    5 => json!({ "op": "pop" }), 6 => json!({ "op": "eq", "p": p }), 7 => json!({ "op": "again" }), _ => json!({ "op": "value" }) });
            }
        }
    }
    json!({ "kind": kind, "start": start, "ops": ops, "progs": progs })
}
