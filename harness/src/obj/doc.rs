//! Scene documents: texts and files, whole and damaged, loaded as scenes.
use super::*;
use super::codec::{Cx, build, damage, describe, ix};
use super::gen_obj::text;
use crate::core::with_scene_node;
use crate::gen_ops::Rng;
use node_tree::prelude::*;
use std::collections::HashMap;
use toml_edit as toml;

class! {
    pub declare Da;
    pub export         let a: i8 = 3;
    pub export         let b: Option<String> = None;
    pub export default let c: Vec<u16>;
    pub unique         let u: String = "u".to_string();
    pub                let p: String = "p".to_string();
    pub default        let d: String;
}
class! {
    pub declare Db;
    pub export let m: HashMap<String, f64> = HashMap::new();
    pub export let t: (bool, char) = (false, 'x');
}
class! {
    pub declare Dc;
}
/// A class of the same short name as another one's.
pub mod far {
    use super::*;
    class! {
        pub declare Da;
        pub export let a: String = "far".to_string();
        pub export let z: bool = true;
        pub let p: u8 = 7;
    }
}

fn show(s: &NodeScene) -> Value {
    let (ty, name, vals) = with_scene_node(s, |n| {
        let name = n.name().to_string();
        let (a, path) = (n.as_any_ref(), n.name_as_type().to_string());
        let void = |v: bool| if v { json!("_") } else { json!("+") };
        let (ty, vals) = if let Some(x) = a.downcast_ref::<Da>() { ("Da", json!([x.a.enc(), x.b.enc(), x.c.enc(), void(x.u.is_void()), void(x.p.is_void()), x.d.enc()])) }
            else if let Some(x) = a.downcast_ref::<Db>() { ("Db", json!([x.m.enc(), x.t.enc()])) }
            else if a.is::<Dc>() { ("Dc", json!([])) }
            else if let Some(x) = a.downcast_ref::<far::Da>() { ("far::Da", json!([x.a.enc(), x.z.enc(), void(x.p.is_void())])) }
            else { ("?", json!([])) };
        (if path == format!("nt_harness::obj::doc::{ty}") { ty } else { "?" }, name, vals)
    });
    json!({ "ty": ty, "name": name, "own": s.is_owner, "vals": vals, "kids": s.children().iter().map(show).collect::<Vec<_>>() })
}

fn item(d: &Value) -> toml::Item {
    match d[0].as_str().unwrap() {
        "sec" => toml::Item::Table(section(&d[1])),
        "aot" => { let mut a = toml::ArrayOfTables::new(); a.push(toml::Table::new()); toml::Item::ArrayOfTables(a) }
        _ => toml::Item::Value(build(d)),
    }
}
fn section(es: &Value) -> toml::Table {
    let mut t = toml::Table::new();
    for e in es.as_array().unwrap() { t.insert(e[0].as_str().unwrap(), item(&e[1])); }
    t
}
fn print(doc: &Value) -> String { let mut d = toml::DocumentMut::new(); *d.as_table_mut() = section(doc); d.to_string() }
fn look(x: &toml::Item) -> Value {
    match x {
        toml::Item::Table(t) => json!(["sec", entries(t)]),
        toml::Item::Value(v) => describe(v),
        _ => json!(["aot"]),
    }
}
fn entries(t: &toml::Table) -> Value { json!(t.iter().map(|(k, v)| json!([k, look(v)])).collect::<Vec<_>>()) }
/// What a text says: its entries in order, or none if it is no document.
fn read(text: &str) -> Value { text.parse::<toml::DocumentMut>().map_or(json!([]), |d| entries(d.as_table())) }

fn load(f: impl FnOnce() -> Result<NodeScene, String>) -> Value {
    guarded(|| match f() { Ok(s) => json!(["scene", show(&s)]), Err(_) => json!(["err"]) }).as_array().map_or(json!(["panic"]), |a| json!(a))
}

pub fn run(rec: &mut Rec, ops: &[Value]) {
    let dir = std::env::temp_dir().join(format!("nt-doc-{}", std::process::id()));
    for op in ops {
        let text = match op.get("text").and_then(|t| t.as_str()) { Some(t) => t.to_string(), None => print(&op["doc"]) };
        let got = if s(op, "op") == "file" {
            std::fs::create_dir_all(&dir).unwrap();
            let path = dir.join(s(op, "name"));
            match s(op, "how") {
                "write" => std::fs::write(&path, &text).unwrap(),
                "dir" => std::fs::create_dir(&path).unwrap(),
                "bytes" => { let mut b = text.clone().into_bytes(); b.extend([b'#', 0xff, 0xfe]); std::fs::write(&path, &b).unwrap() }
                _ => (),
            }
            let got = load(|| NodeScene::load(&path));
            std::fs::remove_dir_all(&dir).unwrap();
            got
        } else { load(|| NodeScene::load_from_str(&text)) };
        let mut e = event(op, json!({ "doc": read(&text), "got": got }));
        e["text"] = json!(text);
        rec.put(e);
    }
}

/// A valid document of up to eight nodes, or rarely of many.
fn valid(r: &mut Rng) -> Value {
    let n = if r.chance(0.004) { 30 + ix(r, 250) } else { 1 + ix(r, 8) };
    let straight = if r.chance(0.3) { 0.9 } else { 0.0 };
    let mut rids = vec![0u64];
    while rids.len() < n { let x = match r.below(4) { 0 => r.next() >> r.below(62), _ => r.below(20) }; if !rids.contains(&x) && x < 1 << 63 { rids.push(x) } }
    let mut doc = Vec::new();
    for k in 0..n {
        let ty = *r.pick(&["Da", "Db", "Dc", "far::Da"]);
        let name = if r.chance(0.5) { (*r.pick(&["A", "B", "x_y", "A1", "a b", "", "_"])).to_string() } else { text(r) };
        let mut meta = vec![json!(["type_name", 0, ["str", format!("nt_harness::obj::doc::{ty}"), 0]]), json!(["is_owner", 0, ["bool", r.chance(0.4)]])];
        if k > 0 { meta.push(json!(["parent", 0, ["int", rids[if r.chance(straight) { k - 1 } else { ix(r, k) }].to_string()]])); }
        let val = |x: toml::Value| describe(&x);
        let mut es = vec![json!(["metadata", ["tab", meta]])];
        match ty {
            "Da" => { es.push(json!(["a", val(i8::rnd(r, 2).to_value())])); es.push(json!(["b", val(Option::<String>::rnd(r, 2).to_value())])); es.push(json!(["c", val(Vec::<u16>::rnd(r, 2).to_value())])); }
            "far::Da" => { es.push(json!(["a", val(String::rnd(r, 2).to_value())])); es.push(json!(["z", val(bool::rnd(r, 2).to_value())])); }
            "Db" => { es.push(json!(["m", val(HashMap::<String, f64>::rnd(r, 3).to_value())])); es.push(json!(["t", val(<(bool, char)>::rnd(r, 2).to_value())])); }
            _ => (),
        }
        if r.chance(0.3) { let k = ix(r, es.len()); es.swap(0, k); }
        doc.push(json!([format!("{name}_{}", rids[k]), ["sec", es]]));
    }
    json!(doc)
}
/// A change somewhere in the structure.
fn spoil(doc: &mut Vec<Value>, r: &mut Rng) {
    let other = |r: &mut Rng| if r.chance(0.15) { json!(["sec", []]) } else { describe(&damage(toml::Value::from(1), r)) };
    if doc.is_empty() { return; }
    let k = ix(r, doc.len());
    match r.below(8) {
        0 => { doc.remove(k); }
        1 => { let j = ix(r, doc.len()); doc.swap(k, j); }
        2 => { let key = format!("{}_{}", text(r), r.below(9)); doc[k][0] = json!(key); }
        3 => { let mut x = doc[k].clone(); x[0] = json!(text(r)); doc.push(x); }
        _ if doc[k][1][0] == "sec" => {
            let es = doc[k][1][1].as_array_mut().unwrap();
            if es.is_empty() { return; }
            let j = ix(r, es.len());
            match r.below(6) {
                0 => { es.remove(j); }
                1 => { es[j][1] = other(r); }
                2 => { es.push(json!([*r.pick(&["zz", "p", "u", "d", "a", "m"]), other(r)])); }
                _ if es[j][1][0] == "tab" && es[j][0] == "metadata" => {
                    let ms = es[j][1][1].as_array_mut().unwrap();
                    if ms.is_empty() { return; }
                    let i = ix(r, ms.len());
                    match r.below(5) {
                        4 => if let Some(x) = ms[i][2][1].as_str().and_then(|x| x.parse::<u64>().ok()) {
                            ms[i][2] = json!(["int", ((x.wrapping_add(1 << *r.pick(&[8, 16, 31, 32, 33, 62]))) as i64).to_string()]);
                        },
                        0 => { ms.remove(i); }
                        1 => { ms[i][2] = other(r); }
                        2 => { ms[i][0] = json!("parent"); }
                        _ => { ms[i][2] = json!(["int", r.below(12).to_string()]); }
                    }
                }
                _ if es[j][1][0] != "sec" => { let v = damage(build(&es[j][1]), r); es[j][1] = describe(&v); }
                _ => (),
            }
        }
        _ => { doc[k][1] = other(r); }
    }
}
/// A change somewhere in the text.
fn scratch(t: String, r: &mut Rng) -> String {
    let mut lines: Vec<String> = t.lines().map(|l| l.to_string()).collect();
    let mut c: Vec<char> = t.chars().collect();
    if c.is_empty() { return "\u{feff}".into(); }
    let k = ix(r, c.len());
    match r.below(8) {
        0 if !lines.is_empty() => { let j = ix(r, lines.len()); lines.remove(j); return lines.join("\n"); }
        1 if !lines.is_empty() => { let (i, j) = (ix(r, lines.len()), ix(r, lines.len())); lines.swap(i, j); return lines.join("\n"); }
        2 if !lines.is_empty() => { let (i, j) = (ix(r, lines.len()), ix(r, lines.len())); let l = lines[i].clone(); lines.insert(j, l); return lines.join("\n"); }
        3 => c.truncate(k),
        4 => { c.remove(k); }
        5 => c[k] = char::rnd(r, 0),
        6 => { let j = ix(r, c.len()); c.swap(k, j); }
        _ => { let x = *r.pick(&['"', '=', '[', ']', '{', '}', '.', '_', '0', '1', '-', ',', '\n', '#', '+', 'e']); c.insert(k, x); }
    }
    c.into_iter().collect()
}

pub fn make(r: &mut Rng) -> Vec<Value> {
    (0..6).map(|_| {
        let mut d = valid(r);
        for _ in 0..*r.pick(&[0, 0, 1, 1, 1, 2, 3]) { spoil(d.as_array_mut().unwrap(), r); }
        let mut t = print(&d);
        if r.chance(0.4) { for _ in 0..1 + r.below(3) { t = scratch(t, r); } }
        if r.chance(0.15) { json!({ "op": "file", "name": *r.pick(&["a.scn", "\u{c4} b.scn", "a.toml", "b", "c.scn.scn", ".scn"]), "how": *r.pick(&["write", "write", "write", "absent", "dir", "bytes"]), "text": t }) }
        else { json!({ "op": "doc", "text": t }) }
    }).collect()
}
