//! Operations which depend on nothing but their arguments.
use super::*;
use node_tree::prelude::*;
use node_tree::utils::functions::ensure_unique_name;

fn hash<T: std::hash::Hash>(v: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::hash::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}
fn show(p: &NodePath) -> Value { json!([p.clone().to_string(), p.is_absolute()]) }

pub fn run(rec: &mut Rec, kind: &str, ops: &[Value]) {
    let mut p = NodePath::new();
    for op in ops {
        let got = guarded(|| match (kind, s(op, "op")) {
            ("name", _) => {
                let taken: Vec<String> = op["taken"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
                json!(ensure_unique_name(s(op, "name"), &taken))
            }
            ("path", "new") => { p = NodePath::new(); show(&p) }
            ("path", "newabs") => { p = NodePath::new_abs(); show(&p) }
            ("path", "parse") => { p = NodePath::from_str(s(op, "p")); show(&p) }
            ("path", "add") => { p.add_node(s(op, "p")); show(&p) }
            ("path", "pop") => { let r = p.pop_front_as_string(); let mut v = show(&p); v.as_array_mut().unwrap().push(opt(r)); v }
            ("path", "eq") => {
                let q = NodePath::from_str(s(op, "p"));
                json!([p.clone().to_string(), p == q, p != q, p != q || hash(&p) == hash(&q)])
            }
            ("path", "again") => {
                let q = NodePath::from_str(&p.clone().to_string());
                json!([q.clone().to_string(), p == q])
            }
            ("path", "value") => {
                let q = <NodePath as Exportable>::from_value(p.to_value());
                { let same = q.as_ref() == Some(&p); json!([q.map(|q| q.to_string()).unwrap_or("refused".into()), same]) }
            }
            _ => json!("?"),
        });
        rec.put(event(op, json!({ "got": got })));
    }
}
