//! What the programs share: the classes of scene expressions, and those with connections.
use crate::note;
use node_tree::prelude::*;
use node_tree::trees::TreeSimple;
use serde_json::{Value, json};
use std::fmt::Debug;

/// Fields as seen from outside.
pub trait Shown { fn shown(&self) -> String; }
impl<T: Debug> Shown for Field<T> { fn shown(&self) -> String { if self.is_void() { "_".into() } else { format!("{:?}", **self) } } }
impl<T: Debug> Shown for UniqueField<T> { fn shown(&self) -> String { if self.is_void() { "_".into() } else { format!("{:?}", **self) } } }
impl<T: Debug + Exportable> Shown for ExportableField<T> { fn shown(&self) -> String { format!("{:?}", **self) } }
impl<T: Debug + Default> Shown for DefaultField<T> { fn shown(&self) -> String { format!("{:?}", **self) } }

pub fn type_of(n: &dyn Node) -> String { n.name_as_type().rsplit("::").next().unwrap().to_string() }
/// A node of class `T` as the root of a tree.
pub fn in_tree(scene: impl Instanceable) -> Box<TreeSimple> { TreeSimple::new(scene, LoggerVerbosity::OnlyPanics) }
/// What loading gives of a saved node.
pub fn reloaded(scene: &NodeScene) -> Result<NodeScene, String> { NodeScene::load_from_str(&scene.save_to_str()?) }
/// Looks at the root of a scene.
pub fn look<T: Node, R>(scene: impl Instanceable, f: impl FnOnce(&T) -> R) -> R {
    let mut root: Option<*mut dyn Node> = None;
    scene.iterate(|_, n, _| { root.get_or_insert(n); });
    f(unsafe { &*root.unwrap() }.as_any_ref().downcast_ref::<T>().unwrap())
}

class! {
    pub declare Pa;
    pub let a: u8 = 1;
    pub export let b: String = "b".to_string();
    pub default let c: Vec<bool>;
    pub unique let d: String = String::new();
    pub export default let e: Option<i8>;
}
class! {
    pub declare Pb;
    pub let x: u8;
    pub export let s: String;
    hk _init(x: u8, s: String) {}
}
pub mod inner {
    use node_tree::prelude::*;
    class! {
        pub declare Pc;
        pub let y: u8;
        hk _init(y_: u8) { let y: u8 = y_; }
    }
}
use inner::Pc;

fn vals(n: &dyn Node) -> Vec<String> {
    let a = n.as_any_ref();
    if let Some(p) = a.downcast_ref::<Pa>() { vec![p.a.shown(), p.b.shown(), p.c.shown(), p.d.shown(), p.e.shown()] }
    else if let Some(p) = a.downcast_ref::<Pb>() { vec![p.x.shown(), p.s.shown()] }
    else if let Some(p) = a.downcast_ref::<Pc>() { vec![p.y.shown()] }
    else { vec!["?".to_string()] }
}
/// The whole scene.
pub fn dump(scene: NodeScene) -> Value {
    let mut all: Vec<(Option<*mut dyn Node>, *mut dyn Node, bool)> = Vec::new();
    scene.iterate(|p, n, own| all.push((p, n, own)));
    fn tree(all: &[(Option<*mut dyn Node>, *mut dyn Node, bool)], p: *mut dyn Node, own: bool) -> Value {
        let n = unsafe { &*p };
        let kids: Vec<Value> = all.iter().filter(|x| x.0.is_some_and(|q| std::ptr::addr_eq(q, p))).map(|x| tree(all, x.1, x.2)).collect();
        json!({ "ty": type_of(n), "name": n.name(), "own": own, "vals": vals(n), "kids": kids })
    }
    tree(&all, all[0].1, all[0].2)
}

// Connections: from the signals of the root to itself or to its child.
class! {
    pub declare It;
    pub fn shr0(&self, v: &()) { note(format!("it.shr({v:?})")); }
    pub fn mut0(&mut self, v: &()) { note(format!("it.mut({v:?})")); }
    pub fn shr1(&self, v: &u8) { note(format!("it.shr({v:?})")); }
    pub fn mut1(&mut self, v: &u8) { note(format!("it.mut({v:?})")); }
    pub fn shr2(&self, v: &(u8, String)) { note(format!("it.shr({v:?})")); }
    pub fn mut2(&mut self, v: &(u8, String)) { note(format!("it.mut({v:?})")); }
}
class! {
    pub declare Em;
    pub signal s0();
    /// With one argument.
    signal s1(count: u8);
    signal s2(count: u8, text: String,);

    pub fn shr0(&self, v: &()) { note(format!("me.shr({v:?})")); }
    pub fn mut0(&mut self, v: &()) { note(format!("me.mut({v:?})")); }
    pub fn shr1(&self, v: &u8) { note(format!("me.shr({v:?})")); }
    pub fn mut1(&mut self, v: &u8) { note(format!("me.mut({v:?})")); }
    pub fn shr2(&self, v: &(u8, String)) { note(format!("me.shr({v:?})")); }
    pub fn mut2(&mut self, v: &(u8, String)) { note(format!("me.mut({v:?})")); }

    pub fn conn(&mut self, sig: u8, once: bool, node: &str, cb: &str) -> RID {
        let it: Tp<It> = self.get_child(0).unwrap();
        let me: Tp<Em> = self.this();
        match (sig, once, node, cb) {
            (0, false, "me", "shr") => connect! { s0 -> me.shr0 }, (0, false, "me", _) => connect! { s0 -> me.mut0 },
            (0, false, _, "shr") => connect! { s0 -> it.shr0 }, (0, false, _, _) => connect! { s0 -> it.mut0 },
            (0, true, "me", "shr") => connect! { s0 ~> me.shr0 }, (0, true, "me", _) => connect! { s0 ~> me.mut0 },
            (0, true, _, "shr") => connect! { s0 ~> it.shr0 }, (0, true, _, _) => connect! { s0 ~> it.mut0 },
            (1, false, "me", "shr") => connect! { s1 -> me.shr1 }, (1, false, "me", _) => connect! { s1 -> me.mut1 },
            (1, false, _, "shr") => connect! { s1 -> it.shr1 }, (1, false, _, _) => connect! { s1 -> it.mut1 },
            (1, true, "me", "shr") => connect! { s1 ~> me.shr1 }, (1, true, "me", _) => connect! { s1 ~> me.mut1 },
            (1, true, _, "shr") => connect! { s1 ~> it.shr1 }, (1, true, _, _) => connect! { s1 ~> it.mut1 },
            (_, false, "me", "shr") => connect! { s2 -> me.shr2 }, (_, false, "me", _) => connect! { s2 -> me.mut2 },
            (_, false, _, "shr") => connect! { s2 -> it.shr2 }, (_, false, _, _) => connect! { s2 -> it.mut2 },
            (_, true, "me", "shr") => connect! { s2 ~> me.shr2 }, (_, true, "me", _) => connect! { s2 ~> me.mut2 },
            (_, true, _, "shr") => connect! { s2 ~> it.shr2 }, (_, true, _, _) => connect! { s2 ~> it.mut2 },
        }
    }
    pub fn drop_conn(&self, sig: u8, id: RID) -> bool { match sig { 0 => self.s0.disconnect(id), 1 => self.s1.disconnect(id), _ => self.s2.disconnect(id) } }
    pub fn emit(&self, sig: u8) { match sig { 0 => self.s0.emit(()), 1 => self.s1.emit(5u8), _ => self.s2.emit((5u8, "e f".to_string())) } }
}

/// A history of connections, as JSON operations.
pub fn connections(rec: &mut crate::Rec, ops: &[&str]) {
    let mut tree = in_tree(scene! { Em [ It ] });
    let mut em: Tp<Em> = tree.root().this_dyn().to().unwrap();
    let mut made: Vec<(u8, RID)> = Vec::new();
    for op in ops {
        let o: Value = serde_json::from_str(op).unwrap();
        let sig = o["sig"].as_u64().unwrap_or(0) as u8;
        rec.op(op, || match o["op"].as_str().unwrap() {
            "conn" => {
                let id = em.conn(sig, o["once"].as_bool().unwrap(), o["node"].as_str().unwrap(), o["cb"].as_str().unwrap());
                made.push((sig, id));
                json!("ok")
            }
            "disc" => { let (s, id) = made[o["k"].as_u64().unwrap() as usize - 1]; json!(if em.drop_conn(s, id) { "gone" } else { "none" }) }
            _ => { em.emit(sig); json!(crate::notes()) }
        });
    }
}
