//! Drives one real node tree through its public API and records everything user code can observe.
//! The same code executes scripted behaviours (generated by TLC from the specification) and random
//! ones; the recorded events are validated against the specification by TLC.
use crate::alloc;
use crate::gen_ops::Gen;
use crate::nodes::*;
use node_tree::prelude::*;
use node_tree::structs::node_tree_base::NodeIdentity;
use node_tree::trees::TreeSimple;
use serde_json::{Map, Value, json};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fs::File;
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::time::{Duration, Instant, SystemTime};

pub enum OwnedTree { Simple(Box<TreeSimple>), My(Box<MyTree>) }

pub enum Slot {
    A(Tp<'static, Na>), B(Tp<'static, Nb>), C(Tp<'static, Nc>), E(Tp<'static, Nd>), D(TpDyn<'static>),
}

#[derive(Clone, Default, Debug)]
pub struct NodeView {
    pub uid: u64, pub rid: u64, pub par: u64, pub own: u64, pub name: String, pub dep: u64,
    pub kids: Vec<u64>, pub ty: String, pub sg: Option<String>,
}
#[derive(Clone, Default)]
pub struct View {
    pub nodes: BTreeMap<u64, NodeView>,   // by uid
    pub root: u64,
}
impl View {
    pub fn subtree(&self, u: u64) -> Vec<u64> {
        let mut out = vec![u];
        let mut i = 0;
        while i < out.len() {
            if let Some(n) = self.nodes.get(&out[i]) { out.extend(n.kids.iter().copied()); }
            i += 1;
            if out.len() > 10000 { break; }
        }
        out
    }
    pub fn is_ancestor_or_self(&self, a: u64, mut d: u64) -> bool {
        for _ in 0..10000 {
            if a == d { return true; }
            match self.nodes.get(&d) { Some(n) if n.par != 0 => d = n.par, _ => return false }
        }
        false
    }
}

pub struct HookFrame { pub uid: u64, pub kind: String, pub this: *mut dyn Node }
#[derive(Clone)]
pub struct Conn { pub id: u64, pub tgt: u64, pub once: bool }

pub struct Drv {
    pub out: File,
    pub buf: String,
    pub tree: Option<*mut dyn NodeTree>,
    pub owned: Option<OwnedTree>,
    pub t0: Instant,
    pub maxrid: u64,
    pub seen: HashMap<u64, u64>,       // rid -> uid
    pub ridof: HashMap<u64, u64>,      // uid -> rid
    pub last_dump: String,
    pub last_log: String,
    pub last_sec: u64,
    pub view: View,
    pub scenes: BTreeMap<u64, NodeScene>,
    pub ptrs: BTreeMap<u64, Slot>,
    pub conns: HashMap<u64, Vec<Conn>>,
    pub handles: HashMap<u64, Vec<u64>>,
    /// The emissions under way: the signal's node, and the targets already called.
    pub emitting: Vec<(u64, Vec<u64>)>,
    /// The removals under way within emissions.
    pub removing: usize,
    pub frames: Vec<HookFrame>,
    pub script: Option<VecDeque<Value>>,
    pub r#gen: Gen,
    pub scratch: std::path::PathBuf,
    pub names: Vec<String>,
    pub buried: Vec<u64>,              // nodes dropped since the last event
    pub twin: *mut Drv,                // the other tree
    pub shared: *mut VecDeque<Value>,  // the script of both
    pub number: u64,
    pub p_twin: f64,
    pub turns: crate::gen_ops::Rng,
    pub running: usize,                // operations under way
    pub over: bool,
}

thread_local! { static DRV: std::cell::Cell<*mut Drv> = const { std::cell::Cell::new(std::ptr::null_mut()) }; }
pub fn d() -> &'static mut Drv { unsafe { &mut *DRV.get() } }
pub fn install(drv: Drv) { DRV.set(Box::into_raw(Box::new(drv))); }
/// Two trees: while user code of the first runs, the second may be given a turn, and the other way round.
pub fn install_pair(one: Drv, two: Option<Drv>, p: f64) {
    let a = Box::into_raw(Box::new(one));
    let b = two.map(|x| Box::into_raw(Box::new(x))).unwrap_or(std::ptr::null_mut());
    unsafe {
        (*a).twin = b;
        (*a).p_twin = p;
        if !b.is_null() { (*b).twin = a; (*b).p_twin = p; }
    }
    DRV.set(a);
}
/// Turns to the other tree.
pub fn other() { let t = d().twin; if !t.is_null() { DRV.set(t); } }
/// Whether the other tree has a turn now, and if so, that turn.
fn turn() {
    let drv = d();
    if drv.p_twin == 0.0 || !drv.turns.chance(drv.p_twin) { return; }
    let k = 1 + drv.turns.below(3);
    if drv.twin.is_null() { return; }
    let other = unsafe { &mut *drv.twin };
    if other.running > 0 || other.over { return; }
    let me: *mut Drv = drv;
    DRV.set(other);
    for _ in 0..k { if !step() { break; } }
    DRV.set(me);
}
/// Performs the next operation at the top level, if there is one.
fn step() -> bool {
    let drv = d();
    let op = if !drv.shared.is_null() { shared_op() } else if let Some(s) = drv.script.as_mut() { s.pop_front() } else { Gen::next(drv) };
    match op {
        None => { drv.over = true; false }
        Some(v) => { if v.get("ret").is_none() { exec(v); } true }
    }
}

pub fn civil(secs: u64) -> String {
    let days = (secs / 86400) as i64;
    let rem = secs % 86400;
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let day = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + if m <= 2 { 1 } else { 0 };
    format!("{:02}/{:02}/{:04} {:02}:{:02}:{:02}", day, m, y, rem / 3600, rem % 3600 / 60, rem % 60)
}
pub fn now_sec() -> u64 { SystemTime::now().duration_since(SystemTime::UNIX_EPOCH).unwrap().as_secs() }

/// Makes one line of the log comparable: the time is checked against the clock and replaced, the
/// drawing characters become ASCII, and the ID in a "generated" message becomes the driver's own.
fn norm_line(line: &str, from: u64, to: u64, seen: &HashMap<u64, u64>) -> String {
    let mut s = line.to_string();
    let ok = |t: &str| (from.saturating_sub(1)..=to + 1).any(|x| civil(x) == t);
    if s.starts_with('<') {
        if let Some(p) = s.find(" UTC> ") {
            if ok(&s[1..p]) { s = format!("<T>{}", &s[p + 5..]); }
        }
    } else if let Some(t) = s.strip_prefix("Time of Crash: ") {
        if ok(t) { s = "Time of Crash: T".to_string(); }
    }
    if let Some(p) = s.find("Unique ID of \"") {
        let rest = s[p + 14..].to_string();
        if let Some(q) = rest.find('"') {
            if let Ok(rid) = rest[..q].parse::<u64>() {
                if let Some(u) = seen.get(&rid) {
                    s = format!("{}#{}{}", &s[..p + 14], u, &rest[q..]);
                }
            }
        }
    }
    s.replace('\u{1b}', "{esc}").replace('│', "|").replace('├', "+").replace('─', "-").replace('└', "`")
}

impl Drv {
    pub fn base(&self) -> Option<&'static mut dyn NodeTree> { self.tree.map(|t| unsafe { &mut *t }) }
    pub fn micros(&self) -> u64 { self.t0.elapsed().as_micros() as u64 }

    pub fn node(&self, uid: u64) -> Option<&'static mut dyn Node> {
        let rid = *self.ridof.get(&uid)?;
        let t = self.base()?;
        t.get_node_mut_raw(rid).map(|p| unsafe { &mut *p })
    }
    pub fn live(&self, uid: u64) -> bool { self.view.nodes.contains_key(&uid) }
    /// Whether at most one of the listeners that each emission has still to call is gone once a node is removed.
    pub fn removable(&self, uid: u64) -> bool {
        if self.emitting.is_empty() { return true; }
        if self.removing > 0 { return false; }
        let below = self.view.subtree(uid);
        self.emitting.iter().all(|(n, called)| self.conns.get(n).is_none_or(|cs|
            cs.iter().filter(|c| !called.contains(&c.tgt) && (!self.live(c.tgt) || below.contains(&c.tgt))).count() <= 1))
    }
    /// Whether a signal may be emitted: it is not said which of several listeners that are gone is met first.
    pub fn emittable(&self, n: u64) -> bool {
        self.conns.get(&n).is_none_or(|cs| cs.iter().filter(|c| !self.live(c.tgt)).count() <= 1)
    }
    pub fn rid(&self, uid: u64) -> u64 {
        if uid >= 5_000_000 {
            // An ID nobody has, but which looks like that of some node.
            let (node, bit) = ((uid - 5_000_000) / 100, (uid - 5_000_000) % 100);
            let mut rid = self.ridof.get(&node).copied().unwrap_or(0).wrapping_add(1 << bit);
            while self.ridof.values().any(|r| *r == rid) { rid = rid.wrapping_add(1 << 40); }
            return rid;
        }
        self.ridof.get(&uid).copied().unwrap_or(self.maxrid + 1000 + uid)
    }

    /// Reads the whole visible state of the tree.
    fn dump(&mut self) -> String {
        let mut nodes = String::with_capacity(self.last_dump.len() + 400);
        nodes.push_str("{\"N\":[");
        let mut view = View::default();
        if let Some(tree) = self.base() {
            // Registered nodes: found from the root downwards, and by asking for every ID near
            // those ever seen.
            let mut rids: Vec<u64> = (0..self.maxrid + 6).collect();
            let mut known: std::collections::HashSet<u64> = rids.iter().copied().collect();
            let mut i = 0;
            while i < rids.len() && rids.len() < 4000 {
                let rid = rids[i];
                i += 1;
                if let Some(n) = tree.get_node(rid) {
                    for c in n.children() { if known.insert(c.rid()) { rids.push(c.rid()); } }
                }
            }
            rids.sort();
            for rid in rids {
                let Some(n) = tree.get_node(rid) else { continue };
                if rid > self.maxrid && rid < (1 << 40) { self.maxrid = rid; }
                let p = probe(n);
                let uid = p.uid().unwrap_or(0);
                self.seen.entry(rid).or_insert(uid);
                self.ridof.entry(uid).or_insert(rid);
                let uid_at = |r: u64| tree.get_node(r).map(|x| probe(x).uid().unwrap_or(0)).unwrap_or(999_999);
                let par = match n.parent_dyn().to_option() { Some(t) => uid_at(t.rid()), None => 0 };
                let own = uid_at(n.owner_dyn().rid());
                let kids: Vec<u64> = n.children().iter().map(|c| uid_at(c.rid())).collect();
                let (st, sm) = match n.status() {
                    node_tree::structs::node_base::NodeStatus::Normal => ("N", String::new()),
                    node_tree::structs::node_base::NodeStatus::JustWarned(m) => ("W", m),
                    node_tree::structs::node_base::NodeStatus::JustPanicked(m) => ("P", m),
                };
                let sg = match tree.get_node_identity(rid) {
                    Some(NodeIdentity::UniqueName(s)) => vec![s],
                    Some(NodeIdentity::NodePath) => vec![],
                    None => vec!["?none".to_string(), "?".to_string()],
                };
                let fl = format!("{}{}{}{}{}{}",
                    n.is_root() as u8, n.is_owner() as u8, n.in_tree() as u8, n.is_stray() as u8,
                    n.childless() as u8, (n.num_children() == kids.len()) as u8);
                let mode = match n.process_mode() {
                    ProcessMode::Inherit => "Inherit", ProcessMode::Always => "Always",
                    ProcessMode::Pausable => "Pausable", ProcessMode::Inverse => "Inverse" };
                view.nodes.insert(uid, NodeView { uid, rid, par, own, name: n.name().into(), dep: n.depth() as u64,
                    kids: kids.clone(), ty: p.ty().into(), sg: sg.first().cloned() });
                if n.is_root() { view.root = uid; }
                use std::fmt::Write;
                let text = |s: &str| serde_json::to_string(s).unwrap();
                if !nodes.ends_with('[') { nodes.push(','); }
                let _ = write!(nodes, r#"{{"u":{uid},"k":"{rid}","r":"{}","p":{par},"o":{own},"n":{},"d":{},"c":{kids:?},"s":"{st}","sm":{},"l":{},"g":[{}],"f":"{fl}","t":"{}","m":"{mode}","v":[{}]}}"#,
                    n.rid(), text(n.name()), n.depth(), text(&sm), n.has_just_loaded(), sg.iter().map(|s| text(s)).collect::<Vec<_>>().join(","), p.ty(),
                    p.vals().iter().map(|s| text(s)).collect::<Vec<_>>().join(","));
            }
            let mut sn: Vec<Value> = Vec::new();
            for name in &self.names {
                if let Some(r) = tree.get_node_rid(name.as_str(), None) {
                    sn.push(json!({ "n": name, "u": tree.get_node(r).map(|x| probe(x).uid().unwrap_or(0)).unwrap_or(999_999) }));
                }
            }
            self.view = view;
            nodes.push_str("],\"S\":");
            nodes.push_str(&json!(sn).to_string());
            nodes.push('}');
            return nodes;
        }
        self.view = view;
        r#"{"N":[],"S":[]}"#.into()
    }

    pub fn emit_ev(&mut self, mut e: Map<String, Value>) {
        let dump = self.dump();
        let changed = dump != self.last_dump;
        if changed { self.last_dump = dump; }
        if let Some(tree) = self.base() {
            let log = tree.get_log().to_string();
            let now = now_sec();
            if log != self.last_log {
                let lines: Vec<String> = if log.starts_with(&self.last_log) {
                    let new = &log[self.last_log.len()..];
                    let mut v: Vec<String> = new.split('\n').map(|l| norm_line(l, self.last_sec, now, &self.seen)).collect();
                    if v.last().map(|s| s.is_empty()).unwrap_or(false) { v.pop(); } else { v.push("!!no newline".into()); }
                    v
                } else { vec!["!!earlier log text changed".to_string()] };
                e.insert("lg".into(), json!(lines));
                self.last_log = log;
            }
            self.last_sec = now;
        }
        if !self.buried.is_empty() { e.insert("dr".into(), json!(std::mem::take(&mut self.buried))); }
        e.insert("t".into(), json!(self.micros()));
        self.buf.push_str(&Value::Object(e).to_string());
        if changed {
            self.buf.pop();
            self.buf.push_str(",\"d\":");
            self.buf.push_str(&self.last_dump);
            self.buf.push('}');
        }
        self.buf.push('\n');
        self.flush();
    }
    pub fn flush(&mut self) {
        let _ = self.out.write_all(self.buf.as_bytes());
        self.buf.clear();
    }
}

impl Drv {
    pub fn new(out: File, r#gen: Gen, script: Option<VecDeque<Value>>, scratch: std::path::PathBuf) -> Self {
        Drv {
            out, buf: String::new(), tree: None, owned: None, t0: Instant::now(), maxrid: 0, seen: HashMap::new(), ridof: HashMap::new(),
            last_dump: String::new(), last_log: String::new(), last_sec: now_sec(), view: View::default(), scenes: BTreeMap::new(),
            ptrs: BTreeMap::new(), conns: HashMap::new(), handles: HashMap::new(), emitting: Vec::new(), removing: 0, frames: Vec::new(),
            script, r#gen, scratch, names: vec!["S".into(), "T".into(), "U".into(), "A".into(), "none".into()],
            buried: Vec::new(), twin: std::ptr::null_mut(), shared: std::ptr::null_mut(), number: 1, p_twin: 0.0, turns: crate::gen_ops::Rng(0), running: 0, over: false,
        }
    }
}

fn obj(v: Value) -> Map<String, Value> { match v { Value::Object(m) => m, _ => unreachable!() } }

/// Called when a node is dropped.
pub fn buried(uid: u64) {
    if DRV.get().is_null() { return; }
    let drv = d();
    if drv.ridof.contains_key(&uid) { drv.buried.push(uid); }
}

/// Called by every hook of every node.
pub fn hook(node: &mut dyn Node, kind: &str, delta: Option<f32>) {
    let drv = d();
    let uid = probe(node).uid().unwrap_or(0);
    if drv.tree.is_none() { drv.tree = node.tree_mut().map(|t| t as *mut dyn NodeTree); }
    enter(node, uid, kind, delta.map(|f| (format!("{}", f.to_bits()), (f as f64 * 1e6).clamp(-1.0, 2.0e9) as i64)), None);
}
pub fn listen(node: &mut dyn Node, kind: &str, v: u32) {
    let uid = probe(node).uid().unwrap_or(0);
    enter(node, uid, kind, None, Some(v));
}
pub fn listen_ref(node: &dyn Node, kind: &str, v: u32) {
    let uid = probe(node).uid().unwrap_or(0);
    enter(node as *const dyn Node as *mut dyn Node, uid, kind, None, Some(v));
}

fn enter(this: *mut dyn Node, uid: u64, kind: &str, delta: Option<(String, i64)>, val: Option<u32>) {
    let drv = d();
    let mut e = obj(json!({ "e": "hook", "n": uid, "k": kind }));
    if let Some((b, us)) = delta { e.insert("db".into(), json!(b)); e.insert("dl".into(), json!(us)); }
    if let Some(v) = val { e.insert("v".into(), json!(v)); }
    drv.emit_ev(e);
    let addr = this as *mut u8 as usize;
    drv.frames.push(HookFrame { uid, kind: kind.to_string(), this });
    if kind == "sig" || kind == "sigr" {
        // A one-shot connection is gone once it is called.
        if let Some((em, called)) = drv.emitting.last_mut() {
            called.push(uid);
            if let Some(cs) = drv.conns.get_mut(em) { cs.retain(|c| !(c.once && c.tgt == uid)); }
        }
    }
    alloc::watch_push(addr);
    let depth = drv.frames.len();
    loop {
        let op = match next_op() { Some(op) => op, None => break };
        exec(op);
    }
    let drv = d();
    debug_assert_eq!(depth, drv.frames.len());
    let freed = alloc::watch_hit();
    alloc::watch_truncate(alloc::watch_len() - 1);
    drv.frames.truncate(depth - 1);
    let mut e = obj(json!({ "e": "hret" }));
    if freed { e.insert("uaf".into(), json!(true)); }
    drv.emit_ev(e);
}

/// The next step of a script of two trees which is this tree's; the steps of the other are performed meanwhile.
fn shared_op() -> Option<Value> {
    loop {
        let drv = d();
        let Some(v) = unsafe { &mut *drv.shared }.pop_front() else { return None };
        if v["tr"].as_u64() == Some(drv.number) { return Some(v); }
        let other = unsafe { &mut *drv.twin };
        if other.running > 0 || v.get("ret").is_some() { continue; }   // Only once the code has deviated.
        let me: *mut Drv = drv;
        DRV.set(other);
        exec(v);
        DRV.set(me);
    }
}

fn next_op() -> Option<Value> {
    turn();
    if !d().shared.is_null() { return shared_op().filter(|v| v.get("ret").is_none()); }
    let drv = d();
    if let Some(s) = drv.script.as_mut() {
        return match s.pop_front() {
            None => None,
            Some(v) => if v.get("ret").is_some() { None } else { Some(v) },
        };
    }
    Gen::next(drv)
}

/// Runs operations at the top level until the source has no more.
pub fn run_top() {
    loop {
        turn();
        if !step() { break; }
    }
}

/// Whether a scripted operation is within what the specification covers.  (Scripts come from the
/// specification; they can only leave it once the code has deviated, or where it calls listeners in
/// another order than the script assumed.)
fn permitted(drv: &Drv, name: &str, op: &Value) -> bool {
    let u = |k: &str| op.get(k).and_then(|x| x.as_u64()).unwrap_or(0);
    let n = u("n");
    if (name == "process" || name == "new") && !drv.frames.is_empty() { return false; }
    if name == "free" && !drv.removable(n) { return false; }
    if name == "rmc" {
        if let Some(k) = drv.view.nodes.get(&n).and_then(|v| v.kids.iter().find(|k| drv.view.nodes.get(k).is_some_and(|x| op["name"] == x.name.as_str()))) {
            if !drv.removable(*k) { return false; }
        }
    }
    match name {
        "conn" => drv.live(u("x")) && !drv.conns.get(&n).map(|c| c.iter().any(|c| c.tgt == u("x"))).unwrap_or(false),
        "emit" => drv.frames.len() <= 6 && drv.emittable(n),
        "add" | "sl" | "cl" | "sc" | "scv" => drv.scenes.contains_key(&u("from")),
        "ap" | "sh" => drv.scenes.contains_key(&u("from")) && drv.scenes.contains_key(&u("to")),
        "use" => drv.ptrs.contains_key(&u("sl")),
        "stray" => match op["src"].as_str() {
            Some("self") => !drv.live(u("x")) && drv.frames.last().is_some_and(|f| f.uid == u("x")),
            Some("scene") => drv.scenes.contains_key(&u("from")),
            _ => true,
        },
        _ => true,
    }
}

pub fn exec(op: Value) {
    let drv = d();
    let name = op["op"].as_str().unwrap().to_string();
    if name == "sleep" {
        std::thread::sleep(Duration::from_micros(op["us"].as_u64().unwrap()));
        return;
    }
    // A scripted operation on a node that is not there is dropped (scripts come from the model, so
    // this only happens once the code has deviated).
    if let Some(n) = op.get("n").and_then(|x| x.as_u64()) {
        if name != "new" && !drv.live(n) { return; }
    }
    if (drv.script.is_some() || !drv.shared.is_null()) && !permitted(drv, &name, &op) { return; }
    if name.starts_with("sing") {
        let s = op["name"].as_str().unwrap().to_string();
        if !drv.names.contains(&s) { drv.names.push(s); }
    }
    let mut e = obj(json!({ "e": "call" }));
    for (k, v) in op.as_object().unwrap() { e.insert(k.clone(), v.clone()); }
    drv.emit_ev(e);
    drv.flush();
    let frames = drv.frames.len();
    let emitting = drv.emitting.len();
    let removing = drv.removing;
    if emitting > 0 && (name == "free" || name == "rmc") { drv.removing += 1; }
    let watches = alloc::watch_len();
    drv.running += 1;
    let me: *mut Drv = drv;
    let r = catch_unwind(AssertUnwindSafe(|| run_op(&name, &op)));
    DRV.set(me);
    let drv = d();
    drv.running -= 1;
    drv.frames.truncate(frames);
    drv.emitting.truncate(emitting);
    drv.removing = removing;
    alloc::watch_truncate(watches);
    let v = match r { Ok(s) => s, Err(_) => "panic".to_string() };
    drv.emit_ev(obj(json!({ "e": "ret", "v": v })));
}

pub fn fmt_err(e: &NodeError) -> String {
    match e {
        NodeError::IndexOutOfRange { index, children_count } => format!("err:range:{index}:{children_count}"),
        NodeError::InvalidPath(_) | NodeError::InvalidRootPath(_) => "err:path".into(),
        NodeError::NoParent => "err:noparent".into(),
        NodeError::TPError(e) => format!("err:{e:?}"),
    }
}
pub fn uid_of(n: &dyn Node) -> String { format!("u{}", probe(n).uid().unwrap_or(0)) }

fn long<'a>(t: TpDyn<'a>) -> TpDyn<'static> { unsafe { std::mem::transmute(t) } }
fn longt<'a, T: Node>(t: Tp<'a, T>) -> Tp<'static, T> { unsafe { std::mem::transmute(t) } }

macro_rules! by_type {
    ($ty:expr, $T:ident => $body:expr) => {
        match $ty {
            "Na" => { type $T = Na; $body }
            "Nb" => { type $T = Nb; $body }
            "Nc" => { type $T = Nc; $body }
            _    => { type $T = Nd; $body }
        }
    };
}
trait IntoSlot: Node + Sized { fn slot(t: Tp<'static, Self>) -> Slot; }
impl IntoSlot for Na { fn slot(t: Tp<'static, Self>) -> Slot { Slot::A(t) } }
impl IntoSlot for Nb { fn slot(t: Tp<'static, Self>) -> Slot { Slot::B(t) } }
impl IntoSlot for Nc { fn slot(t: Tp<'static, Self>) -> Slot { Slot::C(t) } }
impl IntoSlot for Nd { fn slot(t: Tp<'static, Self>) -> Slot { Slot::E(t) } }

fn store_dyn(sl: Option<u64>, r: Result<TpDyn<'_>, String>) -> String {
    match r {
        Ok(t) => { let s = uid_of(t.get()); if let Some(sl) = sl { d().ptrs.insert(sl, Slot::D(long(t))); } s }
        Err(e) => e,
    }
}
fn store_tp<T: IntoSlot>(sl: Option<u64>, r: Result<Tp<'_, T>, String>) -> String {
    match r {
        Ok(t) => { let s = uid_of(t.get()); if let Some(sl) = sl { d().ptrs.insert(sl, T::slot(longt(t))); } s }
        Err(e) => e,
    }
}

pub fn scene_size(s: &NodeScene) -> usize { 1 + s.children().iter().map(scene_size).sum::<usize>() }
pub fn with_scene_node<R>(s: &NodeScene, f: impl FnOnce(&mut dyn Node) -> R) -> R {
    let b = unsafe { s.get_node() };
    let p = Box::into_raw(b);
    f(unsafe { &mut *p })
}
pub fn scene_walk(s: &NodeScene, f: &mut dyn FnMut(&mut dyn Node, &NodeScene)) {
    with_scene_node(s, |n| f(n, s));
    for c in s.children() { scene_walk(c, f); }
}
pub fn scene_str(s: &NodeScene) -> String {
    let head = with_scene_node(s, |n| format!("{}:{}:{}:{}", probe(n).ty(), n.name(), s.is_owner as u8, probe(n).vals().join(",")));
    let kids: Vec<String> = s.children().iter().map(scene_str).collect();
    format!("({}{})", head, kids.concat())
}
/// Builds a scene from flat pre-order entries [{pi, ty, nm, ow, v}], `pi` being the 1-based index
/// of the parent's entry (0 for the top).
pub fn build_scene(entries: &[Value], at: usize) -> NodeScene {
    let e = &entries[at];
    let ty = e["ty"].as_str().unwrap();
    let mut n = make(ty, 0);
    if let Some(nm) = e.get("nm").and_then(|x| x.as_str()) { n.set_name(nm); }
    if let Some(v) = e.get("v").and_then(|x| x.as_array()) {
        let vals: [Option<String>; 5] = std::array::from_fn(|i| Some(v[i].as_str().unwrap().to_string()));
        probe_mut(&mut *n).set_vals(&vals);
    }
    let mut s = NodeScene::new_dyn(n);
    s.is_owner = e["ow"].as_bool().unwrap();
    for (i, c) in entries.iter().enumerate() {
        if c["pi"].as_u64().unwrap() as usize == at + 1 {
            let k = build_scene(entries, i);
            if c["ow"].as_bool().unwrap() { s.append_as_owner(k) } else { s.append(k) }
        }
    }
    s
}

fn assign(scene: &NodeScene, us: &[Value], ms: Option<&Vec<Value>>) {
    let mut i = 0;
    scene_walk(scene, &mut |n, _| {
        let p = probe_mut(n);
        p.set_uid(us[i].as_u64().unwrap());
        let m = ms.map(|m| m[i].as_str().unwrap()).unwrap_or("Inherit");
        p.set_mode(MODES.iter().position(|x| *x == m).unwrap() as u8);
        i += 1;
    });
}

fn single(op: &Value) -> Box<dyn Node> {
    let e = &op["ent"];
    let mut n = make(e["ty"].as_str().unwrap(), op["us"][0].as_u64().unwrap());
    n.set_name(e["nm"].as_str().unwrap());
    if let Some(v) = e.get("v").and_then(|x| x.as_array()) {
        let vals: [Option<String>; 5] = std::array::from_fn(|i| Some(v[i].as_str().unwrap().to_string()));
        probe_mut(&mut *n).set_vals(&vals);
    }
    if let Some(ms) = op["ms"].as_array() {
        probe_mut(&mut *n).set_mode(MODES.iter().position(|x| *x == ms[0].as_str().unwrap()).unwrap() as u8);
    }
    n
}

/// What a node outside of any tree is asked to do.
fn stray(n: &mut dyn Node, w: &str, ty: &str, name: &str) {
    match w {
        "name"      => n.set_name(name),
        "this"      => by_type!(ty, T => { let _ = n.this::<T>(); }),
        "thisd"     => { let _ = n.this_dyn(); }
        "children"  => { let _ = n.children(); }
        "count"     => { let _ = n.num_children(); }
        "childless" => { let _ = n.childless(); }
        "child"     => by_type!(ty, T => { let _ = n.get_child::<T>(0); }),
        "childd"    => { let _ = n.get_child_dyn(0); }
        "parent"    => by_type!(ty, T => { let _ = n.parent::<T>(); }),
        "parentd"   => { let _ = n.parent_dyn(); }
        "owner"     => by_type!(ty, T => { let _ = n.owner::<T>(); }),
        "ownerd"    => { let _ = n.owner_dyn(); }
        "path"      => { let _ = n.get_absolute_path(); }
        "node"      => by_type!(ty, T => { let _ = n.get_node::<T>(NodePath::from_str(name)); }),
        "noded"     => { let _ = n.get_node_dyn(name); }
        "raw"       => { let _ = n.get_node_raw(NodePath::from_str(name)); }
        "td"        => { let _ = n.top_down(false); }
        "add"       => n.add_child(Nb::new(0)),
        "adds"      => n.add_child(NodeScene::new(Nb::new(0))),
        "addp"      => { let _ = unsafe { n.add_child_from_ptr(Box::into_raw(Box::new(Nb::new(0)) as Box<dyn Node>), false, false) }; }
        "remove"    => { let _ = n.remove_child(name); }
        "free"      => n.free(),
        "branch"    => { let _ = n.save_as_branch(); }
        "sing"      => { let _ = n.register_as_singleton(name.to_string()); }
        "post"      => n.post(Log::Info(name)),
        _ => (),
    }
}

fn tpe(e: TPError) -> String { format!("err:{e:?}") }

fn run_op(name: &str, op: &Value) -> String {
    let drv = d();
    let u = |k: &str| op[k].as_u64().unwrap_or(0);
    let s = |k: &str| op[k].as_str().unwrap_or("");
    let n = u("n");
    let tree = || d().base().unwrap();
    let node = || d().node(n).expect("harness: node gone");
    let sl = op.get("sl").and_then(|x| x.as_u64());
    match name {
        "new" => {
            let verb = match s("verb") { "All" => LoggerVerbosity::All, "NoDebug" => LoggerVerbosity::NoDebug,
                "OnlyIssues" => LoggerVerbosity::OnlyIssues, _ => LoggerVerbosity::OnlyPanics };
            let kind = s("kind").to_string();
            if op.get("ent").is_some() {
                let b = single(op);
                macro_rules! mk { ($T:ident) => {{
                    let nd: $T = *b_any::<$T>(b);
                    if kind == "my" { let t = MyTree::new(nd, verb); drv.owned = Some(OwnedTree::My(t)); }
                    else { let t = TreeSimple::new(nd, verb); drv.owned = Some(OwnedTree::Simple(t)); }
                }}; }
                match op["ent"]["ty"].as_str().unwrap() { "Na" => mk!(Na), "Nb" => mk!(Nb), "Nc" => mk!(Nc), _ => mk!(Nd) }
            } else {
                let scene = drv.scenes.remove(&u("from")).expect("harness: scene slot");
                assign(&scene, op["us"].as_array().unwrap(), op["ms"].as_array());
                if kind == "my" { let t = MyTree::new(scene, verb); drv.owned = Some(OwnedTree::My(t)); }
                else { let t = TreeSimple::new(scene, verb); drv.owned = Some(OwnedTree::Simple(t)); }
            }
            let drv = d();
            drv.tree = Some(match drv.owned.as_mut().unwrap() {
                OwnedTree::Simple(t) => &mut **t as &mut dyn NodeTree as *mut dyn NodeTree,
                OwnedTree::My(t) => &mut **t as &mut dyn NodeTree as *mut dyn NodeTree,
            });
            "ok".into()
        }
        "process" => match tree().process() {
            TreeStatus::Process(TreeProcess::Running) => "run",
            TreeStatus::Process(TreeProcess::Paused) => "paused",
            TreeStatus::QueuedTermination(TreeProcess::Running) => "qrun",
            TreeStatus::QueuedTermination(TreeProcess::Paused) => "qpaused",
            TreeStatus::Terminating => "term",
            TreeStatus::Terminated => "end",
        }.into(),
        "queue" => { tree().queue_termination(); "ok".into() }
        "terminate" => { tree().terminate(); "ok".into() }
        "pause" => { tree().pause(); "ok".into() }
        "unpause" => { tree().unpause(); "ok".into() }
        "hdr" => { tree().set_default_header_on_panic(s("m")); "ok".into() }
        "ftr" => { tree().set_default_footer_on_panic(s("m")); "ok".into() }

        // Scenes.
        "mk" => {
            let sc = build_scene(op["sc"].as_array().unwrap(), 0);
            let r = scene_str(&sc);
            drv.scenes.insert(u("to"), sc);
            r
        }
        "sl" => {
            let sc = drv.scenes.get(&u("from")).expect("harness: scene slot");
            let loaded = if s("via") == "file" {
                let dir = drv.scratch.clone();
                sc.save(&dir, "scene").and_then(|_| NodeScene::load(&dir.join("scene.scn")))
            } else {
                sc.save_to_str().and_then(|t| NodeScene::load_from_str(&t))
            };
            let before = scene_str(sc);
            match loaded {
                Ok(l) => { let r = format!("{}=>{}", before, scene_str(&l)); drv.scenes.insert(u("to"), l); r }
                Err(_) => format!("{before}=>err"),
            }
        }
        "cl" => {
            let sc = drv.scenes.get(&u("from")).expect("harness: scene slot").clone();
            let r = scene_str(&sc);
            drv.scenes.insert(u("to"), sc);
            r
        }
        "ap" => {
            let c = drv.scenes.remove(&u("from")).expect("harness: scene slot");
            let to = drv.scenes.get_mut(&u("to")).expect("harness: scene slot");
            if op["ow"].as_bool().unwrap() { to.append_as_owner(c) } else { to.append(c) }
            scene_str(to)
        }
        "sc" => scene_str(drv.scenes.get(&u("from")).expect("harness: scene slot")),
        "sh" => {
            let a = drv.scenes.get(&u("from")).unwrap().structural_hash();
            let b = drv.scenes.get(&u("to")).unwrap().structural_hash();
            (a == b).to_string()
        }
        "shs" => {
            let hs: Vec<u64> = op["scs"].as_array().unwrap().iter().map(|x| build_scene(x.as_array().unwrap(), 0).structural_hash()).collect();
            hs.iter().map(|h| (1 + hs.iter().position(|x| x == h).unwrap()).to_string()).collect::<Vec<_>>().join(",")
        }
        "scv" => {
            let sc = drv.scenes.get(&u("from")).unwrap();
            let mut i = 0;
            let at = u("i") as usize;
            scene_walk(sc, &mut |n, _| {
                i += 1;
                if i == at {
                    probe_mut(n).set_vals(&[Some(s("val").into()), None, None, None, None]);
                    if s("nm") != "" { n.set_name(s("nm")); }
                }
            });
            scene_str(sc)
        }
        "br" => {
            let sc = node().save_as_branch();
            let r = scene_str(&sc);
            drv.scenes.insert(u("to"), sc);
            r
        }

        // The tree's structure.
        "add" => {
            let scene = drv.scenes.remove(&u("from")).expect("harness: scene slot");
            assign(&scene, op["us"].as_array().unwrap(), op["ms"].as_array());
            node().add_child(scene);
            "ok".into()
        }
        "addn" => {
            let b = single(op);
            match op["ent"]["ty"].as_str().unwrap() {
                "Na" => node().add_child(*b_any::<Na>(b)),
                "Nb" => node().add_child(*b_any::<Nb>(b)),
                "Nc" => node().add_child(*b_any::<Nc>(b)),
                _ => node().add_child(*b_any::<Nd>(b)),
            }
            "ok".into()
        }
        "addp" => {
            let b = Box::into_raw(single(op));
            let rid = unsafe { node().add_child_from_ptr(b, op["ow"].as_bool().unwrap(), op["ig"].as_bool().unwrap()) };
            match tree().get_node(rid) { Some(x) => uid_of(x), None => "gone".into() }
        }
        "free" => {
            node().free();
            "ok".into()
        }
        "rmc" => {
            let name = s("name");
            node().remove_child(name).to_string()
        }
        "name" => { node().set_name(s("name")); "ok".into() }
        "sing" => {
            if s("via") == "tree" {
                match tree().register_as_singleton(drv.rid(n), s("name").into()) { Some(b) => b.to_string(), None => "none".into() }
            } else { node().register_as_singleton(s("name").into()).to_string() }
        }
        "singx" => match tree().register_as_singleton(drv.rid(u("x")), s("name").into()) { Some(b) => b.to_string(), None => "none".into() },
        "post" => {
            let m = s("m");
            let nd = node();
            match (s("lv"), s("via")) {
                ("D", "macro") => debug!(nd, "{}", m), ("I", "macro") => info!(nd, "{}", m),
                ("W", "macro") => warn!(nd, "{}", m), ("P", "macro") => error!(nd, "{}", m),
                ("D", "tree") => tree().post(drv.rid(n), Log::Debug(m)),
                ("I", "tree") => tree().post(drv.rid(n), Log::Info(m)),
                ("D", _) => nd.post(Log::Debug(m)), ("I", _) => nd.post(Log::Info(m)),
                ("W", _) => nd.post(Log::Warn(m)), (_, _) => nd.post(Log::Panic(m)),
            }
            "ok".into()
        }
        "mode" => { probe_mut(node()).set_mode(MODES.iter().position(|x| *x == s("m")).unwrap() as u8); "ok".into() }

        // Fields.
        "fw" => {
            let v = s("val").to_string();
            match probe_mut(node()).fld(s("f")) {
                Fld::Plain(f) => **f = v, Fld::Unique(f) => **f = v, Fld::Export(f) => **f = v, Fld::Default(f) => **f = v,
            }
            "ok".into()
        }
        "fv" => {
            let v = s("val").to_string();
            let old = match probe_mut(node()).fld(s("f")) { Fld::Plain(f) => f.write_valid(v), Fld::Unique(f) => f.write_valid(v), _ => unreachable!() };
            old.unwrap_or("none".into())
        }
        "ft" => match probe_mut(node()).fld(s("f")) { Fld::Plain(f) => f.take(), Fld::Unique(f) => f.take(), _ => unreachable!() }.unwrap_or("none".into()),
        "fr" => match probe_mut(node()).fld(s("f")) {
            Fld::Plain(f) => (**f).clone(), Fld::Unique(f) => (**f).clone(), Fld::Export(f) => (**f).clone(), Fld::Default(f) => (**f).clone() },
        "fq" => match probe_mut(node()).fld(s("f")) {
            Fld::Plain(f) => format!("{},{}", f.is_void(), f.is_reachable()), Fld::Unique(f) => format!("{},{}", f.is_void(), f.is_reachable()), _ => unreachable!() },

        // Pointers and queries.
        "ptr" => {
            let nd = node();
            let i = u("i") as usize;
            let ty = s("ty");
            let own = drv.rid(n);
            let tp: *mut dyn NodeTree = drv.tree.unwrap();
            match s("how") {
                "thisd" => store_dyn(sl, Ok(nd.this_dyn())),
                "this" => by_type!(ty, T => store_tp::<T>(sl, Ok(nd.this::<T>()))),
                "childd" => store_dyn(sl, nd.get_child_dyn(i).to_result().map_err(|e| fmt_err(&e))),
                "child" => by_type!(ty, T => store_tp::<T>(sl, nd.get_child::<T>(i).to_result().map_err(|e| fmt_err(&e)))),
                "parentd" => store_dyn(sl, nd.parent_dyn().to_result().map_err(|e| fmt_err(&e))),
                "parent" => by_type!(ty, T => store_tp::<T>(sl, nd.parent::<T>().to_result().map_err(|e| fmt_err(&e)))),
                "ownerd" => store_dyn(sl, Ok(nd.owner_dyn())),
                "owner" => by_type!(ty, T => store_tp::<T>(sl, nd.owner::<T>().to_result().map_err(|e| fmt_err(&e)))),
                "rootd" => store_dyn(sl, Ok(tree().root().this_dyn())),
                "rootmd" => store_dyn(sl, Ok(tree().root_mut().this_dyn())),
                "newd" => store_dyn(sl, unsafe { TpDyn::new(tp, own, drv.rid(u("x"))) }.to_result().map_err(tpe)),
                "new" => by_type!(ty, T => store_tp::<T>(sl, unsafe { Tp::<T>::new(tp, own, drv.rid(u("x"))) }.to_result().map_err(tpe))),
                "pathd" => match s("g") {
                    "np" => store_dyn(sl, nd.get_node_dyn(NodePath::from_str(s("p"))).to_result().map_err(|e| fmt_err(&e))),
                    "str" => store_dyn(sl, nd.get_node_dyn(s("p")).to_result().map_err(|e| fmt_err(&e))),
                    _ => store_dyn(sl, nd.get_node_dyn(s("p").to_string()).to_result().map_err(|e| fmt_err(&e))),
                },
                "path" => by_type!(ty, T => match s("g") {
                    "np" => store_tp::<T>(sl, nd.get_node::<T>(NodePath::from_str(s("p"))).to_result().map_err(|e| fmt_err(&e))),
                    "str" => store_tp::<T>(sl, nd.get_node::<T>(s("p")).to_result().map_err(|e| fmt_err(&e))),
                    _ => store_tp::<T>(sl, nd.get_node::<T>(s("p").to_string()).to_result().map_err(|e| fmt_err(&e))),
                }),
                h => panic!("harness: how {h}"),
            }
        }
        "use" => use_ptr(sl.unwrap(), s("w"), s("ty"), s("val"), op.get("to").and_then(|x| x.as_u64())),
        "stray" => {
            let w = s("w");
            let all = |n: &mut dyn Node| {
                let r = catch_unwind(AssertUnwindSafe(|| stray(n, w, s("ty"), s("name"))));
                let b = |x: bool| if x { "1" } else { "0" };
                format!("{};{}:{}:{}{}{}{}:{}", if r.is_ok() { "ok" } else { "panic" }, n.name(), if n.name_as_type() == probe(n).full() { probe(n).ty() } else { "?" },
                    b(n.in_tree()), b(n.is_stray()), b(n.is_root()), b(n.is_owner()), probe(n).vals().join(","))
            };
            match s("src") {
                "new" => { let mut x = make(s("ty"), 0); if s("nm") != "" { x.set_name(s("nm")); } all(&mut *x) }
                "clone" => { let mut x = node().clone_as_instance(); all(&mut *x) }
                "scene" => {
                    let (mut i, mut out) = (0, String::new());
                    scene_walk(drv.scenes.get(&u("from")).unwrap(), &mut |n, _| { i += 1; if i == u("i") { out = all(n); } });
                    out
                }
                _ => all(unsafe { &mut *drv.frames.last().unwrap().this }),
            }
        }
        "unw" => {
            let i = u("i") as usize;
            let nd = node();
            match s("w") {
                "unwrap" => uid_of(nd.get_child_dyn(i).unwrap().get()),
                "expect" => uid_of(nd.get_child_dyn(i).expect("Expected a child").get()),
                "opt_unwrap" => uid_of(nd.get_child_dyn(i).ok().unwrap().get()),
                "opt_expect" => uid_of(nd.get_child_dyn(i).ok().expect("Expected a child").get()),
                "unwrap_err" => fmt_err(&nd.get_child_dyn(i).map(|t| uid_of(t.get())).unwrap_err()),
                "expect_err" => fmt_err(&nd.get_child_dyn(i).map(|t| uid_of(t.get())).expect_err("Expected no child")),
                "err_unwrap" => fmt_err(&nd.get_child_dyn(i).err().unwrap()),
                _ => unreachable!(),
            }
        }
        "grid" => {
            let c = u("x");
            let caller = if c == 0 { None } else { Some(drv.rid(c)) };
            let r = match s("g") {
                "np" => tree().get_node_rid(NodePath::from_str(s("p")), caller),
                "str" => tree().get_node_rid(s("p"), caller),
                _ => tree().get_node_rid(s("p").to_string(), caller),
            };
            match r { Some(r) => tree().get_node(r).map(uid_of).unwrap_or("dead".into()), None => "none".into() }
        }
        "abs" => {
            let p = node().get_absolute_path();
            let q = p.clone();
            let abs = p.is_absolute();
            let r = node().get_node_dyn(q).to_result().map(|t| uid_of(t.get())).unwrap_or_else(|e| fmt_err(&e));
            format!("{}|{}|{}", p.to_string(), abs, r)
        }
        "raw" => match node().get_node_raw(NodePath::from_str(s("p"))) {
            Some(r) => tree().get_node(r).map(uid_of).unwrap_or("dead".into()), None => "none".into() },
        "td" => {
            let v = node().top_down(op["self"].as_bool().unwrap());
            v.iter().map(|r| tree().get_node(*r).map(uid_of).unwrap_or("dead".into())).collect::<Vec<_>>().join(",")
        }
        "nodes" => {
            let rids: Vec<u64> = op["us"].as_array().unwrap().iter().map(|x| drv.rid(x.as_u64().unwrap())).collect();
            let f = |o: Option<String>| o.unwrap_or("_".into());
            match s("w") {
                "get" => tree().get_nodes(&rids).into_iter().map(|o| f(o.map(|x| uid_of(x)))).collect::<Vec<_>>(),
                "valid" => tree().get_all_valid_nodes(&rids).into_iter().map(|x| uid_of(x)).collect(),
                "getm" => tree().get_nodes_mut(&rids).into_iter().map(|o| f(o.map(|x| uid_of(x)))).collect(),
                "validm" => tree().get_all_valid_nodes_mut(&rids).into_iter().map(|x| uid_of(x)).collect(),
                "one" => rids.iter().map(|r| f(tree().get_node(*r).map(|x| uid_of(x)))).collect(),
                "onem" => rids.iter().map(|r| f(tree().get_node_mut(*r).map(|x| uid_of(x)))).collect(),
                "raw" => rids.iter().map(|r| f(tree().get_node_raw(*r).map(|x| uid_of(unsafe { &*x })))).collect(),
                _ => rids.iter().map(|r| f(tree().get_node_mut_raw(*r).map(|x| uid_of(unsafe { &*x })))).collect(),
            }.join(",")
        }

        // Signals.
        "conn" => {
            let x = u("x");
            let once = op["once"].as_bool().unwrap();
            let t = if s("by") == "n" { unsafe { TpDyn::new(drv.tree.unwrap(), drv.rid(n), drv.rid(x)) }.to_option().unwrap() }
                    else { d().node(x).unwrap().this_dyn() };
            let t = long(t);
            let ti = ty_index(&drv.view.nodes[&x].ty);
            let id = probe(node()).connect(ti, once, t);
            drv.conns.entry(n).or_default().push(Conn { id, tgt: x, once });
            drv.handles.entry(n).or_default().push(id);
            format!("c{id}")
        }
        "disc" => {
            // Connections are referred to by the order in which they were made, from 1.
            let h = drv.handles.get(&n).and_then(|v| v.get(u("id") as usize - 1).copied());
            let id = h.unwrap_or((1 << 40) + u("id"));
            let r = probe(node()).sigref().disconnect(id);
            if let Some(c) = drv.conns.get_mut(&n) { c.retain(|c| c.id != id); }
            r.to_string()
        }
        "emit" => {
            drv.emitting.push((n, Vec::new()));
            probe(node()).sigref().emit(u("val") as u32);
            "ok".into()
        }
        other => panic!("harness: unknown op {other}"),
    }
}

fn b_any<T: Node>(b: Box<dyn Node>) -> Box<T> {
    let p = Box::into_raw(b);
    unsafe { Box::from_raw(p as *mut T) }
}

fn use_ptr(sl: u64, w: &str, ty: &str, val: &str, to: Option<u64>) -> String {
    macro_rules! tp { ($t:expr) => {{
        let mut t = unsafe { std::ptr::read($t) }; // a bitwise copy: the derived Copy asks for T: Copy
        match w {
            "valid" => t.is_valid().to_string(),
            "null" => t.is_null().to_string(),
            "get" => uid_of(t.get()),
            "deref" => { let r: &dyn Node = std::ops::Deref::deref(&t); uid_of(r) }
            "derefm" => { let r: &mut dyn Node = std::ops::DerefMut::deref_mut(&mut t); uid_of(r) }
            "getm" => uid_of(t.get_mut()),
            "try" => t.try_get().to_result().map(|x| uid_of(x)).unwrap_or_else(tpe),
            "trym" => t.try_get_mut().to_result().map(|x| uid_of(x)).unwrap_or_else(tpe),
            "todyn" => store_dyn(to, Ok(t.to_dyn())),
            "trytodyn" => store_dyn(to, t.try_to_dyn().to_result().map_err(tpe)),
            "fname" => t.try_get().to_result().map(|x| x.name().to_string()).unwrap_or_else(tpe),
            _ => "n/a".into(),
        }
    }}; }
    match d().ptrs.get(&sl).expect("harness: pointer slot") {
        Slot::A(t) => tp!(t), Slot::B(t) => tp!(t), Slot::C(t) => tp!(t), Slot::E(t) => tp!(t),
        Slot::D(t0) => {
            let mut t = *t0;
            match w {
                "valid" => t.is_valid().to_string(),
                "null" => t.is_null().to_string(),
                "get" => uid_of(t.get()),
                "deref" => { let r: &dyn Node = std::ops::Deref::deref(&t); uid_of(r) }
                "derefm" => { let r: &mut dyn Node = std::ops::DerefMut::deref_mut(&mut t); uid_of(r) }
                "getm" => uid_of(t.get_mut()),
                "try" => t.try_get().to_result().map(|x| uid_of(x)).unwrap_or_else(tpe),
                "trym" => t.try_get_mut().to_result().map(|x| uid_of(x)).unwrap_or_else(tpe),
                "fname" => t.try_get().to_result().map(|x| x.name().to_string()).unwrap_or_else(tpe),
                "to" => by_type!(ty, T => store_tp::<T>(to, t.to::<T>().to_result().map_err(tpe))),
                "is" => by_type!(ty, T => t.is::<T>().to_string()),
                "isof" => match ty { "Greet" => t.is_of::<dyn Greet>().to_string(), "Calc" => t.is_of::<dyn Calc>().to_string(), _ => t.is_of::<dyn Marker>().to_string() },
                "cast" => match ty {
                    "Greet" => t.cast::<dyn Greet>().to_result().map(|g| format!("u{}", g.greet())).unwrap_or_else(tpe),
                    "Calc" => t.cast::<dyn Calc>().to_result().map(|g| format!("u{}", g.calc())).unwrap_or_else(tpe),
                    _ => t.cast::<dyn Marker>().to_result().map(|_| "ok".to_string()).unwrap_or_else(tpe),
                },
                "castm" => match ty {
                    "Greet" => t.cast_mut::<dyn Greet>().to_result().map(|g| { g.tag(val.to_string()); format!("u{}", g.greet()) }).unwrap_or_else(tpe),
                    "Calc" => t.cast_mut::<dyn Calc>().to_result().map(|g| format!("u{}", g.calc())).unwrap_or_else(tpe),
                    _ => t.cast_mut::<dyn Marker>().to_result().map(|_| "ok".to_string()).unwrap_or_else(tpe),
                },
                _ => "n/a".into(),
            }
        }
    }
}
