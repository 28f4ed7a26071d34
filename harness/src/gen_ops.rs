//! Chooses random operations for the core driver, within the environment the specification covers.
use crate::core::*;
use crate::nodes::MODES;
use serde_json::{Value, json};
use std::collections::VecDeque;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn chance(&mut self, p: f64) -> bool { (self.next() >> 11) as f64 / ((1u64 << 53) as f64) < p }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len() as u64) as usize; &v[i] }
}

pub struct Gen {
    pub rng: Rng,
    pub prof: Value,
    pub weights: Vec<(String, u64)>,
    pub ops: u64,
    pub max_ops: u64,
    pub max_nodes: usize,
    /// Full scenes made.
    styles: usize,
    many: bool,
    slots: u64,
    conns: usize,
    pub max_uid: u64,
    /// Nothing is done which ends the tree.
    pub calm: bool,
    pub max_depth: usize,
    /// Nodes of a new scene, at most.
    pub scene: usize,
    pub p_hook: f64,
    pub next_uid: u64,
    pub pending: VecDeque<Value>,
    pub started: bool,
    pub hook_ops: Vec<u64>,
    pub pool: Vec<String>,
    pub conns_made: std::collections::HashMap<u64, u64>,
}

const OPS: &[(&str, u64)] = &[
    ("process", 12), ("queue", 1), ("terminate", 1), ("pause", 2), ("unpause", 2), ("hdr", 1), ("ftr", 1),
    ("mk", 3), ("sl", 2), ("cl", 2), ("ap", 2), ("sc", 1), ("sh", 2), ("shs", 1), ("scv", 1), ("br", 2),
    ("add", 8), ("addn", 6), ("addp", 1), ("free", 5), ("rmc", 4), ("name", 5), ("sing", 3), ("singx", 1),
    ("post", 6), ("mode", 4), ("fw", 2), ("fv", 2), ("ft", 1), ("fr", 2), ("fq", 1),
    ("ptr", 6), ("use", 8), ("unw", 1), ("stray", 2), ("grid", 4), ("abs", 2), ("raw", 2), ("td", 2), ("nodes", 2),
    ("conn", 3), ("disc", 2), ("emit", 3), ("sleep", 1),
];

impl Gen {
    pub fn new(seed: u64, prof: Value) -> Self {
        let get = |k: &str, dflt: u64| prof.get(k).and_then(|x| x.as_u64()).unwrap_or(dflt);
        let only = prof.get("only").and_then(|x| x.as_bool()).unwrap_or(false);
        let weights = OPS.iter().map(|(n, w)| {
            let w = prof.get("w").and_then(|x| x.get(*n)).and_then(|x| x.as_u64()).unwrap_or(if only { 0 } else { *w });
            (n.to_string(), w)
        }).filter(|(_, w)| *w > 0).collect();
        let all = ["A", "A0", "A1", "B", "B7", "A9", "A00", "\u{c4}", "a b", "N-1", "Root", "7", "Q10", "B007",
                   "A12345678901234567", "x_y_0", "B9", "\u{1F600}2"];
        let many = prof.get("many").and_then(|x| x.as_bool()).unwrap_or(false);
        let npool = get("names", 18).min(all.len() as u64) as usize;
        Gen {
            rng: Rng(seed), weights, ops: 0, max_ops: get("max_ops", 120), max_nodes: get("max_nodes", 12) as usize,
            max_uid: get("max_uid", 90), calm: prof.get("calm").and_then(|x| x.as_bool()).unwrap_or(false), max_depth: get("max_depth", 5) as usize, scene: get("scene", 5) as usize,
            p_hook: prof.get("p_hook").and_then(|x| x.as_f64()).unwrap_or(0.25), next_uid: 1, pending: VecDeque::new(),
            started: false, hook_ops: Vec::new(), pool: all[..npool].iter().map(|s| s.to_string()).collect(),
            conns_made: Default::default(), styles: 0, many, slots: if many { 60 } else { 5 }, conns: if many { 64 } else { 5 }, prof,
        }
    }

    fn entries(&mut self, max: usize) -> Value {
        // Full scenes are as large as they may be, and chains, fans or neither.
        let full = self.prof.get("full").and_then(|x| x.as_bool()).unwrap_or(false);
        let n = if full { max - self.rng.below(max as u64 / 10 + 1) as usize } else { 1 + self.rng.below(max.max(1) as u64) as usize };
        let mut out = Vec::new();
        let style = if full { self.styles += 1; [0, 2, 1][(self.styles - 1) % 3] } else { 1 };
        let deep = full && style == 0 || self.prof.get("deep").and_then(|x| x.as_bool()).unwrap_or(false);
        let straight = if full { 1.0 } else { 0.8 };
        for i in 0..n {
            let pi = if i == 0 { 0 } else if style == 2 && self.rng.chance(0.97) { 1 } else if deep && self.rng.chance(straight) { i as u64 } else { 1 + self.rng.below(i as u64) };
            out.push((pi, i));
        }
        // Pre-order: an entry's parent must be on the path to the previous entry.
        // Re-number by a depth-first walk.
        let mut order = Vec::new();
        fn go(at: u64, es: &[(u64, usize)], order: &mut Vec<usize>) {
            for (pi, i) in es { if *pi == at { order.push(*i); go(*i as u64 + 1, es, order); } }
        }
        go(0, &out, &mut order);
        let pos = |i: usize| order.iter().position(|x| *x == i).unwrap() as u64 + 1;
        let es: Vec<Value> = order.iter().map(|i| {
            let pi = out[*i].0;
            self.entry(if pi == 0 { 0 } else { pos(pi as usize - 1) })
        }).collect();
        json!(es)
    }
    /// A node nobody knows.
    fn unknown(&mut self, seen: &[u64]) -> u64 {
        if self.rng.chance(0.5) { 999_999 } else { 5_000_000 + *self.rng.pick(seen) * 100 + *self.rng.pick(&[16, 31, 32, 33, 48, 63]) }
    }
    fn ty(&mut self) -> &'static str { *self.rng.pick(&["Na", "Nb", "Nc", "Nd"]) }
    fn nm(&mut self) -> String {
        if self.rng.chance(0.01) { return self.long("a name ", 300); }
        let p = self.pool.clone(); self.rng.pick(&p).clone()
    }
    /// A long text ending in a number, of few different ones.
    fn long(&mut self, of: &str, max: u64) -> String {
        let k = *self.rng.pick(&[17, 33, 65, 129, 257, max]);
        let mut t: String = of.chars().cycle().take(k.min(max) as usize).collect();
        t.push_str(&self.rng.below(3).to_string());
        t
    }
    fn sing(&mut self, of: &[&str]) -> String {
        if self.many && self.rng.chance(0.8) { return format!("S{}", self.rng.below(60)); }
        if self.rng.chance(0.01) { return self.long("single ", 200); }
        self.rng.pick(of).to_string()
    }
    fn val(&mut self) -> String {
        if self.rng.chance(0.01) { return self.long("a=\"\u{e4}\" ", 3000); }
        self.rng.pick(&["x", "y", "", "zz top", "\u{e4}\"q\"", "li\nne", "'", "#c", "0", "a=b", "\\n"]).to_string()
    }
    fn entry(&mut self, pi: u64) -> Value {
        let ow = self.rng.chance(0.35);
        let mut e = json!({ "pi": pi, "ty": self.ty(), "nm": self.nm(), "ow": ow });
        if self.rng.chance(0.3) {
            let v: Vec<String> = (0..5).map(|_| self.val()).collect();
            e["v"] = json!(v);
        }
        e
    }
    fn uids(&mut self, n: usize) -> Value {
        let v: Vec<u64> = (0..n).map(|_| { let u = self.next_uid; self.next_uid += 1; u }).collect();
        json!(v)
    }
    fn modes(&mut self, n: usize) -> Value {
        let v: Vec<&str> = (0..n).map(|_| if self.rng.chance(0.5) { "Inherit" } else { *self.rng.pick(&MODES) }).collect();
        json!(v)
    }

    pub fn next(drv: &mut Drv) -> Option<Value> {
        let depth = drv.frames.len();
        {
            let g = &mut drv.r#gen;
            if let Some(op) = g.pending.pop_front() { return Some(op); }
            if !g.started {
                g.started = true;
                let verb = match g.prof.get("verb").and_then(|x| x.as_str()) {
                    Some(v) => v.to_string(),
                    None => g.rng.pick(&["All", "All", "NoDebug", "OnlyIssues", "OnlyPanics"]).to_string() };
                let kind = *g.rng.pick(&["simple", "my"]);
                if g.rng.chance(0.2) {
                    let (ent, us, ms) = (g.entry(0), g.uids(1), g.modes(1));
                    return Some(json!({ "op": "new", "verb": verb, "kind": kind, "ent": ent, "us": us, "ms": ms }));
                }
                let sc = g.entries(g.scene + 1);
                let n = sc.as_array().unwrap().len();
                let loaded = g.rng.chance(0.4);
                let (us, ms) = (g.uids(n), g.modes(n));
                if loaded {
                    g.pending.push_back(json!({ "op": "sl", "from": 1, "to": 1, "via": "str" }));
                }
                g.pending.push_back(json!({ "op": "new", "verb": verb, "kind": kind, "from": 1, "us": us, "ms": ms }));
                return Some(json!({ "op": "mk", "to": 1, "sc": sc }));
            }
            if g.ops >= g.max_ops { return None; }
            if depth > 0 {
                // In a hook: a few operations at most.
                while g.hook_ops.len() < depth { g.hook_ops.push(0); }
                g.hook_ops.truncate(depth);
                let k = g.hook_ops[depth - 1];
                let p = if k == 0 { g.p_hook } else { 0.45 };
                if depth > g.max_depth || !g.rng.chance(p) {
                    g.hook_ops[depth - 1] = 0;
                    g.hook_ops.truncate(depth - 1);
                    return None;
                }
                g.hook_ops[depth - 1] += 1;
            } else { g.hook_ops.clear(); }
        }
        for _ in 0..60 {
            let g = &mut drv.r#gen;
            let total: u64 = g.weights.iter().map(|x| x.1).sum();
            let mut r = g.rng.below(total);
            let mut name = String::new();
            for (n, w) in &g.weights { if r < *w { name = n.clone(); break; } r -= *w; }
            if let Some(op) = Gen::build(drv, &name) {
                drv.r#gen.ops += 1;
                return Some(op);
            }
        }
        None
    }

    fn build(drv: &mut Drv, name: &str) -> Option<Value> {
        let live: Vec<u64> = drv.view.nodes.keys().copied().collect();
        let depth = drv.frames.len();
        let view = drv.view.clone();
        let root = view.root;
        let here = drv.frames.last().map(|f| f.uid).filter(|u| view.nodes.contains_key(u));
        let gone = drv.frames.last().map(|f| f.uid).filter(|u| !view.nodes.contains_key(u));
        let slots: Vec<u64> = drv.scenes.keys().copied().collect();
        let pslots: Vec<u64> = drv.ptrs.keys().copied().collect();
        let sizes: std::collections::BTreeMap<u64, usize> = drv.scenes.iter().map(|(k, s)| (*k, scene_size(s))).collect();
        let seen: Vec<u64> = drv.ridof.keys().copied().collect();
        let conns = drv.conns.clone();
        let emittable: Vec<u64> = live.iter().copied().filter(|u| drv.emittable(*u)).collect();
        let removable: std::collections::HashMap<u64, bool> = if name == "free" || name == "rmc" { live.iter().map(|u| (*u, drv.removable(*u))).collect() } else { Default::default() };
        let g = &mut drv.r#gen;
        let nodes_live = !live.is_empty();
        let needs_node = !["process", "queue", "terminate", "pause", "unpause", "mk", "sl", "cl", "ap", "sc", "sh", "shs", "scv", "use", "stray", "sleep"].contains(&name);
        // What a node which has been removed in one of its own hooks is asked there.
        let name = if gone.is_some() && g.rng.chance(0.3) { "stray" } else { name };
        if needs_node && !nodes_live { return None; }
        // The node acted on: often the one whose hook runs.
        let n = if !nodes_live { 0 } else if g.many && root != 0 && ["conn", "disc", "emit"].contains(&name) && g.rng.chance(0.9) { root } else { match here { Some(u) if g.rng.chance(0.4) => u, _ => *g.rng.pick(&live) } };
        let nv = view.nodes.get(&n).cloned().unwrap_or_default();
        let room = g.max_nodes.saturating_sub(live.len());
        let can_uid = g.next_uid < g.max_uid;
        let free_slot = 1 + g.rng.below(3);
        match name {
            "process" => if depth == 0 { Some(json!({ "op": name })) } else { None },
            "queue" | "terminate" | "pause" | "unpause" => Some(json!({ "op": name })),
            "hdr" | "ftr" => Some(json!({ "op": name, "m": g.rng.pick(&["Oh no", "Bye", "It broke", "", "Two\nlines", "{} \u{e4}"]) })),
            "sleep" => if depth == 0 { Some(json!({ "op": name, "us": match g.rng.below(600) { 0 => 1_100_000 + g.rng.below(1_500_000), 1..=6 => 50_000 + g.rng.below(300_000), 7..=30 => g.rng.below(40_000), _ => g.rng.below(3000) } })) } else { None },

            "mk" => { let sc = g.entries(g.scene); Some(json!({ "op": name, "to": free_slot, "sc": sc })) }
            "sl" => { if slots.is_empty() { return None; }
                let via = if g.rng.chance(0.2) { "file" } else { "str" };
                Some(json!({ "op": name, "from": g.rng.pick(&slots), "to": free_slot, "via": via })) }
            "cl" => { if slots.is_empty() { return None; } Some(json!({ "op": name, "from": g.rng.pick(&slots), "to": free_slot })) }
            "ap" => {
                if slots.len() < 2 { return None; }
                let a = *g.rng.pick(&slots);
                let b = *g.rng.pick(&slots);
                if a == b || sizes[&a] + sizes[&b] > 2 * g.scene - 1 { return None; }
                Some(json!({ "op": name, "from": a, "to": b, "ow": g.rng.chance(0.5) }))
            }
            "sc" => { if slots.is_empty() { return None; } Some(json!({ "op": name, "from": g.rng.pick(&slots) })) }
            "sh" => { if slots.is_empty() { return None; } let a = *g.rng.pick(&slots); Some(json!({ "op": name, "from": a, "to": g.rng.pick(&slots) })) }
            "shs" => {
                // Scenes which differ from another one in a single respect, or not at all.
                let mut scs = vec![g.entries(6)];
                for _ in 0..8 {
                    let mut sc = if g.rng.chance(0.8) { scs[g.rng.below(scs.len() as u64) as usize].clone() } else { g.entries(5) };
                    let es = sc.as_array_mut().unwrap();
                    let i = g.rng.below(es.len() as u64) as usize;
                    match g.rng.below(6) {
                        0 => es[i]["ty"] = json!(g.ty()),
                        1 if i > 0 => es[i]["ow"] = json!(!es[i]["ow"].as_bool().unwrap()),
                        2 if i > 0 => es[i]["pi"] = json!(1 + g.rng.below(i as u64)),
                        3 => es[i]["nm"] = json!(g.nm()),
                        4 => { es[i]["v"] = json!((0..5).map(|_| g.val()).collect::<Vec<_>>()); }
                        _ => { es.pop(); if es.is_empty() { continue; } }
                    }
                    scs.push(sc);
                }
                Some(json!({ "op": name, "scs": scs }))
            }
            "scv" => { if slots.is_empty() { return None; } let a = *g.rng.pick(&slots);
                let i = 1 + g.rng.below(sizes[&a] as u64);
                let nm = if g.rng.chance(0.5) { g.nm() } else { String::new() };
                Some(json!({ "op": name, "from": a, "i": i, "val": g.val(), "nm": nm })) }
            "br" => { if view.subtree(n).len() > 2 * g.scene - 1 { return None; } Some(json!({ "op": name, "n": n, "to": free_slot })) }

            "add" | "addn" | "addp" => {
                if room == 0 || !can_uid { return None; }
                let maxd = g.prof.get("max_tree_depth").and_then(|x| x.as_u64()).unwrap_or(9);
                if nv.dep >= maxd { return None; }
                if name == "add" {
                    let fit: Vec<u64> = slots.iter().copied().filter(|s| sizes[s] <= room).collect();
                    if fit.is_empty() {
                        let sc = g.entries(room.min(g.scene));
                        let k = sc.as_array().unwrap().len();
                        let (us, ms) = (g.uids(k), g.modes(k));
                        g.pending.push_back(json!({ "op": "add", "n": n, "from": 1, "us": us, "ms": ms }));
                        return Some(json!({ "op": "mk", "to": 1, "sc": sc }));
                    }
                    let s = *g.rng.pick(&fit);
                    let k = sizes[&s];
                    let (us, ms) = (g.uids(k), g.modes(k));
                    Some(json!({ "op": "add", "n": n, "from": s, "us": us, "ms": ms }))
                } else {
                    let (ent, us, ms) = (g.entry(0), g.uids(1), g.modes(1));
                    let mut op = json!({ "op": name, "n": n, "ent": ent, "us": us, "ms": ms });
                    if name == "addp" { op["ow"] = json!(g.rng.chance(0.5)); op["ig"] = json!(g.rng.chance(0.2)); }
                    Some(op)
                }
            }
            "free" => {
                if n == root && (g.calm || !g.rng.chance(0.05)) || !removable[&n] { return None; }
                Some(json!({ "op": name, "n": n }))
            }
            "rmc" => {
                let nm = if !nv.kids.is_empty() && g.rng.chance(0.85) { view.nodes[g.rng.pick(&nv.kids)].name.clone() } else { g.nm() };
                if nv.kids.iter().any(|k| view.nodes.get(k).is_some_and(|x| x.name == nm) && !removable[k]) { return None; }
                Some(json!({ "op": name, "n": n, "name": nm }))
            }
            "name" => {
                let sib: Vec<String> = view.nodes.get(&nv.par).map(|p| p.kids.iter().filter_map(|k| view.nodes.get(k).map(|x| x.name.clone())).collect()).unwrap_or_default();
                let nm = if !sib.is_empty() && g.rng.chance(0.5) { g.rng.pick(&sib).clone() } else { g.nm() };
                Some(json!({ "op": name, "n": n, "name": nm }))
            }
            "sing" => Some(json!({ "op": name, "n": n, "name": g.sing(&["S", "T", "U", "A", "S", "T", "", "\u{c4} b", "/S", ".."]), "via": g.rng.pick(&["node", "tree"]) })),
            "singx" => { let x = if g.rng.chance(0.5) { g.unknown(&seen) } else { *g.rng.pick(&seen) };
                Some(json!({ "op": name, "n": n, "x": x, "name": g.sing(&["S", "T", "U"]) })) }
            "post" => {
                let lv = if !g.calm && g.rng.chance(0.08) { "P" } else { *g.rng.pick(&["D", "I", "W", "W"]) };
                let via = if lv == "W" || lv == "P" { *g.rng.pick(&["node", "macro"]) } else { *g.rng.pick(&["node", "macro", "tree"]) };
                Some(json!({ "op": name, "n": n, "lv": lv, "via": via, "m": if g.rng.chance(0.02) { g.long("word \u{e4}|\n", 2000) } else { g.rng.pick(&["hello", "w\u{e4}rning | x", "", "two words", "[x] - y", "two\nlines", "{}{0}\t%s", "\n", "a rather long message, as one finds them in programs which explain at length what went wrong, and why"]).to_string() } }))
            }
            "mode" => Some(json!({ "op": name, "n": n, "m": g.rng.pick(&MODES) })),

            "fw" | "fr" => Some(json!({ "op": name, "n": n, "f": g.rng.pick(&["ex", "ed", "df", "uq", "pl"]), "val": g.val() })),
            "fv" | "ft" | "fq" => Some(json!({ "op": name, "n": n, "f": g.rng.pick(&["uq", "pl"]), "val": g.val() })),

            "ptr" => {
                let how = *g.rng.pick(&["thisd", "this", "childd", "child", "parentd", "parent", "ownerd", "owner", "rootd", "rootmd", "newd", "new", "pathd", "path"]);
                if (how == "rootd" || how == "rootmd") && root == 0 { return None; }
                // `this` with the wrong type panics outright.
                let ty = if how == "this" || g.rng.chance(0.5) { nv.ty.clone() } else { g.ty().to_string() };
                let x = if g.rng.chance(0.3) { g.unknown(&seen) } else { *g.rng.pick(&seen) };
                let (p, gk) = g.path(&view, n);
                Some(json!({ "op": name, "n": n, "sl": 1 + g.rng.below(g.slots), "how": how, "ty": ty, "i": if g.rng.chance(0.1) { g.rng.below(nv.kids.len() as u64 + 2) } else { g.rng.below(4) }, "x": x, "p": p, "g": gk }))
            }
            "use" => {
                if pslots.is_empty() { return None; }
                let sl = *g.rng.pick(&pslots);
                let d = matches!(drv.ptrs[&sl], Slot::D(_));
                let g = &mut drv.r#gen;
                let w = if d { *g.rng.pick(&["valid", "null", "get", "deref", "derefm", "getm", "try", "trym", "fname", "to", "is", "isof", "cast", "castm"]) }
                        else { *g.rng.pick(&["valid", "null", "get", "deref", "derefm", "getm", "try", "trym", "fname", "todyn", "trytodyn"]) };
                // A panicking accessor on a dead pointer ends the tree: seldom.
                let dead = match &drv.ptrs[&sl] { Slot::A(t) => t.is_null(), Slot::B(t) => t.is_null(), Slot::C(t) => t.is_null(), Slot::E(t) => t.is_null(), Slot::D(t) => t.is_null() };
                let g = &mut drv.r#gen;
                if dead && ["get", "deref", "derefm", "getm", "todyn"].contains(&w) && (g.calm || !g.rng.chance(0.1)) { return None; }
                let ty = if ["isof", "cast", "castm"].contains(&w) { *g.rng.pick(&["Greet", "Calc", "Marker"]) } else { g.ty() };
                let mut op = json!({ "op": name, "sl": sl, "w": w, "ty": ty, "val": g.val() });
                if ["to", "todyn", "trytodyn"].contains(&w) { op["to"] = json!(1 + g.rng.below(g.slots)); }
                Some(op)
            }
            "stray" => {
                let w = *g.rng.pick(&["facts", "name", "this", "thisd", "children", "count", "childless", "child", "childd", "parent", "parentd", "owner", "ownerd",
                    "path", "node", "noded", "raw", "td", "add", "adds", "addp", "remove", "free", "branch", "sing", "post"]);
                let mut op = json!({ "op": name, "w": w, "ty": g.ty(), "name": g.nm() });
                if let Some(u) = gone {
                    if g.rng.chance(0.8) { op["src"] = json!("self"); op["x"] = json!(u); return Some(op); }
                }
                match g.rng.below(3) {
                    0 if nodes_live => { op["src"] = json!("clone"); op["n"] = json!(n); }
                    1 if !slots.is_empty() && w != "name" => {
                        let a = *g.rng.pick(&slots);
                        op["src"] = json!("scene"); op["from"] = json!(a); op["i"] = json!(1 + g.rng.below(sizes[&a] as u64));
                    }
                    _ => { op["src"] = json!("new"); op["nm"] = json!(if g.rng.chance(0.3) { String::new() } else { g.nm() }); }
                }
                Some(op)
            }
            "unw" => {
                let w = *g.rng.pick(&["unwrap", "expect", "opt_unwrap", "opt_expect", "unwrap_err", "expect_err", "err_unwrap"]);
                let bad = ["unwrap_err", "expect_err", "err_unwrap"].contains(&w);
                let i = g.rng.below(4);
                let fails = (i < nv.kids.len() as u64) == bad;
                if fails && (g.calm || !g.rng.chance(0.15)) { return None; }
                Some(json!({ "op": name, "n": n, "i": i, "w": w }))
            }
            "grid" => { let (p, gk) = g.path(&view, n);
                let x = if g.rng.chance(0.7) { n } else if g.rng.chance(0.5) { 0 } else { *g.rng.pick(&seen) };
                Some(json!({ "op": name, "n": n, "p": p, "g": gk, "x": x })) }
            "abs" => Some(json!({ "op": name, "n": n })),
            "raw" => { let (p, gk) = g.path(&view, n);
                if gk != "np" || p.starts_with('/') { return None; }
                Some(json!({ "op": name, "n": n, "p": p })) }
            "td" => Some(json!({ "op": name, "n": n, "self": g.rng.chance(0.5) })),
            "nodes" => {
                let k = if g.many && g.rng.chance(0.3) { g.rng.below(64) } else { g.rng.below(5) };
                let us: Vec<u64> = (0..k).map(|_| if g.rng.chance(0.15) { g.unknown(&seen) } else if g.rng.chance(0.7) { *g.rng.pick(&live) } else { *g.rng.pick(&seen) }).collect();
                Some(json!({ "op": name, "n": n, "us": us, "w": g.rng.pick(&["get", "valid", "getm", "validm", "one", "onem", "raw", "rawm"]) }))
            }

            "conn" => {
                let x = *g.rng.pick(&live);
                if conns.get(&n).map(|c| c.iter().any(|c| c.tgt == x)).unwrap_or(false) { return None; }
                if conns.get(&n).map(|c| c.len() >= g.conns).unwrap_or(false) { return None; }
                *g.conns_made.entry(n).or_insert(0) += 1;
                Some(json!({ "op": name, "n": n, "x": x, "once": g.rng.chance(0.4), "by": g.rng.pick(&["n", "x"]) }))
            }
            "disc" => {
                let made = g.conns_made.get(&n).copied().unwrap_or(0);
                if made == 0 && !g.rng.chance(0.1) { return None; }
                // Handles count connections from 1; the one after the last was never given out.
                Some(json!({ "op": name, "n": n, "id": 1 + g.rng.below(made + 1) }))
            }
            "emit" => {
                let cs = conns.get(&n).cloned().unwrap_or_default();
                if cs.is_empty() && !g.rng.chance(0.1) { return None; }
                if depth > 4 || !emittable.contains(&n) { return None; }
                // Seldom with a listener that is gone, which may end the tree.
                if cs.iter().any(|c| !view.nodes.contains_key(&c.tgt)) && (g.calm || !g.rng.chance(0.3)) { return None; }
                Some(json!({ "op": name, "n": n, "val": g.rng.below(100) }))
            }
            _ => unreachable!("{name}"),
        }
    }

    /// A path or name to look up, with the kind of lookup.
    fn path(&mut self, view: &View, n: u64) -> (String, &'static str) {
        if self.rng.chance(0.25) {
            return (self.sing(&["S", "T", "U", "A", "none", "S", "T", "", "\u{c4} b", "/S", ".."]), *self.rng.pick(&["str", "string"]));
        }
        let mut segs: Vec<String> = Vec::new();
        let mut at = n;
        let abs = self.rng.chance(0.35);
        if abs {
            at = view.root;
            if let Some(r) = view.nodes.get(&at) { segs.push(if self.rng.chance(0.85) { r.name.clone() } else { self.nm() }); }
        }
        let k = if self.rng.chance(0.06) { let far = *self.rng.pick(&[10, 40, 400]); self.rng.below(far) } else { self.rng.below(4) };
        for _ in 0..k {
            let Some(v) = view.nodes.get(&at) else { break };
            match self.rng.below(10) {
                0 => segs.push(".".into()),
                1 | 2 => { segs.push("..".into()); at = v.par; }
                3 => segs.push("".into()),
                4 => { let x = self.nm(); segs.push(x); }
                _ => if v.kids.is_empty() { segs.push("..".into()); at = v.par; }
                     else { let c = *self.rng.pick(&v.kids); segs.push(view.nodes[&c].name.clone()); at = c; }
            }
        }
        let mut p = segs.join("/");
        if abs { p = format!("/{p}"); } else { p = p.trim_start_matches('/').to_string(); }
        if self.rng.chance(0.1) { p.push('/'); }
        (p, "np")
    }
}
