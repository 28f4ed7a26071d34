"""Writes declarations, scene expressions and connection histories as Rust programs, runs them, and has TLC judge what they did."""
import json, os, random, re, shutil, subprocess

import vlib
from vlib import V, ToolError

M = os.path.join(V, "macros")

# How a value may be written.
EXPR = {
    "u8": {"0": ["0", "0u8", "u8::MIN", "{ let v = 1; v - 1 }"], "5": ["5", "2 + 3", "{ let x = 4; x + 1 }", "u8::from(5)", "(5)", "five()", "if true { 5 } else { 6 }", "[4, 5][1]"],
           "255": ["255", "u8::MAX", "!0", "match 1 { 1 => 255, _ => 0 }"]},
    "String": {'""': ["String::new()", '"".to_string()', "String::default()", "Default::default()"],
               '"e f"': ['"e f".to_string()', 'String::from("e f")', 'format!("{} f", "e")', '["e", "f"].join(" ")'],
               '"q"': ['"q".to_string()', '"q".into()'], '"b"': ['"b".to_string()'],
               r'"\"q\\"': [r'"\"q\\".to_string()', r'String::from("\"q\\")', 'r#""q\\"#.to_string()']},
    "Vec<bool>": {"[]": ["Vec::new()", "vec![]"], "[true, false]": ["vec![true, false]", "[true, false].to_vec()", "(0..2).map(|x| x == 0).collect::<Vec<bool>>()"]},
    "Option<i8>": {"None": ["None", "Option::None", "Some(1).filter(|x: &i8| *x > 1)"], "Some(-3)": ["Some(-3)", "Some(-2 - 1)", "Option::Some(-3)", "Some({ let x: i8 = 3; -x })"]},
    "(u8, bool)": {"(0, false)": ["(0, false)", "Default::default()"], "(7, true)": ["(7, true)", "(3 + 4, !false)", "{ let a = 7; (a, a > 3) }"]},
    "HashMap<String, u8>": {"{}": ["HashMap::new()", "Default::default()"], '{"k": 1}': ['HashMap::from([("k".to_string(), 1)])', '[("k".to_string(), 1)].into_iter().collect::<HashMap<String, u8>>()']},
    "f32": {"0.0": ["0.0", "f32::default()"], "1.5": ["1.5", "3.0 / 2.0", "1.5f32"]},
    "[i8; 2]": {"[0, 0]": ["[0, 0]", "[0; 2]"], "[1, -1]": ["[1, -1]", "[1, 0 - 1]", "{ let x = 1; [x, -x] }"]},
}
# Settings need expressions whose type does not depend on the field's.
SETEXPR = {("String", '""'): EXPR["String"]['""'][:3], ("String", '"q"'): EXPR["String"]['"q"'][:1], ("Vec<bool>", "[]"): ["Vec::<bool>::new()", "{ let v: Vec<bool> = vec![]; v }"],
           ("Option<i8>", "None"): ["None::<i8>", "Option::<i8>::None"]}
SPELL = {"u8": ["u8", "Byte", "std::primitive::u8"], "String": ["String", "std::string::String", "Text"], "Vec<bool>": ["Vec<bool>", "Vec::<bool>", "std::vec::Vec<bool>"],
         "Option<i8>": ["Option<i8>", "std::option::Option<i8>"], "(u8, bool)": ["(u8, bool)", "(u8, bool,)"], "HashMap<String, u8>": ["HashMap<String, u8>", "std::collections::HashMap<String, u8>"],
         "f32": ["f32"], "[i8; 2]": ["[i8; 2]", "[i8; 1 + 1]"]}
SCENE_TYPES = {"Pa": ["u8", "String", "Vec<bool>", "String", "Option<i8>"], "Pb": ["u8", "String"], "Pc": ["u8"]}
SCENE_FIELDS = {"Pa": "abcde", "Pb": "xs", "Pc": "y"}
FIELD_NAMES = ["fa", "fb", "fc", "speed", "hp", "r#type", "node_", "Value", "name", "x", "parent_", "owned_state", "args", "map", "scene", "node", "default_", "is_owner", "héé"]
CLASS_NAMES = ["Cls", "Alpha", "K9", "Some_Name", "Nn", "Übung", "T", "NodeX"]
FN_NAMES = ["fa", "fb", "fc", "fd", "fe"]
HEAD = """use crate::{Rec, note, notes};
use crate::base::{self, *};
use crate::base::inner::Pc;
use node_tree::prelude::*;
use node_tree::trees::TreeSimple;
use serde_json::{Value, json};
use std::collections::HashMap;
use std::fmt::Debug;
type Byte = u8;
type Text = String;
fn five() -> u8 { 5 }
pub trait Ta { fn who_a(&self) -> String; fn by_a(&mut self) -> String { self.who_a() } }
pub trait Tb { fn who_b(&self) -> String; fn by_b(&mut self) -> String { self.who_b() } }
pub trait Tc { fn who_c(&self) -> String; fn by_c(&mut self) -> String { self.who_c() } }
"""


def lit(x):
    return 'r####"' + json.dumps(x, ensure_ascii=False) + '"####'


class Writer:
    def __init__(self, rnd, style):
        self.r, self.style = rnd, style

    def one(self, q):
        return q[0] if self.style == 0 else self.r.choice(q)

    def odds(self, p):
        return self.style > 0 and self.r.random() < p

    def expr(self, ty, v, setting=False):
        return self.one(SETEXPR.get((ty, v), EXPR[ty][v]) if setting else EXPR[ty][v])

    def attr(self):
        return self.one(["", "", "/// A text.\n    ", "#[allow(dead_code)] ", "/// One.\n    /// Two.\n    #[allow(unused)]\n    "]) if self.style else ""

    def vis(self):
        return "pub " if self.odds(0.5) else ""

    # -- classes
    def klass(self, it):
        c, r = it["start"], self.r
        if self.style:
            c = json.loads(json.dumps(c))
            old, names = [f["n"] for f in c["fields"]], r.sample(FIELD_NAMES, len(c["fields"]))
            for f, n in zip(c["fields"], names):
                f["n"] = n
            c["name"] = r.choice(CLASS_NAMES)
            it = dict(it, start=c)
        name, items = c["name"], []
        need = [f for f in c["fields"] if not f["init"] and f["k"] not in ("default", "edefault")]
        for f in c["fields"]:
            kw = {"plain": "", "unique": "unique ", "export": "export ", "default": "default ", "edefault": "export default "}[f["k"]]
            init = f" = {self.expr(f['ty'], f['init'][0])}" if f["init"] else ""
            items.append(f"{self.attr()}{self.vis()}{kw}let {f['n']}: {self.one(SPELL[f['ty']])}{init};")
        for i in range(c["sigs"]):
            items.append(f"{self.attr()}{self.vis()}signal on_{i}({self.one(['', 'v: u8', 'a: u8, b: String', 'a: (u8, bool),'])});")
        for k in c["consts"]:
            items.append(f"{self.attr()}{self.vis()}const {k['n']}: {k['ty']} = {self.one([k['v']] + (['2 + 3'] if k['v'] == '5' else ['concat!(\"k\", \"\")']))};")
        for f in c["fns"]:
            n = f["n"]
            sig = {"const": "(&self) -> u8 { 7 }", "arg": "(&self, v: u8) -> u8 { v }", "own": "(&mut self, v: u8) -> u8 { let w = v; w }", "static": "() -> &'static str { \"fixed\" }",
                   "generic": "<T: Debug>(&self, v: T) -> T where T: Clone { v.clone() }"}[f["kind"]]
            items.append(f"{self.attr()}{self.vis()}fn {n}{sig}")
        body = {"loaded": "(&mut self) { note(\"loaded\"); }", "ready": "(&mut self) { note(\"ready\"); }", "process": "(&mut self, delta: f32) { let _ = delta; note(\"process\"); }",
                "terminal": "(&mut self, reason: TerminationReason) { note(format!(\"{reason:?}\")); }"}
        if self.style:
            body["process"] = self.one([body["process"], "(&mut self, _: f32) { note(\"process\"); }", "(&mut self, mut delta: f32,) { delta += 1.0; note(\"process\") }"])
        for h in c["hooks"]:
            items.append(f"{self.attr()}hk {h}{body[h]}")
        if c["mode"]:
            items.append(f"{self.attr()}hk process_mode(&self) -> ProcessMode {{ ProcessMode::{c['mode']} }}")
        args = []
        if need:
            params, lets = [], []
            for f in need:
                if self.odds(0.5):
                    params.append(f"{self.one(['', 'mut '])}p_{len(params)}: {f['ty']}")
                    lets.append(f"let {f['n']}: {f['ty']} = p_{len(params) - 1};")
                else:
                    params.append(f"{f['n']}: {f['ty']}")
            # The order of the lets says nothing.
            if self.style:
                r.shuffle(lets)
            items.append(f"{self.attr()}hk _init({', '.join(params)}{self.one(['', ',']) if params else ''}) {{ {' '.join(lets)} }}")
        elif self.odds(0.3):
            items.append(f"{self.attr()}hk _init() {{ {self.one(['', 'let unused = 1;'])} }}")
        if self.style:
            r.shuffle(items)
        ext = f" extends {', '.join(c['ext'])}" if c["ext"] else ""
        out = [f"class! {{\n    {self.attr()}{self.one(['pub ', ''])}declare {name}{ext};\n    " + "\n    ".join(items) + "\n}"]
        for t in ("Ta", "Tb", "Tc"):
            # Implementing the trait without extending it is not enough for casts.
            if t in c["ext"] or self.odds(0.5):
                out.append(f"impl {t} for {name} {{ fn who_{t[1]}(&self) -> String {{ type_of(self) }} }}")
        arg = lambda op: ", ".join(self.expr(f["ty"], v) for f, v in zip(need, op["args"]))
        vals = "json!([" + ", ".join(f"n.{f['n']}.shown()" for f in c["fields"]) + "])"
        run = []
        fn = {f["n"]: f["kind"] for f in c["fns"]}
        none = ", ".join(self.expr(f["ty"], next(iter(EXPR[f["ty"]]))) for f in need)
        for op in it["ops"]:
            o = op["op"]
            if o == "new":
                code = f"let n = {name}::new({arg(op)}); json!({{ \"name\": n.name(), \"ty\": type_of(&n), \"vals\": {vals} }})"
            elif o == "clone":
                code = f"let n = {name}::new({arg(op)}).clone(); json!({{ \"ty\": type_of(&n), \"vals\": {vals} }})"
            elif o == "load":
                code = (f"let s = reloaded(&NodeScene::new({name}::new({arg(op)}))).unwrap(); "
                        f"look::<{name}, _>(s, |n| json!({{ \"name\": n.name(), \"ty\": type_of(n), \"vals\": {vals} }}))")
            elif o == "const":
                code = f"json!(format!(\"{{:?}}\", {name}::{op['n']}))"
            elif o == "fn":
                k = fn[op["n"]]
                call = f"{name}::{op['n']}()" if k == "static" else f"n.{op['n']}({', '.join(a + 'u8' for a in op['args'])})"
                code = f"let mut n = {name}::new({none}); json!(format!(\"{{:?}}\", {call}))"
            elif o == "cast":
                t = op["tr"]
                code = (f"let tree = in_tree({name}::new({none})); let mut p = tree.root().this_dyn(); "
                        f"json!([p.cast::<dyn {t}>().map(|x| x.who_{t[1]}()).unwrap_or_default(), p.cast_mut::<dyn {t}>().map(|x| x.by_{t[1]}()).unwrap_or_default(), p.is_of::<dyn {t}>()])")
            else:
                src = f"NodeScene::new({name}::new({none}))"
                if op["loaded"]:
                    src = f"reloaded(&{src}).unwrap()"
                code = (f"notes(); let mut tree = in_tree({src}); tree.process(); tree.process(); let a = notes(); tree.pause(); tree.process(); tree.process(); let b = notes(); "
                        f"tree.unpause(); tree.queue_termination(); tree.process(); tree.process(); json!([a, b, notes()])")
            run.append(f"    rec.op({lit(op)}, || {{ {code} }});")
        return it, "\n".join(out), "\n".join(run)

    # -- scene expressions
    def scene(self, x, links, depth=0):
        if x["link"]:
            return "$" + links[x["link"] - 1]
        ty, tys = x["ty"], SCENE_TYPES[x["ty"]]
        path = self.one({"Pa": ["Pa", "base::Pa", "crate::base::Pa"], "Pb": ["Pb", "base::Pb"], "Pc": ["base::inner::Pc", "Pc", "crate::base::inner::Pc"]}[ty])
        out = path
        if x["args"]:
            out += "(" + ", ".join(self.expr(t, v) for t, v in zip(tys, x["args"])) + (self.one(["", ","])) + ")"
        elif self.odds(0.3):
            out += "()"
        if x["name"]:
            out += f": {self.one([json.dumps(x['name'][0], ensure_ascii=False)])}"
        kids = [self.scene(k, links, depth + 1) for k in x["kids"]]
        sep = ",\n" + "    " * (depth + 2)
        kidtext = ("[" + sep.join(kids) + self.one(["", ","]) + "]") if kids else self.one(["", "", "[]"])
        sets = [f"{f}: {self.expr(tys[SCENE_FIELDS[ty].index(f)], v, True)}" for f, v in x["sets"]]
        if sets:
            out += " { " + ", ".join(sets) + (f", {kidtext} }}" if kidtext else self.one(["", ","]) + " }")
        elif kidtext:
            out += self.one([f" {kidtext}", f" {{ {kidtext} }}"])
        elif self.odds(0.2):
            out += " {}"
        return out

    def scenes(self, it):
        names = [f"d{i}" for i in range(len(it["start"]))] if self.style == 0 else self.r.sample(["scene", "node", "d1", "child", "self_", "name", "Tree", "x"], len(it["start"]))
        run = []
        for n, x in zip(names, it["start"]):
            run.append(f"    let {n}: NodeScene = scene! {self.one(['{ %s }', '(%s)']) % self.scene(x, names)}{';'}")
        for n, op in zip(names, it["ops"]):
            run.append(f"    rec.op({lit(op)}, || dump({n}));")
        return it, "", "\n".join(run)

    def item(self, it):
        if it["kind"] == "mclass":
            it, decl, run = self.klass(it)
        elif it["kind"] == "mscene":
            it, decl, run = self.scenes(it)
        else:
            decl, run = "", "    connections(rec, &[" + ", ".join(lit(o) for o in it["ops"]) + "]);"
        return HEAD + decl + f"\npub fn run(rec: &mut Rec) {{\n    rec.begin({json.dumps(it['id'])}, \"{it['kind']}\", {lit(it['start'])});\n{run}\n}}\n"


# -- random items, beyond the bounds of the enumeration
def random_item(r, kind):
    if kind == "mclass":
        vals = {t: list(e) for t, e in EXPR.items()}
        vals["String"] = [v for v in vals["String"] if v != '"b"' and v != '"q"']
        fields = []
        for n in range(r.randrange(9)):
            k, t = r.choice(["plain", "unique", "export", "default", "edefault"]), r.choice(list(vals))
            fields.append(dict(n=f"f{n}", k=k, ty=t, init=[r.choice(vals[t])] if k in ("plain", "unique", "export") and r.random() < 0.5 else []))
        need = [f for f in fields if not f["init"] and f["k"] not in ("default", "edefault")]
        fns = r.sample([dict(n="fa", kind="const"), dict(n="fb", kind="arg"), dict(n="fc", kind="own"), dict(n="fd", kind="static"), dict(n="fe", kind="generic")], r.randrange(6))
        consts = r.sample([dict(n="KA", ty="u8", v="5"), dict(n="KB", ty="&'static str", v='"k"')], r.randrange(3))
        c = dict(name="Cls", fields=fields, hooks=r.sample(["loaded", "ready", "process", "terminal"], r.randrange(5)), mode=r.choice(["", "Inherit", "Always", "Pausable", "Inverse"]),
                 ext=r.sample(["Ta", "Tb", "Tc"], r.randrange(4)), consts=consts, fns=fns, sigs=r.randrange(4))
        args = lambda: [r.choice(vals[f["ty"]]) for f in need]
        ops = [dict(op=o, args=args()) for o in ("new", "new", "clone", "load", "load")] + [dict(op="const", n=k["n"]) for k in consts]
        ops += [dict(op="fn", n=f["n"], args=[] if f["kind"] in ("const", "static") else [str(r.randrange(256))]) for f in fns]
        ops += [dict(op="cast", tr=t) for t in ("Ta", "Tb", "Tc")] + [dict(op="run", loaded=b) for b in (False, True)]
        return dict(kind=kind, start=c, ops=ops)
    if kind == "mscene":
        def node(budget, earlier):
            if earlier and r.random() < 0.25:
                return dict(link=r.randrange(earlier) + 1, ty="", args=[], name=[], sets=[], kids=[])
            ty = r.choice(["Pa", "Pb", "Pc"])
            tys = SCENE_TYPES[ty]
            val = lambda t: r.choice([v for v in EXPR[t]])
            sets = []
            for _ in range(r.choice([0, 0, 1, 2, 4])):
                i = r.randrange(len(tys))
                sets.append([SCENE_FIELDS[ty][i], val(tys[i])])
            kids = []
            while budget[0] > 0 and r.random() < 0.6:
                budget[0] -= 1
                kids.append(node(budget, earlier))
            return dict(link=0, ty=ty, args=[] if ty == "Pa" else [val(t) for t in tys], name=r.choice([[], [], ["N"], ["a b"], ["é\"q"], ["Pa"], [""]]), sets=sets, kids=kids)
        q = []
        for i in range(r.randrange(1, 4)):
            q.append(node([r.choice([0, 3, 8, 14])], i))
        return dict(kind=kind, start=q, ops=[dict(op="scene", i=i + 1) for i in range(len(q))])
    ops, n = [], 0
    vs = ["()", "5", '(5, "e f")']
    for _ in range(r.randrange(3, 30)):
        x = r.random()
        if x < 0.35:
            ops.append(dict(op="conn", sig=r.randrange(3), once=r.random() < 0.5, node=r.choice(["me", "it"]), cb=r.choice(["shr", "mut"])))
            n += 1
        elif x < 0.55 and n:
            ops.append(dict(op="disc", k=r.randrange(n) + 1))
        else:
            g = r.randrange(3)
            ops.append(dict(op="emit", sig=g, v=vs[g]))
    return dict(kind=kind, start=[], ops=ops)


# -- building and running
def crate(ctx, items, seed):
    d = os.path.join(ctx.work, "macros")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "src", "items"))
    for n in ("main.rs", "base.rs"):
        shutil.copy(os.path.join(M, n), os.path.join(d, "src", n))
    toml = open(os.path.join(V, "harness", "Cargo.toml"), encoding="utf-8").read().replace("nt-harness", "nt-macros").replace("opt-level = 1", "opt-level = 0")
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write(toml + '\n[profile.dev.package."*"]\nopt-level = 1\n')
    with open(os.path.join(V, "harness", "Cargo.lock"), encoding="utf-8") as f:
        lock = f.read().replace('"nt-harness"', '"nt-macros"')
    with open(os.path.join(d, "Cargo.lock"), "w") as f:
        f.write(lock)
    for i, it in enumerate(items):
        r = random.Random(f"{seed}-{i}")
        with open(os.path.join(d, "src", "items", f"i{i}.rs"), "w", encoding="utf-8") as f:
            f.write(Writer(r, it.get("style", 1)).item(it))
    return d


def list_items(d, which):
    with open(os.path.join(d, "src", "items", "mod.rs"), "w") as f:
        f.write("".join(f"mod i{i};\n" for i in which) + "pub const ALL: &[fn(&mut crate::Rec)] = &[" + ", ".join(f"i{i}::run" for i in which) + "];\n")


def compile_(ctx, d):
    env = dict(os.environ, CARGO_TARGET_DIR=ctx.target, CARGO_NET_OFFLINE="true")
    p = subprocess.run(["cargo", "build", "--offline", "--quiet", "--message-format=short"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    return p.returncode, p.stdout


def run_items(ctx, items, seed):
    """Returns the rejections."""
    d = crate(ctx, items, seed)
    which, rejects = list(range(len(items))), []
    for _ in range(4):
        list_items(d, which)
        rc, text = compile_(ctx, d)
        if rc == 0:
            break
        errs = {}
        for l in text.splitlines():
            m = re.match(r"src/items/i(\d+)\.rs:\d+:\d+: error", l)
            if m:
                errs.setdefault(int(m.group(1)), l)
            elif re.match(r"src/base\.rs:\d+:\d+: error", l):
                errs.setdefault(-1, l)
        if not errs:
            raise ToolError("the programs do not build:\n" + text[-3000:])
        for i, l in sorted(errs.items()):
            src = open(os.path.join(d, "src", "items", f"i{i}.rs") if i >= 0 else os.path.join(d, "src", "base.rs"), encoding="utf-8").read()
            kind = items[i]["kind"] if i >= 0 else "mconn"
            rejects.append((dict(id=items[i]["id"] if i >= 0 else "base", line=0, diff=["compile"], event="op", op="compile", hook="", kind=kind, want="to compile", got=l, log=[], file="-"), src.splitlines()))
        if -1 in errs:
            return rejects, None
        which = [i for i in which if i not in errs]
        if not which:
            return rejects, None
    else:
        raise ToolError("the programs do not build:\n" + text[-3000:])
    binary = os.path.join(ctx.target, "debug", "nt-macros")
    out = os.path.join(ctx.work, f"macros-{seed}.jsonl")
    res = vlib.validate_shard(ctx, binary, 0, lambda skip: [out, str(skip)], out, module="TraceObjects", limit=1500)
    return rejects, res
