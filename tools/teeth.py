#!/usr/bin/env python3
"""Breaks the specification in one place at a time, and sees whether the property stated apart from it notices.

Each entry: an identifier, module, text, replacement, model, and the names of which one must be reported as violated.
Usage: teeth.py [IDS...]; exits 1 if a broken specification satisfied its properties."""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
T, N, S, F, R, C, D, M, O = "NodeTree", "Names", "Signals", "FieldKinds", "RidHolder", "Combinators", "Documents", "Macros", "Codec"
TEETH = [
    ("depth", T, "s.N[p].dep + 1", "s.N[p].dep", "struct", "P01"),
    ("link", T, "![p].kids = Append(@, u)]", "![p].kids = @]", "struct", "P01"),
    ("removed-kid-stays", T, "SelectSeq(@, LAMBDA k : k # top)", "SelectSeq(@, LAMBDA k : k # 0)", "remove", "P01"),
    ("below-stays", T, "gone == Ran(TopDown(s, top, TRUE))", "gone == {top}", "remove", "P01"),
    ("name-clash", T, "nm == UniqueName(e.nm, KidNames(s, p))", "nm == e.nm", "struct", "P02"),
    ("rename-clash", T, "UniqueName(e.name, SiblingNames(s, e.n))", "e.name", "struct", "P02"),
    ("name-lost", N, "IF name \\notin taken THEN name ELSE Counted(name, taken)", "Counted(name \\o \"x\", taken)", "O:oname", "StepsOk"),
    ("owner", T, "IF e.ow THEN u ELSE s.N[p].own", "s.N[p].own", "struct", "P03"),
    ("owner-parent", T, "IF e.ow THEN u ELSE s.N[p].own", "IF e.ow THEN u ELSE p", "ready", "P03"),
    ("ready-order", T, "<<[f |-> \"ready\", l |-> Rev(e.us)], RetF(\"add\"", "<<[f |-> \"ready\", l |-> e.us], RetF(\"add\"", "ready", "P04"),
    ("loaded-mark", T, "[s1 EXCEPT !.N[f.u].ld = FALSE]", "s1", "ready", "P04"),
    ("no-loaded", T, "Push(s1, <<Hook(u, \"loaded\"), [f |-> \"final\", u |-> u]>> \\o rest)", "Push(s1, <<[f |-> \"final\", u |-> u]>> \\o rest)", "ready", "P04"),
    ("ready-twice", T, "ELSE Push(s1, <<Hook(u, \"ready\")>> \\o rest)", "ELSE Push(s1, <<Hook(u, \"ready\"), Hook(u, \"ready\")>> \\o rest)", "ready", "P04"),
    ("frame-order", T, "[f |-> \"kids\", l |-> s.N[f.u].kids, m |-> f.m]", "[f |-> \"kids\", l |-> Rev(s.N[f.u].kids), m |-> f.m]", "frames", "P05"),
    ("frame-skips", T, "IF IsLive(s, f.l[1]) THEN Push(s1, <<[f |-> \"visit\", u |-> f.l[1], m |-> f.m]>> \\o rest)\n       ELSE Push(s1, rest)", "IF IsLive(s, f.l[1]) THEN Push(s1, <<[f |-> \"visit\", u |-> f.l[1], m |-> f.m]>>)\n       ELSE Push(s1, rest)", "frames", "P05"),
    ("paused-runs", T, "Eligible(s, m) == IF s.paused THEN m \\in {\"Always\", \"Inverse\"}", "Eligible(s, m) == IF s.paused THEN m \\in {\"Always\", \"Inverse\", \"Pausable\"}", "modes", None),
    ("mode-of-parent", T, "m == IF s.N[u].mode = \"Inherit\" THEN f.m ELSE s.N[u].mode", "m == f.m", "modes", "P0[56]"),
    ("pause-late", T, "!.paused = IF s.st \\in {\"run\", \"qrun\"} THEN TRUE ELSE @", "!.paused = TRUE", "modes", "P06", {"OPS": '{"pause", "queue", "process", "unpause"}'}),
    ("queue-again", T, "!.st = IF @ = \"run\" THEN \"qrun\" ELSE @", "!.st = \"qrun\"", "term", "P07"),
    ("never-exits", T, "[] s.st = \"term\"                              -> Push(s1, <<Hook(u, \"TreeExit\")>> \\o next)", "", "term", "P07"),
    ("not-over", T, "[] s.st = \"term\" -> \"end\" [] OTHER -> s.st]", "[] OTHER -> s.st]", "term", "P07"),
    ("untold", T, "IF Untold(s, f.u) = <<>> THEN s1 ELSE Push(s1, <<[f EXCEPT !.l = Untold(s, f.u)]>>)", "s1", "remove", "P08"),
    ("told-twice", T, "Push([s1 EXCEPT !.told = @ \\cup {u}]", "Push([s1 EXCEPT !.told = @]", "remove", "P08"),
    ("hook-of-dead", T, "IF ~IsLive(s, u) THEN Push(s1, rest)\n       ELSE IF s.N[u].ld", "IF FALSE THEN Push(s1, rest)\n       ELSE IF (IF IsLive(s, u) THEN s.N[u].ld ELSE FALSE)", "ready", "P08_Hooks|P04|evaluat"),
    ("up", T, "[] segs[1] = \"..\" -> s.N[u].par", "[] segs[1] = \"..\" -> u", "paths", "P10"),
    ("abs-path", T, "IF q.abs THEN IF q.segs # <<>> /\\ q.segs[1] = s.N[s.root].name THEN Resolve(s, s.root, Tail(q.segs)) ELSE 0", "IF q.abs THEN Resolve(s, s.root, q.segs)", "paths", "P10"),
    ("singleton-taken", T, "IF Holder(s, e.name) # 0 THEN Ret(s, e.op, \"false\")\n    ELSE", "IF FALSE THEN s ELSE", "sing", "P11"),
    ("one-shot-stays", T, "!.stk[1].due = @ \\ {i}, !.conns[f.n][i].on = IF c.once THEN FALSE ELSE @", "!.stk[1].due = @ \\ {i}", "sig", "P12"),
    ("dead-called", T, "Due(s, Top(s)) \\ Dead(s, Top(s))}", "Due(s, Top(s))}", "sigfree", "P12_Live|evaluat"),
    ("levels", T, "[] verb = \"OnlyIssues\" -> lv \\in {\"W\", \"P\"}", "[] verb = \"OnlyIssues\" -> lv \\in {\"I\", \"W\", \"P\"}", "log", "P13"),
    ("status", T, "[s EXCEPT !.N[u].st = lv, !.N[u].sm = msg]", "[s EXCEPT !.N[u].sm = msg]", "log", "P14"),
    ("report-misses", T, "IF level # 0 THEN Draw(s, c, 1,", "IF last /\\ level # 0 THEN Draw(s, c, 1,", "log", "P14"),
    ("load-name", T, "Loaded(c) == [c EXCEPT !.dk = TRUE,", "Loaded(c) == [c EXCEPT !.dk = TRUE, !.nm = c.ty,", "scene", "P15"),
    ("load-shape", T, "!.v = <<@[1], @[2], \"\", VOID, VOID>>,", "!.v = <<@[1], @[2], \"\", VOID, VOID>>, !.ow = TRUE,", "scene", "P15"),
    ("load-export", T, "!.v = <<@[1], @[2], \"\", VOID, VOID>>", "!.v = <<\"\", @[2], \"\", VOID, VOID>>", "scene", "P15"),
    ("clone-unique", T, "CopyVals(v) == [v EXCEPT ![4] = VOID]", "CopyVals(v) == v", "scene", "P16"),
    ("clone-shares", T, "OpClone(s, e) == LET c == Cloned(s.scn[e.from]) IN Ret(SetScene(s, e.to, c)", "OpClone(s, e) == LET c == Cloned(s.scn[e.from]) IN Ret(SetScene(SetScene(s, e.to, c), e.from, c)", "scene", "P16"),
    ("branch-short", T, "kids |-> [i \\in 1..Len(n.kids) |-> Branch(", "kids |-> [i \\in 1..(IF Len(n.kids) > 1 THEN 1 ELSE Len(n.kids)) |-> Branch(", "scene", "P16", {"TREES": '{"fork"}'}),
    ("write-both", T, "ELSE Ret([s EXCEPT !.N[e.n].val[FIDX[e.f]] = e.val], \"fw\", \"ok\")", "ELSE Ret([s EXCEPT !.N[e.n].val[FIDX[e.f]] = e.val, !.N[e.n].val[1] = e.val], \"fw\", \"ok\")", "fields", "P17"),
    ("bulk-order", T, "Cat([i \\in 1..Len(layer) |-> s.N[layer[i]].kids])", "Cat([i \\in 1..Len(layer) |-> Rev(s.N[layer[i]].kids)])", "bulk", "P24"),
    ("bulk-misses", T, "IF below = <<>> THEN <<>> ELSE below \\o Levels(s, below)", "below", "bulk", "P24|P01"),
    ("drops-early", T, "D \\subseteq s.due \\cup (s.kept \\ Busy(s))", "D \\subseteq s.due \\cup s.kept", "drop", "P27"),
    ("drops-again", T, "[s EXCEPT !.kept = @ \\ D, !.due = {}]", "[s EXCEPT !.due = {}]", "drop", "P27"),
    ("drops-not", T, "!.due = @ \\cup s.kept, !.kept = {}]", "!.kept = {}]", "drop", "P27"),
    ("both-trees", "MCTwins", "/\\ s' = [s EXCEPT ![k] = [Call(s[k], c) EXCEPT !.out = <<>>]]", "/\\ s' = [j \\in T |-> IF j = k THEN [Call(s[k], c) EXCEPT !.out = <<>>] ELSE IF c.op = \"queue\" THEN [s[j] EXCEPT !.paused = TRUE] ELSE s[j]]", "W:twins", "P28"),
    ("other-tree", "MCTwins", "IF s[k].stk = <<>> THEN <<k>> \\o b ELSE b", "IF s[k].stk = <<>> THEN <<3 - k>> \\o b ELSE b", "W:twins", "P28|evaluat"),
    ("field-other", F, "[] e.op = \"take\"   -> IF v THEN one(x, put(<<>>)) ELSE na", "[] e.op = \"take\"   -> IF v THEN one(x, [s EXCEPT !.f = <<<<>>, <<>>>>]) ELSE na", "O:field", "StepsOk"),
    ("field-void", F, "VoidOf(kind)  == IF CanVoid(kind) THEN <<>> ELSE <<0>>", "VoidOf(kind)  == <<>>", "O:field", "StepsOk|evaluat"),
    ("rid-again", R, "IF seen \\in h.ever THEN {}", "IF seen \\in DOMAIN m THEN {}", "O:rid", None),
    ("rid-take", R, "one(<<m[e.id]>>, upd(RidOnly(m, DOMAIN m \\ {e.id})))", "one(<<m[e.id]>>, s)", "O:rid", "StepsOk"),
    ("rid-copy", R, "Append(s, [m |-> m, ever |-> DOMAIN m])", "Append([s EXCEPT ![e.h].m = <<>>], [m |-> m, ever |-> DOMAIN m])", "O:rid", "StepsOk"),
    ("sig-twice", S, "Append(g.c, [tag |-> e.tag, id |-> seen, once |-> e.once])", "g.c \\o <<[tag |-> e.tag, id |-> seen, once |-> e.once], [tag |-> e.tag, id |-> seen, once |-> e.once]>>", "O:osig", "StepsOk"),
    ("comb-and", C, "[] op = \"and\" -> next(IF some THEN e.y ELSE <<>>, <<>>)", "[] op = \"and\" -> next(IF some THEN e.y ELSE x, x)", "O:opt", None),
    ("class-clone", M, "ClonedVals(c, v) == [i \\in 1..Len(v) |-> IF c.fields[i].k = \"unique\" THEN VOIDED ELSE v[i]]", "ClonedVals(c, v) == v", "M:mclass", "Sense"),
    ("class-load", M, "[] c.fields[i].k = \"default\" -> Default(c.fields[i].ty)\n                                            [] OTHER -> v[i]]", "[] OTHER -> Default(c.fields[i].ty)]", "M:mclass", "Sense"),
    ("scene-drops", M, "kids |-> [i \\in 1..Len(x.kids) |-> SceneOf(x.kids[i], defs, FALSE)]]", "kids |-> [i \\in 1..(IF Len(x.kids) > 1 THEN 1 ELSE Len(x.kids)) |-> SceneOf(x.kids[i], defs, FALSE)]]", "M:mscene", "Sense"),
    ("conn-once", M, "IF s[i].sig = e.sig /\\ s[i].once THEN [s[i] EXCEPT !.live = FALSE] ELSE s[i]", "s[i]", "M:mconn", "Sense"),
    ("conn-back", M, "s |-> [s EXCEPT ![e.k].live = FALSE]]", "s |-> [s EXCEPT ![e.k].live = ~@]]", "M:mconn", "Sense"),
]

def run(tooth, workers):
    ident, module, old, new, model, want = tooth[:6]
    edits = tooth[6] if len(tooth) > 6 and tooth[6] else {}
    limit = tooth[7] if len(tooth) > 7 else 300
    if old is None or new is None or want is None:
        return ident, "skipped", ""
    d = tempfile.mkdtemp(prefix="teeth")
    try:
        sp = os.path.join(d, "spec")
        shutil.copytree(SPEC, sp)
        f = os.path.join(sp, module + ".tla")
        t = open(f).read()
        if t.count(old) != 1:
            return ident, "BAD", "%d places" % t.count(old)
        open(f, "w").write(t.replace(old, new))
        kind, name = model.split(":") if ":" in model else ("T", model)
        main, cfg = {"T": ("MCNodeTree", "MC_"), "O": ("MCObjects", "OC_"), "M": ("MCMacros", "MM_"), "W": ("MCTwins", "MT_")}[kind]
        c = os.path.join(sp, cfg + name + ".cfg")
        ct = open(c).read().replace("EMIT = TRUE", "EMIT = FALSE")
        ct = re.sub(r"\bScript\b", "", ct)
        for k, v in edits.items():
            ct = re.sub(r"(?m)^  %s = .*$" % k, lambda m: "  %s = %s" % (k, v), ct)
        open(c, "w").write(ct)
        env = dict(os.environ, JAVA_TOOL_OPTIONS="-Dfile.encoding=UTF-8 -Xss64m -Xmx3g -Djava.io.tmpdir=" + d)
        r = subprocess.run(["timeout", str(limit), "tlc", "-workers", str(workers), "-config", c, "-metadir", os.path.join(d, "md"), "-noGenerateSpecTE",
                            os.path.join(sp, main + ".tla")], cwd=d, env=env, capture_output=True, text=True)
        hit = re.findall(r"(?:Invariant|Action property|Temporal properties?) (\w+) (?:is|was|were) violated", r.stdout)
        err = re.search(r"Error: (.*)", r.stdout)
        if hit and any(re.match(want, h) for h in hit):
            return ident, "noticed", hit[0]
        if "evaluat" in want and err and not hit:
            return ident, "noticed", "evaluation"
        return ident, "MISSED", (hit[0] if hit else err.group(0)[:200] if err else "rc %d" % r.returncode)
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    todo = [t for t in TEETH if len(sys.argv) < 2 or t[0] in sys.argv[1:]]
    bad = 0
    with ThreadPoolExecutor(4) as ex:
        for ident, what, detail in ex.map(lambda t: run(t, 2), todo):
            print(ident, what, detail, flush=True)
            bad += what in ("BAD", "MISSED")
    sys.exit(1 if bad else 0)
