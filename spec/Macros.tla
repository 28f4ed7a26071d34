-------------------------------- MODULE Macros --------------------------------
(* What declarations mean: classes, scene expressions, connection statements.  *)
(* Values are as Rust's Debug format shows them.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

LOCAL Ran(q) == {q[i] : i \in 1..Len(q)}
LOCAL VOIDED == "_"
\* The types of fields; the first value is the default one.
MTypes == {"u8", "String", "Vec<bool>", "Option<i8>", "(u8, bool)", "HashMap<String, u8>", "f32", "[i8; 2]"}
MVals == ("u8" :> <<"0", "5", "255">>) @@ ("String" :> <<"\"\"", "\"e f\"", "\"\\\"q\\\\\"">>) @@ ("Vec<bool>" :> <<"[]", "[true, false]">>) @@ ("Option<i8>" :> <<"None", "Some(-3)">>)
         @@ ("(u8, bool)" :> <<"(0, false)", "(7, true)">>) @@ ("HashMap<String, u8>" :> <<"{}", "{\"k\": 1}">>) @@ ("f32" :> <<"0.0", "1.5">>) @@ ("[i8; 2]" :> <<"[0, 0]", "[1, -1]">>)
Default(ty) == MVals[ty][1]
FKinds == {"plain", "unique", "export", "default", "edefault"}
HasDefault(k) == k \in {"default", "edefault"}

-----------------------------------------------------------------------------
\* Classes.  A declaration: [name, fields: << [n, k, ty, init: <<>> or <<value>>], .. >>, hooks: a sequence of names, mode: "" or a process mode,
\* ext: a sequence of traits, consts: << [n, ty, v], .. >>, fns: << [n, kind], .. >>].
\* The fields which the constructor takes a value for.
Needs(c) == SelectSeq([i \in 1..Len(c.fields) |-> i], LAMBDA i : ~HasDefault(c.fields[i].k) /\ c.fields[i].init = <<>>)
Built(c, args) ==
    [i \in 1..Len(c.fields) |->
        LET f == c.fields[i]
        IN IF HasDefault(f.k) THEN Default(f.ty) ELSE IF f.init # <<>> THEN f.init[1]
           ELSE args[CHOOSE j \in 1..Len(args) : Needs(c)[j] = i]]
ClonedVals(c, v) == [i \in 1..Len(v) |-> IF c.fields[i].k = "unique" THEN VOIDED ELSE v[i]]
LoadedVals(c, v) == [i \in 1..Len(v) |-> CASE c.fields[i].k \in {"plain", "unique"} -> VOIDED
                                            [] c.fields[i].k = "default" -> Default(c.fields[i].ty)
                                            [] OTHER -> v[i]]
\* The hooks which a node of the class alone in a tree runs in three stages: two frames, two frames while the tree is paused, and a frame with the termination queued followed by the terminating one.
Times(x, n) == [i \in 1..n |-> x]
If(b, q) == IF b THEN q ELSE <<>>
HookRun(c, loaded) ==
    LET has(h) == h \in Ran(c.hooks)
    IN << If(loaded /\ has("loaded"), <<"loaded">>) \o If(has("ready"), <<"ready">>) \o If(has("process") /\ c.mode # "Inverse", Times("process", 2)),
          If(has("process") /\ c.mode \in {"Always", "Inverse"}, Times("process", 2)),
          If(has("process") /\ c.mode # "Inverse", <<"process">>) \o If(has("terminal"), <<"TreeExit">>) >>
FnValue(kind, args) == CASE kind = "const" -> "7" [] kind = "arg" -> args[1] [] kind = "own" -> args[1] [] kind = "static" -> "\"fixed\"" [] kind = "generic" -> args[1]
LOCAL Named(q, n) == q[CHOOSE i \in 1..Len(q) : q[i].n = n]

ClassWant(c, e) ==
    CASE e.op = "new"   -> [name |-> c.name, ty |-> c.name, vals |-> Built(c, e.args)]
      [] e.op = "clone" -> [ty |-> c.name, vals |-> ClonedVals(c, Built(c, e.args))]
      [] e.op = "load"  -> [name |-> c.name, ty |-> c.name, vals |-> LoadedVals(c, Built(c, e.args))]
      [] e.op = "const" -> Named(c.consts, e.n).v
      [] e.op = "fn"    -> FnValue(Named(c.fns, e.n).kind, e.args)
      [] e.op = "cast"  -> IF e.tr \in Ran(c.ext) THEN <<c.name, c.name, TRUE>> ELSE <<"", "", FALSE>>
      [] e.op = "run"   -> HookRun(c, e.loaded)

-----------------------------------------------------------------------------
\* Scene expressions, over the classes Pa (without arguments), Pb (a number and a text) and inner::Pc (a number).
\* A link is [link: i], the i-th of the definitions before it; a node [link: 0, ty, args, name: <<>> or <<name>>, sets: << <<field, value>>, .. >>, kids].
SceneFields == [Pa |-> << <<"a", "1">>, <<"b", "\"b\"">>, <<"c", "[]">>, <<"d", "\"\"">>, <<"e", "None">> >>, Pb |-> << <<"x", "">>, <<"s", "">> >>, Pc |-> << <<"y", "">> >>]
RECURSIVE SetAll(_, _)
SetAll(vs, sets) == IF sets = <<>> THEN vs
                    ELSE SetAll([i \in 1..Len(vs) |-> IF vs[i][1] = Head(sets)[1] THEN <<vs[i][1], Head(sets)[2]>> ELSE vs[i]], Tail(sets))
\* Unique fields do not survive the copy which a link makes.
RECURSIVE LinkCopy(_)
LinkCopy(g) == [g EXCEPT !.vals = [i \in 1..Len(g.vals) |-> IF g.ty = "Pa" /\ i = 4 THEN VOIDED ELSE g.vals[i]],
                         !.kids = [i \in 1..Len(g.kids) |-> LinkCopy(g.kids[i])]]
RECURSIVE SceneOf(_, _, _)
SceneOf(x, defs, own) ==
    IF x.link > 0 THEN LET d == defs[x.link] IN [LinkCopy(SceneOf(d, SubSeq(defs, 1, x.link - 1), TRUE)) EXCEPT !.own = own]
    ELSE LET fs == SceneFields[x.ty]
             v0 == [i \in 1..Len(fs) |-> <<fs[i][1], IF x.ty = "Pa" THEN fs[i][2] ELSE x.args[i]>>]
             vs == SetAll(v0, x.sets)
         IN [ty |-> x.ty, name |-> IF x.name = <<>> THEN x.ty ELSE x.name[1], own |-> own, vals |-> [i \in 1..Len(vs) |-> vs[i][2]],
             kids |-> [i \in 1..Len(x.kids) |-> SceneOf(x.kids[i], defs, FALSE)]]

-----------------------------------------------------------------------------
\* Connection statements.  State: the live connections << [sig, once, node, cb], .. >> (voided once gone).
ConnStep(s, e) ==
    CASE e.op = "conn" -> [got |-> "ok", s |-> Append(s, [live |-> TRUE, sig |-> e.sig, once |-> e.once, node |-> e.node, cb |-> e.cb])]
      [] e.op = "disc" -> [got |-> IF s[e.k].live THEN "gone" ELSE "none", s |-> [s EXCEPT ![e.k].live = FALSE]]
      [] e.op = "emit" -> [got |-> "calls", s |-> [i \in 1..Len(s) |-> IF s[i].sig = e.sig /\ s[i].once THEN [s[i] EXCEPT !.live = FALSE] ELSE s[i]]]
      [] OTHER         -> [got |-> "?", s |-> s]
\* The calls of an emission, in any order.
Calls(s, e) == LET at == {i \in 1..Len(s) : s[i].live /\ s[i].sig = e.sig} IN [i \in at |-> s[i].node \o "." \o s[i].cb \o "(" \o e.v \o ")"]
SameCalls(want, got) ==
    /\ Cardinality(DOMAIN want) = Len(got)
    /\ \A c \in Ran(got) \cup {want[i] : i \in DOMAIN want} : Cardinality({i \in DOMAIN want : want[i] = c}) = Cardinality({i \in 1..Len(got) : got[i] = c})

\* Equal values may be printed differently.
LOCAL OrEqual(w, e) == IF "got" \in DOMAIN e THEN (IF ToJson(e.got) = "\"panic\"" THEN w ELSE IF w = e.got THEN e.got ELSE w) ELSE w
MacroOutcomes(kind, s, e) ==
    CASE kind = "mclass" -> {[got |-> OrEqual(ClassWant(s, e), e), s |-> s]}
      [] kind = "mscene" -> {[got |-> OrEqual(SceneOf(s[e.i], SubSeq(s, 1, e.i - 1), TRUE), e), s |-> s]}
      [] kind = "mconn"  -> LET r == ConnStep(s, e)
                            IN {[got |-> IF e.op = "emit" THEN (IF "got" \in DOMAIN e THEN e.got ELSE <<>>) ELSE r.got, s |-> r.s, was |-> s]}
\* The calls of an emission come in any order.
MacroSees(kind, was, e) == e.op = "emit" => (ToJson(e.got) # "\"panic\"" /\ SameCalls(Calls(was, e), e.got))
=============================================================================
