----------------------------- MODULE MCNodeTree -----------------------------
(* Exhaustive exploration of NodeTree within small bounds: user code makes    *)
(* every choice of operations, between the library's calls and inside every   *)
(* hook.  Ghost state counts the hooks, so that the listed properties can be  *)
(* stated apart from how NodeTree computes its steps.  Each completed         *)
(* behaviour is printed as a script, to be executed by the real code.         *)
EXTENDS NodeTree, Json

CONSTANTS OPS,       \* operations user code may call
          MAXOPS,    \* operations in one behaviour
          MAXLIVE,   \* nodes at a time
          MAXUID,    \* nodes ever
          NAMES,     \* names used
          TREES,     \* initial trees: names of scenes, see Scene
          SCENES,    \* scenes that may be added
          MODESET,   \* process modes used
          MAXNEST,   \* nesting of hooks in which operations are called
          VERBS,     \* verbosities
          LEVELS,    \* levels of messages
          HOWS,      \* ways to obtain a pointer
          USES,      \* uses of a pointer
          PATHS,     \* paths and names looked up
          FIELDS,    \* fields used
          SINGS,     \* singleton names
          RECALL,    \* how many of the last operations tell states apart
          EMIT       \* whether scripts are printed

VARIABLES s,   \* NodeTree's state
          n,   \* operations left
          nu,  \* next new node
          g,   \* ghost state, see G0
          h    \* the script so far; not part of the state's identity
vars == <<s, n, nu, g, h>>

E(pi, ty, nm, ow) == [pi |-> pi, ty |-> ty, nm |-> nm, ow |-> ow]
\* Entries of the scenes, by name; a name starting with L is loaded from a document.
Scene(x) ==
    CASE x = "one"    -> <<E(0, "Na", "A", TRUE)>>
      [] x = "pair"   -> <<E(0, "Na", "A", TRUE), E(1, "Nb", "A", FALSE)>>
      [] x = "twins"  -> <<E(0, "Na", "A", TRUE), E(1, "Nb", "B", TRUE), E(1, "Nd", "B", FALSE)>>
      [] x = "chain"  -> <<E(0, "Na", "A", TRUE), E(1, "Nb", "B", TRUE), E(2, "Nc", "A", FALSE)>>
      [] x = "fork"   -> <<E(0, "Na", "A", TRUE), E(1, "Nb", "B", TRUE), E(2, "Nc", "A", FALSE), E(1, "Nd", "C", FALSE)>>
      [] x = "deep"   -> <<E(0, "Na", "A", TRUE), E(1, "Nb", "B", FALSE), E(2, "Nc", "A", TRUE), E(3, "Nd", "A", FALSE)>>
      [] x = "Lpair"  -> <<E(0, "Na", "A", TRUE), E(1, "Nb", "A", FALSE)>>
      [] x = "Lfork"  -> <<E(0, "Na", "A", TRUE), E(1, "Nb", "B", TRUE), E(2, "Nc", "A", FALSE), E(1, "Nd", "C", FALSE)>>
Disk(x) == SubSeq(x, 1, 1) = "L"
Uids(k) == [i \in 1..k |-> nu + i - 1]
Inherits(k) == [i \in 1..k |-> "Inherit"]

\* Putting a scene in slot 1: its operations, and their effect.
PrepOps(x) == <<[op |-> "mk", to |-> 1, sc |-> Scene(x)]>>
              \o (IF Disk(x) THEN <<[op |-> "sl", from |-> 1, to |-> 1, via |-> "str"]>> ELSE <<>>)
RECURSIVE Drain(_)
\* Passes over the return of the operation in progress.
Drain(st) == IF st.stk # <<>> /\ Top(st).f = "ret" THEN Drain(Run(Pop(st))) ELSE st
PopRet(st) == Run(Pop(st))
RECURSIVE DoAll(_, _)
DoAll(st, ops) == IF ops = <<>> THEN st ELSE DoAll(PopRet(Call(st, Head(ops))), Tail(ops))

-----------------------------------------------------------------------------
(* Ghost state.                                                               *)
G0 == [rdy |-> <<>>, ldd |-> <<>>, prc |-> <<>>, ext |-> <<>>, trm |-> <<>>,  \* hooks called, by node
       own |-> <<>>,      \* marked as an owner when added
       bat |-> <<>>,      \* the addition it came with; within one, nodes are numbered in pre-order
       dk  |-> <<>>,      \* loaded from a document
       em  |-> <<>>,      \* emissions under way: signal, connections at the start, connections called
       ca  |-> <<>>,      \* calls of each connection
       bad |-> FALSE,     \* a connection was called which must not have been
       op  |-> <<>>,      \* the last operation, where the properties need it
       out |-> <<>>,      \* lines logged in the last step, likewise
       drp |-> <<>>,      \* times each node was dropped
       old |-> {},        \* nodes which were removed before this frame
       nb  |-> 0, at0 |-> {}, st0 |-> "none", chg |-> FALSE, cut |-> FALSE, last |-> 0]
Bump(f, u) == Put(f, u, (IF u \in DOMAIN f THEN f[u] ELSE 0) + 1)
Cnt(f, u) == IF u \in DOMAIN f THEN f[u] ELSE 0
\* Nodes new in st2 are noted.
GAdd(gh, st1, st2, op) ==
    LET new == Live(st2) \ Live(st1)
        at(u) == CHOOSE i \in 1..Len(op.us) : op.us[i] = u
        marked(u) == CASE op.op = "addn"           -> FALSE
                       [] op.op = "addp"           -> op.ow
                       [] op.op \in {"add", "new"} -> Flatten(st1.scn[op.from], 0, 1)[at(u)].ow
    IN IF new = {} THEN gh
       ELSE [gh EXCEPT !.nb = @ + 1,
                       !.own = [u \in new |-> marked(u)] @@ @,
                       !.bat = [u \in new |-> gh.nb] @@ @,
                       !.dk  = [u \in new |-> st2.N[u].ld] @@ @]
KeepOut == "post" \in OPS
KeepOp  == OPS \cap {"sl", "cl", "br", "ap", "scv", "pause", "fw", "fv", "ft"} # {}
GOut(gh, st) == IF KeepOut THEN [gh EXCEPT !.out = st.out] ELSE gh
\* Connection i of signal u is called.
GSignal(gh, st, u, i) ==
    [gh EXCEPT !.em[1].called = @ \cup {i}, !.ca = Bump(@, <<u, i>>),
               !.bad = @ \/ ~st.conns[u][i].on \/ i \notin gh.em[1].start \/ i \in gh.em[1].called]
GHook(gh, u, k) ==
    CASE k = "ready"    -> [gh EXCEPT !.rdy = Bump(@, u)]
      [] k = "loaded"   -> [gh EXCEPT !.ldd = Bump(@, u)]
      [] k = "process"  -> [gh EXCEPT !.prc = Bump(@, u), !.last = u]
      [] k = "TreeExit" -> [gh EXCEPT !.ext = Bump(@, u)]
      [] k \in {"Freed", "RemovedAsChild"} -> [gh EXCEPT !.trm = Bump(@, u)]
      [] OTHER -> gh

-----------------------------------------------------------------------------
(* The operations user code may choose from in a state.                       *)

HookNest(st) == Len(SelectSeq(st.stk, LAMBDA f : f.f = "hook"))
Room(st, k) == Cardinality(Live(st)) + k <= MAXLIVE /\ nu + k - 1 <= MAXUID
\* One connection from a signal to a node at a time, and no call of a removed node.
Connected(st, u) == {ConnsOf(st, u)[i].tgt : i \in {j \in 1..Len(ConnsOf(st, u)) : ConnsOf(st, u)[j].on}}

\* Of the listeners an emission has still to call, one at most is removed: which of several ends the emission is not said.
Removable(st, u) ==
    \A i \in 1..Len(st.stk) : st.stk[i].f = "emit" =>
        /\ Cardinality(Dead(st, st.stk[i]) \cup {j \in Due(st, st.stk[i]) : st.conns[st.stk[i].n][j].tgt \in Ran(TopDown(st, u, TRUE))}) <= 1
        /\ \A j \in 1..(i - 1) : st.stk[j].f \notin {"unlink", "rmdone"}

RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o Listed(S \ {x})
\* Scenes of k nodes, without regard to names.
SmallScenes(k) ==
    {[i \in 1..k |-> E(p[i], t[i], IF i = 2 THEN "B" ELSE "A", i = 1 \/ o[i])] :
        p \in {q \in [1..k -> 0..(k - 1)] : \A i \in 1..k : q[i] < i /\ (q[i] = 0 <=> i = 1)},
        t \in [1..k -> IF k < 4 THEN {"Na", "Nd"} ELSE {"Nc"}], o \in {x \in [1..k -> BOOLEAN] : x[1]}}

STRAYS == {"facts", "name", "this", "thisd", "children", "count", "childless", "child", "childd", "parent", "parentd", "owner", "ownerd",
           "path", "node", "noded", "raw", "td", "add", "adds", "addp", "remove", "free", "branch", "sing", "post"}
Has(o) == o \in OPS
Opt(o, set) == IF Has(o) THEN set ELSE {}
Slots == {1, 2, 3}
Spare(u) == CHOOSE k \in Slots : k # u
LiveOps(st) ==
    UNION {
      Opt("addn", {<<[op |-> "addn", n |-> u, ent |-> [ty |-> "Nb", nm |-> x], us |-> Uids(1), ms |-> Inherits(1)]>> :
            u \in {w \in Live(st) : Room(st, 1)}, x \in NAMES}),
      Opt("addp", {<<[op |-> "addp", n |-> u, ent |-> [ty |-> "Nc", nm |-> x], us |-> Uids(1), ms |-> Inherits(1), ow |-> b, ig |-> FALSE]>> :
            u \in {w \in Live(st) : Room(st, 1)}, x \in NAMES, b \in BOOLEAN}),
      Opt("add", {PrepOps(x) \o <<[op |-> "add", n |-> u, from |-> 1, us |-> Uids(Len(Scene(x))), ms |-> Inherits(Len(Scene(x)))]>> :
            u \in Live(st), x \in {y \in SCENES : Room(st, Len(Scene(y)))}}),
      Opt("adds", {<<[op |-> "add", n |-> u, from |-> k, us |-> Uids(SceneSize(st.scn[k])), ms |-> Inherits(SceneSize(st.scn[k]))]>> :
            u \in Live(st), k \in {j \in DOMAIN st.scn : Room(st, SceneSize(st.scn[j]))}}),
      Opt("free", {<<[op |-> "free", n |-> u]>> : u \in {w \in Live(st) : Removable(st, w)}}),
      Opt("rmc", {<<[op |-> "rmc", n |-> u, name |-> x]>> : x \in NAMES, u \in {w \in Live(st) : Removable(st, w)}}),
      Opt("name", {<<[op |-> "name", n |-> u, name |-> x]>> : u \in Live(st), x \in NAMES}),
      Opt("mode", {<<[op |-> "mode", n |-> u, m |-> x]>> : u \in Live(st), x \in MODESET}),
      Opt("sing", {<<[op |-> "sing", n |-> u, name |-> x, via |-> "node"]>> : u \in Live(st), x \in SINGS}),
      Opt("singx", {<<[op |-> "singx", n |-> st.root, x |-> u, name |-> x]>> : u \in 1..(nu - 1), x \in SINGS}),
      Opt("post", {<<[op |-> "post", n |-> u, lv |-> x, via |-> "node", m |-> "m" \o x]>> : u \in Live(st), x \in LEVELS}),
      Opt("conn", {<<[op |-> "conn", n |-> u, x |-> w, once |-> b, by |-> IF Has("free") THEN y ELSE "x"]>> :
            u \in {st.root}, w \in Live(st) \ Connected(st, st.root), b \in BOOLEAN, y \in IF Has("free") THEN {"n", "x"} ELSE {"x"}}),
      Opt("disc", {<<[op |-> "disc", n |-> st.root, id |-> i]>> : i \in 1..(Len(ConnsOf(st, st.root)) + 1)}),
      IF Has("emit") /\ HookNest(st) < MAXNEST /\ Cardinality(Connected(st, st.root) \ Live(st)) <= 1
            THEN {<<[op |-> "emit", n |-> st.root, val |-> 7]>>} ELSE {},
      Opt("br", {<<[op |-> "br", n |-> u, to |-> 2]>> : u \in Live(st)}),
      Opt("fw", {<<[op |-> "fw", n |-> u, f |-> f, val |-> "x"]>> : u \in Live(st), f \in FIELDS}),
      Opt("fr", {<<[op |-> "fr", n |-> u, f |-> f, val |-> ""]>> : u \in Live(st), f \in FIELDS}),
      Opt("fv", {<<[op |-> "fv", n |-> u, f |-> f, val |-> "y"]>> : u \in Live(st), f \in FIELDS \cap {"uq", "pl"}}),
      Opt("ft", {<<[op |-> "ft", n |-> u, f |-> f, val |-> ""]>> : u \in Live(st), f \in FIELDS \cap {"uq", "pl"}}),
      Opt("fq", {<<[op |-> "fq", n |-> u, f |-> f, val |-> ""]>> : u \in Live(st), f \in FIELDS \cap {"uq", "pl"}}),
      Opt("ptr", {<<[op |-> "ptr", n |-> u, sl |-> 1, how |-> w, ty |-> IF w = "this" THEN st.N[u].ty ELSE y, i |-> i, x |-> x, p |-> p, g |-> "np"]>> :
            u \in Live(st), w \in (HOWS \ {"newd", "new", "pathd", "path"}) \cap {"child", "childd"}, y \in {"Na", "Nb"}, i \in 0..1, x \in {1}, p \in {""}}),
      Opt("ptr", {<<[op |-> "ptr", n |-> u, sl |-> 1, how |-> w, ty |-> IF w = "this" THEN st.N[u].ty ELSE y, i |-> 0, x |-> 1, p |-> "", g |-> "np"]>> :
            u \in Live(st), w \in HOWS \ {"newd", "new", "pathd", "path", "child", "childd"}, y \in {"Na", "Nb"}}),
      Opt("ptr", {<<[op |-> "ptr", n |-> u, sl |-> 1, how |-> w, ty |-> "Nb", i |-> 0, x |-> x, p |-> "", g |-> "np"]>> :
            u \in Live(st), w \in HOWS \cap {"newd", "new"}, x \in 1..(nu - 1)}),
      Opt("ptr", {<<[op |-> "ptr", n |-> u, sl |-> 1, how |-> w, ty |-> "Nb", i |-> 0, x |-> 1, p |-> p, g |-> "np"]>> :
            u \in Live(st), w \in HOWS \cap {"pathd", "path"}, p \in PATHS}),
      Opt("unw", {<<[op |-> "unw", n |-> u, i |-> i, w |-> w]>> : u \in Live(st), i \in 0..1,
            w \in {"unwrap", "expect", "opt_unwrap", "opt_expect", "unwrap_err", "expect_err", "err_unwrap"}}),
      Opt("grid", {<<[op |-> "grid", n |-> st.root, p |-> p, g |-> k, x |-> x]>> : p \in PATHS, k \in {"np", "str"}, x \in 0..(nu - 1)}),
      Opt("raw", {<<[op |-> "raw", n |-> u, p |-> p]>> : u \in Live(st), p \in {q \in PATHS : ~ParsePath(q).abs}}),
      Opt("abs", {<<[op |-> "abs", n |-> u]>> : u \in Live(st)}),
      Opt("td", {<<[op |-> "td", n |-> u, self |-> b]>> : u \in Live(st), b \in BOOLEAN}),
      Opt("nodes", {<<[op |-> "nodes", n |-> st.root, us |-> q, w |-> w]>> :
            q \in UNION {[1..k -> 1..(nu - 1)] : k \in 0..2}, w \in {"get", "valid", "getm", "validm"}})
    }
FreeOps(st) ==
    UNION {
      IF Has("queue") THEN {<<[op |-> "queue"]>>} ELSE {},
      IF Has("terminate") THEN {<<[op |-> "terminate"]>>} ELSE {},
      Opt("pause", {<<[op |-> "pause"]>>}),
      Opt("unpause", {<<[op |-> "unpause"]>>}),
      Opt("hdr", {<<[op |-> "hdr", m |-> "H"]>>}),
      IF Has("use") /\ 1 \in DOMAIN st.ptr
            THEN LET dyn == st.ptr[1].ty = "D" IN
                 {<<[op |-> "use", sl |-> 1, w |-> x, ty |-> y, val |-> "c", to |-> 1]>> :
                     x \in USES \cap (IF dyn THEN {"valid", "null", "get", "deref", "derefm", "getm", "try", "trym", "fname", "to", "is"}
                                             ELSE {"valid", "null", "get", "deref", "derefm", "getm", "try", "trym", "fname", "todyn", "trytodyn"}),
                     y \in {"Na", "Nb"}}
                 \cup (IF dyn THEN {<<[op |-> "use", sl |-> 1, w |-> x, ty |-> y, val |-> "c", to |-> 1]>> :
                     x \in USES \cap {"isof", "cast", "castm"}, y \in {"Greet", "Calc", "Marker"}} ELSE {})
            ELSE {},
      Opt("stray", {<<[op |-> "stray", src |-> "new", ty |-> "Na", nm |-> x, name |-> "A", w |-> w]>> : x \in {"", "A"}, w \in STRAYS}
                   \cup {<<[op |-> "stray", src |-> "clone", n |-> u, ty |-> "Na", name |-> "A", w |-> w]>> : u \in Live(st), w \in STRAYS}
                   \cup {<<[op |-> "stray", src |-> "self", x |-> u, ty |-> st.gone[u].ty, name |-> "A", w |-> w]>> :
                           u \in {x \in DOMAIN st.gone : Top(st).f = "hook" /\ Top(st).u = x}, w \in STRAYS}),
      Opt("mk", {<<[op |-> "mk", to |-> k, sc |-> Scene(x)]>> : k \in {1, 2}, x \in SCENES}),
      Opt("sl", {<<[op |-> "sl", from |-> k, to |-> 3, via |-> v]>> : k \in DOMAIN st.scn, v \in {"str"}}),
      Opt("cl", {<<[op |-> "cl", from |-> k, to |-> 3]>> : k \in DOMAIN st.scn}),
      Opt("ap", {<<[op |-> "ap", from |-> p[1], to |-> p[2], ow |-> b]>> : b \in BOOLEAN,
            p \in {q \in (DOMAIN st.scn) \X (DOMAIN st.scn) : q[1] # q[2] /\ SceneSize(st.scn[q[1]]) + SceneSize(st.scn[q[2]]) <= 6}}),
      Opt("sh", {<<[op |-> "sh", from |-> p[1], to |-> p[2]]>> : p \in (DOMAIN st.scn) \X (DOMAIN st.scn)}),
      Opt("shs", {<<[op |-> "shs", scs |-> Listed(SmallScenes(k))]>> : k \in 1..4}),
      Opt("scv", {<<[op |-> "scv", from |-> k, i |-> i, val |-> "z", nm |-> "Z"]>> : k \in DOMAIN st.scn, i \in {1, 2}}),
      Opt("sc", {<<[op |-> "sc", from |-> k]>> : k \in DOMAIN st.scn})
    }
Choices(st) ==
    LET all == (IF Live(st) = {} THEN {} ELSE LiveOps(st)) \cup FreeOps(st)
                 \cup (IF st.stk = <<>> /\ Has("process") THEN {<<[op |-> "process"]>>} ELSE {})
    IN all

-----------------------------------------------------------------------------
Init ==
    \E x \in TREES, v \in VERBS :
       LET k   == Len(Scene(x))
           us  == [i \in 1..k |-> i]
           new == [op |-> "new", verb |-> v, kind |-> "simple", from |-> 1, us |-> us, ms |-> Inherits(k)]
           st  == [Call(DoAll(Empty, PrepOps(x)), new) EXCEPT !.out = <<>>]
       IN /\ s = st
          /\ n = MAXOPS /\ nu = k + 1
          /\ g = GAdd(G0, DoAll(Empty, PrepOps(x)), st, new)
          /\ h = PrepOps(x) \o <<new>>

CallOp ==
    /\ UserTurn(s) /\ n > 0 /\ HookNest(s) <= MAXNEST
    /\ \E c \in Choices(s) :
         LET op  == c[Len(c)]
             st0 == DoAll(s, SubSeq(c, 1, Len(c) - 1))
             st  == [Call(st0, op) EXCEPT !.out = <<>>]
             g0  == IF op.op = "emit" THEN [g EXCEPT !.em = <<[n |-> op.n, start |-> {i \in 1..Len(ConnsOf(s, op.n)) : ConnsOf(s, op.n)[i].on}, called |-> {}]>> \o @] ELSE g
             g1  == GOut(GAdd(IF KeepOp THEN [g0 EXCEPT !.op = op] ELSE g0, st0, st, op), Call(st0, op))
             g2  == IF op.op = "process"
                    THEN [g1 EXCEPT !.prc = <<>>, !.at0 = Live(s), !.st0 = s.st, !.chg = FALSE, !.cut = FALSE, !.last = 0,
                                    !.old = IF Has("drop") /\ s.st # "end" THEN (DOMAIN g1.bat) \ Live(s) ELSE {}]
                    ELSE IF op.op \in {"mode", "pause", "unpause"} THEN [g1 EXCEPT !.chg = TRUE]
                    ELSE g1
         IN /\ s' = st /\ n' = n - 1 /\ h' = h \o c
            /\ nu' = IF "us" \in DOMAIN op THEN nu + Len(op.us) ELSE nu
            /\ g' = IF s.st # "end" /\ st.st = "end" /\ op.op # "process" THEN [g2 EXCEPT !.cut = TRUE] ELSE g2
\* What is dropped while library code runs; only some models tell that apart.
Drops(st) == IF Has("drop") THEN {D \in SUBSET (st.due \cup st.kept) : MayDrop(st, D)} ELSE {st.due}
GDrop(gh, D) == IF Has("drop") THEN [gh EXCEPT !.drp = [u \in DOMAIN @ \cup D |-> Cnt(gh.drp, u) + IF u \in D THEN 1 ELSE 0]] ELSE gh
EnterHook ==
    /\ ~UserTurn(s)
    /\ \E k \in NextHooks(s), D \in Drops(s) :
         /\ s' = Drop([k.s EXCEPT !.out = <<>>], D)
         /\ g' = GDrop(IF Top(s).f = "emit"
                       THEN LET i == CHOOSE j \in Top(s).due : j \notin k.s.stk[2].due IN GSignal(g, s, Top(s).n, i)
                       ELSE GHook(g, k.n, k.k), D)
    /\ UNCHANGED <<n, nu, h>>
LeaveHook ==
    /\ s.stk # <<>> /\ Top(s).f = "hook"
    /\ LET st == [HookReturn(s) EXCEPT !.out = <<>>]
           g1 == GOut(g, HookReturn(s))
       IN /\ s' = st
          /\ g' = IF s.st # "end" /\ st.st = "end" /\ ~(g.st0 = "term") THEN [g1 EXCEPT !.cut = TRUE] ELSE g1
    /\ h' = Append(h, [ret |-> 1])
    /\ UNCHANGED <<n, nu>>
Return ==
    /\ s.stk # <<>> /\ Top(s).f = "ret"
    /\ \E D \in Drops(s) :
         /\ s' = Drop([PopRet(s) EXCEPT !.out = <<>>], D)
         /\ g' = GDrop(GOut(IF Top(s).op = "emit" THEN [g EXCEPT !.em = Tail(@)] ELSE g, PopRet(s)), D)
    /\ UNCHANGED <<n, nu, h>>
\* A listener is gone when it is to be called.
EmissionFails ==
    /\ \E i \in EmitFails(s) :
         /\ s' = [EmitFail(s, i) EXCEPT !.out = <<>>]
         /\ g' = GOut([g EXCEPT !.em[1].called = @ \cup {i}], EmitFail(s, i))
    /\ UNCHANGED <<n, nu, h>>
Done == /\ s.stk = <<>> /\ n = 0
        /\ UNCHANGED vars
Next == CallOp \/ EnterHook \/ LeaveHook \/ Return \/ EmissionFails
Spec == Init /\ [][Next]_vars
\* The code might tell behaviours apart which lead to one state of the specification, so the last operations may count too.
Recent == IF RECALL = 0 THEN <<>>
          ELSE LET q == SelectSeq(h, LAMBDA x : "op" \in DOMAIN x) IN SubSeq(q, IF Len(q) > RECALL THEN Len(q) - RECALL + 1 ELSE 1, Len(q))
View == <<IF Has("drop") THEN s ELSE [s EXCEPT !.kept = {}], n, nu, g, Recent>>

\* Prints the script of each behaviour which has come to its end.
Script == (EMIT /\ s.stk = <<>> /\ n = 0) => PrintT("SCRIPT " \o ToJson(h))

-----------------------------------------------------------------------------
(* The properties.                                                            *)

P01_Rooted == Rooted(s) /\ Reached(s)
P02_Names  == NamesDistinct(s)
\* Whoever was marked is its own owner, and everyone else has that of the node above.
P03_Owners == OwnersOk(s) /\ OwnersAbove(s) /\ \A u \in Live(s) : s.N[u].own = IF g.own[u] \/ u = s.root THEN u ELSE s.N[s.N[u].par].own
At(k) == s.stk # <<>> /\ Top(s).f = "call" /\ Top(s).k = k
P04_Once   == \A u \in DOMAIN g.bat : Cnt(g.rdy, u) <= 1 /\ Cnt(g.ldd, u) <= 1
P04_All    == s.stk = <<>> => \A u \in Live(s) : Cnt(g.rdy, u) = 1 /\ (Cnt(g.ldd, u) = 1 <=> g.dk[u]) /\ ~s.N[u].ld
P04_Order  == At("ready") => LET u == Top(s).u IN
                  /\ \A w \in Live(s) : g.bat[w] = g.bat[u] /\ w > u => Cnt(g.rdy, w) = 1
                  /\ \A w \in Live(s) : g.bat[w] = g.bat[u] /\ w < u => Cnt(g.rdy, w) = 0
                  /\ g.dk[u] => Cnt(g.ldd, u) = 1
P04_Loaded == At("loaded") => s.N[Top(s).u].ld /\ g.dk[Top(s).u] /\ Cnt(g.rdy, Top(s).u) = 0
\* The mode by which a node runs, from the modes as they are now.
RECURSIVE Mode(_, _)
Mode(st, u) == IF s.N[u].mode # "Inherit" THEN s.N[u].mode ELSE IF s.N[u].par = 0 THEN "Pausable" ELSE Mode(st, s.N[u].par)
RECURSIVE Pre(_, _)
Pre(st, u) == <<u>> \o Cat([i \in 1..Len(st.N[u].kids) |-> Pre(st, st.N[u].kids[i])])
Before(st, a, b) == LET q == Pre(st, st.root)
                        ix(u) == CHOOSE i \in 1..Len(q) : q[i] = u
                    IN ix(a) < ix(b)
P05_Once  == \A u \in DOMAIN g.prc : g.prc[u] <= 1
P05_Order == At("process") /\ g.last # 0 /\ IsLive(s, g.last) => Before(s, g.last, Top(s).u)
FrameEnd  == s.stk # <<>> /\ Top(s).f = "ret" /\ Top(s).op = "process"
P05_All   == FrameEnd /\ g.st0 \in {"run", "qrun"} /\ ~g.chg /\ ~g.cut =>
                \A u \in g.at0 \cap Live(s) : Cnt(g.prc, u) = IF Eligible(s, Mode(s, u)) THEN 1 ELSE 0
P06_Modes == At("process") /\ ~g.chg => Eligible(s, Mode(s, Top(s).u))
Order(x)  == CASE x = "none" -> 0 [] x = "run" -> 1 [] x = "qrun" -> 2 [] x = "term" -> 3 [] x = "end" -> 4
P07_OneWay == [][Order(s'.st) >= Order(s.st)]_vars
P07_Hooks  == /\ (At("process") => s.st \in {"run", "qrun"})
              /\ (At("TreeExit") => s.st = "term")
              /\ \A u \in DOMAIN g.ext : g.ext[u] <= 1
P07_Exit   == FrameEnd /\ g.st0 = "term" /\ ~g.cut => s.st = "end" /\ \A u \in g.at0 \cap Live(s) : Cnt(g.ext, u) = 1
P08_Once   == \A u \in DOMAIN g.trm : g.trm[u] <= 1
P08_Told   == [][\A u \in Live(s) \ Live(s') : Cnt(g'.trm, u) = 1]_vars
P08_Hooks  == HookLive(s)
P10_Paths  == s.root \in Live(s) => PathsResolve(s) /\ PathsPrint(s)
\* Steps of a path: here, above, by name; one after the other; from the root down if absolute, whoever asks.
Rel(u, p) == LookUp(s, p, "np", u)
P10_Steps  == s.root \in Live(s) /\ s.stk = <<>> /\ n > 0 =>
                 \A u \in Live(s) :
                    /\ Rel(u, ".") = u /\ Rel(u, "") = u
                    /\ Rel(u, "..") = s.N[u].par
                    /\ \A k \in Ran(s.N[u].kids) : Rel(u, s.N[k].name) = k /\ Rel(u, "./" \o s.N[k].name \o "/..") = u
                    /\ \A x \in NAMES : Rel(u, x) = 0 \/ (IsLive(s, Rel(u, x)) /\ s.N[Rel(u, x)].name = x /\ s.N[Rel(u, x)].par = u)
                    /\ \A x, y \in NAMES \cup {".", ".."} : Rel(u, x \o "/" \o y) = (IF Rel(u, x) = 0 THEN 0 ELSE Rel(Rel(u, x), y))
                    /\ \A w \in Live(s) \cup {0} : Rel(w, "/" \o PathOf(s, u)) = u
P11_Names  == SingletonsOk(s)
\* A pointer keeps its node, and is null once the node has left.
P09_Ptr    == [][\A k \in DOMAIN s.ptr : ~IsLive(s, s.ptr[k].tgt) /\ k \in DOMAIN s'.ptr /\ s'.ptr[k] = s.ptr[k] => ~IsLive(s', s'.ptr[k].tgt)]_vars
\* Nodes outside of the tree do nothing to it.
P26_Apart  == [][Len(h') > Len(h) /\ "op" \in DOMAIN h'[Len(h')] /\ h'[Len(h')].op = "stray" => s'.N = s.N /\ s'.scn = s.scn /\ s'.out = <<>>]_vars
\* A node which is gone is no part of the tree.
P26_Gone   == DOMAIN s.gone \cap Live(s) = {}
\* A removed node is dropped once, while none of its hooks runs, and before the first hook of the next frame.
P27_Once   == \A u \in DOMAIN g.drp : g.drp[u] <= 1 /\ ~IsLive(s, u)
P27_Frame  == At("process") \/ FrameEnd => \A u \in g.old : Cnt(g.drp, u) = 1 \/ s.due # {}
P27_Busy   == [][\A u \in DOMAIN g'.drp : Cnt(g.drp, u) = g'.drp[u] \/ \A i \in 1..Len(s.stk) : ~(s.stk[i].f = "hook" /\ s.stk[i].u = u)]_vars
P09_Type   == \A k \in DOMAIN s.ptr : s.ptr[k].ty # "D" /\ IsLive(s, s.ptr[k].tgt) => s.N[s.ptr[k].tgt].ty = s.ptr[k].ty
P12_Due    == ~g.bad
P12_All    == s.stk # <<>> /\ Top(s).f = "ret" /\ Top(s).op = "emit" /\ Top(s).v # "panic" =>
                 \A i \in g.em[1].start : i \in g.em[1].called \/ ~s.conns[g.em[1].n][i].on
P12_Once   == \A x \in DOMAIN g.ca : s.conns[x[1]][x[2]].once => g.ca[x] = 1 /\ ~s.conns[x[1]][x[2]].on
P12_Live   == [][Len(g.em) > 0 /\ Len(g'.em) = Len(g.em) /\ g'.em[1].called # g.em[1].called =>
                   LET i == CHOOSE j \in g'.em[1].called : j \notin g.em[1].called
                       u == s.conns[g.em[1].n][i].tgt
                   IN IF IsLive(s, u) THEN Top(s').f = "hook" /\ Top(s').u = u ELSE Top(s').f = "ret" /\ Top(s').v = "panic"]_vars
P12_Stay   == [][\A u \in DOMAIN s.conns : \A i \in 1..Len(s.conns[u]) :
                   s.conns[u][i].on /\ ~s'.conns[u][i].on =>
                      \/ s.conns[u][i].once /\ g.em # <<>> /\ i \in g'.em[1].called
                      \/ \E c \in 1..Len(h') : h'[c] = [op |-> "disc", n |-> u, id |-> i]]_vars
\* Every message line was admitted; a panic ends the tree and is followed by its report.
IsMsg(x)   == Len(x) >= 6 /\ SubSeq(x, 1, 6) = "<T> | "
EndsIn(x, y) == Len(x) >= Len(y) /\ SubSeq(x, Len(x) - Len(y) + 1, Len(x)) = y
P13_Levels == \A i \in 1..Len(g.out) : LET x == g.out[i] IN
                 /\ EndsIn(x, " | DEBUG | mD") => s.verb = "All"
                 /\ EndsIn(x, " | INFO | mI") => s.verb \in {"All", "NoDebug"}
                 /\ EndsIn(x, " | WARN | mW") => s.verb # "OnlyPanics"
                 /\ EndsIn(x, " | PANIC! | mP") => s.st = "end"
P14_Status == StatusOk(s)
\* The nodes drawn by a crash report: those within fourteen layers below the top of the drawing.
DrawnOf(u) == {w \in Live(s) : IsAncestorOrSelf(s, u, w) /\ s.N[w].dep <= s.N[u].dep + 14}
P14_Report == \A u \in Live(s) :
                 LET v == Visual(s, u)
                     top == Above(s, u, 6)
                     gap == CHOOSE i \in 1..Len(v) : v[i] = "" /\ \A j \in 1..(i - 1) : v[j] # ""
                     warned == {w \in DrawnOf(top) : s.N[w].st = "W"}
                 IN /\ u \in DrawnOf(top)
                    /\ gap = 2 + Cardinality(DrawnOf(top))
                    /\ \A w \in warned : \E i \in 1..Len(v) : v[i] = "{esc}[33m" \o s.N[w].name \o " - " \o s.N[w].sm \o "{esc}[0m"
                    /\ (warned = {} <=> v[gap + 2] = "None")
\* Scenes: a loaded one equals what was saved, and nothing is shared.
RECURSIVE NamesOf(_)
NamesOf(c) == <<c.nm>> \o Cat([i \in 1..Len(c.kids) |-> NamesOf(c.kids[i])])
RECURSIVE ValsOf(_)
ValsOf(c) == <<c.v>> \o Cat([i \in 1..Len(c.kids) |-> ValsOf(c.kids[i])])
Part(q, is) == [i \in 1..Len(q) |-> [j \in is |-> q[i][j]]]
JustDid(o) == IF s.stk = <<>> THEN FALSE ELSE Top(s).f = "ret" /\ Top(s).op = o
P15_Loaded == JustDid("sl") /\ g.op.from # g.op.to =>
                 LET a == s.scn[g.op.from]  b == s.scn[g.op.to] IN
                 /\ Shape(a) = Shape(b) /\ NamesOf(a) = NamesOf(b)
                 /\ Part(ValsOf(a), {1, 2}) = Part(ValsOf(b), {1, 2})
                 /\ \A i \in 1..Len(ValsOf(b)) : ValsOf(b)[i][3] = "" /\ ValsOf(b)[i][4] = VOID /\ ValsOf(b)[i][5] = VOID
P16_Copied == JustDid("cl") /\ g.op.from # g.op.to =>
                 LET a == s.scn[g.op.from]  b == s.scn[g.op.to] IN
                 /\ Shape(a) = Shape(b) /\ NamesOf(a) = NamesOf(b)
                 /\ Part(ValsOf(a), {1, 2, 3, 5}) = Part(ValsOf(b), {1, 2, 3, 5})
                 /\ \A i \in 1..Len(ValsOf(b)) : ValsOf(b)[i][4] = VOID
RECURSIVE TreeNames(_)
TreeNames(u) == <<s.N[u].name>> \o Cat([i \in 1..Len(s.N[u].kids) |-> TreeNames(s.N[u].kids[i])])
P16_Branch == JustDid("br") => LET b == s.scn[g.op.to] IN
                 b.ow /\ ~b.dk /\ NamesOf(b) = TreeNames(g.op.n) /\ SceneSize(b) = Len(TopDown(s, g.op.n, TRUE))
Written(op) == CASE op.op \in {"mk", "br"} -> {op.to}
                 [] op.op \in {"sl", "cl"}  -> {op.to}
                 [] op.op = "ap"            -> {op.to, op.from}
                 [] op.op \in {"scv", "add"} -> {op.from}
                 [] OTHER                   -> {}
P16_Apart  == [][KeepOp /\ g'.op # g.op =>
                   /\ \A k \in (DOMAIN s.scn) \ ({1} \cup Written(g'.op)) : k \in DOMAIN s'.scn /\ s'.scn[k] = s.scn[k]
                   /\ g'.op.op \in {"scv", "ap", "cl", "sl", "mk", "br"} => s'.N = s.N]_vars
P17_Alone  == [][KeepOp /\ g'.op # g.op /\ g'.op.op \in {"fw", "fv", "ft"} =>
                   \A u \in Live(s) : \A i \in 1..5 :
                      (u # g'.op.n \/ i # FIDX[g'.op.f]) => s'.N[u].val[i] = s.N[u].val[i]]_vars
P06_Pause  == [][KeepOp /\ g'.op # g.op /\ g'.op.op \in {"pause", "unpause"} =>
                   s'.N = s.N /\ s'.st = s.st /\ (s.st \in {"term", "end"} => s'.paused = s.paused)]_vars
P24_Levels == \A u \in Live(s) : LET q == TopDown(s, u, TRUE) IN
                 /\ Ran(q) = {w \in Live(s) : IsAncestorOrSelf(s, u, w)}
                 /\ Cardinality(Ran(q)) = Len(q)
                 /\ \A i, j \in 1..Len(q) : i < j => s.N[q[i]].dep <= s.N[q[j]].dep
P24_Order  == \A u \in Live(s) : LET q == TopDown(s, u, FALSE) IN
                 \A i, j \in 1..Len(q) : i < j /\ s.N[q[i]].dep = s.N[q[j]].dep => Before(s, q[i], q[j])
=============================================================================
