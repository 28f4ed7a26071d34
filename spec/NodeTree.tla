------------------------------ MODULE NodeTree ------------------------------
(* The state and the transitions of one node tree, at the level of what user  *)
(* code can observe: registered nodes and their links, names, owners, hooks   *)
(* and their order, frames, pausing, termination, removal, singletons, paths, *)
(* pointers, the log, signals, fields and scenes.                             *)
(*                                                                            *)
(* A state is one record.  Library code that calls back into user code is     *)
(* modelled by a stack of frames (`stk`, topmost first), so that user code    *)
(* may use the whole API from within any hook, to any depth.  `Run` executes  *)
(* library steps up to the next point at which user code is involved: a hook  *)
(* is to be called, an operation returns, or user code has the turn.          *)
(*                                                                            *)
(* Nodes are identified by numbers given by the driver, from 1; 0 means none. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Names, Paths

Put(f, k, v) == (k :> v) @@ f
Without(f, S) == [x \in (DOMAIN f) \ S |-> f[x]]
Ran(q) == {q[i] : i \in 1..Len(q)}
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
RECURSIVE Cat(_)
Cat(qs) == IF qs = <<>> THEN <<>> ELSE Head(qs) \o Cat(Tail(qs))
RECURSIVE JoinStr(_, _)
JoinStr(q, sep) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o JoinStr(Tail(q), sep)
Map(q, Op(_)) == [i \in 1..Len(q) |-> Op(q[i])]
U(u) == "u" \o ToString(u)
Bool(b) == IF b THEN "true" ELSE "false"

TYPES == {"Na", "Nb", "Nc", "Nd"}
\* The classes' own names: Nd is the class Na of another module.
SHORT == [Na |-> "Na", Nb |-> "Nb", Nc |-> "Nc", Nd |-> "Na"]
EXTENDS_OF == [Na |-> {"Marker", "Greet", "Calc"}, Nb |-> {"Marker", "Greet"}, Nc |-> {"Marker"}, Nd |-> {"Marker", "Calc"}]
DEFVAL == <<"e", "", "", "q", "p">>      \* initial values of the fields ex, ed, df, uq, pl
VOID == "_"
FIDX == [ex |-> 1, ed |-> 2, df |-> 3, uq |-> 4, pl |-> 5]

Header0 == "Unfortunately the program has crashed. Please contact the development team with the following crash report as well as the attachment of the log posted during the time of the crash."
Footer0 == "Goodbye World! (Program Exited)"

Empty == [N |-> <<>>, root |-> 0, st |-> "none", paused |-> FALSE, verb |-> "All",
          hdr |-> Header0, ftr |-> Footer0, stk |-> <<>>, out |-> <<>>,
          conns |-> <<>>, ptr |-> <<>>, scn |-> <<>>,
          told |-> {},     \* nodes which have been told that they leave
          gone |-> <<>>,   \* removed nodes which are in the middle of a hook: [ty, nm, v]
          kept |-> {}, due |-> {}]   \* removed nodes which have not been dropped; those which are by the next event

Live(s) == DOMAIN s.N
IsLive(s, u) == u \in DOMAIN s.N
Push(s, fs) == [s EXCEPT !.stk = fs \o @]
Top(s) == s.stk[1]
Pop(s) == [s EXCEPT !.stk = Tail(@)]
\* The operation in progress returns `v` next.
RetF(op, v) == [f |-> "ret", op |-> op, v |-> v]
Ret(s, op, v) == Push(s, <<RetF(op, v)>>)

-----------------------------------------------------------------------------
(* Reading the tree.                                                          *)

RECURSIVE PathOf(_, _)
PathOf(s, u) == IF s.N[u].par = 0 THEN s.N[u].name ELSE PathOf(s, s.N[u].par) \o "/" \o s.N[u].name

\* All nodes below those of `layer`, level by level.
RECURSIVE Levels(_, _)
Levels(s, layer) ==
    LET below == Cat([i \in 1..Len(layer) |-> s.N[layer[i]].kids])
    IN IF below = <<>> THEN <<>> ELSE below \o Levels(s, below)
TopDown(s, u, self) == (IF self THEN <<u>> ELSE <<>>) \o Levels(s, <<u>>)

RECURSIVE IsAncestorOrSelf(_, _, _)
IsAncestorOrSelf(s, a, u) == u # 0 /\ (a = u \/ IsAncestorOrSelf(s, a, s.N[u].par))

KidNames(s, u) == {s.N[k].name : k \in Ran(s.N[u].kids)}
SiblingNames(s, u) == IF s.N[u].par = 0 THEN {} ELSE {s.N[k].name : k \in Ran(s.N[s.N[u].par].kids) \ {u}}

\* The child of u called nm, or 0.
KidNamed(s, u, nm) ==
    LET ks == {k \in Ran(s.N[u].kids) : s.N[k].name = nm}
    IN IF ks = {} THEN 0 ELSE CHOOSE k \in ks : TRUE

RECURSIVE Resolve(_, _, _)
Resolve(s, u, segs) ==
    IF u = 0 THEN 0
    ELSE IF segs = <<>> THEN u
    ELSE Resolve(s, CASE segs[1] = "."  -> u
                      [] segs[1] = ".." -> s.N[u].par
                      [] OTHER          -> KidNamed(s, u, segs[1]), Tail(segs))

\* The node which holds a singleton name, or 0.
Holder(s, nm) ==
    LET hs == {u \in Live(s) : s.N[u].sg = <<nm>>}
    IN IF hs = {} THEN 0 ELSE CHOOSE u \in hs : TRUE

\* Looking up `p` on behalf of `caller` (0: of nobody): a path if g = "np", otherwise a name.
LookUp(s, p, g, caller) ==
    IF g # "np" THEN Holder(s, p)
    ELSE LET q == ParsePath(p) IN
         IF q.abs THEN IF q.segs # <<>> /\ q.segs[1] = s.N[s.root].name THEN Resolve(s, s.root, Tail(q.segs)) ELSE 0
         ELSE IF IsLive(s, caller) THEN Resolve(s, caller, q.segs) ELSE 0

-----------------------------------------------------------------------------
(* The log.                                                                   *)

Admits(verb, lv) == CASE verb = "All"        -> TRUE
                      [] verb = "NoDebug"    -> lv # "D"
                      [] verb = "OnlyIssues" -> lv \in {"W", "P"}
                      [] OTHER               -> lv = "P"
LevelName(lv) == CASE lv = "D" -> "DEBUG" [] lv = "I" -> "INFO" [] lv = "W" -> "WARN" [] OTHER -> "PANIC!"
Origin(s, u) == IF s.N[u].sg # <<>> THEN s.N[u].sg[1] ELSE "[" \o PathOf(s, u) \o "]"
Line(origin, lv, msg) == "<T> | " \o origin \o " | " \o LevelName(lv) \o " | " \o msg
PostAs(s, origin, lv, msg) == IF Admits(s.verb, lv) THEN [s EXCEPT !.out = Append(@, Line(origin, lv, msg))] ELSE s

Colour(s, u) == CASE s.N[u].st = "W" -> "{esc}[33m" \o s.N[u].name \o "{esc}[0m"
                  [] s.N[u].st = "P" -> "{esc}[31m" \o s.N[u].name \o "{esc}[0m"
                  [] OTHER           -> s.N[u].name
\* acc: the lines drawn, and the warnings and panics met, so far.
Note(s, u, acc) == CASE s.N[u].st = "W" -> [acc EXCEPT !.w = Append(@, "{esc}[33m" \o s.N[u].name \o " - " \o s.N[u].sm \o "{esc}[0m")]
                     [] s.N[u].st = "P" -> [acc EXCEPT !.p = Append(@, "{esc}[31m" \o s.N[u].name \o " - " \o s.N[u].sm \o "{esc}[0m")]
                     [] OTHER           -> acc
RECURSIVE Draw(_, _, _, _, _, _)
\* Draws the children of u from the i-th on; `level` more layers are drawn by name.
Draw(s, u, i, prefix, level, acc) ==
    IF i > Len(s.N[u].kids) THEN acc
    ELSE LET c    == s.N[u].kids[i]
             last == i = Len(s.N[u].kids)
             line == prefix \o (IF last THEN "`-- " ELSE "+-- ") \o (IF level # 0 THEN Colour(s, c) ELSE "...")
             a1   == Note(s, c, [acc EXCEPT !.lines = Append(@, line)])
             a2   == IF level # 0 THEN Draw(s, c, 1, prefix \o (IF last THEN "    " ELSE "|   "), level - 1, a1) ELSE a1
         IN Draw(s, u, i + 1, prefix, level, a2)
RECURSIVE Above(_, _, _)
Above(s, u, k) == IF k = 0 \/ s.N[u].par = 0 THEN u ELSE Above(s, s.N[u].par, k - 1)
OrNone(q) == IF q = <<>> THEN <<"None">> ELSE q
Visual(s, u) ==
    LET from == Above(s, u, 6)
        acc  == Draw(s, from, 1, "", 13, Note(s, from, [lines |-> <<Colour(s, from)>>, w |-> <<>>, p |-> <<>>]))
    IN <<"[REPORT START]">> \o acc.lines \o <<"", "[Same-Frame Warnings]">> \o OrNone(acc.w)
       \o <<"", "[Same-Frame Panics]">> \o OrNone(acc.p) \o <<"", "[REPORT END]">>
Report(s, u) == <<"", s.hdr, "">> \o Visual(s, u) \o <<"Time of Crash: T", "Exit Code: 1", "", s.ftr>>

\* A message posted in the name of node u; a panic is reported and ends the tree.
PostTree(s, u, lv, msg) ==
    LET s1 == PostAs(s, Origin(s, u), lv, msg)
    IN IF lv = "P" THEN [s1 EXCEPT !.out = @ \o Report(s1, u), !.st = "end"] ELSE s1
\* A message posted by node u itself; warnings and panics also mark it.
Post(s, u, lv, msg) ==
    PostTree(IF lv \in {"W", "P"} THEN [s EXCEPT !.N[u].st = lv, !.N[u].sm = msg] ELSE s, u, lv, msg)
PostIfLive(s, u, lv, msg) == IF IsLive(s, u) THEN Post(s, u, lv, msg) ELSE s

-----------------------------------------------------------------------------
(* Scenes: [ty, nm, ow, dk, v, kids]; dk: was loaded from a document.         *)

RECURSIVE BuildScene(_, _)
\* From flat pre-order entries, the scene of the i-th.
BuildScene(es, i) ==
    LET e  == es[i]
        ks == SelectSeq([j \in 1..Len(es) |-> j], LAMBDA j : es[j].pi = i)
    IN [ty |-> e.ty, nm |-> e.nm, ow |-> e.ow, dk |-> FALSE, v |-> IF "v" \in DOMAIN e THEN e.v ELSE DEFVAL,
        kids |-> [j \in 1..Len(ks) |-> BuildScene(es, ks[j])]]

RECURSIVE SceneStr(_)
SceneStr(c) == "(" \o c.ty \o ":" \o c.nm \o ":" \o (IF c.ow THEN "1" ELSE "0") \o ":" \o JoinStr(c.v, ",")
               \o JoinStr([i \in 1..Len(c.kids) |-> SceneStr(c.kids[i])], "") \o ")"
RECURSIVE SceneSize(_)
SceneSize(c) == 1 + Len(Cat([i \in 1..Len(c.kids) |-> [j \in 1..SceneSize(c.kids[i]) |-> 0]]))

RECURSIVE Loaded(_)
Loaded(c) == [c EXCEPT !.dk = TRUE, !.v = <<@[1], @[2], "", VOID, VOID>>,
                       !.kids = [i \in 1..Len(c.kids) |-> Loaded(c.kids[i])]]
CopyVals(v) == [v EXCEPT ![4] = VOID]
RECURSIVE Cloned(_)
Cloned(c) == [c EXCEPT !.v = CopyVals(@), !.kids = [i \in 1..Len(c.kids) |-> Cloned(c.kids[i])]]
RECURSIVE Shape(_)
Shape(c) == [ty |-> c.ty, ow |-> c.ow, kids |-> [i \in 1..Len(c.kids) |-> Shape(c.kids[i])]]
RECURSIVE Branch(_, _, _)
Branch(s, u, ow) ==
    LET n == s.N[u] IN
    [ty |-> n.ty, nm |-> n.name, ow |-> ow, dk |-> FALSE, v |-> CopyVals(n.val),
     kids |-> [i \in 1..Len(n.kids) |-> Branch(s, n.kids[i], s.N[n.kids[i]].own = n.kids[i])]]

\* Replaces the value of `ex`, and the name if one is given, of the i-th node in pre-order.
RECURSIVE Touch(_, _, _, _)
Touch(c, i, val, nm) ==
    LET RECURSIVE kids(_, _)
        kids(k, at) == IF k > Len(c.kids) THEN <<>>
                       ELSE <<Touch(c.kids[k], at, val, nm)>> \o kids(k + 1, at - SceneSize(c.kids[k]))
    IN IF i < 1 \/ i > SceneSize(c) THEN c
       ELSE IF i = 1 THEN [c EXCEPT !.v[1] = val, !.nm = IF nm = "" THEN @ ELSE nm]
       ELSE [c EXCEPT !.kids = kids(1, i - 1)]

\* Pre-order entries [pi, ty, nm, ow, dk, v]; `pi` is the index of the parent's entry, or 0.
RECURSIVE Flatten(_, _, _)
Flatten(c, pi, at) ==
    LET RECURSIVE kids(_, _)
        kids(k, next) == IF k > Len(c.kids) THEN <<>>
                         ELSE Flatten(c.kids[k], at, next) \o kids(k + 1, next + SceneSize(c.kids[k]))
    IN <<[pi |-> pi, ty |-> c.ty, nm |-> c.nm, ow |-> c.ow, dk |-> c.dk, v |-> c.v]>> \o kids(1, at + 1)

-----------------------------------------------------------------------------
(* Changing the tree.                                                         *)

NewNode(par, own, nm, dep, mode, e) ==
    [par |-> par, own |-> own, name |-> nm, dep |-> dep, kids |-> <<>>, mode |-> mode, ty |-> e.ty,
     ld |-> e.dk, st |-> "N", sm |-> "", sg |-> <<>>, val |-> e.v]

\* Node u, described by e, becomes the last child of p.
AddNode(s, p, u, mode, e) ==
    LET nm == UniqueName(e.nm, KidNames(s, p))
        s1 == [s EXCEPT !.N = Put([@ EXCEPT ![p].kids = Append(@, u)], u,
                                  NewNode(p, IF e.ow THEN u ELSE s.N[p].own, nm, s.N[p].dep + 1, mode, e))]
    IN Post(s1, p, "D", "Node \"" \o nm \o "\" added to the scene as the child of \"" \o s.N[p].name
                        \o "\"! Unique ID of \"#" \o ToString(u) \o "\" generated!")
RECURSIVE AddAll(_, _, _, _, _, _)
AddAll(s, p, flat, us, ms, i) ==
    IF i > Len(flat) THEN s
    ELSE AddAll(AddNode(s, IF flat[i].pi = 0 THEN p ELSE us[flat[i].pi], us[i], ms[i], flat[i]), p, flat, us, ms, i + 1)

Remove(s, top) ==
    LET gone == Ran(TopDown(s, top, TRUE))
        p    == s.N[top].par
        N1   == IF p = 0 THEN s.N ELSE [s.N EXCEPT ![p].kids = SelectSeq(@, LAMBDA k : k # top)]
        busy == {u \in gone : \E i \in 1..Len(s.stk) : s.stk[i].f = "hook" /\ s.stk[i].u = u}
    IN [s EXCEPT !.N = Without(N1, gone),
                 !.told = @ \ gone,
                 !.kept = @ \cup gone,
                 !.gone = [u \in busy |-> [ty |-> s.N[u].ty, nm |-> s.N[u].name, v |-> s.N[u].val]] @@ @]
\* A removed node is dropped when none of its hooks is running, and with the start of the next frame at the latest.
Busy(s) == {s.stk[i].u : i \in {j \in 1..Len(s.stk) : s.stk[j].f = "hook"}}
MayDrop(s, D) == s.due \subseteq D /\ D \subseteq s.due \cup (s.kept \ Busy(s))
Drop(s, D) == IF s.due = {} /\ D = {} THEN s ELSE [s EXCEPT !.kept = @ \ D, !.due = {}]

-----------------------------------------------------------------------------
(* Library code in progress.                                                  *)

Hook(u, k) == [f |-> "call", u |-> u, k |-> k, v |-> 0]
Eligible(s, m) == IF s.paused THEN m \in {"Always", "Inverse"} ELSE m \in {"Always", "Pausable"}

\* Connections of signal n still to be called by emission frame f.
Due(s, f) == {i \in f.due : s.conns[f.n][i].on}

\* One step of library code: the topmost frame does its next thing.
StepReady(s, f) ==                       \* Newly added nodes are ready, last one first.
    LET u == f.l[1]
        rest == IF Len(f.l) = 1 THEN <<>> ELSE <<[f EXCEPT !.l = Tail(@)]>>
        s1 == Pop(s)
    IN IF ~IsLive(s, u) THEN Push(s1, rest)
       ELSE IF s.N[u].ld THEN Push(s1, <<Hook(u, "loaded"), [f |-> "final", u |-> u]>> \o rest)
       ELSE Push(s1, <<Hook(u, "ready")>> \o rest)
StepFinal(s, f) ==                       \* A loaded node is an ordinary one from here on.
    LET s1 == Pop(s)
    IN IF ~IsLive(s, f.u) THEN s1
       ELSE Push([s1 EXCEPT !.N[f.u].ld = FALSE], <<Hook(f.u, "ready")>>)
StepVisit(s, f) ==                       \* A frame reaches a node.
    LET u == f.u
        m == IF s.N[u].mode = "Inherit" THEN f.m ELSE s.N[u].mode
        next == <<[f |-> "after", u |-> u, m |-> m]>>
        s1 == Pop(s)
    IN CASE s.st \in {"run", "qrun"} /\ Eligible(s, m) -> Push(s1, <<Hook(u, "process")>> \o next)
         [] s.st = "term"                              -> Push(s1, <<Hook(u, "TreeExit")>> \o next)
         [] OTHER                                      -> Push(s1, next)
StepAfter(s, f) ==                       \* Its children are visited as they are now.
    LET s1 == Pop(s)
    IN IF ~IsLive(s, f.u) \/ s.N[f.u].kids = <<>> THEN s1
       ELSE Push(s1, <<[f |-> "kids", l |-> s.N[f.u].kids, m |-> f.m]>>)
StepKids(s, f) ==
    LET s1 == Pop(s)
        rest == IF Len(f.l) = 1 THEN <<>> ELSE <<[f EXCEPT !.l = Tail(@)]>>
    IN IF s.st = "end" THEN s1
       ELSE IF IsLive(s, f.l[1]) THEN Push(s1, <<[f |-> "visit", u |-> f.l[1], m |-> f.m]>> \o rest)
       ELSE Push(s1, rest)
StatusName(s) == CASE s.st = "run"  -> IF s.paused THEN "paused" ELSE "run"
                   [] s.st = "qrun" -> IF s.paused THEN "qpaused" ELSE "qrun"
                   [] OTHER         -> s.st
StepPend(s, f) ==                        \* The frame is over.
    LET s1 == [Pop(s) EXCEPT !.st = CASE s.st = "qrun" -> "term" [] s.st = "term" -> "end" [] OTHER -> s.st]
    IN Ret(s1, "process", StatusName(s1))
Untold(s, top) == SelectSeq(TopDown(s, top, TRUE), LAMBDA u : u \notin s.told)
StepTerms(s, f) ==                       \* A removed branch is told, level by level; each node once, and also those added meanwhile.
    LET s1 == Pop(s)
        u  == f.l[1]
    IN IF f.l = <<>> THEN (IF IsLive(s, f.u) THEN (IF Untold(s, f.u) = <<>> THEN s1 ELSE Push(s1, <<[f EXCEPT !.l = Untold(s, f.u)]>>)) ELSE s1)
       ELSE LET rest == <<[f EXCEPT !.l = Tail(@)]>>
            IN IF ~IsLive(s, u) THEN Push(s1, rest)
               ELSE IF u \in s.told THEN Push(s1, rest)
               ELSE Push([s1 EXCEPT !.told = @ \cup {u}], <<Hook(u, f.k)>> \o rest)
StepUnlink(s, f) ==                      \* And then leaves the tree.
    LET s1 == IF IsLive(s, f.u) THEN Remove(Pop(s), f.u) ELSE Pop(s)
    IN IF f.isroot THEN [s1 EXCEPT !.st = "end"] ELSE s1
StepRmDone(s, f) == IF ~IsLive(s, f.u) THEN Pop(s)
                    ELSE Post(Pop(s), f.u, "D", "Removed child node \"" \o f.name \o "\" from parent node \"" \o s.N[f.u].name \o "\"!")
StepEmit(s, f) == Pop(s)                 \* Nothing is left to call.
\* Connections still to be called whose listener is gone: to call it is to use a pointer which is null, which ends the emission.
Dead(s, f) == {i \in Due(s, f) : ~IsLive(s, s.conns[f.n][i].tgt)}
EmitFails(s) == IF s.stk = <<>> THEN {} ELSE IF Top(s).f = "emit" THEN Dead(s, Top(s)) ELSE {}
EmitFail(s, i) ==
    LET f  == Top(s)
        c  == s.conns[f.n][i]
        s1 == PostIfLive(Pop([s EXCEPT !.conns[f.n][i].on = IF c.once THEN FALSE ELSE @]), c.own, "P", "IsNull")
    IN [s1 EXCEPT !.stk[1].v = "panic"]

\* Library code cannot go on by itself: user code is to run next, or has the turn.
Halted(s) ==
    IF s.stk = <<>> THEN TRUE
    ELSE IF Top(s).f \in {"call", "hook", "ret"} THEN TRUE
    ELSE IF Top(s).f = "emit" THEN Due(s, Top(s)) # {} ELSE FALSE
Step(s) ==
    LET f == Top(s) IN
    CASE f.f = "ready"  -> StepReady(s, f)
      [] f.f = "final"  -> StepFinal(s, f)
      [] f.f = "visit"  -> StepVisit(s, f)
      [] f.f = "after"  -> StepAfter(s, f)
      [] f.f = "kids"   -> StepKids(s, f)
      [] f.f = "pend"   -> StepPend(s, f)
      [] f.f = "terms"  -> StepTerms(s, f)
      [] f.f = "unlink" -> StepUnlink(s, f)
      [] f.f = "rmdone" -> StepRmDone(s, f)
      [] f.f = "emit"   -> StepEmit(s, f)
RECURSIVE Run(_)
Run(s) == IF Halted(s) THEN s ELSE Run(Step(s))

UserTurn(s) == IF s.stk = <<>> THEN TRUE ELSE Top(s).f = "hook"

\* The hooks which may be called next, as [n, k, v] with the state once user code runs in it.
HookState(s, u, k, v) == Push(Pop(s), <<[f |-> "hook", u |-> u, k |-> k, v |-> v]>>)
ListenKind(s, u) == IF s.N[u].ty = "Nc" THEN "sigr" ELSE "sig"
EmitState(s, i) ==
    LET f == Top(s)
        c == s.conns[f.n][i]
        s1 == [s EXCEPT !.stk[1].due = @ \ {i}, !.conns[f.n][i].on = IF c.once THEN FALSE ELSE @]
    IN Push(s1, <<[f |-> "hook", u |-> c.tgt, k |-> ListenKind(s, c.tgt), v |-> f.v]>>)
NextHooks(s) ==
    IF s.stk = <<>> THEN {}
    ELSE IF Top(s).f = "call" THEN {[n |-> Top(s).u, k |-> Top(s).k, v |-> 0, s |-> HookState(s, Top(s).u, Top(s).k, 0)]}
    ELSE IF Top(s).f = "emit" THEN {LET c == s.conns[Top(s).n][i]
                                    IN [n |-> c.tgt, k |-> ListenKind(s, c.tgt), v |-> Top(s).v, s |-> EmitState(s, i)] : i \in Due(s, Top(s)) \ Dead(s, Top(s))}
    ELSE {}
\* User code of the hook returns.
HookReturn(s) ==
    LET s1 == Pop(s)
    IN Run([s1 EXCEPT !.gone = Without(@, {u \in DOMAIN @ : ~\E i \in 1..Len(s1.stk) : s1.stk[i].f = "hook" /\ s1.stk[i].u = u})])

-----------------------------------------------------------------------------
(* The operations.  Each takes the state and the operation's arguments, and   *)
(* leaves library code in progress on the stack, ending with a return.        *)

EntOf(e) == [pi |-> 0, ty |-> e.ent.ty, nm |-> e.ent.nm, ow |-> FALSE, dk |-> FALSE, v |-> IF "v" \in DOMAIN e.ent THEN e.ent.v ELSE DEFVAL]

OpNew(s, e) ==                           \* The tree is created around a node or a scene.
    LET flat == IF "ent" \in DOMAIN e THEN <<EntOf(e)>> ELSE Flatten(s.scn[e.from], 0, 1)
        r    == e.us[1]
        s1   == [s EXCEPT !.verb = e.verb, !.st = "run", !.root = r,
                          !.scn = IF "from" \in DOMAIN e THEN Without(@, {e.from}) ELSE @]
        s2   == PostAs(s1, "SysLogger", "D", "System logger has initialized. Hello World!")
        s3   == PostAs([s2 EXCEPT !.N = r :> NewNode(0, r, flat[1].nm, 0, e.ms[1], flat[1])], "NodeTree", "D",
                       "Node \"" \o flat[1].nm \o "\" added to the scene as the root of the NodeTree! Unique ID of \"#"
                       \o ToString(r) \o "\" generated!")
        s4   == AddAll(s3, r, flat, e.us, e.ms, 2)
    IN Push(s4, <<[f |-> "ready", l |-> Rev(e.us)], RetF("new", "ok")>>)

OpProcess(s, e) ==                       \* One frame.
    IF s.st = "end" THEN Ret(s, "process", "end")
    ELSE Push([s EXCEPT !.N = [u \in DOMAIN @ |-> [@[u] EXCEPT !.st = "N", !.sm = ""]], !.due = @ \cup s.kept, !.kept = {}],
              <<[f |-> "visit", u |-> s.root, m |-> "Pausable"], [f |-> "pend"]>>)
OpQueue(s, e)     == Ret([s EXCEPT !.st = IF @ = "run" THEN "qrun" ELSE @], e.op, "ok")
OpTerminate(s, e) == Ret([s EXCEPT !.st = "end"], e.op, "ok")
OpPause(s, e)     == Ret([s EXCEPT !.paused = IF s.st \in {"run", "qrun"} THEN TRUE ELSE @], e.op, "ok")
OpUnpause(s, e)   == Ret([s EXCEPT !.paused = IF s.st \in {"run", "qrun"} THEN FALSE ELSE @], e.op, "ok")
OpHeader(s, e)    == Ret([s EXCEPT !.hdr = e.m], e.op, "ok")
OpFooter(s, e)    == Ret([s EXCEPT !.ftr = e.m], e.op, "ok")

OpAdd(s, e) ==                           \* A scene is added below node n.
    LET flat == Flatten(s.scn[e.from], 0, 1)
        s1   == AddAll([s EXCEPT !.scn = Without(@, {e.from})], e.n, flat, e.us, e.ms, 1)
    IN Push(s1, <<[f |-> "ready", l |-> Rev(e.us)], RetF("add", "ok")>>)
OpAddNode(s, e) ==                       \* A single node.
    Push(AddNode(s, e.n, e.us[1], e.ms[1], EntOf(e)), <<[f |-> "ready", l |-> e.us], RetF("addn", "ok")>>)
OpAddPtr(s, e) ==                        \* The low-level addition of one node.
    LET s1 == AddNode(s, e.n, e.us[1], e.ms[1], [EntOf(e) EXCEPT !.ow = e.ow])
    IN IF e.ig THEN Ret(s1, "addp", U(e.us[1]))
       ELSE Push(s1, <<[f |-> "ready", l |-> e.us], [f |-> "ret", op |-> "addp", v |-> "?live", u |-> e.us[1]]>>)
OpFree(s, e) ==
    Push(s, <<[f |-> "terms", u |-> e.n, l |-> Untold(s, e.n), k |-> "Freed"],
              [f |-> "unlink", u |-> e.n, isroot |-> s.N[e.n].par = 0], RetF("free", "ok")>>)
OpRemoveChild(s, e) ==
    LET k == KidNamed(s, e.n, e.name)
    IN IF k = 0
       THEN Ret(Post(s, e.n, "W", "Attempted to remove invalid node of name \"" \o e.name \o "\" from node \"" \o s.N[e.n].name \o "\"!"), "rmc", "false")
       ELSE Push(s, <<[f |-> "terms", u |-> k, l |-> Untold(s, k), k |-> "RemovedAsChild"],
                      [f |-> "unlink", u |-> k, isroot |-> FALSE],
                      [f |-> "rmdone", u |-> e.n, name |-> e.name], RetF("rmc", "true")>>)
OpSetName(s, e) == Ret([s EXCEPT !.N[e.n].name = UniqueName(e.name, SiblingNames(s, e.n))], "name", "ok")
OpSingleton(s, e) ==
    IF Holder(s, e.name) # 0 THEN Ret(s, e.op, "false")
    ELSE Ret([s EXCEPT !.N[e.n].sg = <<e.name>>], e.op, "true")
OpSingletonOf(s, e) == IF IsLive(s, e.x) THEN OpSingleton(s, [e EXCEPT !.n = e.x]) ELSE Ret(s, e.op, "none")
OpPost(s, e) == Ret(IF e.via = "tree" THEN PostTree(s, e.n, e.lv, e.m) ELSE Post(s, e.n, e.lv, e.m), "post", "ok")
OpMode(s, e) == Ret([s EXCEPT !.N[e.n].mode = e.m], "mode", "ok")

\* Fields.
OpFieldWrite(s, e) ==                    \* Through the mutable reference: a void field panics.
    IF s.N[e.n].val[FIDX[e.f]] = VOID THEN Ret(s, "fw", "panic")
    ELSE Ret([s EXCEPT !.N[e.n].val[FIDX[e.f]] = e.val], "fw", "ok")
OldVal(s, e) == LET v == s.N[e.n].val[FIDX[e.f]] IN IF v = VOID THEN "none" ELSE v
OpFieldValid(s, e) == Ret([s EXCEPT !.N[e.n].val[FIDX[e.f]] = e.val], "fv", OldVal(s, e))
OpFieldTake(s, e)  == Ret([s EXCEPT !.N[e.n].val[FIDX[e.f]] = VOID], "ft", OldVal(s, e))
OpFieldRead(s, e)  == Ret(s, "fr", LET v == s.N[e.n].val[FIDX[e.f]] IN IF v = VOID THEN "panic" ELSE v)
OpFieldQuery(s, e) == LET v == s.N[e.n].val[FIDX[e.f]] IN Ret(s, "fq", Bool(v = VOID) \o "," \o Bool(v # VOID))

\* Scenes.
SetScene(s, slot, c) == [s EXCEPT !.scn = Put(@, slot, c)]
OpMake(s, e)  == LET c == BuildScene(e.sc, 1) IN Ret(SetScene(s, e.to, c), "mk", SceneStr(c))
OpSaveLoad(s, e) == LET c == s.scn[e.from]
                        l == Loaded(c)
                    IN Ret(SetScene(s, e.to, l), "sl", SceneStr(c) \o "=>" \o SceneStr(l))
OpClone(s, e) == LET c == Cloned(s.scn[e.from]) IN Ret(SetScene(s, e.to, c), "cl", SceneStr(c))
OpAppend(s, e) ==
    LET c  == [s.scn[e.from] EXCEPT !.ow = e.ow]
        to == [s.scn[e.to] EXCEPT !.kids = Append(@, c)]
    IN Ret(SetScene([s EXCEPT !.scn = Without(@, {e.from})], e.to, to), "ap", SceneStr(to))
OpShow(s, e)  == Ret(s, "sc", SceneStr(s.scn[e.from]))
\* For each of the scenes, the first one with the same structural hash.
OpHashes(s, e) ==
    LET sh == [i \in 1..Len(e.scs) |-> Shape(BuildScene(e.scs[i], 1))]
    IN Ret(s, "shs", JoinStr([i \in 1..Len(sh) |-> ToString(CHOOSE j \in 1..i : sh[j] = sh[i] /\ \A k \in 1..(j - 1) : sh[k] # sh[i])], ","))
OpHash(s, e)  == Ret(s, "sh", Bool(Shape(s.scn[e.from]) = Shape(s.scn[e.to])))
OpTouch(s, e) == LET c == Touch(s.scn[e.from], e.i, e.val, e.nm) IN Ret(SetScene(s, e.from, c), "scv", SceneStr(c))
OpBranch(s, e) == LET c == Branch(s, e.n, TRUE) IN Ret(SetScene(s, e.to, c), "br", SceneStr(c))

\* A node outside of any tree: a new one, a copy of another node, one in a scene, or the one in the middle of whose hook the operation takes
\* place and which has been removed.  It takes any name, and refuses whatever needs a tree.
RECURSIVE NodeAt(_, _)
\* The i-th node of a scene.
NodeAt(c, i) ==
    LET RECURSIVE among(_, _)
        among(k, at) == IF at <= SceneSize(c.kids[k]) THEN NodeAt(c.kids[k], at) ELSE among(k + 1, at - SceneSize(c.kids[k]))
    IN IF i = 1 THEN [ty |-> c.ty, nm |-> c.nm, v |-> c.v] ELSE among(1, i - 1)
OpStray(s, e) ==
    LET n == CASE e.src = "new"   -> [ty |-> e.ty, nm |-> IF e.nm = "" THEN SHORT[e.ty] ELSE e.nm, v |-> DEFVAL]
               [] e.src = "clone" -> [ty |-> s.N[e.n].ty, nm |-> s.N[e.n].name, v |-> CopyVals(s.N[e.n].val)]
               [] e.src = "scene" -> NodeAt(s.scn[e.from], e.i)
               [] e.src = "self"  -> s.gone[e.x]
        m == IF e.w = "name" THEN [n EXCEPT !.nm = e.name] ELSE n
        s1 == IF e.w = "name" /\ e.src = "self" THEN [s EXCEPT !.gone[e.x] = m] ELSE s
    IN Ret(s1, "stray", (IF e.w \in {"facts", "name"} THEN "ok" ELSE "panic") \o ";" \o m.nm \o ":" \o m.ty \o ":0100:" \o JoinStr(m.v, ","))

\* Pointers: [own, tgt, ty], ty being "D" for the dynamic ones.
Got(s, e, own, tgt, dyn, null) ==
    IF ~IsLive(s, tgt) THEN Ret(s, "ptr", null)
    ELSE IF ~dyn /\ s.N[tgt].ty # e.ty THEN Ret(s, "ptr", "err:WrongType")
    ELSE Ret([s EXCEPT !.ptr = Put(@, e.sl, [own |-> own, tgt |-> tgt, ty |-> IF dyn THEN "D" ELSE e.ty])], "ptr", U(tgt))
OpPtr(s, e) ==
    LET n == s.N[e.n]
        child(dyn) == IF e.i >= Len(n.kids) THEN Ret(s, "ptr", "err:range:" \o ToString(e.i) \o ":" \o ToString(Len(n.kids)))
                      ELSE Got(s, e, e.n, n.kids[e.i + 1], dyn, "")
    IN CASE e.how = "thisd"   -> Got(s, e, e.n, e.n, TRUE, "")
         [] e.how = "this"    -> Got(s, e, e.n, e.n, FALSE, "")
         [] e.how = "childd"  -> child(TRUE)
         [] e.how = "child"   -> child(FALSE)
         [] e.how = "parentd" -> Got(s, e, e.n, n.par, TRUE, "err:noparent")
         [] e.how = "parent"  -> Got(s, e, e.n, n.par, FALSE, "err:noparent")
         [] e.how = "ownerd"  -> Got(s, e, e.n, n.own, TRUE, "")
         [] e.how = "owner"   -> Got(s, e, e.n, n.own, FALSE, "")
         [] e.how \in {"rootd", "rootmd"} -> Got(s, e, s.root, s.root, TRUE, "")
         [] e.how = "newd"    -> Got(s, e, e.n, e.x, TRUE, "err:IsNull")
         [] e.how = "new"     -> Got(s, e, e.n, e.x, FALSE, "err:IsNull")
         [] e.how = "pathd"   -> Got(s, e, e.n, LookUp(s, e.p, e.g, e.n), TRUE, "err:path")
         [] e.how = "path"    -> Got(s, e, e.n, LookUp(s, e.p, e.g, e.n), FALSE, "err:path")

Failed(s, p, msg) == Ret(PostIfLive(s, p.own, "P", msg), "use", "panic")
OpUse(s, e) ==
    LET p    == s.ptr[e.sl]
        ok   == IsLive(s, p.tgt)
        R(v) == Ret(s, "use", v)
        keep(ty) == Ret([s EXCEPT !.ptr = Put(@, e.to, [p EXCEPT !.ty = ty])], "use", U(p.tgt))
        trait == ok /\ e.ty \in EXTENDS_OF[s.N[p.tgt].ty]
        noCast == IF ok THEN "err:DynCastFailed" ELSE "err:AttemptedDynCastOnNull"
        castRet == IF e.ty = "Marker" THEN "ok" ELSE U(p.tgt)
    IN CASE e.w = "valid" -> R(Bool(ok))
         [] e.w = "null"  -> R(Bool(~ok))
         [] e.w \in {"get", "deref", "derefm", "getm"} ->
                IF ok THEN R(U(p.tgt)) ELSE Failed(s, p, IF p.ty = "D" THEN "A non-existent node was referenced" ELSE "IsNull")
         [] e.w \in {"try", "trym"} -> R(IF ok THEN U(p.tgt) ELSE "err:IsNull")
         [] e.w = "fname" -> R(IF ok THEN s.N[p.tgt].name ELSE "err:IsNull")
         [] e.w = "todyn" -> IF ok THEN keep("D") ELSE Failed(s, p, "AttemptedCastToDynOnNull")
         [] e.w = "trytodyn" -> IF ok THEN keep("D") ELSE R("err:IsNull")
         [] e.w = "to"    -> IF ~ok THEN R("err:IsNull") ELSE IF s.N[p.tgt].ty # e.ty THEN R("err:WrongType") ELSE keep(e.ty)
         [] e.w = "is"    -> R(Bool(ok /\ s.N[p.tgt].ty = e.ty))
         [] e.w = "isof"  -> R(Bool(trait))
         [] e.w = "cast"  -> R(IF trait THEN castRet ELSE noCast)
         [] e.w = "castm" ->
                IF ~trait THEN R(noCast)
                ELSE Ret(IF e.ty = "Greet" THEN [s EXCEPT !.N[p.tgt].val[5] = e.val] ELSE s, "use", castRet)

\* The panicking accessors of results and options, on the i-th child of a node.
OpUnwrap(s, e) ==
    LET n    == s.N[e.n]
        ok   == e.i < Len(n.kids)
        err  == "IndexOutOfRange { index: " \o ToString(e.i) \o ", children_count: " \o ToString(Len(n.kids)) \o " }"
        errc == "err:range:" \o ToString(e.i) \o ":" \o ToString(Len(n.kids))
        val  == IF ok THEN U(n.kids[e.i + 1]) ELSE ""
        fail(msg) == Ret(Post(s, e.n, "P", msg), "unw", "panic")
        good(v)   == Ret(s, "unw", v)
        quoted    == "\"" \o val \o "\""
    IN CASE e.w = "unwrap"     -> IF ok THEN good(val) ELSE fail("called `TreeResult::unwrap()` on an `Err` value: " \o err)
         [] e.w = "expect"     -> IF ok THEN good(val) ELSE fail("Expected a child: " \o err)
         [] e.w = "opt_unwrap" -> IF ok THEN good(val) ELSE fail("called `TreeOption::unwrap()` on a `None` value")
         [] e.w = "opt_expect" -> IF ok THEN good(val) ELSE fail("Expected a child")
         [] e.w = "unwrap_err" -> IF ~ok THEN good(errc) ELSE fail("called `TreeResult::unwrap_err()` on an `Ok` value: " \o quoted)
         [] e.w = "expect_err" -> IF ~ok THEN good(errc) ELSE fail("Expected no child: " \o quoted)
         [] e.w = "err_unwrap" -> IF ~ok THEN good(errc) ELSE fail("called `TreeOption::unwrap()` on a `None` value")

\* Queries.
OrUid(u) == IF u = 0 THEN "none" ELSE U(u)
OpFind(s, e) == Ret(s, "grid", OrUid(LookUp(s, e.p, e.g, e.x)))
OpRaw(s, e)  == Ret(s, "raw", OrUid(Resolve(s, e.n, ParsePath(e.p).segs)))
OpAbs(s, e)  == Ret(s, "abs", "/" \o PathOf(s, e.n) \o "|true|" \o U(e.n))
OpTopDown(s, e) == Ret(s, "td", JoinStr(Map(TopDown(s, e.n, e.self), U), ","))
OpNodes(s, e) ==
    LET dup == \E i, j \in 1..Len(e.us) : i < j /\ e.us[i] = e.us[j]
    IN IF e.w \in {"getm", "validm"} /\ dup THEN Ret(s, "nodes", "panic")
       ELSE IF e.w \in {"valid", "validm"} THEN Ret(s, "nodes", JoinStr(Map(SelectSeq(e.us, LAMBDA u : IsLive(s, u)), U), ","))
       ELSE Ret(s, "nodes", JoinStr(Map(e.us, LAMBDA u : IF IsLive(s, u) THEN U(u) ELSE "_"), ","))

\* Signals: each node has one.  Connections are numbered by the order in which they were made.
ConnsOf(s, n) == IF n \in DOMAIN s.conns THEN s.conns[n] ELSE <<>>
OpConnect(s, e) ==
    LET cs == Append(ConnsOf(s, e.n), [tgt |-> e.x, once |-> e.once, on |-> TRUE, id |-> "", own |-> IF "by" \in DOMAIN e THEN (IF e.by = "n" THEN e.n ELSE e.x) ELSE e.x])
    IN Push([s EXCEPT !.conns = Put(@, e.n, cs)], <<[f |-> "ret", op |-> "conn", v |-> "?conn", n |-> e.n]>>)
OpDisconnect(s, e) ==
    LET cs == ConnsOf(s, e.n)
    IN IF e.id > Len(cs) \/ (e.id <= Len(cs) /\ ~cs[e.id].on) THEN Ret(s, "disc", "false")
       ELSE Ret([s EXCEPT !.conns[e.n][e.id].on = FALSE], "disc", "true")
OpEmit(s, e) ==
    LET cs == ConnsOf(s, e.n)
    IN Push(s, <<[f |-> "emit", n |-> e.n, v |-> e.val, due |-> {i \in 1..Len(cs) : cs[i].on}], RetF("emit", "ok")>>)

Apply(s, e) ==
    CASE e.op = "new"       -> OpNew(s, e)
      [] e.op = "process"   -> OpProcess(s, e)
      [] e.op = "queue"     -> OpQueue(s, e)
      [] e.op = "terminate" -> OpTerminate(s, e)
      [] e.op = "pause"     -> OpPause(s, e)
      [] e.op = "unpause"   -> OpUnpause(s, e)
      [] e.op = "hdr"       -> OpHeader(s, e)
      [] e.op = "ftr"       -> OpFooter(s, e)
      [] e.op = "add"       -> OpAdd(s, e)
      [] e.op = "addn"      -> OpAddNode(s, e)
      [] e.op = "addp"      -> OpAddPtr(s, e)
      [] e.op = "free"      -> OpFree(s, e)
      [] e.op = "rmc"       -> OpRemoveChild(s, e)
      [] e.op = "name"      -> OpSetName(s, e)
      [] e.op = "sing"      -> OpSingleton(s, e)
      [] e.op = "singx"     -> OpSingletonOf(s, e)
      [] e.op = "post"      -> OpPost(s, e)
      [] e.op = "mode"      -> OpMode(s, e)
      [] e.op = "fw"        -> OpFieldWrite(s, e)
      [] e.op = "fv"        -> OpFieldValid(s, e)
      [] e.op = "ft"        -> OpFieldTake(s, e)
      [] e.op = "fr"        -> OpFieldRead(s, e)
      [] e.op = "fq"        -> OpFieldQuery(s, e)
      [] e.op = "mk"        -> OpMake(s, e)
      [] e.op = "sl"        -> OpSaveLoad(s, e)
      [] e.op = "cl"        -> OpClone(s, e)
      [] e.op = "ap"        -> OpAppend(s, e)
      [] e.op = "sc"        -> OpShow(s, e)
      [] e.op = "sh"        -> OpHash(s, e)
      [] e.op = "shs"       -> OpHashes(s, e)
      [] e.op = "scv"       -> OpTouch(s, e)
      [] e.op = "br"        -> OpBranch(s, e)
      [] e.op = "stray"     -> OpStray(s, e)
      [] e.op = "ptr"       -> OpPtr(s, e)
      [] e.op = "use"       -> OpUse(s, e)
      [] e.op = "unw"       -> OpUnwrap(s, e)
      [] e.op = "grid"      -> OpFind(s, e)
      [] e.op = "raw"       -> OpRaw(s, e)
      [] e.op = "abs"       -> OpAbs(s, e)
      [] e.op = "td"        -> OpTopDown(s, e)
      [] e.op = "nodes"     -> OpNodes(s, e)
      [] e.op = "conn"      -> OpConnect(s, e)
      [] e.op = "disc"      -> OpDisconnect(s, e)
      [] e.op = "emit"      -> OpEmit(s, e)
\* User code calls an operation.
Call(s, e) == Run(Apply(s, e))

-----------------------------------------------------------------------------
(* What must hold in every state.                                             *)

\* P01
Rooted(s) ==
    s.N # <<>> =>
    /\ s.root \in Live(s) /\ s.N[s.root].par = 0 /\ s.N[s.root].dep = 0
    /\ \A u \in Live(s) :
          /\ (u # s.root => s.N[u].par \in Live(s) /\ s.N[u].dep = s.N[s.N[u].par].dep + 1)
          \* The children lists hold each node but the root, each once, and below its parent.
          /\ Cardinality(Ran(s.N[u].kids)) = Len(s.N[u].kids)
          /\ \A k \in Ran(s.N[u].kids) : k \in Live(s) /\ s.N[k].par = u
    /\ UNION {Ran(s.N[u].kids) : u \in Live(s)} = Live(s) \ {s.root}
\* Which implies this (said apart, as it takes long on deep trees).
Reached(s) ==
    s.N # <<>> => /\ Ran(TopDown(s, s.root, TRUE)) = Live(s)
                  /\ Len(TopDown(s, s.root, TRUE)) = Cardinality(Live(s))
\* P02
NamesDistinct(s) == \A u \in Live(s) : Cardinality(KidNames(s, u)) = Len(s.N[u].kids)
\* P03
OwnersOk(s) ==
    /\ s.N # <<>> => s.N[s.root].own = s.root
    /\ \A u \in Live(s) : s.N[u].own \in Live(s)
                          /\ s.N[s.N[u].own].own = s.N[u].own
                          /\ (s.N[u].own # u => s.N[s.N[u].par].own = s.N[u].own)
\* Which implies this (said apart, as it takes long on deep trees).
OwnersAbove(s) == \A u \in Live(s) : IsAncestorOrSelf(s, s.N[u].own, u)
\* P08: hooks run on nodes of the tree only, as long as nobody has removed them meanwhile.
HookLive(s) == s.stk # <<>> /\ Top(s).f = "call" => IsLive(s, Top(s).u)
\* P10
PathsResolve(s) == \A u \in Live(s) : LookUp(s, "/" \o PathOf(s, u), "np", 0) = u
PathsPrint(s)   == \A u \in Live(s) : LET p == "/" \o PathOf(s, u) IN PrintPath(ParsePath(p)) = p
\* P11
SingletonsOk(s) == LET holders == {u \in Live(s) : s.N[u].sg # <<>>} IN \A u, w \in holders : s.N[u].sg = s.N[w].sg => u = w
\* P13, P14
StatusOk(s) == \A u \in Live(s) : s.N[u].st = "N" => s.N[u].sm = ""
=============================================================================
