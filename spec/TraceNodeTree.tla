---------------------------- MODULE TraceNodeTree ----------------------------
(* Validates recorded runs of the real code against NodeTree.                 *)
(* The file holds many runs, one event per line; a run which is not a         *)
(* behaviour of NodeTree is reported (once) and the next one is taken up.     *)
EXTENDS NodeTree, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,      \* position in the trace
          s,      \* the specification's state
          a       \* bookkeeping of this run: see Aux0
vars == <<l, s, a>>

Aux0 == [skip |-> FALSE, id |-> "", dump |-> [N |-> <<>>, S |-> <<>>],
         rid |-> <<>>,                       \* node -> ID, once known
         pc |-> 0, ph |-> 0, lc |-> 0, lh |-> 0, wait |-> FALSE,  \* times of this and the last frame
         db |-> "",                          \* delta of this frame
         okN |-> <<>>, same |-> FALSE]       \* the nodes that agreed with the last dump; whether the last event left the nodes alone

Get(e, k, dflt) == IF k \in DOMAIN e THEN e[k] ELSE dflt

\* The part of a dumped node that must equal the specification's.
Flags(st, u) ==
    LET n == st.N[u] IN
    (IF n.par = 0 THEN "1" ELSE "0") \o (IF n.own = u THEN "1" ELSE "0") \o "10" \o (IF n.kids = <<>> THEN "1" ELSE "0") \o "1"
DumpDiff(st, ax, d) ==
    LET us == {d.N[i].u : i \in 1..Len(d.N)}
        one(r) ==
            LET n == st.N[r.u] IN
            {x \in { <<"par", r.p # n.par>>, <<"own", r.o # n.own>>, <<"name", r.n # n.name>>, <<"dep", r.d # n.dep>>,
                     <<"kids", r.c # n.kids>>, <<"status", r.s # n.st \/ r.sm # n.sm>>, <<"loaded", r.l # n.ld>>,
                     <<"sing", r.g # n.sg>>, <<"flags", r.f # Flags(st, r.u)>>, <<"type", r.t # n.ty>>,
                     <<"mode", r.m # n.mode>>, <<"val", r.v # n.val>>,
                     <<"rid", \/ r.k # r.r
                              \/ (r.u = st.root /\ r.k # "0")
                              \/ (r.u \in DOMAIN ax.rid /\ ax.rid[r.u] # r.k)>> } : x[2]}
        \* Whether a node and what is shown of it are as they were when they agreed.
        seen(i) == i <= Len(ax.dump.N) /\ ax.dump.N[i] = d.N[i] /\ d.N[i].u \in DOMAIN ax.okN /\ ax.okN[d.N[i].u] = st.N[d.N[i].u]
        \* The IDs of nodes not seen before, which no node may have had.
        fresh == {d.N[i].k : i \in {j \in 1..Len(d.N) : d.N[j].u \notin DOMAIN ax.rid}}
        names == {[n |-> st.N[u].sg[1], u |-> u] : u \in {w \in Live(st) : st.N[w].sg # <<>>}}
    IN  (IF us # Live(st) \/ Len(d.N) # Cardinality(us) THEN {"nodes"} ELSE {})
        \cup UNION {{x[1] : x \in one(d.N[i])} : i \in {j \in 1..Len(d.N) : d.N[j].u \in Live(st) /\ ~seen(j)}}
        \cup (IF Cardinality({d.N[i].k : i \in 1..Len(d.N)}) # Len(d.N) THEN {"rid"} ELSE {})
        \cup (IF fresh # {} /\ fresh \cap {ax.rid[w] : w \in DOMAIN ax.rid} # {} THEN {"rid"} ELSE {})
        \cup (IF {d.S[i] : i \in 1..Len(d.S)} # names THEN {"lookup"} ELSE {})
DumpAux(ax, d) ==
    LET new == {i \in 1..Len(d.N) : d.N[i].u \notin DOMAIN ax.rid}
    IN IF new = {} THEN ax
       ELSE [ax EXCEPT !.rid = [u \in DOMAIN @ \cup {d.N[i].u : i \in new} |->
                                   IF u \in DOMAIN @ THEN @[u] ELSE d.N[CHOOSE i \in new : d.N[i].u = u].k]]

\* Whether the delta given to a process hook is the time since the last frame.
Tol(dl) == 5 + dl \div 50000
DeltaDiff(ax, e) ==
    IF e.k # "process" THEN {}
    ELSE (IF ax.db # "" /\ ax.db # e.db THEN {"delta"} ELSE {})
         \cup (IF \/ e.dl > ax.ph - ax.lc + Tol(e.dl)
                  \/ e.dl < ax.pc - ax.lh - Tol(e.dl) THEN {"delta"} ELSE {})

\* What the event shows besides what it says: [diff, ax].
Observed(st, ax, e) ==
    LET d   == IF "d" \in DOMAIN e THEN e.d ELSE ax.dump
        ax1 == IF ax.wait THEN [ax EXCEPT !.wait = FALSE, !.ph = e.t] ELSE ax
        lg  == Get(e, "lg", <<>>)        \* as lines; a message may have several
        log == IF lg = st.out THEN {} ELSE IF JoinStr(lg, "\n") = JoinStr(st.out, "\n") THEN {} ELSE {"log"}
        hst == IF Get(e, "uaf", FALSE) THEN {"uaf"} ELSE {}
        dr  == Get(e, "dr", <<>>)
        drp == IF Cardinality(Ran(dr)) = Len(dr) /\ MayDrop(st, Ran(dr)) THEN {} ELSE {"drop"}
        \* Nothing has changed since they agreed.
        agree == "d" \notin DOMAIN e /\ st.N = ax.okN
        others == log \cup hst \cup drp
    IN IF agree THEN [diff |-> others, ax |-> ax1]
       ELSE [diff |-> DumpDiff(st, ax1, d) \cup others,
             ax   |-> DumpAux([ax1 EXCEPT !.dump = d, !.okN = st.N], d)]

RetOk(st, f, v) ==
    CASE f.v = "?live" -> v = IF IsLive(st, f.u) THEN U(f.u) ELSE "gone"
      [] f.v = "?conn" -> Len(v) > 1 /\ SubSeq(v, 1, 1) = "c" /\ \A i \in 1..Len(st.conns[f.n]) : st.conns[f.n][i].id # v
      [] OTHER         -> v = f.v
RetState(st, f, v) ==
    IF f.v = "?conn" THEN [st EXCEPT !.conns[f.n][Len(st.conns[f.n])].id = v] ELSE st

\* The operation which is under way, for the report.
RECURSIVE OpUnderWay(_)
OpUnderWay(q) == IF q = <<>> THEN "" ELSE IF Head(q).f = "ret" THEN Head(q).op
                 ELSE IF Head(q).f = "pend" THEN "process" ELSE OpUnderWay(Tail(q))
HookUnderWay(q) == LET RECURSIVE go(_)
                       go(r) == IF r = <<>> THEN "" ELSE IF Head(r).f = "hook" THEN Head(r).k ELSE go(Tail(r))
                   IN go(q)
Expected(st) ==
    IF UserTurn(st) THEN (IF st.stk = <<>> THEN "call" ELSE "call or hret of " \o Top(st).k \o " on " \o U(Top(st).u))
    ELSE IF Top(st).f = "ret" THEN "ret " \o Top(st).v
    ELSE ToString({<<h.k, h.n, h.v>> : h \in NextHooks(st)})

\* The event e in state st: [ok, s, ax, diff].
Consume(st0, ax0, e) ==
    LET no == IF e.e = "ret" THEN EmitFails(st0) ELSE {}
        st1 == IF no = {} THEN st0 ELSE EmitFail(st0, CHOOSE i \in no : TRUE)
        ob == Observed(st1, ax0, e)
        st == Drop(st1, Ran(Get(e, "dr", <<>>)))
        ax == ob.ax
        res(ok, st2, ax2, extra) == [ok |-> ok /\ ob.diff \cup extra = {}, s |-> st2, ax |-> ax2, diff |-> ob.diff \cup extra]
        fail(what) == res(FALSE, st, ax, {what})
        clean == [st EXCEPT !.out = <<>>]
    IN CASE e.e = "call" ->
              IF ~UserTurn(st) THEN fail("turn")
              ELSE LET ax2 == IF e.op = "process" /\ st.st # "end"
                              THEN [ax EXCEPT !.lc = ax.pc, !.lh = ax.ph, !.pc = e.t, !.ph = e.t, !.wait = TRUE, !.db = ""]
                              ELSE IF e.op = "new" THEN [ax EXCEPT !.pc = e.t, !.ph = e.t, !.wait = TRUE] ELSE ax
                   IN IF ob.diff # {} THEN res(FALSE, st, ax, {}) ELSE res(TRUE, Call(clean, e), ax2, {})
         [] e.e = "hook" ->
              LET hs == {h \in NextHooks(st) : h.n = e.n /\ h.k = e.k /\ h.v = Get(e, "v", 0)}
              IN IF hs = {} THEN fail("hook")
                 ELSE LET dd == DeltaDiff(ax, e)
                      IN res(TRUE, [(CHOOSE h \in hs : TRUE).s EXCEPT !.out = <<>>],
                             IF e.k = "process" THEN [ax EXCEPT !.db = e.db] ELSE ax, dd)
         [] e.e = "hret" ->
              IF st.stk = <<>> \/ Top(st).f # "hook" THEN fail("hret") ELSE res(TRUE, HookReturn(clean), ax, {})
         [] e.e = "ret" ->
              IF st.stk = <<>> \/ Top(st).f # "ret" THEN fail("hook")
              ELSE IF ~RetOk(st, Top(st), e.v) THEN fail("ret")
              ELSE res(TRUE, Run(Pop(RetState(clean, Top(st), e.v))), ax, {})

Rejected(r, e) ==
    PrintT("REJECT " \o ToJson([id |-> a.id, line |-> l, diff |-> r.diff, event |-> e.e,
        op |-> IF e.e = "call" THEN e.op ELSE OpUnderWay(s.stk), hook |-> Get(e, "k", HookUnderWay(s.stk)),
        want |-> Expected(s), got |-> ToString([x \in DOMAIN e \ {"d", "lg"} |-> e[x]]),
        log |-> IF "log" \in r.diff THEN [want |-> s.out, got |-> Get(e, "lg", <<>>)] ELSE <<>>]))

Init == l = 1 /\ s = Empty /\ a = [Aux0 EXCEPT !.skip = TRUE]
Begin == /\ Trace[l].e = "begin"
         /\ s' = Empty
         /\ a' = [Aux0 EXCEPT !.id = Trace[l].id]
Skip  == /\ Trace[l].e # "begin" /\ a.skip
         /\ UNCHANGED <<s, a>>
Event == /\ Trace[l].e # "begin" /\ ~a.skip
         /\ LET r == Consume(s, a, Trace[l])
            IN IF r.ok THEN s' = r.s /\ a' = [r.ax EXCEPT !.same = r.s.N = s.N]
               ELSE Rejected(r, Trace[l]) /\ a' = [a EXCEPT !.skip = TRUE] /\ s' = Empty
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Begin \/ Skip \/ Event)
Spec == Init /\ [][Next]_vars

\* Everything that must hold of the specification's states holds in those reached here too.
Inv == /\ a.same \/ (Rooted(s) /\ NamesDistinct(s) /\ OwnersOk(s) /\ SingletonsOk(s) /\ StatusOk(s))
       /\ HookLive(s)
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
View == l
=============================================================================
