------------------------------- MODULE MCTwins -------------------------------
(* Two trees in one process: everything user code may do with either of them, *)
(* in turns and from inside each other's hooks.  Each is a NodeTree of its    *)
(* own; the scripts are executed by the real code, where each tree is         *)
(* recorded apart and must be a behaviour of NodeTree by itself.              *)
EXTENDS NodeTree, Json
CONSTANTS OPS, MAXOPS, MAXNEST, EMIT

VARIABLES s,   \* the states of the trees
          b,   \* the trees with an operation under way, the innermost first
          n,   \* operations left
          nu,  \* next new node of each
          h    \* the script so far
vars == <<s, b, n, nu, h>>
T == {1, 2}

PairOf == <<[pi |-> 0, ty |-> "Na", nm |-> "A", ow |-> TRUE], [pi |-> 1, ty |-> "Nb", nm |-> "B", ow |-> FALSE]>>
Prep(k) == [op |-> "mk", to |-> 1, sc |-> PairOf]
New(k)  == [op |-> "new", verb |-> IF k = 1 THEN "All" ELSE "OnlyPanics", kind |-> IF k = 1 THEN "simple" ELSE "my",
            from |-> 1, us |-> <<1, 2>>, ms |-> <<"Inherit", "Inherit">>]
Opt(o, set) == IF o \in OPS THEN set ELSE {}
Nest == Len(SelectSeq(s[1].stk, LAMBDA f : f.f = "hook")) + Len(SelectSeq(s[2].stk, LAMBDA f : f.f = "hook"))
Calls(k) ==
    IF s[k].st = "none" THEN {New(k)}
    ELSE (IF s[k].stk = <<>> THEN Opt("process", {[op |-> "process"]}) ELSE {})
         \cup Opt("queue", {[op |-> "queue"]}) \cup Opt("terminate", {[op |-> "terminate"]}) \cup Opt("pause", {[op |-> "pause"]})
         \cup UNION {Opt("free", {[op |-> "free", n |-> u]})
                     \cup Opt("addn", {[op |-> "addn", n |-> u, ent |-> [ty |-> "Nc", nm |-> "B"], us |-> <<nu[k]>>, ms |-> <<"Inherit">>] : x \in IF nu[k] > 4 THEN {} ELSE {1}})
                     \cup Opt("sing", {[op |-> "sing", n |-> u, name |-> "S", via |-> "node"]})
                     \cup Opt("name", {[op |-> "name", n |-> u, name |-> "A"]})
                     \cup Opt("conn", {[op |-> "conn", n |-> u, x |-> s[k].root, once |-> FALSE, via |-> "macro"] :
                                         x \in IF ConnsOf(s[k], u) # <<>> \/ ~IsLive(s[k], s[k].root) THEN {} ELSE {1}})
                     \cup Opt("emit", {[op |-> "emit", n |-> u, val |-> 7] :
                                         x \in IF \A i \in 1..Len(ConnsOf(s[k], u)) : IsLive(s[k], ConnsOf(s[k], u)[i].tgt) THEN {1} ELSE {}})
                     \cup Opt("post", {[op |-> "post", n |-> u, lv |-> "W", m |-> "mW", via |-> "node"]}) : u \in Live(s[k])}
Listening(k) == \E i \in 1..Len(s[k].stk) : s[k].stk[i].f = "hook" /\ s[k].stk[i].k \in {"sig", "sigr"}
Safe(k, c) == Listening(k) => c.op \notin {"free", "addn", "terminate"}

Marked(k, c) == c @@ [tr |-> k]
Started(st) == LET RECURSIVE go(_)
                   go(x) == IF x.stk # <<>> /\ Top(x).f = "ret" THEN go(Run(Pop(x))) ELSE x
               IN go(Call(st, Prep(1)))
Init == /\ s = [k \in T |-> [Started(Empty) EXCEPT !.out = <<>>]]
        /\ b = <<>> /\ n = MAXOPS /\ nu = [k \in T |-> 3]
        /\ h = <<Marked(1, Prep(1)), Marked(2, Prep(2))>>
Turn(k) == IF b = <<>> THEN TRUE ELSE UserTurn(s[b[1]]) /\ (k = b[1] \/ s[k].stk = <<>>)
CallOp == /\ n > 0 /\ Nest <= MAXNEST
          /\ \E k \in T : /\ Turn(k)
                          /\ \E c \in Calls(k) :
                               /\ Safe(k, c)
                               /\ s' = [s EXCEPT ![k] = [Call(s[k], c) EXCEPT !.out = <<>>]]
                               /\ b' = IF s[k].stk = <<>> THEN <<k>> \o b ELSE b
                               /\ nu' = IF c.op = "addn" THEN [nu EXCEPT ![k] = @ + 1] ELSE nu
                               /\ h' = Append(h, Marked(k, c))
          /\ n' = n - 1
Clear(st) == Drop([st EXCEPT !.out = <<>>], st.due)
EnterHook == /\ b # <<>>
             /\ ~UserTurn(s[b[1]])
             /\ \E x \in NextHooks(s[b[1]]) : s' = [s EXCEPT ![b[1]] = Clear(x.s)]
             /\ UNCHANGED <<b, n, nu, h>>
LeaveHook == /\ b # <<>>
             /\ s[b[1]].stk # <<>> /\ Top(s[b[1]]).f = "hook"
             /\ s' = [s EXCEPT ![b[1]] = Clear(HookReturn(@))]
             /\ h' = Append(h, [ret |-> 1, tr |-> b[1]])
             /\ UNCHANGED <<b, n, nu>>
Return == /\ b # <<>>
          /\ Top(s[b[1]]).f = "ret"
          /\ LET st == Clear(Run(Pop(s[b[1]])))
             IN s' = [s EXCEPT ![b[1]] = st] /\ b' = IF st.stk = <<>> THEN Tail(b) ELSE b
          /\ UNCHANGED <<n, nu, h>>
Next == CallOp \/ EnterHook \/ LeaveHook \/ Return
Spec == Init /\ [][Next]_vars
View == <<s, b, n, nu, IF h = <<>> THEN 0 ELSE h[Len(h)]>>

P28_Sound == \A k \in T : s[k].st = "none" \/ (Rooted(s[k]) /\ NamesDistinct(s[k]) /\ OwnersOk(s[k]) /\ SingletonsOk(s[k]) /\ HookLive(s[k]))
P28_Alone == [][\E k \in T : \A j \in T \ {k} : s'[j] = s[j]]_vars
\* A tree is what its own part of the script makes of it, without the other's.
Own(k) == SelectSeq(h, LAMBDA x : x.tr = k)
RECURSIVE Play(_, _)
Play(st, q) ==
    IF ~UserTurn(st) THEN (IF Top(st).f = "ret" THEN Play(Clear(Run(Pop(st))), q)
                           ELSE LET S == NextHooks(st) IN Play(Clear((CHOOSE x \in S : TRUE).s), q))
    ELSE IF q = <<>> THEN st
    ELSE IF "ret" \in DOMAIN Head(q) THEN Play(Clear(HookReturn(st)), Tail(q))
    ELSE Play([Call(st, Head(q)) EXCEPT !.out = <<>>], Tail(q))
P28_Own == \A k \in T : UserTurn(s[k]) => Play(Empty, Own(k)) = s[k]
Script == (EMIT /\ b = <<>> /\ n = 0) => PrintT("SCRIPT " \o ToJson(h))
=============================================================================
