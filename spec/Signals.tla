------------------------------- MODULE Signals -------------------------------
(* Signals on their own, with callbacks that connect, disconnect and emit.     *)
(* State: `sg` the signals, each [c |-> its connections in the order made,     *)
(* ever |-> the IDs it ever gave]; `stk` the emissions and callbacks under     *)
(* way, innermost first.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

LOCAL NewSig == [c |-> <<>>, ever |-> {}]
SigStart == [sg |-> <<NewSig>>, stk |-> <<>>]
LOCAL Tags(c) == {c[i].tag : i \in 1..Len(c)}
LOCAL Where(c, tag) == CHOOSE i \in 1..Len(c) : c[i].tag = tag
LOCAL Without(c, i) == SubSeq(c, 1, i - 1) \o SubSeq(c, i + 1, Len(c))

\* The user acts from outside, or from within a callback.
SigUserTurn(s) == IF s.stk = <<>> THEN TRUE ELSE Head(s.stk).f = "cb"
\* The connections the innermost emission still has to call.
SigDue(s) == IF s.stk = <<>> THEN {} ELSE IF Head(s.stk).f # "emit" THEN {}
             ELSE Head(s.stk).pend \cap Tags(s.sg[Head(s.stk).s].c)

LOCAL One(got, s) == {[got |-> got, s |-> s]}
SigUser(s, e, seen) ==
    LET g == s.sg[e.s]
    IN CASE e.op = "conn" -> IF seen \in g.ever THEN {}
                             ELSE One(seen, [s EXCEPT !.sg[e.s] = [c |-> Append(g.c, [tag |-> e.tag, id |-> seen, once |-> e.once]),
                                                                   ever |-> g.ever \cup {seen}]])
         [] e.op = "disc" -> LET k == {i \in 1..Len(g.c) : g.c[i].id = e.id}
                             IN IF k = {} THEN One(FALSE, s)
                                ELSE One(TRUE, [s EXCEPT !.sg[e.s].c = Without(@, CHOOSE i \in k : TRUE)])
         [] e.op = "emit" -> One("-", [s EXCEPT !.stk = <<[f |-> "emit", s |-> e.s, v |-> e.v, pend |-> Tags(g.c)]>> \o @])
         [] e.op \in {"new", "clone"} -> One("-", [s EXCEPT !.sg = Append(@, NewSig)])
SigStep(s, e, seen) ==
    CASE e.op = "cb" ->
           IF e.tag \notin SigDue(s) THEN {}
           ELSE LET fr == Head(s.stk)
                    c  == s.sg[fr.s].c
                    i  == Where(c, e.tag)
                IN IF e.v # fr.v THEN {}
                   ELSE One("-", [sg  |-> IF c[i].once THEN [s.sg EXCEPT ![fr.s].c = Without(c, i)] ELSE s.sg,
                                  stk |-> <<[f |-> "cb", tag |-> e.tag], [fr EXCEPT !.pend = @ \ {e.tag}]>> \o Tail(s.stk)])
      [] e.op = "cbret" -> IF s.stk = <<>> THEN {} ELSE IF Head(s.stk).f # "cb" THEN {} ELSE One("-", [s EXCEPT !.stk = Tail(@)])
      [] e.op = "done"  -> IF s.stk = <<>> THEN {} ELSE IF Head(s.stk).f # "emit" \/ SigDue(s) # {} THEN {} ELSE One("-", [s EXCEPT !.stk = Tail(@)])
      [] e.op = "end"   -> IF s.stk # <<>> THEN {} ELSE One("-", s)
      [] OTHER          -> IF ~SigUserTurn(s) THEN {} ELSE SigUser(s, e, seen)

\* What must hold of every step.
SigOk(s, e, r) ==
    /\ \A k \in 1..Len(r.s.sg) : Cardinality(Tags(r.s.sg[k].c)) = Len(r.s.sg[k].c)
    /\ \A k \in 1..Len(r.s.sg) : \A i, j \in 1..Len(r.s.sg[k].c) : i # j => r.s.sg[k].c[i].id # r.s.sg[k].c[j].id
    /\ e.op \in {"cb", "done", "cbret", "emit"} => \A k \in 1..Len(s.sg) : Len(r.s.sg[k].c) <= Len(s.sg[k].c)
=============================================================================
