---------------------------- MODULE TraceObjects ----------------------------
(* Validates recorded runs of real objects against their specifications.       *)
EXTENDS Objects, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, a
vars == <<l, s, a>>

Verdict(e) ==
    LET all  == ObjOutcomes(a.kind, s, e)
        got  == {r \in all : IF "got" \in DOMAIN e THEN Same(r.got, e.got) ELSE TRUE}
        seen == {r \in got : ObjSees(a.kind, r, e)}
    IN [all |-> all, got |-> got, seen |-> seen]
Rejected(v, e) ==
    PrintT("REJECT " \o ToJson([id |-> a.id, line |-> l, diff |-> IF v.all = {} THEN <<"turn">> ELSE IF v.got = {} THEN <<"ret">> ELSE <<"effect">>,
        event |-> "op", op |-> e.op, hook |-> "", kind |-> a.kind, want |-> ToString(IF v.got = {} THEN v.all ELSE v.got) \o " in " \o ToString(s),
        got |-> ToString(e), log |-> <<>>]))

Init == l = 1 /\ s = 0 /\ a = [skip |-> TRUE, id |-> "", kind |-> ""]
Begin == /\ Trace[l].e = "begin"
         /\ a' = [skip |-> FALSE, id |-> Trace[l].id, kind |-> Trace[l].kind]
         /\ s' = ObjStart(Trace[l])
Skip  == Trace[l].e # "begin" /\ a.skip /\ UNCHANGED <<s, a>>
Event == /\ Trace[l].e # "begin" /\ ~a.skip
         /\ LET v == Verdict(Trace[l])
            IN IF v.seen # {} THEN \E r \in v.seen : s' = r.s /\ UNCHANGED a
               ELSE Rejected(v, Trace[l]) /\ a' = [a EXCEPT !.skip = TRUE] /\ UNCHANGED s
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Begin \/ Skip \/ Event)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
View == l
=============================================================================
