------------------------------ MODULE RidHolder ------------------------------
(* ID holders: maps from IDs to items whose IDs are never used again.          *)
(* State: a sequence of holders, each a function `m` from the IDs it holds to  *)
(* items, and the set `ever` of IDs it has ever held.  IDs are strings.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

LOCAL Range(f) == {f[x] : x \in DOMAIN f}
RidStart(b) ==
    LET ids == [i \in 1..Len(b.v) |-> ToString(i - 1)]
    IN <<[m |-> [k \in Range(ids) |-> b.v[CHOOSE i \in 1..Len(b.v) : ids[i] = k]], ever |-> Range(ids)]>>

RidOnly(m, ks) == [k \in ks |-> m[k]]
RidSet(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]

\* The answers an operation may give, and the states it leads to: a set of [got, s].
\* `push` chooses the ID: any that was never used in this holder; `seen` is the one the code chose.
RidStep(s, e, seen) ==
    LET h == s[e.h]
        m == h.m
        has(k) == k \in DOMAIN m
        upd(m2) == [s EXCEPT ![e.h].m = m2]
        one(got, s2) == {[got |-> got, s |-> s2]}
    IN CASE e.op = "look"  -> one("ok", s)
         [] e.op = "push"  -> IF seen \in h.ever THEN {}
                              ELSE one(seen, [s EXCEPT ![e.h] = [m |-> RidSet(m, seen, e.v), ever |-> h.ever \cup {seen}]])
         [] e.op = "get"   -> one(IF has(e.id) THEN <<m[e.id]>> ELSE <<>>, s)
         [] e.op = "mod"   -> IF has(e.id) THEN one(<<m[e.id]>>, upd(RidSet(m, e.id, e.v))) ELSE one(<<>>, s)
         [] e.op = "take"  -> IF has(e.id) THEN one(<<m[e.id]>>, upd(RidOnly(m, DOMAIN m \ {e.id}))) ELSE one(<<>>, s)
         [] e.op \in {"addall", "addenum"} -> one("ok", upd([k \in DOMAIN m |-> m[k] + e.v]))
         [] e.op = "clone" -> one("ok", Append(s, [m |-> m, ever |-> DOMAIN m]))

\* What is seen of the holders: the IDs with their items, the items iterated over (sorted), and how many there are.
LOCAL Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
RidSees(h, o) ==
    /\ Len(o.m) = Cardinality(DOMAIN h.m)
    /\ \A i \in 1..Len(o.m) : o.m[i][1] \in DOMAIN h.m /\ h.m[o.m[i][1]] = o.m[i][2]
    /\ Cardinality({o.m[i][1] : i \in 1..Len(o.m)}) = Len(o.m)
    /\ Len(o.it) = Len(o.m)
    /\ \A x \in Range(h.m) : Count(o.it, x) = Cardinality({k \in DOMAIN h.m : h.m[k] = x})
    /\ o.n = Cardinality(DOMAIN h.m)
    /\ o.z = (DOMAIN h.m = {})
RidObs(s, o) == Len(o) = Len(s) /\ \A i \in 1..Len(s) : RidSees(s[i], o[i])

\* What the operations must satisfy, stated independently of how they are computed.
RidOk(s, e, r) ==
    LET h == s[e.h]
        g == r.s[e.h]
        same == DOMAIN h.m = DOMAIN g.m /\ \A k \in DOMAIN h.m : h.m[k] = g.m[k]
    IN /\ \A i \in 1..Len(s) : i # e.h => r.s[i] = s[i]
       /\ h.ever \subseteq g.ever /\ DOMAIN g.m \subseteq g.ever
       /\ e.op = "push" => /\ r.got \notin h.ever /\ g.m[r.got] = e.v
                           /\ RidOnly(g.m, DOMAIN h.m) = h.m /\ DOMAIN g.m = DOMAIN h.m \cup {r.got}
       /\ e.op \in {"get", "look", "clone"} => same
       /\ e.op = "take" => DOMAIN g.m = DOMAIN h.m \ {e.id}
       /\ e.op = "mod" => DOMAIN g.m = DOMAIN h.m /\ (e.id \in DOMAIN h.m => g.m[e.id] = e.v)
=============================================================================
