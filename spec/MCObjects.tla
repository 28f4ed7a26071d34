------------------------------ MODULE MCObjects ------------------------------
(* Exhaustive exploration of the objects; every behaviour is printed as a      *)
(* script for the real code.                                                   *)
EXTENDS Objects, SequencesExt

CONSTANTS KIND,      \* the kind of object
          MAXOPS,    \* operations of a behaviour
          VALS,      \* values
          USEOPS       \* operations used, or {} for all

VARIABLES s,   \* the object's state
          h,   \* start and operations so far
          g,   \* bookkeeping: how often each callback was called, and what the calls did
          ok   \* whether the last step satisfied what is demanded of steps
vars == <<s, h, g, ok>>

Opt1 == {<<>>} \cup {<<v>> : v \in VALS}
\* Fields start with negative values too.
OptF == {<<>>} \cup {<<v - 7>> : v \in VALS}
Starts ==
    CASE KIND = "rid"   -> {[how |-> "new", v |-> <<>>], [how |-> "from", v |-> <<>>], [how |-> "from", v |-> <<5>>], [how |-> "from", v |-> <<5, 6>>]}
      [] KIND = "field" -> {[k |-> k, v |-> <<x, y>>] : k \in {"plain", "unique", "export", "default"}, x \in OptF, y \in {<<>>, <<9>>}}
      [] KIND = "opt"   -> {[sh |-> "opt", x |-> x, own |-> 1, gone |-> gn] : x \in Opt1, gn \in {"no", "yes"}}
                           \cup {[sh |-> "res", x |-> <<r, v>>, own |-> 1, gone |-> gn] : r \in {"ok", "err"}, v \in VALS, gn \in {"no", "yes"}}
      [] KIND = "log"   -> {[v |-> v] : v \in {"All", "NoDebug", "OnlyIssues", "OnlyPanics"}}
      [] KIND \in {"codec", "glam"} -> {[t |-> t] : t \in CodecNames(KIND)}
      [] KIND = "doc"   -> {[doc |-> d] : d \in DocBases}
      [] OTHER          -> {[v |-> 0]}

OPTOPS == {"is_some", "is_none", "is_some_and", "as_ref", "as_mut", "as_slice", "as_mut_slice", "map", "inspect", "ok_or", "ok_or_else", "as_deref", "as_deref_mut",
    "iter", "iter_mut", "and", "and_then", "filter", "or", "or_else", "xor", "insert", "get_or_insert", "get_or_insert_default", "get_or_insert_with", "take", "take_if",
    "replace", "zip", "unzip", "transfer_owner", "copied", "cloned", "copied_mut", "cloned_mut", "transpose", "flatten", "expect", "unwrap", "unwrap_or", "unwrap_or_else",
    "unwrap_or_default", "unwrap_unchecked", "map_or", "map_or_else", "to_option"}
RESOPS == {"is_ok", "is_err", "is_ok_and", "is_err_and", "ok", "err", "as_ref", "as_mut", "map", "map_err", "inspect", "inspect_err", "as_deref", "as_deref_mut", "iter",
    "iter_mut", "and", "and_then", "or", "or_else", "transfer_owner", "copied", "cloned", "copied_mut", "cloned_mut", "transpose", "flatten", "expect", "unwrap",
    "unwrap_or_default", "expect_err", "unwrap_err", "unwrap_or", "unwrap_or_else", "unwrap_unchecked", "unwrap_err_unchecked", "map_or", "map_or_else", "to_result", "to_option"}
\* Only these look at an argument.
WITHV == {"unwrap_or", "unwrap_or_else", "map_or", "map_or_else", "ok_or", "ok_or_else", "insert", "get_or_insert", "get_or_insert_with", "replace"}
WITHY == {"and", "and_then", "or", "or_else", "xor", "zip", "transfer_owner"}
Chars == {"A", "/", ".", ".."}
Strs == {""} \cup Chars \cup {x \o y : x \in Chars, y \in Chars} \cup {x \o "/" \o y : x \in {"A", "", "B"}, y \in {"A", "B", ".", ".."}} \cup {"//A//", "/A/B/", " ", "..."}
Nms == {"", "A", "A0", "A1", "A2", "A9", "A10", "A01", "7", "0", "B"}

\* The operations of the user in state t.
UserOps(t) ==
    CASE KIND = "rid" ->
           LET ids == {ToString(i) : i \in 0..3} IN
           UNION {{[op |-> "push", h |-> k, v |-> 1]} \cup {[op |-> o, h |-> k, id |-> i, v |-> 2] : o \in {"take", "get", "mod"}, i \in ids}
                  \cup {[op |-> o, h |-> k, v |-> 3] : o \in {"addall", "addenum", "clone"}} : k \in 1..Len(t)}
      [] KIND = "field" ->
           LET os == {"+", "-", "*", "/", "%", "|", "^", "&", "<<", ">>"}
           IN UNION {{[op |-> o, f |-> k, v |-> v] : o \in {"set", "write", "from"}, v \in VALS}
                     \cup {[op |-> o, f |-> k] : o \in {"get", "reach", "isvoid", "take", "force", "void", "copy", "ghost"}}
                     \cup {[op |-> "with", f |-> k, o2 |-> o, v |-> v] : o \in os, v \in {0, 1, 2}}
                     \cup {[op |-> "with", f |-> k, o2 |-> o, v |-> -3] : o \in os \ {"<<", ">>"}}
                     \cup {[op |-> "withf", f |-> k, o2 |-> o, r |-> r] : o \in os, r \in {<<>>, <<2>>}} : k \in 1..2}
      [] KIND = "opt" ->
           LET ys == IF t.sh = "opt" THEN {<<>>, <<3>>} ELSE {<<"ok", 3>>, <<"err", 4>>}
               ops == IF t.sh = "opt" THEN OPTOPS ELSE IF t.sh = "res" THEN RESOPS ELSE {}
           IN {[op |-> o, v |-> v, y |-> y, m |-> "m"] : o \in ops \cap WITHV, v \in {7}, y \in {<<>>}}
              \cup {[op |-> o, v |-> 0, y |-> y, m |-> "m"] : o \in ops \cap WITHY, y \in ys}
              \cup {[op |-> o, v |-> 0, y |-> <<>>, m |-> "m"] : o \in ops \ (WITHV \cup WITHY)}
      [] KIND = "sig" ->
           UNION {{[op |-> "conn", s |-> k, once |-> b] : b \in BOOLEAN}
                  \cup {[op |-> "disc", s |-> k, id |-> ToString(i)] : i \in 0..(Cardinality(t.sg[k].ever) - 1)}
                  \cup {[op |-> "emit", s |-> k, v |-> 1], [op |-> "clone", s |-> k]} : k \in 1..Len(t.sg)}
      [] KIND = "log" -> {[op |-> "post", sys |-> y, from |-> f, l |-> l, m |-> "m"] : y \in {"named", "path"}, f \in {"", "R/A"}, l \in {"D", "I", "W", "P"}}
      [] KIND = "path" ->
           {[op |-> "new"], [op |-> "newabs"], [op |-> "pop"], [op |-> "again"], [op |-> "value"]} \cup {[op |-> o, p |-> p] : o \in {"parse", "eq"}, p \in Strs}
           \cup {[op |-> "add", p |-> p] : p \in {"", "A", ".", "..", "..."}}
      [] KIND \in {"codec", "glam"} -> LET d == DescOf(KIND, t) IN {[op |-> "rt", v |-> v] : v \in Values(d)} \cup {[op |-> "dec", doc |-> x] : x \in Documents(d)}
      [] KIND = "doc" -> {[op |-> "doc", doc |-> x] : x \in DocDamages(t) \cup {t}}
                         \cup (IF t \in DocBases THEN {[op |-> "file", doc |-> t, name |-> n, how |-> w] : n \in FileNames, w \in {"write", "absent", "dir", "bytes"}} ELSE {})
      [] KIND = "name" -> {[op |-> "unique", name |-> n, taken |-> q] : n \in Nms, q \in {SetToSeq(x) : x \in {y \in SUBSET Nms : Cardinality(y) <= 4}}}

\* The ID the specification gives.
Fresh(ever) == LET RECURSIVE go(_)
                   go(i) == IF ToString(i) \in ever THEN go(i + 1) ELSE ToString(i)
               IN go(0)
With(e, t) == CASE e.op = "push" -> [got |-> Fresh(t[e.h].ever)] @@ e
                [] e.op = "conn" -> [got |-> Fresh(t.sg[e.s].ever), tag |-> g.tags + 1] @@ e
                [] OTHER -> e

Top0 == [n |-> 0, tags |-> 0, calls |-> <<>>, progs |-> <<>>]
Init == \E b \in Starts : /\ s = ObjStart([kind |-> KIND, start |-> b])
                          /\ h = [start |-> b, ops |-> <<>>]
                          /\ g = Top0 /\ ok = TRUE
InCall == KIND = "sig" /\ s.stk # <<>>
Do(e, g2, h2) ==
    \E r \in ObjOutcomes(KIND, s, e) : s' = r.s /\ ok' = ObjOk(KIND, s, e, r) /\ g' = g2 /\ h' = h2
UserTurn == IF KIND = "sig" THEN SigUserTurn(s) ELSE TRUE
User == /\ UserTurn /\ g.n < MAXOPS
        /\ KIND = "sig" => Len(s.sg) <= 2 /\ Len(s.stk) <= 4
        /\ \E e \in UserOps(s) :
             /\ USEOPS = {} \/ e.op \in USEOPS
             /\ KIND = "sig" /\ e.op = "clone" => Len(s.sg) < 2
             /\ KIND = "rid" /\ e.op = "clone" => Len(s) < 2
             /\ LET e2 == With(e, s)
                    g1 == [g EXCEPT !.n = @ + 1, !.tags = IF e.op = "conn" THEN @ + 1 ELSE @]
                    c  == <<Head(s.stk).tag, g.calls[Head(s.stk).tag]>>
                IN IF InCall THEN Do(e2, [g1 EXCEPT !.progs = [x \in DOMAIN @ \cup {c} |-> IF x \in DOMAIN @ THEN (IF x = c THEN Append(@[x], e) ELSE @[x]) ELSE <<e>>]], h)
                   ELSE Do(e2, g1, [h EXCEPT !.ops = Append(@, e)])
\* What the code does by itself.
Auto == /\ InCall
        /\ \/ \E t \in SigDue(s) : Do([op |-> "cb", tag |-> t, v |-> Head(s.stk).v], [g EXCEPT !.calls = [x \in DOMAIN @ \cup {t} |-> IF x = t THEN (IF x \in DOMAIN @ THEN @[x] ELSE 0) + 1 ELSE @[x]]], h)
           \/ Do([op |-> "cbret"], g, h)
           \/ Do([op |-> "done"], g, h)
Next == User \/ Auto
Spec == Init /\ [][Next]_vars

StepsOk == ok
Done == IF g.n = MAXOPS THEN (IF KIND = "sig" THEN s.stk = <<>> ELSE TRUE) ELSE KIND = "opt" /\ s.sh = "end"
Progs == {[tag |-> x[1], n |-> x[2], ops |-> g.progs[x]] : x \in DOMAIN g.progs}
Script == Done => PrintT("SCRIPT " \o ToJson([kind |-> KIND, start |-> h.start, ops |-> h.ops, progs |-> SetToSeq(Progs)]))
=============================================================================
