-------------------------------- MODULE Paths --------------------------------
(* Node paths: parsing, printing and their equality.                          *)
EXTENDS Integers, Sequences, TLC

\* The segments of a path string: split at slashes, empty segments dropped.
RECURSIVE Split(_, _, _)
Split(str, i, cur) ==
    IF i > Len(str) THEN (IF cur = "" THEN <<>> ELSE <<cur>>)
    ELSE IF SubSeq(str, i, i) = "/" THEN (IF cur = "" THEN <<>> ELSE <<cur>>) \o Split(str, i + 1, "")
    ELSE Split(str, i + 1, cur \o SubSeq(str, i, i))

IsAbs(str) == Len(str) > 0 /\ SubSeq(str, 1, 1) = "/"
ParsePath(str) == [abs |-> IsAbs(str), segs |-> Split(str, 1, "")]

RECURSIVE JoinSegs(_)
JoinSegs(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o "/" \o JoinSegs(Tail(q))
PrintPath(p) == (IF p.abs THEN "/" ELSE "") \o JoinSegs(p.segs)
=============================================================================
