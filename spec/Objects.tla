------------------------------- MODULE Objects -------------------------------
(* The objects which live outside of the tree, each with its own module: one   *)
(* interface for exploring them and for validating recorded runs.              *)
EXTENDS RidHolder, FieldKinds, Combinators, Signals, Names, Paths, Documents, Macros, Json

-----------------------------------------------------------------------------
\* A logger on its own.  State: its verbosity.
LogShows(v, l) == CASE v = "All" -> TRUE
                    [] v = "NoDebug" -> l # "D"
                    [] v = "OnlyIssues" -> l \in {"W", "P"}
                    [] v = "OnlyPanics" -> l = "P"
LogLevel(l) == CASE l = "D" -> "DEBUG" [] l = "I" -> "INFO" [] l = "W" -> "WARN" [] l = "P" -> "PANIC!"
LogLine(v, from, l, m) == IF LogShows(v, l) THEN "<T> | " \o from \o " | " \o LogLevel(l) \o " | " \o m \o "\n" ELSE ""
LogStep(v, e) ==
    IF e.op = "look" THEN {[got |-> "ok", o |-> LogLine(v, "SysLogger", "D", "System logger has initialized. Hello World!")]}
    ELSE {[got |-> "<T>", o |-> LogLine(v, IF e.sys = "named" THEN e.from ELSE "[" \o e.from \o "]", e.l, e.m)]}

-----------------------------------------------------------------------------
\* Paths.  State: the path worked on.
PathStep(p, e) ==
    LET q == CASE e.op = "new" -> [abs |-> FALSE, segs |-> <<>>]
               [] e.op = "newabs" -> [abs |-> TRUE, segs |-> <<>>]
               [] e.op = "parse" -> ParsePath(e.p)
               [] e.op = "add" -> IF e.p = "" THEN p ELSE [p EXCEPT !.segs = Append(@, e.p)]
               [] e.op = "pop" -> IF p.segs = <<>> THEN p ELSE [p EXCEPT !.segs = Tail(@)]
               [] OTHER -> p
        show == <<PrintPath(q), q.abs>>
        got == CASE e.op = "pop" -> Append(show, IF p.segs = <<>> THEN <<>> ELSE <<Head(p.segs)>>)
                 [] e.op = "eq" -> LET same == ParsePath(e.p) = p IN <<PrintPath(p), same, ~same, TRUE>>
                 [] e.op \in {"again", "value"} -> <<PrintPath(p), TRUE>>
                 [] OTHER -> show
    IN {[got |-> got, s |-> q]}

-----------------------------------------------------------------------------
ObjStart(b) ==
    CASE b.kind = "rid"   -> RidStart(b.start)
      [] b.kind = "field" -> FieldStart(b.start)
      [] b.kind = "opt"   -> CombStart(b.start)
      [] b.kind = "sig"   -> SigStart
      [] b.kind = "log"   -> b.start.v
      [] b.kind = "path"  -> ParsePath("")
      [] b.kind = "name"  -> 0
      [] b.kind \in {"codec", "glam"} -> b.start.t
      [] b.kind = "doc"   -> b.start.doc
      [] b.kind \in {"mclass", "mscene", "mconn"} -> b.start

LOCAL Got(e) == IF "got" \in DOMAIN e THEN e.got ELSE "-"
\* All outcomes the specification allows for e: a set of [got, s], and `calls` or `o` where there are such.
ObjOutcomes(kind, s, e) ==
    CASE kind = "rid"   -> RidStep(s, e, Got(e))
      [] kind = "field" -> FieldStep(s, e)
      [] kind = "opt"   -> CombStep(s, e)
      [] kind = "sig"   -> SigStep(s, e, Got(e))
      [] kind = "log"   -> {[got |-> r.got, o |-> r.o, s |-> s] : r \in LogStep(s, e)}
      [] kind = "path"  -> PathStep(s, e)
      \* Many answers stand for the same value; whether this is one of them is decided by ObjSees.
      [] kind \in {"codec", "glam"} -> {[got |-> Got(e), s |-> s, want |-> IF e.op = "rt" THEN Yes(e.v) ELSE Decode(DescOf(kind, s), e.doc)]}
      [] kind = "doc"   -> {[got |-> Got(e), s |-> e.doc]}
      [] kind \in {"mclass", "mscene", "mconn"} -> MacroOutcomes(kind, s, e)
      [] kind = "name"  -> {[got |-> n, s |-> s] : n \in NamesAllowed(e.name, {e.taken[i] : i \in 1..Len(e.taken)})}
Same(x, y) == ToJson(x) = ToJson(y)
\* Whether what was seen of the object is what it must look like after the outcome r.
ObjSees(kind, r, e) ==
    CASE kind = "rid"   -> RidObs(r.s, e.o)
      [] kind = "field" -> FieldObs(r.s, e.o)
      [] kind = "opt"   -> e.op = "end" \/ (Same(e.calls, r.calls) /\ e.cur.sh = r.s.sh /\ Same(e.cur.x, r.s.x) /\ CombObs(r.s, e.o))
      [] kind = "log"   -> e.o = r.o
      [] kind \in {"codec", "glam"} -> CodecOk(kind, r.s, e)
      [] kind = "doc"   -> LoadOk(e)
      [] kind = "mconn" -> MacroSees(kind, r.was, e)
      [] OTHER          -> TRUE
ObjOk(kind, s, e, r) ==
    CASE kind = "rid"   -> RidOk(s, e, r)
      [] kind = "field" -> FieldOk(s, e, r)
      [] kind = "opt"   -> CombOk(s, e, r)
      [] kind = "sig"   -> SigOk(s, e, r)
      [] kind \in {"codec", "glam"} -> e.op = "rt" => CodecConsistent(DescOf(kind, s), e.v)
      [] kind = "path"  -> ParsePath(PrintPath(r.s)) = r.s
      [] kind = "name"  -> \A taken \in {{e.taken[i] : i \in 1..Len(e.taken)}} : r.got \notin taken /\ (e.name \notin taken => r.got = e.name) /\ NameOk(e.name, taken)
      [] OTHER          -> TRUE
=============================================================================
