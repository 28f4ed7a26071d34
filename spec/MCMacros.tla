------------------------------ MODULE MCMacros ------------------------------
(* Enumerates declarations, scene expressions and connection histories; each   *)
(* is printed with what to do with it, for being written as a program.         *)
EXTENDS Macros, SequencesExt

CONSTANTS KIND, DEEP

VARIABLES it
Second(ty) == MVals[ty][2]
Pick(ty, n) == IF n = 1 THEN Second(ty) ELSE Last(MVals[ty])

-----------------------------------------------------------------------------
\* Classes
Plain0 == [name |-> "Cls", fields |-> <<>>, hooks |-> <<>>, mode |-> "", ext |-> <<>>, consts |-> <<>>, fns |-> <<>>, sigs |-> 0]
FieldDecls(n, tys) == {[n |-> n, k |-> k, ty |-> ty, init |-> i] : k \in {"plain", "unique", "export"}, ty \in tys, i \in {<<>>, <<"!">>}}
                      \cup {[n |-> n, k |-> k, ty |-> ty, init |-> <<>>] : k \in {"default", "edefault"}, ty \in tys}
\* Initial values: the last one of the type.
Fix(d) == IF d.init = <<>> THEN d ELSE [d EXCEPT !.init = <<Last(MVals[d.ty])>>]
HookSet == {"loaded", "ready", "process", "terminal"}
Consts == {[n |-> "KA", ty |-> "u8", v |-> "5"], [n |-> "KB", ty |-> "&'static str", v |-> "\"k\""]}
Fns == {[n |-> "fa", kind |-> "const"], [n |-> "fb", kind |-> "arg"], [n |-> "fc", kind |-> "own"], [n |-> "fd", kind |-> "static"], [n |-> "fe", kind |-> "generic"]}
Traits == {"Ta", "Tb", "Tc"}
Classes ==
    {[Plain0 EXCEPT !.fields = <<Fix(f)>>] : f \in FieldDecls("fa", MTypes)}
    \cup {[Plain0 EXCEPT !.fields = <<Fix(f), Fix(g)>>] : f \in FieldDecls("fa", {"u8"}), g \in FieldDecls("fb", {"u8"})}
    \cup {[Plain0 EXCEPT !.fields = <<Fix(f), Fix(g), Fix(h)>>] :
              f \in FieldDecls("fa", {"u8"}), g \in FieldDecls("fb", IF DEEP THEN {"String", "u8"} ELSE {"String"}), h \in FieldDecls("fc", IF DEEP THEN {"Vec<bool>", "u8"} ELSE {"u8"})}
    \cup {[Plain0 EXCEPT !.hooks = SetToSeq(hs), !.mode = m] : hs \in SUBSET HookSet, m \in {"", "Inherit", "Always", "Pausable", "Inverse"}}
    \cup {[Plain0 EXCEPT !.ext = SetToSeq(x), !.consts = SetToSeq(k), !.fns = SetToSeq(f), !.sigs = n] :
              x \in SUBSET Traits, k \in SUBSET Consts, f \in {y \in SUBSET Fns : Cardinality(y) \in {0, 1, 5}}, n \in {0, 2}}
    \cup {[name |-> "Cls", fields |-> <<Fix(f)>>, hooks |-> SetToSeq(hs), mode |-> m, ext |-> SetToSeq(x), consts |-> SetToSeq(k), fns |-> SetToSeq({y}), sigs |-> 1] :
              f \in FieldDecls("fa", {"Option<i8>"}), hs \in {{"loaded", "ready"}, {"process", "terminal"}}, m \in {"Always", "Inverse"}, x \in {{"Ta"}, {"Tb", "Tc"}}, k \in {Consts}, y \in Fns}
ArgsOf(c, n) == LET q == Needs(c) IN [j \in 1..Len(q) |-> Pick(c.fields[q[j]].ty, n)]
ClassOps(c) ==
    << [op |-> "new", args |-> ArgsOf(c, 1)], [op |-> "new", args |-> ArgsOf(c, 2)], [op |-> "clone", args |-> ArgsOf(c, 1)], [op |-> "load", args |-> ArgsOf(c, 2)] >>
    \o [i \in 1..Len(c.consts) |-> [op |-> "const", n |-> c.consts[i].n]]
    \o [i \in 1..Len(c.fns) |-> [op |-> "fn", n |-> c.fns[i].n, args |-> IF c.fns[i].kind \in {"const", "static"} THEN <<>> ELSE <<"9">>]]
    \o << [op |-> "cast", tr |-> "Ta"], [op |-> "cast", tr |-> "Tb"], [op |-> "cast", tr |-> "Tc"], [op |-> "run", loaded |-> FALSE], [op |-> "run", loaded |-> TRUE] >>

-----------------------------------------------------------------------------
\* Scene expressions
Nd(ty, args, name, sets, kids) == [link |-> 0, ty |-> ty, args |-> args, name |-> name, sets |-> sets, kids |-> kids]
Ln(i) == [link |-> i, ty |-> "", args |-> <<>>, name |-> <<>>, sets |-> <<>>, kids |-> <<>>]
Names2 == {<<>>, <<"N m">>}
PaSets == {<<>>, << <<"a", "5">> >>, << <<"c", "[true, false]">>, <<"a", "0">> >>, << <<"a", "5">>, <<"a", "255">> >>, << <<"d", "\"e f\"">>, <<"b", "\"\"">> >>, << <<"e", "Some(-3)">> >>}
Wide == {Nd("Pa", <<>>, n, q, <<>>) : n \in Names2, q \in PaSets}
        \cup {Nd("Pb", g, n, q, <<>>) : g \in {<<"5", "\"e f\"">>, <<"0", "\"\"">>}, n \in Names2, q \in {<<>>, << <<"s", "\"q\"">> >>}}
        \cup {Nd("Pc", <<"255">>, n, q, <<>>) : n \in Names2, q \in {<<>>, << <<"y", "5">> >>}}
Few == {Nd("Pa", <<>>, <<>>, <<>>, <<>>), Nd("Pa", <<>>, <<"N m">>, << <<"a", "5">> >>, <<>>), Nd("Pb", <<"5", "\"e f\"">>, <<>>, <<>>, <<>>),
        Nd("Pc", <<"255">>, <<"C">>, << <<"y", "5">> >>, <<>>)} \cup (IF DEEP THEN {Nd("Pb", <<"0", "\"\"">>, <<"B">>, << <<"s", "\"q\"">> >>, <<>>), Nd("Pc", <<"5">>, <<>>, <<>>, <<>>)} ELSE {})
Under(a, kids) == [a EXCEPT !.kids = kids]
Single(x) == <<x>>
Exprs ==
    {Single(a) : a \in Wide} \cup {Single(Under(a, <<b>>)) : a \in Wide, b \in Few} \cup {Single(Under(b, <<a>>)) : a \in Wide, b \in Few}
    \cup {Single(Under(a, <<b, c>>)) : a \in Few, b \in Few, c \in Few} \cup {Single(Under(a, <<Under(b, <<c>>)>>)) : a \in Few, b \in Few, c \in Few}
    \cup {Single(Under(a, <<Under(b, <<c>>), d>>)) : a \in Few, b \in Few, c \in Few, d \in Few}
    \cup {<<a, Under(b, <<Ln(1)>>)>> : a \in Wide, b \in Few}
    \cup {<<Under(a, <<b>>), Under(b, <<Ln(1), a>>)>> : a \in Few, b \in Few}
    \cup {<<Under(a, <<b>>), Under(a, <<c, Ln(1)>>), Under(c, <<Under(b, <<Ln(2)>>), Ln(1), Ln(1)>>)>> : a \in Few, b \in Few, c \in Few}
    \cup {<<a, Ln(1)>> : a \in Few}
RECURSIVE Count(_, _)
Count(x, defs) == IF x.link > 0 THEN Count(defs[x.link], defs) ELSE 1 + FoldLeft(LAMBDA n, k : n + Count(k, defs), 0, x.kids)
RECURSIVE Size(_)
Size(g) == 1 + FoldLeft(LAMBDA n, k : n + Size(k), 0, g.kids)

-----------------------------------------------------------------------------
\* Connections: the three signals, one-shot or not, to nodes "me" (the one with the signals) or "it", functions which take their node as shared or mutable.
Conns == {[op |-> "conn", sig |-> g, once |-> o, node |-> n, cb |-> c] : g \in 0..2, o \in BOOLEAN, n \in {"me", "it"}, c \in {"shr", "mut"}}
EmV == <<"()", "5", "(5, \"e f\")">>
Emits == {[op |-> "emit", sig |-> g, v |-> EmV[g + 1]] : g \in 0..2}
EmitAll == << [op |-> "emit", sig |-> 0, v |-> EmV[1]], [op |-> "emit", sig |-> 1, v |-> EmV[2]], [op |-> "emit", sig |-> 2, v |-> EmV[3]] >>
Disc(k) == [op |-> "disc", k |-> k]
Histories ==
    {<<c>> \o EmitAll \o EmitAll \o <<Disc(1)>> \o EmitAll : c \in Conns}
    \cup {<<c, Disc(1)>> \o EmitAll \o <<Disc(1)>> : c \in Conns}
    \cup {<<c, d>> \o EmitAll \o <<Disc(2), Disc(1)>> \o EmitAll : c \in Conns, d \in Conns}
    \cup {<<c, e, d>> \o EmitAll \o <<Disc(2)>> \o EmitAll : c \in Conns, d \in Conns, e \in Emits}
    \cup (IF DEEP THEN {<<c, d, e>> \o EmitAll \o <<Disc(k)>> \o EmitAll : c \in Conns, d \in Conns, e \in Conns, k \in {2}} ELSE {})

-----------------------------------------------------------------------------
Init == CASE KIND = "mclass" -> \E c \in Classes : it = [kind |-> KIND, start |-> c, ops |-> ClassOps(c)]
          [] KIND = "mscene" -> \E q \in Exprs : it = [kind |-> KIND, start |-> q, ops |-> [i \in 1..Len(q) |-> [op |-> "scene", i |-> i]]]
          [] KIND = "mconn"  -> \E q \in Histories : it = [kind |-> KIND, start |-> <<>>, ops |-> q]
Next == UNCHANGED it
Spec == Init /\ [][Next]_it

\* The specification of what is written keeps its own sense.
ClassSense(c) == LET v == Built(c, ArgsOf(c, 1)) IN
    /\ Len(v) = Len(c.fields) /\ Len(ArgsOf(c, 1)) = Cardinality({i \in 1..Len(c.fields) : ~HasDefault(c.fields[i].k) /\ c.fields[i].init = <<>>})
    /\ \A i \in 1..Len(v) : (ClonedVals(c, v)[i] = "_" <=> c.fields[i].k = "unique") /\ (c.fields[i].k \in {"export", "edefault"} => LoadedVals(c, v)[i] = v[i])
SceneSense(q) == \A i \in 1..Len(q) : Size(SceneOf(q[i], SubSeq(q, 1, i - 1), TRUE)) = Count(q[i], q)
RECURSIVE After(_, _)
After(s, ops) == IF ops = <<>> THEN <<s>> ELSE <<s>> \o After(ConnStep(s, Head(ops)).s, Tail(ops))
\* A one-shot connection is called at most once; a removed one never again.
ConnSense(ops) == LET q == After(<<>>, ops) IN
    \A n \in 1..Len(ops) : \A k \in 1..Len(q[n]) :
        /\ ~q[n][k].live => ~q[n + 1][k].live
        /\ ops[n].op = "emit" /\ q[n][k].once /\ k \in DOMAIN Calls(q[n], ops[n]) => ~q[n + 1][k].live
Sense == CASE it.kind = "mclass" -> ClassSense(it.start) [] it.kind = "mscene" -> SceneSense(it.start) [] it.kind = "mconn" -> ConnSense(it.ops)
Script == PrintT("SCRIPT " \o ToJson(it))
=============================================================================
