----------------------------- MODULE Combinators -----------------------------
(* Tree options and tree results: the standard types' behaviour, plus an owner *)
(* which logs a panic when a value is demanded that is not there.              *)
(* State: sh (opt, res, end), x the content (<<>>, <<v>>, <<"ok", v>> or       *)
(* <<"err", v>>), own the nodes which may own it, gone whether the node it     *)
(* started with has left the tree, own0 that node, bad the panic that happened.*)
(* Closures: f(v) = v + 1; p(v) says whether v is even.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CombStart(b) == [sh |-> b.sh, x |-> b.x, own |-> {b.own}, own0 |-> b.own, gone |-> b.gone = "yes", bad |-> <<>>]
Even(v) == v % 2 = 0
Loggers(s) == IF s.bad = <<>> THEN {} ELSE {n \in s.own : ~(s.gone /\ n = s.own0)}

\* A step's outcome: what it answers, what the closures were called with, the content afterwards.
LOCAL Out(s, got, calls, sh, x) == [got |-> got, calls |-> calls, s |-> [s EXCEPT !.sh = sh, !.x = x]]
LOCAL Owned(r, owners) == [r EXCEPT !.s.own = owners]
\* A demand which cannot be met: `msg` is the text, <<>> where any will do.
LOCAL Fail(s, msg) == [got |-> "panic", calls |-> <<>>, s |-> [s EXCEPT !.sh = "end", !.x = <<>>, !.bad = <<msg>>]]

CombStep(s, e) ==
    LET x    == s.x
        op   == e.op
        v    == e.v
        opt  == s.sh = "opt"
        some == IF opt THEN x # <<>> ELSE x[1] = "ok"
        c    == IF opt THEN (IF some THEN x[1] ELSE 0) ELSE x[2]        \* the content (or the error)
        stay(got) == Out(s, got, <<>>, s.sh, x)
        end(got)  == Out(s, got, <<>>, "end", <<>>)
        endc(got, calls) == Out(s, got, calls, "end", <<>>)
        next(y, calls) == Out(s, "ok", calls, s.sh, y)
        put(got, calls, y) == Out(s, got, calls, s.sh, y)
        \* operations of options
        OptStep ==
            CASE op = "to_option" -> end(x)
              [] op = "is_some" -> stay(some)
              [] op = "is_none" -> stay(~some)
              [] op = "is_some_and" -> put(some /\ Even(c), IF some THEN <<c>> ELSE <<>>, x)
              [] op \in {"as_ref", "as_deref", "copied", "cloned", "copied_mut", "cloned_mut"} -> stay(x)
              [] op \in {"as_slice", "iter"} -> stay(x)
              [] op \in {"as_mut", "as_mut_slice", "as_deref_mut", "iter_mut"} -> next(IF some THEN <<c + 1>> ELSE x, <<>>)
              [] op = "expect" -> IF some THEN end(c) ELSE Fail(s, <<e.m>>)
              [] op = "unwrap" -> IF some THEN end(c) ELSE Fail(s, <<>>)
              [] op = "unwrap_or" -> end(IF some THEN c ELSE v)
              [] op = "unwrap_or_else" -> IF some THEN end(c) ELSE endc(v, <<"()">>)
              [] op = "unwrap_or_default" -> end(IF some THEN c ELSE 0)
              [] op = "unwrap_unchecked" -> end(IF some THEN c ELSE "skipped")
              [] op = "map" -> IF some THEN next(<<c + 1>>, <<c>>) ELSE next(x, <<>>)
              [] op = "inspect" -> next(x, x)
              [] op = "map_or" -> IF some THEN endc(c + 1, <<c>>) ELSE end(v)
              [] op = "map_or_else" -> IF some THEN endc(c + 1, <<c>>) ELSE endc(v, <<"()">>)
              [] op = "ok_or" -> Out(s, "ok", <<>>, "res", IF some THEN <<"ok", c>> ELSE <<"err", v>>)
              [] op = "ok_or_else" -> Out(s, "ok", IF some THEN <<>> ELSE <<"()">>, "res", IF some THEN <<"ok", c>> ELSE <<"err", v>>)
              [] op = "and" -> next(IF some THEN e.y ELSE <<>>, <<>>)
              [] op = "and_then" -> next(IF some THEN e.y ELSE <<>>, x)
              [] op = "filter" -> next(IF some /\ Even(c) THEN x ELSE <<>>, x)
              [] op = "or" -> next(IF some THEN x ELSE e.y, <<>>)
              [] op = "or_else" -> next(IF some THEN x ELSE e.y, IF some THEN <<>> ELSE <<"()">>)
              [] op = "xor" -> next(IF some /\ e.y = <<>> THEN x ELSE IF ~some THEN e.y ELSE <<>>, <<>>)
              [] op = "insert" -> put(v, <<>>, <<v + 1>>)
              [] op = "get_or_insert" -> IF some THEN put(c, <<>>, <<c + 1>>) ELSE put(v, <<>>, <<v + 1>>)
              [] op = "get_or_insert_default" -> IF some THEN put(c, <<>>, <<c + 1>>) ELSE put(0, <<>>, <<1>>)
              [] op = "get_or_insert_with" -> IF some THEN put(c, <<>>, <<c + 1>>) ELSE put(v, <<"()">>, <<v + 1>>)
              [] op = "take" -> put(x, <<>>, <<>>)
              [] op = "take_if" -> IF ~some THEN put(<<>>, <<>>, x)
                                   ELSE IF Even(c + 1) THEN put(<<c + 1>>, <<c + 1>>, <<>>) ELSE put(<<>>, <<c + 1>>, <<c + 1>>)
              [] op = "replace" -> put(x, <<>>, <<v>>)
              [] op = "zip" -> IF some /\ e.y # <<>> THEN put(<< <<c, e.y[1]>> >>, <<>>, x) ELSE put(<<>>, <<>>, <<>>)
              [] op = "unzip" -> IF some THEN put(<<x, <<c + 1>>>>, <<>>, <<c + 1>>) ELSE put(<<x, x>>, <<>>, x)
              [] op = "transfer_owner" -> next(e.y, <<>>)
              [] op = "transpose" -> IF ~some THEN Out(s, <<"ok", <<>>>>, <<>>, "res", <<"ok", -1>>)
                                     ELSE IF Even(c) THEN Out(s, <<"ok", x>>, <<>>, "res", <<"ok", c>>)
                                     ELSE Out(s, <<"err", c>>, <<>>, "res", <<"err", c>>)
              [] op = "flatten" -> next(IF some /\ Even(c) THEN x ELSE <<>>, <<>>)
        \* operations of results
        ResStep ==
            CASE op = "to_result" -> end(x)
              [] op = "to_option" -> end(IF some THEN <<c>> ELSE <<>>)
              [] op = "is_ok" -> stay(some)
              [] op = "is_err" -> stay(~some)
              [] op = "is_ok_and" -> put(some /\ Even(c), IF some THEN <<c>> ELSE <<>>, x)
              [] op = "is_err_and" -> put(~some /\ Even(c), IF some THEN <<>> ELSE <<c>>, x)
              [] op = "ok" -> Out(s, "ok", <<>>, "opt", IF some THEN <<c>> ELSE <<>>)
              [] op = "err" -> Out(s, "ok", <<>>, "opt", IF some THEN <<>> ELSE <<c>>)
              [] op \in {"as_ref", "as_deref", "copied", "cloned", "copied_mut", "cloned_mut"} -> stay(x)
              [] op \in {"as_mut", "as_deref_mut"} -> next(<<x[1], IF some THEN c + 1 ELSE c + 2>>, <<>>)
              [] op = "map" -> IF some THEN next(<<"ok", c + 1>>, <<c>>) ELSE next(x, <<>>)
              [] op = "map_err" -> IF some THEN next(x, <<>>) ELSE next(<<"err", c + 1>>, <<c>>)
              [] op = "map_or" -> IF some THEN endc(c + 1, <<c>>) ELSE end(v)
              [] op = "map_or_else" -> IF some THEN endc(c + 1, <<c>>) ELSE endc(v, << <<"e", c>> >>)
              [] op = "inspect" -> next(x, IF some THEN <<c>> ELSE <<>>)
              [] op = "inspect_err" -> next(x, IF some THEN <<>> ELSE <<c>>)
              [] op = "iter" -> stay(IF some THEN <<c>> ELSE <<>>)
              [] op = "iter_mut" -> next(IF some THEN <<"ok", c + 1>> ELSE x, <<>>)
              [] op = "expect" -> IF some THEN end(c) ELSE Fail(s, <<e.m \o ": " \o ToString(c)>>)
              [] op = "unwrap" -> IF some THEN end(c) ELSE Fail(s, <<>>)
              [] op = "expect_err" -> IF some THEN Fail(s, <<e.m \o ": " \o ToString(c)>>) ELSE end(c)
              [] op = "unwrap_err" -> IF some THEN Fail(s, <<>>) ELSE end(c)
              [] op = "unwrap_or" -> end(IF some THEN c ELSE v)
              [] op = "unwrap_or_default" -> end(IF some THEN c ELSE 0)
              [] op = "unwrap_or_else" -> IF some THEN end(c) ELSE endc(c + 1, <<c>>)
              [] op = "unwrap_unchecked" -> end(IF some THEN c ELSE "skipped")
              [] op = "unwrap_err_unchecked" -> end(IF some THEN "skipped" ELSE c)
              [] op = "and" -> next(IF some THEN e.y ELSE x, <<>>)
              \* The closure's result may keep its own owner.
              [] op = "and_then" -> IF some THEN Owned(next(e.y, <<c>>), s.own \cup {0}) ELSE next(x, <<>>)
              [] op = "or" -> next(IF some THEN x ELSE e.y, <<>>)
              [] op = "or_else" -> IF some THEN next(x, <<>>) ELSE next(e.y, <<c>>)
              [] op = "transfer_owner" -> next(e.y, <<>>)
              [] op = "transpose" -> IF ~some THEN Out(s, << <<"err", c>> >>, <<>>, "opt", <<c + 100>>)
                                     ELSE IF Even(c) THEN Out(s, << <<"ok", c>> >>, <<>>, "opt", <<c>>)
                                     ELSE Out(s, <<>>, <<>>, "opt", <<>>)
              [] op = "flatten" -> next(IF ~some THEN x ELSE IF Even(c) THEN x ELSE <<"err", c + 10>>, <<>>)
    IN IF op = "end"
       THEN \* Whether the panic, once logged, has terminated the tree.
            {end(t) : t \in IF s.bad = <<>> THEN {FALSE}
                            ELSE {TRUE : n \in Loggers(s)} \cup {FALSE : n \in {m \in s.own : s.gone /\ m = s.own0}}}
       ELSE {IF opt THEN OptStep ELSE ResStep}

\* The node which logged the panic: the owner, unless it is gone.
LOCAL Path(n) == CASE n = 0 -> "[R]" [] n = 1 -> "[R/A]" [] n = 2 -> "[R/B]"
CombObs(s, o) ==
    LET status(n, msg) == IF s.gone /\ n = s.own0 THEN "none" ELSE IF msg # <<>> /\ msg[1] = n THEN "panicked " \o msg[2] ELSE "normal"
        all(msg) == \A n \in 0..2 : o.st[n + 1] = status(n, msg)
    IN IF s.bad = <<>> THEN o.lg = <<>> /\ all(<<>>)
       ELSE \/ (\E n \in s.own : s.gone /\ n = s.own0) /\ o.lg = <<>> /\ all(<<>>)
            \/ /\ Len(o.lg) = 1
               /\ \E n \in Loggers(s) : /\ o.lg[1][1] = Path(n) /\ o.lg[1][2] = "PANIC!"
                                        /\ s.bad[1] # <<>> => o.lg[1][3] = s.bad[1][1]
                                        /\ all(<<n, o.lg[1][3]>>)

\* What must hold of every step.
CombOk(s, e, r) ==
    /\ ToString(r.got) = ToString("panic") <=> (s.bad = <<>> /\ r.s.bad # <<>>)
    /\ r.s.sh \in {"opt", "res", "end"}
    /\ r.s.sh = "opt" => Len(r.s.x) <= 1
    /\ r.s.sh = "res" => Len(r.s.x) = 2
=============================================================================
