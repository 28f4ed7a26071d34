----------------------------- MODULE FieldKinds -----------------------------
(* The kinds of node fields: plain and unique fields may be void, exported     *)
(* and default fields never are (their void value is the type's default).      *)
(* State: the kind and the contents of two fields, each <<>> or <<value>>.     *)
EXTENDS Integers, Sequences, TLC

CanVoid(kind) == kind \in {"plain", "unique"}
VoidOf(kind)  == IF CanVoid(kind) THEN <<>> ELSE <<0>>
FieldStart(b) == [k |-> b.k, f |-> [i \in 1..Len(b.v) |-> IF b.v[i] = <<>> THEN VoidOf(b.k) ELSE b.v[i]]]

-----------------------------------------------------------------------------
\* Arithmetic as the machine does it on small numbers.
Abs(x) == IF x < 0 THEN -x ELSE x
TDiv(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) # (b < 0) THEN -q ELSE q
TRem(a, b) == LET r == Abs(a) % Abs(b) IN IF a < 0 THEN -r ELSE r
LOCAL TOP == 1073741824
Unsigned(x) == IF x < 0 THEN x + TOP ELSE x
Signed(x)   == IF x >= TOP \div 2 THEN x - TOP ELSE x
RECURSIVE Bits(_, _, _, _)
Bits(o, a, b, n) ==
    IF n = 0 THEN 0
    ELSE LET x == a % 2
             y == b % 2
             z == CASE o = "|" -> IF x + y > 0 THEN 1 ELSE 0
                    [] o = "&" -> IF x + y = 2 THEN 1 ELSE 0
                    [] o = "^" -> IF x # y THEN 1 ELSE 0
         IN z + 2 * Bits(o, a \div 2, b \div 2, n - 1)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
\* The value, or <<>> where the machine refuses (division by nothing).
Arith(o, a, b) ==
    CASE o = "+" -> <<a + b>>
      [] o = "-" -> <<a - b>>
      [] o = "*" -> <<a * b>>
      [] o = "/" -> IF b = 0 THEN <<>> ELSE <<TDiv(a, b)>>
      [] o = "%" -> IF b = 0 THEN <<>> ELSE <<TRem(a, b)>>
      [] o = "<<" -> <<a * Pow2(b)>>
      [] o = ">>" -> <<a \div Pow2(b)>>
      [] OTHER -> <<Signed(Bits(o, Unsigned(a), Unsigned(b), 30))>>

-----------------------------------------------------------------------------
FieldStep(s, e) ==
    LET k   == e.f
        x   == s.f[k]
        v   == CanVoid(s.k)
        put(y) == [s EXCEPT !.f[k] = y]
        one(got, s2) == {[got |-> got, s |-> s2]}
        na  == one("n/a", s)
        panic == one("panic", s)
    IN CASE e.op = "look"   -> one("ok", s)
         [] e.op = "get"    -> IF x = <<>> THEN panic ELSE one(x[1], s)
         [] e.op = "set"    -> IF x = <<>> THEN panic ELSE one("ok", put(<<e.v>>))
         [] e.op = "write"  -> IF v THEN one(x, put(<<e.v>>)) ELSE na
         [] e.op = "reach"  -> IF v THEN one(x # <<>>, s) ELSE na
         [] e.op = "isvoid" -> IF v THEN one(x = <<>>, s) ELSE na
         [] e.op = "take"   -> IF v THEN one(x, put(<<>>)) ELSE na
         [] e.op = "force"  -> IF ~v THEN one("n/a", put(VoidOf(s.k)))
                               ELSE IF x = <<>> THEN panic ELSE one(x[1], put(<<>>))
         [] e.op = "from"   -> one("ok", put(<<e.v>>))
         [] e.op = "void"   -> one("ok", put(VoidOf(s.k)))
         [] e.op = "copy"   -> one("ok", [s EXCEPT !.f[3 - k] = IF s.k = "unique" THEN <<>> ELSE x])
         [] e.op = "with"   -> IF x = <<>> \/ Arith(e.o2, x[1], e.v) = <<>> THEN panic ELSE one("ok", put(Arith(e.o2, x[1], e.v)))
         [] e.op = "withf"  -> LET r == IF e.r = <<>> THEN VoidOf(s.k) ELSE e.r
                               IN IF x = <<>> \/ r = <<>> THEN panic
                                  ELSE IF Arith(e.o2, x[1], r[1]) = <<>> THEN panic ELSE one("ok", put(Arith(e.o2, x[1], r[1])))
         [] e.op = "ghost"  -> one(s.k # "export", s)
FieldObs(s, o) == o = s.f

\* What must hold of every step: the other field is only changed by copying over it, and kinds which are never void stay so.
FieldOk(s, e, r) ==
    /\ r.s.k = s.k
    /\ e.op # "copy" => r.s.f[3 - e.f] = s.f[3 - e.f]
    /\ e.op \in {"copy", "get", "reach", "isvoid", "ghost", "look"} => r.s.f[e.f] = s.f[e.f]
    /\ ~CanVoid(s.k) => \A i \in 1..2 : r.s.f[i] # <<>>
    /\ e.op \in {"set", "write", "from"} => r.s.f[e.f] \in {<<e.v>>, s.f[e.f]}
=============================================================================
