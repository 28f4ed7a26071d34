-------------------------------- MODULE Names --------------------------------
(* How a node tree chooses the name of a node among its siblings.  Numbers    *)
(* are kept as strings of decimal digits, so that they are not bounded.       *)
EXTENDS Integers, Sequences, TLC

DIGITS == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Ch(str, i) == SubSeq(str, i, i)

\* Length of `str` without its trailing decimal digits.
RECURSIVE BareLen(_, _)
BareLen(str, n) == IF n > 0 /\ Ch(str, n) \in DIGITS THEN BareLen(str, n - 1) ELSE n
Bare(str)   == SubSeq(str, 1, BareLen(str, Len(str)))
Suffix(str) == SubSeq(str, BareLen(str, Len(str)) + 1, Len(str))

RECURSIVE Canon(_)
Canon(d) == IF Len(d) > 1 /\ Ch(d, 1) = "0" THEN Canon(SubSeq(d, 2, Len(d))) ELSE d

NextDigit == [d \in DIGITS |-> CASE d = "0" -> "1" [] d = "1" -> "2" [] d = "2" -> "3" [] d = "3" -> "4"
                                 [] d = "4" -> "5" [] d = "5" -> "6" [] d = "6" -> "7" [] d = "7" -> "8"
                                 [] d = "8" -> "9" [] d = "9" -> "0"]
RECURSIVE Inc(_)
Inc(d) == IF d = "" THEN "1"
          ELSE LET k == Len(d) IN
               IF Ch(d, k) = "9" THEN Inc(SubSeq(d, 1, k - 1)) \o "0"
               ELSE SubSeq(d, 1, k - 1) \o NextDigit[Ch(d, k)]

\* The first free name of `base` from the number `n` on; the bare name counts as number 0.
RECURSIVE FirstFree(_, _, _)
FirstFree(base, n, taken) ==
    IF (base \o n) \in taken \/ (n = "0" /\ base \in taken)
    THEN FirstFree(base, Inc(n), taken)
    ELSE base \o n

Counted(name, taken) == FirstFree(Bare(name), IF Suffix(name) = "" THEN "0" ELSE Canon(Suffix(name)), taken)
\* The digits of the requested name are regarded as a part of the name.
Uncounted(name, taken) == FirstFree(name, "0", taken)

\* Suffixes of up to 18 digits are always counted from.
UniqueName(name, taken) == IF name \notin taken THEN name ELSE Counted(name, taken)

\* Every result the property allows: suffixes of 20 digits and more may be a part of the name.
NamesAllowed(name, taken) ==
    IF name \notin taken THEN {name}
    ELSE {Counted(name, taken)} \cup (IF Len(Suffix(name)) >= 20 THEN {Uncounted(name, taken)} ELSE {})

-----------------------------------------------------------------------------
\* What the choice must satisfy, stated independently of how it is computed.
NameOk(name, taken) ==
    LET r == UniqueName(name, taken) IN
    /\ r \notin taken
    /\ (name \notin taken => r = name)
    /\ (name \in taken => Bare(r) = Bare(name))
=============================================================================
