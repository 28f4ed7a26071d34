------------------------------ MODULE Documents ------------------------------
(* Scene documents: which texts stand for which scenes.                        *)
(*                                                                             *)
(* A document is a sequence of entries (none if the text is no document)       *)
(* <<key, item>>; an item is a document value (see Codec), a section            *)
(* <<"sec", << <<key, item>>, .. >> >>, or a list of sections <<"aot">>.        *)
(* Each entry is a node, and its key its name and ID.                          *)
EXTENDS Codec

LOCAL Ran(q) == {q[i] : i \in 1..Len(q)}
\* The classes: their exported fields, and how the others look after loading.
DocFull(t) == "nt_harness::obj::doc::" \o t
DocClasses == <<
    [ty |-> "Da", fs |-> << <<"a", <<"int", "i8">> >>, <<"b", <<"opt", <<"str">> >> >>, <<"c", <<"vec", <<"int", "u16">> >> >> >>, rest |-> <<"_", "_", "">>],
    [ty |-> "Db", fs |-> << <<"m", <<"smap", <<"f64">> >> >>, <<"t", <<"tup", <<"bool">>, <<"char">> >> >> >>, rest |-> <<>>],
    [ty |-> "Dc", fs |-> <<>>, rest |-> <<>>],
    \* A class of the same name in another module.
    [ty |-> "far::Da", fs |-> << <<"a", <<"str">> >>, <<"z", <<"bool">> >> >>, rest |-> <<"_">>] >>
LOCAL ClassAt(full) == {i \in 1..Len(DocClasses) : DocFull(DocClasses[i].ty) = full}

LOCAL Find(es, k) == {i \in 1..Len(es) : es[i][1] = k}
\* The entry k of a section: an item, or <<"none">>.
LOCAL At(es, k) == LET at == Find(es, k) IN IF at = {} THEN <<"none">> ELSE es[CHOOSE i \in at : TRUE][2]
\* The same of an inline table, whose entries carry the lengths of their keys.
LOCAL TabAt(es, k) == LET at == Find(es, k) IN IF at = {} THEN <<"none">> ELSE es[CHOOSE i \in at : TRUE][3]

RECURSIVE LastBar(_, _)
LastBar(str, i) == IF i = 0 THEN 0 ELSE IF SubSeq(str, i, i) = "_" THEN i ELSE LastBar(str, i - 1)
RECURSIVE Plain(_)
Plain(x) == IF Len(x) > 1 /\ SubSeq(x, 1, 1) = "0" THEN Plain(SubSeq(x, 2, Len(x))) ELSE x
LOCAL DigitsOnly(x) == Len(x) > 0 /\ \A i \in 1..Len(x) : SubSeq(x, i, i) \in Ran(DGT)
\* The name and the ID of a key; `k` says whether there are any.
KeyOf(key) ==
    LET b   == LastBar(key, Len(key))
        num == SubSeq(key, b + 1, Len(key))
        sgn == Len(num) > 0 /\ SubSeq(num, 1, 1) = "+"
        mag == IF sgn THEN SubSeq(num, 2, Len(num)) ELSE num
    IN IF b = 0 THEN [k |-> "no"]
       ELSE IF ~DigitsOnly(mag) THEN [k |-> "no"]
       ELSE IF ~IntLeq(Plain(mag), MaxOf.u64) THEN [k |-> "no"]
       \* Other ways to write the same number may be accepted.
       ELSE [k |-> IF sgn \/ Plain(mag) # num THEN "open" ELSE "yes", name |-> SubSeq(key, 1, b - 1), rid |-> Plain(mag)]

\* One node: k is "yes", "no" or "open" (it may be refused); `at` are the nodes above it in the document.
ReadNode(e, at) ==
    LET key  == KeyOf(e[1])
        sec  == e[2][1] = "sec"
        es   == e[2][2]
        meta == At(es, "metadata")
        m(f) == IF meta[1] = "tab" THEN TabAt(meta[2], f) ELSE At(meta[2], f)
        cls  == LET t == m("type_name") IN IF t[1] = "str" THEN ClassAt(t[2]) ELSE {}
        own  == m("is_owner")
        par  == m("parent")
        up   == IF par[1] = "int" THEN {i \in 1..Len(at) : at[i].rid = par[2]} ELSE {}
        c    == DocClasses[CHOOSE i \in cls : TRUE]
        \* Numbers above those a document can hold are written as negative ones.
        wrap == par[1] = "int" /\ IntLeq(par[2], "-1")
        val(i) == LET x == At(es, c.fs[i][1])
                  IN IF x[1] = "none" THEN No ELSE IF x[1] \in {"sec", "aot"} THEN Open ELSE Decode(c.fs[i][2], x)
        vals == [i \in 1..Len(c.fs) |-> val(i)]
        \* What the class has no use for may be refused.
        more == \E i \in 1..Len(es) : es[i][1] # "metadata" /\ \A j \in 1..Len(c.fs) : c.fs[j][1] # es[i][1]
        odd  == \/ key.k = "open" \/ meta[1] = "sec" \/ more \/ wrap
                \/ \E i \in 1..Len(vals) : vals[i].k = "open"
                \/ at = <<>> /\ key.rid # "0"
    IN IF key.k = "no" THEN [k |-> "no"]
       ELSE IF ~sec THEN [k |-> IF e[2][1] = "tab" THEN "any" ELSE "no"]
       ELSE IF meta[1] \notin {"tab", "sec"} THEN [k |-> "no"]
       ELSE IF cls = {} \/ own[1] # "bool" THEN [k |-> "no"]
       ELSE IF \E i \in 1..Len(at) : at[i].rid = key.rid THEN [k |-> "no"]
       ELSE IF at = <<>> /\ par[1] # "none" THEN [k |-> "no"]
       ELSE IF at # <<>> /\ par[1] # "int" THEN [k |-> "no"]
       ELSE IF at # <<>> /\ up = {} /\ ~wrap THEN [k |-> "no"]
       ELSE IF \E i \in 1..Len(vals) : vals[i].k = "no" THEN [k |-> "no"]
       ELSE IF wrap THEN [k |-> "any"]
       ELSE [k |-> IF odd THEN "open" ELSE "yes", rid |-> key.rid, name |-> key.name, cls |-> CHOOSE i \in cls : TRUE, own |-> own[2], vals |-> vals,
             par |-> IF at = <<>> THEN 0 ELSE CHOOSE i \in up : TRUE]

\* What a document stands for: "no": it is refused; "yes": the scene of the nodes; "open": either; "any": nothing is said.
RECURSIVE ReadNodes(_, _, _, _)
ReadNodes(doc, i, at, k) ==
    IF i > Len(doc) THEN [k |-> k, nodes |-> at]
    ELSE LET n == ReadNode(doc[i], at)
         IN IF n.k = "no" THEN [k |-> "no"] ELSE IF n.k = "any" THEN [k |-> "any"]
            ELSE ReadNodes(doc, i + 1, Append(at, n), IF n.k = "open" THEN "open" ELSE k)
ReadDoc(doc) == IF doc = <<>> THEN [k |-> "no"] ELSE ReadNodes(doc, 1, <<>>, "yes")

\* Whether the scene g shows the node i and all below it.
RECURSIVE ShowsNode(_, _, _)
ShowsNode(nodes, i, g) ==
    LET n    == nodes[i]
        c    == DocClasses[n.cls]
        kids == SelectSeq([j \in 1..Len(nodes) |-> j], LAMBDA j : nodes[j].par = i)
        w    == Len(c.fs)
    IN /\ g.ty = c.ty /\ g.name = n.name /\ g.own = n.own
       /\ Len(g.vals) = w + Len(c.rest)
       /\ \A j \in 1..w : n.vals[j].k = "open" \/ SameVal(c.fs[j][2], n.vals[j].v, g.vals[j])
       /\ SubSeq(g.vals, w + 1, Len(g.vals)) = c.rest
       /\ Len(g.kids) = Len(kids)
       /\ \A j \in 1..Len(kids) : ShowsNode(nodes, kids[j], g.kids[j])

\* The extension of a file name.
RECURSIVE LastDot(_, _)
LastDot(str, i) == IF i = 0 THEN 0 ELSE IF SubSeq(str, i, i) = "." THEN i ELSE LastDot(str, i - 1)
ExtOf(name) == LET b == LastDot(name, Len(name)) IN IF b <= 1 THEN "" ELSE SubSeq(name, b + 1, Len(name))

\* What loading must answer.
LoadWant(e) ==
    IF e.op = "file" THEN (IF e.how # "write" \/ ExtOf(e.name) \notin {"scn", "SCN"} THEN [k |-> "no"]
                           ELSE LET r == ReadDoc(e.doc) IN IF ExtOf(e.name) = "SCN" /\ r.k = "yes" THEN [r EXCEPT !.k = "open"] ELSE r)
    ELSE ReadDoc(e.doc)
LoadOk(e) ==
    LET want == LoadWant(e)
        g    == e.got
    IN CASE g[1] = "err"   -> want.k # "yes"
         [] g[1] = "scene" -> want.k = "any" \/ (want.k \in {"yes", "open"} /\ ShowsNode(want.nodes, 1, g[2]))
         [] OTHER          -> FALSE

-----------------------------------------------------------------------------
\* Documents to explore: valid ones and small damages of them.
LOCAL S(x)   == <<"str", x, Len(x)>>
LOCAL Num(x) == <<"int", x>>
LOCAL T(x)   == <<"bool", x>>
Meta(ty, own, par) == <<"tab", << <<"type_name", 9, S(DocFull(ty))>>, <<"is_owner", 8, T(own)>> >> \o IF par = "" THEN <<>> ELSE << <<"parent", 6, Num(par)>> >> >>
NodeA(key, own, par) == <<key, <<"sec", << <<"metadata", Meta("Da", own, par)>>, <<"a", Num("-5")>>, <<"b", <<"tab", << <<"value", 5, S("x")>> >> >> >>, <<"c", <<"arr", <<Num("7")>> >> >> >> >> >>
NodeB(key, own, par) == <<key, <<"sec", << <<"metadata", Meta("Db", own, par)>>, <<"m", <<"tab", << <<"k", 1, <<"float", "1.5", "1.5">> >> >> >> >>, <<"t", <<"arr", <<T(TRUE), S("z")>> >> >> >> >> >>
NodeC(key, own, par) == <<key, <<"sec", << <<"metadata", Meta("Dc", own, par)>> >> >> >>
DocBases == {
    <<NodeA("A_0", TRUE, "")>>,
    <<NodeC("R_0", TRUE, ""), NodeA("x_y_1", FALSE, "0"), NodeB("B_2", TRUE, "1")>>,
    <<NodeC("R_0", FALSE, ""), NodeC("B_1", FALSE, "0"), NodeC("B_2", TRUE, "0"), NodeC("C_3", FALSE, "1"), NodeC("C_4", FALSE, "3")>>,
    <<NodeC("R_0", TRUE, ""), NodeC("B_7", FALSE, "0"), NodeC("C_3", FALSE, "7")>> }
Keys == {"", "A", "A_", "_1", "A_x", "A_1", "B_2", "A_0", "A_-1", "A_+1", "A_01", "A_1_2", "1", "_", "A_18446744073709551615", "A_18446744073709551616", "A_9", "A B._3", "/_4", "é\"\\_5"}
OddItems == {Num("0"), Num("1"), Num("300"), Num("-1"), T(TRUE), T(FALSE), S(""), S("x"), S("0"), S("true"), <<"float", "0.0", "0.0">>, <<"float", "1.5", "1.5">>, <<"dt", "2020-01-01">>, <<"arr", <<>> >>,
        <<"arr", <<Num("1"), S("x")>> >>, <<"arr", <<T(FALSE), S("x")>> >>, <<"arr", <<T(FALSE), S("xy")>> >>, <<"arr", <<Num("65536")>> >>, <<"arr", <<Num("0"), Num("65535")>> >>, <<"tab", <<>> >>,
        <<"tab", << <<"value", 5, Num("1")>> >> >>, <<"tab", << <<"value", 5, S("")>> >> >>, <<"tab", << <<"other", 5, S("")>> >> >>, <<"sec", <<>> >>, <<"aot">> }
LOCAL Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
LOCAL Sections(doc) == {i \in 1..Len(doc) : doc[i][2][1] = "sec"}
\* Whether an entry has its metadata as an inline table, and where.
LOCAL MetaAt(es) == {i \in 1..Len(es) : es[i][1] = "metadata" /\ es[i][2][1] = "tab"}
DocDamages(doc) ==
    LET put(i, es) == [doc EXCEPT ![i] = <<@[1], <<"sec", es>> >>]
        meta(i, k, ms) == put(i, [doc[i][2][2] EXCEPT ![k] = <<"metadata", <<"tab", ms>> >>])
    IN {Without(doc, i) : i \in 1..Len(doc)}
       \cup {[doc EXCEPT ![i] = doc[j], ![j] = doc[i]] : i \in 1..Len(doc), j \in 1..Len(doc)}
       \cup {[doc EXCEPT ![i] = <<k, @[2]>>] : i \in 1..Len(doc), k \in {k \in Keys : \A j \in 1..Len(doc) : doc[j][1] # k}}
       \cup {[doc EXCEPT ![i] = <<@[1], x>>] : i \in 1..Len(doc), x \in {Num("1"), <<"tab", <<>> >>, <<"sec", <<>> >>, <<"aot">>}}
       \cup {Append(doc, <<"Z_9", doc[i][2]>>) : i \in Sections(doc)}
       \cup UNION {LET es == doc[i][2][2] IN
            {put(i, Without(es, k)) : k \in 1..Len(es)}
            \cup {put(i, [es EXCEPT ![k] = <<@[1], x>>]) : k \in 1..Len(es), x \in OddItems}
            \cup {put(i, [es EXCEPT ![k] = <<n, @[2]>>]) : k \in 1..Len(es), n \in {"A", "meta", "zz", ""}}
            \cup {put(i, Append(es, <<n, x>>)) : n \in {"zz", "p", "u"} \ {es[k][1] : k \in 1..Len(es)}, x \in {Num("1"), S("q"), <<"sec", <<>> >>}}
            \cup UNION {LET ms == es[k][2][2] IN
                 {meta(i, k, Without(ms, j)) : j \in 1..Len(ms)}
                 \cup {meta(i, k, [ms EXCEPT ![j] = <<@[1], @[2], x>>]) : j \in 1..Len(ms),
                       x \in {S(DocFull("Da")), S(DocFull("Dc")), S(DocFull("far::Da")), S("Da"), S(""), S("0"), Num("0"), Num("1"), Num("2"), Num("3"), Num("9"), Num("-1"), T(TRUE), T(FALSE), <<"float", "0.0", "0.0">>, <<"arr", <<>> >>} }
                 \cup {meta(i, k, [ms EXCEPT ![j] = <<"other", 5, @[3]>>]) : j \in 1..Len(ms)}
                 \cup (IF \E j \in 1..Len(ms) : ms[j][1] = "parent" THEN {} ELSE {meta(i, k, Append(ms, <<"parent", 6, x>>)) : x \in {Num("0"), Num("1"), S("")}})
                 \cup {put(i, [es EXCEPT ![k] = <<"metadata", <<"sec", [j \in 1..Len(ms) |-> <<ms[j][1], ms[j][3]>>]>> >>])} : k \in MetaAt(es)} : i \in Sections(doc)}
FileNames == {"a.scn", "a.toml", "a", "a.SCN", "a.scn.txt", ".scn", "a.b.scn", "scn", "a.scnx", "a.sc", "a."}
=============================================================================
