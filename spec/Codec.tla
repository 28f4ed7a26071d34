-------------------------------- MODULE Codec --------------------------------
(* Exportable types: which document values stand for which values.             *)
(*                                                                             *)
(* Types: <<"bool">>, <<"int", t>>, <<"f32">>, <<"f64">>, <<"char">>, <<"str">>,*)
(* <<"npath">>, <<"path">>, <<"v4">>, <<"v6">>, <<"ip">>, <<"dur">>, <<"dt">>,  *)
(* <<"opt", d>>, <<"vec", d>>, <<"set", d>>, <<"cmap", d>>, <<"smap", d>>,      *)
(* <<"arr", n, d>>, <<"tup", d1, ..>>, <<"aff", key, d1, d2>>.                  *)
(* Values: booleans; integers, floats, characters, paths, addresses, durations *)
(* (in nanoseconds) and times as strings; options, lists, sets, arrays and     *)
(* tuples as sequences; maps as sequences of <<key, value>>.                   *)
(* Documents: <<"bool", b>>, <<"int", i>>, <<"float", x, x as f32 or "over">>,  *)
(* <<"str", s, its length>>, <<"dt", t>>, <<"arr", ds>>,                        *)
(* <<"tab", << <<key, its length, d>>, .. >> >>.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

LOCAL INSTANCE Paths
LOCAL Ran(q) == {q[i] : i \in 1..Len(q)}
LOCAL I(t) == <<"int", t>>
LOCAL Bool == <<"bool">>
LOCAL Chr == <<"char">>
LOCAL Str == <<"str">>
LOCAL F32 == <<"f32">>
LOCAL F64 == <<"f64">>
LOCAL Opt(d) == <<"opt", d>>
LOCAL Vec(d) == <<"vec", d>>
LOCAL SetD(d) == <<"set", d>>
LOCAL CMap(d) == <<"cmap", d>>
LOCAL SMap(d) == <<"smap", d>>
LOCAL Arr(n, d) == <<"arr", n, d>>
LOCAL Tup(ds) == <<"tup">> \o ds

\* The types the real code is driven with.
CodecTypes == <<
    <<"bool", Bool>>, <<"u8", I("u8")>>, <<"u16", I("u16")>>, <<"u32", I("u32")>>, <<"u64", I("u64")>>, <<"i8", I("i8")>>, <<"i16", I("i16")>>, <<"i32", I("i32")>>, <<"i64", I("i64")>>,
    <<"f32", F32>>, <<"f64", F64>>, <<"char", Chr>>, <<"String", Str>>, <<"NodePath", <<"npath">> >>, <<"PathBuf", <<"path">> >>,
    <<"Ipv4Addr", <<"v4">> >>, <<"Ipv6Addr", <<"v6">> >>, <<"IpAddr", <<"ip">> >>, <<"Duration", <<"dur">> >>, <<"Datetime", <<"dt">> >>,
    <<"Option<i8>", Opt(I("i8"))>>, <<"Option<String>", Opt(Str)>>, <<"Option<Option<bool>>", Opt(Opt(Bool))>>, <<"Option<Vec<u16>>", Opt(Vec(I("u16")))>>,
    <<"Option<BTreeMap<String,u8>>", Opt(SMap(I("u8")))>>, <<"Option<Box<char>>", Opt(Chr)>>,
    <<"Vec<u8>", Vec(I("u8"))>>, <<"Vec<f32>", Vec(F32)>>, <<"Vec<String>", Vec(Str)>>, <<"Vec<Vec<i64>>", Vec(Vec(I("i64")))>>, <<"Vec<Option<u32>>", Vec(Opt(I("u32")))>>,
    <<"Vec<(i8,char)>", Vec(Tup(<<I("i8"), Chr>>))>>, <<"Vec<Datetime>", Vec(<<"dt">>)>>,
    <<"HashSet<u8>", SetD(I("u8"))>>, <<"HashSet<String>", SetD(Str)>>, <<"HashSet<Vec<bool>>", SetD(Vec(Bool))>>, <<"BTreeSet<i16>", SetD(I("i16"))>>,
    <<"BTreeSet<char>", SetD(Chr)>>, <<"BTreeSet<Option<u64>>", SetD(Opt(I("u64")))>>,
    <<"HashMap<char,u8>", CMap(I("u8"))>>, <<"HashMap<char,Vec<char>>", CMap(Vec(Chr))>>, <<"HashMap<String,i32>", SMap(I("i32"))>>,
    <<"HashMap<String,HashMap<String,bool>>", SMap(SMap(Bool))>>, <<"BTreeMap<char,f64>", CMap(F64)>>, <<"BTreeMap<char,Option<i8>>", CMap(Opt(I("i8")))>>,
    <<"BTreeMap<String,u64>", SMap(I("u64"))>>, <<"BTreeMap<String,[u8;2]>", SMap(Arr(2, I("u8")))>>,
    <<"Box<i32>", I("i32")>>, <<"Rc<String>", Str>>, <<"Arc<Vec<u8>>", Vec(I("u8"))>>, <<"Mutex<Option<u16>>", Opt(I("u16"))>>, <<"Box<Rc<Arc<bool>>>", Bool>>,
    <<"[u8;0]", Arr(0, I("u8"))>>, <<"[i8;1]", Arr(1, I("i8"))>>, <<"[u16;3]", Arr(3, I("u16"))>>, <<"[String;2]", Arr(2, Str)>>, <<"[[bool;2];2]", Arr(2, Arr(2, Bool))>>,
    <<"[Option<u8>;2]", Arr(2, Opt(I("u8")))>>, <<"[char;5]", Arr(5, Chr)>>, <<"[f64;4]", Arr(4, F64)>>,
    <<"(u8,)", Tup(<<I("u8")>>)>>, <<"(u8,i8)", Tup(<<I("u8"), I("i8")>>)>>, <<"(bool,char,String)", Tup(<<Bool, Chr, Str>>)>>, <<"(u16,f32,i64,bool)", Tup(<<I("u16"), F32, I("i64"), Bool>>)>>,
    <<"(u8,u16,u32,u64,i8)", Tup(<<I("u8"), I("u16"), I("u32"), I("u64"), I("i8")>>)>>, <<"(i8,i16,i32,i64,f32,f64)", Tup(<<I("i8"), I("i16"), I("i32"), I("i64"), F32, F64>>)>>,
    <<"(char,u8,char,u8,char,u8,char)", Tup(<<Chr, I("u8"), Chr, I("u8"), Chr, I("u8"), Chr>>)>>,
    <<"(bool,u8,bool,u16,bool,u32,bool,u64)", Tup(<<Bool, I("u8"), Bool, I("u16"), Bool, I("u32"), Bool, I("u64")>>)>>,
    <<"(u8,u8,u8,u8,u8,u8,u8,u8,i16)", Tup([i \in 1..9 |-> IF i = 9 THEN I("i16") ELSE I("u8")])>>,
    <<"(i8,u8,i16,u16,i32,u32,i64,u64,bool,char)", Tup(<<I("i8"), I("u8"), I("i16"), I("u16"), I("i32"), I("u32"), I("i64"), I("u64"), Bool, Chr>>)>>,
    <<"((u8,bool),[i8;2])", Tup(<<Tup(<<I("u8"), Bool>>), Arr(2, I("i8"))>>)>>, <<"(Option<(i8,)>,Vec<Option<bool>>)", Tup(<<Opt(Tup(<<I("i8")>>)), Vec(Opt(Bool))>>)>>
>>
LOCAL Vecs(names, d) == [i \in 1..3 |-> <<names[i], Arr(i + 1, d)>>]
GlamTypes ==
    Vecs(<<"BVec2", "BVec3", "BVec4">>, Bool)
    \o Vecs(<<"U8Vec2", "U8Vec3", "U8Vec4">>, I("u8")) \o Vecs(<<"U16Vec2", "U16Vec3", "U16Vec4">>, I("u16")) \o Vecs(<<"UVec2", "UVec3", "UVec4">>, I("u32"))
    \o Vecs(<<"U64Vec2", "U64Vec3", "U64Vec4">>, I("u64")) \o Vecs(<<"I8Vec2", "I8Vec3", "I8Vec4">>, I("i8")) \o Vecs(<<"I16Vec2", "I16Vec3", "I16Vec4">>, I("i16"))
    \o Vecs(<<"IVec2", "IVec3", "IVec4">>, I("i32")) \o Vecs(<<"I64Vec2", "I64Vec3", "I64Vec4">>, I("i64"))
    \o Vecs(<<"Vec2", "Vec3", "Vec4">>, <<"g32">>) \o Vecs(<<"DVec2", "DVec3", "DVec4">>, F64)
    \o << <<"Vec3A", Arr(3, <<"g32">>)>>, <<"Quat", Arr(4, <<"g32">>)>>, <<"DQuat", Arr(4, F64)>> >>
    \o Vecs(<<"Mat2", "Mat3", "Mat4">>, <<"row">>) \o Vecs(<<"DMat2", "DMat3", "DMat4">>, <<"row">>) \o << <<"Mat3A", <<>> >> >>
    \o << <<"Affine2", <<>> >>, <<"Affine3A", <<>> >>, <<"DAffine2", <<>> >>, <<"DAffine3", <<>> >> >>
LOCAL Mat(n, d) == Arr(n, Arr(n, d))
\* The matrices and affine transformations; the other types are as listed.
GlamDesc(t, d) ==
    CASE t = "Mat2" -> Mat(2, <<"g32">>) [] t \in {"Mat3", "Mat3A"} -> Mat(3, <<"g32">>) [] t = "Mat4" -> Mat(4, <<"g32">>)
      [] t = "DMat2" -> Mat(2, F64) [] t = "DMat3" -> Mat(3, F64) [] t = "DMat4" -> Mat(4, F64)
      [] t = "Affine2" -> <<"aff", "matrix2", Mat(2, <<"g32">>), Arr(2, <<"g32">>)>>
      [] t = "Affine3A" -> <<"aff", "matrix3", Mat(3, <<"g32">>), Arr(3, <<"g32">>)>>
      [] t = "DAffine2" -> <<"aff", "matrix2", Mat(2, F64), Arr(2, F64)>>
      [] t = "DAffine3" -> <<"aff", "matrix3", Mat(3, F64), Arr(3, F64)>>
      [] OTHER -> d
CodecNames(kind) == {x[1] : x \in Ran(IF kind = "glam" THEN GlamTypes ELSE CodecTypes)}
DescOf(kind, t) ==
    LET q == IF kind = "glam" THEN GlamTypes ELSE CodecTypes
        d == q[CHOOSE i \in 1..Len(q) : q[i][1] = t][2]
    IN IF kind = "glam" THEN GlamDesc(t, d) ELSE d

-----------------------------------------------------------------------------
\* Integers as decimal strings.
DGT == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
LOCAL Neg(x) == Len(x) > 0 /\ SubSeq(x, 1, 1) = "-"
LOCAL Mag(x) == IF Neg(x) THEN SubSeq(x, 2, Len(x)) ELSE x
LOCAL DigitOf(c) == CHOOSE i \in 1..10 : DGT[i] = c
RECURSIVE LexLeq(_, _)
LexLeq(x, y) == IF x = "" THEN TRUE
                ELSE LET p == DigitOf(SubSeq(x, 1, 1))
                         q == DigitOf(SubSeq(y, 1, 1))
                     IN p < q \/ (p = q /\ LexLeq(SubSeq(x, 2, Len(x)), SubSeq(y, 2, Len(y))))
MagLeq(x, y) == Len(x) < Len(y) \/ (Len(x) = Len(y) /\ LexLeq(x, y))
IntLeq(x, y) == CASE Neg(x) /\ ~Neg(y) -> TRUE
                  [] ~Neg(x) /\ Neg(y) -> FALSE
                  [] Neg(x) /\ Neg(y)  -> MagLeq(Mag(y), Mag(x))
                  [] OTHER             -> MagLeq(x, y)
MinOf == [u8 |-> "0", u16 |-> "0", u32 |-> "0", u64 |-> "0", i8 |-> "-128", i16 |-> "-32768", i32 |-> "-2147483648", i64 |-> "-9223372036854775808"]
MaxOf == [u8 |-> "255", u16 |-> "65535", u32 |-> "4294967295", u64 |-> "18446744073709551615", i8 |-> "127", i16 |-> "32767", i32 |-> "2147483647", i64 |-> "9223372036854775807"]
InRange(t, x) == IntLeq(MinOf[t], x) /\ IntLeq(x, MaxOf[t])

\* IPv4 addresses: four numbers up to 255 without needless zeros.
RECURSIVE Fields(_, _, _)
Fields(str, i, cur) == IF i > Len(str) THEN <<cur>>
                       ELSE IF SubSeq(str, i, i) = "." THEN <<cur>> \o Fields(str, i + 1, "")
                       ELSE Fields(str, i + 1, cur \o SubSeq(str, i, i))
LOCAL Digits(x) == Len(x) > 0 /\ \A i \in 1..Len(x) : SubSeq(x, i, i) \in Ran(DGT)
IsV4(str) == Len(str) <= 15 /\ LET q == Fields(str, 1, "")
                               IN Len(q) = 4 /\ \A i \in 1..4 : Digits(q[i]) /\ Len(q[i]) <= 3 /\ IntLeq(q[i], "255")
                                                               /\ (Len(q[i]) = 1 \/ SubSeq(q[i], 1, 1) # "0")
HasColon(str) == \E i \in 1..Len(str) : SubSeq(str, i, i) = ":"

-----------------------------------------------------------------------------
\* What a document value stands for: a value, nothing (it is refused), or left open.
Yes(v) == [k |-> "yes", v |-> v]
No     == [k |-> "no"]
Open   == [k |-> "open"]
All(rs) == IF \E i \in 1..Len(rs) : rs[i].k = "no" THEN No
           ELSE IF \E i \in 1..Len(rs) : rs[i].k = "open" THEN Open
           ELSE Yes([i \in 1..Len(rs) |-> rs[i].v])
LOCAL KeyAt(tab, k) == {i \in 1..Len(tab) : tab[i][1] = k}

RECURSIVE Decode(_, _)
Decode(d, doc) ==
    LET is(k) == doc[1] = k
        kids(f(_)) == All([i \in 1..Len(doc[2]) |-> f(i)])
        table(keyok(_)) ==
            IF ~is("tab") THEN No
            ELSE IF \E i \in 1..Len(doc[2]) : ~keyok(doc[2][i]) THEN No
            ELSE LET r == kids(LAMBDA i : Decode(d[2], doc[2][i][3]))
                 IN IF r.k # "yes" THEN r ELSE Yes([i \in 1..Len(r.v) |-> <<doc[2][i][1], r.v[i]>>])
    IN CASE d[1] = "bool" -> IF is("bool") THEN Yes(doc[2]) ELSE No
         [] d[1] = "int"  -> IF ~is("int") THEN No
                             ELSE IF InRange(d[2], doc[2]) THEN Yes(doc[2])
                             \* The numbers above the largest a document can hold are stored as negative ones.
                             ELSE IF d[2] = "u64" THEN Open ELSE No
         [] d[1] = "f64"  -> IF is("float") THEN Yes(doc[2]) ELSE IF is("int") THEN Open ELSE No
         [] d[1] = "f32"  -> IF is("float") THEN (IF doc[3] = "over" THEN No ELSE Yes(doc[3])) ELSE IF is("int") THEN Open ELSE No
         \* The components of vectors: nothing is said of those out of range.
         [] d[1] = "g32"  -> IF is("float") THEN (IF doc[3] = "over" THEN Open ELSE Yes(doc[3])) ELSE IF is("int") THEN Open ELSE No
         [] d[1] = "char" -> IF is("str") THEN (IF doc[3] = 1 THEN Yes(doc[2]) ELSE No) ELSE No
         [] d[1] = "str"  -> IF is("str") THEN Yes(doc[2]) ELSE No
         [] d[1] = "path" -> IF is("str") THEN Yes(doc[2]) ELSE No
         [] d[1] = "npath" -> IF is("str") THEN Yes(PrintPath(ParsePath(doc[2]))) ELSE No
         [] d[1] = "v4"   -> IF is("str") THEN (IF IsV4(doc[2]) THEN Yes(doc[2]) ELSE No) ELSE No
         [] d[1] = "v6"   -> IF is("str") THEN (IF HasColon(doc[2]) THEN Open ELSE No) ELSE No
         [] d[1] = "ip"   -> IF is("str") THEN (IF IsV4(doc[2]) THEN Yes(doc[2]) ELSE IF HasColon(doc[2]) THEN Open ELSE No) ELSE No
         [] d[1] = "dur"  -> IF ~is("float") THEN (IF is("int") THEN Open ELSE No)
                             ELSE IF Neg(doc[2]) \/ doc[2] \in {"nan", "inf"} THEN No ELSE Open
         [] d[1] = "dt"   -> IF is("dt") THEN Yes(doc[2]) ELSE No
         [] d[1] = "opt"  -> IF ~is("tab") THEN No
                             ELSE LET at == KeyAt(doc[2], "value")
                                  IN IF at = {} THEN (IF doc[2] = <<>> THEN Yes(<<>>) ELSE No)
                                     ELSE LET r == Decode(d[2], doc[2][CHOOSE i \in at : TRUE][3])
                                          IN IF r.k # "yes" THEN r ELSE IF Len(doc[2]) > 1 THEN Open ELSE Yes(<<r.v>>)
         [] d[1] \in {"vec", "set"} -> IF ~is("arr") THEN No ELSE kids(LAMBDA i : Decode(d[2], doc[2][i]))
         [] d[1] = "arr"  -> IF ~is("arr") THEN No ELSE IF Len(doc[2]) # d[2] THEN No ELSE kids(LAMBDA i : Decode(d[3], doc[2][i]))
         [] d[1] = "tup"  -> IF ~is("arr") THEN No ELSE IF Len(doc[2]) # Len(d) - 1 THEN No ELSE kids(LAMBDA i : Decode(d[i + 1], doc[2][i]))
         [] d[1] = "cmap" -> table(LAMBDA e : e[2] = 1)
         [] d[1] = "smap" -> table(LAMBDA e : TRUE)
         [] d[1] = "aff"  -> IF ~is("tab") THEN No
                             ELSE LET a == KeyAt(doc[2], d[2])
                                      b == KeyAt(doc[2], "translation")
                                  IN IF a = {} \/ b = {} THEN No
                                     ELSE LET r == All(<<Decode(d[3], doc[2][CHOOSE i \in a : TRUE][3]), Decode(d[4], doc[2][CHOOSE i \in b : TRUE][3])>>)
                                          IN IF r.k = "yes" /\ Len(doc[2]) > 2 THEN Open ELSE r

\* Whether x and y are the same value: sets and maps are compared without regard to order.
RECURSIVE SameVal(_, _, _)
SameVal(d, x, y) ==
    LET each(f(_)) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : SameVal(f(i), x[i], y[i])
        in(q, v, e) == \E j \in 1..Len(q) : SameVal(e, q[j], v)
    IN CASE d[1] \in {"vec", "opt"} -> each(LAMBDA i : d[2])
         [] d[1] = "arr" -> each(LAMBDA i : d[3])
         [] d[1] = "tup" -> each(LAMBDA i : d[i + 1])
         [] d[1] = "aff" -> each(LAMBDA i : d[i + 2])
         [] d[1] = "set" -> (\A i \in 1..Len(x) : in(y, x[i], d[2])) /\ (\A i \in 1..Len(y) : in(x, y[i], d[2]))
         [] d[1] \in {"cmap", "smap"} ->
              /\ Len(x) = Len(y)
              /\ \A i \in 1..Len(x) : \E j \in 1..Len(y) : y[j][1] = x[i][1] /\ SameVal(d[2], x[i][2], y[j][2])
         [] OTHER -> x = y

\* Whether an answer ("yes" with a value, "no", "panic") is one the specification allows.
Answer(d, want, got) ==
    CASE want.k = "yes" -> got[1] = "yes" /\ SameVal(d, want.v, got[2])
      [] want.k = "no"  -> got[1] = "no"
      [] OTHER          -> got[1] # "panic"
CodecOk(kind, t, e) ==
    LET d    == DescOf(kind, t)
        want == IF e.op = "rt" THEN Yes(e.v) ELSE Decode(d, e.doc)
    IN \A i \in 1..Len(e.got) : Answer(d, want, e.got[i])

-----------------------------------------------------------------------------
\* The document values which stand for a value, as far as they are fixed.
RECURSIVE Encode(_, _)
Encode(d, v) ==
    LET list(f(_)) == <<"arr", [i \in 1..Len(v) |-> Encode(f(i), v[i])]>>
        map == <<"tab", [i \in 1..Len(v) |-> <<v[i][1], Len(v[i][1]), Encode(d[2], v[i][2])>>]>>
    IN CASE d[1] = "bool" -> <<"bool", v>>
         [] d[1] = "int"  -> IF d[2] = "u64" /\ ~IntLeq(v, MaxOf.i64) THEN <<"int", "-1">> ELSE <<"int", v>>
         [] d[1] \in {"f64", "f32", "g32"} -> <<"float", v, v>>
         [] d[1] = "dur"  -> <<"float", "1.0", "1.0">>
         [] d[1] = "dt"   -> <<"dt", v>>
         [] d[1] = "opt"  -> IF v = <<>> THEN <<"tab", <<>>>> ELSE <<"tab", << <<"value", 5, Encode(d[2], v[1])>> >> >>
         [] d[1] \in {"vec", "set"} -> list(LAMBDA i : d[2])
         [] d[1] = "arr"  -> list(LAMBDA i : d[3])
         [] d[1] = "tup"  -> list(LAMBDA i : d[i + 1])
         [] d[1] \in {"cmap", "smap"} -> map
         [] d[1] = "aff"  -> <<"tab", << <<d[2], 7, Encode(d[3], v[1])>>, <<"translation", 11, Encode(d[4], v[2])>> >> >>
         [] OTHER         -> <<"str", v, Len(v)>>

\* Some values of every type: two to four of the simple ones, and few combinations of those.
RECURSIVE Values(_)
Values(d) ==
    LET few(e) == LET v == Values(e) IN IF Cardinality(v) <= 2 THEN v ELSE LET x == CHOOSE w \in v : TRUE IN {x, CHOOSE w \in v : ToString(w) # ToString(x)}
        oneOff(n, f(_)) == LET base == [i \in 1..n |-> CHOOSE w \in few(f(i)) : TRUE]
                           IN {base} \cup UNION {{[base EXCEPT ![j] = x] : x \in few(f(j))} : j \in 1..n}
    IN CASE d[1] = "bool" -> {TRUE, FALSE}
         [] d[1] = "int"  -> {MinOf[d[2]], MaxOf[d[2]], "0", "1", "77"}
         [] d[1] \in {"f64", "f32", "g32"} -> {"0.0", "1.5", "-2.25", "nan", "inf", "-inf", "16777216.0"}
         [] d[1] = "char" -> {"a", " ", "Z"}
         [] d[1] = "str"  -> {"", "a", "b c", "\"", "\\n"}
         [] d[1] = "npath" -> {"", "/", "A/B", "/A/..", "."}
         [] d[1] = "path" -> {"", "/tmp/x", "a b"}
         [] d[1] = "v4"   -> {"0.0.0.0", "127.0.0.1", "255.255.255.255"}
         [] d[1] = "v6"   -> {"::", "::1", "2001:db8::ff00:42:8329", "::ffff:1.2.3.4"}
         [] d[1] = "ip"   -> {"10.0.0.1", "::1"}
         [] d[1] = "dur"  -> {"0", "1", "1500000000", "4492799999999999"}
         [] d[1] = "dt"   -> {"1979-05-27", "07:32:00", "1979-05-27T07:32:00Z", "1979-05-27T00:32:00.999999-07:00"}
         [] d[1] = "opt"  -> {<<>>} \cup {<<v>> : v \in Values(d[2])}
         [] d[1] \in {"vec"} -> {<<>>} \cup {<<v>> : v \in Values(d[2])} \cup {<<v, w>> : v \in few(d[2]), w \in few(d[2])} \cup {<<v, v, v>> : v \in few(d[2])}
         [] d[1] = "set"  -> {<<>>} \cup {<<v>> : v \in Values(d[2])} \cup {<<v, w>> : v, w \in few(d[2])}
         [] d[1] = "arr"  -> oneOff(d[2], LAMBDA i : d[3])
         [] d[1] = "tup"  -> oneOff(Len(d) - 1, LAMBDA i : d[i + 1])
         [] d[1] = "cmap" -> {<<>>} \cup {<< <<"k", v>> >> : v \in Values(d[2])} \cup {<< <<"k", v>>, <<".", w>> >> : v \in few(d[2]), w \in few(d[2])}
         [] d[1] = "smap" -> {<<>>} \cup {<< <<k, v>> >> : k \in {"k", "", "value", "a b", "\""}, v \in few(d[2])} \cup {<< <<"x", v>>, <<"a.b", w>> >> : v \in few(d[2]), w \in few(d[2])}
         [] d[1] = "aff"  -> {<<v, w>> : v \in few(d[3]), w \in few(d[4])}

\* Documents of every kind, and what can happen to a good one.
Generic == {<<"bool", TRUE>>, <<"int", "5">>, <<"int", "-1">>, <<"int", "-129">>, <<"int", "128">>, <<"int", "256">>, <<"int", "300">>, <<"int", "32768">>, <<"int", "-32769">>, <<"int", "65536">>,
            <<"int", "4294967296">>, <<"int", "4294967295">>, <<"int", "2147483648">>, <<"int", "9223372036854775807">>, <<"int", "-9223372036854775808">>,
            <<"float", "2.5", "2.5">>, <<"float", "-1.0", "-1.0">>, <<"float", "nan", "nan">>, <<"float", "inf", "inf">>, <<"float", "1e300", "over">>,
            <<"str", "", 0>>, <<"str", "a", 1>>, <<"str", "ab", 2>>, <<"str", "1.2.3.4", 7>>, <<"str", "1.2.3.04", 8>>, <<"str", "256.1.1.1", 9>>, <<"str", "1.2.3", 5>>, <<"str", "5", 1>>, <<"str", "true", 4>>,
            <<"dt", "1979-05-27">>, <<"arr", <<>>>>, <<"arr", << <<"int", "1">>, <<"int", "2">> >> >>, <<"arr", << <<"str", "a", 1>> >> >>,
            <<"tab", <<>>>>, <<"tab", << <<"value", 5, <<"int", "5">> >> >> >>, <<"tab", << <<"valeu", 5, <<"int", "5">> >> >> >>, <<"tab", << <<"ab", 2, <<"bool", TRUE>> >> >> >>}
Odd == {<<"bool", TRUE>>, <<"int", "300">>, <<"float", "2.5", "2.5">>, <<"str", "ab", 2>>, <<"arr", <<>>>>, <<"tab", <<>>>>}
RECURSIVE Damage(_)
Damage(doc) ==
    LET q == doc[2]
        n == Len(q)
        without(i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, n)
    IN Odd \cup
       CASE doc[1] = "arr" -> UNION {{<<"arr", without(i)>>, <<"arr", q \o <<q[i]>> >>} \cup {<<"arr", [q EXCEPT ![i] = x]>> : x \in Damage(q[i])} : i \in 1..n}
         [] doc[1] = "tab" -> UNION {{<<"tab", without(i)>>, <<"tab", [q EXCEPT ![i] = <<"zz", 2, q[i][3]>>]>>, <<"tab", q \o << <<"other", 5, q[i][3]>> >> >>}
                                     \cup {<<"tab", [q EXCEPT ![i] = <<q[i][1], q[i][2], x>>]>> : x \in Damage(q[i][3])} : i \in 1..n}
         [] OTHER -> {}
Documents(d) == Generic \cup UNION {Damage(Encode(d, v)) \cup {Encode(d, v)} : v \in Values(d)}
\* What is written for a value stands for that value.
CodecConsistent(d, v) == LET r == Decode(d, Encode(d, v)) IN r.k = "open" \/ (r.k = "yes" /\ SameVal(d, v, r.v))
=============================================================================
