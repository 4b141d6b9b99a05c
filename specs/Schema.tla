------------------------------- MODULE Schema -------------------------------
(* Schemas of configuration: what a tree of descriptors makes of a value.                                *)
(* Values: none, bool, int, flt (in quarters), inf, str, seq, pairs (sorted by Keys), FileObject,        *)
(* DirectoryObject, bytes                                                                                *)
EXTENDS Val
Keys == <<"a", "b", "c", "d">>
Fail == <<"fail">>
Flt(q) == <<"flt", q>>
IsSeq(v) == v[1] = "seq"
IsMap(v) == v[1] = "pairs"
HasKey(m, k) == \E j \in 2..Len(m) : m[j][1] = k
Get(m, k) == LET j == CHOOSE j \in 2..Len(m) : m[j][1] = k IN m[j][2]
(* what the strings stand for *)
StrInt(x) == CASE x = "5" -> 5 [] x = " 12 " -> 12 [] x = "-1" -> -1 [] OTHER -> 999
StrFlt(x) == CASE x = "2.5" -> 10 [] StrInt(x) # 999 -> 4 * StrInt(x) [] OTHER -> 9999
Trunc(q) == IF q >= 0 THEN q \div 4 ELSE -((-q) \div 4)
Frac(n) == CASE n = 0 -> ".0" [] n = 1 -> ".25" [] n = 2 -> ".5" [] n = 3 -> ".75"
FltStr(q) == (IF q < 0 THEN "-" ELSE "") \o ToString((IF q < 0 THEN -q ELSE q) \div 4) \o Frac((IF q < 0 THEN -q ELSE q) % 4)
IsTrue(x) == x \in {"true", "TRUE", "True", "tRuE"}
IsFalse(x) == x \in {"false", "FALSE", "False"}
Addresses == {"1.2.3.4", "255.255.255.255", "0.0.0.0"}
Matching == {"ab", "abb"}
Files == {"f", "dir/g"}
Dirs == {"dir"}
Bytes(q) == <<"bytes">> \o [k \in 1..Len(q) |-> Int_(q[k])]

MkInt(v) == CASE v[1] = "bool" -> Int_(IF v[2] THEN 1 ELSE 0) [] v[1] = "int" -> v [] v[1] = "flt" -> Int_(Trunc(v[2]))
              [] v[1] = "str" -> IF StrInt(v[2]) = 999 THEN Fail ELSE Int_(StrInt(v[2])) [] OTHER -> Fail
MkFlt(v) == CASE v[1] = "bool" -> Flt(IF v[2] THEN 4 ELSE 0) [] v[1] = "int" -> Flt(4 * v[2]) [] v[1] \in {"flt", "inf"} -> v
              [] v[1] = "str" -> IF v[2] = "inf" THEN <<"inf">> ELSE IF StrFlt(v[2]) = 9999 THEN Fail ELSE Flt(StrFlt(v[2])) [] OTHER -> Fail
MkStr(v) == CASE v[1] = "bool" -> Str_(IF v[2] THEN "True" ELSE "False") [] v[1] = "int" -> Str_(ToString(v[2])) [] v[1] = "flt" -> Str_(FltStr(v[2]))
              [] v[1] = "str" -> v [] v[1] = "none" -> Str_("None") [] v[1] = "inf" -> Str_("inf") [] OTHER -> Str_("?")
MkBool(v) == CASE v[1] = "bool" -> v [] v[1] \in {"int", "flt"} -> Bool_(v[2] # 0) [] v[1] = "inf" -> Bool_(TRUE) [] v[1] = "none" -> Bool_(FALSE)
               [] v[1] = "str" -> IF IsTrue(v[2]) THEN Bool_(TRUE) ELSE IF IsFalse(v[2]) THEN Bool_(FALSE) ELSE Fail
               [] OTHER -> Bool_(Len(v) > 1)
RECURSIVE Mk(_, _)
MkDict(d, v) ==
    IF ~IsMap(v) THEN Fail
    ELSE LET ks == {d[j] : j \in 2..Len(d)}
             one(k) == IF HasKey(v, k[2]) THEN Mk(k[3], Get(v, k[2])) ELSE IF k[4] THEN k[5] ELSE Fail
             known(k) == \E x \in ks : x[2] = k
             val(k) == IF known(k) THEN one(CHOOSE x \in ks : x[2] = k) ELSE Get(v, k)
             all == SelectSeq(Keys, LAMBDA k : known(k) \/ HasKey(v, k))
         IN IF \E x \in ks : one(x) = Fail THEN Fail ELSE <<"pairs">> \o [j \in 1..Len(all) |-> <<all[j], val(all[j])>>]
MkUnion(d, v) == LET U[j \in 2..(Len(d) + 1)] == IF j > Len(d) THEN Fail ELSE LET m == Mk(d[j], v) IN IF m = Fail THEN U[j + 1] ELSE m IN U[2]
Mk(d, v) ==
    LET k == d[1] IN
    CASE k = "any" -> v
      [] k = "int" -> MkInt(v)
      [] k = "float" -> MkFlt(v)
      [] k = "str" -> MkStr(v)
      [] k = "bool" -> MkBool(v)
      [] k = "ipv4" -> LET x == MkStr(v) IN IF x[2] \in Addresses THEN x ELSE Fail
      [] k = "regexp" -> LET x == MkStr(v) IN IF x[2] \in Matching THEN Str_(IF d[2] THEN "ab" ELSE x[2]) ELSE Fail
      [] k = "list" -> IF ~IsSeq(v) THEN Fail
                       ELSE LET m == [j \in 1..(Len(v) - 1) |-> Mk(d[2], v[j + 1])] IN IF \E j \in DOMAIN m : m[j] = Fail THEN Fail ELSE Seq_(m)
      [] k = "dict" -> MkDict(d, v)
      [] k = "union" -> MkUnion(d, v)
      [] k = "caster" -> LET x == MkInt(v) IN IF x = Fail THEN Fail ELSE Int_(IF d[2] = "neg" THEN -x[2] ELSE x[2])
      [] k = "enum" -> IF v[1] \in {"int", "flt", "bool"} /\ MkFlt(v) \in {Flt(0), Flt(4)} THEN <<"member", IF MkFlt(v) = Flt(0) THEN "ZERO" ELSE "ONE">> ELSE Fail
      [] k = "file" -> IF v[1] = "str" /\ v[2] \in Files THEN <<"FileObject", v[2]>> ELSE Fail
      [] k = "dir" -> IF v[1] = "str" /\ v[2] \in Dirs THEN <<"DirectoryObject", v[2]>> ELSE Fail
      [] k = "contents" -> IF v[1] = "str" /\ v[2] \in Files
                           THEN IF v[2] = "f" THEN IF d[2] = "" THEN Bytes(IF d[3] THEN <<195, 179>> ELSE <<195, 179, 10>>) ELSE Str_(IF d[3] THEN "OACUTE" ELSE "OACUTE+")
                                ELSE IF d[2] = "" THEN Bytes(<<255>>) ELSE Fail
                           ELSE Fail
      (* checked before, or after the value was made: it is of kind d[3], and at least d[4] if it is a number *)
      [] k = "checked" -> LET ok(x) == x[1] = d[4] /\ (x[1] = "int" => x[2] >= 3)
                              m == Mk(d[2], v)
                          IN IF d[3] THEN IF ok(v) THEN m ELSE Fail ELSE IF m = Fail \/ ~ok(m) THEN Fail ELSE m

Pairs(q) == <<"pairs">> \o q
D_any == <<"any">>
D_int == <<"int">>
D_str == <<"str">>
D_ab == <<"dict", <<"key", "a", D_int, FALSE, None>>, <<"key", "b", D_str, TRUE, None>>>>
D_def == <<"dict", <<"key", "a", D_int, TRUE, Int_(7)>>, <<"key", "b", <<"list", D_str>>, TRUE, Seq_(<<>>)>>, <<"key", "c", D_any, TRUE, Seq_(<<Seq_(<<Int_(1)>>)>>)>>, <<"key", "d", D_str, TRUE, None>>>>
Descs == <<D_any, D_int, D_str, <<"float">>, <<"bool">>, <<"ipv4">>, <<"regexp", TRUE>>, <<"regexp", FALSE>>, <<"list", D_any>>, <<"list", D_int>>, <<"list", <<"list", <<"bool">>>>>>, D_ab, D_def,
    <<"dict">>, <<"dict", <<"key", "c", D_ab, FALSE, None>>>>, <<"list", D_def>>, <<"union", D_int, D_str>>, <<"union", <<"list", D_int>>, D_ab>>, <<"union">>, <<"union", <<"bool">>, <<"ipv4">>, <<"float">>>>,
    <<"caster", "int">>, <<"caster", "neg">>, <<"enum">>, <<"union", <<"enum">>, <<"caster", "int">>, D_any>>, <<"file">>, <<"dir">>, <<"union", <<"file">>, <<"dir">>>>, <<"contents", "", FALSE>>, <<"contents", "utf-8", FALSE>>,
    <<"contents", "utf-8", TRUE>>, <<"contents", "", TRUE>>, <<"checked", D_int, TRUE, "str">>, <<"checked", D_int, FALSE, "int">>, <<"checked", <<"caster", "neg">>, FALSE, "int">>, <<"checked", D_str, TRUE, "int">>,
    <<"dict", <<"key", "d", <<"checked", D_int, FALSE, "int">>, TRUE, Int_(1)>>, <<"key", "a", <<"union", D_int, <<"list", D_any>>>>, FALSE, None>>>>, <<"list", <<"union", D_ab, D_int>>>>>>
Vals == {None, Bool_(TRUE), Bool_(FALSE), Int_(0), Int_(1), Int_(5), Int_(-2), Flt(0), Flt(4), Flt(11), Flt(-6), <<"inf">>} \cup
        {Str_(x) : x \in {"5", " 12 ", "-1", "2.5", "x", "", "true", "tRuE", "FALSE", "inf", "1.2.3.4", "255.255.255.255", "1.2.3.4x", "1.2.3.4\n", "1.2.3.999", "1.2.3", "a.b.c.d", "ab", "abb", "a", "xab", "f", "dir", "dir/g", "nofile"}} \cup
        {Seq_(<<>>), Seq_(<<Int_(1), Str_("5")>>), Seq_(<<Flt(11)>>), Seq_(<<Str_("x")>>), Seq_(<<Seq_(<<Int_(0), Str_("true")>>)>>), Seq_(<<None>>)} \cup
        {Pairs(<<>>), Pairs(<<<<"a", Int_(1)>>>>), Pairs(<<<<"a", Str_("5")>>, <<"b", Int_(6)>>>>), Pairs(<<<<"a", Str_("x")>>>>), Pairs(<<<<"b", Seq_(<<Int_(3)>>)>>>>), Pairs(<<<<"a", Int_(1)>>, <<"d", None>>>>),
         Pairs(<<<<"c", Pairs(<<<<"a", Int_(3)>>>>)>>>>), Pairs(<<<<"c", Pairs(<<>>)>>>>), Seq_(<<Pairs(<<>>), Pairs(<<<<"a", Str_("5")>>>>)>>), Seq_(<<Pairs(<<<<"a", Int_(1)>>>>), Int_(2)>>), Pairs(<<<<"a", Seq_(<<None>>)>>, <<"d", Int_(4)>>>>), Pairs(<<<<"a", Int_(1)>>, <<"d", Int_(2)>>>>)}

(* direct: made of classes; dict: loaded from a dict *)
Expressible(d, form) == LET D == d IN form = "direct" \/ D[1] \notin {"checked", "regexp", "enum"}
CCfgs == [k \in 1..(2 * Len(Descs)) |-> [desc |-> Descs[(k + 1) \div 2], form |-> IF k % 2 = 1 THEN "direct" ELSE "dict"]]
CInit(cfg) == cfg
COps(st) == <<{[op |-> "other", a |-> <<k>>] : k \in {"tuple", "set", "frozenset", "dict", "str", "iter", "bytes"}}, {[op |-> "eval", a |-> <<v>>] : v \in Vals}>>
CApply(st, e) == IF e.op = "other" THEN One(st, IF e.a[1] = "tuple" THEN Seq_(<<Int_(1), Int_(2)>>) ELSE Exc("ConfigurationValidationError"))
                 ELSE IF e.op # "eval" THEN {} ELSE LET m == Mk(st.desc, e.a[1]) IN One(st, IF m = Fail THEN Exc("ConfigurationValidationError") ELSE m)
Plain == {"any", "int", "float", "str", "bool", "ipv4", "list"}
(* what was made of a value is made of itself again *)
RECURSIVE IsPlain(_)
IsPlain(d) == d[1] \in Plain /\ (d[1] = "list" => IsPlain(d[2]))
CInv(st) == IsPlain(st.desc) => \A v \in Vals : LET m == Mk(st.desc, v) IN m # Fail => Mk(st.desc, m) = m
(* only the declared exception, and required keys are always there *)
CStep(st, e, r, t) == t = st /\ (e.op = "eval" /\ st.desc[1] = "dict" /\ r[1] = "pairs" => \A j \in 2..Len(st.desc) : HasKey(r, st.desc[j][2]))
=============================================================================
