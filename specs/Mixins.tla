------------------------------ MODULE Mixins ------------------------------
(* equality, order and hashing given by mix-ins; assert_equal                                              *)
EXTENDS Val

(* M: all that can be asked of two things: ==, != on both sides, <, <=, >, >=; that equal ones hash the    *)
(* same, and how many keys of a dictionary they are                                                        *)
MCfgs == <<[x |-> 0]>>
MInit(cfg) == cfg
Kinds == {"by", "byproperty", "byint", "bystr"}
Fields2 == {<<a, b>> : a \in {1, 2}, b \in {1, 2}}
(* members of enumerations: class and value *)
Members == {<<"CE", "test">>, <<"CE", "n2">>, <<"CE2", "test">>, <<"CE2", "n3">>, <<"plain", "test">>, <<"plain", "n2">>}
Raw == {<<"raw", "test">>, <<"raw", "n2">>, <<"raw", "n7">>, <<"raw", "no">>, <<"raw", "none">>, <<"raw", "list">>, <<"raw", "dict">>}
Dicts == {<<c, p>> : c \in {"D1", "D2", "D1sub"}, p \in {<<>>, <<<<"a", 1>>>>, <<<<"a", 2>>>>, <<<<"a", 1>>, <<"b", 2>>>>, <<<<"b", 2>>, <<"a", 1>>>>, <<<<"c", 5>>>>}}
IntLike == {<<"cie", 0>>, <<"cie", 2>>, <<"cie2", 2>>, <<"hie", 2>>, <<"int", 0>>, <<"int", 1>>, <<"int", 2>>, <<"half", 3>>, <<"half", 4>>, <<"hasint", 2>>, <<"hasint", 0>>}
NotInt == {<<"none", 0>>, <<"str", 0>>, <<"list", 0>>}
MOps(st) == <<{[op |-> "order", a |-> <<k, x, y>>] : k \in Kinds, x \in 1..3, y \in 1..3},
              {[op |-> "foreign", a |-> <<k, f>>] : k \in Kinds \cup {"omni", "omnistr", "dict", "id"}, f \in {"none", "list", "object"}},
              {[op |-> "omni", a |-> <<k, x, y, m>>] : k \in {"omni", "omnistr"}, x \in Fields2, y \in Fields2, m \in {"same", "sub", "other", "missing"}},
              {[op |-> "enum", a |-> <<x, y>>] : x \in {m \in Members : m[1] # "plain"}, y \in Members \cup Raw},
              {[op |-> "intenum", a |-> <<x, y>>] : x \in {i \in IntLike : i[1] = "cie"}, y \in IntLike}, {[op |-> "notint", a |-> <<x, y>>] : x \in {<<"cie", 0>>, <<"cie", 2>>}, y \in NotInt},
              {[op |-> "dict", a |-> <<x, y>>] : x \in Dicts, y \in Dicts}, {[op |-> "id", a |-> <<b>>] : b \in BOOLEAN},
              {[op |-> "strs", a |-> <<x, y, how>>] : x \in {"a", "b"}, y \in {"a", "b"}, how \in {"object", "string"}},
              {[op |-> "name", a |-> <<n>>] : n \in {"A", "B", "C"}}, {[op |-> "repr", a |-> <<q, full>>] : q \in {<<>>, <<Int_(2)>>, <<Str_("2"), None>>}, full \in BOOLEAN}>>
Eq(same) == <<Bool_(same), Bool_(~same), Bool_(same), Bool_(~same)>>
HalfOf(x) == IF x[1] = "half" THEN x[2] ELSE 2 * x[2]
Field(k, x) == IF k = "omni" THEN x ELSE x[1]
ReprOf(v) == CASE v[1] = "int" -> ToString(v[2]) [] v[1] = "str" -> "'" \o v[2] \o "'" [] v[1] = "none" -> "None"
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o ", " \o Join(Tail(q))
SameVal(x, y) == x[2] = y[2]
Cmp(a, b) == <<Bool_(a < b), Bool_(a <= b), Bool_(a > b), Bool_(a >= b)>>
MApply(st, e) ==
    CASE e.op = "order" -> LET a == e.a[2] b == e.a[3] IN One(st, Seq_(Eq(a = b) \o <<Bool_(TRUE), Int_(IF a = b THEN 1 ELSE 2)>> \o Cmp(a, b)))
      [] e.op = "foreign" -> One(st, Seq_(Eq(FALSE)))
      [] e.op = "omni" -> LET same == Field(e.a[1], e.a[2]) = Field(e.a[1], e.a[3]) /\ e.a[4] = "same" IN
                          One(st, Seq_(Eq(same) \o <<Bool_(TRUE), Int_(IF same THEN 1 ELSE 2)>>))
      [] e.op = "enum" -> LET same == SameVal(e.a[1], e.a[2]) IN One(st, Seq_(Eq(same) \o (IF e.a[2][1] = "plain" \/ e.a[2][2] \in {"list", "dict"} THEN <<>> ELSE <<Bool_(TRUE), Int_(IF same THEN 1 ELSE 2)>>)))
      [] e.op = "intenum" -> LET a == HalfOf(e.a[1]) b == HalfOf(e.a[2]) IN
                             One(st, Seq_(Eq(a = b) \o (IF e.a[2][1] = "hasint" THEN <<>> ELSE <<Bool_(TRUE), Int_(IF a = b THEN 1 ELSE 2)>>) \o Cmp(a, b)))
      [] e.op = "notint" -> One(st, Seq_(Eq(FALSE)))
      [] e.op = "dict" -> One(st, Seq_(Eq(e.a[1][1] = e.a[2][1] /\ Range(e.a[1][2]) = Range(e.a[2][2]))))
      [] e.op = "id" -> One(st, Seq_(Eq(e.a[1]) \o <<Bool_(TRUE), Int_(IF e.a[1] THEN 1 ELSE 2)>>))
      [] e.op = "strs" -> LET same == e.a[1] = e.a[2] IN One(st, Seq_(Eq(same) \o <<Bool_(TRUE), Int_(IF same THEN 1 ELSE 2)>>))
      [] e.op = "name" -> One(st, Str_(e.a[1]))
      [] e.op = "repr" -> One(st, Str_((IF e.a[2] THEN "module.Outer.Inner" ELSE "Inner") \o "(" \o Join([k \in 1..Len(e.a[1]) |-> ReprOf(e.a[1][k])]) \o ")"))
MInv(st) == TRUE
(* == and != are opposites and symmetrical; of <, == and > exactly one holds *)
MStep(st, e, r, t) ==
    /\ r[1] = "seq" => r[2] = r[4] /\ r[3] = r[5] /\ r[2][2] = ~r[3][2]
    /\ e.op = "order" => LET b(k) == IF r[k][2] THEN 1 ELSE 0 IN b(8) + b(10) + b(2) = 1 /\ r[9][2] = (r[8][2] \/ r[2][2]) /\ r[11][2] = (r[10][2] \/ r[2][2])

(* A: assert_equal goes into lists, dictionaries and sets *)
ACfgs == MCfgs
AInit(cfg) == cfg
L(q) == <<"seq">> \o q
T(q) == <<"tup">> \o q
S(q) == <<"set">> \o q
D(q) == <<"pairs">> \o q
N(n) == <<"obj", n>>
Sc == {Int_(1), Int_(2), Str_("a"), None, N(1), N(2), <<"bad", 0>>}
V1 == Sc \cup {L(<<>>), L(<<Int_(1)>>), L(<<Int_(1), Int_(2)>>), L(<<Int_(2), Int_(1)>>), L(<<N(1)>>), L(<<Str_("a")>>), S(<<Int_(1)>>), S(<<Int_(2)>>), S(<<Int_(1), Int_(2)>>), D(<<>>), D(<<<<Str_("k"), Int_(1)>>>>),
             D(<<<<Str_("k"), Int_(2)>>>>), D(<<<<Str_("j"), Int_(1)>>>>), D(<<<<Str_("k"), N(2)>>>>), D(<<<<Int_(0), Int_(1)>>>>), T(<<Int_(1)>>), T(<<Int_(2), N(1)>>)}
V2 == {L(<<Int_(1), L(<<D(<<<<Str_("k"), x>>>>)>>)>>) : x \in Sc \cup {L(<<>>), S(<<Int_(1)>>)}} \cup {D(<<<<Str_("k"), L(<<x>>)>>, <<Str_("j"), None>>>>) : x \in Sc}
AOps(st) == <<{[op |-> "assert_equal", a |-> <<x, y>>] : x \in V1, y \in V1} \cup {[op |-> "assert_equal", a |-> <<x, y>>] : x \in V2, y \in V2}>>
Sorted(v) == v[1] \in {"seq", "tup"}
HasKey(d, k) == \E j \in 2..Len(d) : d[j][1] = k
ValOf(d, k) == d[CHOOSE j \in 2..Len(d) : d[j][1] = k][2]
(* the set of reasons, {} if equal; a list and a tuple may or may not be *)
Containers == {"seq", "tup", "set", "pairs"}
RECURSIVE Why(_, _)
Why(a, b) ==
    IF Sorted(a) /\ Sorted(b) THEN IF Len(a) # Len(b) THEN {"LENGTH_MISMATCH"} ELSE UNION {Why(a[k], b[k]) : k \in 2..Len(a)}
    ELSE IF a[1] = "set" /\ b[1] = "set" THEN IF Len(a) # Len(b) THEN {"LENGTH_MISMATCH"} ELSE IF Range(Tail(a)) # Range(Tail(b)) THEN {"NOT_EQUAL"} ELSE {}
    ELSE IF a[1] = "pairs" /\ b[1] = "pairs" THEN IF Len(a) # Len(b) THEN {"LENGTH_MISMATCH"}
         ELSE UNION {IF HasKey(b, a[k][1]) THEN Why(a[k][2], ValOf(b, a[k][1])) ELSE {"KEY_NOT_FOUND"} : k \in 2..Len(a)}
    (* containers of different kinds *)
    ELSE IF a[1] \in Containers /\ b[1] \in Containers THEN {"NOT_EQUAL"} \cup (IF Len(a) # Len(b) THEN {"LENGTH_MISMATCH"} ELSE {}) \cup (IF a[1] = "pairs" THEN {"KEY_NOT_FOUND"} ELSE {})
    (* "bad" equals nothing that is not of its kind, and comparing two raises TypeError *)
    ELSE IF a[1] = "bad" \/ b[1] = "bad" THEN {"NOT_EQUAL"}
    ELSE IF a = b THEN {} ELSE {"NOT_EQUAL"}
AApply(st, e) == LET a == e.a[1] b == e.a[2] why == Why(a, b) IN
    (IF why = {} THEN One(st, None) ELSE {[s |-> st, r |-> Str_(x)] : x \in why} )
    \cup (IF a[1] # b[1] /\ Sorted(a) /\ Sorted(b) THEN {[s |-> st, r |-> Str_("NOT_EQUAL")]} ELSE {})
AInv(st) == TRUE
AStep(st, e, r, t) == LET a == e.a[1] b == e.a[2] IN (Why(a, b) = {}) = (Why(b, a) = {})
=============================================================================
