---------------------------- MODULE Transforms ----------------------------
(* merge_series, merge_list, and the functions turning one value into another                             *)
EXTENDS Val

(* G: merging series: rows at every timestamp at which all the series have a value, each with its latest  *)
(* value.  Series are <<timestamp, value>>, strictly ascending.                                            *)
Sub(S, q) == LET F(k, prev) == IF k - 1 \in S THEN Append(prev, q[k]) ELSE prev
                 A[k \in 0..Len(q)] == IF k = 0 THEN <<>> ELSE F(k, A[k - 1])
             IN A[Len(q)]
S1 == <<<<1, 10>>, <<2, 20>>, <<3, 30>>, <<4, 40>>, <<5, 50>>>>
S2 == <<<<1, 11>>, <<2, 7>>, <<3, 3>>, <<4, 2>>, <<5, 1>>>>
S3 == <<<<2, 5>>, <<4, 6>>>>
NonEmpty(n) == SUBSET (0..(n - 1))
GCfgs == <<[x |-> 0]>>
GInit(cfg) == [go |-> FALSE, k |-> 0, rows |-> <<>>]
GOps(st) == IF st.go THEN <<{[op |-> "next", a |-> <<>>]}>>
            ELSE <<{[op |-> "merge", a |-> <<<<Sub(a, S1), Sub(b, S2)>>>>] : a \in NonEmpty(5), b \in NonEmpty(5)} \cup
                   {[op |-> "merge", a |-> <<<<Sub(a, S1), Sub(b, S2), Sub(c, S3)>>>>] : a \in {{0, 1, 2, 3, 4}, {0, 4}, {1, 2}}, b \in {{1, 2, 3, 4}, {0, 3}, {2}, {}}, c \in NonEmpty(2)} \cup
                   {[op |-> "merge", a |-> <<<<Sub(a, S1)>>>>] : a \in NonEmpty(5)}>>
Times(q) == {q[k][1] : k \in 1..Len(q)}
At(q, t) == LET m == MaxOf({x \in Times(q) : x <= t}) IN q[CHOOSE k \in 1..Len(q) : q[k][1] = m][2]
Rows(ss) == IF \E k \in 1..Len(ss) : ss[k] = <<>> THEN <<>>
            ELSE LET from == MaxOf({ss[k][1][1] : k \in 1..Len(ss)})
                     ts == SortInts({t \in UNION {Times(ss[k]) : k \in 1..Len(ss)} : t >= from})
                 IN [j \in 1..Len(ts) |-> Seq_(<<Int_(ts[j])>> \o [k \in 1..Len(ss) |-> Int_(At(ss[k], ts[j]))])]
GApply(st, e) == CASE e.op = "merge" -> One([go |-> TRUE, k |-> 0, rows |-> Rows(e.a[1])], None)
                   [] e.op = "next" -> IF st.k < Len(st.rows) THEN One([st EXCEPT !.k = @ + 1], st.rows[st.k + 1])
                                       ELSE One(st, Exc("StopIteration"))
GInv(st) == st.k <= Len(st.rows)
GStep(st, e, r, t) ==
    /\ e.op = "next" /\ r[1] = "seq" /\ st.k > 0 => st.rows[st.k][2][2] < r[2][2]      (* time moves forward *)
    /\ e.op = "next" /\ r[1] = "exc" => t = st                                          (* and the end is the end *)

(* L: merging lists sorted by key: one element per key, made of all the elements of this key, the elements *)
(* of one list in their order                                                                               *)
LSeqs == <<<<>>, <<<<1, 1>>>>, <<<<1, 3>>, <<1, 2>>>>, <<<<1, 5>>, <<2, 6>>, <<2, 4>>, <<3, 7>>>>, <<<<0, 8>>, <<3, 9>>>>, <<<<2, 2>>, <<2, 1>>, <<2, 3>>>>>>
LCfgs == <<[mode |-> "sum"], [mode |-> "cat"], [mode |-> "dict"]>>
LInit(cfg) == [go |-> FALSE, mode |-> cfg.mode, ls |-> <<>>]
Tag(i, q) == [k \in 1..Len(q) |-> <<q[k][1], 100 * i + 10 * k + q[k][2]>>]
LOps(st) == IF st.go THEN <<{[op |-> "next", a |-> <<>>]}>>
            ELSE <<{[op |-> "merge", a |-> <<<<Tag(1, LSeqs[a]), Tag(2, LSeqs[b])>>>>] : a \in 1..Len(LSeqs), b \in 1..Len(LSeqs)} \cup
                   {[op |-> "merge", a |-> <<<<Tag(1, LSeqs[a]), Tag(2, LSeqs[b]), Tag(3, LSeqs[c])>>>>] : a \in {3, 4}, b \in {1, 4, 5}, c \in 1..Len(LSeqs)} \cup
                   {[op |-> "merge", a |-> <<<<>>>>]}>>
Keys(ls) == UNION {{ls[k][j][1] : j \in 1..Len(ls[k])} : k \in 1..Len(ls)}
Of(q, key) == LET s == SelectSeq(q, LAMBDA p : p[1] = key) IN [k \in 1..Len(s) |-> s[k][2]]
Drop(ls, key) == [k \in 1..Len(ls) |-> SelectSeq(ls[k], LAMBDA p : p[1] # key)]
RECURSIVE Interleavings(_)
Interleavings(qs) == LET ne == {k \in 1..Len(qs) : qs[k] # <<>>} IN
    IF ne = {} THEN {<<>>}
    ELSE UNION {{<<Head(qs[k])>> \o rest : rest \in Interleavings([qs EXCEPT ![k] = Tail(@)])} : k \in ne}
LApply(st, e) ==
    CASE e.op = "merge" -> One([st EXCEPT !.go = TRUE, !.ls = e.a[1]], None)
      [] e.op = "next" ->
            IF Keys(st.ls) = {} THEN One(st, Exc("StopIteration"))
            ELSE LET key == MinOf(Keys(st.ls)) qs == [k \in 1..Len(st.ls) |-> Of(st.ls[k], key)]
                     to == [st EXCEPT !.ls = Drop(@, key)] IN
                 IF st.mode = "cat" THEN {[s |-> to, r |-> Seq_(<<Int_(key), IntSeq(q)>>)] : q \in Interleavings(qs)}
                 ELSE One(to, Seq_(<<Int_(key), Int_(SumSeq([k \in 1..Len(qs) |-> SumSeq(qs[k])]))>>))
LInv(st) == TRUE
LStep(st, e, r, t) == e.op = "next" /\ r[1] = "seq" => (\A k \in Keys(t.ls) : r[2][2] < k) /\ Keys(st.ls) = Keys(t.ls) \cup {r[2][2]}

(* N: numbers *)
NCfgs == <<[x |-> 0]>>
NInit(cfg) == cfg
Series == <<<<<<0, 8>>, <<4, 16>>, <<8, 0>>>>, <<<<1, 5>>>>, <<<<-4, -3>>, <<-2, 5>>, <<2, 5>>, <<3, -7>>, <<7, 9>>>>>>
Sorted == <<<<7>>, <<0, 4>>, <<0, 4, 8, 40, 100>>, <<-8, -8, 4, 12>>>>
Intable == {Int_(3), Int_(0), <<"bool", TRUE>>, None, Str_("12"), Str_("-3"), Str_("abc"), Str_(""), <<"half", 3>>, <<"half", -3>>, <<"inf">>, <<"nan">>, <<"obj">>, <<"badlen">>,
            Seq_(<<Int_(5), Int_(6)>>), Seq_(<<>>), <<"pairs", <<Int_(1), Int_(2)>>>>}
Falsy == {Int_(0), Str_(""), Seq_(<<>>), None, <<"bool", FALSE>>, <<"pairs">>}
Truthy == {Int_(3), Str_("0"), Seq_(<<None>>), <<"bool", TRUE>>}
ABytes == {<<>>, <<0>>, <<255>>, <<77>>, <<77, 97>>, <<77, 97, 110>>, <<255, 255, 255, 255>>, <<0, 16, 131, 16, 81, 135, 32, 146, 139>>, <<251, 239, 190, 255>>, <<1, 2, 3, 4, 5, 6, 7>>}
NOps(st) == <<{[op |-> "interpolate", a |-> <<q, t, c>>] : q \in Range(Series), t \in -5..9, c \in BOOLEAN} \cup
              {[op |-> "percentile", a |-> <<q, p>>] : q \in Range(Sorted), p \in 0..4} \cup
              {[op |-> "clip", a |-> <<v, m, mm>>] : v \in -2..4, m \in {-1, 0, 2}, mm \in {2, 3}} \cup
              {[op |-> "intify", a |-> <<v>>] : v \in Intable} \cup {[op |-> "none_if_false", a |-> <<v>>] : v \in Falsy \cup Truthy} \cup
              {[op |-> "b64encode", a |-> <<b>>] : b \in ABytes}>>
Between(q, t) == LET k == CHOOSE j \in 1..(Len(q) - 1) : q[j][1] <= t /\ t <= q[j + 1][1] IN
                 (* in sixtieths, so that all is whole *)
                 (60 * (q[k + 1][2] - q[k][2]) * (t - q[k][1])) \div (q[k + 1][1] - q[k][1]) + 60 * q[k][2]
Interpolated(q, t, c) == LET n == Len(q) IN
    IF t < q[1][1] THEN IF c THEN Int_(60 * q[1][2]) ELSE Exc("ValueError")
    ELSE IF t > q[n][1] THEN IF c THEN Int_(60 * q[n][2]) ELSE Exc("ValueError")
    ELSE IF n = 1 THEN Int_(60 * q[1][2]) ELSE Int_(Between(q, t))
(* p in quarters; the answer in quarters *)
Percentile(q, p) == LET k == (Len(q) - 1) * p f == k \div 4 d == k - 4 * f IN
                    IF d = 0 THEN 4 * q[f + 1] ELSE q[f + 1] * (4 - d) + q[f + 2] * d
Intified(v) == CASE v[1] = "int" -> v
                 [] v[1] = "bool" -> Int_(IF v[2] THEN 1 ELSE 0)
                 [] v[1] = "none" -> Int_(0)
                 [] v = Str_("12") -> Int_(12) [] v = Str_("-3") -> Int_(-3) [] v = Str_("abc") -> Int_(3) [] v = Str_("") -> Int_(0)
                 [] v[1] = "half" -> Int_(IF v[2] > 0 THEN v[2] \div 2 ELSE -((-v[2]) \div 2))
                 [] v[1] \in {"seq", "pairs"} -> Int_(Len(v) - 1)
                 [] v[1] \in {"inf", "nan", "obj", "badlen"} -> Exc("ValueError")
Digit(n) == <<"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z",
              "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z",
              "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "+", "/">>[n + 1]
RECURSIVE B64(_)
B64(b) == IF b = <<>> THEN ""
          ELSE IF Len(b) = 1 THEN Digit(b[1] \div 4) \o Digit((b[1] % 4) * 16) \o "=="
          ELSE IF Len(b) = 2 THEN Digit(b[1] \div 4) \o Digit((b[1] % 4) * 16 + b[2] \div 16) \o Digit((b[2] % 16) * 4) \o "="
          ELSE Digit(b[1] \div 4) \o Digit((b[1] % 4) * 16 + b[2] \div 16) \o Digit((b[2] % 16) * 4 + b[3] \div 64) \o Digit(b[3] % 64) \o B64(SubSeq(b, 4, Len(b)))
NApply(st, e) ==
    CASE e.op = "interpolate" -> One(st, Interpolated(e.a[1], e.a[2], e.a[3]))
      [] e.op = "percentile" -> One(st, Int_(Percentile(e.a[1], e.a[2])))
      [] e.op = "clip" -> One(st, Int_(Max2(e.a[2], Min2(e.a[3], e.a[1]))))
      [] e.op = "intify" -> One(st, Intified(e.a[1]))
      [] e.op = "none_if_false" -> One(st, IF e.a[1] \in Falsy THEN None ELSE e.a[1])
      [] e.op = "b64encode" -> One(st, Str_(B64(e.a[1])))
NInv(st) == TRUE
NStep(st, e, r, t) ==
    /\ e.op = "clip" => e.a[2] <= r[2] /\ r[2] <= e.a[3] /\ (e.a[2] <= e.a[1] /\ e.a[1] <= e.a[3] => r[2] = e.a[1])
    /\ e.op = "interpolate" /\ r[1] = "int" =>
          LET q == e.a[1] IN /\ \A k \in 1..Len(q) : q[k][1] = e.a[2] => r[2] = 60 * q[k][2]
                             /\ r[2] <= 60 * MaxOf({q[k][2] : k \in 1..Len(q)}) /\ r[2] >= 60 * MinOf({q[k][2] : k \in 1..Len(q)})
    /\ e.op = "percentile" => LET q == e.a[1] IN /\ r[2] >= 4 * q[1] /\ r[2] <= 4 * q[Len(q)]
                                                /\ \A p \in 0..e.a[2] : Percentile(q, p) <= r[2]

(* W: sequences and dictionaries *)
WCfgs == <<[x |-> 0]>>
WInit(cfg) == cfg
WQ == {<<>>, <<1>>, <<2, 1>>, <<1, 2, 3>>, <<3, 1, 2, 1>>, <<5, 4, 3, 2, 1>>}
D(q) == [k \in 1..Len(q) |-> <<q[k], 10 * q[k]>>]
DQ == {<<>>, <<<<1, 10>>>>, <<<<1, 10>>, <<2, 20>>>>, <<<<2, 20>>, <<1, 11>>>>, <<<<2, 20>>, <<3, 30>>, <<1, 10>>>>}
WOps(st) == <<{[op |-> "pad", a |-> <<q, n, how>>] : q \in WQ, n \in 1..4, how \in {"none", "with", "factory"}} \cup {[op |-> "pad", a |-> <<<<1>>, 2, "both">>]} \cup
              {[op |-> "one_tuple", a |-> <<q>>] : q \in WQ} \cup
              {[op |-> "shuffle", a |-> <<q, how, front>>] : q \in WQ, how \in {"all", "odd", "none"}, front \in BOOLEAN} \cup
              {[op |-> "indices", a |-> <<q>>] : q \in WQ} \cup {[op |-> "to_int", a |-> <<q>>] : q \in WQ} \cup
              {[op |-> "is_subset", a |-> <<a, b>>] : a \in DQ, b \in DQ} \cup
              {[op |-> "unpack", a |-> <<d, q, how, rs>>] : d \in DQ, q \in {<<>>, <<1>>, <<2, 1, 2>>, <<1, 3, 2>>}, how \in {"plain", "double", "keyerror"}, rs \in BOOLEAN}>>
Odd(q, b) == SelectSeq(q, LAMBDA x : (x % 2 = 1) = b)
Has(d, k) == \E j \in 1..Len(d) : d[j][1] = k
Get(d, k) == d[CHOOSE j \in 1..Len(d) : d[j][1] = k][2]
Perms(q) == {[k \in 1..Len(q) |-> q[p[k]]] : p \in Permutations(1..Len(q))}
Unpacked(d, q, how, rs) ==
    LET F(k, prev) == IF prev.stop THEN prev
                      ELSE IF ~Has(d, q[k]) THEN IF rs THEN [q |-> Append(prev.q, Exc("KeyError")), stop |-> TRUE] ELSE [prev EXCEPT !.q = Append(@, None)]
                      ELSE IF how = "keyerror" THEN [q |-> Append(prev.q, Exc("KeyError")), stop |-> TRUE]
                      ELSE [prev EXCEPT !.q = Append(@, Int_(IF how = "double" THEN 2 * Get(d, q[k]) ELSE Get(d, q[k])))]
        A[k \in 0..Len(q)] == IF k = 0 THEN [q |-> <<>>, stop |-> FALSE] ELSE F(k, A[k - 1])
    IN Seq_(A[Len(q)].q)
WApply(st, e) ==
    CASE e.op = "pad" -> LET q == e.a[1] n == e.a[2] miss == (n - (Len(q) % n)) % n IN
                         One(st, IF e.a[3] = "both" THEN Exc("ValueError")
                                 ELSE Seq_(<<Seq_([k \in 1..Len(q) |-> Int_(q[k])] \o [k \in 1..miss |-> IF e.a[3] = "none" THEN None ELSE IF e.a[3] = "with" THEN Int_(0) ELSE Int_(k)]), IntSeq(q)>>))
      [] e.op = "one_tuple" -> One(st, Seq_([k \in 1..Len(e.a[1]) |-> IntSeq(<<e.a[1][k]>>)]))
      [] e.op = "shuffle" -> LET q == e.a[1] sh == IF e.a[2] = "all" THEN q ELSE IF e.a[2] = "odd" THEN Odd(q, TRUE) ELSE <<>>
                                 un == IF e.a[2] = "all" THEN <<>> ELSE IF e.a[2] = "odd" THEN Odd(q, FALSE) ELSE q IN
                             {[s |-> st, r |-> Seq_(<<IntSeq(IF e.a[3] THEN un \o p ELSE p \o un), IntSeq(q)>>)] : p \in Perms(sh)}
      [] e.op = "indices" -> LET q == e.a[1] IN One(st, IF Cardinality(Range(q)) # Len(q) THEN Exc("ValueError") ELSE Seq_([k \in 1..Len(q) |-> IntSeq(<<q[k], k - 1>>)]))
      [] e.op = "to_int" -> LET S == SortInts(Range(e.a[1])) IN {[s |-> st, r |-> Seq_([k \in 1..Len(S) |-> IntSeq(<<S[k], p[k] - 1>>)])] : p \in IF S = <<>> THEN {<<>>} ELSE Permutations(1..Len(S))}
      [] e.op = "is_subset" -> One(st, Bool_(\A k \in 1..Len(e.a[1]) : Has(e.a[2], e.a[1][k][1]) /\ Get(e.a[2], e.a[1][k][1]) = e.a[1][k][2]))
      [] e.op = "unpack" -> One(st, Unpacked(e.a[1], e.a[2], e.a[3], e.a[4]))
WInv(st) == TRUE
WStep(st, e, r, t) == e.op = "pad" /\ r[1] = "seq" => (Len(r[2]) - 1) % e.a[2] = 0 /\ SubSeq(r[2], 1, Len(e.a[1]) + 1) = IntSeq(e.a[1])

(* J: stringify and jsonify of nested values *)
JCfgs == <<[x |-> 0]>>
JInit(cfg) == cfg
Tup(q) == <<"tup">> \o q
E(n) == <<"enum", n>>
EnumVal(n) == IF n = "A" THEN Int_(0) ELSE IF n = "B" THEN Str_("b") ELSE Tup(<<Int_(1), Str_("x")>>)
Scalars == {Int_(7), Int_(-1), Str_("a"), Str_(""), <<"bool", TRUE>>, None, E("A"), E("B")}
Pairs(q) == <<"pairs">> \o q
Level1 == {Seq_(<<>>), Tup(<<>>), Pairs(<<>>)} \cup {Seq_(<<x>>) : x \in Scalars} \cup {Tup(<<x, Int_(3)>>) : x \in Scalars} \cup {Pairs(<<<<Str_("k"), x>>>>) : x \in Scalars}
          \cup {Pairs(<<<<x, Int_(1)>>, <<Str_("z"), None>>>>) : x \in Scalars}
Level2 == {Seq_(<<x, Str_("b")>>) : x \in Level1} \cup {Pairs(<<<<Int_(4), x>>>>) : x \in Level1} \cup {Tup(<<x>>) : x \in Level1}
Special == {<<"jsn", x>> : x \in Scalars \cup {Tup(<<E("A")>>), <<"jsn", E("C")>>}} \cup {<<"obj">>, E("C"), <<"iter", Int_(1), E("A")>>, Seq_(<<<<"jsn", Int_(3)>>, <<"obj">>>>), <<"noobj">>,
            Pairs(<<<<Tup(<<Int_(1), Int_(2)>>), Int_(3)>>>>), Pairs(<<<<E("C"), Int_(3)>>>>), Pairs(<<<<Str_("k"), <<"jsn", Pairs(<<<<Int_(1), E("A")>>>>)>>>>>>)}
JOps(st) == <<{[op |-> "stringify", a |-> <<x, rec, sn>>] : x \in Scalars \cup Level1 \cup Level2, rec \in BOOLEAN, sn \in BOOLEAN} \cup {[op |-> "jsonify", a |-> <<x>>] : x \in Scalars \cup Level1 \cup Level2 \cup Special}>>
RECURSIVE Join(_), Repr(_)
Join(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o ", " \o Join(Tail(q))
Repr(v) == CASE v[1] = "int" -> ToString(v[2])
             [] v[1] = "str" -> "'" \o v[2] \o "'"
             [] v[1] = "bool" -> IF v[2] THEN "True" ELSE "False"
             [] v[1] = "none" -> "None"
             [] v[1] = "enum" -> "<E." \o v[2] \o ": " \o Repr(EnumVal(v[2])) \o ">"
             [] v[1] = "seq" -> "[" \o Join([k \in 1..(Len(v) - 1) |-> Repr(v[k + 1])]) \o "]"
             [] v[1] = "tup" -> IF Len(v) = 2 THEN "(" \o Repr(v[2]) \o ",)" ELSE "(" \o Join([k \in 1..(Len(v) - 1) |-> Repr(v[k + 1])]) \o ")"
             [] v[1] = "pairs" -> "{" \o Join([k \in 1..(Len(v) - 1) |-> Repr(v[k + 1][1]) \o ": " \o Repr(v[k + 1][2])]) \o "}"
Text(v) == IF v[1] = "str" THEN v[2] ELSE Repr(v)
IsScalar(v) == v[1] \in {"int", "str", "bool", "none", "enum"}
(* None inside of a container that is not gone through recursively may be either *)
Strings1(v, sn) == CASE v[1] = "str" -> {v}
                     [] v[1] = "enum" -> {Str_(v[2])}
                     [] v[1] = "none" -> IF sn THEN {Str_("None")} ELSE {None}
                     [] OTHER -> {Str_(Text(v))}
StringsIn(v, sn) == IF v = None THEN {Str_("None"), None} ELSE Strings1(v, sn)
RECURSIVE Stringified(_, _, _, _)
PutP(q, p) == IF \E k \in 1..Len(q) : q[k][1] = p[1] THEN [k \in 1..Len(q) |-> IF q[k][1] = p[1] THEN p ELSE q[k]] ELSE Append(q, p)
Product(f) == LET n == Len(f)
                  G(k, prev) == {Append(p, x) : p \in prev, x \in f[k]}
                  A[k \in 0..n] == IF k = 0 THEN {<<>>} ELSE G(k, A[k - 1])
              IN A[n]
Uniq(q) == LET F(k, prev) == PutP(prev, q[k]) A[k \in 0..Len(q)] == IF k = 0 THEN <<>> ELSE F(k, A[k - 1]) IN A[Len(q)]
Stringified(v, rec, sn, top) ==
    IF IsScalar(v) THEN IF rec \/ top THEN Strings1(v, sn) ELSE StringsIn(v, sn)
    ELSE IF ~rec /\ ~top THEN {Str_(Repr(v))}
    ELSE IF v[1] = "pairs" THEN {Pairs(Uniq(q)) : q \in Product([k \in 1..(Len(v) - 1) |-> {<<a, b>> : a \in Stringified(v[k + 1][1], rec, sn, FALSE), b \in Stringified(v[k + 1][2], rec, sn, FALSE)}])}
    ELSE {Seq_(q) : q \in Product([k \in 1..(Len(v) - 1) |-> Stringified(v[k + 1], rec, sn, FALSE)])}
RECURSIVE Jsonified(_)
JKey(v) == LET j == Jsonified(v) IN IF j[1] \in {"seq", "pairs"} THEN Str_(Repr(j)) ELSE j
(* 1 and TRUE are one key in Python; no dictionary here has both *)
Jsonified(v) == CASE v[1] \in {"int", "str", "bool", "none"} -> v
                  [] v[1] = "enum" -> Jsonified(EnumVal(v[2]))
                  [] v[1] \in {"seq", "tup", "iter"} -> Seq_([k \in 1..(Len(v) - 1) |-> Jsonified(v[k + 1])])
                  [] v[1] = "pairs" -> Pairs(Uniq([k \in 1..(Len(v) - 1) |-> <<JKey(v[k + 1][1]), Jsonified(v[k + 1][2])>>]))
                  [] v[1] = "jsn" -> Jsonified(v[2])
                  [] v[1] = "obj" -> Str_("an object")
                  [] v[1] = "noobj" -> Str_("its repr")
JApply(st, e) == CASE e.op = "stringify" -> {[s |-> st, r |-> x] : x \in Stringified(e.a[1], e.a[2], e.a[3], TRUE)}
                   [] e.op = "jsonify" -> One(st, Jsonified(e.a[1]))
JInv(st) == TRUE
RECURSIVE JsonAble(_)
JsonAble(v) == \/ v[1] \in {"int", "str", "bool", "none"}
               \/ v[1] = "seq" /\ \A k \in 2..Len(v) : JsonAble(v[k])
               \/ v[1] = "pairs" /\ \A k \in 2..Len(v) : v[k][1][1] \in {"int", "str", "bool", "none"} /\ JsonAble(v[k][2])
JStep(st, e, r, t) == e.op = "jsonify" => JsonAble(r) /\ Jsonified(r) = r
=============================================================================
