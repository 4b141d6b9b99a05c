--------------------------------- MODULE Iters --------------------------------
(* Functions over sequences.  Elements are numbers, -99 stands for None.  <<"call", <<function, parameters, sequence>>>>: the whole result.                    *)
(* "few": the first so many results for an endless source 0, 1, 2, ...; "used": how many of the source's elements were taken                                  *)
EXTENDS Val
V(x) == IF x = -99 THEN None ELSE Int_(x)
Vs(q) == <<"seq">> \o [i \in DOMAIN q |-> V(q[i])]
Vss(q) == <<"seq">> \o [i \in DOMAIN q |-> Vs(q[i])]
First(q, n) == IF n >= Len(q) THEN q ELSE SubSeq(q, 1, n)
Rest(q, n) == IF n >= Len(q) THEN <<>> ELSE SubSeq(q, n + 1, Len(q))
Every2(q, b) == [i \in 1..((Len(q) + 1 - b) \div 2) |-> q[2 * i - 1 + b]]
Pred(p, x) == CASE p = "odd" -> x # -99 /\ x % 2 = 1 [] p = "big" -> x # -99 /\ x > 1 [] p = "none" -> x = -99 [] p = "all" -> TRUE
Where(p, q) == {i \in DOMAIN q : Pred(p, q[i])}
RECURSIVE Uniq(_, _)
Uniq(q, seen) == IF q = <<>> THEN <<>> ELSE IF Head(q) \in seen THEN Uniq(Tail(q), seen) ELSE <<Head(q)>> \o Uniq(Tail(q), seen \cup {Head(q)})
RECURSIVE Groups(_, _)
Groups(q, n) == IF q = <<>> THEN <<>> ELSE <<First(q, n)>> \o Groups(Rest(q, n), n)
Shift(q, k) == IF k >= 0 THEN Rest(q, k) \o First(q, k) ELSE LET n == Max2(0, Len(q) + k) IN Rest(q, n) \o First(q, n)
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
RECURSIVE FRange(_, _, _)
FRange(a, b, s) == IF (s > 0 /\ a >= b) \/ (s < 0 /\ a <= b) THEN <<>> ELSE <<a>> \o FRange(a + s, b, s)
Pairs(q, same) == LET J(i) == IF same THEN [j \in 1..(Len(q) + 1 - i) |-> <<q[i], q[i + j - 1]>>] ELSE [j \in 1..(Len(q) - i) |-> <<q[i], q[i + j]>>] IN Flat([i \in DOMAIN q |-> J(i)])
\* trees: <<label, child, ...>>
Kids(t) == Tail(t)
RECURSIVE Deep(_, _)
Deep(q, lv) == IF q = <<>> THEN <<>> ELSE LET t == Head(q) IN (IF lv /\ Kids(t) # <<>> THEN <<>> ELSE <<t[1]>>) \o Deep(Kids(t) \o Tail(q), lv)
RECURSIVE Broad(_, _)
Broad(q, lv) == IF q = <<>> THEN <<>> ELSE LET t == Head(q) IN (IF lv /\ Kids(t) # <<>> THEN <<>> ELSE <<t[1]>>) \o Broad(Tail(q) \o Kids(t), lv)
MinLen(qs) == MinOf({Len(qs[i]) : i \in DOMAIN qs})
\* p: the parameters, q: the sequence
F(f, p, q) ==
  CASE f = "even" -> Vs(Every2(q, 0)) [] f = "odd" -> Vs(Every2(q, 1))
    [] f = "count" -> Vs([i \in DOMAIN q |-> p[1] + (i - 1) * p[2]])
    [] f = "enumerate2" -> Vss([i \in DOMAIN q |-> <<p[1] + (i - 1) * p[2], q[i]>>])
    [] f = "smart_enumerate" -> Vss([i \in DOMAIN q |-> <<p[1] + (i - 1) * p[2], q[i], q[i]>>])
    [] f = "is_last" -> <<"seq">> \o [i \in DOMAIN q |-> <<"seq", Bool_(i = Len(q)), V(q[i])>>]
    \* p: whether to wrap over, whether to skip the last
    [] f = "add_next" -> Vss([i \in 1..(IF p[2] = 1 /\ p[1] = 0 THEN Len(q) - 1 ELSE Len(q)) |-> <<q[i], IF i < Len(q) THEN q[i + 1] ELSE IF p[1] = 1 THEN q[1] ELSE -99>>])
    [] f = "half_cartesian" -> Vss(Pairs(q, p[1] = 1))
    [] f = "group_quantity" -> Vss(Groups(q, p[1]))
    [] f = "unique" -> Vs(Uniq(q, {}))
    [] f = "shift" -> Vs(Shift(q, p[1]))
    [] f = "zip_shifted" -> LET a == Shift(q, p[1]) IN Vss([i \in 1..Len(a) |-> <<a[i], q[i]>>])
    [] f = "skip_first" -> Vs(Rest(q, p[1]))
    [] f = "stop_after" -> Vs(First(q, p[1]))
    [] f = "take_n" -> Vs(First(Rest(q, p[2]), p[1]))
    [] f = "n_th" -> IF p[1] < Len(q) THEN V(q[p[1] + 1]) ELSE Exc("IndexError")
    [] f = "length" -> Int_(Len(q))
    [] f = "is_empty" -> Bool_(q = <<>>)
    [] f = "choose" -> IF Where(p[1], q) = {} THEN Exc("ValueError") ELSE V(q[MinOf(Where(p[1], q))])
    [] f = "choose_one" -> IF Cardinality(Where(p[1], q)) # 1 THEN Exc("ValueError") ELSE V(q[MinOf(Where(p[1], q))])
    [] f = "choose_with_index" -> IF Where(p[1], q) = {} THEN Exc("ValueError") ELSE LET i == MinOf(Where(p[1], q)) IN <<"seq", V(q[i]), Int_(i - 1)>>
    [] f = "index_of" -> IF Where(p[1], q) = {} THEN Exc("ValueError") ELSE Int_(MinOf(Where(p[1], q)) - 1)
    [] f = "index_of_max" -> IF q = <<>> THEN Exc("ValueError") ELSE Int_(MinOf({i \in DOMAIN q : \A j \in DOMAIN q : q[j] <= q[i]}) - 1)
    [] f = "filter_out_nones" -> Vs(SelectSeq(q, LAMBDA x : x # -99))
    [] f = "filter_out_false" -> Vs(SelectSeq(q, LAMBDA x : x # -99 /\ x # 0))
    [] f \in {"map_list", "to_iterator"} -> Vs([i \in DOMAIN q |-> q[i] + 10])
    [] f = "append_sequence" -> Vss([i \in DOMAIN q |-> <<q[i], q[i]>> \o p])
    [] f = "smart_zip" -> Vss([i \in DOMAIN q |-> <<q[i], q[i] + 1, q[i]>>])
    [] f = "no_longer" -> Vs(First(q, p[1]))
    [] f = "f_range" -> LET a == IF Len(p) = 1 THEN 0 ELSE p[1] b == IF Len(p) = 1 THEN p[1] ELSE p[2] s == IF Len(p) = 3 THEN p[3] ELSE 1 IN
                        IF Len(p) \in 1..3 THEN Vs(FRange(a, b, s)) ELSE Exc("TypeError")
    [] f = "iterate_callable" -> Vs(Rest(q, p[1]))
    [] f = "infinite_iterator" -> Vs([i \in 1..4 |-> p[1]])
    [] f = "infinite_factory" -> Vs([i \in 1..4 |-> i])
    [] f = "infinite_counter" -> Vs([i \in 1..4 |-> p[1] + (i - 1) * p[2]])
    [] f = "make_list" -> Vs([i \in 1..p[2] |-> p[1]])
    [] f = "dict_of_list" -> Vss(Flat([i \in DOMAIN q |-> [j \in 1..q[i] |-> <<i - 1, j - 1>>]]))
    \* counters holding q, each given p[2]; what the operation on all gave, and the counters after it
    [] f = "multirun" -> LET m == Vs([i \in DOMAIN q |-> CASE p[1] = 1 -> q[i] + p[2] [] p[1] = 2 -> q[i] * p[2] [] p[1] = 3 -> q[i] - p[2]]) IN <<"seq", m, m>>
    \* what is not iterable is yielded itself
    \* is each one new; the negative ones stand for something that cannot be hashed
    [] f = "seen" -> <<"seq">> \o [i \in DOMAIN q |-> Bool_(\A j \in 1..(i - 1) : q[j] # q[i])]
    \* of an object with items, "ab" (a is shown as 1, b as 2), {3: 4}, None, [5], [], [[6]]
    [] f = "chain_odd" -> <<"seq", Int_(8), Int_(9), Int_(1), Int_(2), Int_(3), None, Int_(5), <<"seq", Int_(6)>>>>
    \* of [1] and [2], (3, 4) and (5), () and (6, [7]): only tuples are expanded, and only once
    [] f = "smart_zip_odd" -> <<"seq", <<"seq", <<"seq", Int_(1)>>, Int_(3), Int_(4)>>, <<"seq", <<"seq", Int_(2)>>, Int_(5), Int_(6), <<"seq", Int_(7)>>>>>>
    [] f = "instances" -> <<"seq">> \o [i \in 1..16 |-> Bool_(i \in {1, 3, 6, 9, 10, 11, 15})]
    [] f = "chain" -> Vs(p \o q)
    [] f = "exhaust" -> None
    [] f = "walk" -> Vs(IF p[1] = 1 THEN Deep(q, p[2] = 1) ELSE Broad(q, p[2] = 1))
Endless == [i \in 1..60 |-> i - 1]
FInit(cfg) == [x |-> 0]
FApply(st, e) ==
  LET a == e.a IN
  CASE e.op = "call" -> One(st, F(a[1], a[2], a[3]))
    [] e.op = "few" -> One(st, LET r == F(a[1], a[2], Endless) IN SubSeq(r, 1, a[3] + 1))
    \* at most so many elements of the source were taken
    [] e.op = "used" -> LET f == a[1] p == a[2] q == a[3] IN
         One(st, Int_(CASE f = "is_empty" -> IF p[1] = 1 THEN Len(q) ELSE Min2(1, Len(q))
                        [] f \in {"choose", "index_of", "choose_with_index"} -> IF Where(p[1], q) = {} THEN Len(q) ELSE MinOf(Where(p[1], q))
                        [] f \in {"stop_after"} -> Min2(p[1], Len(q))
                        [] f = "take_n" -> Min2(p[1] + p[2], Len(q)) [] f = "n_th" -> Min2(p[1] + 1, Len(q))
                        [] f = "no_longer" -> Min2(p[1], Len(q))
                        [] OTHER -> Len(q)))
    [] OTHER -> {}
FInv(st) == TRUE
FStep(st, e, r, t) == (e.op = "call" /\ e.a[1] \in {"shift", "is_last", "enumerate2", "map_list"}) => Len(r) = Len(e.a[3]) + 1
FCfgs == <<[x |-> 0]>>
RECURSIVE SeqsTo(_, _)
SeqsTo(S, n) == IF n = 0 THEN {<<>>} ELSE SeqsTo(S, n - 1) \cup {<<x>> \o q : x \in S, q \in SeqsTo(S, n - 1)}
Qs == SeqsTo({0, 1, 2}, 4)
Ns == SeqsTo({-99, 0, 1, 2}, 3)
L4 == {<<>>, <<7>>, <<3, 4>>, <<5, 6, 5>>, <<1, 2, 3, 4>>, <<1, 2, 3, 4, 5>>}
T1 == <<1>>
T2 == <<2, <<3>>, <<4, <<5>>>>>>
Call(fs, ps, qs) == {[op |-> "call", a |-> <<f, p, q>>] : f \in fs, p \in ps, q \in qs}
FOps(st) == <<
  Call({"even", "odd", "unique", "length", "is_last", "index_of_max", "map_list", "to_iterator", "smart_zip", "exhaust", "dict_of_list"}, {<<>>}, Qs),
  Call({"filter_out_nones", "filter_out_false", "unique", "is_last", "even", "odd"}, {<<>>}, Ns),
  Call({"count", "enumerate2", "smart_enumerate"}, {<<a, s>> : a \in {0, 3}, s \in {1, 2, -1, 0}}, L4),
  Call({"add_next"}, {<<x, y>> : x \in 0..1, y \in 0..1}, L4 \cup Ns),
  Call({"half_cartesian", "is_empty"}, {<<0>>, <<1>>}, L4),
  Call({"group_quantity"}, {<<n>> : n \in 1..4}, L4),
  {[op |-> "call", a |-> <<f, <<k>>, q>>] : f \in {"shift", "zip_shifted"}, k \in {n \in -6..5 : TRUE}, q \in {<<1, 2, 3, 4, 5>>}},
  UNION {{[op |-> "call", a |-> <<f, <<k>>, q>>] : f \in {"shift", "zip_shifted"}, k \in -3..Len(q)} : q \in L4},
  Call({"skip_first", "stop_after", "n_th", "no_longer", "iterate_callable"}, {<<n>> : n \in 0..6}, L4),
  Call({"take_n"}, {<<n, s>> : n \in 0..3, s \in 0..6}, L4),
  Call({"choose", "choose_one", "choose_with_index", "index_of"}, {<<p>> : p \in {"odd", "big", "none", "all"}}, Ns),
  Call({"append_sequence"}, {<<>>, <<8>>, <<8, 9>>}, L4),
  Call({"f_range"}, {<<>>, <<1, 2, 3, 4>>} \cup {<<b>> : b \in -1..3} \cup {<<a, b>> : a \in -1..2, b \in -1..3} \cup {<<a, b, s>> : a \in 0..3, b \in -1..4, s \in {-2, -1, 1, 3}}, {<<>>}),
  Call({"infinite_iterator"}, {<<k>> : k \in {-99, 0, 1}}, {<<>>}), Call({"infinite_factory"}, {<<>>}, {<<>>}), Call({"infinite_counter"}, {<<a, s>> : a \in 0..1, s \in {1, 2, -1}}, {<<>>}),
  Call({"make_list"}, {<<k, n>> : k \in {-99, 0, 5}, n \in 0..3}, {<<>>}),
  Call({"multirun"}, {<<k, n>> : k \in 1..3, n \in 1..2}, L4), Call({"chain"}, {<<>>, <<1>>, <<1, 2>>}, L4),
  Call({"seen"}, {<<>>}, SeqsTo({-2, -1, 1, 6}, 4)), Call({"chain_odd", "smart_zip_odd", "instances"}, {<<>>}, {<<>>}), Call({"is_empty"}, {<<0>>, <<1>>}, Ns),
  Call({"walk"}, {<<d, l>> : d \in 0..1, l \in 0..1}, {<<>>, <<T1>>, <<T2>>, <<T1, T2, <<6>>>>, <<T2, T2>>}),
  {[op |-> "few", a |-> <<f, <<>>, n>>] : f \in {"even", "odd", "unique", "is_last", "to_iterator"}, n \in 0..3},
  {[op |-> "few", a |-> <<f, <<p>>, n>>] : f \in {"skip_first", "stop_after", "shift", "group_quantity", "no_longer"}, p \in 3..4, n \in 0..3},
  {[op |-> "few", a |-> <<f, <<p, s>>, n>>] : f \in {"count", "enumerate2", "smart_enumerate", "take_n"}, p \in 3..4, s \in 1..2, n \in 0..3},
  {[op |-> "few", a |-> <<"add_next", <<p, s>>, n>>] : p \in 0..1, s \in 0..1, n \in 0..3},
  {[op |-> "used", a |-> <<f, <<p>>, q>>] : f \in {"choose", "index_of", "choose_with_index"}, p \in {"odd", "big", "none", "all"}, q \in Ns},
  {[op |-> "used", a |-> <<f, <<n>>, q>>] : f \in {"stop_after", "n_th", "no_longer"}, n \in 0..4, q \in L4}, {[op |-> "used", a |-> <<"is_empty", <<n>>, q>>] : n \in 0..1, q \in L4},
  {[op |-> "used", a |-> <<"take_n", <<n, s>>, q>>] : n \in 0..3, s \in 0..2, q \in L4} >>
===============================================================================
