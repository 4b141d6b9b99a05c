------------------------------- MODULE Heaps -------------------------------
(* Priority queues of satella.coding.structures.heaps.                                              *)
(* H* : Heap (kind "heap": a multiset) and SetHeap (kind "set": a set) of integers.                 *)
(* T* : TimeBasedHeap ("time") and TimeBasedSetHeap ("timeset"): entries <<timestamp, item>>.       *)
(* The abstract state is the multiset of entries, kept as an ascending sequence.                    *)
EXTENDS Val

ILeq(a, b) == a <= b
RECURSIVE InsAll(_, _)
InsAll(q, xs) == IF xs = <<>> THEN q ELSE InsAll(InsSorted(q, Head(xs), ILeq), Tail(xs))
RECURSIVE Dedup(_)
Dedup(q) == IF Len(q) < 2 THEN q
            ELSE IF q[1] = q[2] THEN Dedup(Tail(q)) ELSE <<q[1]>> \o Dedup(Tail(q))

\* ------------------------------------------------------------------ plain heaps
HNorm(kind, q) == IF kind = "set" THEN Dedup(q) ELSE q
HInit(cfg) == [kind |-> cfg.kind, q |-> HNorm(cfg.kind, InsAll(<<>>, cfg.init)), put |-> Len(cfg.init)]

HApply(st, e) ==
  LET q == st.q
      set(x) == [st EXCEPT !.q = HNorm(st.kind, x)]
  IN
  CASE e.op = "push" -> One([set(InsAll(q, <<e.a[1]>>)) EXCEPT !.put = @ + 1], None)
    [] e.op = "push_many" -> One([set(InsAll(q, e.a[1])) EXCEPT !.put = @ + Len(e.a[1])], None)
    [] e.op = "pop" -> IF q = <<>> THEN One(st, Exc("IndexError")) ELSE One(set(Tail(q)), Int_(Head(q)))
    [] e.op = "pop_item" -> LET k == IndexOf(q, e.a[1]) IN
                            IF k = 0 THEN One(st, Exc("ValueError")) ELSE One(set(RemoveAt(q, k)), Int_(e.a[1]))
    [] e.op = "contains" -> One(st, Bool_(IndexOf(q, e.a[1]) # 0))
    [] e.op = "len" -> One(st, Int_(Len(q)))
    [] e.op = "bool" -> One(st, Bool_(q # <<>>))
    [] e.op = "asc" -> One(st, IntSeq(q))
    [] e.op = "desc" -> One(st, IntSeq(Reverse(q)))
    [] e.op = "dump" -> One(st, IntSeq(q))
    [] e.op = "filter_ge" -> One(set(FilterSeq(q, LAMBDA x : x >= e.a[1])), None)
    [] e.op = "map_sub" -> One(set(InsAll(<<>>, [k \in 1..Len(q) |-> e.a[1] - q[k]])), None)
    [] e.op = "filter_map" -> One(set(InsAll(<<>>, LET f == FilterSeq(q, LAMBDA x : x >= e.a[1])
                                                   IN [k \in 1..Len(f) |-> e.a[2] - f[k]])), None)
    \* a copy is independent: the answer is the content of a copy that was drained of its minimum
    [] e.op = "copy_pop" -> One(st, IF q = <<>> THEN Exc("IndexError") ELSE IntSeq(Tail(q)))
    [] e.op = "adopt_copy" -> One(st, None)
    [] e.op = "eq_copy" -> One(st, <<"seq", Bool_(TRUE), Bool_(FALSE)>>)
    [] OTHER -> {}

HStep(st, e, r, t) ==
  \* what is popped is a smallest element, and exactly that one disappears
  /\ (e.op = "pop" /\ r[1] = "int") =>
        /\ \A x \in Range(st.q) : r[2] <= x
        /\ Len(t.q) = Len(st.q) - 1
        /\ Range(st.q) = Range(t.q) \cup {r[2]}
  /\ (e.op = "pop" /\ r[1] = "exc") => st.q = <<>>
  /\ (e.op = "push" /\ st.kind # "set") => Len(t.q) = Len(st.q) + 1
HInv(st) == /\ \A k \in 1..(Len(st.q) - 1) : st.q[k] <= st.q[k + 1]
            /\ st.kind = "set" => Cardinality(Range(st.q)) = Len(st.q)
            /\ Len(st.q) <= st.put

HX == 0..2
HCfgs == <<[kind |-> "heap", init |-> <<>>], [kind |-> "set", init |-> <<>>],
           [kind |-> "pairs", init |-> <<>>], [kind |-> "mut", init |-> <<>>],
           [kind |-> "heap", init |-> <<2, 0, 2, 1>>], [kind |-> "set", init |-> <<2, 0, 2, 1>>]>>
HOps(st) == << {[op |-> "push", a |-> <<x>>] : x \in HX},
               {[op |-> "pop_item", a |-> <<x>>] : x \in HX},
               {[op |-> "pop", a |-> <<>>]},
               {[op |-> "push_many", a |-> <<q>>] : q \in {<<1, 1>>, <<2, 0>>}},
               {[op |-> "filter_ge", a |-> <<x>>] : x \in {1}},
               {[op |-> "map_sub", a |-> <<x>>] : x \in {2}},
               {[op |-> o, a |-> <<>>] : o \in {"asc", "desc", "len", "bool", "copy_pop", "adopt_copy"}},
               {[op |-> "eq_copy", a |-> <<>>] : z \in IF st.kind = "set" THEN {} ELSE {0}},
               {[op |-> "contains", a |-> <<x>>] : x \in HX} >>

\* ------------------------------------------------------------------ time based heaps
\* entries are <<ts, item>>; the state also holds the clock the heap reads when no timestamp is given
PLeq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
TInit(cfg) == [kind |-> cfg.kind, q |-> <<>>, now |-> cfg.now]
TPair(p) == <<"seq", Int_(p[1]), Int_(p[2])>>
TIdx(q, P(_)) == {k \in 1..Len(q) : P(q[k])}
TPut(st, ts, it) == LET base == IF st.kind = "timeset" THEN FilterSeq(st.q, LAMBDA p : p[2] # it) ELSE st.q
                    IN [st EXCEPT !.q = InsSorted(base, <<ts, it>>, PLeq)]
RECURSIVE TPutAll(_, _)
TPutAll(st, ps) == IF ps = <<>> THEN st ELSE TPutAll(TPut(st, ps[1][1], ps[1][2]), Tail(ps))
RECURSIVE RemoveFrom(_, _, _)
RemoveFrom(q, S, k) == IF k > Len(q) THEN <<>> ELSE (IF k \in S THEN <<>> ELSE <<q[k]>>) \o RemoveFrom(q, S, k + 1)
RemoveSet(q, S) == RemoveFrom(q, S, 1)
TPairs(q) == <<"seq">> \o [k \in 1..Len(q) |-> TPair(q[k])]

TApply(st, e) ==
  LET q == st.q IN
  CASE e.op = "put" -> One(TPut(st, e.a[1], e.a[2]), None)
    [] e.op = "push_many" -> One(TPutAll(st, e.a[1]), None)
    [] e.op = "adopt_copy" -> One(st, None)
    [] e.op = "copy_pop" -> One(st, IF q = <<>> THEN Exc("IndexError") ELSE Int_(Len(q) - 1))
    [] e.op = "filter_ge" -> One([st EXCEPT !.q = FilterSeq(q, LAMBDA p : p[2] >= e.a[1])], None)
    [] e.op = "put_now" -> One(TPut(st, st.now, e.a[1]), None)
    [] e.op = "tick" -> One([st EXCEPT !.now = @ + e.a[1]], None)
    [] e.op = "pop" -> IF q = <<>> THEN One(st, Exc("IndexError"))
                       ELSE {[s |-> [st EXCEPT !.q = RemoveAt(q, k)], r |-> TPair(q[k])] : k \in TIdx(q, LAMBDA p : p[1] = q[1][1])}
    [] e.op \in {"pop_less_than", "pop_less_now"} ->
         LET lim == IF e.op = "pop_less_than" THEN e.a[1] ELSE st.now
             out == FilterSeq(q, LAMBDA p : p[1] < lim)
         IN One([st EXCEPT !.q = FilterSeq(q, LAMBDA p : p[1] >= lim)], TPairs(out))
    \* only the first n of the answers are consumed: only these leave the heap
    [] e.op = "pop_less_first" ->
         LET out == FilterSeq(q, LAMBDA p : p[1] < e.a[1])
             n == Min2(Len(out), e.a[2])
             \* entries with equal timestamps may come in any order
             sel == {f \in [1..n -> 1..Len(out)] : /\ \A i, j \in 1..n : i # j => f[i] # f[j]
                                                 /\ \A i \in 1..n : out[f[i]][1] = out[i][1]}
         IN {[s |-> [st EXCEPT !.q = RemoveSet(q, {f[i] : i \in 1..n})], r |-> TPairs([i \in 1..n |-> out[f[i]]])] : f \in sel}
    [] e.op = "pop_timestamp" ->
         LET ks == TIdx(q, LAMBDA p : p[1] = e.a[1])
         IN IF ks = {} THEN One(st, Exc("ValueError"))
            ELSE {[s |-> [st EXCEPT !.q = RemoveAt(q, k)], r |-> Int_(q[k][2])] : k \in ks}
    [] e.op = "pop_item" ->
         LET ks == TIdx(q, LAMBDA p : p[2] = e.a[1])
         IN IF ks = {} THEN One(st, Exc("ValueError"))
            ELSE {[s |-> [st EXCEPT !.q = RemoveAt(q, k)], r |-> TPair(q[k])] : k \in ks}
    [] e.op = "get_timestamp" ->
         LET ks == TIdx(q, LAMBDA p : p[2] = e.a[1])
         IN IF ks = {} THEN One(st, IF st.kind = "timeset" THEN Exc("ValueError") ELSE None)
            ELSE {[s |-> st, r |-> Int_(q[k][1])] : k \in ks}
    [] e.op = "remove" -> One([st EXCEPT !.q = FilterSeq(q, LAMBDA p : p[2] # e.a[1])], None)
    [] e.op = "peek" -> IF q = <<>> THEN One(st, Exc("IndexError"))
                        ELSE {[s |-> st, r |-> TPair(q[k])] : k \in TIdx(q, LAMBDA p : p[1] = q[1][1])}
    [] e.op = "contains" -> One(st, Bool_(<<e.a[1], e.a[2]>> \in Range(q)))
    [] e.op = "items" -> One(st, IntSeq(SortSeqInts([k \in 1..Len(q) |-> q[k][2]])))
    [] e.op = "len" -> One(st, Int_(Len(q)))
    [] e.op \in {"dump", "asc"} -> One(st, TPairs(q))
    [] OTHER -> {}

TStep(st, e, r, t) ==
  /\ (e.op = "pop_less_than") =>
        \* exactly the entries strictly below the bound, ascending, and none of them stays
        /\ \A p \in Range(t.q) : p[1] >= e.a[1]
        /\ Len(r) - 1 + Len(t.q) = Len(st.q)
        /\ \A k \in 2..Len(r) : r[k][2][2] < e.a[1]
        /\ \A k \in 2..(Len(r) - 1) : r[k][2][2] <= r[k + 1][2][2]
  /\ (e.op = "remove") => \A p \in Range(t.q) : p[2] # e.a[1]
TInv(st) == /\ \A k \in 1..(Len(st.q) - 1) : PLeq(st.q[k], st.q[k + 1])
            /\ st.kind = "timeset" => Cardinality({p[2] : p \in Range(st.q)}) = Len(st.q)

TCfgs == <<[kind |-> "time", now |-> 1], [kind |-> "timeset", now |-> 1]>>
TOps(st) == << {[op |-> "put", a |-> <<t, x>>] : t \in 0..2, x \in 0..1},
               {[op |-> "put_now", a |-> <<x>>] : x \in 0..1},
               {[op |-> "pop_less_than", a |-> <<t>>] : t \in {1, 2}},
               {[op |-> "pop_less_first", a |-> <<2, 1>>]},
               {[op |-> "pop_timestamp", a |-> <<1>>]},
               {[op |-> o, a |-> <<x>>] : o \in {"pop_item", "remove", "get_timestamp"}, x \in 0..1},
               {[op |-> "tick", a |-> <<1>>] : z \in IF st.now < 2 THEN {0} ELSE {}},
               {[op |-> "push_many", a |-> <<q>>] : q \in {<< <<1, 0>>, <<1, 1>> >>, << <<2, 1>>, <<0, 1>> >>}},
               {[op |-> "adopt_copy", a |-> <<d>>] : d \in 0..1}, {[op |-> "filter_ge", a |-> <<1>>]},
               {[op |-> o, a |-> <<>>] : o \in {"pop", "pop_less_now", "items", "len", "copy_pop"}},
               {[op |-> "peek", a |-> <<>>] : z \in IF st.kind = "time" THEN {0} ELSE {}} >>
=============================================================================
