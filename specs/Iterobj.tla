-------------------------------- MODULE Iterobj -------------------------------
(* Objects wrapped around an iterator.                                                                                                          *)
EXTENDS Val
----------------------------------------------------------------------------
(* Generators over the items q that write down what they are sent; wrapped in SelfClosingGenerator ("closing"), run_when_generator_completes ("after"), hint_with_length ("hint") *)
(* at: how many items have been yielded (0: not started, -1: it is over); log: what happened in the generator, -1: it came to its end, -2: it was closed, -3: an exception came in *)
(* ran: how many times the action was run                                                                                                       *)
GInit(cfg) == [at |-> 0, log |-> <<>>, ran |-> 0, gone |-> FALSE, c |-> cfg]
GN(st) == Len(st.c.q)
\* the action fails
ActFails(st) == st.c.kind = "after" /\ st.c.bad = 9
\* resumed with v (-9 nothing)
Resume(st, v) ==
  IF st.at = -1 THEN [s |-> st, r |-> Exc("StopIteration")]
  ELSE LET l == IF st.at = 0 THEN st.log ELSE Append(st.log, v) IN
       IF st.at = st.c.bad THEN [s |-> [st EXCEPT !.at = -1, !.log = l], r |-> Exc("OSError")]
       ELSE IF st.at = GN(st) THEN [s |-> [st EXCEPT !.at = -1, !.log = Append(l, -1), !.ran = @ + (IF st.c.kind = "after" THEN 1 ELSE 0)], r |-> Exc(IF ActFails(st) THEN "ValueError" ELSE "StopIteration")]
       ELSE [s |-> [st EXCEPT !.at = @ + 1, !.log = l], r |-> Int_(st.c.q[st.at + 1])]
RECURSIVE RunOut(_)
RunOut(st) == IF st.at = -1 THEN st ELSE RunOut(Resume(st, -9).s)
GApply(st, e) ==
  LET k == st.c.kind IN
  CASE e.op = "log" -> One(st, <<"seq", IntSeq(st.log), Int_(st.ran)>>)
    [] st.gone -> {}
    [] e.op = "next" -> {Resume(st, -9)}
    [] e.op = "send" -> IF st.at = 0 THEN One(st, Exc("TypeError")) ELSE {Resume(st, e.a[1])}
    [] e.op = "rest" -> LET t == RunOut(st) q == IF st.at = -1 THEN <<>> ELSE SubSeq(st.c.q, st.at + 1, GN(st)) IN IF st.at # -1 /\ st.c.bad # -1 THEN One(t, Exc(IF ActFails(st) THEN "ValueError" ELSE "OSError")) ELSE One(t, IntSeq(q))
    [] e.op = "throw" -> IF k = "after" THEN {[s |-> [st EXCEPT !.at = -1, !.log = IF st.at > 0 THEN Append(@, -3) ELSE @], r |-> Exc("KeyError")]} ELSE {}
    [] e.op = "close" -> IF k = "closing" THEN One(RunOut(st), None) ELSE One([st EXCEPT !.at = -1, !.log = IF st.at > 0 THEN Append(@, -2) ELSE @], None)
    \* no longer referred to
    [] e.op = "drop" -> IF k = "closing" THEN One([RunOut(st) EXCEPT !.gone = TRUE], None) ELSE {}
    \* the body of a with-statement ends, having raised or not
    [] e.op = "with" -> IF k = "closing" THEN One(RunOut(st), IF e.a[1] = 1 THEN Exc("KeyError") ELSE None) ELSE {}
    [] e.op = "hint" -> IF k = "hint" THEN One(st, Int_(7)) ELSE {}
    [] OTHER -> {}
GInv(st) == st.ran <= 1 /\ (st.ran = 1 => st.at = -1 /\ st.log[Len(st.log)] = -1)
GStep(st, e, r, t) == (st.c.kind = "closing" /\ e.op \in {"close", "drop", "with"}) => t.at = -1 /\ (st.at # -1 /\ st.c.bad = -1 => t.log[Len(t.log)] = -1)
GCfgs == <<[kind |-> "closing", q |-> <<5, 6>>, bad |-> -1], [kind |-> "closing", q |-> <<>>, bad |-> -1], [kind |-> "after", q |-> <<5, 6>>, bad |-> -1], [kind |-> "after", q |-> <<5, 6>>, bad |-> 1], [kind |-> "after", q |-> <<5, 6>>, bad |-> 9], [kind |-> "after", q |-> <<>>, bad |-> -1],
           [kind |-> "hint", q |-> <<5, 6>>, bad |-> -1]>>
GOps(st) == IF st.gone THEN <<>> ELSE << {[op |-> o, a |-> <<>>] : o \in {"next", "rest", "throw", "close", "drop", "hint"}}, {[op |-> "send", a |-> <<3>>]}, {[op |-> "with", a |-> <<n>>] : n \in 0..1} >>
----------------------------------------------------------------------------
(* ListWrapperIterator over q: n - how many elements have been loaded, p - where next() is, it - where each of the iterators made of it is      *)
WInit(cfg) == [n |-> 0, p |-> 0, it |-> <<>>, c |-> cfg]
WL(st) == Len(st.c.q)
Load(st, k) == [st EXCEPT !.n = Max2(@, Min2(k, WL(st)))]
Clip(x, n) == IF x < 0 THEN Max2(0, n + x) ELSE Min2(x, n)
WApply(st, e) ==
  LET a == e.a q == st.c.q L == WL(st) IN
  CASE e.op = "next" -> IF st.p = L THEN One(st, Exc("StopIteration")) ELSE One([Load(st, st.p + 1) EXCEPT !.p = @ + 1], Int_(q[st.p + 1]))
    [] e.op = "get" -> IF a[1] >= 0 THEN LET t == Load(st, a[1] + 1) IN IF a[1] < L THEN One(t, Int_(q[a[1] + 1])) ELSE One(t, Exc("IndexError"))
                       ELSE LET t == Load(st, L) IN IF L + a[1] >= 0 THEN One(t, Int_(q[L + a[1] + 1])) ELSE One(t, Exc("IndexError"))
    [] e.op = "len" -> One(Load(st, L), Int_(L))
    [] e.op = "exhaust" -> One(Load(st, L), None)
    \* [a:b], 99: left out
    [] e.op = "slice" -> LET i == IF a[1] = 99 THEN 0 ELSE Clip(a[1], L) j == IF a[2] = 99 THEN L ELSE Clip(a[2], L)
                             need == IF a[2] \in {99} \cup -50..-1 \/ (a[1] < 0) THEN L ELSE a[2] IN
                         One(Load(st, need), IntSeq(SubSeq(q, i + 1, j)))
    \* looking for something that has not been loaded may move next() forward
    [] e.op = "has" -> IF \E i \in 1..st.n : q[i] = a[1] THEN One(st, Bool_(TRUE))
                       ELSE LET f == \E i \in 1..L : q[i] = a[1] i == IF f THEN IndexOf(q, a[1]) ELSE L IN {[s |-> [Load(st, i) EXCEPT !.p = x], r |-> Bool_(f)] : x \in {st.p, i}}
    [] e.op = "index" -> IF \E i \in 1..L : q[i] = a[1] THEN One(Load(st, IndexOf(q, a[1])), Int_(IndexOf(q, a[1]) - 1)) ELSE One(Load(st, L), Exc("ValueError"))
    [] e.op = "number" -> One(Load(st, L), Int_(Cardinality({i \in 1..L : q[i] = a[1]})))
    [] e.op = "all" -> One(Load(st, L), IntSeq(q))
    [] e.op = "backwards" -> One(Load(st, L), IntSeq(Reverse(q)))
    [] e.op = "iter" -> One([st EXCEPT !.it = Append(@, 0)], None)
    [] e.op = "step" -> IF a[1] \notin DOMAIN st.it THEN {} ELSE LET i == st.it[a[1]] IN IF i = L THEN One(Load(st, L), Exc("StopIteration")) ELSE One([Load(st, i + 1) EXCEPT !.it = [@ EXCEPT ![a[1]] = i + 1]], Int_(q[i + 1]))
    [] e.op = "loaded" -> One(st, Int_(st.n))
    [] OTHER -> {}
WInv(st) == st.p <= st.n /\ st.n <= WL(st) /\ \A i \in DOMAIN st.it : st.it[i] <= st.n
WStep(st, e, r, t) == t.n >= st.n /\ (e.op \in {"all", "len", "get", "slice", "iter", "step", "index", "number"} => t.p = st.p)
WCfgs == <<[q |-> <<>>], [q |-> <<5>>], [q |-> <<5, 6, 5, 7>>]>>
WOps(st) == << {[op |-> o, a |-> <<>>] : o \in {"next", "len", "all", "exhaust"} \cup IF Len(st.it) < 2 THEN {"iter"} ELSE {}}, {[op |-> "get", a |-> <<i>>] : i \in {-5, -1, 0, 2, 4}}, {[op |-> o, a |-> <<x>>] : o \in {"has", "index"}, x \in {5, 6, 9}},
               {[op |-> "slice", a |-> <<i, j>>] : i \in {99, -2, 0, 1}, j \in {99, -1, 0, 2}}, {[op |-> "step", a |-> <<i>>] : i \in DOMAIN st.it} >>
----------------------------------------------------------------------------
(* IteratorListAdapter: what is left becomes a list when first looked at as one.  q: what is left, un: unfolded, p: next() among it              *)
AInit(cfg) == [q |-> cfg.q, un |-> FALSE, p |-> 0]
AApply(st, e) ==
  LET a == e.a u == [st EXCEPT !.un = TRUE] L == Len(st.q) IN
  CASE e.op = "next" -> IF ~st.un THEN (IF st.q = <<>> THEN One(st, Exc("StopIteration")) ELSE One([st EXCEPT !.q = Tail(@)], Int_(Head(st.q))))
                        ELSE IF st.p >= L THEN One(st, Exc("StopIteration")) ELSE One([st EXCEPT !.p = @ + 1], Int_(st.q[st.p + 1]))
    [] e.op = "get" -> IF a[1] < L /\ a[1] >= -L THEN One(u, Int_(st.q[(IF a[1] < 0 THEN L + a[1] ELSE a[1]) + 1])) ELSE One(u, Exc("IndexError"))
    [] e.op = "len" -> One(u, Int_(L))
    [] e.op = "has" -> One(u, Bool_(a[1] \in Range(st.q)))
    [] e.op = "all" -> One(IF st.un THEN st ELSE [st EXCEPT !.q = <<>>], IntSeq(st.q))
    [] OTHER -> {}
AInv(st) == st.p <= Len(st.q)
AStep(st, e, r, t) == st.un => t.un /\ t.q = st.q
ACfgs == <<[q |-> <<>>], [q |-> <<5, 6, 7>>]>>
AOps(st) == << {[op |-> o, a |-> <<>>] : o \in {"next", "len", "all"}}, {[op |-> "get", a |-> <<i>>] : i \in {-4, -1, 0, 1, 3}}, {[op |-> "has", a |-> <<x>>] : x \in {5, 9}} >>
----------------------------------------------------------------------------
(* ConstruableIterator                                                                                                                          *)
KInit(cfg) == [q |-> cfg.q]
KApply(st, e) ==
  LET a == e.a IN
  CASE e.op = "next" -> IF st.q = <<>> THEN One(st, Exc("StopIteration")) ELSE One([st EXCEPT !.q = Tail(@)], Int_(Head(st.q)))
    [] e.op = "add" -> One([st EXCEPT !.q = Append(@, a[1])], None)
    [] e.op = "add_immediate" -> One([st EXCEPT !.q = <<a[1]>> \o @], None)
    [] e.op = "add_many" -> One([st EXCEPT !.q = @ \o a], None)
    [] e.op = "add_many_immediate" -> One([st EXCEPT !.q = a \o @], None)
    [] e.op = "hint" -> One(st, Int_(Len(st.q)))
    [] e.op = "all" -> One([st EXCEPT !.q = <<>>], IntSeq(st.q))
    [] OTHER -> {}
KInv(st) == TRUE
KStep(st, e, r, t) == e.op \in {"add", "add_immediate"} => Len(t.q) = Len(st.q) + 1
KCfgs == <<[q |-> <<>>], [q |-> <<1, 2>>]>>
KOps(st) == << {[op |-> o, a |-> <<>>] : o \in {"next", "all", "hint"}}, {[op |-> o, a |-> <<5>>] : o \in {"add", "add_immediate"}}, {[op |-> o, a |-> q] : o \in {"add_many", "add_many_immediate"}, q \in {<<>>, <<7, 8>>}} >>
----------------------------------------------------------------------------
(* AlreadySeen: elements below 10 are hashable, the others are not                                                                              *)
UInit(cfg) == [seen |-> {}]
UApply(st, e) == IF e.op = "unique" THEN One([st EXCEPT !.seen = @ \cup {e.a[1]}], Bool_(e.a[1] \notin st.seen)) ELSE {}
UInv(st) == TRUE
UStep(st, e, r, t) == st.seen \subseteq t.seen
UCfgs == <<[x |-> 0]>>
UOps(st) == << {[op |-> "unique", a |-> <<x>>] : x \in {1, 2, 11, 12}} >>
----------------------------------------------------------------------------
(* RollingArithmeticAverage of the last n                                                                                                       *)
RInit(cfg) == [q |-> <<>>, n |-> cfg.n]
RApply(st, e) ==
  CASE e.op = "insert" -> LET q == Append(st.q, e.a[1]) IN One([st EXCEPT !.q = IF Len(q) > st.n THEN Tail(q) ELSE q], None)
    \* the average, times the number of entries, and that number
    [] e.op = "avg" -> IF st.q = <<>> THEN One(st, Exc("ZeroDivisionError")) ELSE One(st, <<"seq", Int_(SumSeq(st.q)), Int_(Len(st.q))>>)
    [] e.op = "clear" -> One([st EXCEPT !.q = <<>>], None)
    [] OTHER -> {}
RInv(st) == Len(st.q) <= st.n
RStep(st, e, r, t) == TRUE
RCfgs == <<[n |-> 1], [n |-> 2], [n |-> 3]>>
ROps(st) == << {[op |-> "insert", a |-> <<x>>] : x \in {-1, 0, 4}}, {[op |-> o, a |-> <<>>] : o \in {"avg", "clear"}} >>
===============================================================================
