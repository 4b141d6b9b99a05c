------------------------------- MODULE Ordered -------------------------------
(* S..: "SL" SortedList   q: the items; the key of item x is x \div 10, negated if cfg.neg; items with equal keys are in some order           *)
(* R..: Ranking (distinct items)                                                                                                               *)
(* D..: SliceableDeque    q, max: the length beyond which it drops from the other side                                                         *)
(* P..: PushIterable      b: the buffer, popped from the right; rest: what the iterable still gives                                            *)
(* U..: Subqueue          m: name -> queue                                                                                                     *)
(* E..: ListDeleter       q, p: 0..Len(q)+1 the pointer, marks, back: direction, gone: removed already                                         *)
(* F..: DictDeleter       m: keys, it: keys still to be visited, cur, marks                                                                    *)
EXTENDS Val
Key(c, x) == IF c.neg THEN -(x \div 10) ELSE x \div 10
Sorted(c, q) == \A j \in 1..(Len(q) - 1) : Key(c, q[j]) <= Key(c, q[j + 1])
Spots(c, q, x) == {j \in 1..(Len(q) + 1) : (\A i \in 1..(j - 1) : Key(c, q[i]) <= Key(c, x)) /\ (\A i \in j..Len(q) : Key(c, q[i]) >= Key(c, x))}
RECURSIVE Builds(_, _, _)
Builds(c, acc, q) == IF q = <<>> THEN acc ELSE Builds(c, {InsertAt(a, j, q[1]) : <<a, j>> \in UNION {{<<a, j>> : j \in Spots(c, a, q[1])} : a \in acc}}, Tail(q))
Idx(n, j) == IF j < 0 THEN j + n + 1 ELSE j + 1                       \* python index -> position
RECURSIVE Take(_, _, _, _)
Take(q, a, b, s) == IF (s > 0 /\ a >= b) \/ (s < 0 /\ a <= b) THEN <<>> ELSE <<q[a + 1]>> \o Take(q, a + s, b, s)
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Slice(q, a, b, s) == \* a, b: an integer, or 99 for none
  LET n == Len(q)
      f(x, d) == IF x = 99 THEN d ELSE LET y == IF x < 0 THEN x + n ELSE x IN IF s > 0 THEN Clip(y, 0, n) ELSE Clip(y, -1, n - 1) IN
  IF s > 0 THEN Take(q, f(a, 0), f(b, n), s) ELSE Take(q, f(a, n - 1), f(b, -1), s)
SLInit(cfg) == [q |-> <<>>, c |-> cfg]
SLApply(st, e) ==
  LET q == st.q n == Len(q) c == st.c IN
  CASE e.op = "new" -> {[s |-> [st EXCEPT !.q = z], r |-> None] : z \in Builds(c, {<<>>}, e.a[1])}
    [] e.op = "add" -> {[s |-> [st EXCEPT !.q = InsertAt(q, j, e.a[1])], r |-> Int_(j - 1)] : j \in Spots(c, q, e.a[1])}
    [] e.op = "ext" -> {[s |-> [st EXCEPT !.q = z], r |-> None] : z \in Builds(c, {q}, e.a[1])}
    [] e.op = "pop" -> IF n = 0 THEN One(st, Exc("IndexError")) ELSE One([st EXCEPT !.q = SubSeq(q, 1, n - 1)], Int_(q[n]))
    [] e.op = "popl" -> IF n = 0 THEN One(st, Exc("IndexError")) ELSE One([st EXCEPT !.q = Tail(q)], Int_(q[1]))
    [] e.op = "rem" -> LET j == IndexOf(q, e.a[1]) IN IF j = 0 THEN One(st, Exc("ValueError")) ELSE One([st EXCEPT !.q = RemoveAt(q, j)], None)
    [] e.op = "index" -> LET j == IndexOf(q, e.a[1]) IN One(st, IF j = 0 THEN Exc("ValueError") ELSE Int_(j - 1))
    [] e.op = "in" -> One(st, Bool_(IndexOf(q, e.a[1]) > 0))
    [] e.op = "at" -> LET j == Idx(n, e.a[1]) IN One(st, IF j \in 1..n THEN Int_(q[j]) ELSE Exc("IndexError"))
    [] e.op = "slice" -> One(st, IntSeq(Slice(q, e.a[1], e.a[2], e.a[3])))
    [] e.op = "items" -> One(st, IntSeq(q))
    [] e.op = "len" -> One(st, Int_(n))
    [] e.op = "bool" -> One(st, Bool_(n > 0))
    [] e.op = "deep" -> One(st, None)
    [] OTHER -> {}
SLInv(st) == Sorted(st.c, st.q)
SLStep(st, e, r, t) == TRUE
SLCfgs == <<[neg |-> FALSE, obj |-> FALSE], [neg |-> TRUE, obj |-> TRUE]>>
SLOps(st) == << {[op |-> "new", a |-> <<<<21, 11, 12>>>>]}, {[op |-> "add", a |-> <<x>>] : x \in {11, 12, 21}}, {[op |-> "rem", a |-> <<x>>] : x \in {11, 21}}, {[op |-> o, a |-> <<>>] : o \in {"pop", "popl", "items"}} >>
\* ------------------------------------------------------------------ R
RInit(cfg) == [q |-> <<>>, c |-> cfg]
RApply(st, e) ==
  LET q == st.q n == Len(q) IN
  CASE e.op = "new" -> {[s |-> [st EXCEPT !.q = z], r |-> None] : z \in Builds(st.c, {<<>>}, e.a[1])}
    [] e.op = "add" -> IF IndexOf(q, e.a[1]) > 0 THEN {} ELSE {[s |-> [st EXCEPT !.q = InsertAt(q, j, e.a[1])], r |-> None] : j \in Spots(st.c, q, e.a[1])}
    [] e.op = "rem" -> LET j == IndexOf(q, e.a[1]) IN IF j = 0 THEN One(st, Exc("ValueError")) ELSE One([st EXCEPT !.q = RemoveAt(q, j)], None)
    [] e.op = "pos" -> LET j == IndexOf(q, e.a[1]) IN One(st, IF j = 0 THEN Exc("ValueError") ELSE Int_(j - 1))
    [] e.op = "rank" -> LET j == IndexOf(q, e.a[1]) IN One(st, IF j = 0 THEN Exc("KeyError") ELSE Int_(j - 1))
    [] e.op = "at" -> LET j == Idx(n, e.a[1]) IN One(st, IF j \in 1..n THEN Int_(q[j]) ELSE Exc("IndexError"))
    [] e.op = "slice" -> One(st, IntSeq(Slice(q, e.a[1], e.a[2], e.a[3])))
    [] e.op = "items" -> One(st, IntSeq(q))
    [] OTHER -> {}
RInv(st) == Sorted(st.c, st.q)
RStep(st, e, r, t) == TRUE
RCfgs == SLCfgs
ROps(st) == << {[op |-> "new", a |-> <<<<21, 11, 12>>>>]}, {[op |-> "add", a |-> <<x>>] : x \in {11, 12, 21} \ Range(st.q)}, {[op |-> "rem", a |-> <<x>>] : x \in {11, 21}}, {[op |-> "items", a |-> <<>>]} >>
\* ------------------------------------------------------------------ D
DInit(cfg) == [q |-> <<>>, max |-> cfg.max]
Full(st) == st.max > 0 /\ Len(st.q) = st.max
AppR(st, x) == [st EXCEPT !.q = Append(IF Full(st) THEN Tail(@) ELSE @, x)]
AppL(st, x) == [st EXCEPT !.q = <<x>> \o (IF Full(st) THEN SubSeq(@, 1, Len(@) - 1) ELSE @)]
RECURSIVE ExtR(_, _)
ExtR(st, q) == IF q = <<>> THEN st ELSE ExtR(AppR(st, q[1]), Tail(q))
DApply(st, e) ==
  LET q == st.q n == Len(q) j == IF e.a = <<>> \/ e.op \in {"ext", "rot"} THEN 0 ELSE Idx(n, e.a[1]) IN
  CASE e.op = "app" -> One(AppR(st, e.a[1]), None)
    [] e.op = "appl" -> One(AppL(st, e.a[1]), None)
    [] e.op = "ext" -> One(ExtR(st, e.a[1]), None)
    [] e.op = "pop" -> IF n = 0 THEN One(st, Exc("IndexError")) ELSE One([st EXCEPT !.q = SubSeq(q, 1, n - 1)], Int_(q[n]))
    [] e.op = "popl" -> IF n = 0 THEN One(st, Exc("IndexError")) ELSE One([st EXCEPT !.q = Tail(q)], Int_(q[1]))
    [] e.op = "ins" -> IF Full(st) THEN One(st, Exc("IndexError")) ELSE One([st EXCEPT !.q = InsertAt(q, Clip(IF e.a[1] < 0 THEN e.a[1] + n ELSE e.a[1], 0, n) + 1, e.a[2])], None)
    [] e.op = "set" -> IF j \in 1..n THEN One([st EXCEPT !.q[j] = e.a[2]], None) ELSE One(st, Exc("IndexError"))
    [] e.op = "del" -> IF j \in 1..n THEN One([st EXCEPT !.q = RemoveAt(q, j)], None) ELSE One(st, Exc("IndexError"))
    [] e.op = "at" -> One(st, IF j \in 1..n THEN Int_(q[j]) ELSE Exc("IndexError"))
    [] e.op = "rem" -> LET k == IndexOf(q, e.a[1]) IN IF k = 0 THEN One(st, Exc("ValueError")) ELSE One([st EXCEPT !.q = RemoveAt(q, k)], None)
    [] e.op = "index" -> LET k == IndexOf(q, e.a[1]) IN One(st, IF k = 0 THEN Exc("ValueError") ELSE Int_(k - 1))
    [] e.op = "count" -> One(st, Int_(Cardinality({k \in 1..n : q[k] = e.a[1]})))
    [] e.op = "in" -> One(st, Bool_(IndexOf(q, e.a[1]) > 0))
    [] e.op = "slice" -> One(st, IntSeq(Slice(q, e.a[1], e.a[2], e.a[3])))
    [] e.op = "rot" -> One([st EXCEPT !.q = IF n = 0 THEN q ELSE [k \in 1..n |-> q[((k - 1 - e.a[1]) % n) + 1]]], None)
    [] e.op = "rev" -> One(st, IntSeq(Reverse(q)))
    [] e.op = "items" -> One(st, IntSeq(q))
    [] e.op = "len" -> One(st, Int_(n))
    [] e.op = "bool" -> One(st, Bool_(n > 0))
    [] e.op = "clear" -> One([st EXCEPT !.q = <<>>], None)
    [] e.op = "deep" -> One(st, None)
    [] OTHER -> {}
DInv(st) == st.max > 0 => Len(st.q) <= st.max
DStep(st, e, r, t) == TRUE
DCfgs == <<[max |-> 0], [max |-> 2]>>
DOps(st) == << {[op |-> o, a |-> <<x>>] : o \in {"app", "appl", "rem"}, x \in {1, 2}}, {[op |-> o, a |-> <<>>] : o \in {"pop", "popl", "deep"}}, {[op |-> o, a |-> <<x, 3>>] : o \in {"ins", "set"}, x \in {-1, 1}},
               {[op |-> "del", a |-> <<x>>] : x \in {-1, 1}}, {[op |-> "ext", a |-> <<<<1, 2>>>>]}, {[op |-> "rot", a |-> <<1>>]},
               {[op |-> "slice", a |-> <<a, b, s>>] : a \in {99, 1, -2}, b \in {99, 2, -1}, s \in {1, 2, -1}} >>
\* ------------------------------------------------------------------ P
PInit(cfg) == [b |-> <<>>, rest |-> cfg.q]
PApply(st, e) ==
  CASE e.op = "push" -> One([st EXCEPT !.b = Append(@, e.a[1])], None)
    [] e.op = "pushl" -> One([st EXCEPT !.b = <<e.a[1]>> \o @], None)
    [] e.op \in {"pop", "next"} -> IF st.b # <<>> THEN One([st EXCEPT !.b = SubSeq(@, 1, Len(@) - 1)], Int_(st.b[Len(st.b)]))
                                  ELSE IF st.rest = <<>> THEN One(st, Exc("StopIteration")) ELSE One([st EXCEPT !.rest = Tail(@)], Int_(st.rest[1]))
    [] e.op = "list" -> One([b |-> <<>>, rest |-> <<>>], IntSeq(Reverse(st.b) \o st.rest))
    [] OTHER -> {}
PInv(st) == TRUE
PStep(st, e, r, t) == TRUE
PCfgs == <<[q |-> <<1, 2, 3>>], [q |-> <<>>]>>
POps(st) == << {[op |-> o, a |-> <<x>>] : o \in {"push", "pushl"}, x \in {7, 8}}, {[op |-> o, a |-> <<>>] : o \in {"pop", "list"}} >>
\* ------------------------------------------------------------------ U
UInit(cfg) == [m |-> <<>>]
UQ(st, k) == IF k \in DOMAIN st.m THEN st.m[k] ELSE <<>>
RECURSIVE Total(_, _)
Total(m, d) == IF d = {} THEN 0 ELSE LET k == CHOOSE x \in d : TRUE IN Len(m[k]) + Total(m, d \ {k})
UApply(st, e) ==
  LET k == e.a[1] IN
  CASE e.op = "put" -> One([m |-> FnSet(st.m, k, Append(UQ(st, k), e.a[2]))], None)
    [] e.op = "get" -> IF UQ(st, k) = <<>> THEN {} ELSE One([m |-> FnSet(st.m, k, Tail(st.m[k]))], Int_(st.m[k][1]))
    [] e.op \in {"getn", "gett"} -> IF UQ(st, k) = <<>> THEN One(st, Exc("Empty")) ELSE One([m |-> FnSet(st.m, k, Tail(st.m[k]))], Int_(st.m[k][1]))
    [] e.op \in {"any", "anyw"} -> LET s == {x \in DOMAIN st.m : st.m[x] # <<>>} IN
                         (IF s = {} \/ e.op = "anyw" THEN One(st, Exc("Empty")) ELSE {}) \cup {[s |-> [m |-> FnSet(st.m, x, Tail(st.m[x]))], r |-> <<"seq", Int_(x), Int_(st.m[x][1])>>] : x \in s}
    [] e.op = "size" -> One(st, Int_(Total(st.m, DOMAIN st.m)))
    [] e.op = "sizew" -> One(st, Bool_(TRUE))
    [] OTHER -> {}
UInv(st) == TRUE
UStep(st, e, r, t) == TRUE
UCfgs == <<[z |-> 0]>>
UOps(st) == << {[op |-> "put", a |-> <<k, v>>] : k \in 1..2, v \in 1..2}, {[op |-> o, a |-> <<k>>] : o \in {"getn", "gett"}, k \in 1..2}, {[op |-> o, a |-> <<0>>] : o \in {"any", "size"}} >>
\* ------------------------------------------------------------------ E
EInit(cfg) == [q |-> cfg.q, p |-> IF cfg.back THEN Len(cfg.q) + 1 ELSE 0, marks |-> {}, back |-> cfg.back, gone |-> FALSE]
EMove(st, d) == LET n == Len(st.q) p == Clip(st.p + d, 0, n + 1) s1 == [st EXCEPT !.p = p] IN
                One(s1, IF p \in 1..n THEN Int_(st.q[p]) ELSE Exc("StopIteration"))
Kept(st) == LET ix == SortInts({j \in 1..Len(st.q) : j \notin st.marks}) IN [j \in 1..Len(ix) |-> st.q[ix[j]]]
ERest(st) == LET n == Len(st.q) IN IF st.back THEN Reverse(st.q) ELSE st.q
EApply(st, e) ==
  LET dir == IF st.back THEN -1 ELSE 1 IN
  CASE e.op = "next" -> IF st.gone THEN {} ELSE EMove(st, dir)
    [] e.op = "prev" -> IF st.gone THEN {} ELSE EMove(st, -dir)
    [] e.op = "iter" -> One([st EXCEPT !.p = IF st.back THEN Len(st.q) + 1 ELSE 0, !.marks = {}, !.gone = FALSE], None)
    \* a whole for loop that deletes the elements in e.a[1]
    [] e.op = "for" -> LET s1 == [st EXCEPT !.p = IF st.back THEN 0 ELSE Len(st.q) + 1, !.marks = {j \in 1..Len(st.q) : IndexOf(e.a[1], st.q[j]) > 0}, !.gone = FALSE] IN One(s1, IntSeq(ERest(st)))
    [] e.op = "cur" -> IF st.gone \/ st.p \notin 1..Len(st.q) THEN {} ELSE One(st, Int_(st.q[st.p]))
    [] e.op = "del" -> IF st.gone THEN {} ELSE One([st EXCEPT !.marks = @ \cup ({st.p} \cap 1..Len(st.q))], None)
    [] e.op \in {"commit", "exit"} -> One([st EXCEPT !.q = IF st.gone THEN @ ELSE Kept(st), !.gone = TRUE, !.marks = {}], None)
    [] e.op = "exitx" -> One([st EXCEPT !.q = IF st.gone THEN @ ELSE Kept(st), !.gone = TRUE, !.marks = {}], Exc("KeyError"))
    [] e.op = "rev" -> IF st.gone THEN {} ELSE One([st EXCEPT !.back = ~@, !.p = IF st.back THEN 0 ELSE Len(st.q) + 1, !.marks = {}], None)
    [] e.op = "copy" -> One(st, None)
    [] e.op = "items" -> One(st, IntSeq(st.q))
    [] OTHER -> {}
EInv(st) == TRUE
EStep(st, e, r, t) == e.op \notin {"commit", "exit", "exitx"} => t.q = st.q
ECfgs == <<[q |-> <<1, 2, 3>>, back |-> FALSE, min |-> FALSE], [q |-> <<1, 2, 1>>, back |-> TRUE, min |-> TRUE]>>
EOps(st) == IF st.gone THEN << {[op |-> o, a |-> <<>>] : o \in {"commit", "iter", "copy", "items"}} >>
            ELSE << {[op |-> o, a |-> <<>>] : o \in {"next", "prev", "del", "commit", "rev", "copy"}}, {[op |-> "for", a |-> <<<<1, 3>>>>]}, {[op |-> o, a |-> <<>>] : o \in {"exitx"}} >>
\* ------------------------------------------------------------------ F
FInit(cfg) == [m |-> {1, 2, 3, 4}, marks |-> {}, in |-> FALSE]
FApply(st, e) ==
  CASE e.op = "enter" -> IF st.in THEN {} ELSE One([st EXCEPT !.marks = {}, !.in = TRUE], None)
    \* a loop of a given kind that visits every entry once and deletes the keys in e.a[2]
    [] e.op = "loop" -> IF ~st.in THEN {} ELSE LET q == SortInts(st.m) IN
                        One([st EXCEPT !.marks = @ \cup (Range(e.a[2]) \cap st.m)],
                            <<"seq">> \o [j \in 1..Len(q) |-> CASE e.a[1] = "keys" -> Int_(q[j]) [] e.a[1] = "values" -> Int_(10 * q[j]) [] OTHER -> <<"seq", Int_(q[j]), Int_(10 * q[j])>>])
    [] e.op = "exit" -> IF ~st.in THEN {} ELSE One([st EXCEPT !.m = @ \ st.marks, !.in = FALSE], None)
    [] e.op = "exitx" -> IF ~st.in THEN {} ELSE One([st EXCEPT !.m = @ \ st.marks, !.in = FALSE], Exc("KeyError"))
    [] e.op = "items" -> One(st, IntSeq(SortInts(st.m)))
    [] OTHER -> {}
FInv(st) == TRUE
FStep(st, e, r, t) == e.op \notin {"exit", "exitx"} => t.m = st.m
FCfgs == <<[z |-> 0]>>
FOps(st) == IF st.in THEN << {[op |-> "loop", a |-> <<k, q>>] : k \in {"keys", "values", "items"}, q \in {<<>>, <<1, 3>>, <<2>>}}, {[op |-> o, a |-> <<>>] : o \in {"exit", "exitx", "items"}} >> ELSE << {[op |-> "enter", a |-> <<>>]} >>
=============================================================================
