-------------------------------- MODULE Helpers --------------------------------
(* The small helpers of satella.coding: updating dictionaries and attributes, chaining callables, things closed once, iterating over a queue. *)
(* Values: -1 is None, 0 is 0, 1 - 2 numbers, 3 is an empty text, 4 a text, 5 an empty list                                              *)
EXTENDS Val
Truthy(v) == v \in {1, 2, 4}
Keys == <<"a", "b", "c">>
Pairs(d) == LET q == SelectSeq(Keys, LAMBDA k : k \in DOMAIN d) IN <<"seq">> \o [i \in DOMAIN q |-> <<"seq", Str_(q[i]), Int_(d[q[i]])>>]
Has(q, n) == \E i \in DOMAIN q : q[i][1] = n
\* the last one in a sequence of pairs
Of(q, n) == q[MaxOf({i \in DOMAIN q : q[i][1] = n})][2]
RECURSIVE Put(_, _)
Put(d, q) == IF q = <<>> THEN d ELSE Put(FnSet(d, Head(q)[1], Head(q)[2]), Tail(q))
\* ------------------------------------------------------------ updating a dictionary d and an object's attributes o; everything answers with the thing given, after the update
UInit(cfg) == [d |-> [x \in {} |-> 0], o |-> [x \in {} |-> 0]]
UAns(d) == Pairs(d)
UApply(st, e) ==
  LET a == e.a
      D(d) == One([st EXCEPT !.d = d], UAns(d))
      O(o) == One([st EXCEPT !.o = o], UAns(o)) IN
  CASE e.op = "if_true" -> D(IF Truthy(a[2]) THEN FnSet(st.d, a[1], a[2]) ELSE st.d)
    [] e.op = "flag" -> D(IF Truthy(a[3]) THEN FnSet(st.d, a[1], a[2]) ELSE st.d)
    [] e.op \in {"if_not_none", "old1", "old2"} -> D(IF a[2] # -1 THEN FnSet(st.d, a[1], a[2]) ELSE st.d)
    [] e.op = "all_not_none" -> D(Put(st.d, SelectSeq(a[1], LAMBDA p : p[2] # -1)))
    [] e.op = "del" -> One([st EXCEPT !.d = FnDel(st.d, a[1]), !.o = FnDel(st.o, a[1])], None)
    \* the attribute is set if there is none, or it is None
    [] e.op = "attr" -> (IF a[1] \notin DOMAIN st.o THEN (IF a[3] THEN O(FnSet(st.o, a[1], a[2])) ELSE One(st, Exc("AttributeError")))
                        ELSE IF st.o[a[1]] = -1 THEN O(FnSet(st.o, a[1], a[2])) ELSE O(st.o))
    [] e.op = "attr_value" -> O(IF a[2] # -1 THEN FnSet(st.o, a[1], a[2]) ELSE st.o)
    [] OTHER -> {}
UInv(st) == TRUE
\* nothing but what was named changes
UStep(st, e, r, t) == e.op # "all_not_none" => \A k \in (DOMAIN st.d \cup DOMAIN t.d) \ {e.a[1]} : k \in DOMAIN st.d /\ k \in DOMAIN t.d /\ st.d[k] = t.d[k]
UCfgs == <<[slots |-> FALSE], [slots |-> TRUE]>>
Vs == {-1, 0, 1, 3, 4}
UOps(st) == <<
  {[op |-> o, a |-> <<k, v>>] : o \in {"if_true", "if_not_none"}, k \in {"a", "b"}, v \in Vs},
  {[op |-> "flag", a |-> <<"a", v, f>>] : v \in {-1, 0, 2}, f \in {-1, 0, 1, 4}},
  {[op |-> o, a |-> <<"b", v>>] : o \in {"old1", "old2"}, v \in {-1, 0, 5}},
  {[op |-> "all_not_none", a |-> <<q>>] : q \in {<<>>, <<<<"a", -1>>, <<"b", 0>>>>, <<<<"c", 3>>, <<"a", 5>>>>}},
  {[op |-> "del", a |-> <<k>>] : k \in {"a"}},
  {[op |-> "attr", a |-> <<k, v, b>>] : k \in {"a", "b"}, v \in {-1, 0, 1}, b \in BOOLEAN},
  {[op |-> "attr_value", a |-> <<k, v>>] : k \in {"a", "b"}, v \in Vs} >>
\* ------------------------------------------------------------ callables chained: the second gets the answer of the first if it takes it, or nothing if it takes nothing; each is called once
F1 == {"sum", "none", "fail"}
Takes1 == {"one", "opt", "star", "m1", "c1", "err1", "inner", "noargs", "partial", "cm1", "len"}
Takes0 == {"zero", "m0", "c0", "kwonly", "err0", "builtin0", "sm0"}
\* of an answer n (-1: None)
Second(f, n) ==
  CASE f \in {"one", "opt", "m1", "c1", "cm1"} -> <<"seq", Str_(f), Int_(n)>> [] f = "star" -> <<"seq", Str_(f), Int_(n)>> [] f = "partial" -> <<"seq", Str_(f), Int_(9), Int_(n)>>
    [] f \in {"zero", "m0", "c0", "kwonly", "sm0"} -> <<"seq", Str_(f)>> [] f = "builtin0" -> None
    [] f \in {"err1", "err0", "inner", "noargs", "two", "len"} -> Exc("TypeError")
CInit(cfg) == [x |-> 0]
Sum(a) == a[1] + (IF Len(a) > 1 THEN a[2] ELSE 2)
CApply(st, e) ==
  LET a == e.a IN
  CASE e.op = "chain" ->
         One(st, CASE a[1] = "fail" -> <<"seq", Int_(1), Int_(0), Exc("ValueError")>> [] OTHER ->
           LET n == IF a[1] = "none" THEN -1 ELSE Sum(a[3]) IN <<"seq", Int_(1), Int_(IF a[2] \in {"two", "builtin0", "len"} THEN 0 ELSE 1), Second(a[2], n)>>)
    [] e.op = "enum" -> One(st, Str_("value of " \o a[1]))
    [] e.op = "source" -> One(st, Int_(CASE a[1] = "x + 1" -> a[2] + 1 [] a[1] = "callable" -> a[2] * 2 [] a[1] = "x if x > 1 else -x" -> IF a[2] > 1 THEN a[2] ELSE -a[2] [] a[1] = "sum([x for i in range(3)])" -> 3 * a[2]))
    [] e.op = "iterate" -> One(st, IntSeq(a[1]))
    [] e.op = "call_nn" -> One(st, IF a[1] = "none" THEN None ELSE Int_(Sum(a[2])))
    [] e.op = "import" -> One(st, IF a[1] \in {"collections.deque", "os.path.join", "collections.abc.Mapping"} THEN Str_(a[1]) ELSE Exc("ImportError"))
    [] e.op = "disabled" -> One(st, <<"seq", Bool_(TRUE), Exc("NotImplementedError"), Int_(0)>>)
    \* the clock in seconds, and milli- and microseconds, rounded down
    [] e.op = "clock" -> One(st, <<"seq", Int_(a[1] \div 1000), Int_(a[1]), Int_(a[1] * 1000)>>)
    [] OTHER -> {}
CInv(st) == TRUE
CStep(st, e, r, t) == (e.op = "chain" /\ e.a[1] # "fail") => r[2] = Int_(1)
CCfgs == <<[x |-> 0]>>
COps(st) == <<
  {[op |-> "chain", a |-> <<f, g, q>>] : f \in F1, g \in Takes1 \cup Takes0 \cup {"two"}, q \in {<<1>>, <<1, 5>>}},
  {[op |-> "enum", a |-> <<k>>] : k \in {"member", "int member", "number", "none", "class"}},
  {[op |-> "source", a |-> <<k, v>>] : k \in {"x + 1", "callable", "x if x > 1 else -x", "sum([x for i in range(3)])"}, v \in 0..2},
  {[op |-> "iterate", a |-> <<q>>] : q \in {<<>>, <<1, 2>>}},
  {[op |-> "call_nn", a |-> <<k, q>>] : k \in {"none", "sum"}, q \in {<<1>>, <<1, 5>>}},
  {[op |-> "import", a |-> <<k>>] : k \in {"collections.deque", "os.path.join", "collections.abc.Mapping", "collections.nothing", "nothing_at_all.x", "collections.nothing.x"}},
  {[op |-> "disabled", a |-> <<k>>] : k \in {"", "a reason"}},
  {[op |-> "clock", a |-> <<t>>] : t \in {0, 999, 1000, 1999, 1234567 \div 1000}} >>
\* ------------------------------------------------------------ things that are closed: o[k] is "none", "half" (its constructor did not get to the end), "open" or "closed"; n counts the times it has been cleaned up
OInit(cfg) == [o |-> [k \in 1..2 |-> "none"], n |-> [k \in 1..2 |-> 0]]
Closed(st, k) == [st EXCEPT !.o[k] = "closed", !.n[k] = IF st.o[k] = "open" THEN @ + 1 ELSE @]
OApply(st, e) ==
  LET k == e.a[1] half == st.o[k] = "half" IN
  CASE e.op = "new" -> (IF st.o[k] # "none" THEN {} ELSE One([st EXCEPT !.o[k] = IF e.a[2] THEN "half" ELSE "open", !.n[k] = 0], None))
    [] st.o[k] = "none" -> {}
    [] e.op = "close" -> One(Closed(st, k), <<"seq", Bool_(half), Int_(Closed(st, k).n[k])>>)
    \* asking something half-made warns
    [] e.op = "closed" -> One(st, <<"seq", Bool_(half), Bool_(st.o[k] # "open")>>)
    [] e.op = "with" -> One(Closed(st, k), <<"seq", Bool_(half), Int_(Closed(st, k).n[k]), Bool_(st.o[k] = "open"), IF e.a[2] THEN Exc("ZeroDivisionError") ELSE None>>)
    [] e.op = "reopen" -> One([st EXCEPT !.o[k] = "open"], None)
    [] e.op = "gone" -> One([Closed(st, k) EXCEPT !.o[k] = "none"], <<"seq", Bool_(half), Int_(Closed(st, k).n[k])>>)
    [] OTHER -> {}
OInv(st) == \A k \in 1..2 : st.n[k] <= 3
\* cleaned up when open only, and just once
OStep(st, e, r, t) == \A k \in 1..2 : t.n[k] > st.n[k] => (st.o[k] = "open" /\ t.o[k] # "open" /\ t.n[k] = st.n[k] + 1)
OCfgs == <<[x |-> 0]>>
OOps(st) == <<
  {[op |-> "new", a |-> <<k, h>>] : k \in {j \in 1..2 : st.o[j] = "none"}, h \in BOOLEAN},
  {[op |-> o, a |-> <<k>>] : o \in {"close", "closed", "gone"}, k \in {j \in 1..2 : st.o[j] # "none"}},
  {[op |-> "reopen", a |-> <<k>>] : k \in {j \in 1..2 : st.o[j] = "closed" /\ st.n[j] < 2}},
  {[op |-> "with", a |-> <<k, b>>] : k \in {j \in 1..1 : st.o[j] # "none"}, b \in BOOLEAN} >>
\* ------------------------------------------------------------ iterating over a queue: it is a queue, and the iteration ends once it is found empty, for good
QInit(cfg) == [q |-> <<>>, it |-> [k \in 1..3 |-> "none"]]
QApply(st, e) ==
  LET a == e.a IN
  CASE e.op = "put" -> One([st EXCEPT !.q = Append(@, a[1])], None)
    [] e.op = "take" -> (IF st.q = <<>> THEN One(st, None) ELSE One([st EXCEPT !.q = Tail(@)], Int_(Head(st.q))))
    [] e.op = "iter" -> One([st EXCEPT !.it[a[1]] = "on"], None)
    [] e.op = "next" -> (IF st.it[a[1]] # "on" \/ st.q = <<>> THEN One([st EXCEPT !.it[a[1]] = "over"], Exc("StopIteration")) ELSE One([st EXCEPT !.q = Tail(@)], Int_(Head(st.q))))
    [] OTHER -> {}
QInv(st) == Len(st.q) <= 20
QStep(st, e, r, t) == (e.op = "next" /\ r # Exc("StopIteration")) => r = Int_(Head(st.q))
QCfgs == <<[x |-> 0]>>
QOps(st) == <<
  {[op |-> "put", a |-> <<v>>] : v \in {Len(st.q) + 1}},
  {[op |-> "take", a |-> <<>>]},
  {[op |-> o, a |-> <<k>>] : o \in {"iter", "next"}, k \in {1, 2}} >>
================================================================================
