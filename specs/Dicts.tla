-------------------------------- MODULE Dicts --------------------------------
(* T: TwoWayDictionary   m: key -> value, one to one; the reverse mapping is the inverse at every moment                                     *)
(* Y: DirtyDict          m, and whether it changed since the flag was cleared                                                                *)
(* K: KeyAwareDefaultDict, D: DefaultDict, N: CountingDict                                                                                   *)
(* V: DictionaryView     d: the dictionaries, each a sequence of <<key, value>> in the order of insertion                                    *)
(* J: DictObject         m: string -> number (the number stands for the contents of a list), old: the original of which this is a copy       *)
EXTENDS Val
KeySeq(m) == SortInts(DOMAIN m)
Pairs(m) == <<"seq">> \o [j \in 1..Cardinality(DOMAIN m) |-> LET k == KeySeq(m)[j] IN <<"seq", Int_(k), Int_(m[k])>>]
Inv_(m) == [v \in {m[k] : k \in DOMAIN m} |-> CHOOSE k \in DOMAIN m : m[k] = v]
\* ------------------------------------------------------------------ T
Vals(m) == {m[k] : k \in DOMAIN m}
RECURSIVE TUpd(_, _)
TUpd(m, q) == IF q = <<>> THEN [m |-> m, r |-> None]
              ELSE LET k == q[1][1] v == q[1][2] IN
                   IF v \in Vals(m) /\ ~(k \in DOMAIN m /\ m[k] = v) THEN [m |-> m, r |-> Exc("ValueError")] ELSE TUpd(FnSet(m, k, v), Tail(q))
TInit(cfg) == [m |-> <<>>, done |-> FALSE]
TGet(m, k) == IF k \in DOMAIN m THEN Int_(m[k]) ELSE Exc("KeyError")
RECURSIVE DictOf(_, _)
DictOf(m, q) == IF q = <<>> THEN m ELSE DictOf(FnSet(m, q[1][1], q[1][2]), Tail(q))
TDo(m, op, a) == \* the plain mapping operations, on the mapping or on its inverse
  CASE op = "get" -> [m |-> m, r |-> TGet(m, a[1])]
    [] op = "in" -> [m |-> m, r |-> Bool_(a[1] \in DOMAIN m)]
    [] op = "set" -> TUpd(m, <<<<a[1], a[2]>>>>)
    [] op = "del" -> IF a[1] \in DOMAIN m THEN [m |-> FnDel(m, a[1]), r |-> None] ELSE [m |-> m, r |-> Exc("KeyError")]
    [] op = "pop" -> [m |-> FnDel(m, a[1]), r |-> TGet(m, a[1])]
    [] op = "sdef" -> IF a[1] \in DOMAIN m THEN [m |-> m, r |-> Int_(m[a[1]])] ELSE LET q == TUpd(m, <<<<a[1], a[2]>>>>) IN [q EXCEPT !.r = IF @ = None THEN Int_(a[2]) ELSE @]
    [] op = "upd" -> TUpd(m, a[1])
    [] op = "clear" -> [m |-> <<>>, r |-> None]
    [] op = "items" -> [m |-> m, r |-> Pairs(m)]
    [] op = "len" -> [m |-> m, r |-> Int_(Cardinality(DOMAIN m))]
    [] op = "new" -> LET f == DictOf(<<>>, a[1]) IN IF \E k, l \in DOMAIN f : k # l /\ f[k] = f[l] THEN [m |-> m, r |-> Exc("ValueError")] ELSE [m |-> f, r |-> None]
TApply(st, e) ==
  IF e.op = "done" THEN One([st EXCEPT !.done = TRUE], Bool_(TRUE))
  ELSE LET q == IF e.op = "new" \/ e.a[1] = "f" THEN TDo(st.m, e.op, IF e.op = "new" THEN e.a ELSE Tail(e.a))
                ELSE LET x == TDo(Inv_(st.m), e.op, Tail(e.a)) IN [x EXCEPT !.m = Inv_(@)] IN
       One([st EXCEPT !.m = q.m], q.r)
TInv(st) == \A k, l \in DOMAIN st.m : k # l => st.m[k] # st.m[l]
TStep(st, e, r, t) == (r[1] = "exc" /\ e.op # "upd") => t = st
TCfgs == <<[z |-> 0]>>
TOps(st) == IF st.done THEN <<>> ELSE
  << {[op |-> "set", a |-> <<s, k, v>>] : s \in {"f", "r"}, k \in 1..2, v \in 1..3}, {[op |-> o, a |-> <<s, k>>] : o \in {"del", "pop"}, s \in {"f", "r"}, k \in 1..2}, {[op |-> "upd", a |-> <<"f", <<<<1, 2>>, <<2, 3>>>>>>]},
     {[op |-> "clear", a |-> <<"r">>]}, {[op |-> "done", a |-> <<>>]}, {[op |-> "new", a |-> <<q>>] : q \in {<<<<1, 2>>, <<2, 2>>>>, <<<<1, 2>>, <<2, 1>>>>}} >>
\* ------------------------------------------------------------------ Y
YInit(cfg) == [m |-> <<>>, d |-> FALSE]
YSet(st, k, v) == IF k \in DOMAIN st.m /\ st.m[k] = v THEN st ELSE [m |-> FnSet(st.m, k, v), d |-> TRUE]
YDel(st, k) == [m |-> FnDel(st.m, k), d |-> TRUE]
YApply(st, e) ==
  LET k == e.a[1] has == k \in DOMAIN st.m IN
  CASE e.op = "set" -> One(YSet(st, k, e.a[2]), None)
    [] e.op = "del" -> IF has THEN One(YDel(st, k), None) ELSE One(st, Exc("KeyError"))
    [] e.op = "pop" -> IF has THEN One(YDel(st, k), Int_(st.m[k])) ELSE One(st, Exc("KeyError"))
    [] e.op = "popd" -> IF has THEN One(YDel(st, k), Int_(st.m[k])) ELSE One(st, Int_(-1))
    [] e.op = "sdef" -> IF has THEN One(st, Int_(st.m[k])) ELSE One(YSet(st, k, e.a[2]), Int_(e.a[2]))
    [] e.op = "upd" -> One(YSet(YSet(st, k, e.a[2]), e.a[3], e.a[4]), None)
    [] e.op = "get" -> One(st, TGet(st.m, k))
    [] e.op = "in" -> One(st, Bool_(has))
    [] e.op = "dirty" -> One(st, Bool_(st.d))
    [] e.op = "items" -> One(st, Pairs(st.m))
    [] e.op = "len" -> One(st, Int_(Cardinality(DOMAIN st.m)))
    [] e.op = "bool" -> One(st, Bool_(DOMAIN st.m # {}))
    [] e.op = "clean" -> One([st EXCEPT !.d = FALSE], None)
    [] e.op = "clear" -> One([m |-> <<>>, d |-> st.d \/ DOMAIN st.m # {}], None)
    [] e.op = "swap" -> One([m |-> <<>>, d |-> FALSE], Pairs(st.m))
    [] e.op = "cclean" -> One([st EXCEPT !.d = FALSE], Pairs(st.m))
    [] e.op = "copy" -> One(st, None)
    [] e.op = "new" -> One([m |-> (1 :> e.a[1]), d |-> FALSE], None)
    [] OTHER -> {}
YInv(st) == TRUE
YStep(st, e, r, t) == (t.m # st.m /\ e.op \notin {"swap", "new"}) => t.d
YCfgs == <<[z |-> 0]>>
YOps(st) == << {[op |-> "set", a |-> <<k, v>>] : k \in 1..2, v \in 1..2}, {[op |-> o, a |-> <<1>>] : o \in {"del", "pop", "popd", "new"}}, {[op |-> "sdef", a |-> <<1, 3>>]},
               {[op |-> o, a |-> <<0>>] : o \in {"clean", "clear", "swap", "cclean", "copy"}} >>
\* ------------------------------------------------------------------ K
KInit(cfg) == [m |-> <<>>, n |-> 0]
KApply(st, e) ==
  LET k == e.a[1] has == k \in DOMAIN st.m IN
  CASE e.op = "get" -> IF has THEN One(st, Int_(st.m[k])) ELSE IF k = 3 THEN One([st EXCEPT !.n = @ + 1], Exc("ValueError")) ELSE One([m |-> FnSet(st.m, k, 10 * k), n |-> st.n + 1], Int_(10 * k))
    [] e.op = "set" -> One([st EXCEPT !.m = FnSet(@, k, e.a[2])], None)
    [] e.op = "del" -> IF has THEN One([st EXCEPT !.m = FnDel(@, k)], None) ELSE One(st, Exc("KeyError"))
    [] e.op = "in" -> One(st, Bool_(has))
    [] e.op = "items" -> One(st, Pairs(st.m))
    [] e.op = "len" -> One(st, Int_(Cardinality(DOMAIN st.m)))
    [] e.op = "calls" -> One(st, Int_(st.n))
    [] OTHER -> {}
KInv(st) == TRUE
KStep(st, e, r, t) == e.op \in {"in", "items", "len"} => t = st
KCfgs == <<[z |-> 0]>>
KOps(st) == << {[op |-> o, a |-> <<k>>] : o \in {"get", "del", "in"}, k \in {1, 3}}, {[op |-> "set", a |-> <<k, 5>>] : k \in {1, 3}} >>
\* ------------------------------------------------------------------ D
DInit(cfg) == [m |-> <<>>, n |-> 0]
DApply(st, e) ==
  LET k == e.a[1] has == k \in DOMAIN st.m IN
  CASE e.op = "get" -> IF has THEN One(st, Int_(st.m[k])) ELSE One([st EXCEPT !.n = @ + 1], Int_(0))
    \* what is put into a default stays out of the dictionary
    [] e.op = "app" -> IF has THEN One([st EXCEPT !.m = FnSet(@, k, @[k] + 1)], None) ELSE One([st EXCEPT !.n = @ + 1], None)
    [] e.op = "set" -> One([st EXCEPT !.m = FnSet(@, k, e.a[2])], None)
    [] e.op = "del" -> IF has THEN One([st EXCEPT !.m = FnDel(@, k)], None) ELSE One(st, Exc("KeyError"))
    [] e.op = "in" -> One(st, Bool_(has))
    [] e.op = "items" -> One(st, Pairs(st.m))
    [] e.op = "len" -> One(st, Int_(Cardinality(DOMAIN st.m)))
    [] e.op = "calls" -> One(st, Int_(st.n))
    [] OTHER -> {}
DInv(st) == TRUE
DStep(st, e, r, t) == e.op \in {"in", "items", "len", "get"} => t.m = st.m
DCfgs == <<[z |-> 0]>>
DOps(st) == << {[op |-> o, a |-> <<k>>] : o \in {"get", "del", "app"}, k \in {1, 2}}, {[op |-> "set", a |-> <<k, 2>>] : k \in {1, 2}} >>
\* ------------------------------------------------------------------ N
NInit(cfg) == [m |-> <<>>]
NAdd(m, k, n) == IF k \in DOMAIN m THEN FnSet(m, k, m[k] + n) ELSE FnSet(m, k, n)
RECURSIVE NCount(_, _)
NCount(m, q) == IF q = <<>> THEN m ELSE NCount(NAdd(m, q[1], 1), Tail(q))
NApply(st, e) ==
  CASE e.op = "count" -> One([m |-> NAdd(st.m, e.a[1], 1)], None)
    [] e.op = "countn" -> One([m |-> NAdd(st.m, e.a[1], e.a[2])], None)
    [] e.op = "new" -> One([m |-> NCount(<<>>, e.a[1])], None)
    [] e.op = "clear" -> One([m |-> <<>>], None)
    [] e.op = "get" -> One(st, TGet(st.m, e.a[1]))
    [] e.op = "items" -> One(st, Pairs(st.m))
    [] e.op = "keys" -> One(st, IntSeq(KeySeq(st.m)))
    [] e.op = "vals" -> One(st, IntSeq(SortSeqInts([j \in 1..Cardinality(DOMAIN st.m) |-> st.m[KeySeq(st.m)[j]]])))
    [] e.op = "in" -> One(st, Bool_(e.a[1] \in DOMAIN st.m))
    [] e.op = "len" -> One(st, Int_(Cardinality(DOMAIN st.m)))
    [] e.op = "bool" -> One(st, Bool_(DOMAIN st.m # {}))
    [] OTHER -> {}
NInv(st) == TRUE
NStep(st, e, r, t) == TRUE
NCfgs == <<[z |-> 0]>>
NOps(st) == << {[op |-> "count", a |-> <<k>>] : k \in 1..2}, {[op |-> "countn", a |-> <<k, n>>] : k \in 1..2, n \in {0, 2}}, {[op |-> "clear", a |-> <<>>]}, {[op |-> "new", a |-> <<<<1, 2, 1>>>>]} >>
\* ------------------------------------------------------------------ V
VInit(cfg) == [d |-> <<<<<<1, 11>>, <<2, 12>>>>, <<<<2, 22>>, <<3, 23>>>>, <<<<3, 33>>, <<1, 31>>, <<4, 34>>>>>>, o |-> <<>>, c |-> cfg]
Pos(q, k) == IF \E j \in 1..Len(q) : q[j][1] = k THEN CHOOSE j \in 1..Len(q) : q[j][1] = k ELSE 0
Put(q, k, v) == IF Pos(q, k) > 0 THEN [q EXCEPT ![Pos(q, k)] = <<k, v>>] ELSE Append(q, <<k, v>>)
First(st, k) == IF \E n \in 1..Len(st.d) : Pos(st.d[n], k) > 0 THEN MinOf({n \in 1..Len(st.d) : Pos(st.d[n], k) > 0}) ELSE 0
RECURSIVE Uniq(_)
Uniq(q) == IF q = <<>> THEN <<>> ELSE <<q[1]>> \o Uniq(SelectSeq(Tail(q), LAMBDA x : x # q[1]))
VKeys(d) == Uniq([j \in 1..Len(d[1]) |-> d[1][j][1]] \o [j \in 1..Len(d[2]) |-> d[2][j][1]] \o [j \in 1..Len(d[3]) |-> d[3][j][1]])
Dump(d) == <<"seq">> \o [n \in 1..Len(d) |-> <<"seq">> \o [j \in 1..Len(d[n]) |-> <<"seq", Int_(d[n][j][1]), Int_(d[n][j][2])>>]]
VApply(st, e) ==
  LET k == e.a[1] f == First(st, k) IN
  CASE e.op = "get" -> One(st, IF f = 0 THEN Exc("KeyError") ELSE Int_(st.d[f][Pos(st.d[f], k)][2]))
    [] e.op = "in" -> One(st, Bool_(f > 0))
    [] e.op = "set" -> LET n == IF st.c.same /\ f > 0 THEN f ELSE 1 IN One([st EXCEPT !.d[n] = Put(@, k, e.a[2])], None)
    [] e.op = "del" -> LET n == IF st.c.prop THEN f ELSE IF Pos(st.d[1], k) > 0 THEN 1 ELSE 0 IN
                       IF n = 0 THEN One(st, Exc("KeyError")) ELSE One([st EXCEPT !.d[n] = RemoveAt(@, Pos(@, k))], None)
    [] e.op = "iter" -> One(st, IntSeq(VKeys(st.d)))
    [] e.op = "len" -> One(st, Int_(Len(VKeys(st.d))))
    [] e.op = "under" -> One(st, Dump(st.d))
    [] e.op = "copy" -> One(st, None)
    [] e.op = "deep" -> One([st EXCEPT !.o = st.d], None)
    \* the dictionaries of which the deep copy was made
    [] e.op = "orig" -> One(st, IF st.o = <<>> THEN None ELSE Dump(st.o))
    [] OTHER -> {}
VInv(st) == TRUE
VStep(st, e, r, t) == (e.op = "del" /\ st.c.prop /\ r = None) => \E n \in 1..3 : Pos(st.d[n], e.a[1]) > 0
VCfgs == <<[prop |-> TRUE, same |-> TRUE], [prop |-> FALSE, same |-> TRUE], [prop |-> TRUE, same |-> FALSE], [prop |-> FALSE, same |-> FALSE]>>
VOps(st) == << {[op |-> "set", a |-> <<k, 7>>] : k \in {1, 3, 5}}, {[op |-> "del", a |-> <<k>>] : k \in {1, 2, 3, 5}}, {[op |-> o, a |-> <<0>>] : o \in {"copy", "deep"}} >>
\* ------------------------------------------------------------------ J
JInit(cfg) == [m |-> <<>>, old |-> <<>>, sh |-> {}]
Names == {"a", "b", "keys_", "items_"}
JKeys(m) == SelectSeq(<<"a", "b", "items_", "keys_">>, LAMBDA x : x \in DOMAIN m)
RECURSIVE Told(_)
Told(x) == CASE x[1] = "i" -> <<"seq", Str_("i"), Int_(x[2])>>
             [] x[1] = "l" -> <<"seq", Str_("l"), <<"seq">> \o [j \in 1..Len(x[2]) |-> Told(x[2][j])]>>
             [] OTHER -> <<"seq", Str_("D"), <<"seq">> \o [j \in 1..Len(x[2]) |-> <<"seq", Str_(x[2][j][1]), Told(x[2][j][2])>>]>>
JItems(m) == <<"seq">> \o [j \in 1..Len(JKeys(m)) |-> <<"seq", Str_(JKeys(m)[j]), Int_(m[JKeys(m)[j]])>>]
JApply(st, e) ==
  LET k == e.a[1] has == k \in DOMAIN st.m IN
  CASE e.op \in {"sat", "sit"} -> One([st EXCEPT !.m = FnSet(@, k, e.a[2]), !.sh = @ \ {k}], None)
    [] e.op = "gat" -> One(st, IF has THEN Int_(st.m[k]) ELSE Exc("AttributeError"))
    [] e.op = "git" -> One(st, IF has THEN Int_(st.m[k]) ELSE Exc("KeyError"))
    [] e.op = "hat" -> One(st, Bool_(has))
    [] e.op = "dat" -> IF has THEN One([st EXCEPT !.m = FnDel(@, k), !.sh = @ \ {k}], None) ELSE One(st, Exc("AttributeError"))
    [] e.op = "dit" -> IF has THEN One([st EXCEPT !.m = FnDel(@, k), !.sh = @ \ {k}], None) ELSE One(st, Exc("KeyError"))
    [] e.op = "mut" -> IF ~has THEN One(st, Exc("AttributeError"))
                       ELSE One([st EXCEPT !.m = FnSet(@, k, @[k] + 1), !.old = IF k \in st.sh THEN FnSet(@, k, @[k] + 1) ELSE @], None)
    [] e.op = "items" -> One(st, JItems(st.m))
    [] e.op = "orig" -> One(st, JItems(st.old))
    [] e.op = "copy" -> One([st EXCEPT !.old = st.m, !.sh = DOMAIN st.m], Bool_(TRUE))
    [] e.op = "deep" -> One([st EXCEPT !.old = st.m, !.sh = {}], Bool_(TRUE))
    [] e.op = "wrap" -> One(st, Bool_(TRUE))
    [] e.op = "apply" -> One(st, Told(e.a[2]))
    [] OTHER -> {}
JInv(st) == TRUE
JStep(st, e, r, t) == TRUE
JCfgs == <<[z |-> 0]>>
JOps(st) == << {[op |-> o, a |-> <<k, 4>>] : o \in {"sat", "sit"}, k \in {"a", "b"}}, {[op |-> o, a |-> <<k>>] : o \in {"gat", "git", "hat", "dat", "dit", "mut"}, k \in {"a"}}, {[op |-> o, a |-> <<"">>] : o \in {"copy", "deep", "wrap"}} >>
=============================================================================
