--------------------------------- MODULE Memo ---------------------------------
(* M..: memoize          m: argument -> value; the function is called n times in all; f(k) needs f(k-1) if cfg.rec                                    *)
(* C..: cache_memoize    m: argument -> [v, t (start of the computation)]; the function takes cfg.d ms; values are kept for cfg.dur                   *)
(* W..: a concurrently used cache_memoize: everybody gets a value that was computed for this argument                                                *)
(* G..: Singleton, SingletonWithRegardsTo: m: key -> [n (which instance), v (what it was constructed with)]; key is <<>> for a Singleton                 *)
EXTENDS Val
MInit(cfg) == [m |-> <<>>, n |-> 0, c |-> cfg, bad |-> {}]
RECURSIVE Eval(_, _)
\* [s, r]: a failing argument is not remembered
Eval(st, k) == IF k \in DOMAIN st.m THEN [s |-> st, r |-> Int_(st.m[k])]
               ELSE LET q == IF st.c.rec /\ k > 1 THEN Eval(st, k - 1) ELSE [s |-> st, r |-> None]
                        s1 == [q.s EXCEPT !.n = @ + 1] IN
                    IF q.r[1] = "exc" THEN q ELSE IF k \in st.bad THEN [s |-> s1, r |-> Exc("ValueError")] ELSE [s |-> [s1 EXCEPT !.m = FnSet(@, k, s1.n)], r |-> Int_(s1.n)]
MApply(st, e) ==
  CASE e.op = "get" -> {Eval(st, e.a[1])}
    [] e.op = "calls" -> One(st, Int_(st.n))
    [] e.op = "bad" -> One([st EXCEPT !.bad = Range(e.a[1])], None)
    [] OTHER -> {}
MInv(st) == Cardinality(DOMAIN st.m) <= st.n
MStep(st, e, r, t) == \A k \in DOMAIN st.m : k \in DOMAIN t.m /\ t.m[k] = st.m[k]
MCfgs == <<[rec |-> FALSE], [rec |-> TRUE]>>
MOps(st) == << {[op |-> "get", a |-> <<k>>] : k \in 1..3}, {[op |-> "bad", a |-> <<q>>] : q \in {<<>>, <<2>>}} >>
\* ------------------------------------------------------------------ C
CInit(cfg) == [m |-> <<>>, n |-> 0, now |-> 0, bad |-> {}, c |-> cfg]
CApply0(st, e) ==
  LET k == e.a[1] IN
  CASE e.op = "get" -> IF k \in DOMAIN st.m /\ st.now - st.m[k].t <= st.c.dur THEN One(st, Int_(st.m[k].v))
                       ELSE LET s1 == [st EXCEPT !.n = @ + 1, !.now = @ + st.c.d] IN
                            IF k \in st.bad THEN One(s1, Exc("ValueError")) ELSE One([s1 EXCEPT !.m = FnSet(@, k, [v |-> s1.n, t |-> st.now])], Int_(s1.n))
    [] e.op = "calls" -> One(st, Int_(st.n))
    [] e.op = "bad" -> One([st EXCEPT !.bad = Range(e.a[1])], None)
    [] e.op = "sleep" -> One([st EXCEPT !.now = @ + k], None)
    [] OTHER -> {}
CApply(st, e) == {q \in CApply0(st, e) : "rc" \in DOMAIN e => e.rc = q.s.now}
CInv(st) == TRUE
CStep(st, e, r, t) == TRUE
CCfgs == <<[dur |-> 1025, d |-> 0, tg |-> FALSE], [dur |-> 1025, d |-> 300, tg |-> TRUE]>>
COps(st) == << {[op |-> "get", a |-> <<k>>] : k \in 1..2}, {[op |-> "bad", a |-> <<q>>] : q \in {<<>>, <<1>>}}, {[op |-> "sleep", a |-> <<t>>] : t \in {600, 1100}} >>
\* ------------------------------------------------------------------ W
WInit(cfg) == [m |-> <<>>, n |-> 0]
Known(st, k) == IF k \in DOMAIN st.m THEN st.m[k] ELSE {}
WUsed(st) == UNION {st.m[k] : k \in DOMAIN st.m}
WApply(st, e) ==
  LET k == e.a[1] IN
  CASE e.op = "get" -> {[s |-> st, r |-> Int_(v)] : v \in Known(st, k)} \cup {[s |-> [st EXCEPT !.m = FnSet(@, k, Known(st, k) \cup {v})], r |-> Int_(v)] : v \in (1..6) \ WUsed(st)}
    \* afterwards nothing has to be computed again
    [] e.op = "again" -> {[s |-> st, r |-> Int_(v)] : v \in Known(st, k)}
    [] e.op = "calls" -> One(st, Int_(Cardinality(WUsed(st))))
    [] OTHER -> {}
WInv(st) == TRUE
WStep(st, e, r, t) == TRUE
\* ------------------------------------------------------------------ G
GInit(cfg) == [m |-> <<>>, n |-> 0, c |-> cfg, held |-> {}]
GKey(st, a) == IF st.c.args = 0 THEN <<>> ELSE IF st.c.args = 1 THEN <<a[1]>> ELSE <<a[1], a[2]>>
\* an instance that, under construction, makes another one
GNeedy(st, k) == LET l == GKey(st, <<3, 1>>) x == [n |-> st.n + 1, v |-> 9] s1 == [st EXCEPT !.n = @ + 1, !.m = FnSet(@, k, x), !.held = @ \cup {k}] IN
                 IF l \in DOMAIN s1.m THEN s1 ELSE [s1 EXCEPT !.n = @ + 1, !.m = FnSet(@, l, [n |-> st.n + 2, v |-> 4])]
Ans(x) == <<"seq", Int_(x.n), Int_(x.v)>>
GApply(st, e) ==
  CASE e.op = "make" -> LET k == GKey(st, e.a) IN
                        IF k \in DOMAIN st.m THEN One([st EXCEPT !.held = @ \cup {k}], Ans(st.m[k]))
                        ELSE IF e.a[3] < 0 THEN One([st EXCEPT !.n = @ + 1], Exc(IF e.a[3] = -1 THEN "ValueError" ELSE "Abort"))
                        ELSE IF e.a[3] = 9 THEN One(GNeedy(st, k), Ans([n |-> st.n + 1, v |-> 9]))
                        ELSE LET x == [n |-> st.n + 1, v |-> e.a[3]] IN One([st EXCEPT !.n = @ + 1, !.m = FnSet(@, k, x), !.held = @ \cup {k}], Ans(x))
    [] e.op = "number" -> One(st, Int_(st.n))
    \* the keys for which there are instances
    [] e.op = "keys" -> One(st, Int_(Cardinality(DOMAIN st.m)))
    [] e.op = "forget" -> LET k == GKey(st, e.a) IN IF k \in DOMAIN st.m THEN One([st EXCEPT !.m = FnDel(@, k)], None) ELSE One(st, Exc("KeyError"))
    \* nobody refers to the instances any more
    [] e.op = "drop" -> One([st EXCEPT !.m = IF st.c.weak THEN <<>> ELSE @], None)
    [] OTHER -> {}
GInv(st) == \A k, l \in DOMAIN st.m : k # l => st.m[k].n # st.m[l].n
GStep(st, e, r, t) == (e.op = "make" /\ GKey(st, e.a) \in DOMAIN st.m) => t.n = st.n
GCfgs == <<[args |-> 0, weak |-> FALSE], [args |-> 1, weak |-> FALSE], [args |-> 2, weak |-> FALSE], [args |-> 1, weak |-> TRUE]>>
GOps(st) == << {[op |-> "make", a |-> <<a, b, v>>] : a \in 1..2, b \in 1..2, v \in {7, -1}} >> \o
            (IF st.c.args = 0 THEN <<>> ELSE << {[op |-> "forget", a |-> <<a, 1>>] : a \in 1..2}, {[op |-> o, a |-> <<>>] : o \in {"keys", "drop"}} >>)
===============================================================================
