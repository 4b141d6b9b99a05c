------------------------------ MODULE MTree ------------------------------
(* The tree of metrics: who is registered under a name, at which level it is, and what is reported; collections of metric data.                                        *)
EXTENDS Val
\* ---- the tree. m: name -> [type, level, v]
Names == <<"", "a", "a.b", "a.b.c", "a.bc", "d", "d.e">>
Parent(n) == CASE n = "a.b" -> "a" [] n = "a.b.c" -> "a.b" [] n = "a.bc" -> "a" [] n = "d.e" -> "d" [] OTHER -> ""
RECURSIVE Under(_, _)
Under(n, p) == IF n = p THEN TRUE ELSE IF n = "" THEN FALSE ELSE Under(Parent(n), p)
RECURSIVE Chain(_)
Chain(n) == IF n = "" THEN <<"">> ELSE Append(Chain(Parent(n)), n)
L(x) == CASE x = "DISABLED" -> 1 [] x = "RUNTIME" -> 2 [] x = "DEBUG" -> 3 [] OTHER -> 4
RECURSIVE Eff(_, _)
Eff(m, n) == IF m[n].level = "INHERIT" THEN Eff(m, Parent(n)) ELSE m[n].level
Leaf(t) == t \in {"int", "counter"}
New(type, level) == [type |-> type, level |-> level, v |-> 0]
\* one by one the missing ones are created; stops if one of those that are there cannot have children
RECURSIVE Create(_, _, _, _, _)
Create(m, chain, name, type, level) ==
  IF chain = <<>> THEN <<m, TRUE>>
  ELSE LET n == Head(chain) IN
       IF n \in DOMAIN m THEN Create(m, Tail(chain), name, type, level)
       ELSE IF n # "" /\ Leaf(m[Parent(n)].type) THEN <<m, FALSE>>
       ELSE Create(FnSet(m, n, New(IF n = name THEN type ELSE "base", IF n = "" THEN "RUNTIME" ELSE IF level = "none" THEN "INHERIT" ELSE level)), Tail(chain), name, type, level)
\* asking for a metric: <<what there is afterwards, "ok" or the exception>>
Get(m, name, type, level) ==
  IF name \in DOMAIN m /\ m[name].type # type THEN <<m, "MetricAlreadyExists">>
  ELSE LET c == Create(m, Chain(name), name, type, level) IN
       IF ~c[2] THEN <<c[1], "TypeError">>
       ELSE IF level = "none" THEN <<c[1], "ok">>
       ELSE IF name = "" /\ level = "INHERIT" THEN <<c[1], "AssertionError">>
       ELSE <<[c[1] EXCEPT ![name].level = level], "ok">>
Kids(m, n) == {k \in DOMAIN m : k # "" /\ Parent(k) = n}
RECURSIVE Reported(_, _)
Reported(m, n) == IF m[n].type = "empty" THEN {} ELSE IF Leaf(m[n].type) THEN {n} ELSE UNION {Reported(m, k) : k \in {j \in Kids(m, n) : L(Eff(m, j)) <= L(Eff(m, n))}}
Report(m, n) == LET q == SelectSeq(Names, LAMBDA x : x \in Reported(m, n)) IN Seq_([k \in 1..Len(q) |-> <<"seq", Str_(q[k]), Int_(m[q[k]].v)>>])
\* the operations are done on what getMetric(name, type) gives
With(st, e, F(_)) == LET g == Get(st.m, e.a[1], e.a[2], "none") IN IF g[2] # "ok" THEN One([m |-> g[1]], Exc(g[2])) ELSE F(g[1])
TInit(cfg) == [m |-> << >>]
TApply(st, e) ==
  LET a == e.a n == a[1] IN
  CASE e.op = "get" -> LET g == Get(st.m, n, a[2], a[3]) IN One([m |-> g[1]], IF g[2] = "ok" THEN Str_(n) ELSE Exc(g[2]))
    [] e.op = "handle" -> With(st, e, LAMBDA m : IF L(Eff(m, n)) < L(a[3]) \/ m[n].type = "empty" THEN One([m |-> m], None)
                                                 ELSE IF m[n].type = "base" THEN One([m |-> m], Exc("TypeError"))
                                                 ELSE One([m |-> [m EXCEPT ![n].v = IF a[2] = "int" THEN a[4] ELSE @ + a[4]]], None))
    [] e.op = "level" -> With(st, e, LAMBDA m : IF n = "" /\ a[3] = "INHERIT" THEN One([m |-> m], Exc("AssertionError")) ELSE One([m |-> [m EXCEPT ![n].level = a[3]]], None))
    [] e.op = "level_of" -> With(st, e, LAMBDA m : One([m |-> m], Str_(Eff(m, n))))
    [] e.op = "report" -> With(st, e, LAMBDA m : One([m |-> m], Report(m, n)))
    [] e.op = "reset" -> With(st, e, LAMBDA m : One([m |-> [k \in {j \in DOMAIN m : ~Under(j, n)} |-> m[k]]], None))
    [] e.op = "badname" -> One(st, Exc("ValueError"))
    [] OTHER -> {}
\* parents of the registered ones are registered, and can have children; the root has a level of its own
TInv(st) == \A n \in DOMAIN st.m : (n # "" => Parent(n) \in DOMAIN st.m /\ ~Leaf(st.m[Parent(n)].type)) /\ (n = "" => st.m[n].level # "INHERIT")
\* an operation on a metric touches the value only of this one, and only handle() or reset() do
TStep(st, e, r, t) == \A n \in DOMAIN st.m \cap DOMAIN t.m : (t.m[n].v # st.m[n].v => e.op = "handle" /\ e.a[1] = n) /\ t.m[n].type = st.m[n].type
TCfgs == <<[x |-> 0]>>
Lv == {"none", "DISABLED", "RUNTIME", "DEBUG", "INHERIT"}
Some == {<<"", "base">>, <<"a", "base">>, <<"a.b", "int">>, <<"a.b.c", "counter">>, <<"a.bc", "counter">>, <<"d", "empty">>, <<"d", "int">>}
Here(st) == {<<n, st.m[n].type>> : n \in DOMAIN st.m}
TOps(st) == << {[op |-> "get", a |-> <<p[1], p[2], l>>] : p \in Some, l \in {"none", "DEBUG"}}, {[op |-> "get", a |-> <<"d.e", "int", "RUNTIME">>], [op |-> "get", a |-> <<"a.b", "base", "INHERIT">>]},
               {[op |-> "handle", a |-> <<p[1], p[2], l, 2>>] : p \in Here(st), l \in {"RUNTIME", "DEBUG"}}, {[op |-> "level", a |-> <<p[1], p[2], l>>] : p \in Here(st), l \in Lv \ {"none"}},
               {[op |-> "reset", a |-> <<p[1], p[2]>>] : p \in Here(st)}, {[op |-> "report", a |-> <<p[1], p[2]>>] : p \in Here(st)}, {[op |-> "level_of", a |-> <<p[1], p[2]>>] : p \in Here(st)} >>
\* ---- metric data: two collections, each: [name, label] -> [v, ts, int]. A later one replaces the earlier
Keys == {[name |-> n, lab |-> l] : n \in {"x", "x.y"}, l \in {"no", "k", "nasty"}}
Ent(v, t, i) == [v |-> v, ts |-> t, int |-> i]
Upd(x, y) == [k \in DOMAIN x \cup DOMAIN y |-> IF k \in DOMAIN y THEN y[k] ELSE x[k]]
Pre(k, p) == [k EXCEPT !.name = p \o "." \o @]
Post(k, p) == [k EXCEPT !.name = @ \o "." \o p]
Lab(k) == [k EXCEPT !.lab = @ \o "+"]
Map(x, F(_)) == [j \in {F(k) : k \in DOMAIN x} |-> x[CHOOSE k \in DOMAIN x : F(k) = j]]
All(x, F(_)) == [k \in DOMAIN x |-> F(x[k])]
Enc(x) == {<<"seq", Str_(k.name), Str_(k.lab), Int_(x[k].v), Int_(x[k].ts), Bool_(x[k].int)>> : k \in DOMAIN x}
\* which: the collection that the operation is about
DInit(cfg) == [c |-> <<<< >>, << >>>>]
Oth(w) == 3 - w
DApply(st, e) ==
  LET a == e.a w == IF e.op = "reset_leaf" THEN 1 ELSE a[1] x == st.c[w] y == st.c[Oth(w)] set(z) == [st EXCEPT !.c[w] = z] IN
  CASE e.op = "put" -> One(set(FnSet(x, [name |-> a[2], lab |-> a[3]], Ent(a[4], a[5], a[6]))), None)      \* += or +
    [] e.op = "join" -> One(set(Upd(x, y)), None)
    [] e.op = "copy" -> One(set(y), None)
    [] e.op = "prefix" -> One(set(Map(x, LAMBDA k : Pre(k, a[2]))), Bool_(TRUE))         \* gives itself
    [] e.op = "postfix" -> One(set(Map(x, LAMBDA k : Post(k, a[2]))), Bool_(TRUE))
    [] e.op = "labels" -> One(set(Map(x, Lab)), None)
    [] e.op = "value" -> One(set(All(x, LAMBDA v : [v EXCEPT !.v = a[2]])), Bool_(TRUE))
    [] e.op = "stamp" -> One(set(All(x, LAMBDA v : [v EXCEPT !.ts = a[2]])), Bool_(TRUE))
    [] e.op = "external" -> One(set([k \in {j \in DOMAIN x : ~x[j].int} |-> x[k]]), None)
    [] e.op = "json" -> One(st, Bool_(TRUE))        \* what is written there and back, twice, is the same
    [] e.op = "eq" -> One(st, <<"seq", Bool_(DOMAIN x = DOMAIN y), Bool_(DOMAIN x = DOMAIN y /\ \A k \in DOMAIN x : x[k].v = y[k].v)>>)
    [] e.op = "size" -> One(st, Int_(Cardinality(DOMAIN x)))
    [] e.op = "has" -> One(st, IF [name |-> a[2], lab |-> a[3]] \in DOMAIN x THEN LET k == x[[name |-> a[2], lab |-> a[3]]] IN <<"seq", Int_(k.v), Int_(k.ts), Bool_(k.int)>> ELSE None)
    \* a metric of that type, whether it has values with labels: is it reported, and is it after reset()
    [] e.op = "reset_leaf" -> One(st, <<"seq", Bool_(TRUE), Bool_(FALSE)>>)
    [] e.op = "prometheus" -> One(st, LET k == [name |-> a[2], lab |-> a[3]] n == Cardinality({j \in DOMAIN x : ~x[j].int})    \* how many lines, and is there one with that name and labels
                                      IN IF k \in DOMAIN x /\ ~x[k].int THEN <<"seq", Int_(n), Int_(x[k].v), Int_(x[k].ts)>> ELSE <<"seq", Int_(n), None, None>>)
    [] OTHER -> {}
DInv(st) == TRUE
DStep(st, e, r, t) == IF e.op = "reset_leaf" THEN TRUE ELSE t.c[Oth(e.a[1])] = st.c[Oth(e.a[1])]
DCfgs == <<[x |-> 0]>>
Wh == {1, 2}
DOps(st) == << {[op |-> "put", a |-> <<w, n, l, v, t, i>>] : w \in {1}, n \in {"x", "x.y"}, l \in {"no", "nasty"}, v \in {1, 2}, t \in {0, 5}, i \in BOOLEAN}, {[op |-> "put", a |-> <<2, "x", l, 1, -1, FALSE>>] : l \in {"no", "k", "none"}},
               {[op |-> o, a |-> <<w>>] : o \in {"join", "copy", "labels", "external", "json", "eq", "size"}, w \in Wh}, {[op |-> o, a |-> <<1, "p">>] : o \in {"prefix", "postfix"}}, {[op |-> o, a |-> <<1, 7>>] : o \in {"value", "stamp"}},
               {[op |-> "reset_leaf", a |-> <<t, b>>] : t \in {"int", "counter", "summary", "histogram", "cps", "linkfail"}, b \in BOOLEAN},
               {[op |-> o, a |-> <<1, n, l>>] : o \in {"has", "prometheus"}, n \in {"x", "p.x"}, l \in {"no", "none", "nasty", "nasty+"}} >>
========================================================================
