------------------------------ MODULE Tainting ------------------------------
(* tainting: what came of a tainted value is tainted, and otherwise it is the same value                   *)
EXTENDS Val
RECURSIVE And(_, _)
And(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a = 0 - 1 THEN b ELSE IF b = 0 - 1 THEN a ELSE (a % 2) * (b % 2) + 2 * And(a \div 2, b \div 2)
Or(a, b) == (0 - 1) - And((0 - 1) - a, (0 - 1) - b)
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)
Floor(a, b) == IF b > 0 THEN a \div b ELSE (0 - a) \div (0 - b)
Bin(o, a, b) == CASE o = "add" -> a + b [] o = "sub" -> a - b [] o = "mul" -> a * b [] o = "floordiv" -> Floor(a, b) [] o = "mod" -> a - b * Floor(a, b)
                  [] o = "and" -> And(a, b) [] o = "or" -> Or(a, b) [] o = "xor" -> Or(a, b) - And(a, b)
                  [] o = "pow" -> Pow(a, b) [] o = "lshift" -> a * Pow(2, b) [] o = "rshift" -> Floor(a, Pow(2, b))
Fails(o, a, b) == IF o \in {"floordiv", "mod"} /\ b = 0 THEN "ZeroDivisionError" ELSE IF o \in {"lshift", "rshift"} /\ b < 0 THEN "ValueError" ELSE ""
Abs(a) == IF a < 0 THEN 0 - a ELSE a
Fold(a) == IF Abs(a) > 9 THEN 1 ELSE a
Un(o, a) == CASE o = "neg" -> 0 - a [] o = "pos" -> a [] o = "abs" -> Abs(a) [] o = "invert" -> (0 - 1) - a
Cmp(o, a, b) == CASE o = "eq" -> a = b [] o = "ne" -> a # b [] o = "lt" -> a < b [] o = "le" -> a <= b [] o = "gt" -> a > b [] o = "ge" -> a >= b
BinOps == {"add", "sub", "mul", "floordiv", "mod", "and", "or", "xor", "pow", "lshift", "rshift"}
CmpOps == {"eq", "ne", "lt", "le", "gt", "ge"}

(* T: variables holding integers, each tainted or not *)
TCfgs == <<[v |-> <<5, 3, 0>>]>>
TInit(cfg) == [v |-> [k \in 1..3 |-> [t |-> FALSE, n |-> cfg.v[k]]]]
V == {1, 2}
TOps(st) == <<{[op |-> "taint", a |-> <<i>>] : i \in V}, {[op |-> "set", a |-> <<i, n>>] : i \in {1}, n \in {2, 0 - 7}},
              {[op |-> "bin", a |-> <<o, i, j, k>>] : o \in BinOps, i \in V, j \in V, k \in {2, 3}},
              {[op |-> "left", a |-> <<o, n, i, k>>] : o \in BinOps, i \in V, n \in {6}, k \in {3}},
              {[op |-> "right", a |-> <<o, i, n, k>>] : o \in BinOps, i \in V, n \in {2}, k \in {3}},
              {[op |-> "in_place", a |-> <<o, i, j>>] : o \in BinOps, i \in {1, 3}, j \in V},
              {[op |-> "un", a |-> <<o, i, k>>] : o \in {"neg", "pos", "abs", "invert"}, i \in V, k \in {3}},
              {[op |-> "move", a |-> <<i, k>>] : i \in {1, 2}, k \in {3}},
              {[op |-> "cmp", a |-> <<o, i, j>>] : o \in CmpOps, i \in V, j \in V}, {[op |-> "convert", a |-> <<i>>] : i \in V}, {[op |-> "halves", a |-> <<i>>] : i \in V},
              {[op |-> "tainted", a |-> <<>>]}>>
Res(x) == Seq_(<<Bool_(x.t), Int_(x.n)>>)
Store(st, k, x) == LET y == [x EXCEPT !.n = Fold(x.n)] IN One([st EXCEPT !.v[k] = y], Res(y))
Cell(st, i) == st.v[i]
TBin(st, o, x, y, k) == IF o \in {"pow", "lshift", "rshift"} /\ y.n \notin 0..3 THEN One(st, None)     (* not asked *)
                        ELSE IF Fails(o, x.n, y.n) # "" THEN One(st, Exc(Fails(o, x.n, y.n)))
                        ELSE Store(st, k, [t |-> x.t \/ y.t, n |-> Bin(o, x.n, y.n)])
TApply(st, e) ==
    CASE e.op = "taint" -> Store(st, e.a[1], [st.v[e.a[1]] EXCEPT !.t = TRUE])
      [] e.op = "set" -> Store(st, e.a[1], [t |-> FALSE, n |-> e.a[2]])
      [] e.op = "bin" -> TBin(st, e.a[1], st.v[e.a[2]], st.v[e.a[3]], e.a[4])
      [] e.op = "left" -> TBin(st, e.a[1], [t |-> FALSE, n |-> e.a[2]], st.v[e.a[3]], e.a[4])
      [] e.op = "right" -> TBin(st, e.a[1], st.v[e.a[2]], [t |-> FALSE, n |-> e.a[3]], e.a[4])
      [] e.op = "in_place" -> TBin(st, e.a[1], st.v[e.a[2]], st.v[e.a[3]], e.a[2])
      [] e.op = "un" -> LET x == st.v[e.a[2]] IN Store(st, e.a[3], [x EXCEPT !.n = Un(e.a[1], x.n)])
      [] e.op = "move" -> Store(st, e.a[2], st.v[e.a[1]])
      [] e.op = "cmp" -> LET x == st.v[e.a[2]] y == st.v[e.a[3]] IN One(st, Seq_(<<Bool_(x.t \/ y.t), Bool_(Cmp(e.a[1], x.n, y.n))>>))
      [] e.op = "convert" -> LET n == st.v[e.a[1]].n IN One(st, Seq_(<<Int_(n), Int_(n), Bool_(n # 0), Bool_(TRUE), Bool_(TRUE), Bool_(TRUE), Bool_(TRUE)>>))
      [] e.op = "halves" -> LET x == st.v[e.a[1]] IN One(st, Seq_(<<Bool_(x.t), Int_(x.n), IF x.n = 0 THEN Exc("ZeroDivisionError") ELSE Bool_(x.t)>>))
      [] e.op = "tainted" -> One(st, IntSeq(SortInts({st.v[k].n : k \in {j \in 1..3 : st.v[j].t}})))
TInv(st) == \A k \in 1..3 : Abs(st.v[k].n) <= 9
(* nothing becomes untainted but by being set anew, and nothing becomes tainted of itself *)
TStep(st, e, r, t) == LET any == \E k \in 1..3 : st.v[k].t IN e.op # "taint" /\ ~any => ~(\E k \in 1..3 : t.v[k].t)

(* N: a list, a dictionary or an object of three cells, tainted as a whole or not                          *)
NCfgs == <<[kind |-> "list"], [kind |-> "dict"], [kind |-> "object"]>>
NInit(cfg) == [kind |-> cfg.kind, t |-> FALSE, c |-> [k \in 1..3 |-> [t |-> FALSE, n |-> k]]]
NOps(st) == LET n == Len(st.c) IN
            <<{[op |-> "taint", a |-> <<>>]}, {[op |-> "get", a |-> <<k>>] : k \in 1..n}, {[op |-> "raw", a |-> <<k>>] : k \in 1..n},
              {[op |-> "set", a |-> <<k, v, tv>>] : k \in 1..n, v \in {7, 1}, tv \in BOOLEAN},
              {[op |-> "del", a |-> <<>>] : x \in IF n > 1 THEN {1} ELSE {}},
              {[op |-> o, a |-> <<>>] : o \in {"len", "items", "tainted", "call", "same"}}, {[op |-> "contains", a |-> <<v, tv>>] : v \in {1, 7, 9}, tv \in BOOLEAN}>>
Get(st, k) == [st.c[k] EXCEPT !.t = st.t \/ st.c[k].t]
NApply(st, e) ==
    CASE e.op = "taint" -> One([st EXCEPT !.t = TRUE, !.c = [k \in DOMAIN st.c |-> [st.c[k] EXCEPT !.t = TRUE]]], Bool_(TRUE))
      [] e.op = "get" -> One(st, Res(Get(st, e.a[1])))
      [] e.op = "raw" -> One(st, Res(st.c[e.a[1]]))
      [] e.op = "set" -> LET c == [st.c EXCEPT ![e.a[1]] = [t |-> st.t \/ e.a[3], n |-> e.a[2]]] IN One([st EXCEPT !.c = c], None)
      [] e.op = "del" -> One([st EXCEPT !.c = SubSeq(st.c, 1, Len(st.c) - 1)], None)
      [] e.op = "len" -> One(st, IF st.kind = "object" THEN Exc("TypeError") ELSE Int_(Len(st.c)))
      [] e.op = "items" -> One(st, IF st.kind = "object" THEN Exc("TypeError") ELSE Seq_([k \in DOMAIN st.c |-> IF st.kind = "list" THEN Res(Get(st, k)) ELSE Seq_(<<Bool_(st.t), Int_(k)>>)]))
      [] e.op = "tainted" -> One(st, IntSeq(SortInts({st.c[k].n : k \in {j \in DOMAIN st.c : st.c[j].t}})))
      [] e.op = "contains" -> LET has == \E k \in DOMAIN st.c : IF st.kind = "dict" THEN k = e.a[1] ELSE st.c[k].n = e.a[1] IN
                              One(st, IF st.kind = "object" THEN Exc("TypeError") ELSE Bool_(has))
      (* a method that answers the number of the cells *)
      [] e.op = "call" -> One(st, Seq_(<<Bool_(st.t), Int_(Len(st.c))>>))
      [] e.op = "same" -> One(st, Bool_(TRUE))
NInv(st) == st.t => \A k \in DOMAIN st.c : st.c[k].t
NStep(st, e, r, t) == st.t => t.t

(* E: a session is that of its thread, and there is one at a time *)
ECfgs == <<[x |-> 0]>>
EInit(cfg) == [s |-> <<0, 0>>]
EOps(st) == <<{[op |-> "enter", a |-> <<th, n>>] : th \in 1..2, n \in {1, 2, 3} \ Range(st.s)}, {[op |-> o, a |-> <<th>>] : th \in 1..2, o \in {"taint", "current"}},
              {[op |-> "exit", a |-> <<th, how>>] : th \in {x \in 1..2 : st.s[x] # 0}, how \in {"normal", "raising"}}, {[op |-> "enabled", a |-> <<n>>] : n \in 1..3}>>
EApply(st, e) ==
    CASE e.op = "enter" -> IF st.s[e.a[1]] # 0 THEN One(st, Exc("RuntimeError")) ELSE One([st EXCEPT !.s[e.a[1]] = e.a[2]], Bool_(TRUE))
      [] e.op = "taint" -> One(st, IF st.s[e.a[1]] = 0 THEN Exc("RuntimeError") ELSE Int_(5))
      [] e.op = "current" -> One(st, IF st.s[e.a[1]] = 0 THEN Exc("RuntimeError") ELSE Int_(st.s[e.a[1]]))
      [] e.op = "exit" -> One([st EXCEPT !.s[e.a[1]] = 0], Bool_(FALSE))
      [] e.op = "enabled" -> One(st, Bool_(e.a[1] \in Range(st.s)))
EInv(st) == st.s[1] # 0 => st.s[1] # st.s[2]
EStep(st, e, r, t) == e.op # "exit" => \A x \in 1..2 : st.s[x] # 0 => t.s[x] = st.s[x]

(* W: what else there is: text, kept in any number of layers, functions, classes, contexts, iterators     *)
WCfgs == ECfgs
WInit(cfg) == cfg
WOps(st) == <<{[op |-> "deep", a |-> <<q>>] : q \in UNION {[1..n -> {"list", "dict", "object"}] : n \in 1..3}}, {[op |-> "text", a |-> <<o>>] : o \in {"upper", "add", "radd", "repr", "str", "in", "not in", "index", "slice", "mod", "format"}},
              {[op |-> "callable", a |-> <<o>>] : o \in {"function", "class", "context", "swallowing", "iterator", "builtin", "keyed", "range", "indexed", "setattr", "delattr", "class attribute"}}>>
WApply(st, e) ==
    CASE e.op = "deep" -> One(st, Bool_(TRUE))
      [] e.op = "text" -> LET t(x) == Seq_(<<Bool_(TRUE), Str_(x)>>) IN
                          One(st, CASE e.a[1] = "upper" -> t("ABC") [] e.a[1] = "add" -> t("abcd") [] e.a[1] = "radd" -> t("dabc") [] e.a[1] = "repr" -> Str_("abc TAINTED")
                                    [] e.a[1] = "str" -> Str_("abc") [] e.a[1] = "in" -> Bool_(TRUE) [] e.a[1] = "not in" -> Bool_(FALSE) [] e.a[1] = "index" -> t("b")
                                    [] e.a[1] = "slice" -> t("bc") [] e.a[1] = "mod" -> t("abc 5") [] e.a[1] = "format" -> Str_("abc"))
      [] e.op = "callable" -> LET t(x) == Seq_(<<Bool_(TRUE), Int_(x)>>) IN
                              One(st, CASE e.a[1] = "function" -> t(6) [] e.a[1] = "class" -> t(3) [] e.a[1] = "context" -> Seq_(<<t(4), Exc("ValueError"), Int_(1)>>)
                                        [] e.a[1] = "swallowing" -> Seq_(<<t(4), None, Int_(1)>>)
                                        [] e.a[1] = "iterator" -> Seq_(<<t(1), t(2), Exc("StopIteration")>>) [] e.a[1] = "builtin" -> t(4) [] e.a[1] = "keyed" -> t(12)
                                        [] e.a[1] = "range" -> IntSeq(<<0, 1, 2>>) [] e.a[1] = "indexed" -> Seq_(<<Int_(8), t(8)>>) [] e.a[1] = "setattr" -> Seq_(<<t(9), t(9)>>)
                                        [] e.a[1] = "delattr" -> Seq_(<<Exc("AttributeError"), Exc("AttributeError")>>) [] e.a[1] = "class attribute" -> t(2))
WInv(st) == TRUE
WStep(st, e, r, t) == TRUE
=============================================================================
