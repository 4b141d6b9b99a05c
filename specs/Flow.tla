--------------------------------- MODULE Flow ---------------------------------
(* Decorators that decide whether, and how many times, a function is called.                                                         *)
(* A script lists how successive calls of the function end: "" is a return (of the number of the call), else the class of an exception    *)
(* State of the object whose methods are decorated: q (its queue), p (its cached property), n (how many times it was computed), at (an attribute) *)
EXTENDS Val
Up(c) == {c, "BaseException"} \cup
  CASE c = "KeyError" -> {"LookupError", "Exception"} [] c = "Empty" -> {"Exception"} [] c = "ValueError" -> {"Exception"} [] c = "PreconditionError" -> {"ValueError", "Exception"} [] OTHER -> {}
Match(c, ts) == \E i \in DOMAIN ts : ts[i] \in Up(c)
Sc(s, i) == IF i <= Len(s) THEN s[i] ELSE ""
T1(x) == <<"seq", Str_(x)>>
T2(x, y) == <<"seq", Str_(x), y>>
Ex(c) == T2("raised", Str_(c))
Got(v) == T2("returned", v)
\* attempt i of at most n (0: any number)
RECURSIVE Retry(_, _, _, _, _)
Retry(n, ts, sw, s, i) ==
  LET c == Sc(s, i) IN
  IF c = "" THEN <<T1("call"), T2("success", Int_(i - 1)), Got(Int_(i))>>
  ELSE IF ~Match(c, ts) THEN <<T1("call"), Ex(c)>>
  ELSE IF i = n THEN <<T1("call"), T2("failure", Str_(c)), T2("failure2", Str_(c)), IF sw THEN Got(None) ELSE Ex(c)>>
  ELSE <<T1("call"), T2("between", Str_(c))>> \o Retry(n, ts, sw, s, i + 1)
RECURSIVE Loop(_, _, _)
\* the condition holds n times
Loop(n, s, i) == IF i > n THEN <<Got(None)>> ELSE IF Sc(s, i) # "" THEN <<T1("call"), Ex(Sc(s, i))>> ELSE <<T1("call")>> \o Loop(n, s, i + 1)
RECURSIVE Forever(_, _)
Forever(s, i) == IF Sc(s, i) # "" THEN <<T1("call"), Ex(Sc(s, i))>> ELSE <<T1("call")>> \o Forever(s, i + 1)
\* a condition is one of: "" (none), "gt1", "even"; "big" is TRUE of everything but cannot be asked of None (TypeError)
Cond(c, v) == CASE c = "" -> "yes" [] c = "set" -> (IF v = 0 THEN "no" ELSE "yes") [] c = "gt1" -> (IF v = 0 THEN "type" ELSE IF v > 1 THEN "yes" ELSE "no") [] c = "even" -> (IF v = 0 THEN "type" ELSE IF v % 2 = 0 THEN "yes" ELSE "no")
\* 0 stands for None here
V0(v) == IF v = 0 THEN None ELSE Int_(v)
LInit(cfg) == [q |-> <<>>, p |-> cfg.nl, n |-> 0, at |-> 0, c |-> cfg]
A(x) == <<"seq">> \o x
LApply(st, e) ==
  LET a == e.a IN
  CASE e.op = "retry" -> One(st, A(Retry(a[1], a[2], a[3], a[4], 1)))
    [] e.op = "loop" -> One(st, A(Loop(a[2], a[3], 1)))
    [] e.op = "forever" -> One(st, A(Forever(a[1], 1)))
    [] e.op = "put" -> One([st EXCEPT !.q = Append(@, a[1])], None)
    \* a[1]: what is done when the queue is empty; a[2]: how the method ends
    [] e.op = "consume" -> IF st.q = <<>> THEN One(st, A((CASE a[1] = "" -> <<>> [] OTHER -> <<T1(a[1])>>) \o <<Got(None)>>))
                           ELSE One([st EXCEPT !.q = Tail(@)], A(<<T2("item", Int_(Head(st.q))), IF a[2] = "" THEN Got(Int_(Head(st.q))) ELSE Ex(a[2])>>))
    [] e.op = "default" -> One(st, Got(IF a[2] = 0 THEN Int_(a[1]) ELSE Int_(a[2])))
    [] e.op = "aslist" -> IF a[3] # "" THEN One(st, Ex(a[3])) ELSE
                          LET q == IF a[1] THEN SelectSeq(a[2], LAMBDA v : v # 0) ELSE a[2] IN One(st, Got(<<"seq">> \o [i \in DOMAIN q |-> V0(q[i])]))
    [] e.op = "short" -> One(st, Got(IF a[2] = 0 THEN None ELSE Int_(a[2] + 1)))
    [] e.op = "onexc" -> IF a[2] = "" THEN One(st, A(<<T1("call"), Got(Int_(1))>>)) ELSE IF Match(a[2], a[1]) THEN One(st, A(<<T1("call"), T2("handler", Int_(7)), Got(Int_(77))>>))
                         ELSE One(st, A(<<T1("call"), Ex(a[2])>>))
    \* the property computes a[1] (0: what stands for not loaded), or fails
    [] e.op = "prop" -> IF st.p # st.c.nl THEN One(st, A(<<Got(V0(st.p))>>)) ELSE IF a[2] # "" THEN One([st EXCEPT !.n = @ + 1], A(<<T1("call"), Ex(a[2])>>))
                        ELSE One([st EXCEPT !.n = @ + 1, !.p = a[1]], A(<<T1("call"), Got(V0(a[1]))>>))
    [] e.op = "propset" -> One([st EXCEPT !.p = a[1]], None)
    [] e.op = "attr" -> One([st EXCEPT !.at = a[1]], None)
    [] e.op = "ifnone" -> One(st, Got(IF st.at = 0 THEN Int_(a[1]) ELSE None))
    [] e.op = "ifnotnone" -> One(st, Got(IF st.at = 0 THEN None ELSE Int_(a[1])))
    \* a[1]: conditions on the positional arguments; a[2]: the arguments; a[3]: condition on the keyword argument k; a[4]: the keyword argument if given
    [] e.op = "pre" -> IF (a[4] # <<>> /\ Cond(a[3], a[4][1]) # "yes") \/ (\E i \in DOMAIN a[1] : Cond(a[1][i], a[2][i]) # "yes") THEN One(st, A(<<Ex("PreconditionError")>>))
                       ELSE One(st, A(<<T1("call"), Got(Int_(1))>>))
    [] e.op = "post" -> One(st, A(<<T1("call"), IF Cond(a[1], a[2]) = "yes" THEN Got(Int_(a[2])) ELSE Ex("PreconditionError")>>))
    [] e.op = "haskeys" -> One(st, IF Range(a[1]) \subseteq Range(a[2]) THEN Got(Bool_(TRUE)) ELSE Ex("PreconditionError"))
    [] e.op = "before" -> One(st, A(<<T2("before", Int_(a[1])), T1("call"), Got(Int_(a[2]))>>))
    [] OTHER -> {}
LInv(st) == TRUE
LStep(st, e, r, t) ==
  /\ e.op = "retry" => Cardinality({i \in 2..Len(r) : r[i] = T1("call")}) <= IF e.a[1] = 0 THEN 99 ELSE e.a[1]
  /\ (e.op = "prop" /\ st.p # st.c.nl) => t.n = st.n
LCfgs == <<[nl |-> 0], [nl |-> 3]>>
Scripts == {<<>>, <<"KeyError">>, <<"KeyError", "KeyError">>, <<"KeyError", "KeyError", "KeyError">>, <<"ValueError">>, <<"KeyError", "ValueError", "KeyError">>, <<"KeyError", "ValueError">>, <<"KeyboardInterrupt">>}
Conds == {"", "gt1", "even"}
Fresh(st, x) == IF st.n = 0 /\ st.q = <<>> /\ st.p = st.c.nl /\ st.at = 0 THEN x ELSE {}
LOps(st) == <<
  Fresh(st, {[op |-> "retry", a |-> <<n, t, s, x>>] : n \in 0..3, t \in {<<"KeyError">>, <<"LookupError", "ValueError">>, <<"Exception">>}, s \in BOOLEAN, x \in Scripts}),
  Fresh(st, {[op |-> "loop", a |-> <<k, n, x>>] : k \in {"method", "function"}, n \in 0..3, x \in {<<>>, <<"", "KeyError">>}}),
  Fresh(st, {[op |-> "forever", a |-> <<x>>] : x \in {<<"KeyError">>, <<"", "", "ValueError">>}}),
  Fresh(st, {[op |-> "default", a |-> <<5, v>>] : v \in {0, 1}}), Fresh(st, {[op |-> "aslist", a |-> <<b, v, x>>] : b \in BOOLEAN, v \in {<<>>, <<1, 0, 2>>, <<0>>}, x \in {"", "KeyError"}}),
  Fresh(st, {[op |-> "short", a |-> <<k, v>>] : k \in {"str", "fun"}, v \in {0, 4}}),
  Fresh(st, {[op |-> "onexc", a |-> <<t, x>>] : t \in {<<"KeyError">>, <<"ValueError", "LookupError">>}, x \in {"", "KeyError", "ValueError", "Empty"}}),
  Fresh(st, {[op |-> "pre", a |-> <<<<c>>, <<v>>, d, x>>] : c \in Conds, d \in Conds, v \in 0..3, x \in {<<>>, <<1>>, <<2>>}}),
  Fresh(st, {[op |-> "pre", a |-> <<<<c, d>>, <<v, x, 1>>, "", <<>>>>] : c \in Conds, d \in Conds, v \in 1..2, x \in 1..2}),
  Fresh(st, {[op |-> "post", a |-> <<c, v>>] : c \in {"gt1", "even"}, v \in 1..4}), Fresh(st, {[op |-> "haskeys", a |-> <<<<1, 2>>, k>>] : k \in {<<1, 2, 3>>, <<1>>, <<>>}}),
  Fresh(st, {[op |-> "before", a |-> <<b, v>>] : b \in {0, 2}, v \in {1}}),
  IF Len(st.q) < 2 THEN {[op |-> "put", a |-> <<v>>] : v \in 1..2} ELSE {}, {[op |-> "consume", a |-> <<m, x>>] : m \in {"", "callable", "method"}, x \in {"", "KeyError", "Empty"}},
  {[op |-> "prop", a |-> <<v, x>>] : v \in {st.c.nl, 2}, x \in {"", "KeyError"}}, {[op |-> "propset", a |-> <<v>>] : v \in {0, 1}},
  {[op |-> "attr", a |-> <<v>>] : v \in 0..1}, {[op |-> "ifnone", a |-> <<4>>], [op |-> "ifnotnone", a |-> <<4>>]} >>
===============================================================================
