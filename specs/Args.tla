--------------------------------- MODULE Args ---------------------------------
(* How arguments reach a function: the signature is a sequence of [n (name), k (po, pk, va, ko, vk), d (<<>> or <<default>>)]; kw a sequence of <<name, value>> *)
EXTENDS Val
Pos(sig) == SelectSeq(sig, LAMBDA p : p.k \in {"po", "pk"})
Has(sig, k) == \E i \in DOMAIN sig : sig[i].k = k
InKw(kw, n) == \E i \in DOMAIN kw : kw[i][1] = n
KwVal(kw, n) == kw[CHOOSE i \in DOMAIN kw : kw[i][1] = n][2]
TE == [ok |-> FALSE, e |-> "TypeError"]
Order == <<"a", "b", "c", "d", "e", "r", "s", "z">>
SortPairs(kw) == LET names == SelectSeq(Order, LAMBDA n : InKw(kw, n)) IN [i \in DOMAIN names |-> <<names[i], KwVal(kw, names[i])>>]
\* -1 stands for a callable used as a default value, 0 - 9 and more are numbers
Enc(v) == IF v = -1 THEN Str_("callable") ELSE Int_(v)
EncPairs(q) == <<"seq">> \o [i \in DOMAIN q |-> <<"seq", Str_(q[i][1]), Enc(q[i][2])>>]
EncSeq(q) == <<"seq">> \o [i \in DOMAIN q |-> Enc(q[i])]
\* the position of parameter i among the positional ones
PIdx(sig, i) == Cardinality({j \in 1..i : sig[j].k \in {"po", "pk"}})
\* what the function sees: [ok, v: sequence of [n, k, v]]
Bind(sig, args, kw) ==
  LET np == Len(Pos(sig))
      named == {sig[i].n : i \in {j \in DOMAIN sig : sig[j].k \in {"pk", "ko"}}}
      Missing(i) == sig[i].k \in {"po", "pk", "ko"} /\ sig[i].d = <<>> /\ ~(sig[i].k # "ko" /\ PIdx(sig, i) <= Len(args)) /\ ~(sig[i].k # "po" /\ InKw(kw, sig[i].n))
      Twice(i) == sig[i].k = "pk" /\ PIdx(sig, i) <= Len(args) /\ InKw(kw, sig[i].n)
      rest == SelectSeq(kw, LAMBDA p : p[1] \notin named) IN
  IF (Len(args) > np /\ ~Has(sig, "va")) \/ (\E i \in DOMAIN sig : Missing(i) \/ Twice(i)) \/ (rest # <<>> /\ ~Has(sig, "vk")) THEN TE
  ELSE [ok |-> TRUE, v |-> [i \in DOMAIN sig |->
         [n |-> sig[i].n, k |-> sig[i].k,
          v |-> CASE sig[i].k \in {"po", "pk"} -> (IF PIdx(sig, i) <= Len(args) THEN args[PIdx(sig, i)] ELSE IF sig[i].k = "pk" /\ InKw(kw, sig[i].n) THEN KwVal(kw, sig[i].n) ELSE sig[i].d[1])
                  [] sig[i].k = "ko" -> (IF InKw(kw, sig[i].n) THEN KwVal(kw, sig[i].n) ELSE sig[i].d[1])
                  [] sig[i].k = "va" -> SubSeq(args, np + 1, Len(args))
                  [] sig[i].k = "vk" -> SortPairs(rest)]]]
EncVal(p) == CASE p.k = "va" -> EncSeq(p.v) [] p.k = "vk" -> EncPairs(p.v) [] OTHER -> Enc(p.v)
EncEnv(v) == <<"seq">> \o [i \in DOMAIN v |-> <<"seq", Str_(v[i].n), EncVal(v[i])>>]
Ans(b) == IF b.ok THEN EncEnv(b.v) ELSE Exc(b.e)
Num(p) == CASE p.k = "va" -> SumSeq(p.v) [] p.k = "vk" -> SumSeq([i \in DOMAIN p.v |-> p.v[i][2]]) [] OTHER -> p.v
Total(v) == SumSeq([i \in DOMAIN v |-> Num(v[i])])
Of(v, n) == v[CHOOSE i \in DOMAIN v : v[i].n = n].v
Knows(v, n) == \E i \in DOMAIN v : v[i].n = n /\ v[i].k \in {"po", "pk", "ko"}
With(v, n, x) == [i \in DOMAIN v |-> IF v[i].n = n THEN [v[i] EXCEPT !.v = x] ELSE v[i]]
\* call_with_arguments: d is a sequence of <<name, value>>; values of *args are sequences, of **kwargs pairs
Given(d, n) == \E i \in DOMAIN d : d[i][1] = n
DVal(d, n) == d[CHOOSE i \in DOMAIN d : d[i][1] = n][2]
CallWith(sig, d) ==
  LET miss == \E i \in DOMAIN sig : ~Given(d, sig[i].n) /\ sig[i].k \notin {"va", "vk"} /\ sig[i].d = <<>>
      extra == \E i \in DOMAIN d : \A j \in DOMAIN sig : sig[j].n # d[i][1] IN
  IF miss \/ extra THEN (IF miss THEN {Exc("TypeError")} ELSE {}) \cup (IF extra THEN {Exc("ValueError")} ELSE {})
  ELSE {EncEnv([i \in DOMAIN sig |-> [n |-> sig[i].n, k |-> sig[i].k, v |-> IF Given(d, sig[i].n) THEN DVal(d, sig[i].n) ELSE IF sig[i].k \in {"va", "vk"} THEN <<>> ELSE sig[i].d[1]]])}
F(f, x) == CASE f = "" -> x [] f = "inc" -> x + 1 [] f = "dbl" -> x * 2 [] f = "src" -> x * 3
\* for_argument: ops for the positional parameters in order, kops: <<name, op>>
OpOf(v, i, ops, kops) == LET j == Cardinality({k \in 1..i : v[k].k \in {"po", "pk"}}) IN
  IF v[i].k \in {"po", "pk"} /\ j <= Len(ops) THEN ops[j] ELSE IF \E q \in DOMAIN kops : kops[q][1] = v[i].n THEN KwVal(kops, v[i].n) ELSE ""
ForArg(v, ops, kops) == [i \in DOMAIN v |-> IF v[i].k \in {"va", "vk"} THEN v[i] ELSE [v[i] EXCEPT !.v = F(OpOf(v, i, ops, kops), @)]]
AInit(cfg) == [x |-> 0]
AApply(st, e) ==
  LET a == e.a
      b == Bind(a[1], a[2], a[3]) IN
  CASE e.op \in {"get", "bound", "roundtrip"} -> One(st, Ans(b))
    [] e.op = "callwith" -> {[s |-> st, r |-> x] : x \in CallWith(a[1], a[2])}
    \* the function returns the sum of its arguments, the expression is x * 100 + a
    [] e.op = "tresult" -> One(st, IF b.ok THEN Int_(Total(b.v) * 100 + Of(b.v, "a")) ELSE Exc(b.e))
    \* a := a + b, b := a * 2
    [] e.op = "targs" -> One(st, IF b.ok THEN EncEnv(With(With(b.v, "a", Of(b.v, "a") + Of(b.v, "b")), "b", Of(b.v, "a") * 2)) ELSE Exc(b.e))
    [] e.op = "forarg" -> One(st, IF ~b.ok THEN Exc(b.e) ELSE <<"seq", Str_("result"), IF \A i \in DOMAIN a[1] : a[1][i].d = <<>>
                           THEN EncEnv(Bind(a[1], [i \in DOMAIN a[2] |-> IF i <= Len(a[4]) THEN F(a[4][i], a[2][i]) ELSE a[2][i]], a[3]).v) ELSE EncEnv(ForArg(b.v, a[4], a[5]))>>)
    \* a[4]: what is replaced: "int" (an instance of int), "even" (a predicate); the argument a becomes a + 100
    [] e.op = "replace" -> One(st, IF ~b.ok THEN Exc(b.e) ELSE IF Knows(b.v, "a") /\ (a[4] = "int" \/ (a[4] = "even" /\ Of(b.v, "a") % 2 = 0)) THEN EncEnv(With(b.v, "a", Of(b.v, "a") + 100)) ELSE EncEnv(b.v))
    [] e.op = "attach" -> One(st, Ans(Bind(a[1], a[2] \o a[4], SelectSeq(a[3], LAMBDA p : ~InKw(a[5], p[1])) \o a[5])))
    \* the first function gives: a[4] = "both" (args, kwargs), "args", "kwargs", "value"
    [] e.op = "chain" -> One(st, Ans(CASE a[4] = "both" -> b [] a[4] = "args" -> Bind(a[1], a[2], <<>>) [] a[4] = "kwargs" -> Bind(a[1], <<>>, a[3]) [] a[4] = "value" -> Bind(a[1], <<a[2][1]>>, <<>>)))
    \* a decorator that doubles all the arguments, on a function, a method, a static or class method
    [] e.op = "adapt" -> One(st, Ans(Bind(a[1], [i \in DOMAIN a[2] |-> a[2][i] * 2], [i \in DOMAIN a[3] |-> <<a[3][i][1], a[3][i][2] * 2>>])))
    \* the function changes its arguments at the top and deep inside
    [] e.op = "copied" -> One(st, IF a[1] = "deep" THEN <<"seq", Str_("top kept"), Str_("inside kept")>> ELSE <<"seq", Str_("top kept"), Str_("inside changed")>>)
    [] OTHER -> {}
AInv(st) == TRUE
\* a round trip through a dictionary of arguments is a call
AStep(st, e, r, t) == e.op = "targs" => (r[1] = "exc" <=> ~Bind(e.a[1], e.a[2], e.a[3]).ok)
ACfgs == <<[x |-> 0]>>
P(n, k) == [n |-> n, k |-> k, d |-> <<>>]
D(n, k, v) == [n |-> n, k |-> k, d |-> <<v>>]
Sigs == { <<>>, <<P("a", "pk")>>, <<P("a", "po"), P("b", "pk")>>, <<P("a", "pk"), D("b", "pk", 7)>>, <<D("a", "pk", 6), D("b", "pk", 7)>>, <<P("a", "pk"), P("r", "va")>>, <<P("a", "pk"), D("b", "pk", 7), P("r", "va"), D("c", "ko", 8), P("s", "vk")>>,
  <<P("a", "pk"), P("c", "ko")>>, <<P("a", "pk"), P("s", "vk")>>, <<D("a", "po", 6), D("b", "pk", 7), P("c", "ko"), P("s", "vk")>>, <<P("r", "va"), P("s", "vk")>>, <<P("b", "pk"), P("a", "pk"), D("d", "ko", 5)>> }
ArgLs == {<<>>, <<1>>, <<1, 2>>, <<1, 2, 3>>}
Kws == {<<>>, <<<<"a", 4>>>>, <<<<"b", 4>>>>, <<<<"c", 4>>>>, <<<<"c", 4>>, <<"z", 9>>>>, <<<<"b", 3>>, <<"a", 4>>>>}
HasA(sig) == \E i \in DOMAIN sig : sig[i].n = "a"
HasAB(sig) == HasA(sig) /\ \E i \in DOMAIN sig : sig[i].n = "b"
NoDef(sig) == \A i \in DOMAIN sig : sig[i].d = <<>>
DVals(sig) == LET one(i) == {<<>>, << <<sig[i].n, CASE sig[i].k = "va" -> <<3, 4>> [] sig[i].k = "vk" -> << <<"z", 5>> >> [] OTHER -> 2>> >>} IN
              IF Len(sig) = 0 THEN {<<>>} ELSE IF Len(sig) = 1 THEN one(1) ELSE IF Len(sig) = 2 THEN {x \o y : x \in one(1), y \in one(2)}
              ELSE IF Len(sig) = 3 THEN {x \o y \o z : x \in one(1), y \in one(2), z \in one(3)} ELSE IF Len(sig) = 4 THEN {x \o y \o z \o w : x \in one(1), y \in one(2), z \in one(3), w \in one(4)}
              ELSE {x \o y \o z \o w \o v : x \in one(1), y \in one(2), z \in one(3), w \in one(4), v \in one(5)}
AOps(st) == <<
  {[op |-> o, a |-> <<g, x, k>>] : o \in {"get", "bound", "roundtrip"}, g \in Sigs, x \in ArgLs, k \in Kws},
  UNION {{[op |-> "callwith", a |-> <<g, d>>] : d \in DVals(g)} : g \in Sigs},
  {[op |-> "callwith", a |-> <<g, <<<<"a", 1>>, <<"b", 2>>, <<"e", 2>>>>>>] : g \in Sigs},
  {[op |-> "tresult", a |-> <<g, x, k>>] : g \in {s \in Sigs : HasA(s)}, x \in ArgLs, k \in Kws},
  {[op |-> "targs", a |-> <<g, x, k>>] : g \in {s \in Sigs : HasAB(s)}, x \in ArgLs, k \in Kws},
  {[op |-> "forarg", a |-> <<g, x, <<>>, o, <<>>>>] : g \in {s \in Sigs : NoDef(s) /\ ~Has(s, "ko")}, x \in {<<1, 2>>, <<1, 2, 3>>}, o \in {<<>>, <<"inc">>, <<"">>, <<"src">>}},
  {[op |-> "forarg", a |-> <<g, x, k, o, q>>] : g \in {<<P("a", "pk"), D("b", "pk", 7)>>, <<D("a", "pk", 6), D("b", "pk", 7)>>, <<P("a", "pk"), P("b", "pk"), D("d", "ko", 5)>>}, x \in ArgLs, k \in {<<>>, <<<<"b", 4>>>>, <<<<"d", 4>>>>}, o \in {<<>>, <<"inc">>, <<"", "dbl">>},
      q \in {<<>>, <<<<"d", "src">>>>}},
  {[op |-> "forarg", a |-> <<<<P("a", "pk"), D("b", "pk", -1)>>, <<1>>, <<>>, o, <<>>>>] : o \in {<<"inc">>, <<>>}},
  {[op |-> "replace", a |-> <<g, x, k, m>>] : g \in Sigs, x \in ArgLs, k \in Kws, m \in {"int", "even"}},
  {[op |-> "attach", a |-> <<g, x, k, y, l>>] : g \in Sigs, x \in {<<>>, <<1>>}, k \in {<<>>, <<<<"c", 4>>>>, <<<<"b", 4>>>>}, y \in {<<>>, <<5>>}, l \in {<<>>, <<<<"c", 6>>>>, <<<<"z", 6>>>>}},
  {[op |-> "chain", a |-> <<g, x, k, m>>] : g \in Sigs, x \in ArgLs \ {<<>>}, k \in {<<>>, <<<<"b", 4>>>>, <<<<"c", 4>>, <<"z", 9>>>>}, m \in {"both", "args", "kwargs", "value"}},
  {[op |-> "adapt", a |-> <<g, x, k, m>>] : g \in Sigs, x \in ArgLs, k \in {<<>>, <<<<"b", 4>>>>}, m \in {"function", "method", "static"}},
  {[op |-> "copied", a |-> <<m>>] : m \in {"deep", "shallow"}} >>
===============================================================================
