--------------------------------- MODULE Preds --------------------------------
(* Predicates: expressions of one argument x.  An expression is <<"x">>, <<"n", number>>, <<"neg"|"inv"|"abs"|"len"|"false"|"int"|"str"|"type"|"identity", e>>,          *)
(* <<"bin", operator, e, e>>, <<"item", e, index>>, <<"attr"|"call", e, name>>, <<"inside", e, v>>, <<"one_of", e, vs>>, <<"has_keys", e, names>>, <<"isinst", e, types>>, <<"has", e, p>> *)
(* Values: numbers, booleans, strings, <<"seq", ..>>, <<"obj", pairs of name and value>>                                                                           *)
(* Structures: <<"list"|"tuple", s..>>, <<"dict", <<key, value>>..>>, <<"leaf", v>>, <<"p", expression>>                                                               *)
EXTENDS Val
RECURSIVE Bits(_, _, _)
Bits(op, a, b) == IF a = 0 /\ b = 0 THEN 0 ELSE
  LET p == a % 2 q == b % 2
      r == CASE op = "and" -> IF p = 1 /\ q = 1 THEN 1 ELSE 0 [] op = "or" -> IF p = 1 \/ q = 1 THEN 1 ELSE 0 [] op = "xor" -> IF p # q THEN 1 ELSE 0 IN
  r + 2 * Bits(op, a \div 2, b \div 2)
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)
Num(v) == IF v[1] = "bool" THEN (IF v[2] THEN 1 ELSE 0) ELSE v[2]
Bin(op, a, b) ==
  CASE op = "add" -> Int_(Num(a) + Num(b)) [] op = "sub" -> Int_(Num(a) - Num(b)) [] op = "mul" -> Int_(Num(a) * Num(b))
    [] op = "mod" -> Int_(Num(a) % Num(b)) [] op = "floordiv" -> Int_(Num(a) \div Num(b)) [] op = "pow" -> Int_(Pow(Num(a), Num(b)))
    [] op = "lshift" -> Int_(Num(a) * Pow(2, Num(b))) [] op = "rshift" -> Int_(Num(a) \div Pow(2, Num(b)))
    [] op \in {"and", "or", "xor"} -> IF a[1] = "bool" THEN Bool_(CASE op = "and" -> a[2] /\ b[2] [] op = "or" -> a[2] \/ b[2] [] op = "xor" -> a[2] # b[2]) ELSE Int_(Bits(op, Num(a), Num(b)))
    [] op = "eq" -> Bool_(a = b) [] op = "ne" -> Bool_(a # b)
    [] op = "lt" -> Bool_(Num(a) < Num(b)) [] op = "le" -> Bool_(Num(a) <= Num(b)) [] op = "gt" -> Bool_(Num(a) > Num(b)) [] op = "ge" -> Bool_(Num(a) >= Num(b))
Truthy(v) == CASE v[1] = "int" -> v[2] # 0 [] v[1] = "bool" -> v[2] [] v[1] = "seq" -> Len(v) > 1 [] OTHER -> TRUE
\* the elements of v satisfying nothing in particular: its keys, if it is an object
Names(v) == {v[i][1] : i \in 2..Len(v)}
Field(v, n) == v[CHOOSE i \in 2..Len(v) : v[i][1] = n][2]
TypeName(v) == CASE v[1] = "seq" -> "list" [] OTHER -> v[1]
Isa(v, t) == t = TypeName(v) \/ (t = "int" /\ v[1] = "bool") \/ t = "object"
RECURSIVE Eval(_, _)
Eval(e, v) ==
  CASE e[1] = "x" -> v
    [] e[1] = "n" -> Int_(e[2])
    [] e[1] = "bin" -> Bin(e[2], Eval(e[3], v), Eval(e[4], v))
    [] e[1] = "neg" -> Int_(-Num(Eval(e[2], v)))
    [] e[1] = "inv" -> LET q == Eval(e[2], v) IN IF q[1] = "bool" THEN Bool_(~q[2]) ELSE Int_(-q[2] - 1)
    [] e[1] = "abs" -> LET n == Num(Eval(e[2], v)) IN Int_(IF n < 0 THEN -n ELSE n)
    [] e[1] = "len" -> Int_(Len(Eval(e[2], v)) - 1)
    [] e[1] = "false" -> Bool_(~Truthy(Eval(e[2], v)))
    [] e[1] = "int" -> Int_(Num(Eval(e[2], v)))
    [] e[1] = "str" -> Str_(ToString(Eval(e[2], v)[2]))
    [] e[1] = "type" -> Str_(TypeName(Eval(e[2], v)))
    [] e[1] = "identity" -> Eval(e[2], v)
    [] e[1] = "item" -> LET q == Eval(e[2], v) IN q[e[3] + 2]
    [] e[1] \in {"attr", "call"} -> Field(Eval(e[2], v), e[3])
    [] e[1] = "inside" -> LET q == Eval(e[2], v) IN Bool_(\E i \in 2..Len(q) : q[i] = Int_(e[3]))
    [] e[1] = "one_of" -> LET q == Eval(e[2], v) IN Bool_(\E i \in DOMAIN e[3] : q = Int_(e[3][i]))
    [] e[1] = "has_keys" -> LET q == Eval(e[2], v) IN Bool_(Range(e[3]) \subseteq Names(q))
    [] e[1] = "isinst" -> LET q == Eval(e[2], v) IN Bool_(\E i \in DOMAIN e[3] : Isa(q, e[3][i]))
    [] e[1] = "has" -> LET q == Eval(e[2], v) IN Bool_(\E i \in 2..Len(q) : Truthy(Eval(e[3], q[i])))
RECURSIVE Build(_, _)
Build(s, v) == CASE s[1] = "leaf" -> s[2] [] s[1] = "p" -> Eval(s[2], v)
                 [] s[1] \in {"list", "tuple"} -> <<"seq", Str_(s[1])>> \o [i \in 1..(Len(s) - 1) |-> Build(s[i + 1], v)]
                 [] s[1] = "dict" -> <<"seq", Str_("dict")>> \o [i \in 1..(Len(s) - 1) |-> <<"seq", Build(s[i + 1][1], v), Build(s[i + 1][2], v)>>]
Shown(v) == IF v[1] = "obj" THEN Str_("an object") ELSE v
PInit(cfg) == [x |-> 0]
\* odd values, by name; those of one class are equal to each other, though of other types
Class(n) == CASE n \in {"true", "one", "onef", "big1"} -> "1" [] n \in {"zero", "false", "zerof"} -> "0" [] OTHER -> n
OddTruthy(n) == Class(n) \notin {"0", "none", "empty", "elist", "etuple", "edict"}
OddType(n) == CASE n \in {"true", "false"} -> "bool" [] n \in {"one", "zero"} -> "int" [] n \in {"onef", "zerof"} -> "float" [] n \in {"s", "t", "empty"} -> "str" [] n = "elist" -> "list" [] n = "etuple" -> "tuple"
                  [] n = "edict" -> "dict" [] n = "none" -> "NoneType" [] n = "big1" -> "Sub" [] n = "obj" -> "Ob2"
OddIsa(n, t) == t = OddType(n) \/ t = "object" \/ (t = "int" /\ OddType(n) \in {"bool", "Sub"}) \/ (t = "dict" /\ n = "obj")
Numeric(n) == Class(n) \in {"0", "1"}
Odd(f, n) ==
  CASE f[1] = "identity" -> Str_(n)                              \* the very object
    [] f[1] = "type" -> Str_(OddType(n))
    [] f[1] = "false" -> Bool_(~OddTruthy(n))
    [] f[1] = "eq" -> Bool_(Class(f[2]) = Class(n)) [] f[1] = "ne" -> Bool_(Class(f[2]) # Class(n))
    [] f[1] = "one_of" -> Bool_(\E i \in DOMAIN f[2] : Class(f[2][i]) = Class(n))
    [] f[1] = "isinst" -> Bool_(\E i \in DOMAIN f[2] : OddIsa(n, f[2][i]))
    [] f[1] = "inv" -> (CASE OddType(n) = "bool" -> Bool_(n = "false") [] OddType(n) \in {"int", "Sub"} -> Int_(IF Class(n) = "1" THEN -2 ELSE -1) [] OTHER -> Exc("TypeError"))
    [] f[1] = "float" -> IF Numeric(n) THEN Str_(Class(n) \o ".0") ELSE Exc(IF OddType(n) = "str" THEN "ValueError" ELSE "TypeError")
    [] f[1] = "half" -> IF Numeric(n) THEN Int_(IF Class(n) = "1" THEN 5 ELSE 0) ELSE Exc("TypeError")    \* ten times the half
    [] f[1] = "prefix" -> IF OddType(n) = "str" THEN Str_("pre" \o (IF n = "empty" THEN "" ELSE n)) ELSE Exc("TypeError")
    [] f[1] = "suffix" -> IF OddType(n) = "str" THEN Str_((IF n = "empty" THEN "" ELSE n) \o "post") ELSE Exc("TypeError")
    [] f[1] = "matmul" -> Str_("obj @ " \o n) [] f[1] = "rmatmul" -> Str_(n \o " @ obj")
    [] f[1] = "len" -> IF OddType(n) \in {"str", "list", "tuple", "dict", "Ob2"} THEN Int_(IF n \in {"s", "t"} THEN 1 ELSE 0) ELSE Exc("TypeError")
    \* a structure with that value left alone, or put in
    [] f[1] = "leaf" -> Str_(n) [] f[1] = "put" -> <<"seq", Str_(n), Str_(n)>>
\* has(): the elements (numbers, and unhashable ones) are looked at in order, no further than the first that satisfies, each by way of the predicate
Looked(q, k) == LET hit == {i \in DOMAIN q : q[i] = k} IN IF hit = {} THEN Len(q) ELSE MinOf(hit)
PApply(st, e) == CASE e.op = "odd" -> One(st, Odd(e.a[1], e.a[2]))
  [] e.op = "has" -> One(st, <<"seq", Bool_(\E i \in DOMAIN e.a[1] : e.a[1][i] = e.a[2]), Int_(Looked(e.a[1], e.a[2]))>>)
  \* only what is asked is whether it contains each of them, in order, up to one it does not
  [] e.op = "keys" -> One(st, LET bad == {i \in DOMAIN e.a[2] : e.a[2][i] \notin Range(e.a[1])} IN <<"seq", Bool_(bad = {}), IntSeq(SubSeq(e.a[2], 1, IF bad = {} THEN Len(e.a[2]) ELSE MinOf(bad)))>>)
  \* structures of a class derived from list, tuple (also a named one) or a dictionary, with a predicate inside, or inside of a wrapper
  [] e.op = "kinds" -> One(st, <<"seq", Str_(e.a[1]), Int_(e.a[2]), Int_(2 * e.a[2])>>)
  \* valid against a schema which needs an integer under "a"
  [] e.op = "schema" -> One(st, Bool_(e.a[1] = "int"))
  [] OTHER -> CASE e.op = "eval" -> One(st, Shown(Eval(e.a[1], e.a[2]))) [] e.op = "build" -> One(st, Build(e.a[1], e.a[2])) [] OTHER -> {}
PInv(st) == TRUE
\* ~ means not
PStep(st, e, r, t) == (e.op = "eval" /\ e.a[1][1] = "inv" /\ Eval(e.a[1][2], e.a[2])[1] = "bool") => r # Eval(e.a[1][2], e.a[2])
OddNames == {"none", "true", "one", "onef", "big1", "zero", "false", "s", "empty", "elist", "etuple", "edict", "obj"}
OddFs == {<<u>> : u \in {"identity", "type", "false", "inv", "float", "half", "prefix", "suffix", "matmul", "rmatmul", "len", "leaf", "put"}} \cup {<<u, n>> : u \in {"eq", "ne"}, n \in {"none", "one", "zero", "s", "elist"}}
  \cup {<<"one_of", q>> : q \in {<<>>, <<"none">>, <<"s", "one">>, <<"zero", "none">>, <<"elist", "true">>, <<"t">>}} \cup {<<"isinst", q>> : q \in {<<"int">>, <<"bool">>, <<"str", "list">>, <<"dict">>, <<"NoneType", "object">>, <<"float">>}}
PCfgs == <<[x |-> 0]>>
X == <<"x">>
N(k) == <<"n", k>>
Arith == {"add", "sub", "mul", "and", "or", "xor", "lshift", "rshift", "eq", "ne", "lt", "le", "gt", "ge", "pow", "mod", "floordiv"}
Cmp == {<<"bin", o, X, N(2)>> : o \in {"eq", "lt", "ge"}}
I(k) == Int_(k)
L123 == <<"seq", I(1), I(2), I(3)>>
POps(st) == <<
  {[op |-> "odd", a |-> <<f, n>>] : f \in OddFs, n \in OddNames},
  {[op |-> "has", a |-> <<q, k>>] : q \in {<<>>, <<1>>, <<1, 2>>, <<2, 2, 1>>, <<1, -1, 2>>, <<-1, -1>>}, k \in {1, 2, -1}},
  {[op |-> "keys", a |-> <<q, k>>] : q \in {<<>>, <<0>>, <<0, 1, 2>>}, k \in {<<>>, <<0>>, <<1, 0>>, <<0, 2, 3, 1>>, <<0, 0>>}},
  {[op |-> "kinds", a |-> <<k, v>>] : k \in {"MyList", "MyTuple", "Point", "dict", "wrapped list", "wrapped dict"}, v \in {0, 3}},
  {[op |-> "schema", a |-> <<k>>] : k \in {"int", "str", "missing"}},
  {[op |-> "eval", a |-> <<<<"bin", o, X, N(k)>>, I(v)>>] : o \in Arith, k \in 1..3, v \in 0..4},
  {[op |-> "eval", a |-> <<<<"bin", o, N(k), X>>, I(v)>>] : o \in Arith, k \in 0..3, v \in 1..3},
  {[op |-> "eval", a |-> <<<<"bin", o, <<"bin", p, X, N(k)>>, <<"bin", q, N(3), X>>>>, I(v)>>] : o \in {"add", "sub", "lt", "mul"}, p \in {"add", "sub"}, q \in {"sub", "mul"}, k \in 1..2, v \in 0..2},
  {[op |-> "eval", a |-> <<<<"bin", o, c, d>>, I(v)>>] : o \in {"and", "or", "xor"}, c \in Cmp, d \in Cmp, v \in 1..3},
  {[op |-> "eval", a |-> <<<<u, X>>, I(v)>>] : u \in {"neg", "inv", "abs", "false", "int", "str", "type", "identity"}, v \in -2..2},
  {[op |-> "eval", a |-> <<<<u, c>>, I(v)>>] : u \in {"inv", "false", "int", "type"}, c \in Cmp, v \in 1..2},
  {[op |-> "eval", a |-> <<f, v>>] : f \in {<<"len", X>>, <<"type", X>>, <<"inside", X, 2>>, <<"inside", X, 5>>, <<"has", X, <<"bin", "gt", X, N(2)>>>>, <<"has", X, <<"bin", "mod", X, N(2)>>>>}, v \in {L123, <<"seq">>, <<"seq", I(2)>>, <<"seq", I(4), I(4)>>}},
  {[op |-> "eval", a |-> <<f, L123>>] : f \in {<<"item", X, i>> : i \in 0..2} \cup {<<"bin", "eq", <<"item", X, 1>>, <<"item", X, 0>>>>}},
  {[op |-> "eval", a |-> <<<<"one_of", X, q>>, I(v)>>] : q \in {<<>>, <<1>>, <<1, 2>>}, v \in 1..2},
  {[op |-> "eval", a |-> <<<<"isinst", X, q>>, v>>] : q \in {<<"int">>, <<"str", "list">>, <<"object">>, <<"bool">>}, v \in {I(1), Bool_(TRUE), Str_("s"), L123}},
  {[op |-> "eval", a |-> <<f, <<"obj", <<"a", I(3)>>, <<"b", I(4)>>>>>>] : f \in {<<u, X, n>> : u \in {"attr", "call"}, n \in {"a", "b"}} \cup {<<"bin", "sub", <<"attr", X, "a">>, <<"call", X, "b">>>>}},
  {[op |-> "eval", a |-> <<<<"has_keys", X, q>>, <<"obj", <<"a", I(3)>>, <<"b", I(4)>>>>>>] : q \in {<<>>, <<"a">>, <<"a", "b">>, <<"a", "c">>, <<"c">>}},
  {[op |-> "build", a |-> <<<<k, <<"p", X>>, <<"leaf", v>>, <<"p", <<"bin", "mul", X, N(2)>>>>>>, I(4)>>] : k \in {"list", "tuple"}, v \in {I(9), Str_("txt"), Str_("")}},
  {[op |-> "build", a |-> <<s, I(4)>>] : s \in {<<"p", X>>, <<"leaf", I(3)>>, <<"leaf", Str_("ab")>>, <<"list">>, <<"tuple">>, <<"dict">>, <<"dict", <<<<"leaf", I(1)>>, <<"p", X>>>>, <<<<"leaf", I(2)>>, <<"list", <<"p", X>>>>>>>>,
     <<"dict", <<<<"leaf", Str_("k")>>, <<"p", X>>>>>>, <<"dict", <<<<"p", X>>, <<"leaf", Str_("v")>>>>, <<<<"p", <<"bin", "add", X, N(1)>>>>, <<"p", X>>>>>>, <<"list", <<"tuple", <<"p", X>>, <<"dict", <<<<"leaf", I(1)>>, <<"p", <<"neg", X>>>>>>>>>>, <<"list">>>>}} >>
===============================================================================
