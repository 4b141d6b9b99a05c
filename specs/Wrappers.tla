----------------------------- MODULE Wrappers -----------------------------
(* Proxy, Optional, HashableWrapper, frozendict, Immutable, typednamedtuple, Vector, SetZip               *)
EXTENDS Val

(* P: an operation upon a proxied number is the operation upon the number *)
PCfgs == <<[x |-> 0]>>
PInit(cfg) == cfg
Arith == {"add", "sub", "mul", "floordiv", "mod", "pow", "lshift", "rshift", "and", "or", "xor", "truediv"}
Cmp == {"eq", "ne", "lt", "le", "gt", "ge"}
Unary == {"neg", "pos", "invert", "abs", "int", "float", "index", "hash", "bool", "str", "repr", "round", "floor", "ceil", "trunc", "complex", "format", "hex", "round1"}
Ns == {0, 1, 2, 3, 5, 6}
POps(st) == <<{[op |-> "binary", a |-> <<f, how, a, b, wr>>] : f \in Arith \cup {"divmod"}, how \in {"direct", "reflected", "both"}, a \in Ns, b \in {1, 2, 4}, wr \in BOOLEAN} \cup
              {[op |-> "compare", a |-> <<f, how, a, b, wr>>] : f \in Cmp, how \in {"direct", "reflected", "both"}, a \in {1, 2, 3}, b \in {1, 2, 3}, wr \in BOOLEAN} \cup
              {[op |-> "inplace", a |-> <<f, how, a, b, wr>>] : f \in Arith, how \in {"direct", "both"}, a \in Ns, b \in {1, 2, 4}, wr \in BOOLEAN} \cup
              {[op |-> "unary", a |-> <<f, a, wr>>] : f \in Unary, a \in {-3, 0, 1, 8}, wr \in BOOLEAN} \cup
              {[op |-> "matmul", a |-> <<how, wr>>] : how \in {"direct", "reflected", "inplace"}, wr \in BOOLEAN} \cup
              {[op |-> "async", a |-> <<f>>] : f \in {"await", "with", "for"}} \cup {[op |-> "copy", a |-> <<f, a>>] : f \in {"copy", "deepcopy"}, a \in {1, 2}} \cup
              {[op |-> "with", a |-> <<>>], [op |-> "attr", a |-> <<>>], [op |-> "call", a |-> <<>>]}>>
Pow2(n) == 2 ^ n
Bit(x, k) == (x \div Pow2(k)) % 2
BitOp(a, b, f(_, _)) == SumSeq([k \in 1..4 |-> Pow2(k - 1) * f(Bit(a, k - 1), Bit(b, k - 1))])
(* in quarters, as truediv is not whole *)
Num(f, a, b) == CASE f = "add" -> 4 * (a + b) [] f = "sub" -> 4 * (a - b) [] f = "mul" -> 4 * a * b [] f = "floordiv" -> 4 * (a \div b) [] f = "mod" -> 4 * (a % b)
                  [] f = "pow" -> 4 * (a ^ b) [] f = "lshift" -> 4 * a * Pow2(b) [] f = "rshift" -> 4 * (a \div Pow2(b)) [] f = "truediv" -> (4 * a) \div b
                  [] f = "and" -> 4 * BitOp(a, b, LAMBDA x, y : x * y) [] f = "or" -> 4 * BitOp(a, b, LAMBDA x, y : IF x + y > 0 THEN 1 ELSE 0) [] f = "xor" -> 4 * BitOp(a, b, LAMBDA x, y : (x + y) % 2)
Truth(f, a, b) == CASE f = "eq" -> a = b [] f = "ne" -> a # b [] f = "lt" -> a < b [] f = "le" -> a <= b [] f = "gt" -> a > b [] f = "ge" -> a >= b
Hex(a) == IF a < 0 THEN "-0x3" ELSE "0x" \o ToString(a)
(* the answer, and whether it is a proxy *)
PApply(st, e) ==
    CASE e.op = "binary" -> LET f == e.a[1] a == IF e.a[2] = "reflected" THEN e.a[4] ELSE e.a[3] b == IF e.a[2] = "reflected" THEN e.a[3] ELSE e.a[4] IN
                            IF b = 0 /\ f \in {"floordiv", "mod", "truediv", "divmod"} THEN One(st, Exc("ZeroDivisionError"))
                            ELSE IF f = "divmod" THEN One(st, Seq_(<<IntSeq(<<4 * (a \div b), 4 * (a % b)>>), Bool_(FALSE)>>))
                            ELSE IF f = "truediv" /\ (4 * a) % b # 0 THEN {[s |-> st, r |-> Seq_(<<<<"float">>, Bool_(e.a[5])>>)]}
                            ELSE One(st, Seq_(<<Int_(Num(f, a, b)), Bool_(e.a[5])>>))
      [] e.op = "compare" -> LET a == IF e.a[2] = "reflected" THEN e.a[4] ELSE e.a[3] b == IF e.a[2] = "reflected" THEN e.a[3] ELSE e.a[4] IN One(st, Bool_(Truth(e.a[1], a, b)))
      (* the proxy stays the same one, and stands for the result *)
      [] e.op = "inplace" -> One(st, Seq_(<<Int_(Num(e.a[1], e.a[3], e.a[4])), Bool_(TRUE)>>))
      [] e.op = "unary" -> LET f == e.a[1] a == e.a[2] v == CASE f = "neg" -> -a [] f = "abs" -> IF a < 0 THEN -a ELSE a [] f = "invert" -> -a - 1 [] OTHER -> a IN
                           One(st, IF f \in {"str", "repr", "format"} THEN Str_(ToString(a))
                                   ELSE IF f = "hex" THEN Str_(Hex(a))
                                   ELSE IF f = "bool" THEN Bool_(a # 0)
                                   ELSE IF f \in {"int", "float", "index", "hash", "complex"} THEN Int_(a)
                                   ELSE Seq_(<<Int_(v), Bool_(e.a[3])>>))
      [] e.op = "matmul" -> One(st, Seq_(<<StrSeq(IF e.a[1] = "reflected" THEN <<"y", "x">> ELSE <<"x", "y">>), Bool_(IF e.a[1] = "inplace" THEN TRUE ELSE e.a[2])>>))
      [] e.op = "async" -> One(st, IF e.a[1] = "for" THEN IntSeq(<<1, 2>>) ELSE IF e.a[1] = "with" THEN StrSeq(<<"enter", "body", "exit">>) ELSE Int_(5))
      [] e.op = "copy" -> One(st, Seq_(<<Int_(e.a[2]), Bool_(TRUE)>>))
      [] e.op = "with" -> One(st, StrSeq(<<"enter", "body", "exit">>))
      [] e.op = "attr" -> One(st, Seq_(<<Int_(3), Int_(3), Exc("AttributeError"), Exc("AttributeError")>>))
      [] e.op = "call" -> One(st, Seq_(<<IntSeq(<<1, 2>>), Seq_(<<Str_("k"), Int_(3)>>)>>))
PInv(st) == TRUE
PStep(st, e, r, t) == TRUE

(* O: a proxied or optional list is the list; an optional of nothing is an empty one                       *)
OCfgs == <<[what |-> "proxy", some |-> TRUE], [what |-> "optional", some |-> TRUE], [what |-> "optional", some |-> FALSE]>>
OInit(cfg) == [what |-> cfg.what, some |-> cfg.some, q |-> <<2, 1>>]
OOps(st) == <<{[op |-> o, a |-> <<>>] : o \in {"len", "bool", "call", "attr", "extract", "order"}} \cup (IF st.some THEN {[op |-> o, a |-> <<>>] : o \in {"iter", "reversed", "sort"}} ELSE {})
              \cup {[op |-> o, a |-> <<k>>] : o \in {"get", "del", "in", "append", "eq"}, k \in {0, 1, 2}} \cup {[op |-> "set", a |-> <<k, 7>>] : k \in {0, 2}}
              \cup (IF st.some THEN {[op |-> "extend", a |-> <<9>>], [op |-> "slice", a |-> <<1>>]} ELSE {})>>
Empty == Str_("empty")
OApply(st, e) ==
    LET n == Len(st.q) out == IF e.a = <<>> THEN FALSE ELSE e.a[1] >= n
        idx(q2, res) == IF ~st.some THEN One(st, IF e.op = "get" THEN Empty ELSE None) ELSE IF out THEN One(st, Exc("IndexError")) ELSE One([st EXCEPT !.q = q2], res) IN
    CASE e.op = "len" -> One(st, Int_(IF st.some THEN n ELSE 0))
      [] e.op = "bool" -> One(st, Bool_(st.some /\ n > 0))
      [] e.op = "call" -> One(st, IF st.some THEN Exc("TypeError") ELSE Empty)
      [] e.op = "attr" -> One(st, IF st.some THEN Exc("AttributeError") ELSE Empty)
      [] e.op = "extract" -> One(st, IF st.some THEN IntSeq(st.q) ELSE None)
      (* <, <=, >, >= with [2, 1] *)
      [] e.op = "order" -> LET lt == IF n = 0 THEN TRUE ELSE IF st.q[1] # 2 THEN st.q[1] < 2 ELSE IF n = 1 THEN TRUE ELSE IF st.q[2] # 1 THEN st.q[2] < 1 ELSE FALSE
                               same == st.q = <<2, 1>> IN
                           One(st, Seq_([k \in 1..4 |-> Bool_(st.some /\ (IF k = 1 THEN lt ELSE IF k = 2 THEN lt \/ same ELSE IF k = 3 THEN ~lt /\ ~same ELSE ~lt))]))
      [] e.op = "iter" -> One(st, IntSeq(st.q))
      [] e.op = "reversed" -> One(st, IntSeq(Reverse(st.q)))
      [] e.op = "sort" -> One([st EXCEPT !.q = SortSeqInts(@)], None)
      [] e.op = "get" -> idx(st.q, IF out THEN None ELSE Int_(st.q[e.a[1] + 1]))
      [] e.op = "del" -> idx(IF out THEN st.q ELSE RemoveAt(st.q, e.a[1] + 1), None)
      [] e.op = "set" -> idx(IF out THEN st.q ELSE [st.q EXCEPT ![e.a[1] + 1] = e.a[2]], None)
      [] e.op = "in" -> One(st, Bool_(st.some /\ e.a[1] \in Range(st.q)))
      [] e.op = "eq" -> One(st, Bool_(st.some /\ st.q = <<2, e.a[1]>>))
      [] e.op = "append" -> IF st.some THEN One([st EXCEPT !.q = Append(@, e.a[1])], None) ELSE One(st, Empty)
      [] e.op = "extend" -> One([st EXCEPT !.q = Append(@, e.a[1])], Bool_(TRUE))
      [] e.op = "slice" -> One(st, IntSeq(SubSeq(st.q, 1, Min2(n, e.a[1]))))
OInv(st) == TRUE
OStep(st, e, r, t) == ~st.some => t = st /\ (r \in {Empty, None, Bool_(FALSE), Int_(0)} \/ e.op = "order")

(* F: frozen things: nothing changes them; equal ones are interchangeable                                  *)
FCfgs == <<[x |-> 0]>>
FInit(cfg) == cfg
FPairs == {<<>>, <<<<1, 2>>>>, <<<<1, 2>>, <<3, 4>>>>, <<<<3, 4>>, <<1, 2>>>>, <<<<1, 3>>>>, <<<<1, 2>>, <<3, 3>>>>}
FOps(st) == <<{[op |-> "frozendict", a |-> <<p, how>>] : p \in FPairs, how \in {"setitem", "delitem", "update", "updatekw", "pop", "popitem", "clear", "setdefault", "ior"}} \cup
              {[op |-> "fcopy", a |-> <<p, how>>] : p \in FPairs, how \in {"copy", "deepcopy", "pickle"}} \cup {[op |-> "fsame", a |-> <<p, q>>] : p \in FPairs, q \in FPairs} \cup
              {[op |-> "fread", a |-> <<p>>] : p \in FPairs} \cup
              {[op |-> "immutable", a |-> <<how, slots>>] : how \in {"set", "setnew", "del", "delnew", "aug"}, slots \in BOOLEAN} \cup {[op |-> "icopy", a |-> <<how, slots>>] : how \in {"copy", "deepcopy"}, slots \in BOOLEAN} \cup
              {[op |-> "ifailed", a |-> <<>>]} \cup
              {[op |-> "hashable", a |-> <<x, y>>] : x \in {"d1", "d2", "i", "t"}, y \in {"d1", "d2", "i", "t"}} \cup {[op |-> "unequal", a |-> <<x>>] : x \in {1, 2}}>>
AsSet(p) == Range(p)
PairsOf(p) == Seq_([k \in 1..Len(p) |-> IntSeq(p[k])])
FApply(st, e) ==
    CASE e.op = "frozendict" -> One(st, Seq_(<<Exc("TypeError"), PairsOf(e.a[1])>>))
      [] e.op = "fcopy" -> One(st, Seq_(<<PairsOf(e.a[1]), Bool_(TRUE), Bool_(TRUE), Exc("TypeError")>>))
      (* equal, same hash if so, one key of a dictionary *)
      [] e.op = "fsame" -> LET same == AsSet(e.a[1]) = AsSet(e.a[2]) IN One(st, Seq_(<<Bool_(same), Bool_(TRUE), Int_(IF same THEN 1 ELSE 2)>>))
      [] e.op = "fread" -> One(st, Seq_(<<Int_(Len(e.a[1])), PairsOf(e.a[1]), IF Len(e.a[1]) = 0 THEN Exc("KeyError") ELSE Int_(e.a[1][1][2])>>))
      [] e.op = "immutable" -> One(st, Seq_(<<Exc("TypeError"), Int_(5)>>))
      [] e.op = "icopy" -> One(st, Seq_(<<Int_(5), Exc("TypeError")>>))
      [] e.op = "ifailed" -> One(st, Seq_(<<Exc("ValueError"), Int_(5)>>))
      (* equal, unequal, one key of a dictionary? *)
      [] e.op = "hashable" -> LET same == e.a[1] = e.a[2] IN One(st, Seq_(<<Bool_(same), Bool_(~same), Bool_(TRUE)>> \o <<Int_(IF same THEN 1 ELSE 2)>>))
      [] e.op = "unequal" -> One(st, Seq_(<<Bool_(FALSE), Bool_(TRUE), Bool_(FALSE)>>))
FInv(st) == TRUE
FStep(st, e, r, t) == TRUE

(* T: named tuples with types, vectors, zipped sets *)
TCfgs == <<[x |-> 0]>>
TInit(cfg) == cfg
Vs == {<<>>, <<1>>, <<3, -2>>, <<0, 5>>, <<4, 4, 8>>}
Values == {<<"i", 5>>, <<"s", 7>>, <<"h", 3>>}
TOps(st) == <<{[op |-> "vector", a |-> <<f, a, b>>] : f \in {"add", "sub", "iadd", "isub"}, a \in Vs, b \in {v \in Vs : TRUE}} \cup
              {[op |-> "scale", a |-> <<f, a, n>>] : f \in {"mul", "truediv", "imul", "itruediv"}, a \in Vs, n \in {1, 2, 4}} \cup
              {[op |-> "setzip", a |-> <<a, b, c>>] : a \in Vs, b \in Vs, c \in Vs} \cup
              {[op |-> "tuple", a |-> <<pos, kw>>] : pos \in {<<>>} \cup {<<x>> : x \in Values} \cup {<<x, y>> : x \in Values, y \in Values} \cup {<<x, <<"i", 1>>, <<"i", 2>>>> : x \in Values} \cup {<<<<"bad", 0>>>>, <<<<"i", 1>>, <<"bad", 0>>>>},
                                                      kw \in {<<>>, <<"y">>, <<"x">>, <<"x", "y">>, <<"z">>, <<"y", "z">>}} \cup
              {[op |-> "subclass", a |-> <<>>]}>>
(* one field is an int, the other a float; in halves *)
Half(v) == CASE v[1] = "i" -> 2 * v[2] [] v[1] = "s" -> 2 * v[2] [] v[1] = "h" -> v[2]
Whole(v) == CASE v[1] = "h" -> 2 * (v[2] \div 2) [] OTHER -> Half(v)
TApply(st, e) ==
    CASE e.op = "vector" -> IF Len(e.a[2]) # Len(e.a[3]) THEN {} ELSE
                            One(st, Seq_(<<Bool_(TRUE)>> \o [k \in 1..Len(e.a[2]) |-> Int_(IF e.a[1] \in {"add", "iadd"} THEN e.a[2][k] + e.a[3][k] ELSE e.a[2][k] - e.a[3][k])]))
      [] e.op = "scale" -> One(st, Seq_(<<Bool_(TRUE)>> \o [k \in 1..Len(e.a[2]) |-> Int_(IF e.a[1] \in {"mul", "imul"} THEN 4 * e.a[2][k] * e.a[3] ELSE (4 * e.a[2][k]) \div e.a[3])]))
      [] e.op = "setzip" -> LET S == Range(e.a[1]) \cup Range(e.a[2]) \cup Range(e.a[3]) IN
                            One(st, Seq_(<<Int_(Cardinality(Range(e.a[1])) + Cardinality(Range(e.a[2])) + Cardinality(Range(e.a[3]))), IntSeq(SortInts(S)), Seq_([k \in 1..8 |-> Bool_((k - 3) \in S)])>>))
      [] e.op = "tuple" -> LET pos == e.a[1] kw == e.a[2] n == Len(pos)
                               needed == {"x", "y"} \ (IF n = 0 THEN {} ELSE IF n = 1 THEN {"x"} ELSE {"x", "y"}) IN
                           IF n > 2 \/ Range(kw) # needed THEN {[s |-> st, r |-> Exc(x)] : x \in {"TypeError"} \cup (IF \E k \in 1..n : pos[k][1] = "bad" THEN {"ValueError"} ELSE {})}
                           ELSE IF \E k \in 1..n : pos[k][1] = "bad" THEN One(st, Exc("ValueError"))
                           ELSE LET x == IF n > 0 THEN pos[1] ELSE <<"s", 7>> y == IF n > 1 THEN pos[2] ELSE <<"s", 7>> IN
                                (* both in halves, their types, that it is of the type made, and a tuple *)
                                One(st, Seq_(<<Int_(Whole(x)), Int_(Half(y)), Str_("int"), Str_("float"), Bool_(TRUE), Bool_(TRUE)>>))
      [] e.op = "subclass" -> One(st, Seq_(<<Int_(8), Bool_(TRUE), Str_("tnt(x=3, y=5.0)"), Str_("tnt")>>))
TInv(st) == TRUE
TStep(st, e, r, t) == TRUE
=============================================================================
