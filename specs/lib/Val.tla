-------------------------------- MODULE Val --------------------------------
(* Tagged values, as the drivers encode what the implementation answered.  The tag comes first, so two *)
(* values of different kinds always compare (as different) in TLC.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
None == <<"none">>
Int_(n) == <<"int", n>>
Bool_(b) == <<"bool", b>>
Str_(x) == <<"str", x>>
Exc(x) == <<"exc", x>>
Seq_(q) == <<"seq">> \o q
IntSeq(q) == <<"seq">> \o [k \in 1..Len(q) |-> Int_(q[k])]
StrSeq(q) == <<"seq">> \o [k \in 1..Len(q) |-> Str_(q[k])]

Range(q) == {q[k] : k \in 1..Len(q)}
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE SortInts(_)
SortInts(S) == IF S = {} THEN <<>> ELSE LET m == MinOf(S) IN <<m>> \o SortInts(S \ {m})
RemoveAt(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
InsertAt(q, k, x) == SubSeq(q, 1, k - 1) \o <<x>> \o SubSeq(q, k, Len(q))
IndexOf(q, x) == IF \E k \in 1..Len(q) : q[k] = x THEN CHOOSE k \in 1..Len(q) : q[k] = x /\ \A j \in 1..(k - 1) : q[j] # x ELSE 0
Reverse(q) == [k \in 1..Len(q) |-> q[Len(q) - k + 1]]
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
FilterSeq(q, P(_)) == SelectSeq(q, P)
InsSorted(q, x, Leq(_, _)) == LET n == Len(SelectSeq(q, LAMBDA y : ~Leq(x, y))) IN InsertAt(q, n + 1, x)
RECURSIVE SortSeqInts(_)
SortSeqInts(q) == IF q = <<>> THEN <<>>
                  ELSE LET m == MinOf(Range(q)) k == IndexOf(q, m) IN <<m>> \o SortSeqInts(RemoveAt(q, k))
FnDel(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
FnSet(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
One(st, res) == {[s |-> st, r |-> res]}
=============================================================================
