-------------------------------- MODULE Sparse --------------------------------
(* SparseMatrix: m: <<column, row>> -> value, counted from 0; everything else is None.  The size is the bounding box of what is defined. *)
(* alt: a second matrix, kept to compare with                                                                                             *)
EXTENDS Val
MInit(cfg) == [m |-> <<>>, alt |-> <<>>]
Cols(m) == IF DOMAIN m = {} THEN 0 ELSE 1 + MaxOf({p[1] : p \in DOMAIN m})
Rows(m) == IF DOMAIN m = {} THEN 0 ELSE 1 + MaxOf({p[2] : p \in DOMAIN m})
At(m, c, r) == IF <<c, r>> \in DOMAIN m THEN Int_(m[<<c, r>>]) ELSE None
Row(m, r) == <<"seq">> \o [j \in 1..Cols(m) |-> At(m, j - 1, r)]
Col(m, c) == <<"seq">> \o [j \in 1..Rows(m) |-> At(m, c, j - 1)]
All(m) == <<"seq">> \o [j \in 1..Rows(m) |-> Row(m, j - 1)]
\* -99 stands for None
Put(m, c, r, v) == IF v = -99 THEN FnDel(m, <<c, r>>) ELSE FnSet(m, <<c, r>>, v)
RECURSIVE PutRow(_, _, _, _)
PutRow(m, c, r, q) == IF q = <<>> THEN m ELSE PutRow(Put(m, c, r, q[1]), c + 1, r, Tail(q))
RECURSIVE PutCol(_, _, _, _)
PutCol(m, c, r, q) == IF q = <<>> THEN m ELSE PutCol(Put(m, c, r, q[1]), c, r + 1, Tail(q))
RECURSIVE PutAll(_, _, _)
PutAll(m, r, q) == IF q = <<>> THEN m ELSE PutAll(PutRow(m, 0, r, q[1]), r + 1, Tail(q))
Norm(x, n) == IF x < 0 THEN x + n ELSE x
Keep(m, P(_)) == [p \in {x \in DOMAIN m : P(x)} |-> m[p]]
Vals(m) == {m[p] : p \in DOMAIN m}
Near(m, c, r, diag) == {p \in (0..(Cols(m) - 1)) \X (0..(Rows(m) - 1)) : p # <<c, r>> /\ (p[1] - c) \in -1..1 /\ (p[2] - r) \in -1..1 /\ (diag \/ p[1] = c \/ p[2] = r)}
RECURSIVE SortPairs(_)
SortPairs(S) == IF S = {} THEN <<>> ELSE LET a == CHOOSE x \in S : \A y \in S : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2]) IN <<<<"seq", Int_(a[1]), Int_(a[2])>>>> \o SortPairs(S \ {a})
Err(st) == One(st, Exc("IndexError"))
MApply(st, e) ==
  LET m == st.m nc == Cols(m) nr == Rows(m) a == e.a
      Set(x) == One([st EXCEPT !.m = x], None) IN
  CASE e.op = "set" -> LET c == Norm(a[1], nc) r == Norm(a[2], nr) IN IF c < 0 \/ r < 0 THEN Err(st) ELSE Set(Put(m, c, r, a[3]))
    [] e.op = "get" -> LET c == Norm(a[1], nc) r == Norm(a[2], nr) IN IF c < 0 \/ r < 0 \/ c >= nc \/ r >= nr THEN Err(st) ELSE One(st, At(m, c, r))
    [] e.op = "del" -> LET c == Norm(a[1], nc) r == Norm(a[2], nr) IN IF c < 0 \/ r < 0 THEN Err(st) ELSE Set(Put(m, c, r, -99))
    [] e.op = "setrow" -> LET r == Norm(a[1], nr) IN IF r < 0 THEN Err(st) ELSE Set(PutRow(m, 0, r, a[2]))
    [] e.op = "setcol" -> LET c == Norm(a[1], nc) IN IF c < 0 THEN Err(st) ELSE Set(PutCol(m, c, 0, a[2]))
    [] e.op \in {"setall", "from", "new"} -> Set(PutAll(<<>>, 0, a[1]))
    [] e.op = "getrow" -> LET r == Norm(a[1], nr) IN IF r >= 0 /\ nr = 0 THEN One(st, <<"seq">>) ELSE IF r < 0 \/ r >= nr THEN Err(st) ELSE One(st, Row(m, r))
    [] e.op = "getcol" -> LET c == Norm(a[1], nc) IN IF c >= 0 /\ nc = 0 THEN One(st, <<"seq">>) ELSE IF c < 0 \/ c >= nc THEN Err(st) ELSE One(st, Col(m, c))
    [] e.op = "delrow" -> LET r == Norm(a[1], nr) IN IF r < 0 THEN Err(st) ELSE Set(Keep(m, LAMBDA p : p[2] # r))
    [] e.op = "delcol" -> LET c == Norm(a[1], nc) IN IF c < 0 THEN Err(st) ELSE Set(Keep(m, LAMBDA p : p[1] # c))
    [] e.op \in {"delall", "clear"} -> Set(<<>>)
    [] e.op = "delete_row" -> Set(Keep(m, LAMBDA p : p[2] # a[1]))
    [] e.op = "append" -> Set(PutRow(m, 0, nr, a[1]))
    [] e.op = "shoot" -> Set([p \in {<<2 * x[1], 2 * x[2]>> : x \in DOMAIN m} |-> m[<<p[1] \div 2, p[2] \div 2>>]])
    [] e.op = "all" -> One(st, All(m))
    [] e.op = "size" -> One(st, IntSeq(<<nc, nr, nr>>))
    [] e.op = "bool" -> One(st, Bool_(DOMAIN m # {}))
    [] e.op = "max" -> IF DOMAIN m = {} THEN {} ELSE One(st, Int_(MaxOf(Vals(m))))
    [] e.op = "min" -> IF DOMAIN m = {} THEN {} ELSE One(st, Int_(MinOf(Vals(m))))
    [] e.op = "near" -> One(st, <<"seq">> \o SortPairs(Near(m, a[1], a[2], a[3])))
    [] e.op = "keep" -> One([st EXCEPT !.alt = m], None)
    [] e.op = "eq" -> One(st, Bool_(m = st.alt))
    [] OTHER -> {}
MInv(st) == TRUE
MStep(st, e, r, t) == r[1] = "exc" => t = st
MCfgs == <<[z |-> 0]>>
MOps(st) == << {[op |-> "set", a |-> <<c, r, v>>] : c \in {0, 2, -1}, r \in {0, 1, -1}, v \in {3, -99}},
               {[op |-> "setrow", a |-> <<r, q>>] : r \in {1, -1}, q \in {<<4, -99, 5>>}}, {[op |-> "setcol", a |-> <<c, <<-99, 6>>>>] : c \in {1, -2}}, {[op |-> "setall", a |-> <<<<<<1, -99>>, <<>>, <<0, 2>>>>>>]},
               {[op |-> o, a |-> <<x>>] : o \in {"delrow", "delcol"}, x \in {0, -1}}, {[op |-> "delete_row", a |-> <<1>>]}, {[op |-> "append", a |-> <<<<-99, 7>>>>]}, {[op |-> "shoot", a |-> <<>>]},
               {[op |-> "keep", a |-> <<>>]} >>
===============================================================================
