------------------------------- MODULE Memory -------------------------------
(* memory pressure: the level follows memory, step by step; sizes of objects; dumps                         *)
EXTENDS Val
Total == 128
Most == 64
RECURSIVE Holds(_, _)
Holds(c, st) ==
    CASE c[1] = "ga" -> st.avail < c[2] [] c[1] = "gr" -> st.avail * 100 < c[2] * Total
      [] c[1] = "la" -> Most - st.rss < c[2] [] c[1] = "lr" -> (Most - st.rss) * 100 < c[2] * Most
      [] c[1] = "custom" -> st.f[c[2]]
      [] c[1] = "not" -> ~Holds(c[2], st)
      [] c[1] = "any" -> \E k \in 2..Len(c) : Holds(c[k], st)
      [] c[1] = "all" -> \A k \in 2..Len(c) : Holds(c[k], st)
PCfgs == <<[levels |-> <<<<"custom", 1>>, <<"custom", 2>>>>], [levels |-> <<<<"lr", 50>>, <<"la", 16>>>>], [levels |-> <<<<"gr", 50>>, <<"ga", 32>>, <<"all", <<"custom", 1>>, <<"ga", 32>>>>>>],
            [levels |-> <<<<"any", <<"custom", 1>>, <<"custom", 2>>>>, <<"not", <<"any", <<"custom", 1>>, <<"gr", 25>>>>>>, <<"all", <<"not", <<"custom", 2>>>>, <<"custom", 1>>>>>>], [levels |-> <<>>]>>
(* as the conditions are ordered, the most severe one that holds counts *)
Level(st) == LET s == {k \in 1..Len(st.levels) : Holds(st.levels[k], st)} IN IF s = {} THEN 0 ELSE MaxOf(s)
(* it is checked at once when made *)
PInit(cfg) == LET st == [levels |-> cfg.levels, level |-> 0, stop |-> FALSE, rss |-> 0, avail |-> Total, f |-> <<FALSE, FALSE>>, cbs |-> <<>>, t |-> 0] IN [st EXCEPT !.level = Level(st)]
(* a callback: its kind, level, whether it is there, how often it can be called at most and when it was last *)
Due(st, c) == c.iv = 0 \/ c.last = 0 - 1 \/ st.t - c.last >= c.iv
Called(st, kind, lv) == SelectSeq([k \in 1..Len(st.cbs) |-> k], LAMBDA k : st.cbs[k].k = kind /\ st.cbs[k].lv = lv /\ st.cbs[k].on /\ Due(st, st.cbs[k]))
Ev(st, kind, lv, seen) == LET q == Called(st, kind, lv) IN [k \in 1..Len(q) |-> Seq_(<<Str_(kind), Int_(q[k]), Int_(seen)>>)]
RECURSIVE Moves(_, _, _)
Moves(st, from, to) ==
    IF from = to THEN <<>>
    ELSE IF from < to THEN Ev(st, "entered", from + 1, from + 1) \o Ev(st, "cleanup", from + 1, from + 1) \o Moves(st, from + 1, to)
    ELSE Ev(st, "left", from, from) \o (IF from = 1 THEN Ev(st, "normal", 0, 0) ELSE <<>>) \o Moves(st, from - 1, to)
PLoop(st0) ==
    LET st == [st0 EXCEPT !.t = @ + 10] new == Level(st)
        evs == IF new = st.level THEN Ev(st, "remains", new, new) ELSE Moves(st, st.level, new)
        ran == IF new = st.level THEN Range(Called(st, "remains", new)) ELSE {}
    IN IF st.stop THEN One(st, Seq_(<<>>))
       ELSE One([st EXCEPT !.level = new, !.cbs = [k \in 1..Len(st.cbs) |-> [st.cbs[k] EXCEPT !.last = IF k \in ran THEN st.t ELSE @]]], Seq_(evs))
Kinds == {"entered", "left", "remains"}
POps(st) == LET n == Len(st.levels) IN
            <<{[op |-> "mem", a |-> <<x, y>>] : x \in IF n = 2 THEN {31, 32, 33, 48, 49} ELSE {10}, y \in IF n = 3 THEN {31, 32, 63, 64} ELSE {128}}, {[op |-> "flag", a |-> <<i>>] : i \in 1..2},
              {[op |-> o, a |-> <<>>] : o \in {"loop", "stop", "resume"}},
              {[op |-> "register", a |-> <<k, lv, iv>>] : k \in IF Len(st.cbs) < 2 THEN Kinds ELSE {}, lv \in 0..n, iv \in {0, 15}},
              {[op |-> "register", a |-> <<k, lv, 0>>] : k \in IF Len(st.cbs) < 2 THEN {"normal", "cleanup"} ELSE {}, lv \in {1}}, {[op |-> "cancel", a |-> <<i>>] : i \in 1..Len(st.cbs)}>>
PApply(st, e) ==
    CASE e.op = "mem" -> One([st EXCEPT !.rss = e.a[1], !.avail = e.a[2]], None)
      [] e.op = "flag" -> One([st EXCEPT !.f[e.a[1]] = ~@], None)
      [] e.op = "stop" -> One([st EXCEPT !.stop = TRUE], None)
      [] e.op = "resume" -> One([st EXCEPT !.stop = FALSE], None)
      [] e.op = "level" -> One(st, Int_(st.level))
      [] e.op = "register" -> LET lv == IF e.a[1] = "normal" THEN 0 ELSE e.a[2] IN
                              IF lv > Len(st.levels) THEN One(st, Exc("IndexError"))
                              ELSE One([st EXCEPT !.cbs = Append(@, [k |-> e.a[1], lv |-> lv, on |-> TRUE, iv |-> IF e.a[1] = "remains" THEN e.a[3] ELSE 0, last |-> 0 - 1])], Int_(Len(st.cbs) + 1))
      [] e.op = "cancel" -> One([st EXCEPT !.cbs[e.a[1]].on = FALSE], None)
      [] e.op = "loop" -> PLoop(st)
PInv(st) == st.level \in 0..Len(st.levels)
PStep(st, e, r, t) == t.level # st.level => e.op = "loop" /\ ~st.stop

(* G: what is reachable of an object counts once.  Node k has children kids[k], and 4 to the power of k-1 in a leaf of its own *)
GCfgs == <<[x |-> 0]>>
GInit(cfg) == cfg
NodeKinds == {"list", "dict", "object", "sub", "tuple", "subdict", "deque"}
GOps(st) == <<{[op |-> "size", a |-> <<<<k1, k2>>, <<IF l1 THEN <<1, 2>> ELSE <<2>>, IF l2 = 2 THEN <<1>> ELSE IF l2 = 1 THEN <<2, 2>> ELSE <<>>>>, 1>>] :
                  k1 \in NodeKinds \ {"tuple"}, k2 \in NodeKinds \ {"tuple"}, l1 \in BOOLEAN, l2 \in 0..2},
              {[op |-> "size", a |-> <<<<k1, "tuple">>, <<<<2>>, <<>>>>, 1>>] : k1 \in NodeKinds}, {[op |-> "untouched", a |-> <<h>>] : h \in {"iterator", "generator"}}>>
RECURSIVE Reach(_, _)
Reach(kids, s) == LET t == s \cup UNION {Range(kids[k]) : k \in s} IN IF t = s THEN s ELSE Reach(kids, t)
GApply(st, e) == CASE e.op = "size" -> One(st, IntSeq([k \in 1..Len(e.a[1]) |-> IF k \in Reach(e.a[2], {e.a[3]}) THEN 1 ELSE 0]))
                   [] e.op = "untouched" -> One(st, IntSeq(<<1, 2, 3>>))
GInv(st) == TRUE
GStep(st, e, r, t) == TRUE

(* U: dumps name everything there is *)
UCfgs == GCfgs
UInit(cfg) == cfg
Kinds2 == <<"A", "B", "C", "mute", "unsized">>
Size(k) == CASE k = 1 -> 10 [] k = 2 -> 25 [] k = 3 -> 41 [] k = 4 -> 7 [] k = 5 -> 0
UOps(st) == <<{[op |-> "memory", a |-> <<q>>] : q \in UNION {[1..n -> 1..5] : n \in 0..3}}, {[op |-> "frames", a |-> <<n>>] : n \in 0..3}>>
Count(q, k) == Len(SelectSeq(q, LAMBDA x : x = k))
UApply(st, e) ==
    CASE e.op = "memory" -> LET q == e.a[1] there == {k \in 1..5 : Count(q, k) > 0}
                                sorted == SortSeqInts([j \in 1..Cardinality(there) |-> SortInts({(Size(k) * Count(q, k)) * 10 + k : k \in there})[j]])
                                down == Reverse(sorted)
                            IN One(st, Seq_(<<Int_(Len(q))>> \o [j \in 1..Len(down) |-> LET k == down[j] % 10 IN Seq_(<<Str_(Kinds2[k]), Int_(Size(k) * Count(q, k)), Int_(Count(q, k))>>)]))
      [] e.op = "frames" -> One(st, IntSeq([k \in 1..e.a[1] |-> k]))
UInv(st) == TRUE
UStep(st, e, r, t) == TRUE
=============================================================================
