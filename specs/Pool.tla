--------------------------------- MODULE Pool ---------------------------------
(* CPManager: a pool of connections, numbered as they are created.                                                                                 *)
(* use: connection -> how many times it has been taken (those that are alive), idle: those in the pool, bad: those that failed, torn: those torn down (once each) *)
EXTENDS Val
CInit(cfg) == [use |-> <<>>, idle |-> {}, bad |-> {}, torn |-> {}, closed |-> FALSE, c |-> cfg]
MaxConn == 8
Fresh(st) == (1..MaxConn) \ (DOMAIN st.use \cup st.torn)
\* numbers are given in order, but when several are being created any of the next ones may be first
NextNo(st) == IF st.c.seq THEN (IF Fresh(st) = {} THEN {} ELSE {MinOf(Fresh(st))}) ELSE Fresh(st)
Out(st) == DOMAIN st.use \ st.idle
CApply(st, e) ==
  LET k == IF e.a = <<>> THEN 0 ELSE e.a[1] IN
  CASE e.op = "take" -> IF st.closed THEN One(st, Exc("RuntimeError"))
                        ELSE IF st.idle # {} THEN {[s |-> [st EXCEPT !.idle = @ \ {x}, !.use = [@ EXCEPT ![x] = @ + 1]], r |-> Int_(x)] : x \in st.idle}
                        ELSE {[s |-> [st EXCEPT !.use = FnSet(@, x, 1)], r |-> Int_(x)] : x \in NextNo(st)}
    \* creating a connection fails
    [] e.op = "takefail" -> IF st.closed THEN One(st, Exc("RuntimeError"))
                        ELSE IF st.idle # {} THEN {[s |-> [st EXCEPT !.idle = @ \ {x}, !.use = [@ EXCEPT ![x] = @ + 1]], r |-> Int_(x)] : x \in st.idle}
                        ELSE One(st, Exc("OSError"))
    \* the connection which the caller holds is a[1] - the number of the connection
    [] e.op = "give" -> IF k \notin Out(st) THEN {} ELSE
                        IF st.use[k] >= st.c.cycles \/ k \in st.bad \/ Cardinality(st.idle) >= st.c.max THEN One([st EXCEPT !.use = FnDel(@, k), !.torn = @ \cup {k}], None)
                        ELSE One([st EXCEPT !.idle = @ \cup {k}], None)
    [] e.op = "fail" -> IF k \notin Out(st) THEN {} ELSE One([st EXCEPT !.bad = @ \cup {k}], None)
    \* one turn of a user: take, maybe fail, give back
    [] e.op = "invalidate" -> One([st EXCEPT !.use = [x \in Out(st) |-> @[x]], !.torn = @ \cup st.idle, !.idle = {}], None)
    [] e.op = "close" -> One([st EXCEPT !.use = [x \in Out(st) |-> @[x]], !.torn = @ \cup st.idle, !.idle = {}, !.closed = TRUE], None)
    [] e.op = "torn" -> One(st, IntSeq(SortInts(st.torn)))
    [] OTHER -> {}
CInv(st) == /\ st.idle \subseteq DOMAIN st.use /\ DOMAIN st.use \cap st.torn = {} /\ Cardinality(st.idle) <= st.c.max
            /\ st.bad \cap st.idle = {} /\ \A x \in DOMAIN st.use : st.use[x] <= st.c.cycles
\* nobody gets a connection somebody else has, one that failed, or one that was torn down
CStep(st, e, r, t) == e.op = "take" /\ r[1] = "int" => r[2] \notin Out(st) \cup st.torn \cup st.bad
CCfgs == <<[max |-> 1, cycles |-> 2, seq |-> TRUE], [max |-> 2, cycles |-> 3, seq |-> TRUE]>>
COps(st) == << {[op |-> o, a |-> <<>>] : o \in {"take", "takefail", "invalidate", "close"}}, {[op |-> o, a |-> <<x>>] : o \in {"give", "fail"}, x \in IF st.closed THEN {} ELSE Out(st)} >>
===============================================================================
