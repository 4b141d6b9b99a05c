-------------------------------- MODULE Series --------------------------------
(* SyncableDroppable: a time series, partly in a database and partly in memory.                                                           *)
(* db, mem: sequences of <<key, value>>; sy: the key up to which it is synchronized (-1: never); cfg.sm, cfg.sd: spans to keep in memory and in the database *)
EXTENDS Val
DInit(cfg) == [db |-> <<>>, mem |-> <<>>, sy |-> -1, c |-> cfg]
All(st) == st.db \o st.mem
Has(st) == All(st) # <<>>
Stop(st) == All(st)[Len(All(st))][1]
Start(st) == All(st)[1][1]
K(b, x) == IF b THEN Int_(x) ELSE None
Pairs(q) == <<"seq">> \o [i \in DOMAIN q |-> <<"seq", Int_(q[i][1]), Int_(q[i][2])>>]
Unsynced(st) == SelectSeq(All(st), LAMBDA p : p[1] > st.sy)
First(q, n) == IF n = 0 \/ Len(q) <= n THEN q ELSE SubSeq(q, 1, n)
DApply(st, e) ==
  LET a == e.a IN
  CASE e.op = "new" -> IF Has(st) /\ a[1] <= Stop(st) THEN One(st, Exc("ValueError")) ELSE One([st EXCEPT !.mem = Append(@, <<a[1], a[2]>>)], None)
    [] e.op = "store" -> One([st EXCEPT !.db = All(st), !.mem = <<>>], None)
    [] e.op = "trimmem" -> IF st.mem = <<>> THEN One(st, None) ELSE
                           LET cut == Stop(st) - st.c.sm IN
                           One([st EXCEPT !.db = @ \o SelectSeq(st.mem, LAMBDA p : p[1] < cut), !.mem = SelectSeq(@, LAMBDA p : p[1] >= cut)], None)
    \* storing all, or what is to be trimmed from the memory, when the database fails to store more than a[1]: the first a[1] ones are stored
    [] e.op = "storefail" -> LET n == Min2(a[1], Len(st.mem)) IN
                             One([st EXCEPT !.db = @ \o SubSeq(st.mem, 1, n), !.mem = SubSeq(@, n + 1, Len(@))], IF n < Len(st.mem) THEN Exc("OSError") ELSE None)
    [] e.op = "trimfail" -> IF st.mem = <<>> THEN One(st, None) ELSE
                             LET old == Len(SelectSeq(st.mem, LAMBDA p : p[1] < Stop(st) - st.c.sm)) n == Min2(a[1], old) IN
                             One([st EXCEPT !.db = @ \o SubSeq(st.mem, 1, n), !.mem = SubSeq(@, n + 1, Len(@))], IF n < old THEN Exc("OSError") ELSE None)
    [] e.op = "trimdb" -> IF ~Has(st) THEN One(st, None) ELSE
                          LET cut == Stop(st) - st.c.sd IN
                          \* what is in memory is dropped only when nothing remains in the database
                          LET d == SelectSeq(st.db, LAMBDA p : p[1] >= cut) IN
                          One([st EXCEPT !.db = d, !.mem = IF d = <<>> THEN SelectSeq(@, LAMBDA p : p[1] >= cut) ELSE @], None)
    [] e.op = "archive" -> One(st, Pairs(SelectSeq(All(st), LAMBDA p : p[1] >= a[1] /\ p[1] <= a[2])))
    [] e.op = "latest" -> IF Has(st) THEN One(st, <<"seq", Int_(Stop(st)), Int_(All(st)[Len(All(st))][2])>>) ELSE One(st, Exc("ValueError"))
    \* a[1]: at most how many (0: any number)
    [] e.op = "request" -> IF Unsynced(st) = <<>> THEN One(st, Exc("ValueError")) ELSE One(st, Pairs(First(Unsynced(st), a[1])))
    \* everything that a request gave has been synchronized
    [] e.op = "synced" -> IF Unsynced(st) = <<>> THEN One(st, None) ELSE LET q == First(Unsynced(st), a[1]) IN One([st EXCEPT !.sy = q[Len(q)][1]], None)
    \* a new object for what is in the database, made of what the callbacks said
    [] e.op = "restart" -> One([st EXCEPT !.db = All(st), !.mem = <<>>], None)
    \* the beginning and the end, by the object and by the callbacks; how far it is synchronized, the database, the memory
    [] e.op = "state" -> One(st, <<"seq", K(Has(st), IF Has(st) THEN Start(st) ELSE 0), K(Has(st), IF Has(st) THEN Stop(st) ELSE 0), K(st.sy # -1, st.sy), Pairs(st.db), Pairs(st.mem)>>)
    \* everything there is
    [] e.op = "whole" -> One(st, Pairs(All(st)))
    [] OTHER -> {}
Ordered(q) == \A i \in 1..(Len(q) - 1) : q[i][1] < q[i + 1][1]
DInv(st) == Ordered(All(st))
\* nothing is lost except by trimming the database, and then only what is too old
DStep(st, e, r, t) == /\ e.op \notin {"trimdb", "new"} => All(t) = All(st)
                      /\ e.op = "trimdb" => \A i \in DOMAIN All(st) : All(st)[i] \in Range(All(t)) \/ All(st)[i][1] < Stop(st) - st.c.sd
                      /\ e.op = "trimmem" => \A i \in DOMAIN t.mem : t.mem[i][1] >= Stop(t) - t.c.sm
DCfgs == <<[sm |-> 3, sd |-> 6]>>
Next0(st) == IF Has(st) THEN Stop(st) ELSE 0
DOps(st) == << IF Next0(st) > 12 THEN {} ELSE {[op |-> "new", a |-> <<Next0(st) + d, 5 + d>>] : d \in {0, 1, 3, 5}}, {[op |-> o, a |-> <<>>] : o \in {"store", "trimmem", "trimdb", "restart"}}, {[op |-> o, a |-> <<n>>] : o \in {"storefail", "trimfail"}, n \in {j \in 0..1 : j < Len(st.mem)}},
               {[op |-> "synced", a |-> <<n>>] : n \in {0, 1, 2}} >>
===============================================================================
