------------------------------- MODULE Queue -------------------------------
(* PeekableQueue (satella.coding.concurrent.queue): one FIFO sequence.  get/peek take a timeout in      *)
(* milliseconds, -1 = wait for as long as it takes.  Where the recorder supplies clocks (c = at the     *)
(* call, rc = at its end), Empty may be answered only after the timeout has really elapsed, and an item  *)
(* whose insertion ended before that moment may not have been overlooked.                               *)
EXTENDS Val
Timed(e) == "rc" \in DOMAIN e
\* sharp (z = 1): the clock moves only when nobody can run, so that a wait ends no later than its timeout
QInit(cfg) == [q |-> <<>>, le |-> 0, sharp |-> cfg.z = 1]     \* le: the latest instant at which the queue is known to have been empty
QPut(st, e, xs) == IF xs # <<>> /\ Timed(e) /\ e.rc < st.le THEN {} ELSE One([st EXCEPT !.q = @ \o xs], None)
Late(st, e) == st.sharp /\ Timed(e) /\ e.a[1] >= 0 /\ e.r[1] # "pending" /\ e.rc > e.c + e.a[1] + 2
QEmpty(st, e) == IF e.a[1] < 0 THEN {}
                 ELSE IF ~Timed(e) THEN One(st, Exc("Empty"))
                 ELSE IF e.rc < e.c + e.a[1] \/ Late(st, e) THEN {}
                 ELSE One([st EXCEPT !.le = Max2(@, e.c + e.a[1])], Exc("Empty"))
QApply(st, e) ==
  CASE e.op = "put" -> QPut(st, e, <<e.a[1]>>)
    [] e.op = "put_many" -> QPut(st, e, e.a[1])
    [] e.op = "get" -> IF Late(st, e) THEN {} ELSE IF st.q # <<>> THEN One([st EXCEPT !.q = Tail(@)], Int_(Head(st.q))) ELSE QEmpty(st, e)
    [] e.op = "peek" -> IF Late(st, e) THEN {} ELSE IF st.q # <<>> THEN One(st, Int_(Head(st.q))) ELSE QEmpty(st, e)
    [] e.op = "qsize" -> One(st, Int_(Len(st.q)))
    [] e.op = "sleep" -> One(st, None)
    [] OTHER -> {}
QStep(st, e, r, t) ==
  /\ (e.op = "get" /\ r[1] = "int") => st.q = <<r[2]>> \o t.q
  /\ (e.op = "peek" /\ r[1] = "int") => st.q = t.q /\ st.q[1] = r[2]
  /\ e.op \in {"put", "put_many"} => SubSeq(t.q, 1, Len(st.q)) = st.q
QInv(st) == TRUE
QCfgs == <<[z |-> 0]>>
QOps(st) == << {[op |-> "put", a |-> <<x>>] : x \in 1..2},
               {[op |-> "put_many", a |-> <<xs>>] : xs \in {<<>>, <<3>>, <<2, 1>>, <<1, 2, 3>>}},
               {[op |-> o, a |-> <<t>>] : o \in {"get", "peek"}, t \in {-1, 0, 1500}},
               {[op |-> "qsize", a |-> <<>>]} >>
=============================================================================
