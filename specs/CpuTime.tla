------------------------------ MODULE CpuTime ------------------------------
(* how busy the processors were; sleeping for as long as they are; threads that are called sooner            *)
EXTENDS Val
Max2i(a, b) == IF a > b THEN a ELSE b
(* O: time in units of 100 ms; cum is the work done so far, load units a unit of time, of 4 at most        *)
OCfgs == <<[os |-> "linux"], [os |-> "old"], [os |-> "unix"], [os |-> "windows"]>>
OInit(cfg) == [os |-> cfg.os, now |-> 0, load |-> 0, cum |-> 0, prev |-> 0 - 1, pcum |-> 0]
Pass(st, n) == [st EXCEPT !.now = @ + n, !.cum = @ + n * st.load]
(* being called for the first time, or twice at once, it waits for a unit of time *)
Calc(st) == LET a == IF st.prev = 0 - 1 THEN [st EXCEPT !.prev = st.now, !.pcum = st.cum] ELSE st
                b == IF a.prev = a.now THEN Pass(a, 1) ELSE a
            IN [st |-> [b EXCEPT !.prev = b.now, !.pcum = b.cum], d |-> b.now - a.prev, w |-> b.cum - a.pcum]
At(loads, u) == loads[Min2(Len(loads), 1 + u \div 10)]
(* n units of time of a schedule, of which off are gone *)
RECURSIVE Sched(_, _, _, _)
Sched(st, loads, off, n) == IF n = 0 THEN st ELSE Sched(Pass([st EXCEPT !.load = At(loads, off)], 1), loads, off + 1, n - 1)
RECURSIVE SleepRun(_, _, _, _, _, _)
SleepRun(st, loads, t0, left, below, above) ==
    IF left = 0 THEN [st |-> st, w |-> FALSE]
    ELSE LET n == Min2(left, 10) s == Sched(st, loads, st.now - t0, n) c == Calc(s)
             (* thresholds are halves of a load *)
             hit == (above # 0 - 1 /\ 2 * c.w > above * c.d) \/ (below # 0 - 1 /\ 2 * c.w < below * c.d)
         IN IF hit THEN [st |-> c.st, w |-> TRUE] ELSE SleepRun(c.st, loads, t0, left - n, below, above)
Prime(st, loads, t0) == LET a == IF st.prev = 0 - 1 THEN [st EXCEPT !.prev = st.now, !.pcum = st.cum] ELSE st
                            b == IF a.prev = a.now THEN Sched(a, loads, a.now - t0, 1) ELSE a
                        IN [b EXCEPT !.prev = b.now, !.pcum = b.cum]
OOps(st) == <<{[op |-> "tick", a |-> <<n>>] : n \in {3, 10}}, {[op |-> "load", a |-> <<l>>] : l \in {0, 1, 4}}, {[op |-> "of", a |-> <<>>]},
              {[op |-> "sleep", a |-> <<s, b, a, ls>>] : s \in {5, 10, 25}, b \in {0 - 1, 3}, a \in {0 - 1, 5}, ls \in {<<2, 2, 4>>, <<2, 0>>, <<4>>}}>>
OApply(st, e) ==
    CASE e.op = "tick" -> One(Pass(st, e.a[1]), None)
      [] e.op = "load" -> One([st EXCEPT !.load = e.a[1]], None)
      [] e.op = "of" -> LET c == Calc(st) IN One(c.st, IntSeq(<<c.w, c.d>>))
      [] e.op = "sleep" -> LET s == e.a[1] ls == e.a[4] b == e.a[2] a == e.a[3] IN
                           IF a = 0 - 1 /\ b = 0 - 1 THEN LET z == Sched(st, ls, 0, s) IN One([z EXCEPT !.load = ls[Len(ls)]], Seq_(<<Bool_(FALSE), Int_(s)>>))
                           ELSE LET z == SleepRun(Prime([st EXCEPT !.load = At(ls, 0)], ls, st.now), ls, st.now, s, b, a)
                                IN One([z.st EXCEPT !.load = ls[Len(ls)]], Seq_(<<Bool_(z.w), Int_(z.st.now - st.now)>>))
OInv(st) == st.cum <= 4 * st.now
OStep(st, e, r, t) == t.now >= st.now /\ (e.op = "sleep" /\ r[2][2] = FALSE => t.now - st.now \in e.a[1]..(e.a[1] + 1))

(* R: the profile of a load that repeats itself *)
RCfgs == <<[x |-> 0]>>
RInit(cfg) == cfg
ROps(st) == <<{[op |-> "steady", a |-> <<win, ref, q, ps, u, n>>] : win \in {4, 10}, ref \in {2, 10}, q \in {<<2>>, <<0>>, <<4>>, <<1, 3>>, <<4, 0>>}, ps \in {<<0, 50, 100>>}, u \in {0, 3}, n \in {1, 2}}, {[op |-> "early", a |-> <<>>]}>>
Lo(q) == MinOf(Range(q))
Hi(q) == MaxOf(Range(q))
RECURSIVE Answers(_, _)
Answers(q, ps) == IF ps = <<>> THEN {<<>>} ELSE {<<Int_(x)>> \o y : x \in IF ps[1] = 0 THEN {Lo(q)} ELSE IF ps[1] = 100 THEN {Hi(q)} ELSE Lo(q)..Hi(q), y \in Answers(q, Tail(ps))}
RApply(st, e) ==
    CASE e.op = "steady" -> {[s |-> st, r |-> Seq_(<<Seq_(x), Int_(e.a[5]), Int_(1)>>)] : x \in Answers(e.a[3], e.a[4])}
      [] e.op = "early" -> One(st, Seq_(<<Int_(0), None>>))
RInv(st) == TRUE
RStep(st, e, r, t) == TRUE

(* T: a thread called every p ms, or up to m ms sooner if processors are idle, as observed                  *)
TCfgs == <<[p |-> 5000, m |-> 1000, w |-> 3000, idle |-> FALSE, over |-> FALSE]>>
TInit(cfg) == [p |-> cfg.p, m |-> cfg.m, w |-> cfg.w, idle |-> cfg.idle, st |-> "new", t0 |-> 0, e |-> 0, term |-> 0 - 1, ov |-> FALSE]
TOps(st) == <<{}>>
(* a look at the processors may wait for a tenth of a second *)
Tol == 500
Slack(st) == Tol + 150 * (st.m \div st.w + 1)
TApply(st, e) ==
    CASE e.op = "start" -> IF st.st = "new" THEN One([st EXCEPT !.st = "started", !.e = e.c], None) ELSE {}
      [] e.op = "begin" ->
         LET ok == CASE st.st = "started" -> e.c - st.e <= 0
                     [] st.st = "idle" -> IF st.ov THEN e.c = st.e
                                          ELSE /\ (e.c >= st.t0 + st.p - st.m /\ e.c <= st.t0 + st.p + Slack(st) /\ e.c >= st.e)
                                               /\ (st.idle = "busy" => e.c >= st.t0 + st.p)
                                               (* when there is little to do it is called at the first look *)
                                               /\ (st.idle = "idle" => e.c <= Max2i(st.t0 + st.p - st.m, st.e) + 1000 + Tol)
                     [] OTHER -> FALSE
         IN IF ok /\ (st.term # 0 - 1 => e.c <= st.term) THEN One([st EXCEPT !.st = "in", !.t0 = e.c, !.ov = FALSE], None) ELSE {}
      [] e.op = "end" -> IF st.st = "in" THEN One([st EXCEPT !.st = IF e.c - st.t0 > st.p THEN "late" ELSE "idle", !.e = e.c], None) ELSE {}
      [] e.op = "overrun" -> IF st.st = "late" /\ e.a[1] >= st.e - st.t0 - 1 /\ e.a[1] <= st.e - st.t0 + 1 /\ e.c = st.e THEN One([st EXCEPT !.st = "idle", !.ov = TRUE], None) ELSE {}
      [] e.op = "terminate" -> One([st EXCEPT !.term = IF @ = 0 - 1 THEN e.c ELSE @], None)
      [] e.op = "failed" -> IF st.st = "in" THEN One([st EXCEPT !.st = "failed", !.e = e.c], None) ELSE {}
      [] e.op = "cleanup" -> LET since == Max2i(st.term, st.e) IN
                             IF (st.st = "failed" /\ e.c = st.e) \/ (st.term # 0 - 1 /\ st.st \in {"started", "idle", "late"} /\ e.c <= since + Max2i(st.w, 2000) + Tol) THEN One([st EXCEPT !.st = "over"], None) ELSE {}
      [] e.op = "over" -> IF st.st = "over" THEN One(st, None) ELSE {}
TInv(st) == TRUE
TStep(st, e, r, t) == TRUE

(* K: several threads ask at once: there is one profile, and each of them gets an answer *)
KCfgs == <<[l |-> 2]>>
KInit(cfg) == [l |-> cfg.l]
KOps(st) == <<{}>>
KApply(st, e) == CASE e.op = "percentile" -> IF e.r \in {Int_(0), Int_(st.l)} THEN One(st, e.r) ELSE {}
                   [] e.op = "settled" -> One(st, Int_(st.l))
                   [] e.op = "builders" -> One(st, Int_(1))
KInv(st) == TRUE
KStep(st, e, r, t) == TRUE
=============================================================================
