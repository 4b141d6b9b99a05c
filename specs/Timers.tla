------------------------------- MODULE Timers -------------------------------
(* Timers: every started and not cancelled timer fires exactly once, not earlier than its interval after start() and at most a   *)
(* second late, unless the functions run by the background thread keep it busy.  Events are observations, e.c is the time in ms. *)
(*   start_b(i, interval, separate) start_e(i)   cancel_b(i) cancel_e(i)   fire_b(i) fire_e(i)   end                             *)
EXTENDS Val
Lag == 1000
MInit(cfg) == [p |-> {}, cb |-> {}, ce |-> <<>>, run |-> {}, free |-> 0, n |-> 0, now |-> 0, fired |-> <<>>, started |-> <<>>]
\* p: pending [i, due, sep, k, ok (start returned)], cb: cancel begun, ce: timer -> when its cancel returned
Count(f, i) == IF i \in DOMAIN f THEN f[i] ELSE 0
MayFire(st, x, c) == /\ c >= x.due
                     /\ c <= Max2(x.due + Lag, st.free)
                     /\ (x.i \in DOMAIN st.ce => c <= st.ce[x.i])
                     \* functions run by the background thread: one at a time, in the order of their times
                     /\ ~x.sep => /\ \A y \in st.run : y.sep
                                  /\ \A y \in st.p : (~y.sep /\ y.ok /\ y.i \notin st.cb) => y.due >= x.due
MApply0(st, e) ==
  CASE e.op = "start_b" -> One([st EXCEPT !.n = @ + 1, !.started = FnSet(@, e.a[1], Count(@, e.a[1]) + 1),
                                         !.p = @ \cup {[i |-> e.a[1], due |-> e.c + e.a[2], sep |-> e.a[3], k |-> st.n, ok |-> FALSE]}], None)
    [] e.op = "start_e" -> One([st EXCEPT !.p = {[x EXCEPT !.ok = IF x.i = e.a[1] THEN TRUE ELSE @] : x \in @}], None)
    [] e.op = "cancel_b" -> One([st EXCEPT !.cb = @ \cup {e.a[1]}], None)
    [] e.op = "cancel_e" -> One(IF e.a[1] \in DOMAIN st.ce THEN st ELSE [st EXCEPT !.ce = FnSet(@, e.a[1], e.c)], None)
    [] e.op = "fire_b" -> {[s |-> [st EXCEPT !.p = @ \ {x}, !.run = @ \cup {x}, !.fired = FnSet(@, x.i, Count(@, x.i) + 1)], r |-> Int_(x.i * 10 + 7)]
                             : x \in {x \in st.p : x.i = e.a[1] /\ MayFire(st, x, e.c)}}
    [] e.op = "fire_e" -> {[s |-> [st EXCEPT !.run = @ \ {x}, !.free = IF x.sep THEN @ ELSE e.c], r |-> None] : x \in {x \in st.run : x.i = e.a[1]}}
    \* everything that was due has happened
    [] e.op = "end" -> IF \A x \in st.p : x.i \in st.cb \/ e.c <= Max2(x.due + Lag, st.free) \/ (\E y \in st.run : ~y.sep) THEN One(st, None) ELSE {}
    [] OTHER -> {}
MApply(st, e) == {[q EXCEPT !.s.now = e.c] : q \in MApply0(st, e)}
MInv(st) == \A i \in DOMAIN st.fired : st.fired[i] <= Count(st.started, i)
MStep(st, e, r, t) == e.c >= st.now
MCfgs == <<[z |-> 0]>>
MOps(st) ==
  LET cs == {st.now} \cup {x.due : x \in {x \in st.p : x.due > st.now}} IN
  << {[op |-> "start_b", a |-> <<i, d, s>>, c |-> c] : i \in (1..2) \ DOMAIN st.started, d \in {0, 500, 1500}, s \in BOOLEAN, c \in {st.now}},
     {[op |-> "start_e", a |-> <<x.i>>, c |-> st.now] : x \in {x \in st.p : ~x.ok}},
     {[op |-> "cancel_b", a |-> <<i>>, c |-> c] : i \in (1..2) \ st.cb, c \in {st.now + 250}},
     {[op |-> "cancel_e", a |-> <<i>>, c |-> st.now] : i \in st.cb \ DOMAIN st.ce},
     {[op |-> "fire_b", a |-> <<x.i>>, c |-> c] : x \in st.p, c \in cs},
     {[op |-> "fire_e", a |-> <<x.i>>, c |-> c] : x \in st.run, c \in {st.now, st.now + 2000}} >>
=============================================================================
