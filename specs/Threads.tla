------------------------------ MODULE Threads ------------------------------
(* Life of a TerminableThread / IntervalTerminableThread (T..), of a SingleStartThread (U..), of a BogusTerminableThread (B..)  *)
(* and of satella's Condition (C..).                                                                                          *)
(*                                                                                                                           *)
(* T*: events are observations made inside the overridden methods and by the controlling thread, in the order in which they  *)
(* happen; e.c is the time in ms.  An outcome is "ok", "exit" (SystemExit), "ve" (ValueError), "sub" (a subclass of it) or    *)
(* "ke" (KeyError); cfg.on: whether ValueError is in terminate_on; cfg.iv: the interval, -1 if the thread is not interval-based. *)
EXTENDS Val
Wake == 2000   \* how often the sleep of an interval thread wakes up to look whether the thread is to terminate
TInit(cfg) == [iv |-> cfg.iv, on |-> cfg.on, ph |-> "new", now |-> 0, treq |-> FALSE, tq |-> 0, term |-> FALSE, tt |-> 0, grace |-> FALSE,
               due |-> 0, lb |-> 0, le |-> 0, fin |-> 0, over |-> FALSE, crash |-> "", nloop |-> 0, ncl |-> 0, wt |-> FALSE, ntf |-> {}, dead |-> FALSE]
\* what follows when prepare() or loop() ended with outcome o
After(st, o, c) ==
  IF o = "ok" THEN [st EXCEPT !.ph = "idle"]
  ELSE IF o = "exit" THEN [st EXCEPT !.ph = "fin", !.fin = c]
  ELSE IF o \in {"ve", "sub"} /\ st.on THEN [st EXCEPT !.ph = "fin", !.fin = c, !.treq = TRUE, !.tq = IF st.treq THEN @ ELSE c, !.term = TRUE, !.tt = IF st.term THEN @ ELSE c]
  ELSE [st EXCEPT !.ph = "fin", !.fin = c, !.crash = IF o = "ke" THEN "KeyError" ELSE IF o = "ve" THEN "ValueError" ELSE "SubError"]
TStart(st, e) == IF st.ph = "new" THEN One([st EXCEPT !.ph = "started"], None) ELSE One(st, Exc("RuntimeError"))
TApply0(st, e) ==
  CASE e.op = "start" -> TStart(st, e)
    [] e.op = "prep_b" -> IF st.ph = "started" THEN One([st EXCEPT !.ph = "prep"], None) ELSE {}
    [] e.op = "prep_e" -> IF st.ph = "prep" THEN One([After(st, e.a[1], e.c) EXCEPT !.due = e.c, !.le = e.c], None) ELSE {}
    [] e.op = "loop_b" ->
         IF /\ st.ph = "idle" /\ ~st.over
            \* after terminate() returned: only if the thread may already have been past its check
            /\ (~st.term \/ (st.grace /\ e.c = st.tt))
            /\ e.c = st.due
         THEN One([st EXCEPT !.ph = "loop", !.lb = e.c, !.grace = FALSE, !.nloop = @ + 1], None) ELSE {}
    [] e.op = "loop_e" ->
         IF st.ph # "loop" THEN {}
         ELSE LET s1 == After(st, e.a[1], e.c)
                  taken == e.c - st.lb
              IN One([s1 EXCEPT !.le = e.c,
                               !.over = st.iv >= 0 /\ s1.ph = "idle" /\ taken > st.iv,
                               !.due = IF st.iv >= 0 /\ taken < st.iv THEN st.lb + st.iv ELSE e.c], None)
    \* on_overrun is called, with the time taken, unless the thread is to terminate
    [] e.op = "over_b" ->
         IF st.ph = "idle" /\ st.over /\ e.a[1] = st.le - st.lb /\ (~st.term \/ (st.grace /\ e.c = st.tt)) THEN One([st EXCEPT !.ph = "over", !.grace = FALSE], None) ELSE {}
    [] e.op = "over_e" -> IF st.ph = "over" THEN One([st EXCEPT !.ph = "idle", !.over = FALSE, !.due = e.c], None) ELSE {}
    [] e.op = "term_b" -> One(IF st.treq THEN st ELSE [st EXCEPT !.treq = TRUE, !.tq = e.c], None)
    [] e.op = "term_e" -> One(IF st.term THEN st ELSE [st EXCEPT !.term = TRUE, !.tt = e.c, !.grace = st.ph = "idle"], None)
    [] e.op = "clean" ->
         IF \/ st.ph = "fin" /\ e.c = st.fin
            \/ st.ph = "idle" /\ st.treq /\ (IF st.iv < 0 \/ st.over THEN e.c = Max2(st.tq, st.le) ELSE e.c <= Max2(st.tq, st.le) + Wake /\ e.c <= Max2(st.due, st.tq))
         THEN One([st EXCEPT !.ph = "cleaned", !.ncl = @ + 1], None) ELSE {}
    [] e.op = "crash" -> IF st.ph = "cleaned" /\ st.crash = e.a[1] THEN One([st EXCEPT !.ph = "crashed"], None) ELSE {}
    \* an unlimited join returned
    [] e.op = "ended" -> IF (st.ph = "cleaned" /\ st.crash = "") \/ st.ph = "crashed" THEN One([st EXCEPT !.dead = TRUE], None) ELSE {}
    [] e.op = "alive" -> IF st.dead \/ st.ph = "new" THEN One(st, Bool_(FALSE))
                         ELSE IF st.ph \in {"cleaned", "crashed"} THEN One(st, Bool_(FALSE)) \cup One(st, Bool_(TRUE))
                         ELSE One(st, Bool_(TRUE))
    [] e.op = "terminating" -> IF st.treq /\ ~st.term THEN One(st, Bool_(TRUE)) \cup One(st, Bool_(FALSE)) ELSE One(st, Bool_(st.term))
    \* inside of loop(): safe_sleep(a[1], a[2]) that began at a[3] ended
    [] e.op = "slept" ->
         IF st.ph # "loop" THEN {}
         ELSE (IF e.c = e.a[3] + Max2(0, e.a[1]) /\ ~(st.term /\ st.tt < e.c) THEN One(st, None) ELSE {})
              \cup (IF st.treq /\ e.c <= Max2(e.a[3], st.tq) + e.a[2] /\ e.c <= e.a[3] + Max2(0, e.a[1]) THEN One(st, Exc("SystemExit")) ELSE {})
    \* safe_wait_condition(timeout = a[1], wake_up_each = a[2], dont_raise = a[4]) that began at a[3] ended
    [] e.op = "notify" -> One([st EXCEPT !.ntf = @ \cup {e.c}], None)
    [] e.op = "waited" ->
         IF st.ph # "loop" THEN {}
         ELSE (IF e.c \in st.ntf /\ e.c >= e.a[3] /\ e.c <= e.a[3] + e.a[1] /\ e.r = None /\ ~(\E n \in st.ntf : n > e.a[3] /\ n < e.c /\ (n - e.a[3]) % e.a[2] # 0)
               THEN One(st, None) ELSE {})
              \cup (IF st.treq /\ e.c <= Max2(e.a[3], st.tq) + e.a[2] /\ e.c <= e.a[3] + e.a[1] THEN One(st, Exc("SystemExit")) ELSE {})
              \cup (IF /\ e.c = e.a[3] + e.a[1]
                       /\ ~\E n \in st.ntf : n > e.a[3] /\ n < e.c /\ (n - e.a[3]) % e.a[2] # 0
                       /\ ~(st.term /\ e.a[1] > 0 /\ st.tt < e.c - e.a[2])
                    THEN One(st, IF e.a[4] THEN None ELSE Exc("WouldWaitMore")) ELSE {})
    [] OTHER -> {}
TApply(st, e) == {[q EXCEPT !.s.now = e.c] : q \in TApply0(st, e)}
TInv(st) == /\ st.ncl <= 1
            /\ (st.nloop > 0 => st.ph # "started")
            /\ (st.term => st.treq)
            /\ (st.dead => st.ncl = 1)
\* no loop begins after the thread was asked to terminate (but for one that was already being called), nothing happens after cleanup
TStep(st, e, r, t) == /\ e.c >= st.now
                      /\ (e.op = "loop_b") => (st.ncl = 0 /\ (st.term => st.grace))
                      /\ (t.ph = "cleaned" /\ st.ph # "cleaned") => e.op = "clean"
TCfgs == <<[iv |-> -1, on |-> TRUE], [iv |-> 1000, on |-> TRUE], [iv |-> -1, on |-> FALSE], [iv |-> 1000, on |-> FALSE]>>
TOuts == {"ok", "exit", "ve", "ke"}
TOps(st) ==
  LET cs == {st.now} \cup (IF st.ph \in {"prep", "loop"} THEN {st.now + 500, st.now + 1500} ELSE {})
            \cup (IF st.ph = "idle" THEN {st.due} ELSE {}) IN
  << {[op |-> o, a |-> <<>>, c |-> st.now] : o \in IF st.ph = "new" THEN {"start"} ELSE {}},
     {[op |-> o, a |-> <<>>, c |-> st.now] : o \in IF st.treq THEN {} ELSE {"term_b"}},
     {[op |-> o, a |-> <<>>, c |-> st.now] : o \in IF st.treq /\ ~st.term THEN {"term_e"} ELSE {}},
     {[op |-> o, a |-> <<>>, c |-> c] : o \in {"prep_b", "loop_b", "clean", "over_e", "ended"}, c \in cs},
     {[op |-> o, a |-> <<x>>, c |-> c] : o \in {"prep_e"}, c \in cs, x \in TOuts},
     {[op |-> o, a |-> <<x>>, c |-> c] : o \in {"loop_e"}, c \in cs, x \in TOuts},
     {[op |-> "over_b", a |-> <<st.le - st.lb>>, c |-> st.now]},
     {[op |-> "crash", a |-> <<st.crash>>, c |-> st.now]} >>

\* ------------------------------------------------------------------ SingleStartThread: started any number of times, runs once
UInit(cfg) == [started |-> FALSE]
UApply(st, e) ==
  CASE e.op = "start" -> One([started |-> TRUE], Str_("self"))
    [] e.op = "runs" -> One(st, Int_(IF st.started THEN 1 ELSE 0))
    [] OTHER -> {}
UInv(st) == TRUE
UStep(st, e, r, t) == st.started => t.started
UCfgs == <<[z |-> 0]>>
UOps(st) == << {[op |-> o, a |-> <<>>] : o \in {"start", "runs"}} >>

\* ------------------------------------------------------------------ BogusTerminableThread
BInit(cfg) == [started |-> FALSE, term |-> FALSE, le |-> 0, now |-> 0]
Timed(e) == "rc" \in DOMAIN e
BApply(st, e) ==
  IF Timed(e) /\ e.op # "join" /\ e.rc < st.le THEN {} ELSE
  CASE e.op = "start" -> IF st.term \/ st.started THEN One(st, Exc("RuntimeError")) ELSE One([st EXCEPT !.started = TRUE], None)
    [] e.op = "terminate" -> One([st EXCEPT !.term = TRUE], None)
    [] e.op = "alive" -> One(st, Bool_(st.started /\ ~st.term))
    \* a[1]: timeout in ms, -1: none.  It looks once a second.
    [] e.op = "join" ->
         IF ~st.started /\ ~st.term THEN One(st, Exc("RuntimeError"))
         ELSE IF st.term THEN One(st, None)
         ELSE IF e.a[1] >= 0 THEN (IF Timed(e) THEN (IF e.rc >= e.c + e.a[1] /\ e.rc < e.c + e.a[1] + 1000 + (IF e.a[1] = 0 THEN 1 ELSE 0) THEN One([st EXCEPT !.le = e.c + e.a[1]], Exc("WouldWaitMore")) ELSE {})
                                  ELSE One(st, Exc("WouldWaitMore")))
         ELSE {}
    [] e.op = "sleep" -> One(st, None)
    [] OTHER -> {}
BInv(st) == TRUE
BStep(st, e, r, t) == (st.term => t.term) /\ (e.op = "join" /\ r = None => st.term)
BCfgs == <<[z |-> 0]>>
BOps(st) == << {[op |-> o, a |-> <<>>] : o \in {"start", "terminate", "alive"}}, {[op |-> "join", a |-> <<t>>] : t \in {0, 500, 2000} \cup (IF st.term THEN {-1} ELSE {})} >>

\* ------------------------------------------------------------------ Condition: no lock has to be held to wait or notify
\* w: function waiter -> [b (begin), t (timeout, -1 none), q (quiet)]; tok: waiters that are yet to wake up at time tc; hold: the lock is held till then
CInit(cfg) == [w |-> <<>>, tok |-> {0}, tc |-> 0, hold |-> 0]
Waits(st) == DOMAIN st.w
Settled(st, c) == c = st.tc \/ 0 \in st.tok
Reset(st, c) == IF c = st.tc THEN st ELSE [st EXCEPT !.tok = {0}, !.tc = c]
CApply(st0, e) ==
  IF ~Settled(st0, e.c) THEN {} ELSE
  LET st == Reset(st0, e.c) IN
  CASE e.op = "hold" -> One([st EXCEPT !.hold = e.c + e.a[1]], None)
    [] e.op = "wait_b" -> One([st EXCEPT !.w = FnSet(@, e.a[1], [b |-> e.c, t |-> e.a[2], q |-> e.a[3]])], None)
    [] e.op = "notify" ->
         \* at least everyone who has been waiting since before (up to n), perhaps also the ones who began to wait right now
         LET sure == Cardinality({k \in Waits(st) : st.w[k].b < e.c /\ st.hold < e.c})
             may == Cardinality({k \in Waits(st) : st.hold <= e.c})
             cap(m) == IF e.a[1] < 0 THEN m ELSE Min2(e.a[1], m)
         IN One([st EXCEPT !.tok = {x \in 0..may : \E p \in @ : x >= Min2(p + (IF e.a[1] < 0 THEN sure ELSE e.a[1]), sure) /\ x <= p + cap(may)}], None)
    [] e.op = "wait_e" ->
         LET k == e.a[1] x == st.w[k] s1 == [st EXCEPT !.w = FnDel(@, k)] IN
         (IF \E p \in st.tok : p > 0 THEN One([s1 EXCEPT !.tok = {p - 1 : p \in st.tok \ {0}}], None) ELSE {})
         \cup (IF x.t >= 0 /\ e.c = x.b + x.t /\ st.hold <= e.c THEN One(s1, IF x.q THEN None ELSE Exc("WouldWaitMore")) ELSE {})
         \cup (IF x.t >= 0 /\ e.c = x.b + x.t /\ st.hold >= e.c THEN One(s1, Exc("ResourceLocked")) ELSE {})
    [] e.op = "end" -> IF Waits(st) = {} THEN One(st, None) ELSE {}
    \* everybody who is still there waits without a limit
    [] e.op = "stuck" -> IF \A k \in Waits(st) : st.w[k].t < 0 /\ 0 \in st.tok THEN One(st, None) ELSE {}
    [] OTHER -> {}
CInv(st) == st.tok # {}
CStep(st, e, r, t) == TRUE
=============================================================================
