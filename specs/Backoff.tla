------------------------------ MODULE Backoff ------------------------------
(* ExponentialBackoff and measure(); times are in quarters of a second, and only sleeping takes any.                                                                      *)
EXTENDS Val
Wait(st, t) == [st EXCEPT !.now = @ + t]
\* ------------------------------------------------------- the backoff, used by one thread
\* counter: how long the next sleep() is; until: it is worth trying then (-1: now); grace: fails that are still forgiven
EInit(cfg) == [start |-> cfg.start, limit |-> cfg.limit, all |-> cfg.grace, grace |-> cfg.grace, counter |-> 0, until |-> -1, now |-> 0]
Fail(st) == IF st.grace > 0 THEN [st EXCEPT !.grace = @ - 1] ELSE LET c == Min2(st.limit, IF st.counter = 0 THEN st.start ELSE 2 * st.counter) IN [st EXCEPT !.counter = c, !.until = st.now + c]
Succeed(st) == [st EXCEPT !.counter = 0, !.grace = st.all, !.until = -1]
Ready(st) == st.until <= st.now
\* a function that fails n times and then works, run until it does
RECURSIVE Launch(_, _)
Launch(st, n) == IF n = 0 THEN Succeed(st) ELSE LET t == Fail(st) IN Launch(Wait(t, t.counter), n - 1)
At(st, r) == {[s |-> st, r |-> <<"seq", r, Int_(st.now)>>]}
EApply(st, e) ==
  LET a == e.a IN
  CASE e.op = "failed" -> At(Fail(st), None)
    [] e.op = "success" -> At(Succeed(st), None)
    [] e.op = "sleep" -> At(Wait(st, st.counter), None)
    [] e.op = "tick" -> At(Wait(st, a[1]), None)
    [] e.op = "available" -> At(st, Bool_(st.counter = 0))
    [] e.op = "ready" -> At(st, Bool_(Ready(st)))
    [] e.op = "until" -> At(st, IF Ready(st) THEN None ELSE Int_(st.until - st.now))
    \* -1: for ever
    [] e.op = "wait" -> IF Ready(st) THEN (IF a[1] = 0 THEN At(st, None) \cup At(st, Exc("WouldWaitMore")) ELSE At(st, None))
                        ELSE LET left == st.until - st.now IN
                             (IF a[1] = -1 \/ left <= a[1] THEN At(Wait(st, left), None) ELSE {}) \cup (IF a[1] # -1 /\ a[1] <= left THEN At(Wait(st, a[1]), Exc("WouldWaitMore")) ELSE {})
    [] e.op = "launch" -> At(Launch(st, a[1]), Int_(7))
    \* an exception that it is not about
    [] e.op = "launch_other" -> At(st, Exc("KeyError"))
    [] OTHER -> {}
EInv(st) == st.counter <= st.limit /\ st.until <= st.now + st.limit /\ (st.counter = 0 => st.until = -1)
EStep(st, e, r, t) == t.now >= st.now /\ (e.op = "failed" /\ st.counter > 0) => t.counter >= st.counter
ECfgs == <<[start |-> 2, limit |-> 12, grace |-> 0], [start |-> 4, limit |-> 16, grace |-> 2], [start |-> 8, limit |-> 4, grace |-> 0]>>
EOps(st) == << {[op |-> o, a |-> <<>>] : o \in {"failed", "success", "sleep", "available", "ready", "until"}}, {[op |-> "tick", a |-> <<n>>] : n \in {1, 2, 8}}, {[op |-> "wait", a |-> <<n>>] : n \in {-1, 0, 1, 4}},
               {[op |-> "launch", a |-> <<n>>] : n \in {0, 1, 4}}, {[op |-> "launch_other", a |-> <<>>]} >>
\* ------------------------------------------------------- one thread fails and succeeds, others wait; times are milliseconds here, and time passes only when nobody can do anything
\* w: those that wait [i, dl (-1: none), seen: it has been available during the wait]
WInit(cfg) == [start |-> cfg.start, limit |-> cfg.limit, counter |-> 0, until |-> -1, w |-> {}, now |-> 0]
\* may the clock go to c: everyone who is waiting has a reason to
CanPass(st, c) == c = st.now \/ \A x \in st.w : st.until > st.now /\ st.until >= c /\ (x.dl = -1 \/ x.dl >= c)
Seen(st) == [st EXCEPT !.w = {IF st.until <= st.now THEN [x EXCEPT !.seen = TRUE] ELSE x : x \in @}]
WApply0(st, e) ==
  CASE e.op = "failed_b" -> One(st, None)
    [] e.op = "failed_e" -> LET c == Min2(st.limit, IF st.counter = 0 THEN st.start ELSE 2 * st.counter) IN One([Seen(st) EXCEPT !.counter = c, !.until = st.now + c], None)
    [] e.op = "success_b" -> One(Seen([st EXCEPT !.counter = 0, !.until = -1]), None)
    [] e.op = "success_e" -> One(st, None)
    [] e.op = "wait_b" -> One(Seen([st EXCEPT !.w = @ \cup {[i |-> e.a[1], dl |-> IF e.a[2] = -1 THEN -1 ELSE st.now + e.a[2], seen |-> FALSE]}]), None)
    [] e.op = "wait_e" -> UNION {LET t == [st EXCEPT !.w = @ \ {x}] IN (IF x.seen \/ st.until <= st.now THEN One(t, Str_("ok")) ELSE {}) \cup (IF x.dl # -1 /\ x.dl <= st.now THEN One(t, Str_("WouldWaitMore")) ELSE {}) : x \in {y \in st.w : y.i = e.a[1]}}
    \* nobody is left waiting
    [] e.op = "end" -> IF st.w = {} THEN One(st, None) ELSE {}
    [] OTHER -> {}
WApply(st, e) == IF e.c >= st.now /\ CanPass(st, e.c) THEN WApply0(Seen([Seen(st) EXCEPT !.now = e.c]), e) ELSE {}
WInv(st) == \A x \in st.w : x.dl = -1 \/ x.dl >= st.now
WStep(st, e, r, t) == t.now = e.c
WCfgs == <<[start |-> 1000, limit |-> 4000]>>
WOps(st) == LET c == st.now IN << {[op |-> o, a |-> <<>>, c |-> c] : o \in {"failed_e", "success_b"}}, {[op |-> "wait_b", a |-> <<1, t>>, c |-> c] : t \in IF st.w = {} THEN {-1, 500, 3000} ELSE {}}, {[op |-> "wait_e", a |-> <<x.i>>, c |-> d] : x \in st.w, d \in {c, c + 500, c + 1000}} >>
\* ------------------------------------------------------- measure()
\* sos: stop_on_stop; on: is running; el: what has elapsed until it was stopped; start: since when, if running
TInit(cfg) == [sos |-> cfg.sos, plain |-> ~cfg.stopped, on |-> ~cfg.stopped, el |-> 0, start |-> cfg.adjust, timeout |-> cfg.timeout, now |-> 0]
Elapsed(st) == IF st.sos /\ ~st.on THEN st.el ELSE st.now - st.start
TErr(st) == One(st, Exc("TypeError"))
Start(st) == [st EXCEPT !.on = TRUE, !.start = st.now - st.el]
Stop(st) == [st EXCEPT !.on = FALSE, !.el = Elapsed(st)]
Reset(st) == [st EXCEPT !.on = FALSE, !.el = 0, !.start = st.now]
TApply(st, e) ==
  LET a == e.a IN
  CASE e.op = "tick" -> One(Wait(st, a[1]), None)
    [] e.op \in {"start", "update"} -> IF ~st.sos \/ st.on THEN TErr(st) ELSE One(Start(st), None)
    [] e.op = "stop" -> IF ~st.sos \/ ~st.on THEN TErr(st) ELSE One(Stop(st), None)
    [] e.op = "reset" -> One(Reset(st), None)
    [] e.op = "reset_and_start" -> IF ~st.sos THEN TErr(Reset(st)) ELSE One(Start(Reset(st)), None)
    [] e.op = "reset_and_stop" -> IF ~st.sos \/ ~st.on THEN TErr(st) ELSE One(Reset(st), None)
    [] e.op = "adjust" -> One([st EXCEPT !.start = @ + a[1]], None)
    [] e.op = "enter" -> One(IF st.sos /\ ~st.on THEN Start(st) ELSE st, None)
    [] e.op \in {"exit", "exit_exc"} -> One(IF st.sos /\ st.on THEN Stop(st) ELSE st, None)
    [] e.op = "elapsed" -> One(st, Int_(Elapsed(st)))
    [] e.op = "stopped" -> IF st.sos THEN One(st, Bool_(~st.on)) ELSE One(st, Bool_(TRUE)) \cup One(st, Bool_(FALSE))
    [] e.op = "timeouted" -> One(st, Bool_(st.timeout # -1 /\ Elapsed(st) >= st.timeout))
    [] e.op = "remaining" -> One(st, IF st.timeout = -1 THEN None ELSE Int_(Max2(0, st.timeout - Elapsed(st))))
    [] e.op = "check" -> One(st, IF st.timeout # -1 /\ Elapsed(st) >= st.timeout THEN Exc("WouldWaitMore") ELSE None)
    [] e.op = "exceeded" -> One(st, Bool_(Elapsed(st) > a[1]))
    [] e.op = "raise_if" -> One(st, IF Elapsed(st) > a[1] THEN Exc("WouldWaitMore") ELSE None)
    \* the copy of it that is given to a function that it decorates: it recurses n times, each level waiting 1 before and after; what it reads at the end of each, from the innermost, and a long time after
    \* that ends in some other way after that time
    [] e.op = "ends" -> IF ~st.plain \/ ~st.sos THEN {} ELSE One(Wait(st, a[2] + 5), Int_(a[2]))
    [] e.op = "decorate" -> IF ~st.plain \/ ~st.sos THEN {} ELSE LET q == IntSeq([i \in 1..a[2] |-> 2 * i]) IN One(Wait(st, 2 * a[2] + 5), <<"seq", q, q>>)
    \* a future that is finished after some time, in some way
    [] e.op = "future" -> One(Wait(st, a[2] + 3), Int_(a[2]))
    [] OTHER -> {}
TInv(st) == TRUE
\* a stopped one does not move, and a running one moves with the time
TStep(st, e, r, t) == /\ (e.op = "tick" /\ st.sos) => Elapsed(t) = Elapsed(st) + (IF st.on THEN e.a[1] ELSE 0)
                      /\ e.op \in {"start", "stop", "enter", "exit", "exit_exc"} => Elapsed(t) = Elapsed(st)
TCfgs == <<[sos |-> TRUE, stopped |-> FALSE, adjust |-> 0, timeout |-> -1], [sos |-> TRUE, stopped |-> TRUE, adjust |-> 0, timeout |-> 3], [sos |-> FALSE, stopped |-> FALSE, adjust |-> 0, timeout |-> 2], [sos |-> TRUE, stopped |-> FALSE, adjust |-> 1, timeout |-> 2]>>
TOps(st) == << {[op |-> "tick", a |-> <<n>>] : n \in {1, 3}}, {[op |-> o, a |-> <<>>] : o \in {"start", "stop", "reset", "reset_and_start", "reset_and_stop", "enter", "exit", "exit_exc"}},
               {[op |-> "adjust", a |-> <<n>>] : n \in IF st.on \/ ~st.sos THEN {-1, 2} ELSE {}}, {[op |-> o, a |-> <<>>] : o \in {"elapsed", "timeouted", "remaining", "check", "stopped", "update"}}, {[op |-> o, a |-> <<2>>] : o \in {"exceeded", "raise_if"}},
               {[op |-> "decorate", a |-> <<k, n>>] : k \in IF st.sos /\ st.plain THEN {"function", "method", "generator"} ELSE {}, n \in {1, 3}}, {[op |-> "ends", a |-> <<k, 2>>] : k \in IF st.sos /\ st.plain THEN {"error", "interrupt", "exit", "stop", "throw", "thrown_exit", "close"} ELSE {}}, {[op |-> "future", a |-> <<k, 2>>] : k \in {"result", "exception", "cancel"}} >>
\* ------------------------------------------------------- sleep() and time strings
PInit(cfg) == [x |-> 0]
Mult(u) == CASE u \in {"", "s", "sec", "seconds", "second"} -> 1 [] u \in {"m", "min", "minutes", "minute", "mins"} -> 60 [] u \in {"h", "hour", "hours"} -> 3600 [] u \in {"d", "day", "days"} -> 86400 [] u \in {"w", "week", "weeks"} -> 604800
RECURSIVE SumTo(_, _)
SumTo(q, n) == IF n = 0 THEN 0 ELSE q[n] + SumTo(q, n - 1)
PApply(st, e) ==
  LET a == e.a IN
  CASE e.op = "parse" -> One(st, Int_(a[1] * Mult(a[2])))
    [] e.op = "number" -> One(st, Int_(a[1]))
    [] e.op = "fraction" -> One(st, Int_(a[1] * Mult(a[2])))        \* of quarters
    [] e.op = "clock" -> One(st, IntSeq(<<a[1] \div 4, a[1] * 250, a[1] * 250000>>))
    [] e.op = "garbage" -> One(st, Exc("ValueError"))
    \* for how long (in quarters of a second), abort, after how long (each since the previous) is it interrupted; the answer, how long did it take
    [] e.op = "sleep" -> LET hits == {n \in 1..Len(a[3]) : SumTo(a[3], n) < a[1]} IN
                         One(st, IF a[1] < 0 THEN <<"seq", Bool_(FALSE), Int_(0)>> ELSE IF a[2] /\ hits # {} THEN <<"seq", Bool_(FALSE), Int_(a[3][1])>> ELSE <<"seq", Bool_(TRUE), Int_(a[1])>>)
    \* the time passes between any two readings of the clock
    [] e.op = "sleep_tick" -> One(st, Bool_(TRUE))
    [] OTHER -> {}
PInv(st) == TRUE
PStep(st, e, r, t) == TRUE
PCfgs == <<[x |-> 0]>>
POps(st) == << {[op |-> "parse", a |-> <<n, u, s>>] : n \in {0, 1, 30, 7}, u \in {"", "s", "m", "h", "d", "w", "sec", "seconds", "second", "min", "minutes", "minute", "mins", "hour", "hours", "day", "days", "week", "weeks"}, s \in BOOLEAN}, {[op |-> "number", a |-> <<n, k>>] : n \in {0, -2, 17}, k \in {"int", "float"}},
               {[op |-> "fraction", a |-> <<n, u>>] : n \in {1, 6, -2, 11}, u \in {"", "s", "m", "h", "sec", "days", "w", "minute"}}, {[op |-> "clock", a |-> <<n>>] : n \in 0..7},
               {[op |-> "garbage", a |-> <<x>>] : x \in {"", "abc", "m", "1h30m", "5x", "s5"}},
               {[op |-> "sleep", a |-> <<n, b, q>>] : n \in {-1, 0, 1, 5, 8}, b \in BOOLEAN, q \in {<<>>, <<1>>, <<0, 0, 2>>, <<3, 3>>, <<1, 1, 1, 1, 1, 1>>, <<20>>}}, {[op |-> "sleep_tick", a |-> <<n>>] : n \in 0..12} >>
=============================================================================
