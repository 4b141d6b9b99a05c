------------------------------ MODULE MUse ------------------------------
(* Measuring, aggregating and labeling metrics, the HTTP exporter, and the thread pool with metrics.                                                                   *)
EXTENDS Val
\* ---- two metrics that write down what they get: <<metric, value, label>>. cfg.level: the level of both. fut: futures measured: [t, by, lev, lab, done]
L(x) == CASE x = "DISABLED" -> 1 [] x = "RUNTIME" -> 2 [] OTHER -> 3
Ok(st, lev) == L(st.cfg.level) >= L(lev)
XInit(cfg) == [cfg |-> cfg, now |-> 0, got |-> <<>>, fut |-> <<>>, gets |-> 0]
Got(st, lev, q) == IF Ok(st, lev) THEN [st EXCEPT !.got = @ \o q] ELSE st
Pass(st, n) == [st EXCEPT !.now = @ + n]
\* which metric is measured: the first, both of them (aggregate), or the first with a label of its own (labeled; its own label wins)
Recs(who, v, lab) == CASE who = "one" -> <<<<1, v, lab>>>> [] who = "both" -> <<<<1, v, lab>>, <<2, v, lab>>>> [] OTHER -> <<<<1, v, IF lab = "K" THEN "own" ELSE "own" \o lab>>>>
Fire(st, q) == LET F[k \in 0..Len(q)] == IF k = 0 THEN st ELSE Got(F[k - 1], q[k].lev, Recs(q[k].who, st.now - q[k].t, q[k].lab)) IN F[Len(q)]
XApply(st, e) ==
  LET a == e.a IN
  CASE e.op = "measure" -> \* form, who, level, label, are exceptions included, how does it end, for how long it runs, how: by its clock
         LET m == IF a[6] # "ok" /\ ~a[5] THEN Pass(st, a[7]) ELSE Got(Pass(st, a[7]), a[3], Recs(a[2], a[7], a[4]))
         IN One(m, IF a[6] = "fails" THEN Exc("BodyError") ELSE IF a[6] # "ok" THEN Exc("KeyboardInterrupt") ELSE IF a[1] = "generator" THEN <<"seq", IntSeq(<<1, 2>>), Str_("returned")>> ELSE IF a[1] = "context" THEN None ELSE Str_("returned"))
    \* each of the two times has its own measurement
    [] e.op = "again" -> LET m(x) == Pass(Got(Pass(x, a[3]), "RUNTIME", Recs(a[2], a[3], "")), 2) IN One(m(m(st)), None)
    [] e.op = "handle" -> One(Got(st, a[2], Recs(a[1], a[4], a[3])), None)
    [] e.op = "future" -> One([st EXCEPT !.fut = Append(@, [t |-> st.now, who |-> a[1], lev |-> a[2], lab |-> a[3]])], None)      \* all of them measure the same future
    [] e.op = "complete" -> One([Fire(st, st.fut) EXCEPT !.fut = <<>>], None)    \* whether it ends with a result, an exception or is cancelled; another future follows
    [] e.op = "tick" -> One(Pass(st, a[1]), None)
    [] e.op = "got" -> One(st, Seq_([k \in 1..Len(st.got) |-> <<"seq", Int_(st.got[k][1]), Int_(st.got[k][2]), Str_(st.got[k][3])>>]))
    [] e.op = "callable" -> One(st, <<"seq", Int_(st.now), Int_(st.now + 1), Int_(st.now + 2), Int_(3)>>)     \* of it, of those labeled; how many rows
    [] e.op = "uptime" -> One(st, Int_(st.now))
    [] e.op = "http" -> One([st EXCEPT !.gets = IF a[1] = "/metrics" THEN @ + 1 ELSE @], IF a[1] = "/metrics" THEN <<"seq", Int_(200), Bool_(TRUE)>> ELSE <<"seq", Int_(404), Bool_(FALSE)>>)     \* are the rows as they should be
    [] e.op = "exports" -> One(st, IntSeq(<<st.gets, st.gets, st.gets>>))
    [] e.op = "stop" -> One(st, None)
    [] OTHER -> {}
XInv(st) == \A k \in 1..Len(st.got) : st.got[k][2] >= 0
XStep(st, e, r, t) == SubSeq(t.got, 1, Len(st.got)) = st.got /\ t.now >= st.now /\ (st.cfg.level = "DISABLED" => t.got = <<>>)
XCfgs == <<[level |-> "RUNTIME"], [level |-> "DEBUG"], [level |-> "DISABLED"]>>
Who == {"one", "both", "labeled"}
XOps(st) == << {[op |-> "measure", a |-> <<f, "one", "RUNTIME", "a", i, "interrupted", 2>>] : f \in {"function", "generator", "context"}, i \in BOOLEAN}, {[op |-> "measure", a |-> <<f, w, l, lab, i, x, n>>] : f \in {"function", "generator", "context"}, w \in Who, l \in {"RUNTIME", "DEBUG"}, lab \in {"a"}, i \in BOOLEAN, x \in {"ok", "fails"}, n \in {0, 2}},
               {[op |-> "handle", a |-> <<w, l, x, 5>>] : w \in Who, l \in {"RUNTIME"}, x \in {"a", "K"}}, {[op |-> "handle", a |-> <<w, "DEBUG", "a", 5>>] : w \in Who}, {[op |-> "again", a |-> <<f, "labeled", 3>>] : f \in {"context", "function"}}, {[op |-> "future", a |-> <<w, "RUNTIME", "">>] : w \in Who}, {[op |-> "complete", a |-> <<x>>] : x \in {"ok", "fails", "cancel"}},
               {[op |-> "tick", a |-> <<3>>]}, {[op |-> o, a |-> <<>>] : o \in {"got", "callable", "uptime", "exports"}}, {[op |-> "http", a |-> <<p>>] : p \in {"/metrics", "/", "/metrics2"}}, {[op |-> "stop", a |-> <<x>>] : x \in {"unstarted", "busy"}} >>
\* ---- the pool. Tasks: [sub, start, end]: times, or -1. Init: how many workers have been initialized
PInit(cfg) == [cfg |-> cfg, t |-> << >>, inits |-> 0, broken |-> FALSE, closed |-> FALSE]
Running(st) == {i \in DOMAIN st.t : st.t[i].start # -1 /\ st.t[i].end = -1}
Dur(st, x, y) == SortSeqInts([i \in 1..Len(st.t) |-> st.t[i][y] - st.t[i][x]])
PApply(st, e) ==
  LET a == e.a IN
  CASE e.op = "submit" -> IF a[1] = Len(st.t) + 1 /\ ~st.closed /\ ~st.broken THEN One([st EXCEPT !.t = Append(@, [sub |-> a[2], start |-> -1, end |-> -1, out |-> "none"])], None) ELSE {}
    [] e.op = "refused" -> IF st.closed \/ st.broken THEN One(st, None) ELSE {}
    [] e.op = "init" -> IF st.inits < st.cfg.workers THEN One([st EXCEPT !.inits = @ + 1, !.broken = st.cfg.bad], None) ELSE {}
    [] e.op = "start" -> LET i == a[1] IN      \* by a worker that has been initialized; with the name asked for
         IF i \in DOMAIN st.t /\ st.t[i].start = -1 /\ Cardinality(Running(st)) < st.cfg.workers /\ ~st.cfg.bad /\ (st.cfg.init => st.inits > Cardinality(Running(st))) /\ a[3]
         THEN One([st EXCEPT !.t[i].start = a[2]], None) ELSE {}
    [] e.op = "end" -> LET i == a[1] IN IF i \in Running(st) THEN One([st EXCEPT !.t[i].end = a[2], !.t[i].out = a[3]], None) ELSE {}
    [] e.op = "result" -> LET i == a[1] IN IF i \in DOMAIN st.t /\ (IF a[2] = "BrokenThreadPool" THEN st.broken /\ st.t[i].start = -1 ELSE st.t[i].end # -1 /\ st.t[i].out = a[2]) THEN One(st, None) ELSE {}
    [] e.op = "waiting" -> IF a[1] >= Cardinality({i \in DOMAIN st.t : st.t[i].start = -1}) - st.cfg.workers /\ a[1] <= Len(st.t) THEN One(st, None) ELSE {}     \* when asked for between
    [] e.op = "shutdown" -> One([st EXCEPT !.closed = TRUE], None)
    [] e.op = "metrics" -> IF (\A i \in DOMAIN st.t : st.t[i].end # -1) THEN One(st, <<"seq", IntSeq(Dur(st, "sub", "start")), IntSeq(Dur(st, "start", "end"))>>) ELSE {}
    [] e.op = "over" -> IF st.cfg.bad \/ \A i \in DOMAIN st.t : st.t[i].end # -1 THEN One(st, None) ELSE {}
    [] OTHER -> {}
PInv(st) == Cardinality(Running(st)) <= st.cfg.workers
PStep(st, e, r, t) == \A i \in DOMAIN st.t : (st.t[i].start # -1 => t.t[i].start = st.t[i].start) /\ (st.t[i].end # -1 => t.t[i] = st.t[i])
PCfgs == <<[workers |-> 2, init |-> FALSE, bad |-> FALSE], [workers |-> 1, init |-> TRUE, bad |-> FALSE], [workers |-> 1, init |-> TRUE, bad |-> TRUE]>>
POps(st) == << {[op |-> "submit", a |-> <<Len(st.t) + 1, 0>>] : x \in 1..(IF Len(st.t) < 3 THEN 1 ELSE 0)}, {[op |-> "init", a |-> <<>>], [op |-> "shutdown", a |-> <<>>], [op |-> "metrics", a |-> <<>>]},
               {[op |-> "start", a |-> <<i, 1, TRUE>>] : i \in DOMAIN st.t}, {[op |-> "end", a |-> <<i, 3, o>>] : i \in DOMAIN st.t, o \in {"ok", "fails"}}, {[op |-> "result", a |-> <<i, o>>] : i \in DOMAIN st.t, o \in {"ok", "fails", "BrokenThreadPool"}} >>
=========================================================================
