------------------------------ MODULE Futures ------------------------------
(* V*: DeferredValue - a value assigned at most once.                                                     *)
(* F*: Future / WrappingFuture - one outcome, decided once, after the pre-done callbacks have had their    *)
(*     say, then shown to everybody; every done callback runs exactly once.                                *)
(* C*: FutureCollection over three futures.                                                                *)
EXTENDS Val
Timed(e) == "rc" \in DOMAIN e
\* ------------------------------------------------------------------ DeferredValue
\* z = 1: the clock moves only when nobody can run, so that a wait ends no later than its timeout
VLate(st, e) == st.sharp /\ Timed(e) /\ e.a[1] >= 0 /\ e.r[1] # "pending" /\ e.rc > e.c + e.a[1] + 2
VInit(cfg) == [sharp |-> cfg.z = 1, v |-> 0, le |-> 0]          \* values are positive
VApply(st, e) ==
  CASE e.op = "set" -> IF st.v # 0 THEN One(st, Exc("ValueError"))
                       ELSE IF Timed(e) /\ e.rc < st.le THEN {}
                       ELSE One([st EXCEPT !.v = e.a[1]], None)
    [] e.op \in {"value", "result"} ->
         IF VLate(st, e) THEN {} ELSE IF st.v # 0 THEN One(st, Int_(st.v))
         ELSE IF e.a[1] < 0 THEN {}
         ELSE IF ~Timed(e) THEN One(st, Exc("WouldWaitMore"))
         ELSE IF e.rc < e.c + e.a[1] THEN {}
         ELSE One([st EXCEPT !.le = Max2(@, e.c + e.a[1])], Exc("WouldWaitMore"))
    [] e.op = "sleep" -> One(st, None)
    [] OTHER -> {}
VStep(st, e, r, t) == st.v # 0 => t.v = st.v
VInv(st) == TRUE
VCfgs == <<[z |-> 0]>>
VOps(st) == << {[op |-> "set", a |-> <<x>>] : x \in 1..3}, {[op |-> o, a |-> <<t>>] : o \in {"value", "result"}, t \in {-1, 0, 1000}} >>

\* ------------------------------------------------------------------ Future
\* st: pending, running, cancelled, notified (cancelled and told so), done
\* val: <<"int", n>> or <<"exc", name>>; pre: registered pre-done callbacks; cbs: registered done callbacks
\* log: ascending sequence of codes of the callbacks that were called: id * 1000 + what they were shown
FInit(cfg) == [wrap |-> cfg.kind # "future", sharp |-> "sharp" \in DOMAIN cfg, st |-> "pending", val |-> None, pre |-> <<>>, cbs |-> <<>>, log |-> <<>>, le |-> 0]
ILeq(a, b) == a <= b
RECURSIVE InsAll(_, _)
InsAll(q, xs) == IF xs = <<>> THEN q ELSE InsAll(InsSorted(q, Head(xs), ILeq), Tail(xs))
\* one pre-done callback: "inc" adds one to a result, "fail" replaces by an exception, "mend" turns an
\* exception into the result 50, "boom" raises (which is ignored)
PreOne(v, f) == CASE f = "inc" -> IF v[1] = "int" THEN Int_(v[2] + 1) ELSE v
                  [] f = "fail" -> Exc("KeyError")
                  [] f = "mend" -> IF v[1] = "exc" THEN Int_(50) ELSE v
                  [] OTHER -> v
RECURSIVE PreAll(_, _)
PreAll(v, fs) == IF fs = <<>> THEN v ELSE PreAll(PreOne(v, Head(fs)), Tail(fs))
Shown(s) == IF s.st \in {"cancelled", "notified"} THEN 998 ELSE IF s.val[1] = "exc" THEN 999 ELSE s.val[2]
\* cb = <<kind, id>>; which codes a callback leaves when it runs
Codes(s, cb) == LET x == Shown(s) IN
   CASE cb[1] \in {"done", "note"} -> <<cb[2] * 1000 + x>>
     [] cb[1] = "on_success" -> IF x < 998 THEN <<cb[2] * 1000 + x>> ELSE <<>>
     [] cb[1] = "on_failure" -> IF x = 999 THEN <<cb[2] * 1000 + x>> ELSE <<>>
     [] cb[1] = "chain" -> IF x = 998 THEN <<>> ELSE <<cb[2] * 1000 + x>>
     [] OTHER -> <<>>
RECURSIVE AllCodes(_, _)
AllCodes(s, cbs) == IF cbs = <<>> THEN <<>> ELSE Codes(s, Head(cbs)) \o AllCodes(s, Tail(cbs))
Over(s) == s.st \in {"done", "cancelled", "notified"}
Finish(s, v) == LET n == [s EXCEPT !.st = "done", !.val = PreAll(v, s.pre)]
                IN [n EXCEPT !.log = InsAll(@, AllCodes(n, s.cbs)), !.cbs = <<>>]
WaitOr(st, e, r) == IF VLate(st, e) THEN {} ELSE IF Over(st) THEN One(st, r)
                    ELSE IF e.a[1] < 0 THEN {}
                    ELSE IF ~Timed(e) THEN One(st, Exc("TimeoutError"))
                    ELSE IF e.rc < e.c + e.a[1] THEN {}
                    ELSE One([st EXCEPT !.le = Max2(@, e.c + e.a[1])], Exc("TimeoutError"))
Late(st, e) == Timed(e) /\ e.rc < st.le
FApply(st, e) ==
  CASE e.op \in {"set", "setexc"} ->
         IF Over(st) THEN One(st, Exc("InvalidStateError"))
         ELSE IF Late(st, e) THEN {}
         ELSE One(Finish(st, IF e.op = "set" THEN Int_(e.a[1]) ELSE Exc("ValueError")), None)
    [] e.op = "run" -> CASE st.st = "pending" -> One([st EXCEPT !.st = "running"], Bool_(TRUE))
                         [] st.st = "cancelled" -> One([st EXCEPT !.st = "notified"], Bool_(FALSE))
                         [] OTHER -> One(st, Exc("RuntimeError"))
    [] e.op = "cancel" -> CASE st.st \in {"cancelled", "notified"} -> One(st, Bool_(TRUE))
                            [] st.st = "pending" -> IF Late(st, e) THEN {} ELSE
                                 LET n == [st EXCEPT !.st = "cancelled"]
                                 IN One([n EXCEPT !.log = InsAll(@, AllCodes(n, st.cbs)), !.cbs = <<>>], Bool_(TRUE))
                            [] OTHER -> One(st, Bool_(FALSE))
    [] e.op = "result" -> WaitOr(st, e, IF st.st = "done" THEN st.val ELSE Exc("CancelledError"))
    [] e.op = "exception" -> WaitOr(st, e, IF st.st # "done" THEN Exc("CancelledError")
                                           ELSE IF st.val[1] = "exc" THEN st.val ELSE None)
    \* concurrent.futures.wait/as_completed: is it done (a cancelled future only counts when it was told so; a wrapping one may count before)
    [] e.op = "cfwait" -> (IF st.st = "cancelled" /\ st.wrap THEN One(st, Bool_(TRUE)) ELSE {}) \cup
                          IF VLate(st, e) THEN {} ELSE IF st.st \in {"done", "notified"} THEN One(st, Bool_(TRUE))
                          ELSE IF e.a[1] < 0 THEN {}
                          ELSE IF ~Timed(e) THEN One(st, Bool_(FALSE))
                          ELSE IF e.rc < e.c + e.a[1] THEN {}
                          ELSE One([st EXCEPT !.le = Max2(@, e.c + e.a[1])], Bool_(FALSE))
    [] e.op = "done" -> One(st, Bool_(Over(st)))
    [] e.op = "cancelled" -> One(st, Bool_(st.st \in {"cancelled", "notified"}))
    [] e.op = "running" -> One(st, Bool_(st.st = "running"))
    [] e.op = "pre" -> One(IF Over(st) THEN st ELSE [st EXCEPT !.pre = Append(@, e.a[1])], None)
    \* a pre-done callback added too late is called at once; it can not change anything any more
    [] e.op = "prenote" -> IF Over(st) THEN One([st EXCEPT !.log = InsAll(@, Codes(st, <<"note", e.a[1]>>))], None) ELSE One(st, Str_("skip"))
    [] e.op = "cb" -> LET cb == <<e.a[1], e.a[2]>> IN
                      IF Over(st) THEN One([st EXCEPT !.log = InsAll(@, Codes(st, cb))], None)
                      ELSE One([st EXCEPT !.cbs = Append(@, cb)], None)
    [] e.op = "log" -> One(st, IntSeq(st.log))
    [] e.op = "sleep" -> One(st, None)
    [] OTHER -> {}
FStep(st, e, r, t) == /\ Over(st) => (t.val = st.val /\ Over(t))        \* the outcome is decided once
                      /\ st.st = "running" => t.st # "cancelled"
                      /\ Len(t.log) >= Len(st.log)
FInv(st) == Over(st) => st.cbs = <<>>
FCfgs == <<[kind |-> "future"], [kind |-> "wrap"]>>
FOps(st) == << {[op |-> "set", a |-> <<x>>] : x \in {5}}, {[op |-> "setexc", a |-> <<>>]},
               {[op |-> o, a |-> <<>>] : o \in {"run", "cancel", "done", "cancelled", "running", "log"}},
               {[op |-> o, a |-> <<t>>] : o \in {"result", "exception", "cfwait"}, t \in {0, 1000}},
               {[op |-> "prenote", a |-> <<Len(st.cbs) + Len(st.log) + 1>>] : x \in IF Over(st) /\ Len(st.log) < 2 THEN {0} ELSE {}},
               {[op |-> "pre", a |-> <<f>>] : f \in IF Len(st.pre) < 2 THEN {"inc", "fail", "mend", "boom"} ELSE {}},
               {[op |-> "cb", a |-> <<f, Len(st.cbs) + Len(st.log) + 1>>] :
                    f \in IF Len(st.cbs) + Len(st.log) < 2 THEN {"done", "on_success", "on_failure", "chain"} ELSE {}} >>

\* ------------------------------------------------------------------ FutureCollection of three futures
\* each future: pending, running, cancelled, done, failed
CInit(cfg) == [f |-> cfg.f, n |-> 0]
COver(x) == x \in {"cancelled", "notified", "done", "failed"}
CRes(x, k) == CASE x = "done" -> Int_(k) [] x = "failed" -> Exc("ValueError") [] OTHER -> Exc("CancelledError")
\* the first future (in order) that decides the answer of a blocking call with a timeout
CFirst(st, P(_)) == IF \E k \in 1..Len(st.f) : P(st.f[k])
                    THEN CHOOSE k \in 1..Len(st.f) : P(st.f[k]) /\ \A j \in 1..(k - 1) : ~P(st.f[j]) ELSE 0
CApply(st, e) ==
  LET D == 1..Len(st.f) IN
  CASE e.op = "one" -> \* finish, fail or cancel one future directly
         LET k == e.a[1] x == st.f[k] IN
         (CASE e.a[2] = "run" /\ x = "pending" -> One([st EXCEPT !.f[k] = "running"], Bool_(TRUE))
            [] e.a[2] = "cancel" /\ x = "pending" -> One([st EXCEPT !.f[k] = "cancelled"], Bool_(TRUE))
            [] e.a[2] = "set" /\ ~COver(x) -> One([st EXCEPT !.f[k] = "done"], None)
            [] e.a[2] = "fail" /\ ~COver(x) -> One([st EXCEPT !.f[k] = "failed"], None)
            [] OTHER -> One(st, Str_("skip")))
    [] e.op = "cancel" -> One([st EXCEPT !.f = [k \in D |-> IF @[k] = "pending" THEN "cancelled" ELSE @[k]]],
                              Bool_(\A k \in D : st.f[k] \in {"pending", "cancelled", "notified"}))
    \* only called when every future is pending or cancelled
    [] e.op = "run" -> IF \A k \in D : st.f[k] \in {"pending", "cancelled"}
                       THEN One([st EXCEPT !.f = [k \in D |-> IF @[k] = "pending" THEN "running" ELSE "notified"]],
                                Bool_(\E k \in D : st.f[k] = "pending"))
                       ELSE One(st, Str_("skip"))
    [] e.op = "set" -> IF \A k \in D : ~COver(st.f[k]) THEN One([st EXCEPT !.f = [k \in D |-> "done"]], None) ELSE One(st, Str_("skip"))
    [] e.op = "fail" -> IF \A k \in D : ~COver(st.f[k]) THEN One([st EXCEPT !.f = [k \in D |-> "failed"]], None) ELSE One(st, Str_("skip"))
    [] e.op = "result" -> LET k == CFirst(st, LAMBDA x : x # "done") IN
                          IF k = 0 THEN One(st, IntSeq([j \in D |-> 7])) ELSE One(st, IF COver(st.f[k]) THEN CRes(st.f[k], k) ELSE Exc("WouldWaitMore"))
    [] e.op = "exception" -> LET k == CFirst(st, LAMBDA x : x # "done") IN
                             IF k = 0 THEN One(st, None)
                             ELSE One(st, IF ~COver(st.f[k]) THEN Exc("WouldWaitMore") ELSE CRes(st.f[k], k))
    [] e.op = "states" -> One(st, StrSeq([k \in D |-> CASE st.f[k] = "notified" -> "cancelled" [] st.f[k] = "failed" -> "done" [] OTHER -> st.f[k]]))
    [] e.op = "count" -> One(st, Int_(Cardinality({k \in D : COver(st.f[k])})))
    [] OTHER -> {}
CStep(st, e, r, t) == \A k \in 1..Len(st.f) : COver(st.f[k]) => COver(t.f[k])
CInv(st) == TRUE
CCfgs == <<[f |-> <<"pending", "pending", "pending">>]>>
COps(st) == << {[op |-> "one", a |-> <<k, w>>] : k \in 1..3, w \in {"run", "cancel", "set", "fail"}},
               {[op |-> o, a |-> <<>>] : o \in {"cancel", "run", "set", "fail", "result", "exception", "states", "count"}} >>

\* ------------------------------------------------------------------ building collections; futures are known by their numbers
LInit(cfg) == [a |-> cfg.a, b |-> <<>>]
LApply(st, e) ==
  CASE e.op = "plus" -> One([st EXCEPT !.b = st.a \o e.a[2]], None)              \* a[1]: how the other operand is given
    [] e.op = "iplus" -> One([st EXCEPT !.a = @ \o e.a[2]], None)
    [] e.op = "plusb" -> One([st EXCEPT !.a = st.a \o st.b], None)
    [] e.op = "iplusb" -> One([st EXCEPT !.a = st.a \o st.b], None)
    [] e.op = "swap" -> One([a |-> st.b, b |-> st.a], None)
    [] e.op = "add" -> One([st EXCEPT !.a = Append(@, e.a[1])], Str_("self"))
    [] e.op = "items" -> One(st, <<"seq", IntSeq(st.a), IntSeq(st.b), Int_(Len(st.a)), Int_(Len(st.b))>>)
    [] e.op = "get" -> One(st, IF e.a[1] <= Len(st.a) THEN Int_(st.a[e.a[1]]) ELSE Exc("IndexError"))
    \* every future k has the result 10 * k, or failed if k is in fails
    [] e.op = "result" -> LET F == {k \in 1..Len(st.a) : st.a[k] \in Range(e.a[1])} IN
                          One(st, IF F = {} THEN IntSeq([k \in 1..Len(st.a) |-> 10 * st.a[k]]) ELSE Int_(-st.a[(CHOOSE m \in F : \A j \in F : m <= j)]))
    [] e.op = "exception" -> LET F == {k \in 1..Len(st.a) : st.a[k] \in Range(e.a[1])} IN
                          One(st, IF F = {} THEN None ELSE Int_(-st.a[(CHOOSE m \in F : \A j \in F : m <= j)]))
    [] e.op = "cb" -> One(st, IF e.a[1] THEN (IF st.a = <<>> THEN Exc("IndexError") ELSE Int_(1)) ELSE Int_(Len(st.a)))
    [] OTHER -> {}
LInv(st) == TRUE
LStep(st, e, r, t) == (e.op = "plus") => t.a = st.a
LCfgs == <<[a |-> <<>>], [a |-> <<3, 1, 2>>]>>
LOps(st) == << {[op |-> o, a |-> <<k, q>>] : o \in {"plus", "iplus"}, k \in {"coll", "list", "tuple"}, q \in {<<>>, <<4, 1>>}},
               {[op |-> o, a |-> <<"one", <<5>>>>] : o \in {"plus", "iplus"}},
               {[op |-> "add", a |-> <<2>>]}, {[op |-> "get", a |-> <<k>>] : k \in {1, 3}},
               {[op |-> o, a |-> <<f>>] : o \in {"result", "exception"}, f \in {<<>>, <<1, 2>>}},
               {[op |-> "cb", a |-> <<o>>] : o \in BOOLEAN},
               {[op |-> o, a |-> <<>>] : o \in {"plusb", "iplusb", "swap", "items"}} >>
=============================================================================
