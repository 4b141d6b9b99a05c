----------------------------- MODULE Callbacks -----------------------------
(* G*: CallableGroup of (cancellable) callbacks.  A callback is [id, kind, one]: kind "ok" answers          *)
(*     10*id + argument, "raise" raises ValueError, "adder" registers a new "ok" callback when called,      *)
(*     "cnext" cancels the callback with the next id.                                                       *)
(* R*: CallNoOftenThan with a clock in ms.                                                                 *)
EXTENDS Val
GInit(cfg) == [q |-> <<>>, kinds |-> <<>>, cancelled |-> {}, n |-> 0, log |-> <<>>, gather |-> cfg.gather, swallow |-> cfg.swallow]
Keep(st) == FilterSeq(st.q, LAMBDA c : c.id \notin st.cancelled)
\* run the callbacks q one after another; acc = [st, res, stop]
RECURSIVE GRun(_, _, _, _)
GRun(st, q, x, res) ==
  IF q = <<>> THEN [s |-> st, r |-> IF st.gather THEN <<"seq">> \o res ELSE None]
  ELSE LET c == Head(q)
           s1 == [st EXCEPT !.log = Append(@, c.id), !.q = IF c.one THEN FilterSeq(@, LAMBDA d : d.id # c.id) ELSE @]
           s2 == IF c.kind = "adder" THEN [s1 EXCEPT !.n = @ + 1, !.q = Append(@, [id |-> st.n + 1, kind |-> "ok", one |-> FALSE])] ELSE s1
           s3 == IF c.kind = "cnext" /\ c.id < st.n THEN [s2 EXCEPT !.cancelled = @ \cup {c.id + 1}] ELSE s2
       IN IF c.id \in st.cancelled     \* cancelled by a callback before it
          THEN GRun([st EXCEPT !.q = IF c.one THEN FilterSeq(@, LAMBDA d : d.id # c.id) ELSE @], Tail(q), x, Append(res, None))
          ELSE IF c.kind = "raise"
          THEN IF st.swallow THEN GRun(s1, Tail(q), x, Append(res, Exc("ValueError"))) ELSE [s |-> s1, r |-> Exc("ValueError")]
          ELSE GRun(s3, Tail(q), x, Append(res, Int_(10 * c.id + x)))
GApply(st, e) ==
  CASE e.op = "add" -> One([st EXCEPT !.n = @ + 1, !.kinds = FnSet(@, st.n + 1, e.a[1]), !.q = Append(@, [id |-> st.n + 1, kind |-> e.a[1], one |-> e.a[2]])], Int_(st.n + 1))
    \* registering it once more: nothing happens if it is registered, else it is registered anew
    [] e.op = "again" -> IF e.a[1] > st.n THEN One(st, Str_("none"))
                         ELSE IF \E k \in 1..Len(st.q) : st.q[k].id = e.a[1] THEN One(st, None)
                         ELSE One([st EXCEPT !.q = Append(@, [id |-> e.a[1], kind |-> IF e.a[1] \in DOMAIN st.kinds THEN st.kinds[e.a[1]] ELSE "ok", one |-> e.a[2]])], None)
    [] e.op = "cancel" -> One(IF e.a[1] <= st.n THEN [st EXCEPT !.cancelled = @ \cup {e.a[1]}] ELSE st, None)
    [] e.op = "has_cancelled" -> One(st, Bool_(\E k \in 1..Len(st.q) : st.q[k].id \in st.cancelled))
    [] e.op = "remove_cancelled" -> One([st EXCEPT !.q = Keep(st)], None)
    [] e.op = "truth" -> One(st, Bool_(e.a[1] \notin st.cancelled))
    [] e.op = "direct" -> IF e.a[1] > st.n THEN One(st, Str_("none")) ELSE
                          IF e.a[1] \in st.cancelled THEN One(st, None) ELSE One(st, Str_("called"))
    [] e.op = "call" -> LET s1 == [st EXCEPT !.q = Keep(st)] IN {GRun(s1, s1.q, e.a[1], <<>>)}
    [] e.op = "log" -> One([st EXCEPT !.log = <<>>], IntSeq(st.log))
    [] OTHER -> {}
GStep(st, e, r, t) ==
  \* whatever happens, only one-shot and cancelled callbacks get unregistered
  /\ (e.op = "call") => \A k \in 1..Len(st.q) : (~st.q[k].one /\ st.q[k].id \notin st.cancelled) => st.q[k] \in Range(t.q)
  /\ (e.op = "call") => \A k \in 1..Len(t.q) : t.q[k].id \notin st.cancelled
  /\ (e.op = "call" /\ r[1] # "exc") => \A k \in 1..Len(t.q) : ~t.q[k].one
GInv(st) == TRUE
GCfgs == <<[gather |-> TRUE, swallow |-> FALSE], [gather |-> TRUE, swallow |-> TRUE], [gather |-> FALSE, swallow |-> FALSE], [gather |-> FALSE, swallow |-> TRUE]>>
GOps(st) == << {[op |-> "add", a |-> <<k, o>>] : k \in IF st.n < 3 THEN {"ok", "raise", "adder", "cnext"} ELSE {}, o \in BOOLEAN},
               {[op |-> "cancel", a |-> <<k>>] : k \in 1..Min2(st.n, 3)},
               {[op |-> "again", a |-> <<k, o>>] : k \in 1..Min2(st.n, 2), o \in BOOLEAN},
               {[op |-> "truth", a |-> <<k>>] : k \in 1..Min2(st.n, 1)},
               {[op |-> o, a |-> <<>>] : o \in {"has_cancelled", "remove_cancelled", "log"}},
               {[op |-> "call", a |-> <<1>>] : z \in IF st.n < 5 /\ Len(st.log) < 5 THEN {0} ELSE {}} >>

RInit(cfg) == [last |-> -1, now |-> 0, iv |-> cfg.iv, n |-> 0]
RApply(st, e) ==
  CASE e.op = "tick" -> One([st EXCEPT !.now = @ + e.a[1]], None)
    \* a[1]: argument, a[2]: how long the callable takes
    [] e.op = "call" -> IF st.last = -1 \/ st.now - st.last >= st.iv
                        THEN One([st EXCEPT !.last = st.now + e.a[2], !.now = @ + e.a[2], !.n = @ + 1], Int_(e.a[1] * 2))
                        ELSE One(st, None)
    [] e.op = "count" -> One(st, Int_(st.n))
    [] OTHER -> {}
RStep(st, e, r, t) == (e.op = "call" /\ r # None /\ st.last # -1) => st.now - st.last >= st.iv
RInv(st) == TRUE
\* the last one: an interval longer than the computer has been running for
RCfgs == <<[iv |-> 1000], [iv |-> 2500], [iv |-> 10000000]>>
ROps(st) == << {[op |-> "call", a |-> <<3, d>>] : d \in {0, 700}}, {[op |-> "tick", a |-> <<d>>] : d \in {500, 1000}}, {[op |-> "count", a |-> <<>>]} >>
=============================================================================
