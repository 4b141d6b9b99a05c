------------------------------- MODULE Locks -------------------------------
(* Mutual exclusion: Monitor, RMonitor, MonitorSet, LockedDataset, LockedStructure.                       *)
(* M*: a counter that is incremented (read, pause, write) inside regions protected in every way satella    *)
(*     offers; exclusion means each such region is one atomic step.                                        *)
(* D*: a LockedDataset with explicit acquisitions; e.t is the acting thread, timeouts are in ms (-1: none, *)
(*     -2: do not block).                                                                                  *)
(* S*: MonitorSet.                                                                                        *)
EXTENDS Val
Timed(e) == "rc" \in DOMAIN e
MInit(cfg) == [n |-> 0]
MApply(st, e) ==
  CASE e.op = "incr" -> One([n |-> st.n + 1], Int_(st.n))
    [] e.op = "bump" -> One([n |-> st.n + e.a[2]], None)
    [] e.op = "boom" -> One([n |-> st.n + 1], Exc("ValueError"))
    [] e.op = "get" -> One(st, Int_(st.n))
    [] OTHER -> {}
MStep(st, e, r, t) == t.n >= st.n
MInv(st) == TRUE
MWays == {"with", "acquire", "sync", "sync_on", "sync_attr"}
MCfgs == <<[kind |-> "monitor"], [kind |-> "rmonitor"], [kind |-> "dataset"], [kind |-> "structure"], [kind |-> "list"], [kind |-> "dict"], [kind |-> "set"]>>
MOps(st) == << {[op |-> "incr", a |-> <<k>>] : k \in 1..5}, {[op |-> "boom", a |-> <<k>>] : k \in 1..5}, {[op |-> "get", a |-> <<>>]} >>

\* ------------------------------------------------------------------ LockedDataset
\* sharp (z = 1): the clock moves only when nobody can run, so that an attempt ends no later than its timeout
DInit(cfg) == [h |-> 0, v |-> 7, le |-> 0, sharp |-> cfg.z = 1]
DLate(st, e) == st.sharp /\ Timed(e) /\ e.r[1] # "pending" /\ e.rc > e.c + (IF e.a[1] < 0 THEN 0 ELSE e.a[1]) + 2
Th(e) == IF "t" \in DOMAIN e THEN e.t ELSE 1
DApply(st, e) ==
  LET t == Th(e) IN
  CASE e.op = "acq" ->
         IF st.h = 0 THEN One([st EXCEPT !.h = t], None)
         ELSE IF e.a[1] = -1 \/ DLate(st, e) THEN {}
         ELSE IF e.a[1] = -2 \/ ~Timed(e) THEN One(st, Exc("WouldWaitMore"))
         ELSE IF e.rc < e.c + e.a[1] THEN {}
         ELSE One([st EXCEPT !.le = Max2(@, e.c + e.a[1])], Exc("WouldWaitMore"))
    \* a method locking the dataset for itself, with such arguments
    [] e.op = "mget" ->
         IF st.h = 0 THEN One(st, Int_(st.v))
         ELSE IF e.a[1] = -1 \/ DLate(st, e) THEN {}
         ELSE IF e.a[1] = -2 \/ ~Timed(e) THEN One(st, Exc("WouldWaitMore"))
         ELSE IF e.rc < e.c + e.a[1] THEN {}
         ELSE One([st EXCEPT !.le = Max2(@, e.c + e.a[1])], Exc("WouldWaitMore"))
    [] e.op = "rel" -> IF st.h # t THEN One(st, Str_("idle"))
                       ELSE IF Timed(e) /\ e.rc < st.le THEN {}
                       ELSE One([st EXCEPT !.h = 0], None)
    [] e.op = "get" -> IF st.h = t THEN One(st, Int_(st.v))
                       ELSE IF st.h = 0 THEN One(st, Exc("ResourceNotLocked"))
                       ELSE One(st, Int_(st.v)) \cup One(st, Exc("ResourceNotLocked"))
    [] e.op = "set" -> IF st.h = t THEN One([st EXCEPT !.v = e.a[1]], None)
                       ELSE IF st.h = 0 THEN One(st, Exc("ResourceNotLocked"))
                       ELSE One([st EXCEPT !.v = e.a[1]], None) \cup One(st, Exc("ResourceNotLocked"))
    [] e.op = "sleep" -> One(st, None)
    [] OTHER -> {}
DStep(st, e, r, t) == /\ (e.op = "set" /\ r = None) => st.h # 0
                      /\ (st.h # 0 /\ t.h # 0) => st.h = t.h     \* the lock passes only through being free
DInv(st) == TRUE
DCfgs == <<[z |-> 0]>>
DOps(st) == << {[op |-> o, a |-> <<k>>] : o \in {"acq", "mget"}, k \in {-2, -1, 0, 1000}}, {[op |-> o, a |-> <<>>] : o \in {"rel", "get"}},
               {[op |-> "set", a |-> <<x>>] : x \in 1..2} >>

\* ------------------------------------------------------------------ MonitorSet
SInit0(cfg) == [s |-> {}]
SApply0(st, e) ==
  CASE e.op = "insert" -> One([s |-> st.s \cup {e.a[1]}], Bool_(e.a[1] \notin st.s))
    [] e.op = "discard" -> One([s |-> st.s \ {e.a[1]}], None)
    [] e.op = "contains" -> One(st, Bool_(e.a[1] \in st.s))
    [] e.op = "dump" -> One(st, IntSeq(SortInts(st.s)))
    [] OTHER -> {}
MSInit(cfg) == SInit0(cfg)
MSApply(st, e) == SApply0(st, e)
MSStep(st, e, r, t) == (e.op = "insert") => (r = Bool_(TRUE)) = (st.s # t.s)
MSInv(st) == TRUE
MSCfgs == <<[z |-> 0]>>
MSOps(st) == << {[op |-> o, a |-> <<x>>] : o \in {"insert", "discard", "contains"}, x \in 1..3}, {[op |-> "dump", a |-> <<>>]} >>
=============================================================================
