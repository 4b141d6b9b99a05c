------------------------------ MODULE Db ------------------------------
(* transaction() and Loadable.                                                                                                                                          *)
EXTENDS Val
\* ---- calls made on a connection. o: [body, close, getter, commit, rollback, curclose] being "ok" or "fails" where these are outcomes; get: how the connection is given
GotYet(o) == IF o.get = "conn" THEN <<>> ELSE <<"get">>
Calls(o) == GotYet(o) \o <<"cursor">> \o (IF o.body = "ok" THEN <<"commit">> ELSE <<"rollback">>) \o <<"cursor.close">> \o (IF o.close THEN <<"close">> ELSE <<>>)
Fails(o) == (IF o.body = "fails" THEN {"BodyError"} ELSE IF o.body = "ok" THEN {} ELSE {o.body}) \cup (IF o.body = "ok" /\ o.commit = "fails" THEN {"CommitError"} ELSE {}) \cup (IF o.body # "ok" /\ o.rollback = "fails" THEN {"RollbackError"} ELSE {})
            \cup (IF o.curclose = "fails" THEN {"CursorError"} ELSE {})
XInit(cfg) == [rows |-> <<>>, fresh |-> cfg.lazy, n |-> IF cfg.lazy THEN 0 ELSE 1, from |-> "db"]
XApply(st, e) ==
  LET a == e.a IN
  CASE e.op = "calls" -> IF Fails(a[1]) = {} THEN One(st, <<"seq", StrSeq(Calls(a[1])), None>>) ELSE {[s |-> st, r |-> <<"seq", StrSeq(Calls(a[1])), Str_(x)>>] : x \in Fails(a[1])}
    \* was it logged
    [] e.op = "logged" -> One(st, Bool_(a[1] /\ a[2] = "fails"))
    \* inserting rows in a transaction with a real database; "fail": an exception is raised after that many
    [] e.op = "insert" -> IF a[2] = -1 THEN One([st EXCEPT !.rows = @ \o a[1]], None) ELSE One(st, Exc("BodyError"))
    [] e.op = "rows" -> One(st, IntSeq(st.rows))
    \* ---- an object loaded lazily or not: fresh: not loaded yet; n: how many times has it been loaded; from: what has it been loaded from
    [] e.op = "method" -> IF st.fresh THEN (IF a[1] = "refresh_fails" THEN One([st EXCEPT !.n = @ + 1], Exc("LoadError")) ELSE One([st EXCEPT !.fresh = FALSE, !.n = @ + 1, !.from = "db"], <<"seq", Str_("db"), Int_(st.n + 1)>>))
                          ELSE One(st, <<"seq", Str_(st.from), Int_(st.n)>>)
    [] e.op = "refresh" -> One([st EXCEPT !.fresh = FALSE, !.n = @ + 1, !.from = a[1]], None)
    [] e.op = "unguarded" -> One(st, Int_(st.n))
    [] e.op = "foreign" -> One(st, Exc("AssertionError"))
    [] OTHER -> {}
XInv(st) == st.fresh => st.from = "db"
\* what was committed stays, and a method that works sees a loaded object
XStep(st, e, r, t) == /\ SubSeq(t.rows, 1, Len(st.rows)) = st.rows
                      /\ (e.op = "method" /\ r[1] # "exc") => ~t.fresh
XCfgs == <<[lazy |-> TRUE], [lazy |-> FALSE]>>
XOps(st) == << {[op |-> "insert", a |-> <<q, f>>] : q \in {<<1>>, <<2, 3>>}, f \in {-1, 0, 1}}, {[op |-> "rows", a |-> <<>>]}, {[op |-> "method", a |-> <<m>>] : m \in {"ok", "refresh_fails"}}, {[op |-> "refresh", a |-> <<x>>] : x \in {"db", "given"}}, {[op |-> "unguarded", a |-> <<>>], [op |-> "foreign", a |-> <<>>]} >>
\* the same, each combination of options
CInit(cfg) == XInit([lazy |-> TRUE])
CApply(st, e) == XApply(st, e)
CInv(st) == TRUE
CStep(st, e, r, t) == t = st
CCfgs == <<[x |-> 0]>>
OF == {"ok", "fails"}
COps(st) == << {[op |-> "calls", a |-> <<[body |-> b, close |-> c, get |-> g, commit |-> m, rollback |-> k, curclose |-> u]>>] : b \in OF \cup {"KeyboardInterrupt", "StopIteration", "GeneratorExit", "SystemExit"}, c \in BOOLEAN, g \in {"conn", "function", "lambda", "method", "partial", "object", "class"}, m \in OF, k \in OF, u \in OF},
               {[op |-> "logged", a |-> <<l, b, c>>] : l \in BOOLEAN, b \in OF, c \in BOOLEAN} >>
=======================================================================
