------------------------------- MODULE Tracing -------------------------------
(* spans around calls and futures; what is logged of exceptions; futures of Cassandra                        *)
EXTENDS Val
(* F: functions, each call of which is in a span with tags; the functions made once, called any number of times *)
Tags == <<"none", "static", "empty">>
Facs == <<"none", "list", "dict", "empty">>
FCfgs == <<[t |-> "none", f |-> "none"], [t |-> "static", f |-> "none"], [t |-> "none", f |-> "list"], [t |-> "static", f |-> "list"], [t |-> "static", f |-> "dict"], [t |-> "none", f |-> "dict"], [t |-> "empty", f |-> "list"]>>
FInit(cfg) == [t |-> cfg.t, f |-> cfg.f, n |-> 0, open |-> 0, done |-> 0]
FOps(st) == <<{[op |-> "call", a |-> <<k, x, how>>] : k \in {1}, x \in {3, 5}, how \in {"returns", "raises", "swallowed"}}, {[op |-> "nested", a |-> <<d>>] : d \in {1, 2}}, {[op |-> o, a |-> <<>>] : o \in {"spans", "tags"}}>>
(* the tags of the call are those given, and those computed of its arguments *)
TagsOf(st, x) == (IF st.t = "static" THEN <<Str_("a=1")>> ELSE <<>>) \o (IF st.f \in {"list", "dict"} THEN <<Str_(IF x = 3 THEN "b=3" ELSE IF x = 5 THEN "b=5" ELSE IF x = 1 THEN "b=1" ELSE IF x = 2 THEN "b=2" ELSE "b=0"), Str_("c=9")>> ELSE <<>>)
FApply(st, e) ==
    CASE e.op = "call" -> One([st EXCEPT !.n = @ + 1, !.done = @ + 1], Seq_(<<Int_(st.n + 1), Seq_(TagsOf(st, e.a[2])), Bool_(TRUE), Bool_(TRUE),
                              IF e.a[3] = "returns" THEN Int_(e.a[2] + 1) ELSE IF e.a[3] = "raises" THEN Exc("ValueError") ELSE None>>))
      [] e.op = "nested" -> One([st EXCEPT !.n = @ + e.a[1] + 1, !.done = @ + e.a[1] + 1], Seq_([k \in 1..(e.a[1] + 1) |-> Seq_(TagsOf(st, e.a[1] + 1 - k))]))
      [] e.op = "spans" -> One(st, IntSeq(<<st.n, st.done>>))
      (* the tags given are as they were *)
      [] e.op = "tags" -> One(st, Bool_(TRUE))
FInv(st) == st.done = st.n
FStep(st, e, r, t) == t.n >= st.n

(* U: futures: a span is finished when, and only when, its future is done, once, with the exception if any *)
Max == 2
UCfgs == <<[x |-> 0]>>
UInit(cfg) == [f |-> <<>>]
Kinds == {"future", "cassandra"}
UOps(st) == <<{[op |-> "new", a |-> <<k>>] : k \in IF Len(st.f) < Max THEN Kinds ELSE {}}, {[op |-> "trace", a |-> <<i>>] : i \in {j \in 1..Len(st.f) : st.f[j].traced < 1}},
              {[op |-> "finish", a |-> <<i, how>>] : i \in {j \in 1..Len(st.f) : st.f[j].st = "pending"}, how \in {"result", "exception"}},
              {[op |-> "cancel", a |-> <<i>>] : i \in {j \in 1..Len(st.f) : st.f[j].st = "pending" /\ st.f[j].k = "future"}},
              {[op |-> "look", a |-> <<i>>] : i \in 1..Len(st.f)}, {[op |-> "wrap", a |-> <<i>>] : i \in {j \in 1..Len(st.f) : ~st.f[j].wrapped}}, {[op |-> "wrapped", a |-> <<i>>] : i \in {j \in 1..Len(st.f) : st.f[j].wrapped}}>>
State(f) == IF f.st = "pending" THEN Str_(IF f.k = "cassandra" THEN "running" ELSE "pending") ELSE IF f.st = "result" THEN Int_(7) ELSE IF f.st = "exception" THEN Exc("ValueError") ELSE Exc("CancelledError")
UApply(st, e) ==
    CASE e.op = "new" -> One([f |-> Append(st.f, [k |-> e.a[1], st |-> "pending", traced |-> 0, wrapped |-> FALSE])], Int_(Len(st.f) + 1))
      [] e.op = "trace" -> One([st EXCEPT !.f[e.a[1]].traced = @ + 1], None)
      [] e.op = "finish" -> One([st EXCEPT !.f[e.a[1]].st = e.a[2]], None)
      [] e.op = "cancel" -> One([st EXCEPT !.f[e.a[1]].st = "cancelled"], Bool_(TRUE))
      [] e.op = "look" -> LET f == st.f[e.a[1]] done == f.traced = 1 /\ f.st # "pending" IN
                          (* times finished; error tag; the exception itself was logged, with its kind *)
                          One(st, Seq_(<<Int_(IF done THEN 1 ELSE 0)>> \o IF done /\ f.st = "cancelled" THEN <<>> ELSE <<Bool_(done /\ f.st = "exception"), Bool_(done /\ f.st = "exception")>>))
      [] e.op = "wrap" -> One([st EXCEPT !.f[e.a[1]].wrapped = TRUE], Bool_(st.f[e.a[1]].k = "future"))
      [] e.op = "wrapped" -> One(st, State(st.f[e.a[1]]))
UInv(st) == \A i \in 1..Len(st.f) : st.f[i].k = "cassandra" => st.f[i].st # "cancelled"
UStep(st, e, r, t) == \A i \in 1..Len(st.f) : st.f[i].st # "pending" => t.f[i].st = st.f[i].st

(* E: logging of an exception: given whole, in part, or the one being handled                               *)
ECfgs == UCfgs
EInit(cfg) == [limit |-> 65536]
EOps(st) == <<{[op |-> "trace", a |-> <<given, handling, depth, limit>>] : given \in {"nothing", "type", "value", "all", "no span"}, handling \in BOOLEAN, depth \in {0, 2}, limit \in {0, 40, 100000}},
              {[op |-> "set_limit", a |-> <<n>>] : n \in {30, 200000}}>>
EApply(st, e) ==
    CASE e.op = "set_limit" -> One([limit |-> e.a[1]], None)
      [] e.op = "trace" -> LET given == e.a[1] lim == IF e.a[4] = 0 THEN st.limit ELSE e.a[4] IN
                           IF given = "no span" \/ (given = "nothing" /\ ~e.a[2]) THEN One(st, IntSeq(<<0>>))
                           ELSE One(st, Seq_(<<Int_(1), Bool_(TRUE), Str_("error"), Str_("message"), Str_("ValueError"), Bool_(TRUE), Bool_(lim <= 40), Bool_(lim > 40)>>))
EInv(st) == st.limit > 0
EStep(st, e, r, t) == e.op = "trace" => t = st
=============================================================================
