--------------------------------- MODULE Hooks --------------------------------
(* GlobalExcepthook.  cfg.h: the hooks, [kind, prio, act]; kind "fun" (a function), "obj" (a BaseExceptionHandler of its own), "mem" (MemoryErrorExceptionHandler with a custom hook) *)
(* act: what it does: "pass" (nothing returned), "stop" (intercepts), "fail" (raises), "no" (returns a sequence without a truth), "yes" (with one), "one" (returns 1)       *)
EXTENDS Val
HInit(cfg) == [on |-> <<>>, h |-> cfg.h]
\* those that a given exception reaches, in order; 0: what sys.excepthook was, -2: the process is killed
H(st, k) == st.h[k]
RECURSIVE ByPrio(_, _)
ByPrio(st, ps) == IF ps = <<>> THEN <<>> ELSE SelectSeq(st.on, LAMBDA k : H(st, k).prio = Head(ps)) \o ByPrio(st, Tail(ps))
\* the hook that sys.excepthook was is the last, unless a hook is to be later still
Prios(st) == {H(st, k).prio : k \in Range(st.on)}
Sorted(st) == ByPrio(st, SortInts({p \in Prios(st) : p <= 10000})) \o <<0>> \o ByPrio(st, SortInts({p \in Prios(st) : p > 10000}))
Stops(a) == a \in {"stop", "yes", "one"}
Mem(x) == x \in {"memory", "submemory"}
RECURSIVE Run(_, _, _)
Run(st, q, x) ==
  IF q = <<>> THEN <<>>
  ELSE IF Head(q) = 0 THEN (IF x = "exit" THEN <<>> ELSE <<0>>) \o Run(st, Tail(q), x)
  ELSE LET k == Head(q) h == H(st, k) IN
       CASE h.kind = "fun" -> IF x = "exit" THEN Run(st, Tail(q), x) ELSE <<k>> \o (IF Stops(h.act) THEN <<>> ELSE Run(st, Tail(q), x))
         [] h.kind = "obj" -> <<k>> \o (IF Stops(h.act) THEN <<>> ELSE Run(st, Tail(q), x))
         [] h.kind = "mem" -> IF ~Mem(x) THEN Run(st, Tail(q), x) ELSE IF Stops(h.act) THEN <<k>> ELSE <<k, -2>>
HApply(st, e) ==
  LET a == e.a IN
  CASE e.op = "install" -> LET k == a[1] IN IF k \in Range(st.on) THEN (IF H(st, k).kind = "mem" THEN One(st, Exc("RuntimeError")) ELSE One(st, None)) ELSE One([st EXCEPT !.on = Append(@, k)], None)
    [] e.op = "uninstall" -> LET k == a[1] IN IF k \in Range(st.on) THEN One([st EXCEPT !.on = SelectSeq(@, LAMBDA x : x # k)], None) ELSE One(st, Exc("ValueError"))
    \* a[1]: "main", or "thread", in which it goes on to threading.excepthook (-1); only an Exception is handled in threads
    [] e.op = "raise" -> IF a[1] = "main" THEN One(st, IntSeq(Run(st, Sorted(st), a[2])))
                         ELSE IF a[2] = "exit" THEN One(st, IntSeq(<<>>)) ELSE IF a[2] = "interrupt" THEN One(st, IntSeq(<<-1>>)) ELSE One(st, IntSeq(Run(st, Sorted(st), a[2]) \o <<-1>>))
    [] OTHER -> {}
HInv(st) == Cardinality(Range(st.on)) = Len(st.on)
\* nothing runs twice; whoever is not installed does not run
HStep(st, e, r, t) == e.op = "raise" => \A i, j \in 2..Len(r) : (r[i] = r[j] => i = j) /\ (r[i][2] > 0 => r[i][2] \in Range(st.on))
HCfgs == << [h |-> <<[kind |-> "fun", prio |-> 0, act |-> "pass"], [kind |-> "fun", prio |-> 0, act |-> "stop"], [kind |-> "obj", prio |-> -5, act |-> "fail"]>>],
            [h |-> <<[kind |-> "fun", prio |-> 1, act |-> "yes"], [kind |-> "fun", prio |-> 0, act |-> "no"], [kind |-> "obj", prio |-> 0, act |-> "pass"]>>],
            [h |-> <<[kind |-> "mem", prio |-> -1000, act |-> "pass"], [kind |-> "obj", prio |-> 0, act |-> "stop"]>>], [h |-> <<[kind |-> "mem", prio |-> -1000, act |-> "yes"], [kind |-> "fun", prio |-> -2000, act |-> "fail"]>>],
            [h |-> <<[kind |-> "mem", prio |-> -1000, act |-> "fail"], [kind |-> "fun", prio |-> 20000, act |-> "stop"]>>] >>
HOps(st) == << {[op |-> o, a |-> <<k>>] : o \in {"install", "uninstall"}, k \in DOMAIN st.h}, {[op |-> "raise", a |-> <<w, x>>] : w \in {"main", "thread"}, x \in {"error", "memory", "exit", "interrupt", "submemory", "custom"}} >>
===============================================================================
