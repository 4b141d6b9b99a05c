------------------------------- MODULE Atomic -------------------------------
(* AtomicNumber (satella.coding.concurrent.atomic).  The state holds two numbers; every operation is one *)
(* atomic step on them.  weq(i, v, t) = wait_until_equal, wait(i, t) = wait for a change; t in ms, -1 =   *)
(* for ever.  Clocks (c, rc) are supplied by the recorder; see Queue.tla for the meaning of `le`.         *)
EXTENDS Val, Bitwise
Timed(e) == "rc" \in DOMAIN e
RECURSIVE Pow(_, _)
Pow(a, b) == IF b = 0 THEN 1 ELSE a * Pow(a, b - 1)
\* Python floor division (\div of TLC is undefined for negative divisors)
PDiv(a, b) == IF b > 0 THEN a \div b ELSE (-a) \div (-b)
Fun(f, a, b) == CASE f = "add" -> a + b  [] f = "sub" -> a - b  [] f = "mul" -> a * b
                  [] f = "floordiv" -> PDiv(a, b) [] f = "truediv" -> PDiv(a, b)
                  [] f = "and" -> a & b [] f = "or" -> a | b [] f = "xor" -> a ^^ b
                  [] f = "lshift" -> a * Pow(2, b) [] f = "rshift" -> a \div Pow(2, b)
                  [] f = "pow" -> Pow(a, b)
Cmp(f, a, b) == CASE f = "lt" -> a < b [] f = "le" -> a <= b [] f = "gt" -> a > b [] f = "ge" -> a >= b
                  [] f = "eq" -> a = b [] f = "ne" -> a # b
Un(f, a) == CASE f = "int" -> Int_(a) [] f = "float" -> Int_(a) [] f = "bool" -> Bool_(a # 0) [] f = "neg" -> Int_(-a)
              [] f = "abs" -> Int_(IF a < 0 THEN -a ELSE a) [] f = "pos" -> Int_(a) [] f = "str" -> Str_(ToString(a))
              [] f = "repr" -> Str_("AtomicNumber(" \o ToString(a) \o ")")

\* lc/lr: latest start/end of a change of number i; le: number i must not change any more before this instant
\* fl: number 1 has become a float (after a true division); it still has an integral value
Late(st, e, t) == st.sharp /\ Timed(e) /\ t >= 0 /\ e.r[1] # "pending" /\ e.rc > e.c + t + 2
AInit(cfg) == [sharp |-> "sharp" \in DOMAIN cfg, v |-> cfg.v, fl |-> FALSE, lc |-> <<-1, -1>>, lr |-> <<-1, -1>>, le |-> <<0, 0>>]
AApply(st, e) ==
  LET i == e.a[1] IN
  CASE e.op = "iop" ->
         LET n == Fun(e.a[2], st.v[i], e.a[3]) IN
         IF (e.a[2] \in {"floordiv", "truediv"} /\ e.a[3] = 0) THEN One(st, Exc("ZeroDivisionError"))
         ELSE IF ~Timed(e) THEN One([st EXCEPT !.v[i] = n, !.fl = @ \/ e.a[2] = "truediv"], None)
         ELSE IF e.rc < st.le[i] /\ n # st.v[i] THEN {}
         ELSE One([st EXCEPT !.v[i] = n, !.lr[i] = Max2(@, e.rc), !.lc[i] = IF n = st.v[i] THEN @ ELSE Max2(@, e.c)], None)
    [] e.op = "bin" -> One(st, Int_(Fun(e.a[2], st.v[i], e.a[3])))
    [] e.op = "pow3" -> One(st, Int_(Pow(st.v[i], e.a[2]) % e.a[3]))
    [] e.op = "rbin" -> One(st, Int_(Fun(e.a[2], e.a[3], st.v[i])))
    [] e.op = "cmp" -> One(st, Bool_(Cmp(e.a[2], st.v[i], e.a[3])))
    [] e.op = "eq2" -> One(st, Bool_(st.v[i] = st.v[e.a[2]]))
    [] e.op = "un" -> One(st, Un(e.a[2], st.v[i]))
    [] e.op = "weq" -> IF Late(st, e, e.a[3]) THEN {} ELSE IF st.v[i] = e.a[2] THEN One(st, None)
                       ELSE IF e.a[3] < 0 THEN {}
                       ELSE IF ~Timed(e) THEN One(st, Exc("WouldWaitMore"))
                       ELSE IF e.rc < e.c + e.a[3] THEN {}
                       ELSE One([st EXCEPT !.le[i] = Max2(@, e.c + e.a[3])], Exc("WouldWaitMore"))
    \* a change that starts later (in time) than the wait must end it; one that overlaps it may
    [] e.op = "wait" ->
         LET quietly == e.a[3] = "quiet"
             over == IF quietly THEN None ELSE Exc("WouldWaitMore")
         IN IF ~Timed(e) THEN (IF e.a[2] < 0 THEN {} ELSE One(st, over))
            ELSE IF Late(st, e, e.a[2]) THEN {}
            ELSE (IF st.lr[i] >= e.c /\ (e.r[1] # "pending" \/ st.lc[i] > e.c) THEN One(st, None) ELSE {})
                 \cup (IF e.a[2] >= 0 /\ st.lc[i] <= e.c /\ e.rc >= e.c + e.a[2]
                       THEN One([st EXCEPT !.le[i] = Max2(@, e.c + e.a[2])], over) ELSE {})
    [] e.op = "sleep" -> One(st, None)
    [] OTHER -> {}
AStep(st, e, r, t) == /\ e.op # "iop" => st.v = t.v
                      /\ e.op = "iop" => \A j \in 1..2 : j # e.a[1] => st.v[j] = t.v[j]
                      /\ (e.op = "weq" /\ r = None) => t.v[e.a[1]] = e.a[2]
AInv(st) == TRUE
ACfgs == <<[v |-> <<0, 3>>], [v |-> <<5, 5>>]>>
Small(i, st, f, x) == LET n == Fun(f, st.v[i], x) IN n <= 12 /\ n >= -6
AOps(st) ==
  LET NN(i) == st.v[i] >= 0 /\ ~st.fl
      fs(i) == {"add", "sub", "mul", "floordiv"} \cup (IF NN(i) THEN {"and", "or", "xor", "lshift", "rshift", "pow"} ELSE {})
      ok(i) == {p \in fs(i) \X {1, 2, 3} : Small(i, st, p[1], p[2])}
  IN << {[op |-> "iop", a |-> <<i, p[1], p[2]>>] : i \in {1}, p \in ok(1)},
        {[op |-> "iop", a |-> <<2, p, 2>>] : p \in {"add", "sub"} \cap {f \in {"add", "sub"} : Small(2, st, f, 2)}},
        {[op |-> "iop", a |-> <<1, "truediv", 2>>] : z \in IF st.v[1] % 2 = 0 THEN {0} ELSE {}},
        {[op |-> "bin", a |-> <<1, p[1], p[2]>>] : p \in ok(1)},
        {[op |-> "bin", a |-> <<1, "truediv", 2>>] : z \in IF st.v[1] % 2 = 0 THEN {0} ELSE {}},
        {[op |-> "rbin", a |-> <<1, p, 2>>] : p \in {"add", "sub", "mul"} \cup (IF NN(1) THEN {"and", "or", "xor", "pow"} ELSE {})
                                                    \cup (IF st.v[1] \in 0..6 /\ ~st.fl THEN {"lshift", "rshift"} ELSE {})
                                                    \cup (IF st.v[1] > 0 THEN {"floordiv"} ELSE {})
                                                    \cup (IF st.v[1] \in 1..2 THEN {"truediv"} ELSE {})},
        {[op |-> "pow3", a |-> <<1, x, 3>>] : x \in IF st.fl \/ st.v[1] < 0 THEN {} ELSE {0, 2, 3}},
        {[op |-> "cmp", a |-> <<1, f, x>>] : f \in {"lt", "le", "gt", "ge", "eq", "ne"}, x \in {0, 3, 5}},
        {[op |-> "un", a |-> <<i, f>>] : i \in 1..2, f \in {"int", "float", "bool", "neg", "abs", "pos"}},
        {[op |-> "un", a |-> <<i, f>>] : i \in 1..2, f \in IF st.fl THEN {} ELSE {"str", "repr"}},
        {[op |-> "eq2", a |-> <<i, j>>] : i \in 1..2, j \in 1..2},
        {[op |-> "weq", a |-> <<1, v, t>>] : v \in {0, 5}, t \in {-1, 0, 1000}},
        {[op |-> "wait", a |-> <<1, t, m>>] : t \in {0, 1000}, m \in {"raise", "quiet"}} >>
=============================================================================
