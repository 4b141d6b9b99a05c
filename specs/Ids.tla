-------------------------------- MODULE Ids --------------------------------
(* I*: IDAllocator - the set of allocated integers, all in [start, limit) (limit = -1: none).              *)
(* J*: SequentialIssuer - the next integer to be issued.                                                   *)
EXTENDS Val
IInit(cfg) == [al |-> {}, start |-> cfg.start, limit |-> cfg.limit]
InRange(st, x) == x >= st.start /\ (st.limit = -1 \/ x < st.limit)
\* where the recorder supplies the answer any unallocated integer of the range is right
ICand(st, e) == IF "r" \in DOMAIN e THEN (IF e.r[1] = "int" THEN {e.r[2]} ELSE IF e.r[1] = "pending" THEN {MinOf((st.start .. (st.start + 50)) \ st.al)} ELSE {})
                ELSE st.start .. (st.start + 3)
IApply(st, e) ==
  CASE e.op = "alloc" ->
         IF st.limit # -1 /\ \A x \in st.start .. (st.limit - 1) : x \in st.al THEN One(st, Exc("Empty"))
         ELSE {[s |-> [st EXCEPT !.al = @ \cup {x}], r |-> Int_(x)] : x \in {y \in ICand(st, e) : InRange(st, y) /\ y \notin st.al}}
    [] e.op = "free" -> IF e.a[1] \in st.al THEN One([st EXCEPT !.al = @ \ {e.a[1]}], None) ELSE One(st, Exc("ValueError"))
    [] e.op = "mark" -> IF ~InRange(st, e.a[1]) THEN One(st, Exc("ValueError"))
                        ELSE IF e.a[1] \in st.al THEN One(st, Exc("AlreadyAllocated"))
                        ELSE One([st EXCEPT !.al = @ \cup {e.a[1]}], None)
    [] OTHER -> {}
IStep(st, e, r, t) == /\ (e.op = "alloc" /\ r[1] = "int") => r[2] \notin st.al /\ InRange(st, r[2])
                      /\ (e.op = "alloc" /\ r[1] = "exc") => st.al = st.start .. (st.limit - 1)
IInv(st) == \A x \in st.al : InRange(st, x)
ICfgs == <<[start |-> 0, limit |-> -1], [start |-> 5, limit |-> -1], [start |-> 0, limit |-> 3], [start |-> 5, limit |-> 8],
           [start |-> 1, limit |-> 3], [start |-> 0, limit |-> 0]>>
IOps(st) == << {[op |-> "alloc", a |-> <<>>]}, {[op |-> o, a |-> <<st.start + x>>] : o \in {"free", "mark"}, x \in -1..3} >>

JInit(cfg) == [n |-> cfg.start]
JApply(st, e) == CASE e.op = "issue" -> One([n |-> st.n + 1], Int_(st.n))
                   [] e.op = "nlt" -> LET x == Max2(st.n, e.a[1]) IN One([n |-> x + 1], Int_(x))
                   [] OTHER -> {}
JStep(st, e, r, t) == r[2] >= st.n /\ t.n > r[2] /\ (e.op = "nlt" => r[2] >= e.a[1])
JInv(st) == TRUE
JCfgs == <<[start |-> 0], [start |-> 5]>>
JOps(st) == << {[op |-> "issue", a |-> <<>>]}, {[op |-> "nlt", a |-> <<x>>] : x \in {0, st.n - 1, st.n, st.n + 1, st.n + 3}} >>
=============================================================================
