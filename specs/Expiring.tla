------------------------------ MODULE Expiring ------------------------------
(* E..: ExpiringEntryDict, on the specification's own clock (now, ms).  m: key -> [v, x (expires after)].  old: entries no longer visible, key -> x   *)
(* F..: ExpiringEntryDict used by many threads; a sleep outlasts the entries.  cfg.exp: they expire while threads run (only what must hold anyway)      *)
(* D..: SelfCleaningDefaultDict of lists.  m: key -> length of the list, z: key -> when it became the default.  cfg.bg: background maintenance         *)
EXTENDS Val
\* the background thread looks every 5 seconds
Period == 5000
EInit(cfg) == [m |-> IF "init" \in DOMAIN cfg THEN [k \in 1..cfg.init |-> [v |-> 10 + k, x |-> cfg.to]] ELSE <<>>, now |-> 0, old |-> <<>>, o |-> cfg]
ELive(st) == {k \in DOMAIN st.m : st.m[k].x >= st.now}
ESet(st, k, v) == [st EXCEPT !.m = FnSet(@, k, [v |-> v, x |-> st.now + st.o.to]), !.old = FnDel(@, k)]
EDel(st, k) == [st EXCEPT !.m = FnDel(@, k), !.old = FnDel(@, k)]
EVal(st, k) == IF k \in ELive(st) THEN Int_(st.m[k].v) ELSE Exc("KeyError")
RECURSIVE EUpd(_, _)
EUpd(st, q) == IF q = <<>> THEN st ELSE EUpd(ESet(st, Head(q)[1], Head(q)[2]), Tail(q))
EApply0(st, e) ==
  LET k == e.a[1] IN
  CASE e.op = "set" -> One(ESet(st, k, e.a[2]), None)
    [] e.op = "get" -> One(st, EVal(st, k))
    [] e.op = "getd" -> One(st, IF k \in ELive(st) THEN Int_(st.m[k].v) ELSE Int_(-5))
    [] e.op = "in" -> One(st, Bool_(k \in ELive(st)))
    \* deleting what has expired: it is gone in any case
    [] e.op = "del" -> IF k \in ELive(st) THEN One(EDel(st, k), None)
                       ELSE IF k \in DOMAIN st.m THEN One(EDel(st, k), None) \cup One(EDel(st, k), Exc("KeyError")) ELSE One(st, Exc("KeyError"))
    [] e.op = "len" -> One(st, Int_(Cardinality(ELive(st))))
    [] e.op = "keys" -> One(st, IntSeq(SortInts(ELive(st))))
    [] e.op = "items" -> LET q == SortInts(ELive(st)) IN One(st, Seq_([j \in 1..Len(q) |-> IntSeq(<<q[j], st.m[q[j]].v>>)]))
    [] e.op = "pop" -> IF k \in ELive(st) THEN One(EDel(st, k), Int_(st.m[k].v)) ELSE One(st, Exc("KeyError"))
    [] e.op = "popd" -> IF k \in ELive(st) THEN One(EDel(st, k), Int_(st.m[k].v)) ELSE One(st, Int_(-6))
    [] e.op = "setdefault" -> IF k \in ELive(st) THEN One(st, Int_(st.m[k].v)) ELSE One(ESet(st, k, e.a[2]), Int_(e.a[2]))
    [] e.op = "update" -> One(EUpd(st, k), None)
    [] e.op = "clear" -> One([st EXCEPT !.m = <<>>], None)
    [] e.op = "ts" -> IF k \in ELive(st) THEN One(st, Int_(st.m[k].x - st.o.to))
                      ELSE IF k \in DOMAIN st.m THEN One(st, Int_(st.m[k].x - st.o.to)) \cup One(st, Exc("KeyError")) ELSE One(st, Exc("KeyError"))
    \* whose values are still in memory: all the visible ones; no others once the background thread had its time to look
    [] e.op = "held" -> IF "r" \notin DOMAIN e THEN {} ELSE
                        IF e.r[1] = "seq" /\ LET S == {e.r[j][2] : j \in 2..Len(e.r)} IN ELive(st) \subseteq S /\ S \subseteq {j \in DOMAIN st.m : ~st.o.ext \/ st.m[j].x + Period >= st.now}
                        THEN One(st, e.r) ELSE {}
    [] e.op = "sleep" -> One([st EXCEPT !.now = @ + k], None)
    [] OTHER -> {}
EApply(st, e) == {q \in EApply0(st, e) : "rc" \in DOMAIN e => e.rc = q.s.now}
EInv(st) == TRUE
EStep(st, e, r, t) == /\ (e.op = "get" /\ r[1] = "int") => st.now <= st.m[e.a[1]].x
                      /\ (e.op \notin {"set", "setdefault", "update"}) => ELive(t) \subseteq ELive(st)
ECfgs == <<[to |-> 1025, zero |-> FALSE, ext |-> FALSE], [to |-> 1025, zero |-> TRUE, ext |-> TRUE]>>
EOps(st) == << {[op |-> "set", a |-> <<k, 5>>] : k \in 1..2}, {[op |-> o, a |-> <<k>>] : o \in {"get", "in", "del", "pop"}, k \in 1..2},
               {[op |-> o, a |-> <<>>] : o \in {"len", "items", "clear"}}, {[op |-> "setdefault", a |-> <<1, 8>>], [op |-> "ts", a |-> <<1>>]}, {[op |-> "sleep", a |-> <<t>>] : t \in {600, 1100}} >>
\* ------------------------------------------------------------------ F
FInit(cfg) == [m |-> <<>>, dead |-> {}, exp |-> cfg.exp]
FApply(st, e) ==
  LET k == e.a[1] IN
  CASE e.op = "set" -> One([st EXCEPT !.m = FnSet(@, k, e.a[2]), !.dead = @ \ {k}], None)
    [] e.op = "get" -> (IF k \notin DOMAIN st.m \/ st.exp THEN One(st, Exc("KeyError")) ELSE {}) \cup (IF k \in DOMAIN st.m THEN One(st, Int_(st.m[k])) ELSE {})
    [] e.op = "in" -> (IF k \notin DOMAIN st.m \/ st.exp THEN One(st, Bool_(FALSE)) ELSE {}) \cup (IF k \in DOMAIN st.m THEN One(st, Bool_(TRUE)) ELSE {})
    [] e.op = "del" -> (IF k \notin DOMAIN st.m \/ st.exp THEN One(st, Exc("KeyError")) ELSE {}) \cup (IF k \in DOMAIN st.m \/ k \in st.dead THEN One([st EXCEPT !.m = FnDel(@, k), !.dead = @ \ {k}], None) ELSE {})
    [] e.op = "len" -> IF st.exp THEN {[s |-> st, r |-> Int_(n)] : n \in 0..Cardinality(DOMAIN st.m)} ELSE One(st, Int_(Cardinality(DOMAIN st.m)))
    \* one more dictionary with background cleaning, whose entry is soon expired, and so gone later on
    [] e.op = "more" -> One(st, None)
    [] e.op = "moreheld" -> One(st, IntSeq(<<>>))
    [] e.op = "sleep" -> One(IF st.exp THEN st ELSE [st EXCEPT !.m = <<>>, !.dead = @ \cup DOMAIN st.m], None)
    [] OTHER -> {}
FInv(st) == TRUE
FStep(st, e, r, t) == TRUE
\* ------------------------------------------------------------------ D
\* cfg.init: there are so many entries at first, the last one of them being the default
DInit(cfg) == [m |-> IF "init" \in DOMAIN cfg THEN [k \in 1..cfg.init |-> cfg.init - k] ELSE <<>>, z |-> IF "init" \in DOMAIN cfg /\ cfg.init > 0 THEN [k \in {cfg.init} |-> 0] ELSE <<>>, now |-> 0, o |-> cfg]
DPut(st, k, n) == [st EXCEPT !.m = FnSet(@, k, n), !.z = IF n = 0 THEN FnSet(@, k, st.now) ELSE FnDel(@, k)]
DRem(st, k) == [st EXCEPT !.m = FnDel(@, k), !.z = FnDel(@, k)]
RECURSIVE DClean(_, _)
DClean(st, S) == IF S = {} THEN st ELSE LET k == CHOOSE x \in S : TRUE IN DClean(DRem(st, k), S \ {k})
DZero(st) == {k \in DOMAIN st.m : st.m[k] = 0}
\* [] on a key: [s, n (length), in (the list is in the dict)]
DGet(st, k) == IF k \in DOMAIN st.m THEN IF st.m[k] = 0 THEN [s |-> DRem(st, k), n |-> 0, i |-> FALSE] ELSE [s |-> st, n |-> st.m[k], i |-> TRUE]
               ELSE IF st.o.bg THEN [s |-> st, n |-> 0, i |-> FALSE] ELSE [s |-> DPut(st, k, 0), n |-> 0, i |-> TRUE]
DApply0(st, e) ==
  LET k == e.a[1] IN
  CASE e.op = "get" -> LET g == DGet(st, k) IN One(g.s, Int_(g.n))
    [] e.op = "app" -> LET g == DGet(st, k) IN One(IF g.i THEN DPut(g.s, k, g.n + 1) ELSE g.s, None)
    [] e.op = "cut" -> LET g == DGet(st, k) IN IF g.n = 0 THEN One(g.s, Exc("IndexError")) ELSE One(DPut(g.s, k, g.n - 1), None)
    [] e.op = "set" -> One(IF e.a[2] = 0 THEN DRem(st, k) ELSE DPut(st, k, e.a[2]), None)
    [] e.op = "del" -> One(DRem(st, k), None)
    [] e.op = "in" -> One(st, Bool_(k \in DOMAIN st.m /\ st.m[k] # 0))
    [] e.op = "len" -> LET s1 == DClean(st, DZero(st)) IN One(s1, Int_(Cardinality(DOMAIN s1.m)))
    [] e.op = "items" -> LET s1 == DClean(st, DZero(st)) q == SortInts(DOMAIN s1.m) IN One(s1, Seq_([j \in 1..Len(q) |-> IntSeq(<<q[j], s1.m[q[j]]>>)]))
    [] e.op = "held" -> IF "r" \notin DOMAIN e THEN {} ELSE
                        IF e.r[1] = "seq" /\ LET S == {e.r[j][2] : j \in 2..Len(e.r)} IN (DOMAIN st.m \ DZero(st)) \subseteq S /\ S \subseteq {j \in DOMAIN st.m : st.m[j] # 0 \/ ~st.o.bg \/ st.z[j] + Period >= st.now}
                        THEN One(st, e.r) ELSE {}
    [] e.op = "sleep" -> One([st EXCEPT !.now = @ + k], None)
    [] OTHER -> {}
\* the background thread may have removed the defaults at any time since it last looked
DApply(st, e) == {q \in UNION {DApply0(s1, e) : s1 \in {st} \cup (IF st.o.bg THEN {DClean(st, S) : S \in SUBSET {k \in DZero(st) : st.z[k] < st.now}} ELSE {})} : "rc" \in DOMAIN e => e.rc = q.s.now}
DInv(st) == TRUE
DStep(st, e, r, t) == (\A k \in DOMAIN st.m : st.m[k] # 0 /\ (e.op = "sleep" \/ e.a = <<>> \/ k # e.a[1])) => \A k \in DOMAIN st.m : (e.op = "sleep" \/ e.a = <<>> \/ k # e.a[1]) => k \in DOMAIN t.m /\ t.m[k] = st.m[k]
DCfgs == <<[bg |-> FALSE], [bg |-> TRUE]>>
DOps(st) == << {[op |-> o, a |-> <<k>>] : o \in {"get", "app", "cut", "del", "in"}, k \in 1..2}, {[op |-> "set", a |-> <<1, n>>] : n \in {0, 2}}, {[op |-> o, a |-> <<>>] : o \in {"len", "items"}},
               {[op |-> "sleep", a |-> <<6000>>]} >>
=============================================================================
