------------------------------ MODULE PidLock ------------------------------
(* PIDFileLock used by several processes, any of which may be killed at any instant.  Observed events:                                                               *)
(*   acq_b(p)  acq_e(p, "ok" | "locked", q)  rel_b(p)  rel_e(p)  die(p)  file(what) when everybody is done: the pid in the file, "none" if there is no file          *)
(* cands[p]: those who were, at some point of the call of p, doing something with the lock; sure[p]: those who had it; blamed: those whom someone was told to be holding it while all they did was getting it                     *)
EXTENDS Val
DInit(cfg) == [st |-> [p \in {9} |-> IF cfg.file = "alive" THEN "held" ELSE "idle"], cands |-> [p \in {} |-> {}], sure |-> [p \in {} |-> {}], blamed |-> {}, dead |-> {}]
Of(s, p) == IF p \in DOMAIN s.st THEN s.st[p] ELSE "idle"
Busy(s) == {p \in DOMAIN s.st : s.st[p] # "idle"}
Set_(s, p, v) == LET t == [s EXCEPT !.st = FnSet(@, p, v)] IN [t EXCEPT !.cands = [q \in DOMAIN @ |-> IF v # "idle" THEN @[q] \cup {p} ELSE @[q]], !.sure = [q \in DOMAIN @ |-> IF v = "held" THEN @[q] \cup {p} ELSE @[q]]]
DApply(s, e) ==
  LET p == e.a[1] IN
  CASE e.op = "acq_b" -> IF Of(s, p) # "idle" THEN {} ELSE LET t == Set_(s, p, "acq") IN One([t EXCEPT !.cands = FnSet(@, p, Busy(s) \ {p}), !.sure = FnSet(@, p, {q \in Busy(s) : s.st[q] # "acq"}), !.blamed = @ \ {p}], None)
    [] e.op = "acq_e" ->
         IF Of(s, p) # "acq" THEN {} ELSE
         (IF \A q \in DOMAIN s.st : q # p => s.st[q] # "held" THEN One([Set_(s, p, "held") EXCEPT !.cands = FnDel(@, p), !.sure = FnDel(@, p)], <<"seq", Str_("ok"), Int_(p)>>) ELSE {})
         \* it was not to be had: someone else had it, or got it, and is not someone who had been dead before
         \cup {[s |-> [Set_(s, p, "idle") EXCEPT !.cands = FnDel(@, p), !.sure = FnDel(@, p), !.blamed = @ \cup ({q} \ s.sure[p])], r |-> <<"seq", Str_("locked"), Int_(q)>>] :
                 q \in {x \in s.cands[p] : p \notin s.blamed /\ Of(s, x) \in {"acq", "held", "rel", "idle"}}}
    [] e.op = "rel_b" -> IF Of(s, p) = "held" THEN One(Set_(s, p, "rel"), None) ELSE {}
    [] e.op = "rel_e" -> One(Set_(s, p, "idle"), None)
    [] e.op = "die" -> One([s EXCEPT !.st = FnSet(@, p, "idle"), !.cands = FnDel(@, p), !.sure = FnDel(@, p), !.dead = @ \cup {p}], None)
    \* releasing what is not held
    [] e.op = "rel_bad" -> IF Of(s, p) = "idle" THEN One(s, Exc("RuntimeError")) ELSE {}
    [] e.op = "file" -> IF s.dead # {} THEN {[s |-> s, r |-> e.r]} ELSE LET h == {q \in DOMAIN s.st : s.st[q] = "held"} IN One(s, IF h = {} THEN Str_("none") ELSE Int_(CHOOSE q \in h : TRUE))
    [] OTHER -> {}
\* nobody else has it while someone does
DInv(s) == \A p, q \in DOMAIN s.st : (s.st[p] = "held" /\ s.st[q] = "held") => p = q
\* if nobody else is doing anything about it then it is acquired
DStep(s, e, r, t) == (e.op = "acq_e" /\ s.cands[e.a[1]] = {}) => r = <<"seq", Str_("ok"), Int_(e.a[1])>>
DCfgs == <<[file |-> "none"], [file |-> "alive"]>>
DOps(s) == << {[op |-> o, a |-> <<p>>] : o \in {"acq_b"}, p \in {x \in 1..2 : Of(s, x) = "idle" /\ x \notin s.dead}}, {[op |-> "acq_e", a |-> <<p>>] : p \in {x \in 1..2 : Of(s, x) = "acq"}}, {[op |-> "rel_b", a |-> <<p>>] : p \in {x \in 1..2 : Of(s, x) = "held"}},
              {[op |-> "rel_e", a |-> <<p>>] : p \in {x \in 1..2 : Of(s, x) = "rel"}}, {[op |-> "die", a |-> <<p>>] : p \in {x \in {1, 2, 9} : Of(s, x) # "idle" /\ x \notin s.dead}} >>
============================================================================
