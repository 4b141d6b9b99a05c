------------------------------ MODULE Writeback ------------------------------
(* ExclusiveWritebackCache over a storage that initially holds 1 -> 10, 2 -> 20.                                                        *)
(*   m: what the user sees (0: nothing)   may: key -> values the storage may hold now (writes are under way)                            *)
(*   known: keys answered without reading the storage.   nw: writes since the last sync.   cfg.ske: KeyErrors are remembered, cfg.del: it can delete                      *)
(* e.rc (where recorded) tells when the call ended, ms; last: when the storage is done with everything at the latest                   *)
EXTENDS Val
Keys == 1..3
WInit(cfg) == [m |-> <<10, 20, 0>>, may |-> <<{10}, {20}, {0}>>, known |-> {}, reads |-> 0, hit |-> 0, miss |-> 0, nw |-> 0, o |-> cfg]
Put(st, k, v) == [st EXCEPT !.m[k] = v, !.may[k] = @ \cup {v}, !.nw = @ + 1]
WApply(st, e) ==
  LET k == e.a[1] IN
  CASE e.op = "get" -> LET s0 == IF k \in st.known THEN [st EXCEPT !.hit = @ + 1] ELSE [st EXCEPT !.miss = @ + 1]
                           s1 == IF k \in st.known THEN s0 ELSE [s0 EXCEPT !.reads = @ + 1, !.known = IF st.m[k] # 0 \/ st.o.ske THEN @ \cup {k} ELSE @] IN
                       One(s1, IF st.m[k] = 0 THEN Exc("KeyError") ELSE Int_(st.m[k]))
    [] e.op = "set" -> One([Put(st, k, e.a[2]) EXCEPT !.known = @ \cup {k}], None)
    [] e.op = "del" -> IF ~st.o.del THEN One(st, Exc("TypeError"))
                       ELSE One([Put(st, k, 0) EXCEPT !.known = IF st.o.ske THEN @ \cup {k} ELSE @], None)
    \* everything written so far is in the storage
    [] e.op = "sync" -> (IF k >= 0 /\ "rc" \in DOMAIN e /\ e.rc > e.c + k + 1100 THEN {} ELSE One([st EXCEPT !.nw = 0, !.may = [j \in Keys |-> {st.m[j]}]], None))
                        \cup (IF k >= 0 /\ "rc" \in DOMAIN e /\ e.rc >= e.c + k /\ e.rc <= e.c + k + 1100 THEN One(st, Exc("WouldWaitMore")) ELSE {})
    [] e.op = "storage" -> IF "r" \in DOMAIN e /\ e.r[1] = "seq" /\ Len(e.r) = 4 /\ \A j \in Keys : e.r[j + 1][2] \in st.may[j] THEN One(st, e.r) ELSE {}
    [] e.op = "reads" -> One(st, Int_(st.reads))
    [] e.op = "counts" -> One(st, IntSeq(<<st.hit, st.miss>>))
    [] e.op = "waiting" -> IF "r" \in DOMAIN e /\ e.r[1] = "int" /\ e.r[2] >= 0 /\ e.r[2] <= st.nw THEN One(st, e.r) ELSE {}
    [] e.op = "sleep" -> One(st, None)
    [] OTHER -> {}
WInv(st) == \A k \in Keys : st.m[k] \in st.may[k]
WStep(st, e, r, t) == (e.op = "sync" /\ r = None) => \A k \in Keys : t.may[k] = {t.m[k]}
WCfgs == <<[ske |-> TRUE, del |-> TRUE, n |-> 4], [ske |-> FALSE, del |-> TRUE, n |-> 4], [ske |-> TRUE, del |-> FALSE, n |-> 4]>>
WOps(st) == << {[op |-> "get", a |-> <<k>>] : k \in {1, 3}}, {[op |-> "set", a |-> <<k, v, d>>] : k \in {1}, v \in {5, 6}, d \in {0, 700}},
               {[op |-> "set", a |-> <<3, 7, 0>>]}, {[op |-> "del", a |-> <<k, 0>>] : k \in {1, 3}}, {[op |-> "sync", a |-> <<-1>>]} >>
=============================================================================
