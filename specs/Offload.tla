------------------------------- MODULE Offload -------------------------------
(* Calls made in other threads.                                                                                        *)
(* K..: call_in_separate_thread / run_as_future / call_in_future: one call per id.  cfg.delay: delay in ms             *)
(* P..: parallel_execute / parallel_construct / ExecutorWrapper.map / cassandra.parallel_for: answers in order         *)
(* Y..: sync_threadpool (events)                                                                                       *)
(* L..: ThreadCollection (clock)                                                                                       *)
EXTENDS Val
\* ------------------------------------------------------------------ K
\* call: [b, out, d, st]; st: run / cancelled
KInit(cfg) == [f |-> <<>>, delay |-> cfg.delay, kind |-> cfg.kind, log |-> {}]
KEnd(st, i) == st.f[i].b + st.delay + st.f[i].d
KVal(x) == IF x = "ok" THEN 0 ELSE 1
KApply(st, e) ==
  CASE e.op = "call" -> LET i == Len(st.f) + 1 IN
                        One([st EXCEPT !.f = Append(@, [b |-> e.c, d |-> e.a[1], out |-> e.a[2], can |-> FALSE])], Int_(i))
    [] e.op = "done" -> LET i == e.a[1] x == st.f[i] IN
                        IF x.can THEN One(st, Bool_(TRUE))
                        ELSE IF e.c < KEnd(st, i) THEN One(st, Bool_(FALSE))
                        ELSE IF e.c > KEnd(st, i) THEN One(st, Bool_(TRUE)) ELSE One(st, Bool_(TRUE)) \cup One(st, Bool_(FALSE))
    \* giving up is possible only before the thread has begun, that is at once
    [] e.op = "cancel" -> LET i == e.a[1] x == st.f[i] IN
                          One(st, Bool_(x.can)) \cup (IF st.kind = "separate" /\ e.c = x.b THEN One([st EXCEPT !.f[i].can = TRUE], Bool_(TRUE)) ELSE {})
    [] e.op = "result" -> LET i == e.a[1] x == st.f[i] IN
                          IF x.can THEN One(st, Exc("CancelledError"))
                          ELSE IF e.rc = Max2(e.c, KEnd(st, i)) THEN One(st, IF x.out = "ok" THEN Int_(100 + i) ELSE Exc(x.out)) ELSE {}
    [] e.op = "ran" -> One(st, IntSeq(SortInts({i \in 1..Len(st.f) : ~st.f[i].can /\ KEnd(st, i) < e.c})))
    [] e.op = "links" -> One(st, Bool_(TRUE))
    [] e.op = "sleep" -> One(st, None)
    [] OTHER -> {}
KInv(st) == TRUE
KStep(st, e, r, t) == \A i \in 1..Len(st.f) : st.f[i].can => t.f[i].can
\* ------------------------------------------------------------------ P
\* e.a[1]: the calls, each [x, d (duration), o ("ok", "none", or an exception)]
PInit(cfg) == [n |-> cfg.n]
PVal(x) == IF x.o = "ok" THEN Int_(x.x * 2) ELSE IF x.o = "none" THEN None ELSE Exc(x.o)
PBad(q) == {k \in 1..Len(q) : q[k].o \notin {"ok", "none"}}
\* when each of the calls ends if free tells when each of the threads is free
RECURSIVE PFins(_, _)
PFins(q, free) == IF q = <<>> THEN <<>>
                  ELSE LET k == IndexOf(free, MinOf(Range(free))) f == free[k] + Head(q).d IN <<f>> \o PFins(Tail(q), [free EXCEPT ![k] = f])
PMax(q) == IF q = <<>> THEN 0 ELSE MaxOf(Range(q))
\* all of the calls are begun at once (as far as there are threads), whatever is done with the results
PIn(st, e) == IF "rc" \notin DOMAIN e THEN TRUE
              ELSE IF e.op = "execute" THEN e.rc - e.c = PMax([k \in 1..Len(e.a[1]) |-> e.a[1][k].d])
              ELSE e.rc - e.c <= PMax(PFins(e.a[1], [k \in 1..st.n |-> 0]))
\* what a cursor gets to know: queries (one for all if single) and arguments: -1 for None, else a tuple of that many zeroes
PCount(e) == IF e.a[1] THEN Len(e.a[3]) ELSE Min2(Len(e.a[2]), Len(e.a[3]))
PApply(st, e) ==
  LET q == e.a[1] IN
  CASE e.op = "cursor" -> LET n == PCount(e) IN
         One(st, Seq_([k \in 1..n |-> IntSeq(<<IF e.a[1] THEN e.a[2][1] ELSE e.a[2][k], e.a[3][k]>>)] \o [k \in 1..n |-> IntSeq(<<100 + k>>)]))
    [] ~PIn(st, e) -> {}
    [] e.op = "execute" -> One(st, Seq_([k \in 1..Len(q) |-> PVal(q[k])]))
    [] e.op = "construct" -> IF PBad(q) # {} THEN One(st, Exc(q[MinOf(PBad(q))].o))
                             ELSE LET w == FilterSeq(q, LAMBDA x : x.o # "none") IN One(st, Seq_([k \in 1..Len(w) |-> PVal(w[k])]))
    [] e.op \in {"map", "for"} -> LET n == IF PBad(q) = {} THEN Len(q) ELSE MinOf(PBad(q)) IN One(st, Seq_([k \in 1..n |-> PVal(q[k])]))
    [] OTHER -> {}
PInv(st) == TRUE
PStep(st, e, r, t) == TRUE
PCfgs == <<[n |-> 2]>>
PCalls == {<<[x |-> 1, d |-> a, o |-> oa], [x |-> 2, d |-> b, o |-> ob], [x |-> 3, d |-> 0, o |-> oc]>> : a \in {0, 500}, b \in {0, 300}, oa \in {"ok", "none", "KeyError"}, ob \in {"ok", "none", "ValueError"}, oc \in {"ok", "none", "KeyError"}}
POps(st) == << {[op |-> o, a |-> <<q>>] : o \in {"execute", "construct", "map", "for"}, q \in PCalls \cup {<<>>}},
               {[op |-> "cursor", a |-> <<s, <<7, 8, 9>>, q>>] : s \in BOOLEAN, q \in {<<0>>, <<-1, 0, 2>>, <<1, 1, 1, -1>>, <<>>}} >>
\* ------------------------------------------------------------------ Y
\* sub: submitted jobs, fin: finished ones; sy: syncs in progress: id -> [b, w (max wait, -1 none), need]
YInit(cfg) == [sub |-> {}, fin |-> {}, sy |-> <<>>, last |-> 0, now |-> 0]
YApply0(st, e) ==
  CASE e.op = "submit" -> One([st EXCEPT !.sub = @ \cup {e.a[1]}], None)
    [] e.op = "job_b" -> IF e.a[1] \in st.sub THEN One(st, None) ELSE {}
    [] e.op = "job_e" -> One([st EXCEPT !.fin = @ \cup {e.a[1]}, !.last = e.c], None)
    [] e.op = "sync_b" -> One([st EXCEPT !.sy = FnSet(@, e.a[1], [b |-> e.c, w |-> e.a[2], need |-> st.sub])], None)
    [] e.op = "sync_e" ->
         LET x == st.sy[e.a[1]] s1 == [st EXCEPT !.sy = FnDel(@, e.a[1])] IN
         \* everything submitted before has been processed, and that has just been so
         (IF x.need \subseteq st.fin /\ (e.c <= Max2(st.last, x.b) + 1000) THEN One(s1, None) ELSE {})
         \cup (IF x.w >= 0 /\ e.c >= x.b + x.w /\ e.c <= x.b + x.w + 1000 /\ (~(x.need \subseteq st.fin) \/ Max2(st.last, x.b) + 1500 >= x.b + x.w)
               THEN One(s1, Exc("WouldWaitMore")) ELSE {})
    \* also after a sync that gave up the pool works: all jobs got done
    \* shutdown(wait = a[1]) of the (wrapped) pool
    [] e.op = "down_b" -> One(st, None)
    [] e.op = "down_e" -> IF ~e.a[1] \/ st.sub = st.fin THEN One(st, None) ELSE {}
    [] e.op = "end" -> IF st.sub = st.fin /\ DOMAIN st.sy = {} THEN One(st, None) ELSE {}
    [] OTHER -> {}
YApply(st, e) == {[q EXCEPT !.s.now = e.c] : q \in YApply0(st, e)}
YInv(st) == st.fin \subseteq st.sub
YStep(st, e, r, t) == e.c >= st.now /\ (e.op = "sync_e" /\ r = None) => st.sy[e.a[1]].need \subseteq st.fin
YCfgs == <<[z |-> 0]>>
YOps(st) == << {[op |-> "submit", a |-> <<k>>, c |-> st.now] : k \in (1..3) \ st.sub},
               {[op |-> "job_b", a |-> <<k>>, c |-> st.now] : k \in st.sub \ st.fin},
               {[op |-> "job_e", a |-> <<k>>, c |-> st.now + 500] : k \in st.sub \ st.fin},
               {[op |-> "sync_b", a |-> <<k, w>>, c |-> st.now] : k \in {1} \ DOMAIN st.sy, w \in {-1, 1000}},
               {[op |-> "sync_e", a |-> <<k>>, c |-> c] : k \in DOMAIN st.sy, c \in {st.now, st.now + 500, st.now + 1000}},
               {[op |-> "end", a |-> <<>>, c |-> st.now]} >>
\* ------------------------------------------------------------------ L
\* threads: [d (duration), t (can be terminated), s (started at, -1 not), k (terminated at, -1 not)]; a terminated one ends at its next 100 ms step
LInit(cfg) == [q |-> <<>>]
LEnd(x) == IF x.s < 0 THEN -1
           ELSE IF x.t /\ x.k >= 0 THEN Min2(x.s + x.d, IF x.k < x.s THEN x.s ELSE x.s + ((x.k - x.s + 99) \div 100) * 100 + x.z) ELSE x.s + x.d
LAlive(x, c) == x.s >= 0 /\ c < LEnd(x)
LMaybe(x, c) == x.s >= 0 /\ c = LEnd(x)
\* join one after another: [c |-> time, ok]
RECURSIVE LJoin(_, _, _)
LJoin(q, c, t) == IF q = <<>> THEN [c |-> c, ok |-> TRUE]
                  ELSE IF t < 0 \/ LEnd(Head(q)) <= c + t THEN LJoin(Tail(q), Max2(c, LEnd(Head(q))), t)
                  ELSE [c |-> c + t, ok |-> FALSE]
LAny(st, c) == \E k \in 1..Len(st.q) : LAlive(st.q[k], c)
LApply(st, e) ==
  CASE e.op = "add" -> One([st EXCEPT !.q = @ \o [k \in 1..Len(e.a[1]) |-> [d |-> e.a[1][k].d, t |-> e.a[1][k].t, s |-> -1, k |-> -1, z |-> 0]]], Int_(Len(st.q) + Len(e.a[1])))
    [] e.op = "start" -> IF \E k \in 1..Len(st.q) : st.q[k].s >= 0 THEN {} ELSE
                         One([st EXCEPT !.q = [k \in 1..Len(@) |-> [@[k] EXCEPT !.s = e.c]]], Str_("self"))
    \* terminated exactly when it looks whether it is: it may notice that, or at its next step (z)
    [] e.op = "terminate" -> UNION {One([st EXCEPT !.q = [k \in 1..Len(@) |-> IF @[k].k >= 0 THEN @[k] ELSE [@[k] EXCEPT !.k = IF st.q[k].s < 0 THEN 0 ELSE e.c, !.z = IF k \in Z THEN 100 ELSE 0]]],
                                    Str_("self")) : Z \in SUBSET {k \in 1..Len(st.q) : st.q[k].t /\ st.q[k].k < 0 /\ st.q[k].s >= 0 /\ (e.c - st.q[k].s) % 100 = 0}}
    [] e.op = "alive" -> IF LAny(st, e.c) THEN One(st, Bool_(TRUE))
                         ELSE IF \E k \in 1..Len(st.q) : LMaybe(st.q[k], e.c) THEN One(st, Bool_(TRUE)) \cup One(st, Bool_(FALSE)) ELSE One(st, Bool_(FALSE))
    [] e.op = "join" -> IF \E k \in 1..Len(st.q) : st.q[k].s < 0 THEN {} ELSE
                        LET j == LJoin(st.q, e.c, e.a[1]) IN
                        (IF e.rc = j.c THEN One(st, IF j.ok THEN Str_("self") ELSE Exc("WouldWaitMore")) ELSE {})
                        \* a thread that ends exactly when the patience does
                        \cup (IF e.a[1] >= 0 /\ \E k \in 1..Len(st.q) : LEnd(st.q[k]) = e.rc /\ e.rc <= j.c THEN One(st, Exc("WouldWaitMore")) ELSE {})
    [] e.op = "len" -> One(st, Int_(Len(st.q)))
    [] e.op = "daemon" -> One(st, Bool_(Len(st.q) > 0))
    [] e.op = "sleep" -> One(st, None)
    [] OTHER -> {}
LInv(st) == TRUE
LStep(st, e, r, t) == TRUE
=============================================================================
