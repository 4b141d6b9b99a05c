-------------------------------- MODULE Cache --------------------------------
(* C..: CacheDict / LRUCacheDict (and their metrified versions).  The specification keeps its own clock (now, ms); a recorded trace also says when *)
(*      the answer came (e.rc), which has to agree.                                                                                                *)
(*   m: key -> [v, t (stored at)]   f: key -> when its failure was remembered   lru: keys of m, least recently used first                          *)
(*   src: what the getter finds (absent: KeyError, -1: ValueError)   p: background refreshes under way, [k, e (ends at)]                           *)
(*   cfg: stale, exp, fail (-1: failures are not kept), max (0: no limit), d (how long the getter takes), dflt (a default instead of KeyError)     *)
(* Q..: the same used by many threads: a get answers a value that was given for this key, never a spurious KeyError                                *)
(* U..: LRU                                                                                                                                        *)
EXTENDS Val
CInit(cfg) == [m |-> <<>>, f |-> <<>>, lru |-> <<>>, src |-> (1 :> 10 @@ 2 :> 20 @@ 3 :> 30), p |-> <<>>, now |-> 0, calls |-> 0, hit |-> 0, miss |-> 0, ev |-> 0, o |-> cfg]
Without(q, k) == SelectSeq(q, LAMBDA x : x # k)
RECURSIVE Room(_)
Room(st) == IF st.o.max = 0 \/ Cardinality(DOMAIN st.m) < st.o.max THEN st
            ELSE Room([st EXCEPT !.m = FnDel(@, Head(st.lru)), !.lru = Tail(@), !.ev = @ + 1])
Store(st, k, v, t) == LET s1 == IF k \in DOMAIN st.m THEN st ELSE Room(st) IN
                      [s1 EXCEPT !.m = FnSet(@, k, [v |-> v, t |-> t]), !.f = FnDel(@, k), !.lru = Append(Without(@, k), k)]
Forget(st, k) == [st EXCEPT !.m = FnDel(@, k), !.f = FnDel(@, k), !.lru = Without(@, k)]
Failed(st, k) == LET s1 == Forget(st, k) IN IF st.o.fail < 0 THEN s1 ELSE [s1 EXCEPT !.f = FnSet(@, k, st.now)]
\* the getter has answered
Got(st, k) == IF k \notin DOMAIN st.src THEN Failed(st, k) ELSE IF st.src[k] = -1 THEN st ELSE Store(st, k, st.src[k], st.now)
\* background refreshes that ended before t (with = TRUE: or exactly then); the clock is then t
RECURSIVE Flush(_, _, _)
Flush(st, t, with) == IF st.p # <<>> /\ (Head(st.p).e < t \/ (with /\ Head(st.p).e = t))
                      THEN Flush([Got([st EXCEPT !.now = Head(st.p).e], Head(st.p).k) EXCEPT !.p = Tail(@)], t, with)
                      ELSE [st EXCEPT !.now = t]
KeyErr(st) == IF st.o.dflt THEN Int_(-7) ELSE Exc("KeyError")
Block(st, k) == LET t == st.now + st.o.d IN
                {LET s2 == [Got(s1, k) EXCEPT !.calls = @ + 1] IN
                 [s |-> s2, r |-> IF k \notin DOMAIN s1.src THEN KeyErr(st) ELSE IF s1.src[k] = -1 THEN Exc("ValueError") ELSE Int_(s1.src[k])]
                 : s1 \in {Flush(st, t, w) : w \in BOOLEAN}}
Age(st, k) == st.now - st.m[k].t
Use(st, k) == [st EXCEPT !.lru = Append(Without(@, k), k)]
Sched(st, k) == [st EXCEPT !.p = Append(@, [k |-> k, e |-> st.now + st.o.d]), !.calls = @ + 1]
Has(st, k) == IF k \in DOMAIN st.m THEN Age(st, k) <= st.o.exp ELSE k \in DOMAIN st.f /\ st.now - st.f[k] <= st.o.fail
Get(st0, k) ==
  LET st == IF Has(st0, k) THEN [st0 EXCEPT !.hit = @ + 1] ELSE [st0 EXCEPT !.miss = @ + 1] IN
  IF k \in DOMAIN st.m THEN
    IF Age(st, k) > st.o.exp THEN Block(Use(st, k), k)
    ELSE IF Age(st, k) > st.o.stale THEN {[s |-> Sched(Use(st, k), k), r |-> Int_(v)] : v \in {st.m[k].v} \cup (IF st.o.d = 0 /\ k \in DOMAIN st.src /\ st.src[k] # -1 THEN {st.src[k]} ELSE {})}
    ELSE One(Use(st, k), Int_(st.m[k].v))
  ELSE IF k \in DOMAIN st.f /\ st.now - st.f[k] <= st.o.fail THEN One(st, KeyErr(st))
  ELSE Block(st, k)
CApply0(st, e) ==
  LET k == e.a[1] IN
  CASE e.op = "get" -> Get(st, k)
    [] e.op = "getd" -> {[q EXCEPT !.r = IF @ = Exc("KeyError") THEN Int_(-5) ELSE @] : q \in Get(st, k)}
    [] e.op = "in" -> {[q EXCEPT !.r = IF @ = Exc("KeyError") THEN Bool_(FALSE) ELSE IF @[1] = "exc" THEN @ ELSE Bool_(TRUE)] : q \in Get(st, k)}
    [] e.op = "set" -> One(Store(st, k, e.a[2], st.now), None)
    [] e.op = "feed" -> One(Store(st, k, e.a[2], IF e.a[3] < 0 THEN st.now ELSE st.now - e.a[3]), None)
    [] e.op = "feed0" -> One(Store(st, k, e.a[2], 0), None)
    [] e.op = "inv" -> One(Forget(st, k), None)
    [] e.op = "del" -> IF k \in DOMAIN st.m THEN One(Forget(st, k), None) ELSE One(st, Exc("KeyError"))
    [] e.op = "has" -> One(st, Bool_(Has(st, k)))
    [] e.op = "fetch" -> One(Sched(st, k), None)
    [] e.op = "keys" -> One(st, IntSeq(SortInts(DOMAIN st.m)))
    [] e.op = "len" -> One(st, Int_(Cardinality(DOMAIN st.m)))
    [] e.op = "calls" -> One(st, Int_(st.calls))
    \* hits, misses, refreshes, evictions
    [] e.op = "counts" -> One(st, IntSeq(<<st.hit, st.miss, st.calls, st.ev>>))
    [] e.op = "src" -> One([st EXCEPT !.src = IF e.a[2] = 0 THEN FnDel(@, k) ELSE FnSet(@, k, e.a[2])], None)
    [] e.op = "sleep" -> UNION {One(Flush(st, st.now + k, w), None) : w \in BOOLEAN}
    [] OTHER -> {}
CApply(st, e) == {q \in UNION {CApply0(s1, e) : s1 \in {Flush(st, st.now, w) : w \in BOOLEAN}} : "rc" \in DOMAIN e => e.rc = q.s.now}
CInv(st) == /\ st.o.max > 0 => Cardinality(DOMAIN st.m) <= st.o.max
            /\ Range(st.lru) = DOMAIN st.m
            /\ DOMAIN st.m \cap DOMAIN st.f = {}
CStep(st, e, r, t) == \* fresh values are served from memory, expired ones never
   /\ (e.op = "get" /\ e.a[1] \in DOMAIN st.m /\ Age(st, e.a[1]) <= st.o.stale /\ st.p = <<>>) => t.calls = st.calls /\ t.now = st.now /\ r = Int_(st.m[e.a[1]].v)
   /\ (e.op = "get" /\ e.a[1] \in DOMAIN st.m /\ Age(st, e.a[1]) > st.o.exp /\ st.p = <<>>) => t.calls = st.calls + 1
CC(stale, exp, fail, max, d, dflt) == [stale |-> stale, exp |-> exp, fail |-> fail, max |-> max, d |-> d, dflt |-> dflt, zero |-> max > 0, met |-> d > 0]
CCfgs == <<CC(1025, 2025, -1, 0, 0, FALSE), CC(1025, 2025, 1525, 0, 300, FALSE), CC(1025, 2025, -1, 1, 0, FALSE), CC(1025, 1025, 525, 2, 300, TRUE), CC(1025, 2025, 3025, 2, 300, FALSE)>>
CKeys == 1..3
COps(st) == << {[op |-> o, a |-> <<k>>] : o \in {"get"}, k \in CKeys},
               {[op |-> o, a |-> <<1>>] : o \in {"has", "inv", "del", "fetch"}},
               {[op |-> "set", a |-> <<k, 5>>] : k \in 1..2}, {[op |-> "feed", a |-> <<1, 6, g>>] : g \in {-1, 1500}},
               {[op |-> "src", a |-> <<1, v>>] : v \in {0, -1, 11}},
               {[op |-> "sleep", a |-> <<t>>] : t \in {550, 1600}} >>
\* ------------------------------------------------------------------ Q
QInit(cfg) == [v |-> (1 :> {10} @@ 2 :> {20})]
QApply(st, e) == CASE e.op = "get" -> {[s |-> st, r |-> Int_(x)] : x \in st.v[e.a[1]]}
                   [] e.op \in {"set", "feed"} -> One([st EXCEPT !.v[e.a[1]] = @ \cup {e.a[2]}], None)
                   [] e.op \in {"inv", "sleep"} -> One(st, None)
                   [] e.op = "has" -> One(st, Bool_(TRUE)) \cup One(st, Bool_(FALSE))
                   [] OTHER -> {}
QInv(st) == TRUE
QStep(st, e, r, t) == TRUE
\* ------------------------------------------------------------------ U
UInit(cfg) == [q |-> <<>>]
UApply(st, e) ==
  CASE e.op = "add" -> IF IndexOf(st.q, e.a[1]) > 0 THEN {} ELSE One([q |-> Append(st.q, e.a[1])], None)
    [] e.op = "use" -> One([q |-> Append(Without(st.q, e.a[1]), e.a[1])], None)
    [] e.op = "rem" -> IF IndexOf(st.q, e.a[1]) = 0 THEN One(st, Exc("KeyError")) ELSE One([q |-> Without(st.q, e.a[1])], None)
    [] e.op = "in" -> One(st, Bool_(IndexOf(st.q, e.a[1]) > 0))
    [] e.op = "len" -> One(st, Int_(Len(st.q)))
    [] e.op = "evict" -> IF st.q = <<>> THEN One(st, Exc("KeyError")) ELSE One([q |-> Tail(st.q)], Int_(Head(st.q)))
    [] OTHER -> {}
UInv(st) == TRUE
UStep(st, e, r, t) == TRUE
UCfgs == <<[z |-> 0]>>
\* ------------------------------------------------------------------ T: intervals given as numbers or strings
\* fed at 0; what is said at time a[4] (in seconds) of a cache whose intervals are a[2] of unit a[1]; a[3]: how the unit is written
TInit(cfg) == [z |-> 0]
TUnit(u) == CASE u = "s" -> 1 [] u = "m" -> 60 [] u = "h" -> 3600 [] u = "d" -> 86400 [] u = "w" -> 604800 [] OTHER -> 1
TApply(st, e) == CASE e.op = "has" -> One(st, Bool_(e.a[4] <= e.a[2] * TUnit(e.a[1])))
                   [] e.op = "fresh" -> One(st, Int_(IF e.a[4] <= e.a[2] * TUnit(e.a[1]) THEN 0 ELSE 1))  \* refreshes started by a read
                   [] e.op = "missed" -> One(st, Bool_(e.a[4] <= e.a[2] * TUnit(e.a[1])))
                   [] OTHER -> {}
TInv(st) == TRUE
TStep(st, e, r, t) == TRUE
TCfgs == <<[z |-> 0]>>
TForms == {<<"none", "">>, <<"s", "s">>, <<"s", " seconds">>, <<"m", "m">>, <<"m", " min">>, <<"h", "h">>, <<"h", " hours">>, <<"d", "d">>, <<"d", " days">>, <<"w", "w">>}
TOps(st) == << {[op |-> o, a |-> <<f[1], n, f[2], n * TUnit(f[1]) + d>>] : o \in {"has", "fresh", "missed"}, f \in TForms, n \in {1, 3}, d \in {-1, 0, 1}} >>
\* ------------------------------------------------------------------
UOps(st) == << {[op |-> "add", a |-> <<k>>] : k \in (1..3) \ Range(st.q)}, {[op |-> o, a |-> <<k>>] : o \in {"use", "rem", "in"}, k \in 1..3}, {[op |-> o, a |-> <<>>] : o \in {"len", "evict"}} >>
=============================================================================
