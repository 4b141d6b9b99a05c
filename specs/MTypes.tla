------------------------------ MODULE MTypes ------------------------------
(* What each type of metric reports after values were given to it, with labels or not. Time is in units; a report takes one of them and reads in the middle of it.    *)
EXTENDS Val
B0 == [v |-> 0, calls |-> 0, win |-> <<>>, buckets |-> <<0, 0, 0>>, clicks |-> <<>>, addr |-> << >>, last |-> 0]
Keep(q, n) == IF Len(q) > n THEN SubSeq(q, Len(q) - n + 1, Len(q)) ELSE q
Bucket(c, v) == IF v < 0 THEN 0 ELSE IF v < c.b[1] THEN 1 ELSE IF v < c.b[2] THEN 2 ELSE 3
Put(c, x, v) == IF Bucket(c, v) = 0 THEN x ELSE [x EXCEPT !.buckets[Bucket(c, v)] = @ + 1]
Tot(x, v) == [x EXCEPT !.v = @ + v, !.calls = @ + 1]
\* a link: failures, successes in a row, works
Link0 == [f |-> 0, s |-> 0, w |-> TRUE]
LinkOf(x, ad) == IF ad \in DOMAIN x.addr THEN x.addr[ad] ELSE Link0
Moved(c, l, ok) == IF ok THEN [f |-> 0, s |-> l.s + 1, w |-> l.w \/ l.s + 1 = c.on] ELSE [f |-> l.f + 1, s |-> 0, w |-> l.w /\ l.f + 1 # c.off]
\* what a metric, or the one of its labels, does with a value
Take(c, x, v, ad, now) ==
  LET y == CASE c.type = "int" -> [x EXCEPT !.v = v]
             [] c.type = "counter" -> Tot(x, v)
             [] c.type = "summary" -> [Tot(x, v) EXCEPT !.win = Keep(Append(x.win, v), c.n)]
             [] c.type = "histogram" -> Put(c, Tot(x, v), v)
             [] c.type = "cps" -> [x EXCEPT !.clicks = Append(@, now)]
             [] OTHER -> [x EXCEPT !.addr = FnSet(@, ad, Moved(c, LinkOf(x, ad), v > 0))]
  IN [y EXCEPT !.last = now]
\* what the metric itself takes of a value with a label, or of one without a label given after one with a label
Share(c, x, v, ad, now) ==
  CASE c.type = "counter" -> [Tot(x, IF c.agg THEN v ELSE 0) EXCEPT !.last = now]
    [] c.type = "summary" -> [Tot(x, v) EXCEPT !.last = now]
    [] c.type = "histogram" -> [(IF c.agg THEN Put(c, Tot(x, v), v) ELSE Tot(x, v)) EXCEPT !.last = now]
    [] OTHER -> [x EXCEPT !.last = now]
Kid(st, l) == IF l \in DOMAIN st.kids THEN st.kids[l] ELSE B0
Called(c, x, l, v, ad) == IF c.type # "linkfail" THEN <<>> ELSE LET k == LinkOf(x, ad) m == Moved(c, k, v > 0) IN IF k.w = m.w THEN <<>> ELSE << <<IF m.w THEN "on" ELSE "off", ad, l>> >>
MHandle(st, v, l, ad) ==
  LET c == st.cfg IN
  IF l # "no" THEN [st EXCEPT !.on = TRUE, !.p = Share(c, @, v, ad, st.now), !.kids = FnSet(@, l, Take(c, Kid(st, l), v, ad, st.now)), !.cb = @ \o Called(c, Kid(st, l), l, v, ad)]
  ELSE IF st.on /\ c.type # "linkfail" THEN [st EXCEPT !.p = Share(c, @, v, ad, st.now)]
  ELSE [st EXCEPT !.p = Take(c, @, v, ad, st.now), !.cb = @ \o Called(c, st.p, "no", v, ad)]
\* four times the quantile of p quarters: interpolated between the values around it
Quantile4(q, p) == LET s == SortSeqInts(q) n == Len(s) f == ((n - 1) * p) \div 4 m == ((n - 1) * p) % 4 IN IF n = 0 THEN 0 ELSE IF m = 0 THEN 4 * s[f + 1] ELSE (4 - m) * s[f + 1] + m * s[f + 2]
RECURSIVE Joined(_, _)
Joined(kids, D) == IF D = {} THEN <<>> ELSE LET l == CHOOSE x \in D : TRUE IN kids[l].win \o Joined(kids, D \ {l})
RECURSIVE JoinedC(_, _)
JoinedC(kids, D) == IF D = {} THEN <<>> ELSE LET l == CHOOSE x \in D : TRUE IN kids[l].clicks \o JoinedC(kids, D \ {l})
\* clicks of the last p units: it is half a unit later now
Recent(q, p, now) == Cardinality({k \in 1..Len(q) : now - q[k] < p})
\* a row of the report: <<value, time>>, or none. Key: suffix of the name, label, and one more label (bucket, quantile, period, address)
NoRow == <<>>
R(v, x) == <<v, x.last>>
Cell(c, x, suffix, ex, now) ==       \* of a metric as such, without those of labels
  CASE c.type = "int" -> IF suffix = "" /\ ex = -1 THEN R(x.v, x) ELSE NoRow
    [] c.type = "counter" -> IF ex # -1 THEN NoRow ELSE IF suffix = "" THEN R(x.v, x) ELSE IF suffix = ".count" /\ c.count THEN R(x.calls, x) ELSE NoRow
    [] c.type = "summary" -> IF suffix = "" /\ ex # -1 THEN R(Quantile4(x.win, ex), x) ELSE IF ex # -1 \/ ~c.count THEN NoRow ELSE IF suffix = ".count" THEN R(x.calls, x) ELSE IF suffix = ".sum" THEN R(x.v, x) ELSE NoRow
    [] c.type = "histogram" -> IF suffix = "" /\ ex # -1 THEN R(x.buckets[ex], x) ELSE IF ex # -1 THEN NoRow ELSE IF suffix = ".count" THEN R(x.calls, x) ELSE IF suffix = ".sum" THEN R(x.v, x) ELSE NoRow
    [] c.type = "cps" -> IF suffix = "" /\ ex # -1 THEN R(Recent(x.clicks, ex, now), x) ELSE NoRow
    [] OTHER -> LET ad == IF DOMAIN x.addr = {0} /\ ex = -1 THEN 0 ELSE IF DOMAIN x.addr # {0} THEN ex ELSE -1
                IN IF ad \notin DOMAIN x.addr THEN NoRow
                   ELSE CASE suffix = ".consecutive_failures" -> R(x.addr[ad].f, x) [] suffix = ".consecutive_successes" -> R(x.addr[ad].s, x) [] suffix = ".status" -> R(IF x.addr[ad].w THEN 1 ELSE 0, x) [] OTHER -> NoRow
Total(st, suffix, ex) ==     \* of the metric that has labels
  LET c == st.cfg p == st.p IN
  CASE c.type = "counter" -> IF ex # -1 THEN NoRow ELSE IF suffix = ".sum" /\ c.agg THEN R(p.v, p) ELSE IF suffix = ".count" /\ c.count THEN R(p.calls, p) ELSE NoRow
    [] c.type = "summary" -> IF suffix = ".total" /\ ex # -1 /\ c.agg THEN R(Quantile4(Joined(st.kids, DOMAIN st.kids), ex), p) ELSE IF ex # -1 \/ ~c.count THEN NoRow ELSE IF suffix = ".count" THEN R(p.calls, p) ELSE IF suffix = ".sum" THEN R(p.v, p) ELSE NoRow
    [] c.type = "histogram" -> IF ~c.agg THEN NoRow ELSE IF suffix = ".total" /\ ex # -1 THEN R(p.buckets[ex], p) ELSE IF ex # -1 THEN NoRow ELSE IF suffix = ".total.count" THEN R(p.calls, p) ELSE IF suffix = ".total.sum" THEN R(p.v, p) ELSE NoRow
    [] c.type = "cps" -> IF suffix = ".total" /\ ex # -1 /\ c.agg THEN R(Recent(JoinedC(st.kids, DOMAIN st.kids), ex, st.now), p) ELSE NoRow
    [] c.type = "linkfail" -> Cell(c, p, suffix, ex, st.now)
    [] OTHER -> NoRow
Row(st, k) == IF k[2] # "no" THEN (IF k[2] \in DOMAIN st.kids THEN Cell(st.cfg, st.kids[k[2]], k[1], k[3], st.now) ELSE NoRow) ELSE IF st.on THEN Total(st, k[1], k[3]) ELSE Cell(st.cfg, st.p, k[1], k[3], st.now)
Extra(c) == CASE c.type = "summary" -> {0, 1, 2, 4} [] c.type = "histogram" -> {1, 2, 3} [] c.type = "cps" -> {4, 8} [] OTHER -> {}
Suffixes == {"", ".sum", ".count", ".total", ".total.sum", ".total.count", ".status", ".consecutive_failures", ".consecutive_successes"}
Adr(st) == UNION ({DOMAIN st.p.addr} \cup {DOMAIN st.kids[l].addr : l \in DOMAIN st.kids})
Count(st) == Cardinality({k \in Suffixes \X ({"no"} \cup DOMAIN st.kids) \X ({-1} \cup Extra(st.cfg) \cup Adr(st)) : Row(st, k) # NoRow})
Shown(st, k) == LET r == Row(st, k) IN IF r = NoRow THEN None ELSE <<"seq", Int_(r[1]), IF st.cfg.ts THEN Int_(r[2]) ELSE None>>
MInit(cfg) == [cfg |-> cfg, now |-> 0, on |-> FALSE, p |-> B0, kids |-> << >>, cb |-> <<>>]
MApply(st, e) ==
  LET a == e.a IN
  CASE e.op = "handle" -> One(MHandle(st, a[1], a[2], a[3]), None)
    [] e.op = "tick" -> One([st EXCEPT !.now = @ + a[1]], None)
    [] e.op = "report" -> One([st EXCEPT !.now = @ + 1], Seq_([k \in 1..Len(a[1]) |-> Shown(st, a[1][k])] \o <<Int_(Count(st))>>))
    [] e.op = "label" -> One([st EXCEPT !.now = @ + 1], IF a[1] \notin DOMAIN st.kids THEN Exc("KeyError") ELSE Seq_([k \in 1..Len(a[2]) |-> Shown(st, <<a[2][k][1], a[1], a[2][k][3]>>)]))      \* of that label only
    [] e.op = "callbacks" -> One(st, Seq_([k \in 1..Len(st.cb) |-> <<"seq", Str_(st.cb[k][1]), Int_(st.cb[k][2]), Str_(st.cb[k][3])>>]))
    [] e.op = "peek" -> One(st, None)       \* while others work
    [] OTHER -> {}
RECURSIVE Buckets(_, _)
Buckets(kids, D) == IF D = {} THEN 0 ELSE LET l == CHOOSE x \in D : TRUE IN SumSeq(kids[l].buckets) + Buckets(kids, D \ {l})
\* windows are bounded, and the total of the buckets is what fell in them
MInv(st) == /\ Len(st.p.win) <= st.cfg.n /\ \A l \in DOMAIN st.kids : Len(st.kids[l].win) <= st.cfg.n
            /\ (st.cfg.type = "histogram" /\ st.cfg.agg) => SumSeq(st.p.buckets) >= Buckets(st.kids, DOMAIN st.kids)
            /\ (st.cfg.type = "linkfail") => \A ad \in DOMAIN st.p.addr : LET k == st.p.addr[ad] IN (k.f = 0 \/ k.s = 0) /\ (k.f >= st.cfg.off => ~k.w) /\ (k.s >= st.cfg.on => k.w)
\* a value counts for its label and not for the others; nothing but handling changes them
MStep(st, e, r, t) == /\ \A l \in DOMAIN st.kids : t.kids[l] # st.kids[l] => e.op = "handle" /\ e.a[2] = l
                      /\ (e.op # "handle") => t.p = st.p
                      /\ SubSeq(t.cb, 1, Len(st.cb)) = st.cb
C0 == [type |-> "int", ts |-> FALSE, int |-> FALSE, agg |-> TRUE, count |-> TRUE, n |-> 3, b |-> <<1, 3>>, on |-> 2, off |-> 2]
MCfgs == << C0, [C0 EXCEPT !.ts = TRUE, !.int = TRUE], [C0 EXCEPT !.type = "counter"], [C0 EXCEPT !.type = "counter", !.agg = FALSE, !.ts = TRUE], [C0 EXCEPT !.type = "counter", !.count = FALSE, !.int = TRUE],
            [C0 EXCEPT !.type = "summary"], [C0 EXCEPT !.type = "summary", !.n = 2, !.agg = FALSE, !.ts = TRUE], [C0 EXCEPT !.type = "summary", !.count = FALSE, !.int = TRUE], [C0 EXCEPT !.type = "histogram"], [C0 EXCEPT !.type = "histogram", !.ts = TRUE, !.agg = FALSE], [C0 EXCEPT !.type = "histogram", !.int = TRUE],
            [C0 EXCEPT !.type = "cps"], [C0 EXCEPT !.type = "cps", !.agg = FALSE, !.ts = TRUE], [C0 EXCEPT !.type = "cps", !.int = TRUE], [C0 EXCEPT !.type = "linkfail"], [C0 EXCEPT !.type = "linkfail", !.off = 1, !.ts = TRUE], [C0 EXCEPT !.type = "linkfail", !.on = 1, !.int = TRUE] >>
Key(c) == CASE c.type = "linkfail" -> << <<".status", "no", -1>>, <<".status", "no", 0>>, <<".status", "no", 5>>, <<".consecutive_failures", "no", 5>>, <<".consecutive_successes", "no", -1>>, <<".status", "a", -1>>, <<".status", "a", 5>>, <<".consecutive_failures", "a", 5>> >>
            [] OTHER -> LET x == IF Extra(c) = {} THEN -1 ELSE MinOf(Extra(c)) y == IF Extra(c) = {} THEN -1 ELSE MaxOf(Extra(c))
                        IN << <<"", "no", x>>, <<"", "no", y>>, <<"", "a", x>>, <<"", "a", y>>, <<"", "b", y>>,  <<".sum", "no", -1>>, <<".sum", "a", -1>>, <<".count", "no", -1>>, <<".count", "a", -1>>, <<".total", "no", x>>, <<".total", "no", y>>, <<".total.sum", "no", -1>>, <<".total.count", "no", -1>> >> \o (IF c.type = "summary" THEN << <<"", "no", 1>>, <<"", "a", 2>>, <<".total", "no", 1>> >> ELSE <<>>)
Vals(c) == CASE c.type = "linkfail" -> {0, 1} [] c.type = "cps" -> {1} [] OTHER -> {-1, 1, 2, 4}
Ads(c) == IF c.type = "linkfail" THEN {0, 5} ELSE {0}
MOps(st) == << {[op |-> "handle", a |-> <<v, l, x>>] : v \in Vals(st.cfg), l \in {"no", "a", "b"}, x \in Ads(st.cfg)}, {[op |-> "tick", a |-> <<2>>], [op |-> "tick", a |-> <<3>>]}, {[op |-> "report", a |-> <<Key(st.cfg)>>]}, {[op |-> "label", a |-> <<l, Key(st.cfg)>>] : l \in {"a", "b"}}, {[op |-> "callbacks", a |-> <<>>]} >>
=========================================================================
