-------------------------------- MODULE Recast --------------------------------
(* A call passes through a tower of wrappers, innermost first.  An outcome is what a call ends with: [k |-> "ret", v] or [k |-> "exc", c (class), d (what it says)].  *)
(* A wrapper is [k, t (exception classes), to, ret, cm (used as a context manager), sw, fmt, pairs]                                                    *)
(* N..: towers    U..: one wrapper used by several threads                                                                                             *)
EXTENDS Val
Up(c) == {c, "BaseException"} \cup
  CASE c = "KeyError" -> {"LookupError", "Exception"} [] c = "IndexError" -> {"LookupError", "Exception"} [] c = "LookupError" -> {"Exception"}
    [] c = "UnicodeError" -> {"ValueError", "Exception"} [] c = "ValueError" -> {"Exception"} [] c = "RuntimeError" -> {"Exception"} [] c = "OSError" -> {"Exception"}
    [] OTHER -> {}
Match(c, ts) == \E i \in DOMAIN ts : ts[i] \in Up(c)
Ret(v) == [k |-> "ret", v |-> v]
Raise(c, d) == [k |-> "exc", c |-> c, d |-> <<"seq", Str_(c), d>>]
Swallowed(w) == IF w.cm THEN Ret(Str_("after")) ELSE Ret(CASE w.ret = "none" -> None [] w.ret = "val" -> Int_(5) [] w.ret = "fac" -> Int_(6))
\* the first pair one of whose classes the exception is an instance of
First(w, c) == LET ok == {i \in DOMAIN w.pairs : Match(c, w.pairs[i][1])} IN IF ok = {} THEN 0 ELSE MinOf(ok)
Sev(w) == IF w.sw THEN 30 ELSE 40
\* [o, l]: the outcome and what was logged
Wrap(w, o) ==
  LET same == [o |-> o, l |-> <<>>] IN
  IF o.k = "ret" THEN
    CASE w.k = "expect" -> [o |-> Raise(w.to, Str_("unraised")), l |-> <<>>]
      [] w.k = "raises" -> [o |-> Ret(Bool_(FALSE)), l |-> <<>>]
      [] w.k = "catch" -> [o |-> CASE w.ret = "val" -> Ret(Int_(5)) [] w.ret = "fac" -> o [] w.ret = "none" -> Raise("ValueError", Str_("noerror")), l |-> <<>>]
      [] OTHER -> same
  ELSE
    CASE w.k = "silence" -> IF Match(o.c, w.t) THEN [o |-> Swallowed(w), l |-> <<>>] ELSE same
      [] w.k = "rethrow" -> LET i == First(w, o.c) IN
                            IF i = 0 THEN same ELSE IF w.pairs[i][2] = "" THEN [o |-> Swallowed(w), l |-> <<>>]
                            ELSE [o |-> Raise(w.pairs[i][2], <<"seq", Str_(IF w.sw THEN "pp" ELSE "of"), o.d>>), l |-> <<>>]
      [] w.k = "reraise" -> IF ~Match(o.c, w.t) THEN same ELSE IF w.to = "" THEN [o |-> Swallowed(w), l |-> <<>>]
                            ELSE [o |-> Raise(w.to, <<"seq", Str_("why"), o.d>>), l |-> <<>>]
      [] w.k = "log" -> IF ~Match(o.c, w.t) THEN same
                        ELSE [o |-> IF w.sw THEN Swallowed(w) ELSE o,
                              l |-> << <<"seq", Int_(Sev(w)), Str_(CASE w.fmt = "e" -> o.c [] w.fmt = "args" -> "7/8" [] w.fmt = "locals" -> "007" [] w.fmt = "plain" -> "plain"), o.d>> >>]
      [] w.k = "expect" -> IF Match(o.c, w.t) THEN [o |-> Ret(Str_("after")), l |-> <<>>] ELSE same
      [] w.k = "raises" -> IF Match(o.c, w.t) THEN [o |-> Ret(Bool_(TRUE)), l |-> <<>>] ELSE same
      [] w.k = "catch" -> IF Match(o.c, w.t) THEN [o |-> Ret(<<"seq", Str_("caught"), o.d>>), l |-> <<>>] ELSE same
Body(b) == IF b = "" THEN Ret(Int_(1)) ELSE Raise(b, None)
RECURSIVE Tower(_, _, _)
Tower(ws, o, l) == IF ws = <<>> THEN [o |-> o, l |-> l] ELSE LET q == Wrap(Head(ws), o) IN Tower(Tail(ws), q.o, l \o q.l)
Ans(o) == IF o.k = "ret" THEN <<"seq", Str_("ret"), o.v>> ELSE <<"seq", Str_("exc"), o.d>>
Full(q) == <<"seq", Ans(q.o), <<"seq">> \o q.l>>
\* f(d) calls f(d-1), possibly catching what it raises, and fails at the levels given; every level passes through the wrapper; l is what the levels saw
RECURSIVE Rec(_, _, _, _)
Rec(w, d, bad, catch) ==
  LET q == IF d = 0 THEN [o |-> Ret(None), l |-> <<>>] ELSE Rec(w, d - 1, bad, catch)
      l1 == IF d = 0 THEN q.l ELSE Append(q.l, Ans(q.o))
      o == IF q.o.k = "exc" /\ ~catch THEN q.o ELSE IF d \in bad THEN Raise("KeyError", None) ELSE Ret(Int_(d * 10)) IN
  [o |-> Wrap(w, o).o, l |-> l1]
NInit(cfg) == [x |-> 0]
NApply(st, e) ==
  LET a == e.a IN
  CASE e.op = "run" -> One(st, Full(Tower(a[1], Body(a[2]), <<>>)))
    [] e.op = "rec" -> One(st, Full(Rec(a[1], a[2], Range(a[3]), a[4])))
    \* a generator of a[2] values, finished by a[3]; the consumer sends 10 * i and, at a[4] (if not 0), throws a KeyError in
    [] e.op = "gen" -> LET n == IF a[4] # 0 THEN a[4] ELSE a[2]
                           o == IF a[4] # 0 THEN Raise("KeyError", None) ELSE IF a[3] # "" THEN Raise(a[3], None) ELSE Ret(Int_(10 * ((n * (n + 1)) \div 2)))
                           q == Wrap(a[1], o) IN
                       One(st, <<"seq", <<"seq">> \o [i \in 1..n |-> Int_(i)], Full(q)>>)
    [] OTHER -> {}
NInv(st) == TRUE
\* nothing is invented: an exception that comes out came from the body, or was named by a wrapper
NStep(st, e, r, t) == (e.op = "run" /\ r[2][2] = Str_("exc")) =>
                        r[2][3][2][2] \in {e.a[2]} \cup UNION {{w.to} \cup {w.pairs[i][2] : i \in DOMAIN w.pairs} : w \in Range(e.a[1])} \cup {"ValueError"}
NCfgs == <<[x |-> 0]>>
Wr(k, t, to, ret, cm, sw, fmt, pairs) == [k |-> k, t |-> t, to |-> to, ret |-> ret, cm |-> cm, sw |-> sw, fmt |-> fmt, pairs |-> pairs]
TS == {<<"KeyError">>, <<"LookupError">>, <<"ValueError", "KeyError">>, <<"KeyboardInterrupt">>}
PS == {<< <<<<"KeyError">>, "OSError">> >>, << <<<<"LookupError">>, "">> >>, << <<<<"IndexError">>, "RuntimeError">>, <<<<"LookupError">>, "ValueError">>, <<<<"BaseException">>, "">> >>, << <<<<"Exception">>, "ValueError">> >>}
WS == {Wr("silence", t, "", r, c, FALSE, "", <<>>) : t \in TS, r \in {"none", "val", "fac"}, c \in BOOLEAN}
      \cup {Wr("rethrow", <<>>, "", r, c, s, "", p) : p \in PS, r \in {"none", "val", "fac"}, c \in BOOLEAN, s \in BOOLEAN}
      \cup {Wr("reraise", t, to, "none", c, FALSE, "", <<>>) : t \in TS, to \in {"", "OSError"}, c \in BOOLEAN}
      \cup {Wr("log", t, "", "none", c, s, f, <<>>) : t \in TS, c \in BOOLEAN, s \in BOOLEAN, f \in {"e", "locals", "plain"}}
      \cup {Wr("log", t, "", "none", FALSE, s, "args", <<>>) : t \in TS, s \in BOOLEAN}
      \cup {Wr("expect", t, "OSError", "none", TRUE, FALSE, "", <<>>) : t \in TS}
      \cup {Wr("raises", t, "", "none", FALSE, FALSE, "", <<>>) : t \in TS}
      \cup {Wr("catch", t, "", r, FALSE, FALSE, "", <<>>) : t \in TS, r \in {"none", "fac"}}
W2 == {w \in WS : w.t \in {<<>>, <<"LookupError">>} /\ w.ret # "val" /\ w.fmt \in {"", "e"} /\ Len(w.pairs) # 1}
Bodies == {"", "KeyError", "IndexError", "UnicodeError", "ValueError", "KeyboardInterrupt"}
NOps(st) == << {[op |-> "run", a |-> << <<w>>, b>>] : w \in WS, b \in Bodies},
               {[op |-> "run", a |-> << <<w, v>>, b>>] : w \in W2, v \in W2, b \in {"", "KeyError"}},
               {[op |-> "rec", a |-> <<w, d, q, c>>] : w \in {x \in WS : x.k \in {"silence", "rethrow", "reraise", "log"} /\ x.fmt \in {"", "e"} /\ x.t \in {<<>>, <<"LookupError">>}}, d \in {2}, q \in {<<>>, <<0>>, <<1>>, <<0, 2>>}, c \in BOOLEAN},
               {[op |-> "gen", a |-> <<w, n, b, p>>] : w \in {x \in WS : x.k = "log" /\ ~x.cm /\ x.fmt = "e"}, n \in {0, 2}, b \in Bodies, p \in {0}},
               {[op |-> "gen", a |-> <<w, 2, b, p>>] : w \in {x \in WS : x.k = "log" /\ ~x.cm /\ x.fmt = "e"}, b \in {""}, p \in {1, 2}} >>
\* ------------------------------------------------------------------ U
UInit(cfg) == [w |-> cfg.w]
UApply(st, e) == CASE e.op = "go" -> One(st, Full(Tower(<<st.w>>, Body(e.a[1]), <<>>))) [] OTHER -> {}
UInv(st) == TRUE
UStep(st, e, r, t) == TRUE
===============================================================================
