------------------------------ MODULE Tracebacks ------------------------------
(* StoredVariableValue and Traceback.  Kinds of values: "num" (repr of 5), "big" (repr of 1003, pickle of 1000 or so that compresses well), "fun" (cannot be pickled), "bad" (its repr raises), "gone" (pickles, but *)
(* cannot be loaded here), "odd" (so does this, loading it fails in its own way), "die" (pickling raises what is not an Exception).  Policy: [on, at, limit]: pickle at all, compress what is longer (-1: than it is, -2: than one less than it is), limit of repr (-1: none).  Then it goes through the steps of a chain, "json" or "pickle"  *)
EXTENDS Val
ReprLen(k) == CASE k = "num" -> 5 [] k = "big" -> 1003 [] OTHER -> 0
\* how long is the representation: 0 stands for something
Kept(k, p) == IF ReprLen(k) = 0 THEN 0 ELSE IF p.limit = -1 \/ ReprLen(k) <= p.limit THEN ReprLen(k) ELSE p.limit + 3
PType(k, p) == IF ~p.on THEN None ELSE IF k \in {"fun", "die"} THEN Str_("failed") ELSE IF p.at = -1 THEN Str_("pickle") ELSE IF p.at = -2 THEN Str_("pickle/gzip") ELSE IF p.at < 900 /\ k = "big" THEN Str_("pickle/gzip") ELSE IF p.at = 0 THEN Str_("pickle/gzip") ELSE Str_("pickle")
Load(k, p) == IF ~p.on \/ k \in {"fun", "gone", "odd", "die"} THEN Str_("ValueError") ELSE Str_("loaded")
VInit(cfg) == [x |-> 0]
VApply(st, e) ==
  LET a == e.a IN
  CASE e.op = "value" -> One(st, <<"seq", Int_(Kept(a[1], a[2])), PType(a[1], a[2]), Load(a[1], a[2])>>)
    \* functions a[1], each with a local variable of the kind, the innermost raises; after the chain: the names of the innermost frames, what has become of the variables, whether it is equal to the original
    [] e.op = "trace" -> LET n == Len(a[1]) IN One(st, <<"seq", StrSeq([i \in 1..n |-> a[1][n + 1 - i]]), <<"seq">> \o [i \in 1..n |-> Load(a[2], a[3])], Bool_(TRUE), Bool_(TRUE)>>)
    [] e.op = "garbage" -> One(st, Exc("ValueError"))
    [] OTHER -> {}
VInv(st) == TRUE
\* serialization changes nothing
VStep(st, e, r, t) == e.op = "value" => VApply(st, [op |-> "value", a |-> <<e.a[1], e.a[2], <<>>>>]) = {[s |-> t, r |-> r]}
VCfgs == <<[x |-> 0]>>
Chains == {<<>>, <<"json">>, <<"pickle">>, <<"json", "pickle">>, <<"pickle", "json">>, <<"json", "json">>, <<"pickle", "json", "pickle">>}
Pols == {[on |-> b, at |-> n, limit |-> l] : b \in BOOLEAN, n \in {-2, -1, 0, 500, 131072}, l \in {-1, 0, 3, 5, 100000}}
VOps(st) == << {[op |-> "value", a |-> <<k, p, c>>] : k \in {"num", "big", "fun", "bad", "gone", "odd", "die"}, p \in Pols, c \in Chains},
               {[op |-> "trace", a |-> <<q, k, p, c>>] : q \in {<<"f">>, <<"f", "g", "h">>, <<"f", "f", "f">>}, k \in {"num", "fun", "bad", "die"}, p \in {x \in Pols : x.at = 131072 /\ x.limit \in {-1, 3}}, c \in Chains},
               {[op |-> "garbage", a |-> <<k>>] : k \in {"str", "dict"}} >>
===============================================================================
