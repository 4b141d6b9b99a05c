------------------------------ MODULE Sources ------------------------------
(* Sources of configuration: trees of sources evaluated again and again while the environment and the  *)
(* files change.  A configuration is <<"map", f>>, f a function of its keys.                            *)
EXTENDS Val
Keys == <<"a", "b", "c", "d", "env", "Env", "type", "args", "x">>
IsMap(v) == v[1] = "map"
Map(f) == <<"map", f>>
Empty == Map([k \in {} |-> None])
RECURSIVE Dec(_), Render(_), Merge(_, _)
(* the driver passes mappings as <<"pairs", <<k, v>>, ...>> *)
Dec(v) == IF v[1] = "pairs" THEN Map([k \in {v[j][1] : j \in 2..Len(v)} |-> LET j == CHOOSE j \in 2..Len(v) : v[j][1] = k IN Dec(v[j][2])])
          ELSE IF v[1] = "seq" THEN <<"seq">> \o [j \in 1..(Len(v) - 1) |-> Dec(v[j + 1])]
          ELSE v
Render(v) == IF IsMap(v) THEN LET ks == SelectSeq(Keys, LAMBDA k : k \in DOMAIN v[2]) IN <<"pairs">> \o [j \in 1..Len(ks) |-> <<ks[j], Render(v[2][ks[j]])>>]
             ELSE IF v[1] = "seq" THEN <<"seq">> \o [j \in 1..(Len(v) - 1) |-> Render(v[j + 1])]
             ELSE v
Merge(a, b) == IF IsMap(a) /\ IsMap(b) THEN Map([k \in DOMAIN a[2] \cup DOMAIN b[2] |->
                                                 IF k \notin DOMAIN b[2] THEN a[2][k] ELSE IF k \notin DOMAIN a[2] THEN b[2][k] ELSE Merge(a[2][k], b[2][k])])
               ELSE IF a[1] = "seq" /\ b[1] = "seq" THEN a \o Tail(b)
               ELSE b
Fail == <<"fail">>
(* what is in the variables of the environment, and in files *)
AsInt(x) == CASE x = "12" -> Int_(12) [] x = " 7 " -> Int_(7) [] OTHER -> Fail
AsJson(x) == CASE x = "12" -> Int_(12) [] x = " 7 " -> Int_(7) [] x = "{\"a\": [1]}" -> Dec(<<"pairs", <<"a", <<"seq", <<"int", 1>>>>>>>>) [] OTHER -> Fail
Parses(kind, as) == kind = as \/ (kind = "JSON" /\ as = "YAML")
Content(c, interps) == IF c[1] = "empty" THEN (IF \E k \in 1..Len(interps) : interps[k] = "TOML" THEN Empty ELSE Fail) ELSE   \* an empty file is a valid TOML only
                       IF c[1] = "text" /\ \E k \in 1..Len(interps) : Parses(c[2], interps[k]) THEN Dec(c[3]) ELSE Fail
RECURSIVE Perms(_)
Perms(S) == IF S = {} THEN {<<>>} ELSE UNION {{<<x>> \o q : q \in Perms(S \ {x})} : x \in S}
RECURSIVE Eval(_, _), EvalMerge(_, _, _, _, _)
(* the set of what may be answered *)
Fold(vals, silent, failnone) ==
    LET good == SelectSeq(vals, LAMBDA v : v # Fail)
        M[n \in 0..Len(good)] == IF n = 0 THEN Empty ELSE Merge(M[n - 1], good[n])
    IN IF ~silent /\ Len(good) < Len(vals) THEN Fail
       ELSE IF good = <<>> /\ vals # <<>> /\ failnone THEN Fail
       ELSE M[Len(good)]
EvalMerge(st, srcs, vals, silent, failnone) ==
    IF srcs = <<>> THEN {Fold(vals, silent, failnone)}
    ELSE UNION {EvalMerge(st, Tail(srcs), Append(vals, v), silent, failnone) : v \in Eval(st, Head(srcs))}
FirstOf(st, srcs) ==
    LET A[n \in 1..(Len(srcs) + 1)] == IF n > Len(srcs) THEN {Fail} ELSE UNION {IF v = Fail THEN A[n + 1] ELSE {v} : v \in Eval(st, srcs[n])} IN A[1]
Eval(st, s) ==
    LET k == s[1] IN
    CASE k = "static" -> {Dec(s[2])}
      [] k = "text" -> {IF Parses(s[2], s[2]) THEN Dec(s[3]) ELSE Fail}
      [] k = "emptytext" -> {IF s[2] = "TOML" THEN Empty ELSE Fail}
      [] k \in {"broken", "notdict"} -> {Fail}
      \* what is served is what file x contains: nothing is a 404, something broken is a failure of the connection
      [] k = "http" -> {Content(st.files["x"], <<"JSON">>)}
      [] k = "env" -> LET x == st.env[s[2]]
                          v == IF x = "unset" THEN Fail ELSE IF s[4] = "int" THEN AsInt(x) ELSE Str_(x)
                      IN {IF v = Fail THEN Fail ELSE Map((IF s[3] = "" THEN s[2] ELSE s[3]) :> v)}
      [] k = "envvars" -> LET v == AsJson(st.env[s[2]]) IN {IF st.env[s[2]] = "unset" \/ ~IsMap(v) THEN Fail ELSE v}
      [] k = "file" -> {Content(st.files[s[2]], Tail(Tail(s)))}
      [] k = "dir" -> LET fs == {f \in DOMAIN st.files : st.files[f][1] # "gone" /\ (f # "sub/z" \/ s[2]) /\ s[4] # f /\ ~(s[4] = "sub" /\ f = "sub/z")}
                          cs(q) == [j \in 1..Len(q) |-> Content(st.files[q[j]], SubSeq(s, 5, Len(s)))]
                      IN {Fold(cs(q), s[3], TRUE) : q \in Perms(fs)}
      [] k = "nodir" -> {IF s[2] THEN Empty ELSE Fail}
      [] k = "object" -> {IF v = Fail THEN Fail ELSE Map(s[2] :> v) : v \in Eval(st, s[3])}
      [] k = "opt" -> {IF v = Fail THEN Empty ELSE v : v \in Eval(st, s[2])}
      [] k = "alt" -> FirstOf(st, Tail(s))
      [] k = "merge" -> EvalMerge(st, Tail(Tail(Tail(s))), <<>>, s[2], s[3])

P(k, v) == <<"pairs", <<k, v>>>>
I(n) == <<"seq", Int_(n)>>
SA == <<"static", P("a", I(1))>>
SB == <<"static", P("a", I(2))>>
SN == <<"static", P("b", P("c", I(3)))>>
SM == <<"static", <<"pairs", <<"b", P("c", I(4))>>, <<"a", Int_(5)>>>>>>
Bad == <<"broken", "JSON">>
Env == <<"env", "x", "Env", "">>
All == <<"JSON", "YAML", "TOML">>
Srcs == <<SA, Env, <<"env", "x", "", "int">>, <<"envvars", "x">>, <<"opt", <<"envvars", "x">>>>, <<"alt", Bad, <<"envvars", "x">>, SA>>, <<"alt">>, <<"alt", Bad>>, <<"alt", SB, Bad>>,
         <<"merge", FALSE, TRUE, SA, SB>>, <<"merge", FALSE, TRUE, SN, SM, SN>>, <<"merge", FALSE, TRUE, SM, SA>>, <<"merge", TRUE, TRUE, Bad, SA, Bad>>, <<"merge", FALSE, TRUE, SA, Bad>>, <<"merge", TRUE, TRUE, Bad>>,
         <<"merge", TRUE, FALSE, Bad>>, <<"merge", FALSE, TRUE>>, <<"merge", FALSE, TRUE, <<"object", "b", SN>>, <<"object", "b", SM>>, SN>>, <<"merge", TRUE, TRUE, <<"file", "x", "JSON", "YAML", "TOML">>, <<"envvars", "x">>>>,
         <<"merge", FALSE, TRUE, <<"merge", FALSE, TRUE, SN, SA>>, <<"merge", FALSE, TRUE, SM, SB>>>>, <<"opt", <<"merge", FALSE, TRUE, SA, <<"env", "x", "a", "int">>>>>>,
         <<"object", "b", SA>>, <<"object", "b", Bad>>, <<"file", "x", "JSON", "YAML", "TOML">>, <<"file", "x", "YAML">>, <<"file", "y", "TOML", "JSON">>, <<"opt", <<"file", "sub/z", "JSON">>>>,
         <<"dir", TRUE, TRUE, "", "JSON", "YAML", "TOML">>, <<"dir", FALSE, FALSE, "", "JSON", "YAML", "TOML">>, <<"dir", TRUE, FALSE, "", "JSON", "YAML", "TOML">>, <<"dir", TRUE, TRUE, "x", "TOML">>, <<"dir", TRUE, FALSE, "sub", "YAML">>, <<"http">>, <<"opt", <<"http">>>>, <<"emptytext", "JSON">>, <<"emptytext", "YAML">>, <<"emptytext", "TOML">>, <<"nodir", TRUE>>, <<"nodir", FALSE>>, <<"notdict", "JSON">>, <<"notdict", "YAML">>, <<"broken", "TOML">>, <<"broken", "YAML">>,
         <<"text", "JSON", P("a", P("b", Int_(1)))>>, <<"text", "YAML", P("a", I(1))>>, <<"text", "TOML", P("a", P("b", Str_("x")))>>, <<"text", "JSON", <<"pairs">>>>,
         <<"static", P("a", P("type", Str_("file")))>>, <<"static", P("type", Str_("file"))>>, <<"static", P("type", Str_("unknown"))>>, <<"static", P("type", <<"seq">>)>>, <<"object", "a", <<"static", P("type", Int_(1))>>>>>>
CCfgs == [k \in 1..(2 * Len(Srcs)) |-> [src |-> Srcs[(k + 1) \div 2], form |-> IF k % 2 = 1 THEN "direct" ELSE "dict"]]
CInit(cfg) == [cfg |-> cfg, env |-> ("x" :> "unset"), files |-> [f \in {"x", "y", "sub/z"} |-> <<"gone">>]]
Texts == {<<"gone">>, <<"empty">>, <<"broken">>, <<"text", "JSON", P("a", I(1))>>, <<"text", "YAML", P("a", I(2))>>, <<"text", "TOML", P("b", P("c", Int_(3)))>>}
COps(st) == <<{[op |-> "provide", a |-> <<>>]},
            {[op |-> "setenv", a |-> <<x>>] : x \in {"unset", "12", "junk", "{\"a\": [1]}"}},
            {[op |-> "put", a |-> <<f, t>>] : f \in {"x", "sub/z"}, t \in Texts}>>
CApply(st, e) ==
    CASE e.op = "provide" -> {[s |-> st, r |-> IF v = Fail THEN Exc("ConfigurationError") ELSE Render(v)] : v \in Eval(st, st.cfg.src)}
      [] e.op = "setenv" -> One([st EXCEPT !.env["x"] = e.a[1]], None)
      [] e.op = "put" -> One([st EXCEPT !.files[e.a[1]] = e.a[2]], None)
      [] OTHER -> {}
(* an optional source never fails, and a source that cannot fail gives a mapping *)
CInv(st) == \A v \in Eval(st, st.cfg.src) : (v = Fail \/ IsMap(v)) /\ (st.cfg.src[1] = "opt" => v # Fail)
(* what is asked twice is answered the same *)
CStep(st, e, r, y) == e.op = "provide" => y = st

(* merging of what was given *)
VSet == {Int_(1), I(1), I(2), P("a", I(1)), P("a", I(2)), P("a", Int_(3)), P("b", I(4)), P("a", P("b", I(5))), P("a", P("b", I(6))), P("a", P("c", Str_("x"))), <<"pairs">>, <<"seq">>}
MCfgs == <<[x |-> 0]>>
MInit(cfg) == [x |-> 0]
MOps(st) == <<{[op |-> "load", a |-> <<x>>] : x \in {"unknown", "notype", "badargs", "notadict", "notasource"}},
              {[op |-> "merge", a |-> <<x, y, z>>] : x \in VSet, y \in VSet, z \in VSet}>>
MApply(st, e) == IF e.op = "load" THEN One(st, Exc("ConfigurationError")) ELSE IF e.op # "merge" THEN {} ELSE One(st, Seq_(<<Render(Merge(Merge(Dec(e.a[1]), Dec(e.a[2])), Dec(e.a[3]))), Render(Dec(e.a[2])), Render(Dec(e.a[3]))>>))
(* merging maps is associative *)
MInv(st) == \A x, y, z \in {Dec(v) : v \in {v \in VSet : v[1] = "pairs"}} : (\A q \in {x, y, z} : q[1] = "map") => DOMAIN Merge(Merge(x, y), z)[2] = DOMAIN Merge(x, Merge(y, z))[2]
MStep(st, e, r, y) == y = st
=============================================================================
