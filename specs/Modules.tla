------------------------------ MODULE Modules ------------------------------
(* Modules can be imported in any order; import_from; exceptions; randomness                              *)
EXTENDS Val
(* I: a history of imports in one interpreter *)
ICfgs == <<[x |-> 0]>>
IInit(cfg) == [loaded |-> <<>>]
IOps(st) == <<{[op |-> "import", a |-> <<m>>] : m \in {"satella", "satella.coding", "satella.configuration.sources", "satella.instrumentation", "satella.time"}}, {[op |-> "missing", a |-> <<>>]}>>
IApply(st, e) == CASE e.op = "import" -> One([loaded |-> Append(st.loaded, e.a[1])], None)
                   [] e.op = "missing" -> One(st, Seq_(<<>>))
IInv(st) == TRUE
IStep(st, e, r, t) == r[1] # "exc"

(* T: trees of modules: <<"mod", name, all, items>> and <<"pkg", name, all, items, children>>, all being <<"none">> or a sequence; *)
(* names preceded by _ are in Hidden                                                                                          *)
Hidden == {"_h", "_m", "_p"}
Names(c) == IF c[3] = <<"none">> THEN c[4] ELSE c[3]
NoAll(c) == c[3] = <<"none">>
Put(q, n, v) == IF \E k \in 1..Len(q) : q[k][1] = n THEN [k \in 1..Len(q) |-> IF q[k][1] = n THEN <<n, v>> ELSE q[k]] ELSE Append(q, <<n, v>>)
Bad == [bad |-> TRUE, q |-> <<>>, subs |-> <<>>]
NoAllQ == <<<<"noall", <<"none">>>>>>
RECURSIVE Import(_, _, _, _), PutAll(_, _, _, _)
Own(path, c) == LET ok == SelectSeq(IF NoAll(c) THEN <<>> ELSE c[3], LAMBDA n : n \in Range(c[4])) IN [k \in 1..Len(ok) |-> <<ok[k], Str_(path \o "." \o ok[k])>>]
PutAll(acc, path, c, o) ==
    LET F(k, prev) == LET n == Names(c)[k] IN
                 IF prev = Bad THEN Bad
                 ELSE IF n \in Hidden /\ o.skip_ THEN prev
                 ELSE IF n \notin Range(c[4]) THEN IF o.fail THEN Bad ELSE prev
                 ELSE [prev EXCEPT !.q = Put(@, n, Str_(path \o "." \o n))]
        A[k \in 0..Len(Names(c))] == IF k = 0 THEN acc ELSE F(k, A[k - 1])
    IN A[Len(Names(c))]
(* acc = [q: what is in __all__ with its value, subs: what became of the packages] *)
Import(path, children, own, o) ==
    LET F(k, prev) ==
            LET c == children[k] p == path \o "." \o c[2] IN
                 IF prev = Bad THEN Bad
                 ELSE IF (c[2] \in Hidden /\ o.skip_) \/ (c[1] = "pkg" /\ ~o.recursive) \/ (NoAll(c) /\ o.skipna) THEN prev
                 ELSE IF c[1] = "mod" THEN PutAll(prev, p, c, o)
                 ELSE LET r == Import(p, c[5], Own(p, c), o) IN
                      IF r = Bad THEN Bad
                      ELSE [bad |-> FALSE, q |-> Put(prev.q, c[2], Str_(p)),
                            subs |-> Append(prev.subs, <<c[2], IF NoAll(c) /\ ~o.create THEN NoAllQ ELSE r.q, r.subs>>)]
        A[k \in 0..Len(children)] == IF k = 0 THEN [bad |-> FALSE, q |-> own, subs |-> <<>>] ELSE F(k, A[k - 1])
    IN A[Len(children)]
RECURSIVE Render(_, _)
RQ(q) == IF q = NoAllQ THEN Str_("noall") ELSE Seq_([k \in 1..Len(q) |-> Seq_(<<Str_(q[k][1]), q[k][2]>>)])
Render(q, subs) == Seq_(<<RQ(q), Seq_([k \in 1..Len(subs) |-> Seq_(<<Str_(subs[k][1]), Render(subs[k][2], subs[k][3])>>)])>>)
M(n, all, items) == <<"mod", n, all, items>>
N == <<"none">>
Trees == <<
    <<M("m", <<"a", "b">>, <<"a", "b", "c">>)>>,
    <<M("_m", <<"a">>, <<"a">>), M("m", <<"b", "_h">>, <<"_h", "b">>), M("n", <<"b", "gone">>, <<"b">>)>>,
    <<<<"pkg", "email", <<"x">>, <<"x", "y">>, <<M("mime", <<"a">>, <<"a">>)>>>>, M("json", <<"a">>, <<"a">>)>>,
    <<<<"pkg", "_p", <<>>, <<>>, <<M("m", <<"a">>, <<"a">>)>>>>, <<"pkg", "json", N, <<"x">>, <<M("decoder", <<"b">>, <<"b">>), <<"pkg", "q", N, <<>>, <<M("r", <<"c">>, <<"c">>)>>>>>>>>>>,
    <<M("m", N, <<"a", "b">>), <<"pkg", "p", N, <<>>, <<M("n", N, <<"a">>)>>>>>>,
    <<<<"pkg", "p", <<"x">>, <<"x">>, <<M("n", <<"a", "x">>, <<"a", "x">>)>>>>, <<"pkg", "r", <<>>, <<>>, <<M("m", <<"gone">>, <<>>)>>>>>> >>
Opts == [recursive : BOOLEAN, fail : BOOLEAN, create : BOOLEAN, skip_ : BOOLEAN, skipna : BOOLEAN]
TCfgs == ICfgs
TInit(cfg) == cfg
TOps(st) == <<{[op |-> "import_from", a |-> <<Trees[t], o.recursive, o.fail, o.create, o.skip_, o.skipna>>] : t \in 1..Len(Trees), o \in {x \in Opts : x.skip_}} \cup
              {[op |-> "import_from", a |-> <<Trees[t], o.recursive, o.fail, o.create, o.skip_, o.skipna>>] : t \in {1, 2, 3, 6}, o \in {x \in Opts : ~x.skip_}}>>
TApply(st, e) == LET o == [recursive |-> e.a[2], fail |-> e.a[3], create |-> e.a[4], skip_ |-> e.a[5], skipna |-> e.a[6]]
                     r == Import("top", e.a[1], <<>>, o)
                 IN One(st, IF r = Bad THEN Exc("AttributeError") ELSE Render(r.q, r.subs))
TInv(st) == TRUE
TStep(st, e, r, t) == t = st /\ (~e.a[3] => r[1] # "exc")

(* X: exceptions.  Classes: <<name, base, code>> *)
Classes == ("Root1" :> <<"Coded", 0>>) @@ ("A" :> <<"Root1", 1>>) @@ ("B" :> <<"A", 2>>) @@ ("C" :> <<"Root1", 0>>) @@ ("D" :> <<"Root1", 0>>) @@ ("E" :> <<"C", 1>>) @@
           ("Root2" :> <<"Coded", 3>>) @@ ("F" :> <<"Root2", 1>>) @@ ("Coded" :> <<"none", 0>>)
RECURSIVE Anc(_), CodeOf(_), RootOf(_)
Anc(c) == IF c = "none" THEN {} ELSE {c} \cup Anc(Classes[c][1])
CodeOf(c) == IF c = "none" THEN 0 ELSE IF Classes[c][2] # 0 THEN Classes[c][2] ELSE CodeOf(Classes[c][1])
RootOf(c) == IF c = "Coded" THEN "" ELSE IF Classes[c][1] = "Coded" THEN c ELSE RootOf(Classes[c][1])
IsInst(x, code, c) == c \in Anc(x) \/ (c # "Coded" /\ RootOf(x) = RootOf(c) /\ CodeOf(c) # 0 /\ CodeOf(c) = IF code # 0 THEN code ELSE CodeOf(x))
Text(v) == IF v[1] = "str" THEN "'" \o v[2] \o "'" ELSE IF v[1] = "none" THEN "None" ELSE ToString(v[2])
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o ", " \o Join(Tail(q))
Body(name, args, kw) == name \o "(" \o Join([k \in 1..Len(args) |-> Text(args[k])] \o [k \in 1..Len(kw) |-> kw[k][1] \o "=" \o Text(kw[k][2])]) \o ")"
RECURSIVE PermsOf(_), Words(_, _)
PermsOf(S) == IF S = {} THEN {<<>>} ELSE UNION {{<<x>> \o q : q \in PermsOf(S \ {x})} : x \in S}
Words(n, S) == IF n = 0 THEN {""} ELSE {x \o y : x \in S, y \in Words(n - 1, S)}
XCfgs == ICfgs
XInit(cfg) == cfg
Args1 == {<<>>, <<Str_("m")>>, <<Int_(1), None>>, <<Str_("m"), Str_("n"), Int_(3)>>}
Kw1 == {<<>>, <<<<"k", Int_(1)>>>>, <<<<"k", Str_("v")>>, <<"l", None>>>>}
XOps(st) == <<{[op |-> "text", a |-> <<n, x, y>>] : n \in {"Mine", "Outer.Mine", "BaseSatellaError"}, x \in Args1, y \in Kw1},
              {[op |-> "isinstance", a |-> <<x, k, c>>] : x \in DOMAIN Classes, k \in 0..3, c \in DOMAIN Classes}, {[op |-> "foreign", a |-> <<c>>] : c \in DOMAIN Classes},
              {[op |-> "caught", a |-> <<x, c>>] : x \in DOMAIN Classes, c \in DOMAIN Classes},
              {[op |-> "shuffle", a |-> <<n, k>>] : n \in 0..4, k \in 0..3}, {[op |-> "word", a |-> <<n, c>>] : n \in 0..3, c \in {<<"a">>, <<"a", "b">>, <<"a", "b", "c">>}},
              {[op |-> "all_shuffles", a |-> <<n>>] : n \in 0..3}, {[op |-> "all_words", a |-> <<n, c>>] : n \in 0..3, c \in {<<"a">>, <<"a", "b">>, <<"a", "b", "c">>}},
              {[op |-> "class", a |-> <<x>>] : x \in {"subprocess.Popen", "collections.abc.Mapping", "subprocess.NoSuch", "nosuchmodule.X"}},
              {[op |-> "binary", a |-> <<n>>] : n \in {0, 1, 7, 1000, 100000}}, {[op |-> "disabled", a |-> <<>>]}>>
XApply(st, e) ==
    LET a == e.a IN
    CASE e.op = "text" -> One(st, Seq_(<<Str_(Body(IF a[1] = "Outer.Mine" THEN "Mine" ELSE a[1], a[2], a[3])), Str_((IF a[1] = "BaseSatellaError" THEN "satella.exceptions." ELSE "here.") \o Body(a[1], a[2], a[3]))>>))
      [] e.op = "isinstance" -> One(st, Bool_(IsInst(a[1], a[2], a[3])))
      [] e.op = "foreign" -> One(st, Bool_(FALSE))
      [] e.op = "caught" -> One(st, Bool_(a[2] \in Anc(a[1])))
      [] e.op = "shuffle" -> {[s |-> st, r |-> Seq_([j \in 1..a[2] |-> IntSeq([k \in 1..a[1] |-> 10 * j + p[k]])])] : p \in IF a[2] = 0 THEN {<<>>} ELSE PermsOf(1..a[1])}
      [] e.op = "word" -> {[s |-> st, r |-> Str_(x)] : x \in Words(a[1], Range(a[2]))}
      \* everything that is possible happens, if it is tried often enough
      [] e.op = "all_shuffles" -> One(st, Int_(Cardinality(PermsOf(1..a[1]))))
      [] e.op = "all_words" -> One(st, Int_(Cardinality(Words(a[1], Range(a[2])))))
      [] e.op = "class" -> One(st, CASE a[1] = "subprocess.Popen" -> Str_("Popen") [] a[1] = "collections.abc.Mapping" -> Str_("Mapping") [] a[1] = "subprocess.NoSuch" -> Exc("ImportError") [] OTHER -> Exc("ModuleNotFoundError"))
      [] e.op = "binary" -> One(st, Int_(a[1]))
      [] e.op = "disabled" -> One(st, Exc("NotImplementedError"))
XInv(st) == TRUE
(* a real subclass is always an instance, and another hierarchy never is *)
XStep(st, e, r, t) == t = st /\ (e.op = "isinstance" => (e.a[3] \in Anc(e.a[1]) => r[2]) /\ (RootOf(e.a[1]) # RootOf(e.a[3]) /\ e.a[3] # "Coded" => ~r[2]))
=============================================================================
