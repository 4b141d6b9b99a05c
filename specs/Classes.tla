------------------------------ MODULE Classes ------------------------------
(* overloaded functions; metaclasses; wrapping                                                             *)
EXTENDS Val
Types == {"object", "A", "B", "C", "int", "bool", "str"}
Sups(t) == CASE t = "object" -> {"object"} [] t = "A" -> {"object", "A"} [] t = "B" -> {"object", "A", "B"} [] t = "C" -> {"object", "A", "B", "C"}
             [] t = "int" -> {"object", "int"} [] t = "bool" -> {"object", "int", "bool"} [] t = "str" -> {"object", "str"} [] t = "any" -> {"object", "any"}
Sub(t, u) == u = "any" \/ u \in Sups(t)

(* V: the call goes to a signature that matches, and that no other that matches is more specific than      *)
VCfgs == <<[x |-> 0]>>
VInit(cfg) == [sigs |-> <<>>]
Sigs == {<<t>> : t \in Types} \cup {<<"any">>, <<>>, <<"A", "A">>, <<"B", "A">>, <<"A", "B">>, <<"int", "str">>, <<"B", "B">>}
Calls == {<<t>> : t \in Types} \cup {<<>>, <<"B", "B">>, <<"C", "A">>, <<"int", "str">>, <<"str", "int">>}
VOps(st) == <<{[op |-> "overload", a |-> <<g>>] : g \in IF Len(st.sigs) < 3 THEN Sigs ELSE {}}, IF st.sigs = <<>> THEN {} ELSE {[op |-> "call", a |-> <<c, kw>>] : c \in Calls, kw \in {FALSE}}>>
Matches(c, g) == Len(c) = Len(g) /\ \A k \in 1..Len(c) : Sub(c[k], g[k])
Narrower(g, h) == g # h /\ \A k \in 1..Len(g) : Sub(g[k], h[k])
VApply(st, e) ==
    CASE e.op = "overload" -> IF e.a[1] \in Range(st.sigs) THEN {[s |-> st, r |-> Exc(x)] : x \in {"TypeError", "ValueError"}}
                              ELSE One([sigs |-> Append(st.sigs, e.a[1])], Int_(Len(st.sigs) + 1))
      [] e.op = "call" -> LET m == {k \in 1..Len(st.sigs) : Matches(e.a[1], st.sigs[k])} IN
                          IF m = {} THEN One(st, Exc("TypeError"))
                          ELSE {[s |-> st, r |-> Int_(k)] : k \in {j \in m : \A i \in m : ~(Narrower(st.sigs[i], st.sigs[j]) /\ ~Narrower(st.sigs[j], st.sigs[i]))}}
VInv(st) == Cardinality(Range(st.sigs)) = Len(st.sigs)
VStep(st, e, r, t) == e.op = "call" /\ r[1] = "int" => Matches(e.a[1], st.sigs[r[2]])

(* L: one of these is more generic than the other *)
LCfgs == VCfgs
LInit(cfg) == cfg
LOps(st) == <<{[op |-> "lt", a |-> <<g, h>>] : g \in {<<t>> : t \in Types}, h \in {<<t>> : t \in Types}}>>
LApply(st, e) == One(st, Bool_(Narrower(e.a[2], e.a[1])))
LInv(st) == TRUE
LStep(st, e, r, t) == r[2] => ~Narrower(e.a[1], e.a[2])

(* D: documentation: what is documented in each class; members "m", "n" and the class itself, "cls"       *)
DCfgs == VCfgs
DInit(cfg) == cfg
Parts == {"m", "n", "cls"}
Seqs(S, all) == {SelectSeq(all, LAMBDA x : x \in s) : s \in S}
PartsQ == <<"m", "n", "cls">>
DOps(st) == <<{[op |-> "parent", a |-> <<own, f, mo, g>>] : own \in Seqs({{}, {"m"}, {"cls", "n"}}, PartsQ), f \in Seqs(SUBSET Parts, PartsQ), mo \in Seqs({{}, {"m", "cls"}, {"n"}}, PartsQ), g \in Seqs({{}, {"m", "n", "cls"}, {"n"}}, PartsQ)}
              \cup {[op |-> "copy", a |-> <<own, src>>] : own \in Seqs(SUBSET Parts, PartsQ), src \in Seqs(SUBSET Parts, PartsQ)}>>
DFrom(order, p) == IF \E k \in 1..Len(order) : p \in Range(order[k][2]) THEN Str_(order[CHOOSE k \in 1..Len(order) : p \in Range(order[k][2]) /\ \A j \in 1..(k - 1) : p \notin Range(order[j][2])][1]) ELSE None
DApply(st, e) ==
    CASE e.op = "parent" -> LET order == <<<<"Child", e.a[1]>>, <<"Father", e.a[2]>>, <<"Mother", e.a[3]>>, <<"Grand", e.a[4]>>>> IN
                            One(st, Seq_(<<DFrom(order, "m"), DFrom(order, "n"), DFrom(order, "cls")>>))
      [] e.op = "copy" -> LET order == <<<<"Target", e.a[1]>>, <<"Source", e.a[2]>>>> IN One(st, Seq_(<<DFrom(order, "m"), DFrom(order, "n"), DFrom(order, "cls")>>))
DInv(st) == TRUE
DStep(st, e, r, t) == TRUE

(* W: wrapping of what is selected; classes of several metaclasses; context managers around callables      *)
WCfgs == VCfgs
WInit(cfg) == cfg
Members == {"one", "two", "three"}
MembersQ == <<"one", "two", "three">>
Access == <<"get", "set", "del">>
Metas == {"type", "MA", "MB", "MAsub", "ABCMeta"}
MetaSups(m) == CASE m = "type" -> {} [] m = "MA" -> {"MA"} [] m = "MB" -> {"MB"} [] m = "MAsub" -> {"MA", "MAsub"} [] m = "ABCMeta" -> {"ABCMeta"}
WOps(st) == <<{[op |-> "wrap_with", a |-> <<sel, dont, psel>>] : sel \in Seqs(SUBSET Members, MembersQ), dont \in Seqs({{}, {"one"}, {"two", "three"}}, MembersQ), psel \in BOOLEAN},
              {[op |-> "wrap_property", a |-> <<w, has>>] : w \in Seqs(SUBSET Range(Access), Access), has \in {<<"get">>, <<"get", "set">>, Access}},
              {[op |-> "metaclass", a |-> <<x, y, d>>] : x \in Metas, y \in Metas, d \in BOOLEAN},
              {[op |-> "class_or_instance", a |-> <<how>>] : how \in {"class", "instance", "subclass", "subinstance"}},
              {[op |-> "in_context", a |-> <<how, n>>] : how \in {"returns", "raises", "swallowed"}, n \in 1..2},
              {[op |-> "empty_context", a |-> <<how>>] : how \in {"returns", "raises"}}, {[op |-> "static", a |-> <<how, n>>] : how \in {"function", "method"}, n \in 0..3}>>
Twice(n) == <<Str_("enter"), Seq_(<<Int_(1), Str_("k"), Int_(2)>>), Seq_(<<Int_(n), Str_("z"), Int_(9)>>), Str_("exit")>>
WApply(st, e) ==
    CASE e.op = "wrap_with" -> LET w(m) == m \in Range(e.a[1]) /\ m \notin Range(e.a[2]) IN
                               One(st, Seq_([k \in 1..3 |-> Int_(k * (IF w(<<"one", "two", "three">>[k]) THEN 2 ELSE 1))] \o <<Int_(IF e.a[3] THEN 100 ELSE 50), Int_(7), Bool_(TRUE)>>))
      [] e.op = "wrap_property" -> LET w == Range(e.a[1]) has == Range(e.a[2]) IN
                               (* reading 5; after setting 3; deleting *)
                               One(st, Seq_(<<Int_(IF "get" \in w THEN 10 ELSE 5),
                                              IF "set" \notin has THEN Exc("AttributeError") ELSE Int_((IF "set" \in w THEN 30 ELSE 3) * (IF "get" \in w THEN 2 ELSE 1)),
                                              IF "del" \notin has THEN Exc("AttributeError") ELSE Str_(IF "del" \in w THEN "wrapped" ELSE "plain"), Str_("doc")>>))
      [] e.op = "metaclass" -> One(st, Seq_(<<Bool_(TRUE), Bool_(TRUE), Int_(3)>>))
      [] e.op = "class_or_instance" -> One(st, Str_(e.a[1]))
      [] e.op = "in_context" -> LET q == IF e.a[2] = 1 THEN Twice(5) ELSE Twice(5) \o Twice(6) IN
                                One(st, Seq_(<<IF e.a[1] = "returns" THEN Int_(4 + e.a[2]) ELSE IF e.a[1] = "raises" THEN Exc("ValueError") ELSE None, Seq_(q), Str_("name")>>))
      [] e.op = "empty_context" -> One(st, IF e.a[1] = "raises" THEN Exc("ValueError") ELSE Int_(5))
      [] e.op = "static" -> One(st, IntSeq(<<2 + e.a[2], 2>>))
WInv(st) == TRUE
WStep(st, e, r, t) == TRUE
=============================================================================
