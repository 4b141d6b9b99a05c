------------------------------ MODULE Jsons ------------------------------
(* JSON.  A value is a tree: <<"int", n>>, <<"str", s>>, <<"bool", b>>, <<"none">>, <<"enum", n>>, <<"intenum", n>>, <<"other", class name>> (of no known kind), and the containers, with children: *)
(* "list", "tuple", "obj" (with a dictionary), "slots", "dict" (its children are under "a", "b".. too), "json" and "jslots" (an object whose to_json() gives the one child), "under" (slots with names that start with an underscore), "keys" (a dictionary with the keys None and 5). <<"enumseq">> is an enum with the value (1, "q").                                          *)
(* Decoded JSON: the tagged values, <<"dict", <<key, value>>..>> in addition.  A data class has the fields x, y, y having the default value 7 (0 in "zero"); a class derived from it adds z.                          *)
EXTENDS Val
Keys == <<"a", "b">>
RECURSIVE J(_)
Js(q) == [i \in 1..Len(q) |-> J(q[i])]
J(v) == CASE v[1] \in {"int", "str", "bool", "none"} -> v
          [] v[1] \in {"enum", "intenum"} -> <<"int", v[2]>>
          [] v[1] = "other" -> Str_("<an instance of " \o v[2] \o ">")
          [] v[1] \in {"list", "tuple"} -> <<"seq">> \o Js(Tail(v))
          [] v[1] \in {"obj", "slots", "dict"} -> <<"dict">> \o [i \in 1..(Len(v) - 1) |-> <<Keys[i], J(v[i + 1])>>]
          [] v[1] = "under" -> <<"dict">> \o [i \in 1..(Len(v) - 1) |-> <<"_" \o Keys[i], J(v[i + 1])>>]
          [] v[1] = "keys" -> <<"dict">> \o [i \in 1..(Len(v) - 1) |-> <<<<"null", "5">>[i], J(v[i + 1])>>]
          [] v[1] = "enumseq" -> <<"seq", Int_(1), Str_("q")>>
          [] v[1] \in {"json", "jslots"} -> J(v[2])
\* the file: <<"absent">>, <<"garbage">> or what it decodes to
LInit(cfg) == [file |-> <<"absent">>]
Fields(c) == CASE c = "base" -> <<"x", "y">> [] c = "derived" -> <<"x", "y", "z">> [] c \in {"same", "zero"} -> <<"x", "y">>
Val_(c, o, f) == IF f \in DOMAIN o THEN o[f] ELSE IF f = "y" /\ c # "zero" THEN 7 ELSE 0
Made(c, o) == \A f \in {"x", "z"} \cap Range(Fields(c)) : f \in DOMAIN o
LApply(st, e) ==
  LET a == e.a IN
  CASE e.op = "encode" -> One(st, J(a[1]))
    [] e.op = "write" -> One([st EXCEPT !.file = J(a[1])], None)
    [] e.op = "write_bad" -> One(st, Exc("ZeroDivisionError"))
    [] e.op = "if_different" -> One([st EXCEPT !.file = J(a[1])], Bool_(st.file # J(a[1])))
    [] e.op = "if_different_bad" -> One(st, Exc("ZeroDivisionError"))
    [] e.op = "spoil" -> One([st EXCEPT !.file = <<"garbage">>], None)
    [] e.op = "read" -> One(st, IF st.file = <<"absent">> THEN Exc("OSError") ELSE IF st.file = <<"garbage">> THEN Exc("ValueError") ELSE st.file)
    \* an object of a class made of values: what it is in JSON, is the one made of that equal with an equal hash, is it the same after encoding and decoding
    [] e.op = "made" -> One(st, IF Made(a[1], a[2]) THEN <<"seq", <<"dict">> \o [i \in 1..Len(Fields(a[1])) |-> <<Fields(a[1])[i], Int_(Val_(a[1], a[2], Fields(a[1])[i]))>>], Bool_(TRUE), Bool_(TRUE)>> ELSE Exc("ValueError"))
    \* are they equal; if so, the hashes have to be equal as well
    [] e.op = "equal" -> LET c == a[1][1] d == a[2][1] o == a[1][2] p == a[2][2]
                             same == c = d /\ \A i \in 1..Len(Fields(c)) : Val_(c, o, Fields(c)[i]) = Val_(d, p, Fields(d)[i])
                         IN IF c = d THEN One(st, <<"seq", Bool_(same), Bool_(same)>>)
                            \* that one has another field
                            ELSE IF "derived" \in {c, d} THEN One(st, <<"seq", Bool_(FALSE), Bool_(FALSE)>>) ELSE {}
    [] e.op = "equal_other" -> One(st, <<"seq", Bool_(FALSE), Bool_(TRUE)>>)
    [] OTHER -> {}
LInv(st) == TRUE
\* reading gives what was written last, and a failed write changes nothing
LStep(st, e, r, t) ==  /\ e.op \in {"read", "write_bad", "if_different_bad", "encode"} => t = st
                       /\ e.op = "write" => LApply(t, [op |-> "read"]) = {[s |-> t, r |-> J(e.a[1])]}
                       /\ e.op = "if_different" => r = Bool_(st # t)
LCfgs == <<[x |-> 0]>>
Leaves == <<{<<"int", 0>>, <<"int", -5>>}, {<<"str", "">>, <<"str", "x y">>}, {<<"bool", TRUE>>, <<"bool", FALSE>>}, {<<"none">>}, {<<"enum", 3>>, <<"intenum", 4>>, <<"enumseq">>}, {<<"other", "set">>, <<"other", "bytes">>, <<"other", "Bare">>}>>
Single == {"json", "jslots"}
Boxes == {"list", "tuple", "obj", "slots", "dict", "under", "keys"} \cup Single
Wrap(S) == {<<b, v>> : b \in Boxes, v \in S}
Pairs == UNION {UNION {{<<b, v, u>> : b \in Boxes \ Single, v \in Leaves[i], u \in Leaves[j]} : i \in 1..6} : j \in 1..6}
Empty == {<<b>> : b \in Boxes \ Single}
Deep(S) == Wrap(S) \cup Wrap(Wrap(S)) \cup Wrap(Wrap(Wrap(S)))
Enc(S) == {[op |-> "encode", a |-> <<v>>] : v \in S}
Few == {<<"int", 1>>, <<"int", 2>>, <<"enum", 1>>}
Obj == {[x |-> 1], [x |-> 2], [x |-> 1, y |-> 7], [x |-> 1, y |-> 1], [x |-> 2, y |-> 2], [x |-> 7, y |-> 1], [y |-> 3], [x |-> 1, z |-> 1], [x |-> 1, z |-> 2], [x |-> 1, y |-> 2, z |-> 3], [z |-> 1]}
Kinds == {"base", "derived", "same", "zero"}
Ok(c) == {<<c, o>> : o \in {p \in Obj : Made(c, p) /\ DOMAIN p \subseteq Range(Fields(c))}}
LOps(st) == << {[op |-> "write", a |-> <<v>>] : v \in Few}, {[op |-> "if_different", a |-> <<v>>] : v \in Few}, {[op |-> "write_bad", a |-> <<>>], [op |-> "if_different_bad", a |-> <<>>], [op |-> "read", a |-> <<>>]} \cup {[op |-> "spoil", a |-> <<k>>] : k \in {"half", "blank", "comma"}} >>
QInit(cfg) == LInit(cfg)
QApply(st, e) == LApply(st, e)
QInv(st) == TRUE
\* encoding what came out changes nothing
QStep(st, e, r, t) == (e.op = "encode" /\ Head(r) \in {"int", "str", "bool", "none"}) => J(r) = r
QCfgs == LCfgs
QOps(st) == << Enc(Leaves[1]), Enc(Leaves[2]), Enc(Leaves[3]), Enc(Leaves[4]), Enc(Leaves[5]), Enc(Leaves[6]), Enc(Pairs), Enc(Empty), Enc(Deep(Empty)), Enc(Deep(Leaves[1])), Enc(Deep(Leaves[4])), Enc(Deep(Leaves[5])), Enc(Deep(Leaves[6])),
                 {[op |-> "made", a |-> <<c, o>>] : c \in Kinds, o \in {p \in Obj : DOMAIN p \subseteq {"x", "y"}}}, {[op |-> "made", a |-> <<"derived", o>>] : o \in Obj},
                 UNION {{[op |-> "equal", a |-> <<o, p>>] : o \in Ok(c), p \in Ok(c)} : c \in Kinds}, {[op |-> "equal", a |-> <<o, p>>] : o \in Ok("base"), p \in Ok("derived")},
                 {[op |-> "equal_other", a |-> <<c, o>>] : c \in Kinds, o \in {"int", "none", "str", "blank"}} >>
===========================================================================
