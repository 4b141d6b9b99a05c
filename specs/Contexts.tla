----------------------------- MODULE Contexts -----------------------------
(* coding.environment.Context: layers of variables, a stack of them in each thread                        *)
EXTENDS Val
CCfgs == <<[x |-> 0]>>
Threads == 1..2
Gone == -1
(* a layer maps names to numbers, Gone being what was deleted in it *)
CInit(cfg) == [st |-> [t \in Threads |-> <<>>]]
Ks == {"a", "b"}
Empty == <<>>
Top(q) == q[Len(q)]
RECURSIVE Look(_, _)
Look(q, k) == IF q = <<>> THEN Gone ELSE IF k \in DOMAIN Top(q) THEN Top(q)[k] ELSE Look(SubSeq(q, 1, Len(q) - 1), k)
With(q) == IF q = <<>> THEN <<<<>>>> ELSE q          (* the context of a thread comes to be when it is looked at *)
NoVars == [k \in {} |-> 0]
Base(q) == IF q = <<>> THEN <<NoVars>> ELSE q
COps(st) == <<{[op |-> "enter", a |-> <<t, how>>] : t \in {x \in Threads : Len(st.st[x]) < 3}, how \in {"new", "vars"}} \cup {[op |-> "enter", a |-> <<t, "current">>] : t \in {x \in Threads : Len(st.st[x]) \in 1..2}},
              {[op |-> "exit", a |-> <<t, how>>] : t \in {x \in Threads : Len(st.st[x]) > 0}, how \in {"normal", "raising"}} \cup {[op |-> "get", a |-> <<t>>] : t \in Threads},
              {[op |-> "set", a |-> <<t, k, v>>] : t \in Threads, k \in Ks, v \in {7}} \cup {[op |-> "del", a |-> <<t, k>>] : t \in Threads, k \in Ks},
              {[op |-> "push_up", a |-> <<t, k>>] : t \in {x \in Threads : Len(st.st[x]) > 1}, k \in {y \in Ks : Look(st.st[1], y) # Gone /\ Look(st.st[2], y) # Gone}}
                 \cup {[op |-> "push_value", a |-> <<t, k, 9>>] : t \in {x \in Threads : Len(st.st[x]) > 1}, k \in {"a"}},
              {[op |-> "view", a |-> <<t>>] : t \in Threads}>>
CApply(st, e) ==
    LET t == e.a[1] q == st.st[t] b == Base(q) n == Len(b)
        to(q2) == [st EXCEPT !.st[t] = q2]
        put(q2, i, k, v) == [q2 EXCEPT ![i] = FnSet(q2[i], k, v)] IN
    CASE e.op = "enter" -> One(to(Append(q, IF e.a[2] = "vars" THEN FnSet(NoVars, "b", 4) ELSE NoVars)), None)
      [] e.op = "exit" -> IF q = <<>> THEN {} ELSE One(to(SubSeq(q, 1, Len(q) - 1)), IF e.a[2] = "raising" THEN Exc("ValueError") ELSE None)
      [] e.op = "get" -> One(to(b), None)
      [] e.op = "set" -> One(to(put(b, n, e.a[2], e.a[3])), None)
      [] e.op = "del" -> One(to(put(b, n, e.a[2], Gone)), None)
      [] e.op = "push_up" -> IF n < 2 \/ Look(b, e.a[2]) = Gone THEN {}
                             ELSE One(to([put(b, n - 1, e.a[2], Look(b, e.a[2])) EXCEPT ![n] = FnDel(b[n], e.a[2])]), None)
      [] e.op = "push_value" -> IF n < 2 THEN {} ELSE One(to(put(b, n - 1, e.a[2], e.a[3])), None)
      (* what there is in every layer of this thread, from the innermost one, as seen from it; and that the innermost one is the current one *)
      [] e.op = "view" -> One(to(b), Seq_(<<Bool_(TRUE)>> \o [i \in 1..n |-> LET p == SubSeq(b, 1, n - i + 1) IN
                                          Seq_(<<IF Look(p, "a") = Gone THEN Exc("AttributeError") ELSE Int_(Look(p, "a")), IF Look(p, "b") = Gone THEN Exc("AttributeError") ELSE Int_(Look(p, "b")),
                                                 Bool_(Look(p, "a") # Gone), Bool_(Look(p, "b") # Gone)>>)]))
CInv(st) == TRUE
(* one thread never changes what another sees; a layer that is left leaves everything under it as it was *)
CStep(st, e, r, t) ==
    /\ \A x \in Threads : x # e.a[1] => t.st[x] = st.st[x]
    /\ e.op = "exit" => t.st[e.a[1]] = SubSeq(st.st[e.a[1]], 1, Len(t.st[e.a[1]]))
    /\ e.op \in {"set", "del"} => LET q == st.st[e.a[1]] IN q # <<>> => SubSeq(t.st[e.a[1]], 1, Len(q) - 1) = SubSeq(q, 1, Len(q) - 1)
=============================================================================
