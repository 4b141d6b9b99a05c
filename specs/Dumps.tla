--------------------------------- MODULE Dumps --------------------------------
(* DumpToFileHandler: each sink gets the whole of the exception (true), a sink that is None nothing                                      *)
EXTENDS Val
DInit(cfg) == [x |-> 0]
Got(s) == IF s = "none" THEN None ELSE Bool_(TRUE)
Ok(a) == "bad" \notin Range(a[2]) \cup Range(a[3])
DApply(st, e) == IF e.op # "dump" THEN {} ELSE IF ~Ok(e.a) THEN One(st, Exc("TypeError")) ELSE LET q == e.a[2] \o e.a[3] IN One(st, <<"seq">> \o [i \in DOMAIN q |-> Got(q[i])])
DInv(st) == TRUE
DStep(st, e, r, t) == TRUE
DCfgs == <<[x |-> 0]>>
Human == {"file", "dir", "stream", "flush", "none", "logger", "level", "severe", "bad"}
Pick == {"file", "dir", "stream", "flush", "none", "bad"}
DOps(st) == << {[op |-> "dump", a |-> <<w, <<x>>, <<>>>>] : w \in {"inside", "outside"}, x \in Human}, {[op |-> "dump", a |-> <<w, <<x, y>>, <<z>>>>] : w \in {"inside", "outside"}, x \in Human, y \in Human, z \in Pick} >>
===============================================================================
