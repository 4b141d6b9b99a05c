------------------------------ MODULE Autoflush ------------------------------
(* AutoflushFile: a file that is open only during the calls made.  disk: what is in the file (letters are numbers), or <<-1>> if the file is not there; pos: the position that the next read starts at.     *)
(* Everything is appended, as the mode of the file is in effect "a"; each answer comes with what another process finds in the file at that point.                                                          *)
EXTENDS Val
HInit(cfg) == [mode |-> cfg.mode, disk |-> IF cfg.mode \in {"w", "w+", "wb", "wb+"} THEN <<>> ELSE cfg.init, pos |-> IF cfg.mode \in {"w", "w+", "wb", "wb+"} THEN 0 ELSE Len(cfg.init), closed |-> FALSE]
Reads(st) == st.mode \in {"w+", "a+", "wb+", "ab+"}
Binary(st) == st.mode \in {"wb", "wb+", "ab", "ab+"}
Gone(st) == st.disk = <<-1>>
Here(st) == IF Gone(st) THEN <<>> ELSE st.disk
Ans(st, r) == {[s |-> st, r |-> <<"seq", r, IF Gone(st) THEN None ELSE IntSeq(st.disk)>>]}
HApply(st, e) ==
  LET a == e.a
      o == [st EXCEPT !.disk = Here(st)]   \* what it is when open: if it was deleted, then it is created again
  IN
  CASE e.op = "ext_append" -> Ans([st EXCEPT !.disk = Here(st) \o a], None)
    [] e.op = "ext_delete" -> Ans([st EXCEPT !.disk = <<-1>>], None)
    [] e.op = "ext_read" -> Ans(st, None)
    [] e.op = "close" -> IF st.closed THEN Ans(st, Exc("ValueError")) ELSE Ans([st EXCEPT !.closed = TRUE], None)
    [] e.op = "closed" -> Ans(st, Bool_(st.closed))
    [] st.closed -> Ans(st, Exc("ValueError"))
    [] e.op = "write" -> Ans([o EXCEPT !.disk = @ \o a, !.pos = IF a = <<>> THEN st.pos ELSE Len(Here(st)) + Len(a)], Int_(Len(a)))
    [] e.op = "write_wrong" -> Ans(o, Exc("TypeError"))
    [] e.op \in {"read", "readall"} ->
         IF ~Reads(st) THEN Ans(o, Exc("UnsupportedOperation"))
         ELSE LET n == IF e.op = "readall" \/ a[1] = -1 THEN Len(o.disk) ELSE a[1]
                  to == Min2(st.pos + n, Len(o.disk))
              IN IF st.pos >= Len(o.disk) THEN Ans(o, IntSeq(<<>>)) ELSE Ans([o EXCEPT !.pos = to], IntSeq(SubSeq(o.disk, st.pos + 1, to)))
    [] e.op = "seek" -> LET p == IF a[2] = 0 THEN a[1] ELSE IF a[2] = 1 THEN st.pos + a[1] ELSE Len(o.disk) + a[1]
                        IN IF p < 0 THEN Ans(o, Exc(IF Binary(st) THEN "OSError" ELSE "ValueError")) ELSE Ans([o EXCEPT !.pos = p], Int_(p))
    [] e.op = "truncate" -> LET n == IF a[1] = -1 THEN st.pos ELSE a[1]
                            IN Ans([o EXCEPT !.disk = [i \in 1..n |-> IF i <= Len(@) THEN @[i] ELSE 0]], Int_(n))
    [] OTHER -> {}
HInv(st) == st.pos >= 0
\* nothing that was written by anyone is ever lost, except to truncate and deletion; and a reader sees what was appended
HStep(st, e, r, t) == /\ e.op \notin {"truncate", "ext_delete"} => (Len(Here(t)) >= Len(Here(st)) /\ SubSeq(Here(t), 1, Len(Here(st))) = Here(st))
                      /\ st.closed => (t.closed /\ t.pos = st.pos)
HCfgs == <<[mode |-> "a+", init |-> <<1, 2>>], [mode |-> "wb+", init |-> <<1, 2>>], [mode |-> "w", init |-> <<1>>], [mode |-> "a", init |-> <<1, 2>>], [mode |-> "w+", init |-> <<1>>], [mode |-> "ab+", init |-> <<>>], [mode |-> "ab", init |-> <<1>>], [mode |-> "wb", init |-> <<1>>],
           [mode |-> "a+", init |-> <<>>]>>
HOps(st) == << {[op |-> "write", a |-> q] : q \in {<<1>>, <<2, 1>>}}, {[op |-> "write_wrong", a |-> <<>>]}, {[op |-> "read", a |-> <<n>>] : n \in {-1, 1}}, {[op |-> "readall", a |-> <<>>]},
               {[op |-> "seek", a |-> <<0, 0>>], [op |-> "seek", a |-> <<1, 0>>], [op |-> "seek", a |-> <<0, 2>>]}, IF Binary(st) THEN {[op |-> "seek", a |-> <<-1, 2>>], [op |-> "seek", a |-> <<1, 1>>]} ELSE {},
               {[op |-> "truncate", a |-> <<n>>] : n \in {-1, 0, 1}},
               {[op |-> "ext_append", a |-> <<2>>]}, {[op |-> "ext_delete", a |-> <<>>]}, {[op |-> "close", a |-> <<>>], [op |-> "closed", a |-> <<>>]} >>
==============================================================================
