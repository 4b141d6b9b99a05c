------------------------------ MODULE Parser ------------------------------
(* BinaryParser: windows over a stream of bytes, each with its pointer                                     *)
EXTENDS Val
BCfgs == <<[kind |-> "bytes", stream |-> <<1, 2, 3, 200, 5, 0>>], [kind |-> "bytearray", stream |-> <<7, 255, 128>>], [kind |-> "memoryview", stream |-> <<9, 8, 7, 6>>], [kind |-> "bytes", stream |-> <<>>]>>
(* ps: windows made so far; a window is [from, len, at], counted in bytes from the start of the stream     *)
BInit(cfg) == [stream |-> cfg.stream, ps |-> <<>>]
Fmts == {"B", "b", ">H", "<H", "=B", "!h", "@b", ">I", "2s"}
Multi == {"BB", ">HB", "<bH", "=BH", "2sB", "B", "", ">I"}
BOps(st) == LET n == Len(st.ps) IN
    <<IF n < 1 THEN {[op |-> "new", a |-> <<o, l>>] : o \in 0..(Len(st.stream) + 1), l \in {-1, 0, 1, 3, 6}} ELSE {},
      IF n \in 1..2 THEN {[op |-> "sub", a |-> <<p, l>>] : p \in 1..n, l \in {0, 1, 2, 4}} ELSE {},
      {[op |-> o, a |-> <<p, l>>] : o \in {"get", "skip", "has"}, p \in 1..n, l \in {0, 1, 2, 5}} \cup {[op |-> o, a |-> <<p, l>>] : o \in {"skip", "has"}, p \in 1..n, l \in {-1, -2}} \cup {[op |-> o, a |-> <<p>>] : o \in {"reset", "look"}, p \in 1..n}
        \cup {[op |-> "struct", a |-> <<p, f, c>>] : p \in 1..n, f \in Fmts, c \in BOOLEAN}
        \cup {[op |-> "structs", a |-> <<p, f, c>>] : p \in 1..n, f \in Multi, c \in {FALSE}}
        \cup {[op |-> "seek", a |-> <<p, k>>] : p \in 1..n, k \in 0..1}>>
Left(p) == p.from + p.len - p.at
Cut(st, from, n) == SubSeq(st.stream, from + 1, from + n)
Bytes(q) == <<"bytes">> \o [k \in 1..Len(q) |-> Int_(q[k])]
Short == Exc("NotEnoughBytes")
Signed(x, top) == IF x >= top \div 2 THEN x - top ELSE x
(* fields: <<kind, size>>, and whether big-endian *)
Fields(f) == CASE f \in {"B", "=B"} -> <<"B">> [] f \in {"b", "@b"} -> <<"b">> [] f = ">H" -> <<"H">> [] f = "<H" -> <<"H">> [] f = "!h" -> <<"h">> [] f = ">I" -> <<"I">> [] f = "2s" -> <<"s">>
               [] f = "BB" -> <<"B", "B">> [] f = ">HB" -> <<"H", "B">> [] f = "<bH" -> <<"b", "H">> [] f = "=BH" -> <<"B", "H">> [] f = "2sB" -> <<"s", "B">> [] f = "" -> <<>>
Big(f) == f \in {">H", "!h", ">I", ">HB"}
Size(k) == CASE k \in {"B", "b"} -> 1 [] k \in {"H", "h", "s"} -> 2 [] k = "I" -> 4
SizeOf(f) == LET q == Fields(f) IN SumSeq([k \in 1..Len(q) |-> Size(q[k])])
Val1(k, b, big) == CASE k = "B" -> Int_(b[1]) [] k = "b" -> Int_(Signed(b[1], 256)) [] k = "s" -> Bytes(b)
                     [] k = "H" -> Int_(IF big THEN b[1] * 256 + b[2] ELSE b[2] * 256 + b[1])
                     [] k = "h" -> Int_(Signed(IF big THEN b[1] * 256 + b[2] ELSE b[2] * 256 + b[1], 65536))
                     [] k = "I" -> Int_(((b[1] * 256 + b[2]) * 256 + b[3]) * 256 + b[4])
Unpacked(st, f, at) == LET q == Fields(f) IN
    [k \in 1..Len(q) |-> Val1(q[k], Cut(st, at + SumSeq([j \in 1..(k - 1) |-> Size(q[j])]), Size(q[k])), Big(f))]
BApply(st, e) ==
    IF e.op = "new" THEN
        LET o == e.a[1] l == e.a[2] rest == Len(st.stream) - o IN
        IF rest < 0 THEN One(st, Short)
        ELSE One([st EXCEPT !.ps = Append(@, [from |-> o, at |-> o, len |-> IF l < 0 THEN rest ELSE Min2(l, rest)])], None)
    ELSE
    LET p == st.ps[e.a[1]] i == e.a[1]
        adv(n) == [st EXCEPT !.ps[i].at = @ + n] IN
    CASE e.op = "sub" -> IF e.a[2] > Left(p) THEN One(st, Short)
                         ELSE One([st EXCEPT !.ps = Append([@ EXCEPT ![i].at = p.at + e.a[2]], [from |-> p.at, at |-> p.at, len |-> e.a[2]])], None)
      [] e.op = "get" -> IF e.a[2] > Left(p) THEN One(st, Short) ELSE One(adv(e.a[2]), Bytes(Cut(st, p.at, e.a[2])))
      \* it can go back, but not to what is before the window
      [] e.op = "skip" -> IF e.a[2] > Left(p) \/ p.at + e.a[2] < p.from THEN One(st, Short) ELSE One(adv(e.a[2]), None)
      [] e.op = "has" -> IF e.a[2] > Left(p) \/ p.at + e.a[2] < p.from THEN One(st, Short) ELSE One(st, None)
      [] e.op = "reset" -> One([st EXCEPT !.ps[i].at = p.from], None)
      [] e.op = "seek" -> One(IF e.a[2] > p.len THEN st ELSE [st EXCEPT !.ps[i].at = p.from + e.a[2]], None)
      [] e.op = "struct" -> IF Len(Fields(e.a[2])) # 1 \/ e.a[2] = "2s" THEN One(st, Exc("AssertionError"))
                            ELSE IF SizeOf(e.a[2]) > Left(p) THEN One(st, Short) ELSE One(adv(SizeOf(e.a[2])), Unpacked(st, e.a[2], p.at)[1])
      [] e.op = "structs" -> IF SizeOf(e.a[2]) > Left(p) THEN One(st, Short) ELSE One(adv(SizeOf(e.a[2])), Seq_(Unpacked(st, e.a[2], p.at)))
      [] e.op = "look" -> One(st, Seq_(<<Int_(p.len), Int_(p.at), Int_(Left(p)), Bytes(Cut(st, p.at, Left(p))), Bytes(Cut(st, p.from, p.len))>>))
BInv(st) == \A k \in 1..Len(st.ps) : LET p == st.ps[k] IN p.from <= p.at /\ p.at <= p.from + p.len /\ p.from + p.len <= Len(st.stream)
(* no window sees the pointer of another move, and one that had not enough does not move *)
BStep(st, e, r, t) ==
    /\ \A k \in 1..Len(st.ps) : st.ps[k].from = t.ps[k].from /\ st.ps[k].len = t.ps[k].len /\ (e.op # "new" /\ k # e.a[1] => st.ps[k] = t.ps[k])
    /\ r[1] = "exc" => t = st
    /\ e.op = "sub" /\ Len(t.ps) > Len(st.ps) => LET w == t.ps[Len(t.ps)] p == t.ps[e.a[1]] IN w.from >= p.from /\ w.from + w.len = p.at
=============================================================================
