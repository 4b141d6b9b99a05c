------------------------------ MODULE Os ------------------------------
(* Running processes, waiting for signals, becoming a daemon, finding executables, suicide.                                                                             *)
EXTENDS Val
\* ---- call_and_return_stdout. The script of the process: "w" writes that many units (the pipe holds less than 3 of them), "s" takes that much time, "c" closes its output, "x" exits with that code
RECURSIVE Total(_, _)
Total(p, k) == IF p = <<>> THEN 0 ELSE (IF Head(p)[1] = k THEN Head(p)[2] ELSE 0) + Total(Tail(p), k)
Written(p) == Total(p, "w")
Time(p) == Total(p, "s")
Code(p) == p[Len(p)][2]
Ended(p, encoded, expected, t) ==
  LET out == <<"seq", Str_(IF encoded THEN "str" ELSE "bytes"), Int_(Written(p))>>
  IN IF expected # -1 /\ expected # Code(p) THEN <<"seq", Str_("failed"), Int_(Code(p)), out, Int_(t)>> ELSE <<"seq", Str_("ok"), Int_(0), out, Int_(t)>>
Late(t, k) == <<"seq", Str_("timeout"), Int_(k), None, Int_(t)>>     \* k: was it killed; if it ended just then it might have been not
Run(a) == LET p == a[1] timeout == a[2] t == Time(p)
          IN (IF timeout = -1 \/ t <= timeout THEN {Ended(p, a[3], a[4], t)} ELSE {}) \cup (IF timeout # -1 /\ timeout <= t THEN {Late(timeout, 1)} ELSE {}) \cup (IF timeout = t THEN {Late(timeout, 0)} ELSE {})
UInit(cfg) == [x |-> 0]
UApply(st, e) == IF e.op = "run" THEN {[s |-> st, r |-> x] : x \in Run(e.a)} ELSE {}
UInv(st) == TRUE
UStep(st, e, r, t) == TRUE
UCfgs == <<[x |-> 0]>>
Ends == {<<<<"x", 0>>>>, <<<<"x", 3>>>>}
Mid == {<<>>, <<<<"w", 1>>>>, <<<<"w", 2>>, <<"w", 3>>>>, <<<<"w", 7>>>>, <<<<"s", 2>>>>, <<<<"w", 7>>, <<"s", 2>>>>, <<<<"s", 1>>, <<"w", 5>>, <<"s", 1>>, <<"w", 3>>>>, <<<<"w", 4>>, <<"c", 0>>, <<"s", 2>>>>, <<<<"c", 0>>>>}
UOps(st) == << {[op |-> "run", a |-> <<m \o x, timeout, encoded, expected>>] : m \in Mid, x \in Ends, timeout \in {-1, 0, 1, 3}, encoded \in BOOLEAN, expected \in {-1, 0, 3}} >>
\* ---- hang_until_sig. State: the handlers installed, the signals that these handled so far. sig: the signals that come, with their times
VInit(cfg) == [got |-> <<>>]
Releases(extra, x) == x \in {"TERM", "INT"} \cup Range(extra)
RECURSIVE FirstRelease(_, _)
FirstRelease(extra, sig) == IF sig = <<>> THEN 0 ELSE IF Releases(extra, Head(sig)[2]) THEN Head(sig)[1] ELSE FirstRelease(extra, Tail(sig))
RECURSIVE Others(_, _, _)
Others(extra, sig, till) == IF sig = <<>> THEN <<>> ELSE (IF Head(sig)[1] <= till /\ ~Releases(extra, Head(sig)[2]) THEN <<Head(sig)[2]>> ELSE <<>>) \o Others(extra, Tail(sig), till)
VApply(st, e) ==
  LET a == e.a IN
  CASE e.op = "hang" -> \* a: extra signals, interval, the signals (time, which), the last one of which releases. Answer: for how long did it hang
         LET t == FirstRelease(a[1], a[3]) IN {[s |-> [st EXCEPT !.got = @ \o Others(a[1], a[3], r)], r |-> <<"seq", Int_(r), Str_("ok")>>] : r \in t..(t + a[2])}
    [] e.op = "wrong" -> One(st, Exc("OSError"))        \* one of the signals cannot be handled
    [] e.op = "table" -> One(st, StrSeq(<<"TERM", "INT", "USR1", "USR2">>))     \* whose handlers are installed
    [] e.op = "signal" -> One([st EXCEPT !.got = Append(@, a[1])], None)       \* comes while nobody waits for it
    [] e.op = "got" -> One(st, StrSeq(st.got))
    [] OTHER -> {}
VInv(st) == TRUE
VStep(st, e, r, t) == SubSeq(t.got, 1, Len(st.got)) = st.got
VCfgs == <<[x |-> 0]>>
Coming == {<<<<1, "TERM">>>>, <<<<0, "INT">>>>, <<<<3, "USR1">>, <<4, "TERM">>>>, <<<<1, "USR2">>, <<1, "USR1">>, <<3, "INT">>>>, <<<<5, "TERM">>, <<5, "TERM">>>>}
VOps(st) == << {[op |-> "hang", a |-> <<x, i, c>>] : x \in {<<>>, <<"USR1">>, <<"USR2", "USR1">>, <<"TERM">>, <<"USR1", "USR1">>, <<"INT", "USR2">>}, i \in {1, 2}, c \in Coming}, {[op |-> "wrong", a |-> <<x>>] : x \in {<<"KILL">>, <<"USR1", "KILL">>}},
               {[op |-> "signal", a |-> <<x>>] : x \in {"TERM", "USR1"}}, {[op |-> "table", a |-> <<>>], [op |-> "got", a |-> <<>>]} >>
\* ---- daemonize: what each of the processes did, by its role; the privileges it had are lost once the user is changed
Uid(x) == CASE x = "none" -> -1 [] x = "0" -> 0 [] x = "7" -> 7 [] x = "joe" -> 8 [] OTHER -> 99
Gid(x) == CASE x = "none" -> -1 [] x = "0" -> 0 [] x = "7" -> 7 [] x = "staff" -> 9 [] OTHER -> 99
Daemonize(role, redirect, uid, gid) ==
  CASE role = "parent" -> <<"seq", Str_("exited"), Int_(1), Str_("not a leader")>>
    [] role = "middle" -> <<"seq", Str_("exited"), Int_(2), Str_("leader")>>
    [] OTHER -> IF uid = "missing" \/ gid = "missing" THEN Exc("KeyError")
                ELSE <<"seq", Str_("daemon"), Int_(2), Str_("child of a leader"), Int_(0), Str_("/"), Bool_(TRUE), Bool_(redirect), Int_(Uid(uid)), Int_(Gid(gid))>>
Kind == {"file", "exec", "exec644", "directory", "link", "link644", "broken", "loop", "absent"}
Executable(k) == k \in {"exec", "link"}
RECURSIVE Where(_, _)
Where(q, n) == IF q = <<>> THEN <<>> ELSE (IF Executable(Head(q)) THEN <<n>> ELSE <<>>) \o Where(Tail(q), n + 1)
DInit(cfg) == [x |-> 0]
DApply(st, e) ==
  LET a == e.a IN
  CASE e.op = "daemonize" -> One(st, Daemonize(a[1], a[2], a[3], a[4]))
    [] e.op = "whereis" -> One(st, IntSeq(Where(a[1], 1)))      \* in each of the directories of PATH; relative or not
    [] e.op = "suicide" -> One(st, IF a[1] /\ a[2] THEN StrSeq(<<"killpg">>) ELSE StrSeq(<<"kill">>))
    [] e.op = "root" -> One(st, Bool_(a[1] = 0))
    [] e.op = "listdir" -> One(st, IF a[1] = "directory" THEN StrSeq(<<"a", "b">>) ELSE StrSeq(<<>>))
    [] OTHER -> {}
DInv(st) == TRUE
DStep(st, e, r, t) == TRUE
DCfgs == <<[x |-> 0]>>
DOps(st) == << {[op |-> "daemonize", a |-> <<r, d, u, g>>] : r \in {"parent", "middle", "daemon"}, d \in BOOLEAN, u \in {"none", "0", "7", "joe", "missing"}, g \in {"none", "0", "7", "staff", "missing"}},
               {[op |-> "whereis", a |-> <<<<x, y, z>>, rel>>] : x \in Kind, y \in Kind, z \in {"exec", "absent", "directory"}, rel \in BOOLEAN},
               {[op |-> "suicide", a |-> <<g, l>>] : g \in BOOLEAN, l \in BOOLEAN}, {[op |-> "root", a |-> <<n>>] : n \in {0, 1, 7}}, {[op |-> "listdir", a |-> <<d>>] : d \in {"directory", "file", "absent"}} >>
=======================================================================
