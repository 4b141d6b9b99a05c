------------------------------ MODULE Files ------------------------------
(* Files and directories.                                                                                                                                                                                   *)
(* 1. finding files: a tree is a set of paths of files, a path being a sequence of names.  A wildcard: "all", "txt" (.*\.txt$), "a" (starts with a), "d" (starts with d/), "root" (starts with root/).       *)
(* 2. names: a name that does not collide; splitting a path                                                                                                                                                 *)
(* 3. a directory with the files f, g, a directory d with a file h; a file has a text of letters (numbers), lines being split by 0, 9 is a letter repeated 5000 times                                                                          *)
(* 4. the file-like object that ignores everything                                                                                                                                                          *)
EXTENDS Val
FirstA == {"a", "a.txt"}
Txt == {"a.txt", "b.txt", "dtxt.txt"}
Matches(w, p) == CASE w = "all" -> TRUE
                   [] w = "txt" -> p[Len(p)] \in Txt
                   [] w = "a" -> p[1] \in FirstA
                   [] w = "d" -> p[1] = "d" /\ Len(p) > 1
                   [] w = "root" -> p[1] = "root" /\ Len(p) > 1
RECURSIVE Join(_)
Join(p) == IF Len(p) = 1 THEN p[1] ELSE p[1] \o "/" \o Join(Tail(p))
\* o: [wild, prefix (empty text: none), subdirs, entire, with_path]
Result(o, p) == (IF o.prefix = "" THEN <<>> ELSE <<o.prefix>>) \o (IF o.with_path THEN <<"root">> ELSE <<>>) \o p
Found(o, T) == {Result(o, p) : p \in {q \in T : (o.subdirs \/ Len(q) = 1) /\ Matches(o.wild, IF o.entire THEN Result(o, q) ELSE <<q[Len(q)]>>)}}
GInit(cfg) == [x |-> 0]
RECURSIVE Least(_, _)
Least(S, n) == IF n \in S THEN Least(S, n + 1) ELSE n
GApply(st, e) ==
  LET a == e.a IN
  CASE e.op = "find" -> LET q == SelectSeq(a[2], LAMBDA p : Result(a[1], p) \in Found(a[1], Range(a[2]))) IN One(st, StrSeq([i \in 1..Len(q) |-> Join(Result(a[1], q[i]))]))
    \* with the names of these numbers taken (0: the name itself)
    [] e.op = "noncolliding" -> One(st, Int_(Least({a[2][i] : i \in 1..Len(a[2])}, 0)))
    [] e.op = "split" -> One(st, StrSeq(a))
    [] OTHER -> {}
GInv(st) == TRUE
\* what is found without the subdirectories is found with these, too
GStep(st, e, r, t) == e.op = "find" => Found([e.a[1] EXCEPT !.subdirs = FALSE], Range(e.a[2])) \subseteq Found([e.a[1] EXCEPT !.subdirs = TRUE], Range(e.a[2]))
GCfgs == <<[x |-> 0]>>
Trees == {<<>>, <<<<"a">>, <<"a.txt">>, <<"b.txt">>, <<"c">>>>, <<<<"a.txt">>, <<"d", "a.txt">>, <<"d", "c">>>>, <<<<"b.txt">>, <<"d", "d", "b.txt">>, <<"d", "d", "a">>, <<"e", "c">>>>, <<<<"d", "b.txt">>, <<"dtxt.txt", "c">>, <<"a", "b.txt">>, <<"e", "d", "a", "a">>>>,
          <<<<"d", "d", "d", "a.txt">>, <<"d", "a">>, <<"c">>>>}
Opts == {[wild |-> w, prefix |-> p, subdirs |-> s, entire |-> n, with_path |-> h] : w \in {"all", "txt", "a", "d", "root"}, p \in {"", "a", "d"}, s \in BOOLEAN, n \in BOOLEAN, h \in BOOLEAN}
Names == {"a", "b.c", ".."}
Rel == {<<x>> : x \in Names} \cup {<<x, y>> : x \in Names, y \in Names} \cup {<<x, y, z>> : x \in Names, y \in Names, z \in Names}
GOps(st) == << {[op |-> "find", a |-> <<o, t>>] : o \in Opts, t \in Trees}, {[op |-> "noncolliding", a |-> <<n, q>>] : n \in {"n.txt", "n", "x/n.tar.gz", "/x/n", "x.y/n"}, q \in {<<>>, <<0>>, <<0, 1>>, <<1>>, <<0, 2>>, <<0, 1, 2, 3>>, <<0, 1, 3>>}},
               {[op |-> "split", a |-> q] : q \in Rel}, {[op |-> "split", a |-> <<"/">> \o q] : q \in Rel}, {[op |-> "split", a |-> q \o <<"">>] : q \in {p \in Rel : Len(p) < 3}}, {[op |-> "split", a |-> <<"/">> \o q \o <<"">>] : q \in {p \in Rel : Len(p) < 3}} >>

\* ----------------------------------------------------------- 3. the directory
BInit(cfg) == [f |-> [n \in {} |-> <<>>], d |-> FALSE, cwd |-> <<>>]
Has(st, n) == n \in DOMAIN st.f
IsDir(st, n) == n = "d" /\ st.d
Put(st, n, v) == [st EXCEPT !.f = FnSet(@, n, v)]
RECURSIVE Lines(_, _)
Lines(q, cur) == IF q = <<>> THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>) ELSE IF Head(q) = 0 THEN <<cur>> \o Lines(Tail(q), <<>>) ELSE Lines(Tail(q), Append(cur, Head(q)))
Blank(q) == q = <<>>
RECURSIVE SubOnes(_, _)
SubOnes(q, to) == IF q = <<>> THEN <<>> ELSE (IF Head(q) = 1 THEN to ELSE <<Head(q)>>) \o SubOnes(Tail(q), to)
NotHere == Exc("FileNotFoundError")
BApply(st, e) ==
  LET a == e.a n == IF Len(a) > 0 THEN a[1] ELSE 0 IN
  CASE e.op = "write" -> IF IsDir(st, n) THEN One(st, Exc("IsADirectoryError")) ELSE IF n = "d/h" /\ ~st.d THEN One(st, IF Has(st, "d") THEN Exc("NotADirectoryError") ELSE NotHere) ELSE One(Put(st, n, a[2]), None)
    [] e.op = "if_different" -> IF IsDir(st, n) THEN One(st, Exc("IsADirectoryError")) ELSE IF n = "d/h" /\ ~st.d THEN One(st, IF Has(st, "d") THEN Exc("NotADirectoryError") ELSE NotHere)
                                ELSE LET diff == ~Has(st, n) \/ (Has(st, n) /\ st.f[n] # a[2]) IN One(IF diff THEN Put(st, n, a[2]) ELSE st, Bool_(diff))
    \* "raise": without a default
    [] e.op = "read" -> IF Has(st, n) THEN One(st, IntSeq(st.f[n])) ELSE One(st, IF a[2] = "raise" THEN NotHere ELSE IF a[2] = "none" THEN None ELSE Str_(a[2]))
    [] e.op = "lines" -> IF ~Has(st, n) THEN One(st, IF IsDir(st, n) THEN Exc("IsADirectoryError") ELSE NotHere)
                         ELSE LET ls == Lines(st.f[n], <<>>) kept == IF a[2] THEN SelectSeq(ls, LAMBDA x : ~Blank(x)) ELSE ls IN One(st, <<"seq">> \o [i \in 1..Len(kept) |-> IntSeq(kept[i])])
    \* letter 1 by a[2]
    [] e.op = "sub" -> IF Has(st, n) THEN One(Put(st, n, SubOnes(st.f[n], a[2])), None) ELSE One(st, IF IsDir(st, n) THEN Exc("IsADirectoryError") ELSE NotHere)
    \* the same, but only at the beginning of the text
    [] e.op = "sub_first" -> IF ~Has(st, n) THEN One(st, IF IsDir(st, n) THEN Exc("IsADirectoryError") ELSE NotHere) ELSE IF st.f[n] # <<>> /\ st.f[n][1] = 1 THEN One(Put(st, n, a[2] \o Tail(st.f[n])), None) ELSE One(st, None)
    [] e.op = "unlink" -> IF IsDir(st, n) THEN One([st EXCEPT !.d = FALSE, !.f = FnDel(@, "d/h")], Bool_(TRUE)) ELSE IF Has(st, n) THEN One([st EXCEPT !.f = FnDel(@, n)], Bool_(TRUE)) ELSE One(st, Bool_(FALSE))
    \* jumps to d, unless there is a file in its way: the directory is created; leaves in the reverse order; also when an exception, of any kind, is raised in there; one object can be used many times
    [] e.op = "jump" -> IF Has(st, "d") THEN One(st, Exc("FileExistsError")) ELSE One([st EXCEPT !.d = TRUE], <<"seq", Bool_(TRUE), Bool_(TRUE), Bool_(TRUE)>>)
    [] e.op = "all" -> One(st, <<"seq", <<"seq">> \o [i \in 1..4 |-> LET m == <<"f", "g", "d", "d/h">>[i] IN IF Has(st, m) THEN IntSeq(st.f[m]) ELSE None], Bool_(st.d)>>)
    [] OTHER -> {}
BInv(st) == ~(st.d /\ Has(st, "d")) /\ (Has(st, "d/h") => st.d)
BStep(st, e, r, t) == e.op \in {"read", "lines", "all"} => t = st
BCfgs == <<[enc |-> "none"], [enc |-> "utf-8"], [enc |-> "utf-16"]>>
BN == {"f", "d", "d/h"}
BOps(st) == << {[op |-> "write", a |-> <<n, v>>] : n \in BN, v \in {<<1, 0, 1, 2>>, <<>>, <<0, 1, 0, 0>>, <<9, 2>>}}, {[op |-> "if_different", a |-> <<n, v>>] : n \in {"f", "d", "d/h"}, v \in {<<1, 0, 1, 2>>, <<9, 3>>}}, {[op |-> "read", a |-> <<n, x>>] : n \in {"f", "d"}, x \in {"raise", "none", "dflt"}},
               {[op |-> "lines", a |-> <<"f", b>>] : b \in BOOLEAN}, {[op |-> o, a |-> <<"f", v>>] : o \in {"sub", "sub_first"}, v \in {<<3, 3>>}}, {[op |-> "unlink", a |-> <<n>>] : n \in BN}, {[op |-> "jump", a |-> <<k>>] : k \in {"plain", "raises", "interrupted", "again", "nested"}} >>

\* ----------------------------------------------------------- 4. /dev/null
NInit(cfg) == [bin |-> cfg.bin, closed |-> FALSE]
NApply(st, e) ==
  LET a == e.a IN
  CASE e.op = "close" -> One([st EXCEPT !.closed = TRUE], None)
    [] e.op = "closed" -> One(st, Bool_(st.closed))
    [] st.closed -> One(st, Exc("ValueError"))
    [] e.op = "write" -> One(st, IF a[1] = st.bin THEN Int_(a[2]) ELSE Exc("TypeError"))
    [] e.op = "writelines" -> One(st, IF a[1] = st.bin THEN None ELSE Exc("TypeError"))
    [] e.op = "read" -> One(st, IF st.bin THEN <<"bytes">> ELSE Str_(""))
    [] e.op \in {"seek", "tell", "truncate"} -> One(st, Int_(0))
    [] e.op \in {"seekable", "writable"} -> One(st, Bool_(TRUE))
    [] e.op = "flush" -> One(st, None)
    [] OTHER -> {}
NInv(st) == TRUE
NStep(st, e, r, t) == st.closed => (t = st /\ (e.op \in {"close", "closed"} \/ r = Exc("ValueError")))
NCfgs == <<[bin |-> TRUE], [bin |-> FALSE]>>
NOps(st) == << {[op |-> o, a |-> <<b, n>>] : o \in {"write"}, b \in BOOLEAN, n \in {0, 3}}, {[op |-> "writelines", a |-> <<b>>] : b \in BOOLEAN}, {[op |-> "read", a |-> <<n>>] : n \in {-1, 0, 7}}, {[op |-> "seek", a |-> <<n>>] : n \in {0, 5}},
               {[op |-> o, a |-> <<>>] : o \in {"tell", "truncate", "seekable", "writable", "flush", "close", "closed"}} >>
==========================================================================
