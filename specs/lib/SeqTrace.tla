------------------------------ MODULE SeqTrace ------------------------------
(* Generic trace validator: every trace recorded from the implementation must be a behaviour of the   *)
(* component specification (SInit, Apply), and every step must satisfy InvP and StepP.  One TLC run    *)
(* validates the whole batch; register `tid` remembers how far trace tid was explained.               *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
CONSTANTS SInit(_), Apply(_, _), InvP(_), StepP(_, _, _, _)
VARIABLES tid, i, s

ZTraces == JsonDeserialize(IOEnv.VTRACES)

ZInit == /\ tid \in 1..Len(ZTraces)
         /\ i = 0
         /\ s = SInit(ZTraces[tid].cfg)
         /\ TLCSet(tid, 0)

ZEv == ZTraces[tid].ev

ZNext == /\ i < Len(ZEv)
         /\ LET e == ZEv[i + 1] IN
              \E q \in Apply(s, e) :
                 /\ q.r = e.r
                 /\ StepP(s, e, q.r, q.s)
                 /\ InvP(q.s)
                 /\ s' = q.s
         /\ i' = i + 1
         /\ tid' = tid
         /\ IF TLCGet(tid) < i + 1 THEN TLCSet(tid, i + 1) ELSE TRUE

ZSpec == ZInit /\ [][ZNext]_<<tid, i, s>>

\* total verdict: the traces that could not be explained, and how far each got
ZBad == {t \in 1..Len(ZTraces) : TLCGet(t) < Len(ZTraces[t].ev)}
ZPost == /\ PrintT("@@BAD " \o ToJson([n |-> Len(ZTraces), bad |-> [t \in 1..Len(ZTraces) |-> IF t \in ZBad THEN TLCGet(t) + 1 ELSE 0]]))

\* diagnosis of one trace: what the specification would have allowed where it got stuck
ZDiag == IF i = TLCGet(tid) /\ i < Len(ZEv)
         THEN PrintT("@@DIAG " \o ToString(<<i + 1, "state", s, "allowed", {q.r : q \in Apply(s, ZEv[i + 1])}>>))
         ELSE TRUE
=============================================================================
