------------------------------ MODULE LinTrace ------------------------------
(* Generic linearizability checker.  A trace is a sequence of invocations, returns and one final event  *)
(* of a concurrent execution.  It is accepted iff every operation can be given one atomic instant       *)
(* between its invocation and its return such that the resulting sequence is a behaviour of the         *)
(* component (SInit, Apply); operations still blocked when the execution got stuck must be ones the     *)
(* component does not enable in the final state.                                                        *)
(* Invocation events carry the result that the matching return reported (r), <<"pending">> if none.     *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
CONSTANTS SInit(_), Apply(_, _), InvP(_), StepP(_, _, _, _)
VARIABLES tid, i, s, pend

ZTraces == JsonDeserialize(IOEnv.VTRACES)

ZInit == /\ tid \in 1..Len(ZTraces)
         /\ i = 0
         /\ s = SInit(ZTraces[tid].cfg)
         /\ pend = [t \in 1..ZTraces[tid].n |-> <<>>]
         /\ TLCSet(tid, 0)

ZEv == ZTraces[tid].ev
ZMark(j) == IF TLCGet(tid) < j THEN TLCSet(tid, j) ELSE TRUE

ZConsume == /\ i' = i + 1
           /\ tid' = tid
           /\ ZMark(i + 1)

ZInvoke == /\ i < Len(ZEv) /\ ZEv[i + 1].k = "inv"
          /\ pend' = [pend EXCEPT ![ZEv[i + 1].t] = <<"inv", ZEv[i + 1]>>]
          /\ s' = s
          /\ ZConsume

\* just-in-time linearization: operations take effect only when the next event needs one to have
ZLin == /\ i < Len(ZEv)
       /\ \/ ZEv[i + 1].k = "ret" /\ pend[ZEv[i + 1].t][1] = "inv"
          \/ ZEv[i + 1].k \in {"stuck", "end"}
       /\ \E t \in DOMAIN pend :
            /\ pend[t] # <<>> /\ pend[t][1] = "inv"
            /\ LET e == pend[t][2] IN
                 \E q \in Apply(s, e) :
                    /\ e.r[1] = "pending" \/ q.r = e.r
                    /\ StepP(s, e, q.r, q.s)
                    /\ InvP(q.s)
                    /\ s' = q.s
            /\ pend' = [pend EXCEPT ![t] = <<"done">>]
       /\ i' = i /\ tid' = tid

ZReturn == /\ i < Len(ZEv) /\ ZEv[i + 1].k = "ret"
          /\ pend[ZEv[i + 1].t][1] = "done"
          /\ pend' = [pend EXCEPT ![ZEv[i + 1].t] = <<>>]
          /\ s' = s
          /\ ZConsume

\* nobody can move any more: legitimate only if the specification blocks every pending operation too
ZStuck == /\ i < Len(ZEv) /\ ZEv[i + 1].k = "stuck"
         /\ \A t \in DOMAIN pend : pend[t] # <<>> =>
               pend[t][1] = "inv" /\ Apply(s, pend[t][2]) = {}
         /\ UNCHANGED <<s, pend>>
         /\ ZConsume

ZEnd == /\ i < Len(ZEv) /\ ZEv[i + 1].k = "end"
       /\ \A t \in DOMAIN pend : pend[t] = <<>>
       /\ UNCHANGED <<s, pend>>
       /\ ZConsume

ZNext == ZInvoke \/ ZLin \/ ZReturn \/ ZStuck \/ ZEnd
ZSpec == ZInit /\ [][ZNext]_<<tid, i, s, pend>>

ZBad == {t \in 1..Len(ZTraces) : TLCGet(t) < Len(ZTraces[t].ev)}
ZPost == /\ PrintT("@@BAD " \o ToJson([n |-> Len(ZTraces), bad |-> [t \in 1..Len(ZTraces) |-> IF t \in ZBad THEN TLCGet(t) + 1 ELSE 0]]))
ZDiag == IF i = TLCGet(tid) /\ i < Len(ZEv)
         THEN PrintT("@@DIAG " \o ToString(<<i + 1, "state", s, "pending", pend>>))
         ELSE TRUE
=============================================================================
