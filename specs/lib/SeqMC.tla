------------------------------- MODULE SeqMC -------------------------------
(* Generic design-level model checker for a component specified as                    *)
(*   SInit(cfg)   - the initial abstract state                                        *)
(*   Apply(s, e)  - the set of [s |-> next state, r |-> result] the operation e allows *)
(*                  in state s (empty = the operation blocks / is impossible)          *)
(*   Ops(s)       - a sequence of finite sets of operations to explore from s          *)
(*   InvP(s)      - the state part of the property                                     *)
(*   StepP(s,e,r,t) - the step part: e performed in s answered r and led to t          *)
(* Every history of operations up to Depth is visited.                                 *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS SInit(_), Apply(_, _), Ops(_), InvP(_), StepP(_, _, _, _), Cfgs, Depth
VARIABLES cfg, s, obs

NoObs == [e |-> [op |-> "init"], r |-> <<"none">>]
MCInit == /\ \E k \in 1..Len(Cfgs) : cfg = k /\ s = SInit(Cfgs[k])
          /\ obs = NoObs

MCNext == \E k \in 1..Len(Ops(s)) : \E e \in Ops(s)[k] : \E q \in Apply(s, e) :
            /\ s' = q.s
            /\ obs' = [e |-> e, r |-> q.r]
            /\ cfg' = cfg

MCSpec == MCInit /\ [][MCNext]_<<cfg, s, obs>>
MCView == <<cfg, s>>
MCDepth == TLCGet("level") <= Depth
MCInv == InvP(s)
\* evaluated on every generated transition; a FALSE answer is reported through an assertion
MCStep == Assert(StepP(s, obs'.e, obs'.r, s'), <<"STEP PROPERTY FAILS", s, obs', s'>>)
MCExport == MCStep /\ PrintT("@@" \o ToJson([k |-> cfg, f |-> s, e |-> obs'.e, r |-> obs'.r, t |-> s']))
=============================================================================
