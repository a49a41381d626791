------------------------------ MODULE TraceLib ------------------------------
(* Generic trace validation.  A specification module provides a functional   *)
(* state machine:  InitSt(case), Fault(st, e), Apply(st, e).  Every recorded *)
(* trace is a behaviour starting from InitSt of its header and consuming its *)
(* events ev[1], ev[2], ...  The verdict is total: the first event that the  *)
(* specification does not allow stops the trace with the violated clause.    *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
CONSTANTS InitSt(_), Fault(_, _), Apply(_, _)
VARIABLES tid, l, st, bad

(* read once, by the initial predicate; register 7 is visible to all workers *)
Traces == TLCGet(7)
tvars == <<tid, l, st, bad>>

TraceInit == /\ TLCSet(7, ndJsonDeserialize(IOEnv.TRACES))
             /\ tid \in DOMAIN Traces
             /\ l = 1
             /\ st = InitSt(Traces[tid])
             /\ bad = ""

TraceNext ==
  /\ bad = ""
  /\ l <= Len(Traces[tid].ev)
  /\ UNCHANGED tid
  /\ LET e == Traces[tid].ev[l]
         f == Fault(st, e)
     IN IF f = ""
        THEN st' = Apply(st, e) /\ l' = l + 1 /\ bad' = ""
        ELSE /\ PrintT("REJECT " \o ToJson(<<tid, l, f>>))
             /\ st' = st /\ l' = l /\ bad' = f

TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
