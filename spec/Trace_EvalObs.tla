-------------------------- MODULE Trace_EvalObs ------------------------------
(* Recorded batch evaluations against EvalObs. *)
EXTENDS EvalObs, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, bad, hit, done
tvars == <<tid, l, bad, hit, done>>

TInit == tid \in 1..Len(Traces) /\ l = 1 /\ bad = {} /\ hit = {} /\ done = FALSE
TStep == /\ l <= Len(Traces[tid].ev)
         /\ LET K == Clauses(Traces[tid].ev[l]) IN
            /\ bad' = bad \cup {<<k[1], l>> : k \in {k \in K : ~k[2]}}
            /\ hit' = hit \cup {k[1] : k \in K}
         /\ l' = l + 1 /\ UNCHANGED <<tid, done>>
TDone == /\ l > Len(Traces[tid].ev) /\ ~done
         /\ PrintT(ToJson([id |-> tid, bad |-> bad, hit |-> hit]))
         /\ done' = TRUE /\ UNCHANGED <<tid, l, bad, hit>>
TSpec == TInit /\ [][TStep \/ TDone]_tvars
=============================================================================
