---------------------------- MODULE Trace_EntropySearch ----------------------------
(* Checks recorded executions (file named by the environment variable     *)
(* TRACE: a JSON list of [c, ev]) against EntropySearch.  One initial state per   *)
(* trace; the verdict lists every clause that failed, with its event.      *)
EXTENDS EntropySearch, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, s, bad, hit, done
tvars == <<tid, l, s, bad, hit, done>>
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ s = S0 /\ bad = {} /\ hit = {} /\ done = FALSE
TStep == /\ l <= Len(Traces[tid].ev)
         /\ LET c == Traces[tid].c
                e == Traces[tid].ev[l]
                K == Clauses(c, s, e) IN
            /\ bad' = bad \cup {<<k[1], l>> : k \in {k \in K : ~k[2]}}
            /\ hit' = hit \cup {k[1] : k \in K}
            /\ s' = Post(c, s, e)
         /\ l' = l + 1 /\ UNCHANGED <<tid, done>>
TDone == /\ l > Len(Traces[tid].ev) /\ ~done
         /\ PrintT(ToJson([id |-> tid, bad |-> bad, hit |-> hit]))
         /\ done' = TRUE /\ UNCHANGED <<tid, l, s, bad, hit>>
TSpec == TInit /\ [][TStep \/ TDone]_tvars
=============================================================================
