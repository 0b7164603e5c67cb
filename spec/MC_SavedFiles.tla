--------------------------- MODULE MC_SavedFiles ----------------------------
(* A run as the loop performs it (fit when the interval says so, propose,   *)
(* evaluate, final refresh) with its log of parameter rows: what the loop   *)
(* writes is accepted, and a log that misses, repeats or reorders a row of  *)
(* a run whose parameters change is rejected.                               *)
EXTENDS SavedFiles
CONSTANTS MaxIter, MaxIv
VARIABLES iv, mi, k, ver, log, s, ph
vars == <<iv, mi, k, ver, log, s, ph>>
Cfg == [space |-> <<>>, params |-> TRUE]
Init == iv \in 1..MaxIv /\ mi \in 0..MaxIter /\ k = 0 /\ ver \in 0..1 /\ log = <<>> /\ ph = "step"
        /\ s = Post(Cfg, [S0 EXCEPT !.par = <<ver>>], [op |-> "begin", mi |-> mi])
Step == /\ ph = "step"
        /\ LET fit == k % iv = 0
               v == IF fit THEN ver + 1 ELSE ver
               s1 == IF fit THEN Post(Cfg, s, [op |-> "fit", par |-> <<v>>]) ELSE s IN
           /\ ver' = v /\ log' = Append(log, <<v>>)
           /\ IF k < mi THEN s' = Post(Cfg, s1, [op |-> "batch"]) /\ k' = k + 1 /\ ph' \in {"step", "late"}
              ELSE s' = s1 /\ k' = k /\ ph' = "end"
        /\ UNCHANGED <<iv, mi>>
Late == ph = "late" /\ ph' = "end" /\ UNCHANGED <<iv, mi, k, ver, log, s>>     \* the time limit: no final refresh
Next == Step \/ Late
Spec == Init /\ [][Next]_vars
RowsOf(D) == [i \in 1..Len(D) |-> [n |-> i, v |-> D[i]]]
Ev(D) == [op |-> "models", rows |-> RowsOf(D), header |-> <<"Iteration", "p">>, names |-> <<"p">>, nparams |-> 1]
OK(D) == \A q \in Clauses(Cfg, s, Ev(D)) : q[2]
Accepted == ph = "end" => OK(log)
Drop(D, i) == [j \in 1..(Len(D) - 1) |-> IF j < i THEN D[j] ELSE D[j + 1]]
Rejected == ph = "end" /\ iv = 1 /\ k = mi /\ s.fresh => /\ \A i \in 1..Len(log) : ~OK(Drop(log, i))
                                            /\ ~OK(log \o log)
                                            /\ (Len(log) > 1 => ~OK(Reverse(log)))
=============================================================================
