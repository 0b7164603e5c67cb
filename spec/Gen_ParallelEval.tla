-------------------------- MODULE Gen_ParallelEval --------------------------
(* Fault and completion schedules: the number of processes, locations, what *)
(* happens at each of them in a worker (k) and how long it takes (t, 10 ms).*)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS PerRun
VARIABLES n, out
Pick(S) == RandomElement(IF n >= 0 THEN S ELSE {})
Chance(k) == Pick(1..100) <= k
Kinds(i) == LET m == TLCEval(Pick(1..100)) IN
            IF m <= 45 THEN <<"ok">> ELSE IF m <= 60 THEN <<"ok", "ok", "die">> ELSE IF m <= 75 THEN <<"ok", "ok", "raise">>
            ELSE IF m <= 82 THEN <<"ok", "ok", "ok", "err">> ELSE IF m <= 88 THEN <<"die">> ELSE <<"ok", "ok", "die", "raise", "err">>
Case(i) == LET P == TLCEval(Pick(1..5))  N == TLCEval(Pick(1..7))  ks == TLCEval(Kinds(i))  slow == TLCEval(Chance(30)) IN
  [kind |-> "eval", P |-> P, n |-> N, slow |-> slow,
   k |-> [x \in 1..N |-> ks[Pick(1..Len(ks))]],
   t |-> [x \in 1..N |-> IF slow THEN 4 ELSE Pick(0..2)],
   v |-> [x \in 1..N |-> Pick(1..12)], seed |-> Pick(1..100000)]
Init == n = 0 /\ out = <<>>
Next == n < PerRun /\ n' = n + 1 /\ out' = TLCEval(Case(n))
Spec == Init /\ [][Next]_<<n, out>>
Emit == n > 0 => PrintT(ToJson(out))
=============================================================================
