--------------------------- MODULE Gen_Isolation ----------------------------
(* Scenarios: an optimizer and a sequence of calls and overwritings.        *)
EXTENDS Isolation, Json
CONSTANTS PerRun, MaxOps
VARIABLES n, out
Pick(S) == RandomElement(IF n >= 0 THEN S ELSE {})
Chance(k) == Pick(1..100) <= k
Gets == {"evals", "xopt", "ybest", "params", "bounds", "suggested", "saved"}
Op == LET r == TLCEval(Pick(1..100)) IN
  IF r <= 30 THEN [op |-> "suggest", ctx |-> TLCEval(Chance(40)), pend |-> TLCEval(Chance(40)), ign |-> TLCEval(Chance(40)), k |-> 0, what |-> ""]
  ELSE IF r <= 50 THEN [op |-> "run", ctx |-> TLCEval(Chance(30)), pend |-> FALSE, ign |-> FALSE, k |-> TLCEval(Pick(0..2)), what |-> ""]
  ELSE IF r <= 70 THEN [op |-> "get", ctx |-> FALSE, pend |-> FALSE, ign |-> FALSE, k |-> 0, what |-> TLCEval(Pick(Gets))]
  ELSE IF r <= 95 THEN [op |-> "scribble", ctx |-> FALSE, pend |-> FALSE, ign |-> FALSE, k |-> TLCEval(Pick(1..1000)), what |-> TLCEval(Pick({"last", "last", "any"}))]
  ELSE [op |-> "design", ctx |-> FALSE, pend |-> FALSE, ign |-> FALSE, k |-> TLCEval(Pick(1..5)), what |-> TLCEval(Pick({"random", "sobol", "grid"}))]
Case ==
  [dom |-> TLCEval(Pick({"cont", "cont", "mixed", "cat", "bandit", "cons", "legacy", "disc", "arr", "arr"})),
   start |-> TLCEval(Pick({"XY", "XY", "X", "none"})), api |-> TLCEval(Pick({"bo", "bo", "modular"})),
   evaluator |-> TLCEval(Pick({"sequential", "sequential", "random", "local_penalization", "thompson_sampling"})), bs |-> TLCEval(Pick(1..3)),
   style |-> TLCEval(Pick({"fresh", "buffer", "touch", "hold", "row", "scalar"})), model |-> TLCEval(Pick({"GP", "sparse", "mcmc", "det"})),
   norm |-> TLCEval(Chance(60)), max |-> TLCEval(Chance(30)), dedup |-> TLCEval(Chance(40)), cost |-> TLCEval(Chance(15)), cores |-> TLCEval(IF Chance(10) THEN 2 ELSE 1),
   ctxk |-> TLCEval(Pick({"plain", "np", "zero"})), long |-> TLCEval(Chance(20)), one |-> TLCEval(Chance(30)),
   seed |-> TLCEval(Pick(1..100000)), ops |-> TLCEval([i \in 1..TLCEval(Pick(4..MaxOps)) |-> TLCEval(Op)])]
Init == n = 0 /\ out = <<>>
Next == n < PerRun /\ n' = n + 1 /\ out' = TLCEval(Case)
Spec == Init /\ [][Next]_<<n, out>>
Emit == n > 0 => PrintT(ToJson(out))
=============================================================================
