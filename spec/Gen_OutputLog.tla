--------------------------- MODULE Gen_OutputLog ----------------------------
(* Sets of savers and sequences of regular and final iterations.            *)
EXTENDS OutputLog, Json
CONSTANTS PerRun
VARIABLES n, out
Pick(S) == RandomElement(IF n >= 0 THEN S ELSE {})
Chance(k) == Pick(1..100) <= k
Saver(i, good) ==
  LET ty == TLCEval(IF good \/ Chance(75) THEN Pick({"logger", "logger", "report"}) ELSE Pick({"Logger", "plot", ""})) IN
  [type |-> ty, format |-> TLCEval(IF good \/ Chance(70) THEN Pick({"csv", "csv", "CSV"}) ELSE Pick({"txt", "json", "", "csvx"})),
   content |-> TLCEval(IF good \/ Chance(70) THEN Pick({"ybest", "ybest", "YBEST"}) ELSE Pick({"all", "best", ""})),
   interval |-> TLCEval(IF good \/ Chance(70) THEN Pick({-1, 1, 1, 2, 3, 5, 7}) ELSE Pick({0, -2, -5})),
   named |-> TLCEval(Chance(70))]
Call(i, d) == LET r == TLCEval(Pick({1, 1, 1, 2, 3})) IN
  [it |-> i + TLCEval(Pick({0, 0, 100})) * 10, t |-> i * 3 + TLCEval(Pick(0..2)), final |-> TLCEval(Chance(15)),
   X |-> TLCEval([k \in 1..r |-> TLCEval([j \in 1..d |-> TLCEval(Pick(-200..200))])]),
   Y |-> TLCEval([k \in 1..r |-> TLCEval(Pick(IF Chance(50) THEN -8..8 ELSE -5000..5000))])]
Case == LET good == TLCEval(Chance(75))  d == TLCEval(Pick(1..3))  m == TLCEval(IF Chance(4) THEN 120 ELSE Pick(0..18)) IN
  [c |-> [savers |-> TLCEval([i \in 1..Pick(1..4) |-> TLCEval(Saver(i, good))]), dim |-> d],
   calls |-> TLCEval([i \in 1..m |-> TLCEval(Call(i, d))]), scalars |-> TLCEval(Chance(50)), digits |-> TLCEval(Pick({1, 1, 2, 2, 3, 4})), reuse |-> TLCEval(Chance(30)), shape |-> TLCEval(Pick(1..2))]
Init == n = 0 /\ out = <<>>
Next == n < PerRun /\ n' = n + 1 /\ out' = TLCEval(Case)
Spec == Init /\ [][Next]_<<n, out>>
Emit == n > 0 => PrintT(ToJson(out))
=============================================================================
