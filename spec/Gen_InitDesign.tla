--------------------------- MODULE Gen_InitDesign ---------------------------
(* Random search spaces, designs and sizes. *)
EXTENDS DSUniverse, Json
CONSTANTS MaxVars, PerRun
VARIABLES n, out
Pick(S) == RandomElement(IF n >= 0 THEN S ELSE {})
Chance(k) == Pick(1..100) <= k
Conts == << V("continuous", <<-4, 8>>, <<>>, 1), V("continuous", <<0, 6>>, <<>>, 2), V("continuous", <<-9, -2>>, <<>>, 1),
            V("continuous", <<3, 28>>, <<>>, 3) >>
Dim(sp) == LET e == Expand(sp) IN Cardinality({k \in 1..Len(e) : e[k].t = "continuous"})
Space(i) == LET b == TLCEval(Chance(15))  k == TLCEval(Pick(1..IF b THEN 2 ELSE MaxVars)) IN
            Named([j \in 1..k |-> IF b THEN Bands[Pick(1..Len(Bands))] ELSE IF Chance(60) THEN Conts[Pick(1..Len(Conts))] ELSE Prims[Pick(1..Len(Prims))]], Chance(20))
Case(i) == LET sp == TLCEval(Space(i))  nm == TLCEval(Pick({"random", "latin", "sobol", "grid"}))
               big == TLCEval(Chance(20) /\ nm # "latin") IN
   [c |-> [space |-> sp, U |-> U0], name |-> nm, big |-> big,
    n |-> IF big THEN 300 ELSE IF Chance(30) THEN Pick({1, 2, 4, 8, 9, 16, 27, 32}) ELSE Pick(1..40), seed |-> Pick(1..100000), scale |-> Pick(1..5)]
Init == n = 0 /\ out = <<>>
Next == n < PerRun /\ n' = n + 1 /\ out' = TLCEval(Case(n))
Spec == Init /\ [][Next]_<<n, out>>
Emit == n > 0 => PrintT(ToJson(out))
=============================================================================
