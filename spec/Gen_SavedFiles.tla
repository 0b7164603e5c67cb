--------------------------- MODULE Gen_SavedFiles ---------------------------
(* Optimizer set-ups and sequences of runs, requests and saves.             *)
EXTENDS SavedFiles, Json
CONSTANTS PerRun
VARIABLES n, out
Pick(S) == RandomElement(IF n >= 0 THEN S ELSE {})
Chance(k) == Pick(1..100) <= k
U0 == 4
V(nm, t, dom, arms, dim) == [name |-> nm, t |-> t, dom |-> dom, arms |-> arms, dim |-> dim]
Spaces == << << V("x", "continuous", <<-4, 8>>, <<>>, 1) >>,
             << V("x", "continuous", <<0, 4>>, <<>>, 2), V("d", "discrete", <<5, 0, 2>>, <<>>, 1) >>,
             << V("k", "categorical", <<0, 4, 8>>, <<>>, 1), V("x", "continuous", <<-4, 4>>, <<>>, 1) >>,
             << V("d", "discrete", <<0, 2, 8>>, <<>>, 2), V("k", "categorical", <<0, 4>>, <<>>, 1), V("y", "continuous", <<1, 3>>, <<>>, 1) >>,
             << V("b", "bandit", <<>>, << <<0, 0>>, <<4, 2>>, <<-3, 5>>, <<1, 7>>, <<8, 8>> >>, 1) >>,
             << V("x", "continuous", <<-40, 80>>, <<>>, 9) >>,
             << V("x", "continuous", <<0, 4>>, <<>>, 1), V("y", "continuous", <<-9, -3>>, <<>>, 1) >> >>
Op(i) == LET r == TLCEval(Pick(1..12)) IN
   CASE r <= 6 -> [op |-> "run", mi |-> Pick({0, 1, 2, 2, 3, -2}), ask |-> TLCEval({f \in {"e", "m", "r"} : Chance(60)})]
     [] r = 7  -> [op |-> "sug"]
     [] r <= 9 -> [op |-> "saveevals"]
     [] r <= 11 -> [op |-> "savemodels"]
     [] OTHER -> [op |-> "savereport"]
Case(i) == LET sp == TLCEval(Spaces[Pick(1..Len(Spaces))])  b == TLCEval(Pick({1, 1, 2, 3}))  m == TLCEval(Pick(2..6)) IN
  [space |-> sp, U |-> U0, b |-> b, iv |-> Pick({1, 1, 2, 3}), norm |-> Chance(50), exact |-> Chance(40),
   model |-> Pick({"script", "script", "noparams", "GP", "GPard", "sparseGP", "GP_MCMC", "GP_MCMCard", "noparams"}),
   acq |-> Pick({"EI", "MPI", "LCB"}), ev |-> Pick({"sequential", "random"}), cores |-> IF Chance(15) THEN 2 ELSE 1,
   cost |-> Pick({"none", "none", "user", "time"}), cons |-> Chance(25), name |-> Pick({"no_name", "branin", "my problem"}),
   modular |-> Chance(25), given |-> Chance(50), maximize |-> Chance(20), n0 |-> Pick(2..5),
   yk |-> Pick({"thirds", "close", "tiny", "huge", "whole"}), long |-> IF Chance(15) THEN Pick({40, 130}) ELSE IF Chance(2) THEN 2500 ELSE 0,
   ops |-> [j \in 1..m |-> Op(j)], seed |-> Pick(1..100000)]
Init == n = 0 /\ out = <<>>
Next == n < PerRun /\ n' = n + 1 /\ out' = TLCEval(Case(n))
Spec == Init /\ [][Next]_<<n, out>>
Emit == n > 0 => PrintT(ToJson(out))
=============================================================================
