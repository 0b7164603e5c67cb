-------------------------- MODULE Gen_CostLearning --------------------------
(* Scenarios for evaluation costs: search space, kind of cost, acquisition, *)
(* initial data, durations and failures of the evaluations, operations.     *)
EXTENDS CostLearning, Json
CONSTANTS PerRun
VARIABLES n, out
Pick(S) == RandomElement(IF n >= 0 THEN S ELSE {})
Chance(k) == Pick(1..100) <= k
U0 == 4
V(nm, t, dom, arms, dim) == [name |-> nm, t |-> t, dom |-> dom, arms |-> arms, dim |-> dim]
Spaces == << << V("x", "continuous", <<-4, 8>>, <<>>, 1) >>,
             << V("x", "continuous", <<0, 4>>, <<>>, 2), V("d", "discrete", <<5, 0, 2>>, <<>>, 1) >>,
             << V("k", "categorical", <<0, 4, 8>>, <<>>, 1), V("x", "continuous", <<-4, 4>>, <<>>, 1) >>,
             << V("d", "discrete", <<0, 2, 8>>, <<>>, 2), V("k", "categorical", <<0, 4>>, <<>>, 1) >>,
             << V("b", "bandit", <<>>, << <<0, 0>>, <<4, 2>>, <<-3, 5>>, <<1, 7>>, <<8, 8>> >>, 1) >> >>
Coord(v) == IF v.t = "continuous" THEN <<Pick(v.dom[1]..v.dom[2])>> ELSE Pick(ValuesVar(v))
Loc(e, i) == FlattenSeq([k \in 1..Len(e) |-> Coord(e[k])])
Locs(e, m) == [i \in 1..m |-> Loc(e, i)]
Op(e, i) == LET r == TLCEval(Pick(1..10)) IN
   IF r <= 4 THEN [op |-> "run", mi |-> Pick(0..2), ctx |-> Chance(30)]
   ELSE IF r <= 5 THEN [op |-> "sug", mi |-> 0, ctx |-> Chance(40)]
   ELSE IF r <= 8 THEN [op |-> "query", X |-> Locs(e, Pick(1..3))]
   ELSE [op |-> "acq", X |-> Locs(e, 1)]
Case(i) == LET sp == TLCEval(Spaces[Pick(1..Len(Spaces))])  e == TLCEval(Expand(sp))  m == TLCEval(Pick(3..6)) IN
  [c |-> [space |-> sp, U |-> U0, kind |-> Pick({"time", "time", "time", "user", "none"})],
   acq |-> Pick({"EI", "MPI", "EI_MCMC", "MPI_MCMC", "LCB", "LCB_MCMC"}),
   b |-> Pick(1..3), modular |-> Chance(30), given |-> Chance(50), haveY |-> Chance(40), n0 |-> Pick(2..4),
   X0 |-> Locs(e, IF Chance(12) THEN Pick({20, 45}) ELSE Pick(2..4)), real |-> Chance(15), design |-> Pick({"random", "latin", "sobol"}),
   off |-> Pick({3, 3, 3, 20, -4}), ks |-> [j \in 1..24 |-> Pick(0..6)], fails |-> IF Chance(25) THEN Pick(3..9) ELSE 0,
   ops |-> [j \in 1..m |-> Op(e, j)], seed |-> Pick(1..100000), w |-> [j \in 1..8 |-> Pick(-3..3)]]
Init == n = 0 /\ out = <<>>
Next == n < PerRun /\ n' = n + 1 /\ out' = TLCEval(Case(n))
Spec == Init /\ [][Next]_<<n, out>>
Emit == n > 0 => PrintT(ToJson(out))
=============================================================================
