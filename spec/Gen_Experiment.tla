--------------------------- MODULE Gen_Experiment ---------------------------
(* Configurations of experiments.                                           *)
EXTENDS Experiment, Json
CONSTANTS PerRun
VARIABLES n, out
Pick(S) == RandomElement(IF n >= 0 THEN S ELSE {})
Chance(k) == Pick(1..100) <= k
U == 4
Name(i) == TLCEval(Pick({"x", "y", "alpha", "B"})) \o ToString(i)
Var(i) == LET t == TLCEval(Pick({"continuous", "continuous", "continuous", "discrete", "categorical"})) IN
  [name |-> TLCEval(Name(i)), t |-> t,
   dom |-> TLCEval(CASE t = "continuous" -> TLCEval(Pick({<<-8, 20>>, <<0, 20>>, <<0, 4>>, <<2, 6>>, <<-20, -4>>}))
             [] t = "discrete" -> TLCEval(Pick({<<-4, 2, 8>>, <<8, 0, 4>>, <<0, 1, 2, 3>>, <<12>>}))
             [] OTHER -> TLCEval(Pick({<<0, 4>>, <<0, 4, 8>>, <<0, 4, 8, 12>>}))),
   arms |-> <<>>, dim |-> TLCEval(IF Chance(25) THEN 2 ELSE 1)]
Bandit == << [name |-> "arm", t |-> "bandit", dom |-> <<>>, arms |-> << <<0, 4>>, <<8, -4>>, <<4, 4>>, <<12, 0>> >>, dim |-> 2] >>
Space == IF Chance(6) THEN Bandit ELSE TLCEval([i \in 1..TLCEval(Pick(1..3)) |-> TLCEval(Var(i))])
SomeCons(sp) == IF sp[1].t = "bandit" \/ Chance(80) THEN <<>>
            ELSE LET e == Expand(sp) S == {k \in 1..Len(e) : e[k].t = "continuous"} IN
                 IF S = {} THEN <<>> ELSE LET k == TLCEval(Pick(S)) IN << [i |-> k, v |-> (e[k].dom[1] + e[k].dom[2]) \div 2] >>
Given == TLCEval(Chance(60))
Case ==
  LET sp == TLCEval(Space) cons == TLCEval(SomeCons(sp)) bandit == sp[1].t = "bandit"
      timed == TLCEval(Chance(35)) cores == TLCEval(IF Chance(12) /\ ~timed THEN Pick(2..3) ELSE 1)
      inv == TLCEval(IF Chance(22) THEN Pick({"model", "acquisition", "evaluator", "optimizer", "design", "space", "main", "extension", "language", "objective", "integrated", "entropy", "domain", "file"}) ELSE "")
      hasM == Given hasA == Given hasE == TLCEval(Chance(70)) hasR == Given hasI == Given
      sparse == TLCEval(hasM /\ Chance(30))
      dt == TLCEval(IF cons # <<>> \/ bandit THEN "random" ELSE Pick({"random", "random", "latin", "sobol", "grid"}))
      ev == TLCEval(Pick({"sequential", "random", "random", "local_penalization", "thompson_sampling"})) IN
  [c |-> [space |-> sp, U |-> U, cons |-> cons,
          dtype |-> IF hasI THEN dt ELSE "random", n |-> TLCEval(IF hasI THEN IF Chance(4) THEN Pick({64, 130}) ELSE Pick({2, 3, 4, 7, 8, 10}) ELSE 5),
          model |-> [type |-> "GP", sparse |-> sparse, ninduce |-> TLCEval(IF hasM /\ Chance(60) THEN Pick({3, 5, 12}) ELSE 10),
                     miters |-> TLCEval(IF Chance(15) THEN 0 ELSE 5), restarts |-> TLCEval(Pick({1, 1, 2})), exact |-> TLCEval(hasM /\ Chance(30)),
                     ard |-> TLCEval(hasM /\ Chance(30)), noise |-> TLCEval(IF hasM /\ Chance(30) THEN Pick({1, 10, 500}) ELSE -1), mopt |-> TLCEval(IF hasM /\ Chance(30) THEN Pick({"lbfgs", "scg"}) ELSE "bfgs"), verbose |-> TLCEval(hasM /\ Chance(15))],
          acq |-> [type |-> TLCEval(IF hasA THEN Pick({"EI", "MPI", "LCB"}) ELSE "EI"), jit |-> TLCEval(IF hasA /\ Chance(70) THEN Pick({0, 1, 20, 500}) ELSE 10),
                   w |-> TLCEval(IF hasA /\ Chance(70) THEN Pick({0, 500, 3000}) ELSE 2000)],
          opt |-> "lbfgs", ev |-> IF hasE THEN [type |-> ev, b |-> IF ev = "sequential" THEN 1 ELSE TLCEval(Pick(1..3))] ELSE [type |-> "sequential", b |-> 1],
          cores |-> IF hasR THEN cores ELSE 1,
          mi |-> TLCEval(IF timed /\ Chance(50) THEN -2 ELSE IF Chance(10) THEN 0 ELSE Pick(1..3)), mt |-> TLCEval(IF timed THEN 60 * Pick(1..3) ELSE -2),
          tol |-> TLCEval(IF Chance(35) THEN Pick({1000, 5000, 0, 0}) ELSE -2), invalid |-> inv],
   has |-> [model |-> hasM, acq |-> hasA, ev |-> hasE, res |-> hasR, init |-> hasI],
   dts |-> TLCEval([i \in 1..60 |-> TLCEval(Pick({20, 30, 60, 75}))]), failat |-> TLCEval(Pick(1..2)),
   form |-> TLCEval(Pick({"text", "text", "list", "mixed"})), lang |-> TLCEval(Pick({"PYTHON", "python", "default"})), scalar |-> TLCEval(Pick({"array", "array", "float", "row"})),
   scale |-> TLCEval(IF Chance(15) THEN 30 ELSE 0), fname |-> TLCEval(Pick({"problem", "f1", "toy", "py", "lamp", "main_py"})),
   via |-> TLCEval(Pick({"files", "files", "files", "direct"})), seed |-> TLCEval(Pick(1..100000))]
Init == n = 0 /\ out = <<>>
Next == n < PerRun /\ n' = n + 1 /\ out' = TLCEval(Case)
Spec == Init /\ [][Next]_<<n, out>>
Emit == n > 0 => PrintT(ToJson(out))
=============================================================================
