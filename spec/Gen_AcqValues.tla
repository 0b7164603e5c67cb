--------------------------- MODULE Gen_AcqValues ---------------------------
(* Predictions, incumbents, costs and constraints for the acquisitions.     *)
EXTENDS AcqValues, Json
CONSTANTS PerRun
VARIABLES n, out
Pick(S) == RandomElement(IF n >= 0 THEN S ELSE {})
Chance(k) == Pick(1..100) <= k
U0 == 4
V(nm, t, dom, dim) == [name |-> nm, t |-> t, dom |-> dom, arms |-> <<>>, dim |-> dim]
Spaces == << << V("x", "continuous", <<-4, 8>>, 1) >>,
             << V("x", "continuous", <<0, 8>>, 2) >>,
             << V("k", "categorical", <<0, 4, 8>>, 1), V("x", "continuous", <<-4, 4>>, 1) >>,
             << V("d", "discrete", <<-3, 0, 2, 7>>, 1), V("k", "categorical", <<0, 4>>, 1), V("x", "continuous", <<0, 12>>, 1) >>,
             << V("x", "continuous", <<-2, 3>>, 3) >> >>
Coord(v) == IF v.t = "continuous" THEN <<Pick(v.dom[1]..v.dom[2])>> ELSE Pick(ValuesVar(v))
Loc(e, i) == FlattenSeq([k \in 1..Len(e) |-> Coord(e[k])])
RandCon(e, i) == LET m == Len(e)  a == TLCEval(Pick(1..m))  b == TLCEval(Pick(1..m)) IN
   CASE Chance(30) /\ a # b -> [k |-> "le", i |-> a, j |-> b, v |-> 0]
     [] Chance(50) -> [k |-> "ub", i |-> a, j |-> b, v |-> TLCEval(Pick(-1..5))]
     [] OTHER -> [k |-> "sum", i |-> a, j |-> b, v |-> TLCEval(Pick(0..8))]
\* quantiles (in eighths) concentrate around zero, with tails beyond the table
Quant(i) == TLCEval(LET r == Pick(1..10) IN IF r <= 6 THEN Pick(-16..16) ELSE IF r <= 9 THEN Pick(-46..46) ELSE Pick({-60, 60, -48, 48}))
Pred(F, J, m, i) == LET S == TLCEval(Pick(0..16))  k == TLCEval(Quant(i))  kk == IF k = 0 THEN 1 ELSE k IN
   [M |-> TLCEval(IF S = 0 THEN F - J - Pick({-300, -7, 1, 64, 200}) ELSE F - J - k * S), S |-> S,
    dm |-> [d \in 1..m |-> Pick(-8..8)], ds |-> [d \in 1..m |-> Pick(-8..8)]]
Case(i) == LET sp == TLCEval(Spaces[Pick(1..Len(Spaces))])  e == TLCEval(Expand(sp))  m == ModelDim(sp)
               a == TLCEval(Pick({"EI", "EI", "MPI", "LCB", "EI_MCMC", "MPI_MCMC", "LCB_MCMC"}))
               ns == TLCEval(IF a \in {"EI", "MPI", "LCB"} THEN 1 ELSE Pick(1..3))
               J == TLCEval(Pick({0, 0, 1, 3, 16, 64}))
               F == TLCEval([q \in 1..ns |-> Pick(-128..128)])
               L == TLCEval(SetToSeq({Loc(e, j) : j \in 1..Pick(3..6)}))
               cs == TLCEval(IF Chance(40) THEN <<RandCon(e, i)>> ELSE IF Chance(15) THEN <<RandCon(e, i), RandCon(e, i + 1)>> ELSE <<>>) IN
  [c |-> [space |-> sp, U |-> U0, cons |-> cs, acq |-> a, J |-> J, W |-> TLCEval(Pick({0, 4, 8, 16, 20, 32})), F |-> F,
          costed |-> TLCEval(Chance(40)),
          tab |-> [j \in 1..Len(L) |-> TLCEval([x |-> L[j], p |-> [q \in 1..ns |-> TLCEval(Pred(F[q], J, m, j))],
                                               v |-> TLCEval(Pick(1..4)), g |-> [d \in 1..m |-> TLCEval(Pick(-4..4))]])]],
   mag |-> TLCEval(Pick({0, 0, 0, -18, 30, 45})), seed |-> TLCEval(Pick(1..100000)), route |-> TLCEval(Pick(1..3))]
Init == n = 0 /\ out = <<>>
Next == n < PerRun /\ n' = n + 1 /\ out' = TLCEval(Case(n))
Spec == Init /\ [][Next]_<<n, out>>
Emit == n > 0 => PrintT(ToJson(out))
=============================================================================
