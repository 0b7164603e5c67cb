---------------------------- MODULE CostLearning ----------------------------
(***************************************************************************)
(* Evaluation costs (C13).                                                  *)
(* Configuration c: space, U, kind \in {"time", "user", "none"}.            *)
(* State s: timed  the evaluations of completed batches that were timed, as *)
(*                 <<encoded location, binary logarithm of the duration>>,  *)
(*          buf    evaluations since the last completed batch,              *)
(*          held   what the cost surrogate was last trained on,             *)
(*          fits   how often it was trained.                                *)
(* Events: eval (x raw, k), done (a batch of evaluations was recorded),     *)
(*         train (X, L), fail (an operation raised), query (the cost at     *)
(*         encoded locations; m, dm: mean and gradient the cost surrogate   *)
(*         predicts there, uc, ud: the user's cost and gradient), acq (an   *)
(*         acquisition with and without cost, fixed point).                 *)
(***************************************************************************)
EXTENDS DesignSpace
S0 == [timed |-> <<>>, buf |-> <<>>, held |-> <<>>, fits |-> 0]
RECURSIVE Pow2(_)
Pow2(k) == IF k <= 0 THEN 1 ELSE 2 * Pow2(k - 1)
Row(X, L) == [i \in 1..Len(X) |-> <<X[i], L[i]>>]
\* everything is accounted for
Settled(c, s) == IF c.kind = "time" THEN s.held = s.timed \o s.buf ELSE s.fits = 0
\* cost and gradient expected at the i-th queried location
CostAt(c, s, e, i) == CASE c.kind = "user" -> e.uc[i]
                        [] c.kind = "time" /\ s.held # <<>> -> Pow2(e.m[i])
                        [] OTHER -> 1
GradAt(c, s, e, i) == CASE c.kind = "user" -> e.ud[i]
                        [] c.kind = "time" /\ s.held # <<>> -> [d \in 1..Len(e.dm[i]) |-> Pow2(e.m[i]) * e.dm[i][d]]
                        [] OTHER -> [d \in 1..Len(e.dm[i]) |-> 0]
\* e.a is e.f per unit cost v (gradient g), all in fixed point; e.f, e.df without cost
PerUnit(e, v, g) == /\ Abs(e.a * v - e.f) <= v + 1
                    /\ Abs(e.a1 - e.a) <= 1
                    /\ \A d \in 1..Len(g) : Abs(e.da[d] * v * v - (e.df[d] * v - e.f * g[d])) <= v * v + 2 * v + 2 * Abs(g[d]) + 2
Same(e) == Abs(e.a - e.f) <= 1 /\ Abs(e.a1 - e.f) <= 1 /\ \A d \in 1..Len(e.df) : Abs(e.da[d] - e.df[d]) <= 1
Clauses(c, s, e) ==
  CASE e.op = "eval"  -> {}
    [] e.op = "train" -> { <<"C13.kind", c.kind = "time">>,
                           <<"C13.train", Len(e.X) = Len(e.L) /\ Row(e.X, e.L) = s.timed \o s.buf>> }
    [] e.op = "done"  -> { <<"C13.settled", Settled(c, s)>> }
    [] e.op = "fail"  -> { <<"C13.expected", e.expected>> }
    [] e.op = "query" -> { <<"C13.settled", Settled(c, s)>>,
                           <<"C13.cost", \A i \in 1..Len(e.cost) : e.cost[i] = CostAt(c, s, e, i)>>,
                           <<"C13.gradient", \A i \in 1..Len(e.cost) : e.dcost[i] = GradAt(c, s, e, i)>>,
                           <<IF c.kind = "user" THEN "C13.user" ELSE IF c.kind = "none" \/ s.held = <<>> THEN "C13.one" ELSE "C13.learnt",
                             Len(e.cost) = Len(e.dm)>> }
    [] e.op = "acq"   -> { IF e.weighted THEN <<"C13.perunit", PerUnit(e, CostAt(c, s, e, 1), GradAt(c, s, e, 1))>> ELSE <<"C13.ignored", Same(e)>> }
    [] OTHER -> { <<"C13.raise", FALSE>> }
Post(c, s, e) ==
  CASE e.op = "eval"  -> [s EXCEPT !.buf = Append(@, <<Encode(c.space, e.x, c.U), e.k>>)]
    [] e.op = "train" -> [s EXCEPT !.timed = @ \o s.buf, !.buf = <<>>, !.held = Row(e.X, e.L), !.fits = @ + 1]
    [] e.op = "done"  -> [s EXCEPT !.timed = @ \o s.buf, !.buf = <<>>]
    [] e.op = "fail"  -> [s EXCEPT !.buf = <<>>]
    [] OTHER -> s
=============================================================================
