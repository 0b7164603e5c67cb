-------------------------- MODULE Gen_SurrogateUse --------------------------
(* Sequences of updates, queries and copies.                                *)
EXTENDS SurrogateUse, Json
CONSTANTS PerRun, MaxOps
VARIABLES n, out
Pick(S) == RandomElement(IF n >= 0 THEN S ELSE {})
Chance(k) == Pick(1..100) <= k
GPKinds == {"gp", "gp_ard", "gp_exact", "gp_kernel", "gp_mean", "gp_one", "gp_noiter", "gp_noise", "gp_tiny", "gp_flat", "sparse", "sparse_one"}
McKinds == {"mcmc", "mcmc_exact", "mcmc_kernel"}
Queries(mc) == {"predict", "gradients", "fmin", "params"} \cup (IF mc THEN {} ELSE {"noiseless", "covariance", "between"})
\* x: one of the fixed query sets; 1-dimensional ones included
RECURSIVE Ops(_, _, _, _)
Ops(k, nm, mc, acc) ==
  IF k = 0 THEN acc
  ELSE LET r == TLCEval(Pick(1..100))  m == TLCEval(Pick(1..nm)) IN
       IF r <= 15 THEN Ops(k - 1, nm, mc, TLCEval(Append(acc, [op |-> "update", m |-> m, d |-> TLCEval(Pick(1..8))])))
       ELSE IF r <= 27 /\ nm < 3 THEN Ops(k - 1, nm + 1, mc, TLCEval(Append(acc, [op |-> "copy", m |-> m])))
       ELSE Ops(k - 1, nm, mc, TLCEval(Append(acc, [op |-> "query", m |-> m, kind |-> TLCEval(Pick(Queries(mc))), x |-> TLCEval(Pick(1..5))])))
Case == LET mc == TLCEval(Chance(30))  kind == TLCEval(Pick(IF mc THEN McKinds ELSE GPKinds)) IN
  [kind |-> kind, mc |-> mc, dim |-> TLCEval(Pick(1..2)), samples |-> TLCEval(IF mc THEN Pick({1, 2, 3, 3, 12}) ELSE 1), seed |-> TLCEval(Pick(1..100000)),
   ops |-> TLCEval(Ops(TLCEval(Pick(4..MaxOps)), 1, mc, <<[op |-> "update", m |-> 1, d |-> TLCEval(Pick(1..8))]>>))]
Init == n = 0 /\ out = <<>>
Next == n < PerRun /\ n' = n + 1 /\ out' = TLCEval(Case)
Spec == Init /\ [][Next]_<<n, out>>
Emit == n > 0 => PrintT(ToJson(out))
=============================================================================
