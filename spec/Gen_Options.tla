---------------------------- MODULE Gen_Options ----------------------------
(* Combinations of options, most of them acceptable.                        *)
EXTENDS Options, Json
CONSTANTS PerRun
VARIABLES n, out
Pick(S) == RandomElement(IF n >= 0 THEN S ELSE {})
Chance(k) == Pick(1..100) <= k
\* a good value most of the time, else one of the others
Mostly(p, G, A) == TLCEval(IF Chance(p) THEN Pick(G) ELSE Pick(A))
Opt1(p, A) == Mostly(p, {-1}, A)
Case(i) ==
  LET dom == Mostly(93, {"cont1", "cont2", "mixed", "disc", "bandit"}, BadDomains)
      mo  == Mostly(80, {"none"}, {"gp", "det", "mcmc"})
      model == Mostly(95, IF Chance(8) THEN {"warpedGP", "input_warped_GP"} ELSE {"GP", "GP", "sparseGP", "GP_MCMC"}, {"gp", "RandomForest", "", "None"})
      smp == mo = "mcmc" \/ (mo = "none" /\ model = "GP_MCMC")
      data == Mostly(98, {"none", "XY", "X"}, {"Y"})
      f == Mostly(IF data = "XY" THEN 60 ELSE 95, {TRUE}, {FALSE})
      acq == Mostly(93, IF smp THEN McmcAcq ELSE PlainAcq \cup {"None"}, PlainAcq \cup McmcAcq \cup {"ei", "UCB", "", "EI "})
      acqobj == Mostly(85, {"none"}, IF mo = "gp" THEN {"ei", "lcb", "stub", "nograd"} ELSE {"stub", "nograd"})
      bad == [ dom |-> dom, cons |-> TLCEval(dom = "cont2" /\ Chance(30)), f |-> f, data |-> data,
      design |-> Mostly(90, {"default", "random", "latin", "sobol", "grid"}, {"Latin", "halton", ""}), n0 |-> Opt1(40, {2, 3, 4, 9}),
      model |-> model, modelobj |-> mo, acq |-> acq, acqobj |-> acqobj,
      ev |-> Mostly(93, EvNames \cup {"None"}, {"batch", "lp", "", "Random"}), b |-> Pick(1..4),
      opt |-> Mostly(93, {"lbfgs", "lbfgs", "CMA"}, {"LBFGS", "bfgs", "DIRECT", ""}),
      anchors |-> Mostly(94, {"default", "default", "default", "max_objective", "thompson_sampling"}, {"thompson", "MAX", ""}),
      transform |-> Pick({"default", "none", "softplus", "identity"}),
      kernel |-> TLCEval(Chance(20)), ARD |-> TLCEval(Chance(30)), exact |-> TLCEval(Chance(30)), noise |-> Opt1(70, {1, 5, 100}),
      mopt |-> Mostly(50, {"default"}, {"bfgs", "scg", "lbfgs"}), iters |-> Opt1(50, {0, 1, 3, 500}), restarts |-> Opt1(50, {1, 2, 3}),
      inducing |-> Opt1(40, {1, 2, 3, 20}), ns |-> Opt1(40, {1, 2, 5}), nb |-> Opt1(40, {0, 3, 50}), sub |-> Opt1(40, {1, 2, 5}),
      step |-> Opt1(50, {10, 50, 200}), leap |-> Opt1(50, {1, 3, 30}), jitter |-> Opt1(50, {0, 1, 100, 1000}), weight |-> Opt1(50, {0, 500, 3000}),
      verbm |-> TLCEval(Chance(20)), norm |-> TLCEval(Chance(60)), maxi |-> TLCEval(Chance(40)), dedup |-> TLCEval(Chance(20)),
      interval |-> Opt1(50, {1, 2, 3, 7}), cores |-> Opt1(60, {1, 2, 3}), name |-> Mostly(50, {"default"}, {"branin", "no name"}),
      cost |-> Mostly(60, {"none"}, {"user", "time"}), use |-> TRUE ]
      o == TLCEval([bad EXCEPT !.design = IF bad.cons /\ Chance(70) THEN "random" ELSE @,
                               !.opt = IF ModelDim(bad) = 1 /\ @ = "CMA" /\ Chance(80) THEN "lbfgs" ELSE @,
                               !.anchors = IF Chance(85) /\ (Sampled(bad) \/ bad.cons \/ bad.ev = "thompson_sampling" \/ UserAcq(bad)) THEN "default" ELSE @,
                               !.cost = IF ~bad.f /\ @ = "time" THEN "user" ELSE @,
                               !.ev = IF Chance(85) /\ ((bad.ev = "local_penalization" /\ (Sampled(bad) \/ UserModel(bad))) \/ (bad.ev = "thompson_sampling" /\ (Sampled(bad) \/ UserModel(bad) \/ UserAcq(bad) \/ bad.model = "warpedGP" \/ bad.opt # "lbfgs"))) THEN "random" ELSE @,
                               !.use = bad.modelobj # "none" \/ bad.model \notin {"warpedGP", "input_warped_GP"}]) IN
  [c |-> o, seed |-> TLCEval(Pick(1..100000))]
Init == n = 0 /\ out = <<>>
Next == n < PerRun /\ n' = n + 1 /\ out' = TLCEval(Case(n))
Spec == Init /\ [][Next]_<<n, out>>
Emit == n > 0 => PrintT(ToJson(out))
=============================================================================
