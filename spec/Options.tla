------------------------------ MODULE Options ------------------------------
(***************************************************************************)
(* Which components an optimizer built with BayesianOptimization(..)        *)
(* consists of, as a function of the options; and which choices are         *)
(* rejected.  An option record o has the fields of Gen_Options!Case; -1 and *)
(* "default" stand for options that are not given.                          *)
(* Observation: [op |-> "build", built, used, got]: did construction raise, *)
(* did the first suggestion raise, and the components found (strings).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

GPFamily   == {"GP", "sparseGP", "GP_MCMC", "warpedGP"}
ModelNames == GPFamily \cup {"input_warped_GP"}
PlainAcq   == {"EI", "MPI", "LCB"}
McmcAcq    == {"EI_MCMC", "MPI_MCMC", "LCB_MCMC"}
EvNames    == {"sequential", "random", "local_penalization", "thompson_sampling"}
Designs    == {"random", "latin", "sobol", "grid"}
BadDomains == {"mixbandit", "ragged", "nodomain", "badtype"}

UserModel(o) == o.modelobj # "none"
UserAcq(o)   == o.acqobj # "none"
Sampled(o)   == o.modelobj = "mcmc" \/ (~UserModel(o) /\ o.model = "GP_MCMC")
ModelDim(o)  == IF o.dom = "cont1" \/ o.dom = "disc" THEN 1 ELSE 2
AcqName(o)   == IF o.acq = "None" THEN "EI" ELSE o.acq
EvName(o)    == IF o.ev = "None" THEN "random" ELSE o.ev
Batched(o)   == o.b > 1 /\ o.ev # "sequential"
Design(o)    == IF o.design = "default" THEN "random" ELSE o.design
Needed(o)    == o.data \in {"none", "Y"}                  \* an initial design has to be drawn

\* ---- why a combination of options has to be rejected ----
BuildFaults(o) ==
  (IF o.dom \in BadDomains THEN {"domain"} ELSE {}) \cup
  (IF ~o.f /\ o.data # "XY" THEN {"nodata"} ELSE {}) \cup
  (IF o.f /\ Needed(o) /\ Design(o) \notin Designs THEN {"design"} ELSE {}) \cup
  (IF o.f /\ Needed(o) /\ o.cons /\ Design(o) # "random" THEN {"design_constraints"} ELSE {}) \cup
  (IF ~UserModel(o) /\ o.model \notin ModelNames THEN {"model"} ELSE {}) \cup
  (IF ~UserAcq(o) /\ AcqName(o) \notin PlainAcq \cup McmcAcq THEN {"acquisition"} ELSE {}) \cup
  (IF ~UserAcq(o) /\ AcqName(o) \in McmcAcq /\ ~Sampled(o) THEN {"integrated"} ELSE {}) \cup
  (IF Batched(o) /\ EvName(o) \notin EvNames THEN {"evaluator"} ELSE {}) \cup
  (IF Batched(o) /\ EvName(o) = "local_penalization" /\ ~UserModel(o) /\ o.model \notin GPFamily THEN {"penalization"} ELSE {}) \cup
  (IF Batched(o) /\ EvName(o) = "local_penalization" /\ o.modelobj \in {"det", "mcmc"} THEN {"penalization"} ELSE {})
\* ... at the latest when the first suggestion is asked for
UseFaults(o) ==
  (IF o.opt \notin {"lbfgs", "CMA", "DIRECT"} THEN {"optimizer"} ELSE {}) \cup
  (IF o.anchors \notin {"default", "max_objective", "thompson_sampling"} THEN {"anchors"} ELSE {}) \cup
  (IF ~UserAcq(o) /\ AcqName(o) \in PlainAcq /\ Sampled(o) THEN {"plain"} ELSE {})
\* combinations whose rejection is neither promised nor excluded
Unclear(o) ==
  \/ o.data = "Y" /\ o.f
  \/ ~Batched(o) /\ o.ev \notin EvNames \cup {"None"}
  \/ Batched(o) /\ EvName(o) = "local_penalization" /\ (o.modelobj = "gp" \/ Sampled(o))
  \/ Batched(o) /\ EvName(o) = "local_penalization" /\ UserAcq(o) /\ UserModel(o)
  \/ Batched(o) /\ EvName(o) = "thompson_sampling" /\ (Sampled(o) \/ o.modelobj \in {"det", "mcmc"} \/ UserAcq(o) \/ o.model = "warpedGP" \/ o.opt # "lbfgs" \/ o.anchors # "default")
  \/ o.anchors = "thompson_sampling" /\ (Sampled(o) \/ o.cons)
  \/ o.opt = "DIRECT"
  \/ o.opt = "CMA" /\ ModelDim(o) = 1
  \/ o.cost = "time" /\ ~o.f
  \/ UserAcq(o) /\ UseFaults(o) # {}
Outcome(o) == IF Unclear(o) THEN "either" ELSE IF BuildFaults(o) # {} THEN "no_build" ELSE IF UseFaults(o) # {} THEN "no_use" ELSE "ok"

\* ---- the components of an accepted combination ----
Dflt(v, d) == IF v = -1 THEN ToString(d) ELSE ToString(v)
Str(v, d)  == IF v = "default" THEN d ELSE v
B(v)       == IF v THEN "yes" ELSE "no"
ModelClass(m) == CASE m \in {"GP", "sparseGP"} -> "GPModel" [] m = "GP_MCMC" -> "GPModel_MCMC"
                   [] m = "warpedGP" -> "WarpedGPModel" [] m = "input_warped_GP" -> "InputWarpedGPModel" [] OTHER -> "error"
EvClass(o) == IF ~Batched(o) THEN "Sequential"
              ELSE CASE EvName(o) = "random" -> "RandomBatch" [] EvName(o) = "thompson_sampling" -> "ThompsonBatch"
                     [] EvName(o) = "local_penalization" -> "LocalPenalization" [] OTHER -> "error"
AcqClass(o) == "Acquisition" \o AcqName(o)

ExpModel(o) ==
  IF UserModel(o) THEN { <<"model.cls", "user">> }
  ELSE { <<"model.cls", ModelClass(o.model)>>, <<"model.noise", ToString(o.noise)>>, <<"model.exact", B(o.exact)>>,
         <<"model.kernel", IF o.kernel THEN "user" ELSE "default">>, <<"model.verbose", B(o.verbm)>> }
   \cup (IF o.model = "GP_MCMC"
         THEN { <<"model.n_samples", Dflt(o.ns, 10)>>, <<"model.n_burnin", Dflt(o.nb, 100)>>, <<"model.subsample_interval", Dflt(o.sub, 10)>>,
                <<"model.step_size", Dflt(o.step, 100)>>, <<"model.leapfrog_steps", Dflt(o.leap, 20)>> }
         ELSE { <<"model.optimizer", Str(o.mopt, "lbfgs")>>, <<"model.max_iters", Dflt(o.iters, 1000)>>, <<"model.optimize_restarts", Dflt(o.restarts, 5)>> })
   \cup (IF o.model \in {"GP", "sparseGP", "input_warped_GP"} THEN { <<"model.ARD", B(o.ARD)>> } ELSE {})
   \cup (IF o.model \in {"GP", "sparseGP"} THEN { <<"model.sparse", B(o.model = "sparseGP")>>, <<"model.num_inducing", Dflt(o.inducing, 10)>> } ELSE {})
ExpAcq(o) ==
  IF UserAcq(o) THEN { <<"acq.cls", "user">> }
  ELSE { <<"acq.cls", AcqClass(o)>>, <<"acq.own", "yes">>,
         <<"acq.cost", IF AcqName(o) \in {"LCB", "LCB_MCMC"} THEN "none" ELSE o.cost>> }
   \cup (IF AcqName(o) \in {"LCB", "LCB_MCMC"} THEN { <<"acq.weight", Dflt(o.weight, 2000)>> } ELSE { <<"acq.jitter", Dflt(o.jitter, 10)>> })
LPTransform(o) == IF o.transform # "default" /\ o.transform # "none" THEN o.transform
                  ELSE IF (UserAcq(o) /\ o.acqobj = "lcb") \/ (~UserAcq(o) /\ AcqName(o) \in {"LCB", "LCB_MCMC"}) THEN "softplus" ELSE "none"
ExpEval(o) ==
  { <<"eval.cls", EvClass(o)>>, <<"eval.acq", IF EvClass(o) = "LocalPenalization" THEN "wrapped" ELSE "same">>, <<"eval.size", ToString(IF Batched(o) THEN o.b ELSE 1)>> }
  \cup (IF EvClass(o) = "LocalPenalization" THEN { <<"eval.transform", LPTransform(o)>> } ELSE {})
ExpRest(o) ==
  { <<"bo.norm", B(o.norm)>>, <<"bo.interval", Dflt(o.interval, 1)>>, <<"bo.dedup", B(o.dedup)>>,
    <<"bo.cost", o.cost>>, <<"bo.constraints", IF o.cons THEN "1" ELSE "0">>,
    <<"opt.name", o.opt>>, <<"opt.anchors", IF o.anchors = "default" THEN "max_objective" ELSE o.anchors>> }
  \cup (IF o.f THEN { <<"obj.cores", Dflt(o.cores, 1)>>, <<"obj.name", Str(o.name, "no_name")>> } ELSE { <<"obj", "none">> })
  \cup (IF o.data = "none" THEN { <<"data.design", Design(o)>> } \cup (IF Design(o) = "grid" THEN {} ELSE { <<"data.rows", Dflt(o.n0, 5)>> })
        ELSE { <<"data.rows", "4">>, <<"data.x", "given">>, <<"data.evaluated", IF o.data = "XY" THEN "no" ELSE "yes">> })
  \cup (IF o.data = "XY" THEN { <<"data.y", "given">> } ELSE { <<"data.sign", IF o.maxi THEN "minus" ELSE "plus">> })
\* what the first suggestion shows
Fitted(o) == ~UserModel(o)
\* a user-defined acquisition comes with an acquisition optimizer (the harness gives it the default one)
OwnOpt(o) == UserAcq(o) /\ EvClass(o) # "LocalPenalization"
ExpUse(o) ==
  { <<"use.rows", ToString(IF Batched(o) THEN o.b ELSE 1)>>, <<"use.norm", B(o.norm)>>,
    <<"use.optimizer", IF OwnOpt(o) \/ EvClass(o) = "ThompsonBatch" \/ o.opt = "lbfgs" THEN "OptLbfgs" ELSE "OptCma">>,
    <<"use.anchors", IF EvClass(o) = "ThompsonBatch" \/ (~OwnOpt(o) /\ o.anchors = "thompson_sampling") THEN "ThompsonSamplingAnchorPointsGenerator" ELSE "ObjectiveAnchorPointsGenerator">> }
  \cup (IF Fitted(o) THEN { <<"use.noise", IF o.exact THEN "fixed" ELSE "free">>, <<"use.kernel", IF o.kernel THEN "user" ELSE IF o.model = "GP_MCMC" THEN "rbf" ELSE "Mat52">> } ELSE {})
  \cup (IF Fitted(o) /\ o.model \in {"GP", "sparseGP"}
        THEN { <<"use.lengthscales", ToString(IF o.ARD /\ ~o.kernel THEN ModelDim(o) ELSE 1)>>,
               <<"use.fit", IF o.iters = 0 THEN "none" ELSE Str(o.mopt, "lbfgs") \o "/" \o Dflt(o.iters, 1000) \o "/" \o Dflt(o.restarts, 5)>>,
               <<"use.gp", IF o.model = "GP" THEN "GPRegression" ELSE "SparseGPRegression">> } ELSE {})
  \cup (IF Fitted(o) /\ o.model = "GP_MCMC"
        THEN { <<"use.hmc", Dflt(o.step, 100) \o "/" \o ToString((IF o.nb = -1 THEN 100 ELSE o.nb) + (IF o.ns = -1 THEN 10 ELSE o.ns) * (IF o.sub = -1 THEN 10 ELSE o.sub)) \o "/" \o Dflt(o.leap, 20)>>,
               <<"use.samples", Dflt(o.ns, 10)>> } ELSE {})
  \cup (IF Fitted(o) /\ o.model = "sparseGP" THEN { <<"use.inducing", "min">> } ELSE {})

Has(got, pairs) == \A p \in pairs : p[1] \in DOMAIN got /\ got[p[1]] = p[2]
Missing(got, pairs) == {p \in pairs : ~(p[1] \in DOMAIN got /\ got[p[1]] = p[2])}

Clauses(o, e) ==
  CASE e.op = "build" ->
    LET w == Outcome(o) IN
    CASE w = "no_build" -> { <<"C17.reject." \o (CHOOSE x \in BuildFaults(o) : TRUE), ~e.built>> }
      [] w = "no_use" -> { <<"C17.reject." \o (CHOOSE x \in UseFaults(o) : TRUE), ~e.built \/ e.used = "error" \/ (e.used = "no" /\ ~o.use)>> }
      [] w = "either" -> { <<"C17.either", TRUE>> }
      [] OTHER ->
         { <<"C17.accept", e.built /\ e.used # "error">> }
         \cup (IF ~e.built THEN {}
               ELSE { <<"C17.model." \o (IF UserModel(o) THEN "user" ELSE o.model), Has(e.got, ExpModel(o))>>, <<"C17.acq." \o (IF UserAcq(o) THEN "user" ELSE AcqName(o)), Has(e.got, ExpAcq(o))>>,
                      <<"C17.eval." \o EvClass(o), Has(e.got, ExpEval(o))>>, <<"C17.rest", Has(e.got, ExpRest(o))>> })
         \cup (IF e.used = "yes" THEN { <<"C17.use", Has(e.got, ExpUse(o))>> } ELSE {})
    [] OTHER -> { <<"C17.raise", FALSE>> }
=============================================================================
