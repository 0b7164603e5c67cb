---------------------------- MODULE MC_Options -----------------------------
(* The constructor as a sequence of choices, each taken by going through    *)
(* the branches in order, against the declarative table of Options: every   *)
(* combination ends in an error exactly when the table says so, and with    *)
(* the components of the table otherwise.                                   *)
EXTENDS Options
CONSTANT Variant
VARIABLES o, ph, comp
vars == <<o, ph, comp>>
Base == [dom |-> "cont2", cons |-> FALSE, f |-> TRUE, data |-> "none", design |-> "default", n0 |-> -1, model |-> "GP", modelobj |-> "none",
         acq |-> "EI", acqobj |-> "none", ev |-> "sequential", b |-> 1, opt |-> "lbfgs", anchors |-> "default", transform |-> "default",
         kernel |-> FALSE, ARD |-> FALSE, exact |-> FALSE, noise |-> -1, mopt |-> "default", iters |-> -1, restarts |-> -1, inducing |-> -1,
         ns |-> -1, nb |-> -1, sub |-> -1, step |-> -1, leap |-> -1, jitter |-> -1, weight |-> -1, verbm |-> FALSE, norm |-> TRUE, maxi |-> FALSE,
         dedup |-> FALSE, interval |-> -1, cores |-> -1, name |-> "default", cost |-> "none", use |-> TRUE]
Init == /\ \E dom \in {"cont2", "ragged"}, f \in BOOLEAN, data \in {"none", "X", "XY"}, d \in {"default", "latin", "halton"}, cons \in BOOLEAN,
              m \in ModelNames \cup {"bad"}, mo \in {"none", "gp", "det", "mcmc"}, a \in PlainAcq \cup McmcAcq \cup {"None", "bad"}, ao \in {"none", "stub"},
              e \in EvNames \cup {"None", "bad"}, b \in 1..2, op \in {"lbfgs", "CMA", "bad"}, an \in {"default", "bad"} :
           \* faults of the first choices and of the later ones are explored separately
           /\ (dom = "ragged" \/ ~f \/ d # "default" \/ cons => m = "GP" /\ mo = "none" /\ ao = "none" /\ e \in {"sequential", "bad"} /\ op = "lbfgs" /\ an = "default" /\ a \in {"EI", "bad"})
           /\ (mo # "none" => m \in {"GP", "bad"}) /\ (ao # "none" => a \in {"EI", "bad"})
           /\ o = [Base EXCEPT !.dom = dom, !.f = f, !.data = data, !.design = d, !.cons = cons, !.model = m, !.modelobj = mo, !.acq = a, !.acqobj = ao,
                               !.ev = e, !.b = b, !.opt = op, !.anchors = an]
        /\ ph = "space" /\ comp = [model |-> "", acq |-> "", ev |-> "", rows |-> 0]
Fail == ph' = "build_error" /\ UNCHANGED <<o, comp>>
Go(p) == ph' = p /\ UNCHANGED <<o, comp>>
Space == ph = "space" /\ IF o.dom \in BadDomains THEN Fail ELSE Go("data")
DataStep == /\ ph = "data"
            /\ IF ~o.f /\ o.data \in {"none", "X", "Y"} THEN Fail
               ELSE IF o.data \in {"X", "XY"} THEN Go("model")
               ELSE IF Design(o) \notin Designs THEN Fail
               ELSE IF Design(o) # "random" /\ o.cons THEN Fail ELSE Go("model")
ModelStep == /\ ph = "model" /\ UNCHANGED o
             /\ LET m == IF o.modelobj # "none" THEN "user"
                         ELSE IF o.model = "GP" \/ o.model = "sparseGP" THEN "GPModel"
                         ELSE IF o.model = "GP_MCMC" THEN "GPModel_MCMC"
                         ELSE IF o.model = "warpedGP" THEN "WarpedGPModel"
                         ELSE IF o.model = "input_warped_GP" THEN "InputWarpedGPModel" ELSE "error" IN
                IF m = "error" THEN ph' = "build_error" /\ UNCHANGED comp ELSE ph' = "acq" /\ comp' = [comp EXCEPT !.model = m]
Mcmc == comp.model = "GPModel_MCMC" \/ o.modelobj = "mcmc"
AcqStep == /\ ph = "acq" /\ UNCHANGED o
           /\ LET a == IF o.acqobj # "none" THEN "user"
                       ELSE IF o.acq = "None" \/ o.acq = "EI" THEN "AcquisitionEI"
                       ELSE IF o.acq = "MPI" THEN "AcquisitionMPI"
                       ELSE IF o.acq = "LCB" THEN (IF Variant = "pairs" THEN "AcquisitionEI" ELSE "AcquisitionLCB")
                       ELSE IF o.acq \in McmcAcq THEN (IF Mcmc THEN "Acquisition" \o o.acq ELSE "error") ELSE "error" IN
              IF a = "error" THEN ph' = "build_error" /\ UNCHANGED comp ELSE ph' = "eval" /\ comp' = [comp EXCEPT !.acq = a]
ModelTypeName == IF o.modelobj # "none" THEN "User defined model used." ELSE o.model
EvalStep == /\ ph = "eval" /\ UNCHANGED o
            /\ LET e == IF (o.b = 1 /\ Variant # "first") \/ o.ev = "sequential" THEN "Sequential"
                        ELSE IF o.ev \in {"random", "None"} THEN "RandomBatch"
                        ELSE IF o.ev = "thompson_sampling" THEN "ThompsonBatch"
                        ELSE IF o.ev = "local_penalization" THEN (IF ModelTypeName \notin GPFamily THEN "error" ELSE "LocalPenalization")
                        ELSE IF Variant = "fallthrough" THEN "Sequential" ELSE "error" IN
               IF e = "error" THEN ph' = "build_error" /\ UNCHANGED comp
               ELSE ph' = "built" /\ comp' = [comp EXCEPT !.ev = e, !.rows = IF e = "Sequential" THEN 1 ELSE o.b]
Use == /\ ph = "built"
       /\ IF o.acqobj # "none" /\ comp.ev # "LocalPenalization" THEN Go("used")        \* a user-defined acquisition brings its own optimizer
          ELSE IF comp.ev # "ThompsonBatch" /\ (o.opt \notin {"lbfgs", "CMA", "DIRECT"} \/ o.anchors = "bad") THEN Go("use_error")
          ELSE IF Mcmc /\ comp.acq \in {"AcquisitionEI", "AcquisitionMPI", "AcquisitionLCB"} THEN Go("use_error") ELSE Go("used")
Next == Space \/ DataStep \/ ModelStep \/ AcqStep \/ EvalStep \/ Use
Spec == Init /\ [][Next]_vars
End == ph \in {"build_error", "use_error", "used"}
Table == End => CASE Outcome(o) = "no_build" -> ph = "build_error"
                  [] Outcome(o) = "no_use" -> ph = "use_error"
                  [] Outcome(o) = "ok" -> /\ ph = "used" /\ <<"model.cls", comp.model>> \in ExpModel(o) /\ <<"acq.cls", comp.acq>> \in ExpAcq(o)
                                          /\ <<"eval.cls", comp.ev>> \in ExpEval(o) /\ <<"use.rows", ToString(comp.rows)>> \in ExpUse(o)
                  [] OTHER -> TRUE
OneAtATime == (ph = "used" /\ o.b = 1) => comp.ev = "Sequential" /\ comp.rows = 1
NeverAnotherOne == ph = "used" => /\ (o.acqobj = "none" => comp.acq = "Acquisition" \o AcqName(o))
                                  /\ (o.b > 1 /\ o.ev # "sequential" => o.ev \in EvNames \cup {"None"} /\ comp.ev # "Sequential")
=============================================================================
