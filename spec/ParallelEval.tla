---------------------------- MODULE ParallelEval ----------------------------
(***************************************************************************)
(* Evaluation of a batch of N locations by P worker processes.              *)
(*                                                                         *)
(* Worker w gets the locations w, w+P, w+2P, ... (strided), evaluates them  *)
(* in order and then sends all its results through its pipe; the pipe       *)
(* holds nothing (a send completes when the caller reads, or fails when the *)
(* reading end is closed): the worst case for deadlocks.  A worker may die  *)
(* or raise before any step (Faults).  The caller starts the workers, reads *)
(* the pipes in order, and when one of them is broken abandons the parallel *)
(* evaluation and evaluates the whole batch itself.  A location in Errs     *)
(* makes the objective raise in every process.                              *)
(*                                                                         *)
(* JoinFirst (waiting for the workers before reading) and NoEOF (the caller *)
(* keeps the writing ends open, so a dead worker is never noticed) are the  *)
(* two classic mistakes; TLC shows that both break termination.             *)
(***************************************************************************)
EXTENDS EvalObs
CONSTANTS NMax, PMax, MaxFaults, JoinFirst, NoEOF
VARIABLES N, P, Errs,
          wst,     \* worker state: "new", "run", "send", "done", "dead"
          wpos,    \* locations evaluated by the worker
          open,    \* reading end of its pipe still open
          faults, cst, cpos, got, out, evals
vars == <<N, P, Errs, wst, wpos, open, faults, cst, cpos, got, out, evals>>
W == 1..P
\* locations of worker w, 1-based
Locs(w) == LET m == IF w > N THEN 0 ELSE ((N - w) \div P) + 1 IN [i \in 1..m |-> w + (i - 1) * P]
F(x) == 10 * x
Init == /\ N \in 1..NMax /\ P \in 2..PMax
        /\ Errs \in {{}} \cup {{x} : x \in 1..N}
        /\ wst = [w \in W |-> "new"] /\ wpos = [w \in W |-> 0] /\ open = [w \in W |-> TRUE]
        /\ faults = 0 /\ cst = "start" /\ cpos = 1 /\ got = {} /\ out = <<>> /\ evals = [x \in 1..N |-> 0]
Und == UNCHANGED <<N, P, Errs>>
\* ---- caller
Start == /\ cst = "start" /\ wst[cpos] = "new"
         /\ wst' = [wst EXCEPT ![cpos] = "run"]
         /\ IF cpos = P THEN cst' = (IF JoinFirst THEN "join0" ELSE "read") /\ cpos' = 1 ELSE cst' = cst /\ cpos' = cpos + 1
         /\ UNCHANGED <<wpos, open, faults, got, out, evals>> /\ Und
Ended(w) == wst[w] \in {"done", "dead"}
Join0 == /\ cst = "join0" /\ Ended(cpos)
         /\ IF cpos = P THEN cst' = "read" /\ cpos' = 1 ELSE cst' = cst /\ cpos' = cpos + 1
         /\ UNCHANGED <<wst, wpos, open, faults, got, out, evals>> /\ Und
Read == /\ cst = "read" /\ wst[cpos] = "send"
        /\ wst' = [wst EXCEPT ![cpos] = "done"]
        /\ got' = got \cup {cpos}
        /\ IF cpos = P THEN cst' = "close" /\ cpos' = 1 ELSE cst' = cst /\ cpos' = cpos + 1
        /\ UNCHANGED <<wpos, open, faults, out, evals>> /\ Und
Broken == /\ cst = "read" /\ wst[cpos] = "dead" /\ ~NoEOF
          /\ cst' = "close" /\ cpos' = 1
          /\ UNCHANGED <<wst, wpos, open, faults, got, out, evals>> /\ Und
Close == /\ cst = "close" /\ open' = [w \in W |-> FALSE] /\ cst' = "join"
         /\ UNCHANGED <<wst, wpos, faults, cpos, got, out, evals>> /\ Und
Join == /\ cst = "join" /\ Ended(cpos)
        /\ IF cpos < P THEN cst' = cst /\ cpos' = cpos + 1
           ELSE IF got = W THEN cst' = "finish" /\ cpos' = 1 ELSE cst' = "alone" /\ cpos' = 1
        /\ UNCHANGED <<wst, wpos, open, faults, got, out, evals>> /\ Und
Finish == /\ cst = "finish" /\ out' = [x \in 1..N |-> F(x)] /\ cst' = "returned"
          /\ UNCHANGED <<wst, wpos, open, faults, cpos, got, evals>> /\ Und
\* fall back: evaluate everything in the calling process
Alone == /\ cst = "alone"
         /\ IF cpos \in Errs THEN cst' = "raised" /\ out' = out /\ cpos' = cpos
            ELSE /\ out' = Append(out, F(cpos))
                 /\ IF cpos = N THEN cst' = "returned" /\ cpos' = cpos ELSE cst' = cst /\ cpos' = cpos + 1
         /\ UNCHANGED <<wst, wpos, open, faults, got, evals>> /\ Und
\* ---- workers
Work(w) == /\ wst[w] = "run"
           /\ IF wpos[w] = Len(Locs(w)) THEN wst' = [wst EXCEPT ![w] = "send"] /\ UNCHANGED <<wpos, evals>>
              ELSE LET x == Locs(w)[wpos[w] + 1] IN
                   IF x \in Errs THEN wst' = [wst EXCEPT ![w] = "dead"] /\ UNCHANGED <<wpos, evals>>
                   ELSE wpos' = [wpos EXCEPT ![w] = @ + 1] /\ evals' = [evals EXCEPT ![x] = @ + 1] /\ wst' = wst
           /\ UNCHANGED <<open, faults, cst, cpos, got, out>> /\ Und
SendFails(w) == /\ wst[w] = "send" /\ ~open[w] /\ wst' = [wst EXCEPT ![w] = "dead"]
                /\ UNCHANGED <<wpos, open, faults, cst, cpos, got, out, evals>> /\ Und
Die(w) == /\ wst[w] \in {"run", "send"} /\ faults < MaxFaults
          /\ wst' = [wst EXCEPT ![w] = "dead"] /\ faults' = faults + 1
          /\ UNCHANGED <<wpos, open, cst, cpos, got, out, evals>> /\ Und
Caller == Start \/ Join0 \/ Read \/ Broken \/ Close \/ Join \/ Finish \/ Alone
Next == Caller \/ \E w \in W : Work(w) \/ SendFails(w) \/ Die(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Caller) /\ \A w \in 1..PMax : WF_vars(w \in W /\ (Work(w) \/ SendFails(w)))
Ends == <>(cst \in {"returned", "raised"})
Right == cst = "returned" => out = [x \in 1..N |-> F(x)] /\ Errs = {}
RaisedOnlyIfError == cst = "raised" => Errs # {}
Once == cst = "returned" /\ got = W => \A x \in 1..N : evals[x] = 1
AtMostOnceInWorkers == \A x \in 1..N : evals[x] <= 1
\* every final state of the design satisfies the clauses that recorded executions are judged by
Ev == [op |-> "eval", n |-> N, P |-> P, err |-> [x \in 1..N |-> x \in Errs], fault |-> got # W, slow |-> FALSE,
       outcome |-> IF cst = "returned" THEN "ok" ELSE "error", out |-> out, cols |-> 1, want |-> [x \in 1..N |-> F(x)],
       child |-> evals, caller |-> IF got = W THEN <<>> ELSE Upto(cpos), pids |-> Cardinality({w \in W : wpos[w] > 0})]
Observed == cst \in {"returned", "raised"} => \A k \in Clauses(Ev) : k[2]
NoLeak == cst \in {"returned", "raised"} => \A w \in W : Ended(w)
=============================================================================
