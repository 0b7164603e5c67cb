------------------------------ MODULE EvalObs -------------------------------
(***************************************************************************)
(* What a caller can observe of one batch evaluation (C12).                 *)
(* Event: n locations, P configured processes, err[x] the objective raises  *)
(* at location x in every process, fault: some worker died or raised,       *)
(* outcome "ok" / "error" (the error of the objective) / other,             *)
(* out the returned values, want the right ones, cols the number of output  *)
(* columns, child[x] how often x was evaluated in a worker, caller the      *)
(* locations evaluated in the calling process in order, pids the number of  *)
(* distinct workers that evaluated something, slow: every evaluation takes  *)
(* long enough for all the workers to be at work.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
MinI(a, b) == IF a < b THEN a ELSE b
HasErr(e) == \E x \in 1..e.n : e.err[x]
FirstErr(e) == CHOOSE x \in 1..e.n : e.err[x] /\ \A y \in 1..(x - 1) : ~e.err[y]
Upto(m) == [i \in 1..m |-> i]
\* the batch has to be evaluated in the calling process
Solo(e) == e.P = 1 \/ e.fault \/ HasErr(e)
Clauses(e) ==
  CASE e.op = "eval" ->
         { <<"C12.ends", e.outcome # "timeout">>,
           IF HasErr(e) THEN <<"C12.error", e.outcome = "error">>
           ELSE <<"C12.value", e.outcome = "ok" /\ e.out = e.want /\ e.cols = 1>> }
         \cup (IF Solo(e)
               THEN { <<IF e.P = 1 THEN "C12.sequential" ELSE "C12.fallback",
                       e.caller = Upto(IF HasErr(e) THEN FirstErr(e) ELSE e.n)>> }
               ELSE { <<"C12.once", Len(e.caller) + FoldLeft(LAMBDA a, b : a + b, 0, e.child) = e.n
                                    /\ \A x \in 1..e.n : e.child[x] <= 1>> })
         \cup { <<"C12.once", \A x \in 1..e.n : e.child[x] <= IF e.P = 1 THEN 0 ELSE 1>>,
                <<"C12.procs", e.pids <= IF e.P = 1 THEN 0 ELSE e.P>> }
         \cup (IF ~Solo(e) /\ e.slow THEN { <<"C12.procs", e.pids = MinI(e.P, e.n) /\ e.caller = <<>> >> } ELSE {})
    [] e.op = "run" ->
         \* a whole optimization: the same locations and values as with one process, the configured number of workers
         { <<"C12.run", e.sameX /\ e.sameY /\ e.n = e.total>>,
           <<"C12.procs", \A i \in 1..Len(e.pids) : e.pids[i] = IF e.P = 1 THEN 0 ELSE MinI(e.P, e.sizes[i])>> }
    [] OTHER -> { <<"C12.raise", FALSE>> }
=============================================================================
