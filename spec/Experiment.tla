----------------------------- MODULE Experiment -----------------------------
(***************************************************************************)
(* A configured experiment (C24): configuration file -> objective loader -> *)
(* driver -> finished optimizer.                                            *)
(* Configuration c:                                                         *)
(*   space, U (as in DesignSpace), cons (bounds x[k] <= v)                  *)
(*   dtype, n     initial design and requested number of locations         *)
(*   model [type, sparse, ninduce, miters, restarts, exact, ard, noise, mopt, *)
(*                verbose], acq [type, jit, w], opt, ev [type, b], cores *)
(*   mi (iterations, -2 unlimited), mt (seconds, -2 unlimited), tol         *)
(*   invalid      "" or what is wrong with the configuration                *)
(* Events:                                                                  *)
(*   eval  names (sequence of [n, w]: argument names and widths), x the     *)
(*         coordinates in the order of the configured variables, y, dt      *)
(*         (seconds), near (distance to the previous location in 1/1000 of  *)
(*         the tolerance, capped), P (positions of the continuous           *)
(*         coordinates in their bounds, in units of 1/Q)                    *)
(*   built comps  components of the optimizer that was run                  *)
(*   end   X, Y   its history                                               *)
(*   files evals, models   numbers of rows of the saved files, evals equal  *)
(*   raise kind                                                             *)
(* State s: ph, X, Y (completed evaluations), P, near, buf (evaluations of  *)
(*   the batch being made), it (acquisitions), el (seconds since the        *)
(*   initial design was evaluated).                                         *)
(***************************************************************************)
EXTENDS DesignSpace
D == INSTANCE InitDesign
S0 == [ph |-> "init", X |-> <<>>, Y |-> <<>>, P |-> <<>>, near |-> 0, buf |-> 0, it |-> 0, el |-> 0]

N0(c) == D!Size(c.space, c.dtype, c.n)
Batch(c) == IF c.ev.type = "sequential" THEN 1 ELSE c.ev.b
Holds(k, x) == x[k.i] <= k.v
Feasible(c, x) == \A i \in 1..Len(c.cons) : Holds(c.cons[i], x)

BudgetUp(c, s) == (c.mi # -2 /\ s.it >= c.mi) \/ (c.mt # -2 /\ s.el >= c.mt)
Close(c, s)  == Len(s.X) > 1 /\ s.near <= 1010          \* may be taken for converged
Closer(c, s) == Len(s.X) > 1 /\ s.near < 990            \* has to be
\* a run (after the initial design) may stop here / may go on here
MayStop(c, s) == BudgetUp(c, s) \/ Close(c, s)
MayGo(c, s)   == ~BudgetUp(c, s) /\ ~Closer(c, s)

DesignOK(c, P) ==
  LET d == D!NCont(c.space) IN
  d = 0 \/ CASE c.dtype = "latin" -> D!LatinOK(P, c.n, d)
             [] c.dtype = "sobol" -> D!SobolOK(P, c.n, d)
             [] c.dtype = "grid"  -> D!GridOK(P, c.n, d)
             [] OTHER -> TRUE

\* the arguments the objective has to be called with
Args(space) == {<<space[i].name, IF space[i].t = "bandit" THEN Len(space[i].arms[1]) ELSE space[i].dim>> : i \in 1..Len(space)}
GotArgs(names) == {<<names[i].n, names[i].w>> : i \in 1..Len(names)}

Comps(c) == [model |-> c.model.type, sparse |-> c.model.sparse, ninduce |-> c.model.ninduce, miters |-> c.model.miters, restarts |-> c.model.restarts,
             exact |-> c.model.exact, ard |-> c.model.ard, noise |-> c.model.noise, mopt |-> c.model.mopt, verbose |-> c.model.verbose,
             acq |-> c.acq.type, jit |-> IF c.acq.type = "LCB" THEN -1 ELSE c.acq.jit, w |-> IF c.acq.type = "LCB" THEN c.acq.w ELSE -1,
             opt |-> c.opt, ev |-> c.ev.type, b |-> Batch(c), cores |-> c.cores]

Clauses(c, s, e) ==
  CASE e.op = "eval" ->
         { <<"C24.valid", c.invalid \in {"", "objective", "optimizer"}>>,
           <<"C24.arguments", GotArgs(e.names) = Args(c.space) /\ Len(e.names) = Len(c.space)>>,
           <<"C24.legal", Legal(c.space, e.x) /\ (Len(e.x) = ObjDim(c.space) => Feasible(c, e.x))>>,
           <<"C24.goes_on", IF s.ph = "init" THEN Len(s.X) < N0(c) ELSE s.buf > 0 \/ MayGo(c, s)>> }
         \cup (IF s.ph = "init" /\ Len(s.X) + 1 = N0(c) THEN { <<"C24.design", DesignOK(c, Append(s.P, e.P))>> } ELSE {})
    [] e.op = "built" -> { <<"C24.components", e.comps = Comps(c)>> }
    [] e.op = "end" ->
         { <<"C24.invalid", c.invalid = "">>,
           <<"C24.history", e.X = s.X /\ e.Y = s.Y>>,
           <<"C24.initial", s.ph # "init">>,
           <<"C24.stops", s.ph = "init" \/ (s.buf = 0 /\ MayStop(c, s))>> }
    [] e.op = "files" -> { <<"C24.files", e.evals = Len(s.X) /\ e.models > 0 /\ e.same>> }
    [] e.op = "raise" -> { <<"C24.raise", c.invalid # "">> }
    [] OTHER -> { <<"C24.unknown_event", FALSE>> }

Post(c, s, e) ==
  CASE e.op = "eval" ->
         LET s1 == [s EXCEPT !.X = Append(@, e.x), !.Y = Append(@, e.y), !.P = Append(@, e.P), !.near = e.near] IN
         IF s.ph = "init" THEN [s1 EXCEPT !.ph = IF Len(s1.X) >= N0(c) THEN "run" ELSE "init"]
         ELSE IF s.buf + 1 >= Batch(c) THEN [s1 EXCEPT !.buf = 0, !.it = @ + 1, !.el = @ + e.dt]
         ELSE [s1 EXCEPT !.buf = @ + 1, !.el = @ + e.dt]
    [] OTHER -> s
=============================================================================
