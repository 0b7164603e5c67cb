------------------------------- MODULE BOLoop -------------------------------
(***************************************************************************)
(* The optimisation loop: construction, runs, suggestion requests, and the *)
(* evaluation history.                                                     *)
(*                                                                         *)
(* The module defines a labelled transition system over abstract states s: *)
(* Clauses(c, s, e) is the set of named conditions an event e has to meet  *)
(* in s (for configuration c), Post(c, s, e) the successor.  A behaviour   *)
(* is legal iff every event meets all its clauses.  MC_BOLoop explores all *)
(* legal behaviours within small constants, Gen_BOLoop prints behaviours   *)
(* that are replayed into GPyOpt, Trace_BOLoop checks recorded executions. *)
(*                                                                         *)
(* Configuration c:                                                        *)
(*   space, U  the search space (see DesignSpace)                          *)
(*   iv        surrogate update interval                                   *)
(*   norm      outputs are normalised for the surrogate                    *)
(*   sign      1 minimisation, -1 maximisation                             *)
(*   lat       coordinates are lattice values (distances are meaningful)   *)
(*   seemodel  the surrogate reports its fits (user-supplied surrogate)    *)
(*   dimok     (unused by the loop)                                        *)
(*                                                                         *)
(* Events e (field op):                                                    *)
(*   new     X0, Y0      initial data; Y0 = <<>> means to be evaluated     *)
(*           n0          rows of an initial design chosen by the library   *)
(*                       (X0 = <<>>), lazy: evaluated by the first run     *)
(*   eval    x, ok, y, dt  one call of the objective                       *)
(*   newend / newraise   the constructor returned / raised                 *)
(*   run     mi, mt, eps a run starts (NONE = -1, INF = -2)                *)
(*   fit     X, Y, z, fail, dt  the surrogate is fitted                    *)
(*   batch   z           encoded locations proposed by the batch method    *)
(*   runend  X, Y, xopt, fx, ybest                                         *)
(*   runraise kind       "objective" | "explored" | other                  *)
(*   sug, sugend rows, sugraise kind                                       *)
(*   obs     X, Y        the history as returned to the caller, and the    *)
(*           [xopt, fx, ybest]  results of the last run still reported     *)
(*   pair    clause, A, B  projections of two executions that must agree   *)
(***************************************************************************)
EXTENDS DesignSpace

NONE == -1
INF  == -2

(* ---------------- the abstract state ---------------- *)
S0 == [ ph    |-> "void",     \* void, init, idle, run, sug, failing, dead
        hist  |-> <<>>,       \* sequence of <<x, y>>, y in the minimisation sign
        X0    |-> <<>>,       \* initial inputs waiting for evaluation
        n0    |-> 0,          \* number of initial inputs waiting for evaluation
        lazy  |-> FALSE,      \* ... by the first run instead of the constructor
        inrun |-> FALSE,      \* a run is in progress
        mi |-> 0, mt |-> 0, eps |-> 0,
        it    |-> 0,          \* acquisitions completed in this run
        el    |-> 0,          \* time used by this run up to its last acquisition
        start |-> 0, clk |-> 0,
        fits  |-> 0,          \* fits since the last acquisition / the request began
        ff    |-> FALSE,      \* the surrogate could not be fitted
        batch |-> <<>>,       \* locations being evaluated
        res   |-> <<>>,       \* results reported by the last completed run
        buf   |-> <<>> ]      \* evaluations of the current batch so far

Xs(h) == [i \in 1..Len(h) |-> h[i][1]]
Ys(h) == [i \in 1..Len(h) |-> h[i][2]]

(* ---------------- stopping ---------------- *)
LastDist2(h) == Dist2(h[Len(h)][1], h[Len(h) - 1][1])
Converged(c, s) == /\ Len(s.hist) > 1
                   /\ s.eps >= 0
                   /\ IF c.lat THEN LastDist2(s.hist) <= s.eps * s.eps
                      ELSE s.hist[Len(s.hist)][1] = s.hist[Len(s.hist) - 1][1]
TimeUp(s)   == s.mt >= 0 /\ s.el >= s.mt
BudgetUp(s) == \/ s.mi >= 0 /\ s.it >= s.mi
               \/ s.mi = NONE /\ s.mt = NONE
MustStop(c, s) == TimeUp(s) \/ BudgetUp(s) \/ Converged(c, s) \/ s.ff

(* ---------------- optimum ---------------- *)
MinY(h)    == SetMin({h[i][2] : i \in 1..Len(h)})
ArgFirst(h) == SetMin({i \in 1..Len(h) : h[i][2] = MinY(h)})
Prefix(h)  == [i \in 1..Len(h) |-> SetMin({h[j][2] : j \in 1..i})]

(* ---------------- normalisation ---------------- *)
\* integer square root by bisection
RECURSIVE ISqrtIn(_, _, _)
ISqrtIn(n, lo, hi) == IF hi - lo <= 1 THEN lo
                      ELSE LET m == (lo + hi) \div 2 IN
                           IF m * m <= n THEN ISqrtIn(n, m, hi) ELSE ISqrtIn(n, lo, m)
ISqrt(n) == IF n = 0 THEN 0 ELSE ISqrtIn(n, 0, Min2(n, 46340) + 1)
\* For integer outputs Y, n*sigma = sqrt(D); observed z is round(1000 * normalised output).
SqD(Y)  == LET n == Len(Y) IN
           n * SumSeq([i \in 1..n |-> Y[i] * Y[i]]) - SumSeq(Y) * SumSeq(Y)
Scale(D) == IF D <= 20000 THEN 300 ELSE IF D <= 2000000 THEN 30 ELSE 3     \* D * Scale^2 < 2^31
NormOK(Y, z) ==
  LET n == Len(Y)  S == SumSeq(Y)  D == SqD(Y)  k == Scale(D)  r == ISqrt(D * k * k) IN
  /\ Len(z) = n
  /\ IF D = 0 THEN \A i \in 1..n : z[i] = 0
     ELSE \A i \in 1..n :
            LET a == (n * Y[i] - S) * 10 * k          \* r ~ k*sqrt(D)
                w == IF Abs(a) < 20000000 THEN (a * 100) \div r ELSE (a \div r) * 100
                t == IF Abs(a) < 20000000 THEN 3 + Abs(w) \div 200 ELSE 103 + Abs(w) \div 200
            IN Abs(z[i] - w) <= t

(* ---------------- clauses ---------------- *)
EncRows(c, X) == [i \in 1..Len(X) |-> Encode(c.space, X[i], c.U)]
DecRows(c, Z) == [i \in 1..Len(Z) |-> Decode(c.space, Z[i], c.U)]

HistClauses(s, e) ==
  { <<"C01.aligned", Len(e.X) = Len(e.Y)>>,
    <<"C01.inputs", e.X = Xs(s.hist)>>,
    <<"C01.outputs", e.Y = Ys(s.hist)>> }

OptClauses(s, e) ==
  IF Len(s.hist) = 0 THEN {}
  ELSE { <<"C03.value", e.fx = MinY(s.hist)>>,
         <<"C03.location", e.xopt = s.hist[ArgFirst(s.hist)][1]>>,
         <<"C03.curve", e.ybest = Prefix(s.hist)>> }

Expected(s) == IF s.ph = "init" THEN (IF Len(s.X0) > Len(s.buf) THEN <<s.X0[Len(s.buf) + 1]>> ELSE <<>>)
               ELSE IF Len(s.batch) > Len(s.buf) THEN <<s.batch[Len(s.buf) + 1]>> ELSE <<>>

Clauses(c, s, e) ==
  CASE e.op = "new"  -> { <<"C01.state", s.ph = "void">> }
    [] e.op = "eval" ->
         { <<"C04.noeval", s.ph # "sug">>,
           <<"C01.eval_phase", s.ph \in {"init", "run"}>>,
           <<"C01.eval_once",
              CASE s.ph = "init" -> Len(s.buf) < s.n0
                [] s.ph = "run"  -> Len(s.buf) < Len(s.batch)
                [] OTHER         -> FALSE>>,
           <<"C01.eval_input", Expected(s) = <<>> \/ Expected(s) = <<e.x>> >> }
    [] e.op = "newend" -> { <<"C01.init_done", s.ph \in {"idle"} \/ (s.ph = "init" /\ s.lazy /\ s.buf = <<>>)>> }
    [] e.op = "newraise" -> { <<"C01.propagate", s.ph = "failing" /\ e.kind = "objective">> }
    [] e.op = "run"  -> { <<"C01.state", s.ph \in {"idle", "init"}>> }
    [] e.op = "fit"  ->
         { <<"C05.phase", s.ph \in {"run", "sug"} /\ s.batch = <<>> >>,
           <<"C05.once", s.fits = 0>>,
           <<"C05.scheduled", s.ph = "sug" \/ s.it % c.iv = 0>>,
           <<"C05.inputs", e.X = EncRows(c, Xs(s.hist))>>,
           <<"C05.outputs", IF c.norm THEN NormOK(Ys(s.hist), e.z) ELSE e.Y = Ys(s.hist)>> }
    [] e.op = "batch" ->
         { <<"C01.state", s.ph \in {"run", "sug"} /\ s.batch = <<>> >> }
         \cup (IF s.ph = "run" THEN { <<"C02.may_start", ~MustStop(c, s)>> } ELSE {})
         \cup (IF c.seemodel
               THEN { <<"C05.fresh", s.fits = IF s.ph = "sug" \/ s.it % c.iv = 0 THEN 1 ELSE 0>> } ELSE {})
    [] e.op = "runend" ->
         { <<"C01.swallowed", s.ph # "failing">>,
           <<"C02.finished", s.ph = "run" => s.batch = <<>> >>,
           <<"C02.must_stop", s.ph = "run" => MustStop(c, s)>> }
         \cup HistClauses(s, e) \cup OptClauses(s, e)
    [] e.op = "runraise" ->
         { <<"C01.propagate", \/ e.kind = "objective" /\ s.ph = "failing"
                              \/ e.kind = "explored" /\ s.ph = "run" /\ s.batch = <<>> >> }
    [] e.op = "sug"  -> { <<"C01.state", s.ph = "idle">> }
    [] e.op = "sugend" ->
         { <<"C04.batch", e.rows = s.batch>> }
    [] e.op = "sugraise" -> { <<"C04.raise", e.kind = "explored" \/ (e.kind = "linalg" /\ s.ff)>> }
    [] e.op = "obs"  -> HistClauses(s, e)
         \cup (IF "after" \in DOMAIN e    \* observed right after a request
               THEN { <<"C04.history", e.X = Xs(s.hist) /\ e.Y = Ys(s.hist)>> } ELSE {})
         \cup (IF s.res # <<>> /\ "fx" \in DOMAIN e
               THEN { <<"C04.results", <<e.xopt, e.fx, e.ybest>> = s.res>> } ELSE {})
    \* two executions that have to agree, projected to the sequences A and B
    [] e.op = "pair" -> { <<e.clause, e.A = e.B>> }
    [] OTHER -> { <<"C01.unknown_event", FALSE>> }

(* ---------------- successor ---------------- *)
Commit(s) == [s EXCEPT !.hist = @ \o s.buf, !.buf = <<>>, !.batch = <<>>]

Post(c, s, e) ==
  CASE e.op = "new" ->
         IF e.n0 > 0
         THEN [s EXCEPT !.ph = "init", !.X0 = e.X0, !.n0 = e.n0, !.lazy = e.lazy]
         ELSE [s EXCEPT !.ph = "idle", !.hist = [i \in 1..Len(e.X0) |-> <<e.X0[i], e.Y0[i]>>]]
    [] e.op = "eval" ->
         LET s1 == [s EXCEPT !.clk = @ + e.dt] IN
         IF ~e.ok THEN [s1 EXCEPT !.ph = "failing", !.buf = <<>>, !.batch = <<>>]
         ELSE LET s2 == [s1 EXCEPT !.buf = Append(@, <<e.x, c.sign * e.y>>)] IN
              IF s.ph = "init" THEN
                 (IF Len(s2.buf) >= s.n0
                  THEN [Commit(s2) EXCEPT !.ph = IF s.inrun THEN "run" ELSE "idle", !.start = s1.clk, !.n0 = 0]
                  ELSE s2)
              ELSE IF s.ph = "run" /\ Len(s2.buf) >= Len(s.batch)
              THEN [Commit(s2) EXCEPT !.it = @ + 1, !.el = s1.clk - s.start, !.fits = 0]
              ELSE s2
    [] e.op = "newend"   -> s
    [] e.op = "newraise" -> [s EXCEPT !.ph = "dead"]
    [] e.op = "run" -> [s EXCEPT !.inrun = TRUE, !.ph = IF s.ph = "init" THEN "init" ELSE "run",
                                 !.mi = e.mi, !.mt = e.mt, !.eps = e.eps,
                                 !.it = 0, !.el = 0, !.start = s.clk, !.fits = 0, !.ff = FALSE,
                                 !.batch = <<>>, !.buf = <<>>]
    [] e.op = "fit" -> [s EXCEPT !.fits = @ + 1, !.clk = @ + e.dt, !.ff = @ \/ e.fail]
    [] e.op = "batch" -> [s EXCEPT !.batch = DecRows(c, e.z), !.buf = <<>>]
    [] e.op = "runend"   -> [s EXCEPT !.ph = "idle", !.inrun = FALSE, !.batch = <<>>, !.buf = <<>>,
                                      !.res = <<e.xopt, e.fx, e.ybest>>]
    [] e.op = "runraise" -> [s EXCEPT !.ph = IF s.n0 > 0 THEN "init" ELSE "idle", !.inrun = FALSE,
                                      !.batch = <<>>, !.buf = <<>>, !.res = <<>>]
    [] e.op = "sug"      -> [s EXCEPT !.ph = "sug", !.fits = 0, !.ff = FALSE, !.batch = <<>>]
    [] e.op = "sugend"   -> [s EXCEPT !.ph = "idle", !.batch = <<>>]
    [] e.op = "sugraise" -> [s EXCEPT !.ph = "idle", !.batch = <<>>]
    [] OTHER -> s

Legal_(c, s, e) == \A k \in Clauses(c, s, e) : k[2]
=============================================================================
