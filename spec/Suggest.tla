------------------------------ MODULE Suggest ------------------------------
(***************************************************************************)
(* What may be suggested or evaluated: legality, contexts, de-duplication,  *)
(* pending and ignored locations, constraints, batch sizes.                 *)
(*                                                                         *)
(* Configuration c: space, U (DesignSpace), dd (de-duplication on),         *)
(*   b (batch size), ev (batch method), cons (constraints on raw            *)
(*   coordinates: sequence of records [k, i, j, v] with                     *)
(*     k = "le": x_i <= x_j   "ub": x_i <= v   "lb": x_i >= v               *)
(*     k = "sum": x_i + x_j <= v   "sq": x_i^2 + x_j^2 <= v                 *)
(*     (sum and sq only on lattice values)),                                *)
(*   design (initial design name), given (initial inputs given).            *)
(* State s: taken (evaluated locations), req (request in progress).         *)
(* Events e (field op):                                                     *)
(*   init rows | newreject       construction                               *)
(*   req kind ctx unknown pend ign   ctx: sequence of [v, val], v an index  *)
(*       into Expand(space)                                                 *)
(*   resp rows | explored | reject | raise                                  *)
(*   alone rows: what an optimizer that was never asked anything before     *)
(*              suggests for the same request with the same random numbers  *)
(*   count n                     evaluations recorded by the optimizer      *)
(*   ind X val                   reported feasibility                       *)
(***************************************************************************)
EXTENDS DesignSpace

NoReq == [kind |-> "none", ctx |-> <<>>, unknown |-> FALSE, pend |-> <<>>, ign |-> <<>>]
S0 == [taken |-> <<>>, req |-> NoReq, ph |-> "new", last |-> <<>>]

Holds(k, x) == CASE k.k = "le"  -> x[k.i] <= x[k.j]
                 [] k.k = "ub"  -> x[k.i] <= k.v
                 [] k.k = "lb"  -> x[k.i] >= k.v
                 [] k.k = "sum" -> x[k.i] + x[k.j] <= k.v
                 [] k.k = "sq"  -> x[k.i] * x[k.i] + x[k.j] * x[k.j] <= k.v
Feasible(c, x) == \A n \in 1..Len(c.cons) : Holds(c.cons[n], x)

MatchesCtx(c, x, ctx) ==
  LET e == Expand(c.space) IN
  \A n \in 1..Len(ctx) : Slice(x, OffObj(e, ctx[n].v), WObj(e[ctx[n].v])) = ctx[n].val
Fixed(ctx) == {ctx[n].v : n \in 1..Len(ctx)}
CtxVal(ctx, k) == (CHOOSE n \in 1..Len(ctx) : ctx[n].v = k)
Finite(c, ctx) == LET e == Expand(c.space) IN
  \A k \in 1..Len(e) : e[k].t = "continuous" => k \in Fixed(ctx)
RECURSIVE CtxFrom(_, _, _)
CtxFrom(e, ctx, k) ==
  IF k > Len(e) THEN { <<>> }
  ELSE { a \o b : a \in (IF k \in Fixed(ctx) THEN {ctx[CtxVal(ctx, k)].val} ELSE ValuesVar(e[k])),
                  b \in CtxFrom(e, ctx, k + 1) }

Taken(c, s) == IF c.dd THEN Rng(s.taken) \cup Rng(s.req.pend) \cup Rng(s.req.ign) ELSE {}
\* the locations that may be chosen (only for finite requests)
Allowed(c, s) == { x \in CtxFrom(Expand(c.space), s.req.ctx, 1) : Feasible(c, x) } \ Taken(c, s)
Exhausted(c, s) == Finite(c, s.req.ctx) /\ Allowed(c, s) = {}

NRows(c, s) ==   \* acceptable numbers of locations in a response
  LET full == IF c.dd /\ Finite(c, s.req.ctx) THEN Min2(c.b, Cardinality(Allowed(c, s))) ELSE c.b IN
  CASE c.b = 1 \/ c.ev = "sequential" -> {1}
    [] c.dd /\ c.ev = "thompson_sampling" -> 1..full
    [] OTHER -> {full}

(* A user-supplied acquisition with a single peak (C22): c.peak = [t, w], acquisition        *)
(* -sum_i w_i (z_i - t_i)^2 over the encoded coordinates z, w constant within a variable.    *)
Score(c, x) == LET z == Encode(c.space, x, c.U) IN SumSeq([i \in 1..Len(z) |-> c.peak.w[i] * (z[i] - c.peak.t[i]) * (z[i] - c.peak.t[i])])
BestOf(c, S) == { x \in S : \A y \in S : Score(c, x) <= Score(c, y) }
PeakOK(c, s, x) ==
  LET e == Expand(c.space) IN
  \A k \in 1..Len(e) :
    LET xs == Slice(x, OffObj(e, k), WObj(e[k]))  ts == Slice(c.peak.t, OffModel(e, k), WModel(e[k])) IN
    IF k \in Fixed(s.req.ctx) THEN TRUE
    ELSE IF e[k].t = "continuous" THEN Abs(xs[1] - Min2(Max2(ts[1], e[k].dom[1]), e[k].dom[2])) <= c.peak.tol
    ELSE EncodeVar(e[k], xs, c.U) \in RoundVarSet(e[k], ts, c.U)
PeakClauses(c, s, x) ==
  IF Len(x) # ObjDim(c.space) THEN {}
  ELSE IF Finite(c, s.req.ctx)
  THEN LET All == CtxFrom(Expand(c.space), s.req.ctx, 1) IN
       \* with Thompson anchors only when the nearest location is still free
       IF c.anch # "max_objective" /\ BestOf(c, All) \cap Taken(c, s) # {} THEN {}
       ELSE { <<"C22.best", x \in BestOf(c, Allowed(c, s))>> }
            \cup (IF s.req.ctx = <<>> THEN {} ELSE { <<"C22.best_in_context", x \in BestOf(c, Allowed(c, s))>> })
            \cup (IF BestOf(c, All) \cap Taken(c, s) = {} THEN {} ELSE { <<"C22.best_not_taken", x \in BestOf(c, Allowed(c, s))>> })
  ELSE IF \E t \in Taken(c, s) : PeakOK(c, s, t) THEN {}
  ELSE { <<"C22.peak", PeakOK(c, s, x)>> }

Clauses(c, s, e) ==
  CASE e.op = "init" ->
         { <<"C10.refuse", c.given \/ c.cons = <<>> \/ c.design = "random">> }
         \cup (IF c.given THEN {}
               ELSE { <<"C06.initial", \A i \in 1..Len(e.rows) : Legal(c.space, e.rows[i])>>,
                      <<"C10.initial", \A i \in 1..Len(e.rows) : Len(e.rows[i]) = ObjDim(c.space) => Feasible(c, e.rows[i])>> })
    [] e.op = "newreject" -> { <<"C10.refuse", ~c.given /\ c.cons # <<>> /\ c.design # "random">> }
    [] e.op = "req" -> { <<"SG.state", s.ph = "idle">> }
    [] e.op = "resp" ->
         LET R == e.rows  n == Len(R)
             W == \A i \in 1..n : Len(R[i]) = ObjDim(c.space) IN
         { <<"C07.unknown", ~s.req.unknown>>,
           <<"C06.legal", \A i \in 1..n : Legal(c.space, R[i])>>,
           <<"C06.some", n > 0>> }
         \cup (IF ~W THEN {} ELSE
         (IF s.req.ctx = <<>> THEN { <<"C07.none", TRUE>> }
          ELSE { <<"C07.value", \A i \in 1..n : MatchesCtx(c, R[i], s.req.ctx)>> })
         \cup (IF c.cons = <<>> THEN {} ELSE { <<"C10.feasible", \A i \in 1..n : Feasible(c, R[i])>> })
         \cup (IF ~c.dd THEN {}
               ELSE { <<"C08.fresh", \A i \in 1..n : R[i] \notin Taken(c, s)>>,
                      <<"C08.distinct", \A i, j \in 1..n : R[i] = R[j] => i = j>>,
                      <<"C08.exhausted", ~Exhausted(c, s)>> })
         \cup (IF "peak" \notin DOMAIN c \/ n = 0 \/ Exhausted(c, s) THEN {} ELSE PeakClauses(c, s, R[1]))
         \cup { <<"C08.size", c.dd => (n \in NRows(c, s) \/ Exhausted(c, s))>>, <<"C16.size", n \in NRows(c, s) \/ Exhausted(c, s)>> })
    [] e.op = "explored" -> { <<"C08.explored", c.dd /\ Exhausted(c, s) /\ ~s.req.unknown>> }
    [] e.op = "reject" -> { <<"C07.reject", s.req.unknown>> }
    [] e.op = "count" -> { <<"C08.nothing_evaluated", e.n = Len(s.taken)>> }
    [] e.op = "alone" -> { <<"C07.alone", e.rows = s.last>>, <<"C08.alone", e.rows = s.last>> }
    [] e.op = "ind" -> { <<"C10.indicator", e.val = [i \in 1..Len(e.X) |-> IF Feasible(c, e.X[i]) THEN 1 ELSE 0]>> }
    [] OTHER -> { <<"SG.raise", FALSE>> }

Post(c, s, e) ==
  CASE e.op = "init" -> [s EXCEPT !.taken = e.rows, !.ph = "idle"]
    [] e.op = "req" -> [s EXCEPT !.req = [kind |-> e.kind, ctx |-> e.ctx, unknown |-> e.unknown, pend |-> e.pend, ign |-> e.ign], !.ph = "asked"]
    [] e.op = "resp" -> [s EXCEPT !.taken = IF s.req.kind = "run" THEN @ \o e.rows ELSE @, !.req = NoReq, !.ph = "idle", !.last = e.rows]
    [] e.op \in {"explored", "reject", "raise"} -> [s EXCEPT !.req = NoReq, !.ph = IF @ = "asked" THEN "idle" ELSE @, !.last = <<>>]
    [] OTHER -> s
=============================================================================
