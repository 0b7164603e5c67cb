----------------------------- MODULE OutputLog ------------------------------
(***************************************************************************)
(* The output engine: savers with intervals, loggers and reports.           *)
(* c = [savers |-> seq of [type, format, content, interval], dim]           *)
(* Events:                                                                  *)
(*  [op |-> "create", ok]                                                   *)
(*  [op |-> "append", it, t, X, Y, final, rep]  rep[i]: reports written by  *)
(*        saver i during this call                                          *)
(*  [op |-> "close", logs]  logs[i] = [heads, first, cols, lines]: number   *)
(*        of header lines, whether the first line is one, its columns, and  *)
(*        the other lines as [it, t, y, x]                                  *)
(* Outputs, inputs and times are integers (multiples of a unit).            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
S0 == [hist |-> <<>>]
Post(c, s, e) == IF e.op = "append" THEN [hist |-> Append(s.hist, [it |-> e.it, t |-> e.t, X |-> e.X, Y |-> e.Y, final |-> e.final])] ELSE s

Supported(v) == /\ v.type \in {"report", "logger"}
                /\ (v.interval > 0 \/ v.interval = -1)
                /\ (v.type = "logger" => v.format \in {"csv", "CSV", "Csv"} /\ v.content \in {"ybest", "YBEST", "Ybest"})
Acceptable(c) == \A i \in 1..Len(c.savers) : Supported(c.savers[i])

Regular(h, m) == Cardinality({j \in 1..m : ~h[j].final})
\* does a saver with this interval fire at the m-th call?
Fires(h, m, interval) == IF interval = -1 THEN h[m].final ELSE ~h[m].final /\ Regular(h, m) % interval = 0
RECURSIVE MinSeq(_, _)
MinSeq(q, i) == IF i = Len(q) THEN q[i] ELSE LET r == MinSeq(q, i + 1) IN IF q[i] < r THEN q[i] ELSE r
RECURSIVE Best(_, _)
Best(h, m) == IF m = 1 THEN MinSeq(h[1].Y, 1) ELSE LET a == Best(h, m - 1) b == MinSeq(h[m].Y, 1) IN IF b < a THEN b ELSE a
Inputs(h, m, y) == {h[j].X[k] : <<j, k>> \in {<<j, k>> \in (1..m) \X (1..8) : k <= Len(h[j].Y) /\ h[j].Y[k] = y}}
When(h, interval) == {m \in 1..Len(h) : Fires(h, m, interval)}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A k \in S : m <= k IN <<m>> \o Sorted(S \ {m})
LineOK(h, m, l) == l.it = h[m].it /\ l.t = h[m].t /\ l.y = Best(h, m) /\ l.x \in Inputs(h, m, Best(h, m))

Clauses(c, s, e) ==
  CASE e.op = "create" -> { <<IF Acceptable(c) THEN "C19.accepted" ELSE "C19.rejected", e.ok = Acceptable(c)>> }
    [] e.op = "append" ->
         LET h == Post(c, s, e).hist  m == Len(h) IN
         { <<"C19.report", \A i \in 1..Len(c.savers) : c.savers[i].type = "report" =>
                              e.rep[i] = (IF Fires(h, m, c.savers[i].interval) THEN 1 ELSE 0)>> }
    [] e.op = "close" ->
         UNION { IF c.savers[i].type # "logger" THEN {}
                 ELSE LET W == Sorted(When(s.hist, c.savers[i].interval))  g == e.logs[i] IN
                      { <<"C19.lines", Len(g.lines) = Len(W) /\ \A j \in 1..Len(W) : j <= Len(g.lines) => g.lines[j].it = s.hist[W[j]].it>>,
                        <<"C19.content", Len(g.lines) = Len(W) => \A j \in 1..Len(W) : LineOK(s.hist, W[j], g.lines[j])>>,
                        <<"C19.header", IF W = <<>> THEN g.heads <= 1 ELSE g.heads = 1 /\ g.first /\ g.cols = 3 + c.dim>> }
               : i \in 1..Len(c.savers) }
    [] OTHER -> { <<"C19.raise", FALSE>> }
=============================================================================
