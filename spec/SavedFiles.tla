----------------------------- MODULE SavedFiles -----------------------------
(***************************************************************************)
(* Files saved from a run (C14).  Numbers are interned: equal integers mean *)
(* equal floating-point numbers (exact round trip).                         *)
(* Configuration c: space, the set-up (strings as they appear in a report). *)
(* State s: X, Y  recorded history;  par  parameters of the surrogate after *)
(* its last fit;  rows  one entry per fit-or-reuse step of the last         *)
(* operation (run or request);  fresh  a fit without a later proposal;      *)
(* mi, it  iteration limit and acquisitions of the last run.                *)
(* Events: hist (X, Y), begin (mi), fit (par), batch, end, plus what was    *)
(* read back: evals, models, refused, report, files.                        *)
(***************************************************************************)
EXTENDS DesignSpace
S0 == [X |-> <<>>, Y |-> <<>>, XF |-> <<>>, YD |-> <<>>, YR |-> <<>>, par |-> <<>>, rows |-> <<>>, fresh |-> FALSE, mi |-> 0, it |-> 0, ops |-> 0, ended |-> TRUE]
Numbered(R) == \A i \in 1..Len(R) : R[i].n = i
EvalRows(s) == [i \in 1..Len(s.Y) |-> <<s.Y[i]>> \o s.X[i]]
Data(R) == [i \in 1..Len(R) |-> R[i].v]
\* the steps of the last operation: a step before every proposal, and a final refresh or reuse at the end of a run
StepsOK(s, D) == \/ D = s.rows /\ ~s.fresh
                 \/ D = Append(s.rows, s.par)
Expanded(c) == Expand(c.space)
NType(c, t) == Cardinality({k \in 1..Len(Expanded(c)) : Expanded(c)[k].t = t})
Arms(c) == SumSeq([k \in 1..Len(Expanded(c)) |-> Len(Expanded(c)[k].arms)])
YesNo(b) == IF b THEN "YES" ELSE "NO"
TF(b) == IF b THEN "True" ELSE "False"
\* XF: the inputs in fixed point (1e-3);  YR: the ranks of the outputs (1 = smallest, ties share a rank);
\* YD: the outputs to seven significant digits, a pair <<m, x>> standing for m * 10^x
Best(s) == CHOOSE i \in 1..Len(s.YR) : s.YR[i] = 1
SameNumber(a, b) == \/ a[2] = b[2] /\ Abs(a[1] - b[1]) <= 1
                    \/ a[2] = b[2] + 1 /\ Abs(10 * a[1] - b[1]) <= 10
                    \/ b[2] = a[2] + 1 /\ Abs(10 * b[1] - a[1]) <= 10
Near(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= 1
Clauses(c, s, e) ==
  CASE e.op \in {"hist", "begin", "fit", "batch", "end"} -> {}
    [] e.op = "evals" -> { <<"C14.evals", Numbered(e.rows) /\ Data(e.rows) = EvalRows(s)>>,
                           <<"C14.evalheader", e.header = <<"Iteration", "Y">> \o [k \in 1..(Len(s.X[1])) |-> "var_" \o ToString(k)]>> }
    [] e.op = "models" -> { <<"C14.models", c.params /\ Numbered(e.rows) /\ StepsOK(s, Data(e.rows))>>,
                            <<"C14.modelheader", Len(e.header) = 1 + e.nparams /\ e.header[1] = "Iteration"
                                                 /\ Tail(e.header) = e.names /\ Len(e.names) = Cardinality(Rng(e.names))>> }
    [] e.op = "refused" -> { <<"C14.refused", (~c.params \/ s.ops = 0) /\ ~e.written>> }
    [] e.op = "mustrefuse" -> { <<"C14.refused", FALSE>> }
    [] e.op = "files" -> { <<"C14.files", Rng(e.asked) = Rng(e.found)>> }
    [] e.op = "report" ->
         { <<"C14.samples", e.samples = Len(s.Y)>>,
           <<"C14.value", SameNumber(e.value, s.YD[Best(s)])>>,
           <<"C14.location", \E i \in 1..Len(s.YR) : s.YR[i] = 1 /\ Near(e.loc, s.XF[i])>>,
           <<"C14.completed", e.completed = YesNo(s.it = s.mi)>>,
           <<"C14.problem", e.dim = (IF IsBandit(c.space) THEN e.dim ELSE Len(Expanded(c)))
              /\ e.ncont = NType(c, "continuous") /\ e.ndisc = NType(c, "discrete") /\ e.nbandit = Arms(c)
              /\ e.name = c.name /\ e.exact = TF(c.exact) /\ e.cost = c.cost /\ e.cons = TF(c.hascons)>>,
           <<"C14.setup", e.norm = TF(c.norm) /\ e.model = c.model /\ e.interval = ToString(c.iv) /\ e.acq = c.acq /\ e.opt = c.opt
              /\ e.ev = c.ev \o " (" \o ToString(c.b) \o ")" /\ e.cores = ToString(c.cores)>> }
    [] OTHER -> { <<"C14.raise", FALSE>> }
Post(c, s, e) ==
  CASE e.op = "hist"  -> [s EXCEPT !.X = e.X, !.Y = e.Y, !.XF = e.XF, !.YD = e.YD, !.YR = e.YR]
    [] e.op = "begin" -> [s EXCEPT !.rows = <<>>, !.mi = e.mi, !.it = 0, !.fresh = FALSE, !.ops = @ + 1]
    [] e.op = "fit"   -> [s EXCEPT !.par = e.par, !.fresh = TRUE]
    [] e.op = "batch" -> [s EXCEPT !.rows = Append(@, s.par), !.it = @ + 1, !.fresh = FALSE]
    [] OTHER -> s
=============================================================================
