--------------------------- MODULE BatchProtocol ---------------------------
(***************************************************************************)
(* How a batch is put together (C16), as seen from the acquisition          *)
(* optimizer and the acquisition.                                           *)
(* Configuration c: ev (batch method), b (size), dd (de-duplication on),    *)
(*   P (probe locations, encoded, fixed point), m (margin for comparisons   *)
(*   of squared distances).                                                 *)
(* Events of one request:                                                   *)
(*   begin f ref    acquisition at the probes; the same for an unpenalised  *)
(*                  acquisition built afresh                                *)
(*   opt f f1 g own x    one optimisation: the function handed to the       *)
(*                  optimizer at the probes (alone and with gradient), at   *)
(*                  the locations already chosen (g) and at its outcome     *)
(*                  (own), the outcome x                                    *)
(*                  (dip: the surrogate predicts less there than any        *)
(*                  observed output: it may be penalised by nothing)        *)
(*   opt_none       the optimisation found the domain exhausted             *)
(*   end rows       the batch;  none: the request failed as exhausted       *)
(*   after f        acquisition at the probes after the request             *)
(*   again rows     the same request repeated with the same random seed     *)
(*   fresh rows fs  the same request to a batch method and an acquisition   *)
(*                  never used before; fs: the functions it optimises       *)
(*   fails what     anything else                                           *)
(* State s: ph, plain (f of begin), calls (sequence of [f, own, x]), empty  *)
(*   (an optimisation found nothing), rows.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
S0 == [ph |-> "idle", plain |-> <<>>, calls |-> <<>>, empty |-> FALSE, rows |-> <<>>]
AbsI(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Sum(_, _)
Sum(a, i) == IF i > Len(a) THEN 0 ELSE a[i] + Sum(a, i + 1)
Dist2(x, y) == Sum([i \in 1..Len(x) |-> (x[i] - y[i]) * (x[i] - y[i])], 1)
Max3(a, b, d) == IF AbsI(a) >= AbsI(b) /\ AbsI(a) >= AbsI(d) THEN a ELSE IF AbsI(b) >= AbsI(d) THEN b ELSE d
Tol(v) == 3 + AbsI(v) \div 100000
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : AbsI(a[i] - b[i]) <= Tol(a[i])
\* number of optimisations of the acquisition that may be made
MaxCalls(c) == CASE c.ev = "thompson_sampling" -> 0 [] c.ev = "local_penalization" -> c.b [] OTHER -> 1
Size(c) == IF c.ev = "sequential" THEN 1 ELSE c.b
\* raised by a non-negative amount everywhere, more at locations closer to the location x
\* (values beyond the fixed-point range are not compared)
Sat(v) == AbsI(v) >= 800000000
Raised(c, f, g, x) ==
  /\ \A i \in 1..Len(f) : Sat(f[i]) \/ g[i] >= f[i] - Tol(f[i])
  /\ \A i, j \in 1..Len(f) : (Dist2(c.P[i], x) + c.m < Dist2(c.P[j], x) /\ ~Sat(f[i]) /\ ~Sat(f[j]) /\ ~Sat(g[i]) /\ ~Sat(g[j])) => g[i] - f[i] >= (g[j] - f[j]) - 2 * Tol(Max3(f[i], f[j], g[j]))
Last(s) == s.calls[Len(s.calls)]
Clauses(c, s, e) ==
  CASE e.op = "begin" -> { <<"C16.idle", s.ph = "idle">>, <<"C16.unpenalized", Same(e.f, e.ref)>> }
    [] e.op = "opt" ->
         { <<"C16.calls", s.ph = "building" /\ Len(s.calls) < MaxCalls(c)>>,
           <<"C16.gradient_value", Same(e.f, e.f1)>> }
         \cup (IF s.calls = <<>> THEN { <<"C16.first", Same(e.f, s.plain)>> }
               ELSE { <<"C16.penalized", Raised(c, Last(s).f, e.f, Last(s).x)>>,
                      \* every chosen location is worse than when it was chosen
                      <<"C16.adds_up", Len(e.g) = Len(s.calls) /\ \A i \in 1..Len(e.g) : e.g[i] > s.calls[i].own \/ Sat(s.calls[i].own) \/ (s.calls[i].dip /\ e.g[i] >= s.calls[i].own - Tol(s.calls[i].own))>> })
    [] e.op = "opt_none" -> { <<"C16.calls", s.ph = "building" /\ Len(s.calls) < MaxCalls(c)>>, <<"C16.exhausted", c.dd>> }
    [] e.op = "end" ->
         { <<"C16.size", Len(e.rows) = Size(c) \/ (c.dd /\ Len(e.rows) \in 1..Size(c))>>,
           <<"C16.calls", s.ph = "building" /\ (c.ev = "local_penalization" => Len(s.calls) = Len(e.rows)) /\ (c.ev \in {"sequential", "random"} => Len(s.calls) = 1)>>,
           <<"C16.short", (c.ev = "local_penalization" /\ Len(e.rows) < c.b) => s.empty>>,
           <<"C16.outcome", CASE c.ev = "local_penalization" -> \A i \in 1..Len(s.calls) : i <= Len(e.rows) /\ e.rows[i] = s.calls[i].x
                              [] c.ev \in {"sequential", "random"} -> s.calls # <<>> /\ e.rows # <<>> /\ e.rows[1] = s.calls[1].x
                              [] OTHER -> TRUE>> }
    [] e.op = "none" -> { <<"C16.exhausted", c.dd>> }
    [] e.op = "after" -> { <<"C16.restored", Same(e.f, s.plain)>> }
    [] e.op = "again" -> { <<"C16.independent", e.rows = s.rows>> }
    [] e.op = "fresh" -> { <<"C16.history_free", e.rows = s.rows>>,
                           <<"C16.same_functions", \A i \in 1..Len(s.calls) : i <= Len(e.fs) /\ Same(s.calls[i].f, e.fs[i])>> }
    [] e.op = "fails" -> { <<"C16.known." \o e.what, e.what # "thompson_without_gradients">>, <<"C16.raise", e.what = "thompson_without_gradients">> }
    [] OTHER -> { <<"C16.raise", FALSE>> }
Post(c, s, e) ==
  CASE e.op = "begin" -> [s EXCEPT !.ph = "building", !.plain = e.f, !.calls = <<>>, !.empty = FALSE, !.rows = <<>>]
    [] e.op = "opt" -> [s EXCEPT !.calls = Append(@, [f |-> e.f, own |-> e.own, x |-> e.x, dip |-> e.dip])]
    [] e.op = "opt_none" -> [s EXCEPT !.empty = TRUE]
    [] e.op = "end" -> [s EXCEPT !.ph = "idle", !.rows = e.rows]
    [] e.op = "none" -> [s EXCEPT !.ph = "idle", !.rows = <<>>]
    [] OTHER -> s
=============================================================================
