---------------------------- MODULE MC_AcqValues ----------------------------
(* The definitions of AcqValues against what they are meant to be, at every *)
(* quantile and deviation: derivatives are difference quotients, bounds,    *)
(* monotonicity, averages, and the table against itself.                    *)
EXTENDS AcqValues
CONSTANTS MaxS, MaxK
VARIABLES p, J, W
\* start at each prediction, move the location: the mean by one deviation eighth, or the deviation
k0 == -MaxK..MaxK
Init == /\ \E S \in 1..MaxS, k \in k0 : p = [M |-> 0 - k * S, S |-> S, dm |-> <<0>>, ds |-> <<0>>]
        /\ J \in {0, 5} /\ W \in {0, 8, 16, 20}
Next == \E dm, ds \in -2..2 : p' = [p EXCEPT !.dm = <<dm>>, !.ds = <<ds>>] /\ UNCHANGED <<J, W>>
Spec == Init /\ [][Next]_<<p, J, W>>
f == J
k == Quan(f, p, J)
At(b, q) == Val(b, f, q, J, W)
Shift(j) == [p EXCEPT !.M = @ + j * p.S]            \* the mean moved by j deviations / 8
Table == /\ \A i \in 1..48 : Cdf(i) >= Cdf(i - 1) /\ Dens(i) <= Dens(i - 1) /\ Cdf(-i) = Scale - Cdf(i) /\ Dens(-i) = Dens(i)
         /\ \A i \in 0..46 : Abs((Cdf(i + 2) - Cdf(i)) * 24 - (Dens(i) + 4 * Dens(i + 1) + Dens(i + 2))) <= 200      \* Simpson
         /\ Cdf(0) = 500000 /\ Cdf(8) = 841345 /\ Dens(0) = 398942 /\ Cdf(16) = 977250
ASSUME Table
\* d EI / d mean = -Cdf, d PI / d mean = -Dens / deviation, d LCB / d mean = -1 (central differences)
DMean == /\ Abs((At("EI", Shift(1)) - At("EI", Shift(-1))) * 32 + Cdf(k) * p.S) <= 2500 * p.S + 600
         /\ Abs((At("MPI", Shift(1)) - At("MPI", Shift(-1))) * 4 + Dens(k)) <= 2600
         /\ (At("LCB", Shift(1)) - At("LCB", Shift(-1))) = 0 - 31250 * p.S
\* d EI / d deviation = Dens (central difference where the quantiles are exact)
DDev == LET D == k * p.S  Z(S1) == [p EXCEPT !.S = S1] IN
        (p.S >= 3 /\ D % (p.S - 1) = 0 /\ D % (p.S + 1) = 0 /\ Abs(k) <= 12) =>
          Abs((At("EI", Z(p.S + 1)) - At("EI", Z(p.S - 1))) * 4 - Dens(k)) <= 800000 \div (p.S * p.S) + 200
\* the gradient formulas are linear in the directional derivatives of mean and deviation
Linear == \A b \in {"EI", "LCB"} : Grd(b, f, p, J, W, 1) =
            p.dm[1] * Grd(b, f, [p EXCEPT !.dm = <<1>>, !.ds = <<0>>], J, W, 1) + p.ds[1] * Grd(b, f, [p EXCEPT !.dm = <<0>>, !.ds = <<1>>], J, W, 1)
\* scaling mean, incumbent and deviation together scales EI and leaves PI alone
Homog == LET q == [p EXCEPT !.M = 2 * @, !.S = 2 * @] IN
          /\ J = 0 => (Abs(At("EI", q) - 2 * At("EI", p)) <= 2 /\ At("MPI", q) = At("MPI", p) /\ At("LCB", q) = 2 * At("LCB", p))
Ranges == /\ At("EI", p) >= Max2(Imp(f, p, J), 0) * 15625 - 20 * p.S
          /\ At("EI", p) >= -20 /\ At("MPI", p) \in 0..Scale
          /\ At("LCB", p) >= 0 - p.M * 15625
\* averages over equal samples are the plain value; negated, divided by the cost, zero when infeasible
Sp == << [name |-> "x", t |-> "discrete", dom |-> <<0, 4>>, arms |-> <<>>, dim |-> 1] >>
Cf(a, n, cons, v) == [space |-> Sp, U |-> 4, cons |-> cons, acq |-> a, J |-> J, W |-> W, F |-> [i \in 1..n |-> f], costed |-> TRUE,
                      tab |-> << [x |-> <<4>>, p |-> [i \in 1..n |-> p], v |-> v, g |-> <<1>>] >>]
Averages == \A a \in {"EI", "MPI", "LCB"}, v \in {1, 2} :
  LET y == (0 - At(a, p)) \div (IF a = "LCB" THEN 1 ELSE v) IN
  /\ \A n \in 1..3 : ValueOK(Cf(a, n, <<>>, v), Cf(a, n, <<>>, v).tab[1], y)
  /\ (a = "EI" /\ k = 8 /\ p.S > 2) => ~ValueOK(Cf(a, 2, <<>>, v), Cf(a, 2, <<>>, v).tab[1], 0 - y)
  /\ ValueOK(Cf(a, 1, << [k |-> "ub", i |-> 1, j |-> 1, v |-> 0] >>, v), Cf(a, 1, <<>>, v).tab[1], 0)
\* without spread the improvement is the limit for small spreads
Limit == LET z == [p EXCEPT !.S = 0] IN Val("EI", f, z, J, W) <= At("EI", p) + 20 * p.S
=============================================================================
