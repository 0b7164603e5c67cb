----------------------------- MODULE AcqValues -----------------------------
(***************************************************************************)
(* Values and gradients of the acquisition functions (C15).                 *)
(* Units: means, incumbents and jitter in 1/64, standard deviations and     *)
(* exploration weight in 1/8; results times 10^6.  A prediction is          *)
(*   [M, S, dm, ds]  with gradients dm, ds per encoded coordinate.          *)
(* Configuration c: space, U, cons, acq, J (jitter), W (weight), F (best    *)
(*   surrogate mean per sample), tab (sequence of [x raw location, p one    *)
(*   prediction per sample, v cost, g cost gradient]), costed.              *)
(* Events: val (I indices into tab, a values), grad (I, a, da), keep (the   *)
(*   acquisition still has the values it had), diff (derivative of a real   *)
(*   surrogate's acquisition: f0, f1 value alone and with gradient, num     *)
(*   difference quotients, df gradient).                                    *)
(***************************************************************************)
EXTENDS DesignSpace, NormalTable
Sg == INSTANCE Suggest
S0 == [n |-> 0]
Imp(f, p, J) == f - p.M - J                                 \* improvement over the incumbent
Quan(f, p, J) == IF p.S = 0 THEN (IF Imp(f, p, J) > 0 THEN 1000 ELSE IF Imp(f, p, J) < 0 THEN -1000 ELSE 0) ELSE Imp(f, p, J) \div p.S
Base(a) == CASE a \in {"EI", "EI_MCMC"} -> "EI" [] a \in {"MPI", "MPI_MCMC"} -> "MPI" [] OTHER -> "LCB"
Ignores(c) == Base(c.acq) = "LCB" \/ ~c.costed
\* one sample: value, gradient along coordinate d and their rounding errors
Val(b, f, p, J, W) ==
  LET k == Quan(f, p, J) IN
  CASE b = "EI"  -> IF p.S = 0 THEN Max2(Imp(f, p, J), 0) * 15625 ELSE (p.S * (k * Cdf(k) + 8 * Dens(k))) \div 64
    [] b = "MPI" -> Cdf(k)
    [] b = "LCB" -> (W * p.S - p.M) * 15625
Grd(b, f, p, J, W, d) ==
  LET k == Quan(f, p, J) IN
  CASE b = "EI"  -> p.ds[d] * Dens(k) - p.dm[d] * Cdf(k)
    [] b = "MPI" -> IF p.S = 0 THEN 0 ELSE (0 - Dens(k) * (8 * p.dm[d] + k * p.ds[d])) \div p.S
    [] b = "LCB" -> (W * p.ds[d] - 8 * p.dm[d]) * 125000
ErrV(b) == IF b = "LCB" THEN 0 ELSE IF b = "MPI" THEN 1 ELSE 8
ErrG(b, p, d) == CASE b = "EI" -> Abs(p.ds[d]) + Abs(p.dm[d]) [] b = "MPI" -> (IF p.S = 0 THEN 0 ELSE (8 * Abs(p.dm[d]) + 48 * Abs(p.ds[d])) \div p.S) + 1 [] OTHER -> 0
NS(c) == Len(c.F)
SumV(c, t) == SumSeq([q \in 1..NS(c) |-> Val(Base(c.acq), c.F[q], t.p[q], c.J, c.W)])
SumG(c, t, d) == SumSeq([q \in 1..NS(c) |-> Grd(Base(c.acq), c.F[q], t.p[q], c.J, c.W, d)])
SumErrG(c, t, d) == SumSeq([q \in 1..NS(c) |-> ErrG(Base(c.acq), t.p[q], d)])
Cost(c, t) == IF Ignores(c) THEN 1 ELSE t.v
CostG(c, t, d) == IF Ignores(c) THEN 0 ELSE t.g[d]
Feasible(c, t) == Sg!Feasible(c, t.x)
\* a is (10^6 times) the negated acquisition per unit cost at t
ValueOK(c, t, a) ==
  IF ~Feasible(c, t) THEN a = 0
  ELSE Abs(a * NS(c) * Cost(c, t) + SumV(c, t)) <= NS(c) * (Cost(c, t) + ErrV(Base(c.acq)) + 2)
GradOK(c, t, da) ==
  \A d \in 1..Len(da) :
    IF ~Feasible(c, t) THEN da[d] = 0
    ELSE LET v == Cost(c, t)  g == CostG(c, t, d) IN
         Abs(da[d] * NS(c) * v * v + SumG(c, t, d) * v - SumV(c, t) * g)
           <= NS(c) * (v * v + Abs(g) * (ErrV(Base(c.acq)) + 2)) + v * (SumErrG(c, t, d) + 2)
\* The integrated expected improvement of the library measures the improvement from fmin + jitter in its mean term
\* (known finding): the sum with that term
KnownV(c, t) == SumSeq([q \in 1..NS(c) |-> Val("EI", c.F[q], t.p[q], c.J, c.W) + ((2 * c.J * Cdf(Quan(c.F[q], t.p[q], c.J))) \div 64)])
KnownOK(c, t, a) == c.acq = "EI_MCMC" /\ c.J # 0 /\ Feasible(c, t) /\
                    Abs(a * NS(c) * Cost(c, t) + KnownV(c, t)) <= NS(c) * (Cost(c, t) + ErrV("EI") + c.J + 4)
KnownGradOK(c, t, da) ==
  c.acq = "EI_MCMC" /\ c.J # 0 /\ Feasible(c, t) /\
  \A d \in 1..Len(da) :
    LET v == Cost(c, t)  g == CostG(c, t, d) IN
    Abs(da[d] * NS(c) * v * v + SumG(c, t, d) * v - KnownV(c, t) * g)
           <= NS(c) * (v * v + Abs(g) * (ErrV("EI") + c.J + 4)) + v * (SumErrG(c, t, d) + 2)
T(c, e, i) == c.tab[e.I[i]]
Good(c, e) == {i \in 1..Len(e.a) : ValueOK(c, T(c, e, i), e.a[i])}
Clauses(c, s, e) ==
  CASE e.op = "val" ->
         { <<"C15.shape", Len(e.a) = Len(e.I)>>,
           <<"C15." \o Base(c.acq), \A i \in 1..Len(e.a) : ValueOK(c, T(c, e, i), e.a[i]) \/ KnownOK(c, T(c, e, i), e.a[i])>>,
           <<"C15.known.ei_mcmc_jitter", \A i \in 1..Len(e.a) : ValueOK(c, T(c, e, i), e.a[i]) \/ ~KnownOK(c, T(c, e, i), e.a[i])>> }
         \cup (IF c.cons # <<>> THEN {<<"C15.infeasible_zero", \A i \in 1..Len(e.a) : ~Feasible(c, T(c, e, i)) => e.a[i] = 0>>} ELSE {})
    [] e.op = "grad" ->
         { <<"C15.shape", Len(e.a) = Len(e.I) /\ Len(e.da) = Len(e.I)>>,
           <<"C15." \o Base(c.acq), \A i \in 1..Len(e.a) : ValueOK(c, T(c, e, i), e.a[i]) \/ KnownOK(c, T(c, e, i), e.a[i])>>,
           <<"C15.known.ei_mcmc_jitter", \A i \in 1..Len(e.a) : ValueOK(c, T(c, e, i), e.a[i]) \/ ~KnownOK(c, T(c, e, i), e.a[i])>>,
           <<"C15.gradient", \A i \in 1..Len(e.da) : GradOK(c, T(c, e, i), e.da[i]) \/ KnownGradOK(c, T(c, e, i), e.da[i])>> }
         \cup (IF c.costed THEN {<<"C15.perunit", Len(e.a) > 0>>} ELSE {})
         \cup (IF NS(c) > 1 THEN {<<"C15.integrated", Len(e.a) > 0>>} ELSE {})
    [] e.op = "diff" ->
         { <<"C15.agree", Abs(e.f0 - e.f1) <= 1>>,
           <<"C15.derivative", \A d \in 1..Len(e.df) : Abs(e.num[d] - e.df[d]) <= 30 + Max2(Abs(e.num[d]), Abs(e.df[d])) \div 100>> }
    [] e.op = "rows" ->
         { <<"C15.rowwise", Abs(e.f0 - e.f1) <= 1 /\ Len(e.a) = Len(e.b) /\ \A d \in 1..Len(e.a) : Abs(e.a[d] - e.b[d]) <= 2 + Abs(e.b[d]) \div 10000>> }
    [] OTHER -> { <<"C15.raise", FALSE>> }
Post(c, s, e) == [s EXCEPT !.n = @ + 1]
=============================================================================
