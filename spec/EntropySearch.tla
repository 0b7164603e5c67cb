---------------------------- MODULE EntropySearch ----------------------------
(***************************************************************************)
(* Entropy search (C23): the belief about where the minimum is, the score   *)
(* of a location, and the life of a belief.                                 *)
(* Configurations:                                                          *)
(*  belief  mu, V integers: a joint Gaussian over representer points        *)
(*  score   two candidates z/2 deviations of their difference apart, with   *)
(*          log-densities u (in quarters), further points that cannot be    *)
(*          the minimum or have no density; cand: locations to score with   *)
(*          their correlation to the difference (index into Cosines) and    *)
(*          their cost; q: number of innovations (index into Samples)       *)
(*  life    a surrogate that is refitted while locations are scored         *)
(*  prop    the default density of representer points                       *)
(* Probabilities and scores are times 10^6.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, NormalTable, EntropyTable
S0 == [p |-> <<>>, low |-> 0, last |-> <<>>]
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
SumOf(f) == SumTo(f, Len(f))
\* largest k <= 400 with k^2 * b <= a
RECURSIVE Root(_, _, _, _)
Root(a, b, lo, hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m * b <= a THEN Root(a, b, m, hi) ELSE Root(a, b, lo, m - 1)
\* the distribution function at k/64, interpolated
Cdf64(k) == LET a == k \div 8  r == k % 8 IN IF k >= 384 THEN Scale ELSE IF k <= -384 THEN 0 ELSE Cdf(a) + (r * (Cdf(a + 1) - Cdf(a))) \div 8
InterErr == 700
\* bounds of the probability that i is below j
Spread(V, i, j) == V[i][i] + V[j][j] - 2 * V[i][j]
Quant64(d, v) == LET k == Root(4096 * Min2(Abs(d), 500) * Min2(Abs(d), 500), v, 0, 400) IN
                 IF d >= 0 THEN <<k, IF k * k * v = 4096 * d * d THEN k ELSE k + 1>> ELSE <<IF k * k * v = 4096 * d * d THEN -k ELSE -k - 1, -k>>
PairLo(c, mu, i, j) == Cdf64(Quant64(mu[j] - mu[i], Spread(c.V, i, j))[1])
PairHi(c, mu, i, j) == Cdf64(Quant64(mu[j] - mu[i], Spread(c.V, i, j))[2])
Others(c, i) == {j \in 1..Len(c.mu) : j # i}
\* i is the minimum only if it is below every other (Frechet bounds)
UpperOK(c, mu, i, p, tol) == \A j \in Others(c, i) : p <= PairHi(c, mu, i, j) + tol
Missing(c, mu, i) == [j \in 1..Len(c.mu) |-> IF j = i THEN 0 ELSE Scale - PairLo(c, mu, i, j)]
LowerOK(c, mu, i, p, tol) == p >= Scale - SumOf(Missing(c, mu, i)) - tol * Len(c.mu)
EPTol == 3000
Low(j, l) == (j * (j - 1)) \div 2 + l
Swaps(c, i, j) == LET s(k) == IF k = i THEN j ELSE IF k = j THEN i ELSE k IN \A a, b \in 1..Len(c.mu) : c.V[s(a)][s(b)] = c.V[a][b]
\* expected score of a candidate
Score(c, k) == Ent(c.q, c.z, c.cand[k].r) + (c.u[1] * Prob(c.q, c.z, c.cand[k].r) + c.u[2] * (Scale - Prob(c.q, c.z, c.cand[k].r))) \div 4
EIval(k, S) == (S * (k * Cdf(k) + 8 * Dens(k))) \div 64
Clauses(c, s, e) ==
  CASE e.op = "min" ->                   \* probabilities p of mu and V; low: the mean of this point lowered by one
         LET N == Len(c.mu)
             mu == [i \in 1..N |-> IF i = e.low THEN c.mu[i] - e.by ELSE c.mu[i]] IN
         { <<"C23.sum", Len(e.p) = N /\ Abs(SumOf(e.p) - Scale) <= 2 * N>> }
         \cup (IF Len(e.p) # N THEN {} ELSE
         { <<IF N = 2 THEN "C23.two" ELSE "C23.bounds", \A i \in 1..N : UpperOK(c, mu, i, e.p[i], InterErr + EPTol) /\ LowerOK(c, mu, i, e.p[i], InterErr + EPTol)>>,
           <<"C23.exchangeable", \A i, j \in 1..N : (i < j /\ Swaps(c, i, j)) =>
                 /\ (mu[i] = mu[j]) => Abs(e.p[i] - e.p[j]) <= 1000
                 /\ (mu[i] < mu[j]) => e.p[i] >= e.p[j] - 1000>> }
         \cup (IF s.p # <<>> /\ e.low = s.low THEN {<<"C23.invariant", \A i \in 1..N : Abs(e.p[i] - s.p[i]) <= 1000>>} ELSE {})
         \cup (IF s.p # <<>> /\ e.low # 0 /\ s.low = 0 THEN {<<"C23.lowered", \A i \in 1..N : IF i = e.low THEN e.p[i] >= s.p[i] - EPTol ELSE e.p[i] <= s.p[i] + EPTol>>} ELSE {}))
    [] e.op = "deriv" ->                 \* D: derivatives of log p by the means (10^3), p times 10^4
         LET N == Len(c.mu) IN
         { <<"C23.translation", \A i \in 1..N : Abs(SumOf(e.D[i])) <= N + 1>>,
           <<"C23.normalised", \A j \in 1..N : Abs(SumOf([i \in 1..N |-> e.p[i] * e.D[i][j]])) <= 40000 + 20 * N * 500>>,
           \* S, H (10^4): derivatives by the covariances (rows of the lower triangle one after the other), second derivatives by the means
           <<"C23.common", \A i \in 1..N : Abs(SumOf(e.S[i])) <= N * N>>,
           <<"C23.scale", \A i \in 1..N : Abs(SumOf([j \in 1..N |-> c.mu[j] * e.D[i][j] * 10 + 2 * SumOf([l \in 1..j |-> c.V[j][l] * e.S[i][Low(j, l)]])]))
                                       <= 200 + SumOf([j \in 1..N |-> 5 * Abs(c.mu[j]) + SumOf([l \in 1..j |-> Abs(c.V[j][l])])])>>,
           <<"C23.curvature", \A i, j \in 1..N : Abs(SumOf(e.H[i][j])) <= 50 /\ \A l \in 1..N : Abs(e.H[i][j][l] - e.H[i][l][j]) <= 50>>,
           <<"C23.heat", \A i, j \in 1..N : \A l \in 1..j :
                 Abs((IF j = l THEN 2 ELSE 1) * e.S[i][Low(j, l)] - e.H[i][j][l] - (e.D[i][j] * e.D[i][l]) \div 100) <= 600 + (Abs(e.D[i][j]) + Abs(e.D[i][l])) \div 10>> }
    [] e.op = "score" ->
         { <<"C23.shape", Len(e.a) = Len(e.I)>> }
         \cup {<<IF c.cand[e.I[i]].r = 1 THEN "C23.baseline" ELSE "C23.gain",
                 i \in 1..Len(e.a) /\ Abs(e.a[i] * c.cand[e.I[i]].v + Score(c, e.I[i])) <= 40 + 3 * c.cand[e.I[i]].v>> : i \in 1..Len(e.I)}
         \cup (IF Len(e.I) > 1 THEN {<<"C23.together", Len(e.a) = Len(e.I)>>} ELSE {})
         \cup (IF c.hopeless > 0 THEN {<<"C23.hopeless", Len(e.a) = Len(e.I)>>} ELSE {})
         \cup (IF c.drop > 0 THEN {<<"C23.dropped", Len(e.a) = Len(e.I)>>} ELSE {})
    [] e.op = "fit" -> {}
    [] e.op = "probe" ->                 \* a: scores now; b: of an entropy search that was created now
         { <<"C23.current", Len(e.a) = Len(e.b) /\ \A i \in 1..Len(e.a) : Abs(e.a[i] - e.b[i]) <= 2>> }
         \cup (IF s.last # <<>> THEN {<<"C23.steady", \A i \in 1..Len(e.a) : Abs(e.a[i] - s.last[i]) <= 2>>} ELSE {})
    [] e.op = "prop" -> { <<IF e.inside THEN "C23.proposal" ELSE "C23.outside", IF e.inside THEN Abs(e.a - EIval(e.k, e.S)) <= 30 ELSE e.a = 0>> }
    [] e.op = "samples" -> { <<"C23.samples", e.n = e.want /\ e.inside /\ e.logs>> }
    [] e.op = "refuse" -> { <<"C23.refused", e.raised>> }
    [] OTHER -> { <<"C23.raise", FALSE>> }
Post(c, s, e) == CASE e.op = "min" -> [s EXCEPT !.p = e.p, !.low = e.low]
                   [] e.op = "fit" -> [s EXCEPT !.last = <<>>]
                   [] e.op = "probe" -> [s EXCEPT !.last = e.a]
                   [] OTHER -> s
===============================================================================
