-------------------------- MODULE MC_EntropySearch --------------------------
(* The specification against itself: tables, bounds, and the life of a      *)
(* belief (a surrogate with versions, scored by an acquisition that keeps   *)
(* what it computed).  Variant: "good"; "once" (computed at the first score *)
(* only); "data" (refreshed with new data, not with new parameters).        *)
EXTENDS EntropySearch
CONSTANTS Variant, MaxVer
VARIABLES data, par, belief, s, ok, V, mu
vars == <<data, par, belief, s, ok, V, mu>>
\* --- tables
ASSUME \A q \in 1..3, z \in -6..6, r \in 1..5 :
  /\ Abs(Ent(q, z, r) - Ent(q, -z, r)) <= 1 /\ Abs(Prob(q, z, r) + Prob(q, -z, r) - Scale) <= 1
  /\ Ent(q, z, r) \in -693148..0
  /\ Abs(Prob(q, z, 1) - Cdf(4 * z)) <= 1                       \* nothing learned: the belief itself
  /\ Ent(q, z, 1) = Ent(1, z, 1)
  /\ q > 1 => (r < 5 => Ent(q, z, r + 1) >= Ent(q, z, r) - 1)      \* more correlated, more certain
ASSUME \A q \in 1..3 : Abs(Ent(q, 0, 1) + 693147) <= 1
ASSUME \A k \in 0..383 : Cdf64(k + 1) >= Cdf64(k) /\ Abs(Cdf64(k) + Cdf64(-k) - Scale) <= 8
\* --- the life of a belief; scores are abstract, one per state of the surrogate
Val(d, p) == 10 * d + 100 * p
Init == /\ data = 0 /\ par = 0 /\ belief = <<>> /\ s = S0 /\ ok = TRUE
        /\ \E a, b \in 1..3, w \in -1..1, v \in 2..3 : V = << <<a + 1, w, 0>>, <<w, b + 1, w>>, <<0, w, v + 1>> >>
        /\ mu \in [1..3 -> {-3, 0, 1, 4}]
Fit == /\ data + par < MaxVer /\ \/ (data' = data + 1 /\ par' = par) \/ (par' = par + 1 /\ data' = data)
       /\ s' = Post([k |-> "life"], s, [op |-> "fit"]) /\ UNCHANGED <<belief, ok, V, mu>>
Fresh(b) == CASE Variant = "good" -> b # <<>> /\ b[1] = data /\ b[2] = par
              [] Variant = "data" -> b # <<>> /\ b[1] = data
              [] Variant = "once" -> b # <<>>
Probe == LET b == IF Fresh(belief) THEN belief ELSE <<data, par>>
             e == [op |-> "probe", a |-> <<Val(b[1], b[2])>>, b |-> <<Val(data, par)>>] IN
         /\ belief' = b /\ ok' = \A k \in Clauses([k |-> "life"], s, e) : k[2]
         /\ s' = Post([k |-> "life"], s, e) /\ UNCHANGED <<data, par, V, mu>>
Next == mu = <<0, 0, 0>> /\ V[1][2] = 0 /\ (Fit \/ Probe)      \* the bounds are judged at the start only
Spec == Init /\ [][Next]_vars
Current == ok
\* --- bounds: consistent, exact for two, and met by the distribution of exchangeable points
C == [V |-> V, mu |-> mu]
LowB(i) == Max2(0, Scale - SumOf(Missing(C, mu, i)))
UpB(i) == CHOOSE x \in {PairHi(C, mu, i, j) : j \in Others(C, i)} : \A j \in Others(C, i) : x <= PairHi(C, mu, i, j)
Start == data + par = 0 /\ belief = <<>>
Bounds3 == Start =>
           /\ \A i \in 1..3 : LowB(i) <= UpB(i) + 3 * InterErr
           /\ LowB(1) + LowB(2) + LowB(3) <= Scale + 6 * InterErr /\ UpB(1) + UpB(2) + UpB(3) >= Scale - 3 * InterErr
           /\ \A i, j \in 1..3 : i # j => Abs(PairLo(C, mu, i, j) + PairHi(C, mu, j, i) - Scale) <= 8
           /\ (mu[1] = mu[2] /\ mu[2] = mu[3]) => \A i \in 1..3 : UpperOK(C, mu, i, Scale \div 3, 0) /\ LowerOK(C, mu, i, Scale \div 3, 0)
Pair == Start => LET D == [V |-> << <<V[1][1], V[1][2]>>, <<V[2][1], V[2][2]>> >>, mu |-> <<mu[1], mu[2]>>] IN
        /\ PairHi(D, D.mu, 1, 2) - PairLo(D, D.mu, 1, 2) <= 6300
        /\ UpperOK(D, D.mu, 1, PairLo(D, D.mu, 1, 2), 0) /\ LowerOK(D, D.mu, 1, PairHi(D, D.mu, 1, 2), 0)
        /\ ~UpperOK(D, D.mu, 1, PairHi(D, D.mu, 1, 2) + 1, 0)
===============================================================================
