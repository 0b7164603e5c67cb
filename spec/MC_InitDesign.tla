---------------------------- MODULE MC_InitDesign ----------------------------
(* The stratification predicates accept what they should and nothing less:  *)
(* all permutation designs are Latin, any map that is not one is rejected;  *)
(* radical-inverse sequences fill dyadic slices; grids have k^d points.     *)
EXTENDS InitDesign
CONSTANTS NMax
VARIABLES kind, n, d, p
Perm(m) == {f \in [1..m -> 0..(m - 1)] : {f[i] : i \in 1..m} = 0..(m - 1)}
RECURSIVE VdC(_, _)
VdC(i, b) == IF i = 0 THEN 0 ELSE (IF i % 2 = 1 THEN b ELSE 0) + VdC(i \div 2, b \div 2)
Init == \/ kind = "latin" /\ n \in 1..NMax /\ d = 1 /\ p \in [1..n -> 0..(n - 1)]
        \/ kind = "sobol" /\ n \in 1..60 /\ d = 1 /\ p = <<>>
        \/ kind = "grid" /\ n \in 1..70 /\ d \in 1..4 /\ p = <<>>
Next == UNCHANGED <<kind, n, d, p>>
Spec == Init /\ [][Next]_<<kind, n, d, p>>
Mid(f, m) == [i \in 1..m |-> <<((2 * f[i] + 1) * Q) \div (2 * m)>>]
Latin == kind = "latin" => (LatinOK(Mid(p, n), n, 1) <=> {p[i] : i \in 1..n} = 0..(n - 1))
Sobol == kind = "sobol" => /\ SobolOK([i \in 1..n |-> <<VdC(i, Q \div 2)>>], n, 1)
                           /\ SobolOK([i \in 1..n |-> <<VdC(i - 1, Q \div 2)>>], n, 1)
                           /\ n >= 8 => ~SobolOK([i \in 1..n |-> <<(i * Q) \div (2 * n)>>], n, 1)
Cells(k) == [1..d -> 0..(k - 1)]
Grid == kind = "grid" => LET k == Root(n, d) S == SetToSeq(Cells(k)) IN
   /\ Pow(k, d) <= n /\ Pow(k + 1, d) > n
   /\ GridOK([i \in 1..Len(S) |-> [j \in 1..d |-> IF k = 1 THEN 0 ELSE (S[i][j] * Q) \div (k - 1)]], n, d)
   /\ k > 1 => ~GridOK([i \in 1..Len(S) |-> [j \in 1..d |-> ((2 * S[i][j] + 1) * Q) \div (2 * k)]], n, d)
=============================================================================
