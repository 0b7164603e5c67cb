-------------------------- MODULE Gen_EntropySearch --------------------------
(* Beliefs, scored candidates, lives and proposals for EntropySearch.       *)
EXTENDS EntropySearch, Json
CONSTANTS PerRun
VARIABLES n, out
Pick(S) == RandomElement(IF n >= 0 THEN S ELSE {})
Chance(k) == Pick(1..100) <= k
\* a covariance: A A' + diagonal
RECURSIVE Dot(_, _, _)
Dot(a, b, k) == IF k = 0 THEN 0 ELSE a[k] * b[k] + Dot(a, b, k - 1)
Gram(A, d) == [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> Dot(A[i], A[j], Len(A[1])) + IF i = j THEN d[i] ELSE 0]]
RandGram(N) == LET A == TLCEval([i \in 1..N |-> [j \in 1..N |-> Pick(-3..3)]])  d == TLCEval([i \in 1..N |-> Pick(1..4)]) IN Gram(A, d)
\* exchangeable: constant diagonal and correlation; blocks; independent
Equi(N) == LET v == TLCEval(Pick(2..12))  w == TLCEval(Pick(0..(v - 1))) IN [i \in 1..N |-> [j \in 1..N |-> IF i = j THEN v ELSE w]]
Diag(N) == LET d == TLCEval([i \in 1..N |-> Pick(1..20)]) IN [i \in 1..N |-> [j \in 1..N |-> IF i = j THEN d[i] ELSE 0]]
Perms(N) == {f \in [1..N -> 1..N] : \A i, j \in 1..N : i # j => f[i] # f[j]}
Means(N) == LET w == TLCEval(Pick({1, 3, 6, 6, 12, 30})) IN IF Chance(15) THEN [i \in 1..N |-> w] ELSE TLCEval([i \in 1..N |-> Pick((-w)..w)])
Belief(i) == LET N == TLCEval(Pick({2, 2, 3, 3, 4, 5, 6})) IN
  [c |-> [k |-> "belief", mu |-> TLCEval(Means(N)),
          V |-> TLCEval(IF Chance(55) THEN RandGram(N) ELSE IF Chance(60) THEN Equi(N) ELSE Diag(N))],
   perm |-> TLCEval(Pick(Perms(N))), shift |-> TLCEval(Pick({-1000, -7, 5, 64, 4096})), mag |-> TLCEval(Pick({-20, -8, -3, -1})),
   low |-> TLCEval(Pick(1..N)), by |-> TLCEval(Pick({1, 2, 5}))]
Scored(i) == LET m == TLCEval(Pick(2..5)) IN
  [c |-> [k |-> "score", z |-> TLCEval(Pick(-6..6)), q |-> TLCEval(Pick(1..3)), u |-> TLCEval(IF Chance(30) THEN <<0, 0>> ELSE <<Pick(-8..8), Pick(-8..8)>>),
          hopeless |-> TLCEval(Pick({0, 0, 1, 3})), drop |-> TLCEval(Pick({0, 0, 1, 2})),
          cand |-> [j \in 1..m |-> TLCEval([r |-> Pick(1..5), v |-> Pick(1..4)])]],
   flip |-> TLCEval([j \in 1..m |-> Pick({-1, 1})]), common |-> TLCEval([j \in 1..2 |-> Pick(-40..40)]), base |-> TLCEval(Pick({-1000, -3, 0, 17, 300})),
   dim |-> TLCEval(Pick(1..2)), mag |-> TLCEval(Pick({0, 0, -4, 6})), costed |-> TLCEval(Chance(40)), I |-> TLCEval([j \in 1..Pick(1..4) |-> Pick(1..m)]),
   seed |-> TLCEval(Pick(1..100000))]
Op(i) == LET r == Pick(1..10) IN TLCEval(CASE r <= 4 -> "probe" [] r <= 6 -> "data" [] r = 7 -> "values" [] r = 8 -> "params" [] r = 9 -> "optimize" [] OTHER -> "same")
Life(i) == [c |-> [k |-> "life"], ops |-> [j \in 1..TLCEval(Pick(5..9)) |-> Op(j)], dim |-> TLCEval(Pick(1..2)), reps |-> TLCEval(Pick({4, 7, 12})),
            loop |-> TLCEval(Chance(35)), noise |-> TLCEval(Pick({"exact", "given", "free"})), ask |-> TLCEval(Chance(50)), seed |-> TLCEval(Pick(1..100000))]
Prop(i) == [c |-> [k |-> "prop"], dim |-> TLCEval(Pick(1..3)), pts |-> [j \in 1..6 |-> TLCEval([k |-> Pick(-24..24), S |-> Pick(1..16), inside |-> Chance(70), ax |-> Pick(1..3), far |-> Pick({1, 2, 50, -1, -2, -50})])],
            base |-> TLCEval(Pick({-100, 0, 9})), seed |-> TLCEval(Pick(1..100000))]
Case(i) == LET r == Pick(1..100) IN IF r <= 30 THEN Belief(i) ELSE IF r <= 65 THEN Scored(i) ELSE IF r <= 87 THEN Life(i) ELSE Prop(i)
Init == n = 0 /\ out = <<>>
Next == n < PerRun /\ n' = n + 1 /\ out' = TLCEval(Case(n))
Spec == Init /\ [][Next]_<<n, out>>
Emit == n > 0 => PrintT(ToJson(out))
===============================================================================
