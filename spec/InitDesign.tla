----------------------------- MODULE InitDesign -----------------------------
(***************************************************************************)
(* Initial designs: size, legality and stratification.                      *)
(* Event [op |-> "design", name, n, rows, P, big]:  n requested locations,  *)
(* rows returned (coordinates as in DesignSpace), P the positions of the    *)
(* continuous coordinates inside their bounds, in units of 1/Q;             *)
(* big: n is so large that every legal value has to appear.                 *)
(***************************************************************************)
EXTENDS DesignSpace
Q == 1000000

\* slice of position p when the range is cut into m equal slices (closed at the top)
SliceOf(p, m) == Min2((p * m) \div Q, m - 1)
Count(P, k, m, j) == Cardinality({i \in 1..Len(P) : SliceOf(P[i][k], m) = j})

\* one location per slice: the j-th smallest lies in the j-th slice (up to the rounding of positions)
LatinOK(P, n, d) == \A k \in 1..d :
   LET S == SortSeq([i \in 1..Len(P) |-> P[i][k]], LAMBDA a, b : a < b) IN
   Len(P) = n /\ \A j \in 1..n : S[j] * n >= (j - 1) * Q - n /\ S[j] * n <= j * Q + n

Dyadic(n) == {m \in {1, 2, 4, 8, 16, 32, 64} : m <= 2 * n}
SobolOK(P, n, d) == \A k \in 1..d : \A m \in Dyadic(n) : \A j \in 0..(m - 1) :
   /\ Count(P, k, m, j) >= n \div m - 1
   /\ Count(P, k, m, j) <= (n + 1) \div m + 1

RECURSIVE Pow(_, _)
Pow(a, b) == IF b = 0 THEN 1 ELSE a * Pow(a, b - 1)
Root(n, d) == CHOOSE k \in 1..n : Pow(k, d) <= n /\ Pow(k + 1, d) > n

\* index of the grid value at position p, or -1
GridIdx(p, k) == IF k = 1 THEN (IF p <= 2 THEN 0 ELSE -1)
                 ELSE LET i == (p * (k - 1) + Q \div 2) \div Q IN
                      IF Abs(p * (k - 1) - i * Q) <= 3 * k THEN i ELSE -1
GridOK(P, n, d) ==
  LET k == Root(n, d) G == [i \in 1..Len(P) |-> [j \in 1..d |-> GridIdx(P[i][j], k)]] IN
  /\ Len(P) = Pow(k, d)
  /\ Rng(G) = [1..d -> 0..(k - 1)]

NCont(space) == Cardinality({k \in 1..Len(Expand(space)) : Expand(space)[k].t = "continuous"})
Size(space, name, n) == IF name = "grid" /\ NCont(space) > 0 THEN Pow(Root(n, NCont(space)), NCont(space)) ELSE n

\* every value of every non-continuous variable appears, every quarter of every continuous range is met
Covers(space, rows) ==
  LET e == Expand(space) IN
  \A k \in 1..Len(e) : e[k].t # "continuous" =>
     ValuesVar(e[k]) \subseteq {Slice(rows[i], OffObj(e, k), WObj(e[k])) : i \in 1..Len(rows)}
Spread(P, d) == \A k \in 1..d : \A j \in 0..3 : Count(P, k, 4, j) > 0

Clauses(c, e) ==
  LET sp == c.space d == NCont(sp) IN
  CASE e.op = "design" ->
         { <<"C11.size", Len(e.rows) = Size(sp, e.name, e.n)>>,
           <<"C11.legal", \A i \in 1..Len(e.rows) : Legal(sp, e.rows[i])>> }
         \cup (IF Len(e.rows) # Size(sp, e.name, e.n) \/ Len(e.P) # Len(e.rows) \/ d = 0 THEN {}
               ELSE CASE e.name = "latin" -> { <<"C11.latin", LatinOK(e.P, e.n, d)>> }
                      [] e.name = "sobol" -> { <<"C11.sobol", SobolOK(e.P, e.n, d)>> }
                      [] e.name = "grid"  -> { <<"C11.grid", GridOK(e.P, e.n, d)>> }
                      [] OTHER -> IF e.big THEN { <<"C11.spread", Spread(e.P, d)>> } ELSE {})
         \cup (IF e.big /\ Len(e.rows) >= 200 THEN { <<"C11.covers", Covers(sp, e.rows)>> } ELSE {})
    \* d continuous variables with arbitrary real bounds; -1 and Q + 1 are positions outside of them
    [] e.op = "box" ->
         { <<"C11.size", Len(e.P) = (IF e.name = "grid" THEN Pow(Root(e.n, e.d), e.d) ELSE e.n)>>,
           <<"C11.inside", \A i \in 1..Len(e.P) : Len(e.P[i]) = e.d /\ \A j \in 1..Len(e.P[i]) : e.P[i][j] \in 0..Q>>,
           <<"C11.strata", CASE e.name = "latin" -> LatinOK(e.P, e.n, e.d)
                             [] e.name = "sobol" -> SobolOK(e.P, e.n, e.d)
                             [] e.name = "grid" -> GridOK(e.P, e.n, e.d)
                             [] OTHER -> TRUE>> }
    [] e.op = "count" -> { <<"C11.size", e.got = Size(sp, e.name, e.n)>> }
    [] e.op = "unknown" -> { <<"C11.unknown", e.rejected>> }
    [] OTHER -> { <<"C11.raise", FALSE>> }
=============================================================================
