--------------------------- MODULE Gen_DesignSpace ---------------------------
(* Random search spaces of the universe with random legal locations and     *)
(* random encoded points (with ties), printed as JSON test cases.           *)
EXTENDS DSUniverse, Json
CONSTANTS MaxVars, MaxBands, PerRun
VARIABLES n, out
Pick(S) == RandomElement(IF n >= 0 THEN S ELSE {})   \* state level, or TLC caches the draw
Coord(v) == CASE v.t = "continuous" -> <<Pick(v.dom[1]..v.dom[2])>> [] OTHER -> Pick(ValuesVar(v))
RandLoc(e, i) == FlattenSeq([k \in 1..Len(e) |-> Coord(e[k])])
RandEncVar(v) == CASE v.t = "categorical" -> [i \in 1..Len(v.dom) |-> Pick({0, 0, 1, 2, 3, 4})]
                   [] v.t = "continuous" -> <<Pick((v.dom[1] - 9)..(v.dom[2] + 9))>>
                   [] v.t = "discrete" -> <<Pick((SetMin(Rng(v.dom)) - 3)..(SetMax(Rng(v.dom)) + 3))>>
                   [] OTHER -> [i \in 1..Len(v.arms[1]) |-> Pick(-6..9)]
RandEnc(e, i) == FlattenSeq([k \in 1..Len(e) |-> RandEncVar(e[k])])
\* many values, many coordinates
BigPrims == << V("categorical", CatDom(12), <<>>, 1), V("categorical", CatDom(200), <<>>, 1), V("discrete", [i \in 1..150 |-> 75 - i], <<>>, 1), V("discrete", [i \in 1..40 |-> ((i * 17) % 41) - 20], <<>>, 1), V("continuous", <<-3, 9>>, <<>>, 12), V("discrete", <<0, 4>>, <<>>, 6) >>
BigBands == << V("bandit", <<>>, [i \in 1..30 |-> <<((i * 7) % 31) - 9, (i * i) % 13>>], 1), V("bandit", <<>>, [i \in 1..12 |-> [d \in 1..5 |-> ((i * 5 + d * d * i) % 17) - 8]], 1) >>
Space(i) == LET un == Pick(1..4) = 1  b == Pick(1..6) = 1  k == IF b THEN Pick(1..MaxBands) ELSE Pick(1..MaxVars) IN
            Named([j \in 1..k |-> IF b THEN (IF j = 1 /\ Pick(1..3) = 1 THEN BigBands[Pick(1..Len(BigBands))] ELSE Bands[Pick(1..Len(Bands))])
                                   ELSE IF j = 1 /\ Pick(1..3) = 1 THEN BigPrims[Pick(1..Len(BigPrims))] ELSE Prims[Pick(1..Len(Prims))]], un)
\* the same lattice with H times as many points: locations next to the values of a variable
Fine(v, H) == [v EXCEPT !.dom = [i \in 1..Len(v.dom) |-> v.dom[i] * H], !.arms = [i \in 1..Len(v.arms) |-> [d \in 1..Len(v.arms[i]) |-> v.arms[i][d] * H]]]
FineLoc(x, H) == [i \in 1..Len(x) |-> x[i] * H]
Near(z, H) == [i \in 1..Len(z) |-> IF H = 1 THEN z[i] ELSE z[i] * H + Pick({-1, 0, 0, 1})]
Case(i) == LET sp == TLCEval(Space(i)) e == TLCEval(Expand(sp))  H == TLCEval(Pick(IF IsBandit(sp) \/ \E k \in 1..Len(e) : Len(e[k].dom) > 20 THEN {1, 1, 1024} ELSE {1, 1, 1024, 1048576}))
               X == TLCEval([j \in 1..3 |-> RandLoc(e, j)]) IN
   [c |-> [space |-> [j \in 1..Len(sp) |-> Fine(sp[j], H)], U |-> U0 * H], X |-> [j \in 1..3 |-> FineLoc(X[j], H)],
    Z |-> [j \in 1..5 |-> TLCEval(Near(RandEnc(e, j), H))] \o (IF H = 1 THEN <<>> ELSE [j \in 1..3 |-> TLCEval(Near(Encode(sp, X[j], U0), H))]),
    scale |-> TLCEval(Pick(1..5)),
    vars |-> SelectSeq([j \in 1..Len(e) |-> j], LAMBDA j : Pick(1..2) = 1), variant |-> Pick(0..7)]
Init == n = 0 /\ out = <<>>
Next == n < PerRun /\ n' = n + 1 /\ out' = TLCEval(Case(n))
Spec == Init /\ [][Next]_<<n, out>>
Emit == n > 0 => PrintT(ToJson(out))
=============================================================================
