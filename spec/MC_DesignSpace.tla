--------------------------- MODULE MC_DesignSpace ---------------------------
(* Exhaustive check that the specified encoding, decoding, rounding, index *)
(* maps and bounds are mutually consistent, for every space of the         *)
(* universe, every lattice location and a grid of encoded points.          *)
EXTENDS DSUniverse
CONSTANTS MaxVars, MaxBands
VARIABLES sp, kind, p
Grid == {-5, 0, 1, 3, 9}
Lat(v) == CASE v.t = "continuous" -> {<<v.dom[1]>>, <<v.dom[1] + 1>>, <<v.dom[2]>>} [] OTHER -> ValuesVar(v)
RECURSIVE LocsFrom(_, _)
LocsFrom(e, k) == IF k > Len(e) THEN {<<>>} ELSE {a \o b : a \in Lat(e[k]), b \in LocsFrom(e, k + 1)}
Init == /\ sp \in SpacesOf(MaxVars, MaxBands)
        /\ \/ kind = "raw" /\ p \in LocsFrom(Expand(sp), 1)
           \/ kind = "enc" /\ p \in IF ModelDim(sp) <= 4 THEN [1..ModelDim(sp) -> Grid] ELSE {[i \in 1..ModelDim(sp) |-> (i * 3) % 7]}
Next == UNCHANGED <<sp, kind, p>>
Spec == Init /\ [][Next]_<<sp, kind, p>>
e == Expand(sp)
RawOK == kind = "raw" =>
   /\ Legal(sp, p) /\ RoundTrip(sp, p, U0) /\ EncLegal(sp, p, U0)
   /\ Len(Encode(sp, p, U0)) = ModelDim(sp)
   /\ IsRounding(sp, Encode(sp, p, U0), Encode(sp, p, U0), U0)
   /\ LET z == Encode(sp, p, U0) b == Bounds(sp, U0) IN
      Len(b) = Len(z) /\ \A i \in 1..Len(z) : b[i][1] <= z[i] /\ z[i] <= b[i][2]
\* legal encoded points round to themselves only, every point rounds to a legal one
RECURSIVE RoundAll(_, _)
RoundAll(z, k) == IF k > Len(e) THEN {<<>>}
   ELSE {a \o b : a \in RoundVarSet(e[k], Slice(z, OffModel(e, k), WModel(e[k])), U0), b \in RoundAll(z, k + 1)}
EncOK == kind = "enc" =>
   LET R == RoundAll(p, 1) IN
   /\ R # {} /\ \A r \in R : LegalEnc(sp, r, U0) /\ IsRounding(sp, p, r, U0) /\ RoundAll(r, 1) = {r}
   /\ LegalEnc(sp, p, U0) => R = {p}
IndexOK ==
   /\ FlattenSeq([k \in 1..Len(e) |-> IndexModel(e, k)]) = [i \in 1..ModelDim(sp) |-> i - 1]
   /\ FlattenSeq([k \in 1..Len(e) |-> IndexObj(e, k)]) = [i \in 1..ObjDim(sp) |-> i - 1]
   /\ \A i, j \in 1..Len(e) : e[i].name = e[j].name => i = j
=============================================================================
