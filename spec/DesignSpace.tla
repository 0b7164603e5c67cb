----------------------------- MODULE DesignSpace -----------------------------
(***************************************************************************)
(* The search space: variables, their expansion, the encoding of a         *)
(* location for the surrogate ("encode": one-hot categories), the decoding  *)
(* ("decode"), rounding, bounds, index maps, names and legality.              *)
(*                                                                         *)
(* All numbers are integers: a real number v is represented by v*U for the *)
(* unit U of the trace or model (the drivers only use values that are      *)
(* multiples of 1/U, or ranks when only order and equality matter).        *)
(*                                                                         *)
(* A variable is a record                                                  *)
(*   [name, t \in {"continuous","discrete","categorical","bandit"},         *)
(*    dom: <<lo,hi>> | list of values | list of codes 0..k-1 (times U),    *)
(*    arms: list of vectors (bandit only, else << >>), dim: Nat]            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Abs(a) == IF a < 0 THEN -a ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
Rng(s) == {s[i] : i \in 1..Len(s)}
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Const(n, v) == [i \in 1..n |-> v]

IsBandit(space) == \E i \in 1..Len(space) : space[i].t = "bandit"

\* variables whose dimensionality exceeds one become that many scalar variables
ExpandVar(v) ==
  IF v.t = "bandit" THEN <<v>>
  ELSE [k \in 1..v.dim |-> [v EXCEPT !.dim = 1,
         !.name = IF v.dim > 1 THEN v.name \o "_" \o ToString(k) ELSE v.name]]
Expand(space) == FlattenSeq([i \in 1..Len(space) |-> ExpandVar(space[i])])

\* width of a scalar variable in the encoded (model) and raw (objective) space
WModel(v) == CASE v.t = "categorical" -> Len(v.dom)
               [] v.t = "bandit"      -> Len(v.arms[1])
               [] OTHER               -> 1
WObj(v)   == IF v.t = "bandit" THEN Len(v.arms[1]) ELSE 1

ModelDim(space) == LET e == Expand(space) IN SumSeq([i \in 1..Len(e) |-> WModel(e[i])])
ObjDim(space)   == LET e == Expand(space) IN SumSeq([i \in 1..Len(e) |-> WObj(e[i])])

\* number of encoded / raw coordinates before the k-th scalar variable
OffModel(e, k) == SumSeq([i \in 1..(k-1) |-> WModel(e[i])])
OffObj(e, k)   == SumSeq([i \in 1..(k-1) |-> WObj(e[i])])
Slice(s, off, w) == [i \in 1..w |-> s[off + i]]

OneHot(v, x, U) == [j \in 1..Len(v.dom) |-> IF (j - 1) * U = x THEN U ELSE 0]

\* raw location -> encoded location
EncodeVar(v, xs, U) == IF v.t = "categorical" THEN OneHot(v, xs[1], U) ELSE xs
Encode(space, x, U) ==
  LET e == Expand(space) IN
  FlattenSeq([k \in 1..Len(e) |-> EncodeVar(e[k], Slice(x, OffObj(e, k), WObj(e[k])), U)])

\* encoded location -> raw location (only meaningful for legal encodings)
DecodeVar(v, zs, U) ==
  IF v.t = "categorical" THEN <<SumSeq([j \in 1..Len(zs) |-> (j - 1) * zs[j]])>> ELSE zs
Decode(space, z, U) ==
  LET e == Expand(space) IN
  FlattenSeq([k \in 1..Len(e) |-> DecodeVar(e[k], Slice(z, OffModel(e, k), WModel(e[k])), U)])

\* legality of a raw location
LegalVar(v, xs) ==
  CASE v.t = "continuous"  -> v.dom[1] <= xs[1] /\ xs[1] <= v.dom[2]
    [] v.t = "discrete"    -> xs[1] \in Rng(v.dom)
    [] v.t = "categorical" -> xs[1] \in Rng(v.dom)
    [] v.t = "bandit"      -> xs \in Rng(v.arms)
Legal(space, x) ==
  LET e == Expand(space) IN
  /\ Len(x) = ObjDim(space)
  /\ \A k \in 1..Len(e) : LegalVar(e[k], Slice(x, OffObj(e, k), WObj(e[k])))

\* legality of an encoded location
LegalEnc(space, z, U) ==
  LET e == Expand(space) IN
  /\ Len(z) = ModelDim(space)
  /\ \A k \in 1..Len(e) :
       LET zs == Slice(z, OffModel(e, k), WModel(e[k])) IN
       IF e[k].t = "categorical"
       THEN \E j \in 1..Len(zs) : zs = [i \in 1..Len(zs) |-> IF i = j THEN U ELSE 0]
       ELSE LegalVar(e[k], zs)

\* the encoded bounds, one <<lo,hi>> per encoded coordinate
BoundsVar(v, U) ==
  CASE v.t = "continuous"  -> << <<v.dom[1], v.dom[2]>> >>
    [] v.t = "discrete"    -> << <<SetMin(Rng(v.dom)), SetMax(Rng(v.dom))>> >>
    [] v.t = "categorical" -> Const(Len(v.dom), <<0, U>>)
    [] v.t = "bandit"      -> [d \in 1..Len(v.arms[1]) |->
                                 LET S == {v.arms[a][d] : a \in 1..Len(v.arms)} IN <<SetMin(S), SetMax(S)>>]
Bounds(space, U) == LET e == Expand(space) IN FlattenSeq([k \in 1..Len(e) |-> BoundsVar(e[k], U)])

\* rounding: the set of acceptable results per scalar variable (ties leave a choice)
Dist2(a, b) == SumSeq([i \in 1..Len(a) |-> (a[i] - b[i]) * (a[i] - b[i])])
RoundVarSet(v, zs, U) ==
  CASE v.t = "continuous"  -> { <<Min2(Max2(zs[1], v.dom[1]), v.dom[2])>> }
    [] v.t = "discrete"    -> { <<d>> : d \in {d \in Rng(v.dom) : \A f \in Rng(v.dom) : Abs(d - zs[1]) <= Abs(f - zs[1])} }
    [] v.t = "categorical" -> { [i \in 1..Len(zs) |-> IF i = j THEN U ELSE 0] :
                                  j \in {j \in 1..Len(zs) : \A i \in 1..Len(zs) : zs[j] >= zs[i]} }
    [] v.t = "bandit"      -> { a \in Rng(v.arms) : \A b \in Rng(v.arms) : Dist2(a, zs) <= Dist2(b, zs) }
IsRounding(space, z, r, U) ==
  LET e == Expand(space) IN
  /\ Len(r) = ModelDim(space)
  /\ \A k \in 1..Len(e) :
       Slice(r, OffModel(e, k), WModel(e[k])) \in RoundVarSet(e[k], Slice(z, OffModel(e, k), WModel(e[k])), U)

\* all legal raw values of a non-continuous scalar variable, as vectors
ValuesVar(v) == IF v.t = "bandit" THEN Rng(v.arms) ELSE {<<d>> : d \in Rng(v.dom)}
RECURSIVE CrossFrom(_, _)
CrossFrom(e, k) ==
  IF k > Len(e) THEN { <<>> }
  ELSE { a \o b : a \in ValuesVar(e[k]), b \in CrossFrom(e, k + 1) }
\* all legal raw locations of a finite space
AllLegal(space) == CrossFrom(Expand(space), 1)
IsFinite(space) == \A i \in 1..Len(space) : space[i].t # "continuous"

\* 0-based index maps, as the library reports them
IndexObj(e, k)   == [i \in 1..WObj(e[k])   |-> OffObj(e, k) + i - 1]
IndexModel(e, k) == [i \in 1..WModel(e[k]) |-> OffModel(e, k) + i - 1]

\* theorem used as an invariant of MC_DesignSpace
RoundTrip(space, x, U) == Decode(space, Encode(space, x, U), U) = x
EncLegal(space, x, U)  == LegalEnc(space, Encode(space, x, U), U)
==============================================================================
