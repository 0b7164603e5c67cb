-------------------------- MODULE Trace_DesignSpace --------------------------
(* Checks what the library reports about a search space (layout, encodings, *)
(* decodings, roundings, sub-spaces) against DesignSpace.                   *)
EXTENDS DesignSpace, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, bad, hit, done
tvars == <<tid, l, bad, hit, done>>

Select(s, P(_)) == SelectSeq([i \in 1..Len(s) |-> <<i, s[i]>>], LAMBDA p : P(p[2]))
Idx0(s, P(_)) == LET q == Select(s, P) IN [i \in 1..Len(q) |-> q[i][1] - 1]

RECURSIVE GridFrom(_, _)
GridFrom(ds, k) == IF k > Len(ds) THEN {<<>>} ELSE {<<a>> \o b : a \in Rng(ds[k].dom), b \in GridFrom(ds, k + 1)}

Clauses(c, e) ==
  LET sp == c.space  U == c.U  x == Expand(sp) IN
  CASE e.op = "layout" ->
         { <<"C09.names", e.names = [i \in 1..Len(x) |-> x[i].name]>>,
           <<"C09.types", e.types = [i \in 1..Len(x) |-> x[i].t]>>,
           <<"C09.bounds", e.bounds = Bounds(sp, U)>>,
           <<"C09.idx_model", e.idxm = [k \in 1..Len(x) |-> IndexModel(x, k)]>>,
           <<"C09.idx_obj", e.idxo = [k \in 1..Len(x) |-> IndexObj(x, k)]>>,
           <<"C09.model_dim", e.mdim = ModelDim(sp) /\ e.mdims = [k \in 1..Len(x) |-> WModel(x[k])]>>,
           <<"C09.obj_dim", ~IsBandit(sp) => e.odim = ObjDim(sp)>>,
           <<"C09.has_cont", e.hascont = (\E i \in 1..Len(sp) : sp[i].t = "continuous")>>,
           <<"C09.lookup", e.found = [i \in 1..Len(x) |-> i - 1] /\ e.unknown_rejected>>,
           <<"C09.values", \A k \in 1..Len(x) : x[k].t # "continuous" =>
                 IF x[k].t = "categorical"
                 THEN Rng(e.vals[k]) = {OneHot(x[k], d, U) : d \in Rng(x[k].dom)} /\ Len(e.vals[k]) = Len(x[k].dom)
                 ELSE Rng(e.vals[k]) = ValuesVar(x[k]) /\ Len(e.vals[k]) = Cardinality(ValuesVar(x[k]))>> }
         \cup (IF IsBandit(sp)
               THEN { <<"C09.arms", Len(sp) = 1 => e.arms = sp[1].arms>> }
               ELSE { <<"C09.dims_by_type", e.cdims = Idx0(x, LAMBDA v : v.t = "continuous")
                                         /\ e.ddims = Idx0(x, LAMBDA v : v.t = "discrete")>>,
                      <<"C09.cont_bounds", e.cbounds = LET q == SelectSeq(x, LAMBDA v : v.t = "continuous") IN [i \in 1..Len(q) |-> q[i].dom]>>,
                      <<"C09.grid", LET q == SelectSeq(x, LAMBDA v : v.t = "discrete") IN
                                    Rng(e.grid) = GridFrom(q, 1) /\ Len(e.grid) = Cardinality(GridFrom(q, 1))>> })
    [] e.op = "enc" ->     \* locations e.X encoded to e.Z
         { <<"C09.encode", e.Z = [i \in 1..Len(e.X) |-> Encode(sp, e.X[i], U)]>>,
           <<"C09.encoded_legal", \A i \in 1..Len(e.Z) : LegalEnc(sp, e.Z[i], U)>>,
           <<"C09.in_bounds", \A i \in 1..Len(e.Z) : LET b == Bounds(sp, U) IN
                Len(e.Z[i]) = Len(b) /\ \A j \in 1..Len(b) : b[j][1] <= e.Z[i][j] /\ e.Z[i][j] <= b[j][2]>> }
    [] e.op = "dec" ->     \* encoded locations e.Z decoded to e.X
         { <<"C09.decode", e.X = [i \in 1..Len(e.Z) |-> Decode(sp, e.Z[i], U)]>> }
    [] e.op = "rt" ->      \* encode, then decode
         { <<"C09.roundtrip", e.A = e.B>> }
    [] e.op = "round" ->
         { <<"C09.round", IsRounding(sp, e.z, e.r, U)>>,
           <<"C09.round_legal", LegalEnc(sp, e.r, U)>>,
           <<"C09.round_fixed", LegalEnc(sp, e.z, U) => e.r = e.z>>,
           <<"C09.round_pure", e.zafter = e.z>> }
    [] e.op = "sub" ->     \* sub-space of the encoded coordinates of the variables e.vars
         { <<"C09.subspace", e.names = [i \in 1..Len(e.vars) |-> x[e.vars[i]].name]>> }
    [] e.op = "bounds2space" ->
         { <<"C09.bounds_to_space", e.bounds = e.given /\ e.n = Len(e.given)>> }
    [] e.op = "raise" -> { <<"C09.raise", FALSE>> }

TInit == tid \in 1..Len(Traces) /\ l = 1 /\ bad = {} /\ hit = {} /\ done = FALSE
TStep == /\ l <= Len(Traces[tid].ev)
         /\ LET K == Clauses(Traces[tid].c, Traces[tid].ev[l]) IN
            /\ bad' = bad \cup {<<k[1], l>> : k \in {k \in K : ~k[2]}}
            /\ hit' = hit \cup {k[1] : k \in K}
         /\ l' = l + 1 /\ UNCHANGED <<tid, done>>
TDone == /\ l > Len(Traces[tid].ev) /\ ~done
         /\ PrintT(ToJson([id |-> tid, bad |-> bad, hit |-> hit]))
         /\ done' = TRUE /\ UNCHANGED <<tid, l, bad, hit>>
TSpec == TInit /\ [][TStep \/ TDone]_tvars
=============================================================================
