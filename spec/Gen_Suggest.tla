----------------------------- MODULE Gen_Suggest -----------------------------
(* Random scenarios for Suggest: search space, components, initial data and *)
(* a sequence of requests; the environment side of the specification.       *)
(* The library supplies the responses (harness/suggest.py).                 *)
EXTENDS Suggest, Json
CONSTANTS Focus, PerRun
VARIABLES n, out
Pick(S) == RandomElement(IF n >= 0 THEN S ELSE {})
Chance(k) == Pick(1..100) <= k
U0 == 4
C(nm, lo, hi, d) == [name |-> nm, t |-> "continuous", dom |-> <<lo, hi>>, arms |-> <<>>, dim |-> d]
D(nm, vs, d) == [name |-> nm, t |-> "discrete", dom |-> vs, arms |-> <<>>, dim |-> d]
K(nm, k, d) == [name |-> nm, t |-> "categorical", dom |-> [i \in 1..k |-> (i - 1) * U0], arms |-> <<>>, dim |-> d]
B(nm, as) == [name |-> nm, t |-> "bandit", dom |-> <<>>, arms |-> as, dim |-> 1]
FiniteSpaces ==
  << <<D("d", <<5, 0, 2>>, 1), K("k", 3, 1)>>,
     <<D("d", <<-3, 8, 1>>, 2)>>,
     <<K("k", 2, 1), K("l", 3, 1), D("d", <<-2, 0, 3, 6>>, 1)>>,
     <<B("b", << <<0, 0>>, <<4, 6>>, <<-3, 2>>, <<8, 1>> >>)>>,
     <<B("b", << <<2>>, <<0>>, <<-5>>, <<3>> >>)>>,
     <<B("b", << <<0, 0>>, <<4, 6>>, <<-3, 2>> >>), B("p", << <<2>>, <<-1>> >>)>>,
     <<D("d", <<-4, -1, 0, 2, 5, 9>>, 1)>>,
     <<K("k", 3, 2), K("l", 2, 1)>>,
     <<D("d", <<0, 4>>, 1), D("h", <<1, 0, 7>>, 1), K("k", 2, 1)>>,
     <<K("k", 4, 1)>> >>
MixedSpaces ==
  << <<C("x", -4, 8, 1)>>,
     <<C("x", 0, 8, 2), D("d", <<-2, 1, 6>>, 1)>>,
     <<K("k", 3, 1), C("x", -4, 4, 1), D("d", <<5, 0, 2>>, 1)>>,
     <<C("x", 1, 6, 1), K("k", 2, 1), C("y", -8, 0, 1)>>,
     <<C("x", -2, 3, 3)>>,
     <<D("d", <<0, 4>>, 1), C("x", -4, 4, 1)>>,
     <<C("x", 0, 4, 1), K("k", 3, 2)>>,
     <<C("x", -16, 20, 2)>>,
     <<C("x", -12, 16, 1), C("y", 0, 24, 1), D("d", <<0, 4>>, 1)>> >>
\* finite spaces with many locations
LargeSpaces ==
  << <<D("d", [i \in 1..60 |-> ((i * 37) % 61) - 20], 1)>>,
     <<D("d", [i \in 1..12 |-> ((i * 5) % 13) - 6], 1), K("k", 5, 1)>>,
     <<B("b", [i \in 1..40 |-> << (i * 7) % 41, (i * i) % 17 >>])>>,
     <<K("k", 30, 1), D("d", <<0, 4>>, 1)>>,
     <<D("d", [i \in 1..400 |-> (i * 37) % 401], 1)>>,
     <<D("d", [i \in 1..18 |-> ((i * 5) % 19) - 6], 1), D("g", [i \in 1..16 |-> (i * 3) % 17], 1)>>,
     <<D("d", [i \in 1..11 |-> 20 - 2 * i], 2), K("k", 3, 1)>> >>
LargePct == IF Focus = "C08" THEN 12 ELSE 6
FinitePct == CASE Focus = "C08" -> 85 [] Focus = "C22" -> 65 [] Focus = "C10" -> 35 [] OTHER -> 45
Space(i) == IF Chance(LargePct) THEN LargeSpaces[Pick(1..(IF Focus = "C22" THEN 4 ELSE Len(LargeSpaces)))]
            ELSE IF Chance(FinitePct) THEN FiniteSpaces[Pick(1..Len(FiniteSpaces))] ELSE MixedSpaces[Pick(1..Len(MixedSpaces))]

Coord(v) == IF v.t = "continuous" THEN <<Pick(v.dom[1]..v.dom[2])>> ELSE Pick(ValuesVar(v))
RandLoc(e, i) == FlattenSeq([k \in 1..Len(e) |-> Coord(e[k])])

\* range of raw coordinate i: <<lo, hi, continuous>>
RawVar(e, i) == CHOOSE k \in 1..Len(e) : OffObj(e, k) < i /\ i <= OffObj(e, k) + WObj(e[k])
Lo(e, i) == LET v == e[RawVar(e, i)] IN IF v.t = "bandit" THEN SetMin({a[i - OffObj(e, RawVar(e, i))] : a \in Rng(v.arms)}) ELSE SetMin(Rng(v.dom))
Hi(e, i) == LET v == e[RawVar(e, i)] IN IF v.t = "bandit" THEN SetMax({a[i - OffObj(e, RawVar(e, i))] : a \in Rng(v.arms)}) ELSE SetMax(Rng(v.dom))
\* constraints satisfied by the location r0, with a feasible set of positive volume around it
ConsAt(e, r0, q) ==
  LET m == Len(r0) i == TLCEval(Pick(1..m)) j == TLCEval(Pick(1..m)) mid == (Lo(e, i) + Hi(e, i)) \div 2 IN
  IF i # j /\ r0[i] <= r0[j] /\ r0[i] < Hi(e, j) /\ Lo(e, i) < r0[j] /\ Chance(60) THEN [k |-> "le", i |-> i, j |-> j, v |-> 0]
  ELSE IF r0[i] <= mid /\ Chance(70) THEN [k |-> "ub", i |-> i, j |-> i, v |-> Max2(mid, Lo(e, i) + 1)]
  ELSE IF r0[i] >= mid THEN [k |-> "lb", i |-> i, j |-> i, v |-> Min2(mid, Hi(e, i) - 1)]
  ELSE [k |-> "ub", i |-> i, j |-> i, v |-> Max2(mid, Lo(e, i) + 1)]

\* a constraint that compares a category code with another kind of coordinate
Mixes(e, cons) == \E m \in 1..Len(cons) : cons[m].k = "le" /\ (e[RawVar(e, cons[m].i)].t = "categorical") # (e[RawVar(e, cons[m].j)].t = "categorical")
Req(c, e, r0, X0, q) ==
  LET kd == TLCEval(IF Chance(55) THEN "sug" ELSE "run")
      pc == CASE Focus = "C07" -> 75 [] Focus = "C08" -> 25 [] Focus = "C22" -> 45 [] OTHER -> 30
      un == TLCEval(Chance(CASE Focus = "C07" -> 8 [] Focus = "C22" -> 0 [] OTHER -> 2))
      \* with constraints the context is taken from the feasible r0
      x == TLCEval(IF c.cons # <<>> THEN r0 ELSE RandLoc(e, q))
      S == TLCEval({k \in 1..Len(e) : Chance(45)})
      ctx == IF ~Chance(pc) /\ Focus # "C10" THEN <<>> ELSE IF Focus = "C10" /\ ~Chance(30) THEN <<>> ELSE
             [m \in 1..Cardinality(S) |-> [v |-> SetToSortSeq(S, <)[m], val |-> Slice(x, OffObj(e, SetToSortSeq(S, <)[m]), WObj(e[SetToSortSeq(S, <)[m]]))]]
      dense == TLCEval(Chance(45))
      pd == IF kd = "run" \/ Chance(IF Focus = "C08" THEN 30 ELSE 70) THEN <<>>
            ELSE IF IsFinite(c.space) THEN SetToSeq({y \in AllLegal(c.space) : Chance(IF dense THEN 92 ELSE 35)})
            ELSE << RandLoc(e, q), RandLoc(e, q + 1) >>
      ig == IF kd = "run" \/ Chance(70) THEN <<>>
            ELSE IF IsFinite(c.space) THEN SetToSeq({y \in AllLegal(c.space) : Chance(IF dense THEN 60 ELSE 25)})
            ELSE << RandLoc(e, q) >> IN
  [op |-> "req", kind |-> kd, ctx |-> TLCEval(ctx), unknown |-> un, pend |-> TLCEval(pd), ign |-> TLCEval(ig), rep |-> TLCEval(IF Chance(25) THEN 40 ELSE 1)]

\* peak of a user-supplied acquisition
PeakVar(v) == CASE v.t = "continuous"  -> <<IF Chance(50) THEN Pick(v.dom[1]..v.dom[2]) ELSE Pick((v.dom[1] - 6)..(v.dom[2] + 6))>>
                [] v.t = "discrete"    -> <<Pick((SetMin(Rng(v.dom)) - 3)..(SetMax(Rng(v.dom)) + 3))>>
                [] v.t = "categorical" -> [i \in 1..Len(v.dom) |-> Pick({0, 0, 1, 2, 3, 4})]
                [] OTHER               -> [i \in 1..Len(v.arms[1]) |-> LET S == {a[i] : a \in Rng(v.arms)} IN Pick(SetMin(S)..SetMax(S))]
Peak(e) == [t |-> FlattenSeq([k \in 1..Len(e) |-> PeakVar(e[k])]),
            w |-> FlattenSeq([k \in 1..Len(e) |-> Const(WModel(e[k]), TLCEval(Pick({1, 2, 3, 9, 40})))]), tol |-> 0]

Case(q) ==
  LET sp == TLCEval(Space(q))  e == TLCEval(Expand(sp))
      r0 == TLCEval(RandLoc(e, q))
      nc == TLCEval(IF Chance(CASE Focus = "C10" -> 100 [] Focus = "C22" -> 0 [] OTHER -> 12) THEN Pick({1, 1, 2}) ELSE 0)
      cons0 == TLCEval([m \in 1..nc |-> ConsAt(e, r0, m)])
      \* two constraints together may leave nothing but r0: keep the second only on finite spaces
      cons == TLCEval(IF nc = 2 /\ ~IsFinite(sp) THEN <<cons0[1]>> ELSE cons0)
      bs == TLCEval(IF Focus = "C16" THEN (IF Chance(12) THEN Pick({6, 9}) ELSE Pick({1, 2, 2, 3, 4})) ELSE IF Focus = "C22" THEN Pick({1, 1, 2}) ELSE IF Chance(5) THEN Pick({6, 12}) ELSE Pick(<< {1, 2, 3}, {1}, {2, 3} >>[Pick(1..3)]))
      given == TLCEval(Chance(IF Focus \in {"C06", "C10"} THEN 50 ELSE 80))
      c == [space |-> sp, U |-> U0, dd |-> TLCEval(Chance(CASE Focus = "C08" -> 95 [] Focus = "C22" -> 60 [] OTHER -> 35)), b |-> bs,
            ev |-> TLCEval(IF bs = 1 THEN Pick({"sequential", "random", "local_penalization", "thompson_sampling"})
                   ELSE (IF Focus = "C22" THEN "random" ELSE Pick({"random", "random", "local_penalization", "thompson_sampling"}))),
            cons |-> cons, design |-> TLCEval(IF given THEN "random" ELSE Pick({"random", "latin", "sobol", "grid", "random"})), given |-> given,
            acq |-> TLCEval(Pick({"EI", "MPI", "LCB"})), model |-> TLCEval(Pick(1..10)), opt |-> TLCEval(IF Chance(12) THEN "CMA" ELSE "lbfgs"),
            anch |-> TLCEval(IF Chance(IF Focus = "C22" THEN 30 ELSE 15) THEN "thompson_sampling" ELSE "max_objective"), grad |-> TLCEval(Chance(50)),
            \* the scale at which the lattice is realised, how often the initial data are repeated, the local optimizer
            scale |-> TLCEval(IF Mixes(e, cons) \/ Chance(50) THEN 1 ELSE Pick(2..5)), rep |-> TLCEval(IF Chance(15) THEN Pick({5, 12}) ELSE 1),
            adv |-> TLCEval(IF Chance(60) THEN "none" ELSE Pick({"hair", "tie", "any", "edge"})), seed |-> TLCEval(Pick(1..100000))]
      X0 == TLCEval(SelectSeq(<<r0>> \o [i \in 1..Pick(1..3) |-> RandLoc(e, i)], LAMBDA x : Feasible(c, x))) IN
  [c |-> c, probes |-> [i \in 1..6 |-> TLCEval(RandLoc(e, i))], peak |-> TLCEval(Peak(e)), X0 |-> IF given THEN X0 ELSE <<>>, n0 |-> TLCEval(IF given THEN 0 ELSE Pick(2..5)),
   ev |-> [i \in 1..Pick(3..5) |-> TLCEval(Req(c, e, r0, X0, i))]]
Init == n = 0 /\ out = <<>>
Next == n < PerRun /\ n' = n + 1 /\ out' = TLCEval(Case(n))
Spec == Init /\ [][Next]_<<n, out>>
Emit == n > 0 => PrintT(ToJson(out))
=============================================================================
