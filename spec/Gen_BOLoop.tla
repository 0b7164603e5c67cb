----------------------------- MODULE Gen_BOLoop -----------------------------
(* Random legal behaviours of BOLoop over a richer domain (simulation      *)
(* mode), printed as JSON and replayed into GPyOpt by harness/loop.py.     *)
EXTENDS BOLoop, Json
CONSTANTS MaxRows, MaxOps
VARIABLES c, s, ops, log
gvars == <<c, s, ops, log>>

Pick(S) == RandomElement(S)
Chance(k) == RandomElement(1..100) <= k

U0 == 4
Cont(n, lo, hi, d) == [name |-> n, t |-> "continuous", dom |-> <<lo, hi>>, arms |-> <<>>, dim |-> d]
Disc(n, vs, d) == [name |-> n, t |-> "discrete", dom |-> vs, arms |-> <<>>, dim |-> d]
Cat(n, k, d) == [name |-> n, t |-> "categorical", dom |-> [i \in 1..k |-> (i - 1) * U0], arms |-> <<>>, dim |-> d]
Spaces == << <<Cont("a", -4, 8, 1)>>,
             <<Cont("a", 0, 8, 2)>>,
             <<Cat("k", 3, 1), Cont("a", -4, 4, 1)>>,
             <<Disc("d", <<0, 2, 8>>, 1), Cat("k", 2, 1), Cont("a", -2, 6, 1)>>,
             <<Cont("a", -4, 4, 1), Cat("k", 3, 2)>> >>

Coord(v) == IF v.t = "continuous" THEN Pick(v.dom[1]..v.dom[2]) ELSE Pick(Rng(v.dom))
\* the parameter makes TLC draw again at each use
RandRow(sp, n) == LET e == Expand(sp) IN [k \in 1..Len(e) |-> Coord(e[k])]
\* sometimes close to or equal to the previous row, to meet the convergence criterion
NextRow(cc, ss, n) ==
  LET r == RandRow(cc.space, n) IN
  IF Len(ss.hist) = 0 \/ Chance(75) THEN r
  ELSE LET q == ss.hist[Len(ss.hist)][1] IN
       IF Chance(50) THEN q
       ELSE LET e == Expand(cc.space)  i == Pick(1..Len(q)) IN
            IF e[i].t = "continuous" THEN [q EXCEPT ![i] = Max2(e[i].dom[1], Min2(e[i].dom[2], @ + Pick({-2, -1, 1, 2}))) ]
            ELSE q

Out(n) == Pick({-9, -3, -3, 0, 0, 2, 5, 5, 7, 30})
Event ==
  CASE s.ph = "void" ->
         LET n == IF Chance(6) THEN Pick(18..34) ELSE Pick(1..4)
             X == [i \in 1..n |-> RandRow(c.space, i)]
             k == Pick(1..10) IN
         IF k <= 4 THEN [op |-> "new", X0 |-> X, Y0 |-> [i \in 1..n |-> Out(i)], n0 |-> 0, lazy |-> FALSE]
         ELSE IF k <= 6 THEN [op |-> "new", X0 |-> X, Y0 |-> <<>>, n0 |-> n, lazy |-> FALSE]
         ELSE IF k <= 8 THEN [op |-> "new", X0 |-> X, Y0 |-> <<>>, n0 |-> n, lazy |-> TRUE]
         ELSE [op |-> "new", X0 |-> <<>>, Y0 |-> <<>>, n0 |-> n, lazy |-> FALSE]
    [] s.ph = "init" /\ ~(s.lazy /\ ~s.inrun) ->
         [op |-> "eval", x |-> IF Expected(s) = <<>> THEN RandRow(c.space, ops) ELSE Expected(s)[1],
          ok |-> ~Chance(5), y |-> Out(ops), dt |-> Pick(0..2)]
    [] s.ph = "failing" -> IF s.inrun THEN [op |-> "runraise", kind |-> "objective"] ELSE [op |-> "newraise", kind |-> "objective"]
    [] s.ph = "idle" \/ (s.ph = "init" /\ s.lazy /\ ~s.inrun) ->
         LET k == Pick(1..10) IN
         IF k <= 6 \/ s.ph = "init"
         THEN LET m == Pick({NONE, NONE, 0, 1, 2, 3, 3, 4, 5})
                  t == IF m = NONE THEN Pick({NONE, 0, 1, 3, 5, 8}) ELSE Pick({NONE, INF, INF, INF, 0, 1, 3, 5, 8}) IN
              [op |-> "run", mi |-> m, mt |-> t, eps |-> IF log[1].n0 > 0 /\ log[1].X0 = <<>> THEN 0 ELSE Pick({0, 0, 0, 1, 2, 4})]
         ELSE IF k <= 8 THEN [op |-> "sug"] ELSE [op |-> "obs", X |-> Xs(s.hist), Y |-> Ys(s.hist)]
    [] s.ph = "run" /\ s.batch = <<>> ->
         IF s.fits = 0 /\ s.it % c.iv = 0
         THEN [op |-> "fit", X |-> EncRows(c, Xs(s.hist)), Y |-> Ys(s.hist), z |-> <<>>, fail |-> Chance(4), dt |-> Pick({0, 0, 0, 1})]
         ELSE IF MustStop(c, s)
              THEN [op |-> "runend", X |-> Xs(s.hist), Y |-> Ys(s.hist), ybest |-> Prefix(s.hist),
                    fx |-> MinY(s.hist), xopt |-> s.hist[ArgFirst(s.hist)][1]]
              ELSE IF Chance(3) THEN [op |-> "runraise", kind |-> "explored"]
              ELSE [op |-> "batch", z |-> EncRows(c, [i \in 1..Pick({1, 1, 2, 3}) |-> NextRow(c, s, i)])]
    [] s.ph = "run" -> [op |-> "eval", x |-> Expected(s)[1], ok |-> ~Chance(5), y |-> Out(ops), dt |-> Pick({0, 1, 1, 2})]
    [] s.ph = "sug" ->
         IF s.batch # <<>> THEN [op |-> "sugend", rows |-> s.batch]
         ELSE IF s.ff THEN [op |-> "sugraise", kind |-> "linalg"]
         ELSE IF s.fits = 0 THEN [op |-> "fit", X |-> EncRows(c, Xs(s.hist)), Y |-> Ys(s.hist), z |-> <<>>, fail |-> Chance(4), dt |-> 0]
         ELSE IF Chance(6) THEN [op |-> "sugraise", kind |-> "explored"]
         ELSE [op |-> "batch", z |-> EncRows(c, [i \in 1..Pick({1, 1, 2}) |-> NextRow(c, s, i)])]
    [] OTHER -> [op |-> "stop"]

GInit == /\ c \in {[space |-> Spaces[k], U |-> U0, iv |-> i, norm |-> n, sign |-> g, lat |-> TRUE, seemodel |-> TRUE] :
                     k \in 1..Len(Spaces), i \in {1, 2, 3}, n \in BOOLEAN, g \in {1, -1}}
         /\ s = S0 /\ ops = 0 /\ log = <<>>
Resting == s.ph \in {"idle", "dead"} \/ (s.ph = "init" /\ s.lazy /\ ~s.inrun)
Over == Resting /\ (s.ph = "dead" \/ ops >= MaxOps \/ Len(s.hist) > MaxRows + Len(log[1].X0))
GNext == /\ ~Over
         /\ \E e \in {TLCEval(Event)} :
            /\ e.op # "stop"
            \* the normalised outputs z are left to the implementation
            /\ \A k \in Clauses(c, s, e) : k[2] \/ k[1] = "C05.outputs"
            /\ s' = Post(c, s, e) /\ log' = Append(log, e) /\ c' = c
            /\ ops' = IF e.op \in {"run", "sug", "obs"} THEN ops + 1 ELSE ops
GSpec == GInit /\ [][GNext]_gvars
Emit == Over => PrintT(ToJson([c |-> c, ev |-> log]))
=============================================================================
