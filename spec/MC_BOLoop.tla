----------------------------- MODULE MC_BOLoop -----------------------------
(* All legal behaviours of BOLoop within small constants, with independent *)
(* ghost bookkeeping of what was evaluated, and the user-level properties. *)
EXTENDS BOLoop

CONSTANTS MaxRows, MaxOps, MaxIter, Vals, Outs, MaxT, Ivs, Signs, Y0s

VARIABLES c, s, ops,      \* configuration, abstract state, user operations so far
          done,           \* ghost: every completed batch, in order
          cur,            \* ghost: rows of the batch in progress
          acq,            \* ghost: acquisitions in this run
          spent,          \* ghost: time at the end of the last acquisition of this run
          t0, now         \* ghost: clock at the start of the run, clock
ValsDef == <<0, 4>>
SgnMax == {-1}
SgnBoth == {1, -1}
Y0a == {<<1, 0>>}
Y0b == {<<1, 0>>, <<0, 0>>}
vars == <<c, s, ops, done, cur, acq, spent, t0, now>>

Sp == << [name |-> "x", t |-> "discrete", dom |-> Vals, arms |-> <<>>, dim |-> 1] >>
Rows == {<<v>> : v \in Rng(Vals)}
Configs == [space : {Sp}, U : {4}, iv : Ivs, norm : {FALSE}, sign : Signs, lat : {TRUE}, seemodel : {TRUE}]

H(x)  == Xs(x)
Fit0 == [op |-> "fit", X |-> EncRows(c, Xs(s.hist)), Y |-> Ys(s.hist), z |-> <<>>, fail |-> FALSE, dt |-> 0]

\* events a library following the specification may produce in state s
Batches == { <<a>> : a \in Rows } \cup { <<a, b>> : a \in Rows, b \in Rows }
Cand ==
  CASE s.ph = "void" ->
         { [op |-> "new", X0 |-> x, Y0 |-> y, n0 |-> 0, lazy |-> FALSE] : x \in {<<a, b>> : a, b \in Rows}, y \in Y0s }
         \cup { [op |-> "new", X0 |-> <<a>>, Y0 |-> <<>>, n0 |-> 1, lazy |-> z] : a \in Rows, z \in BOOLEAN }
         \cup { [op |-> "new", X0 |-> <<>>, Y0 |-> <<>>, n0 |-> 2, lazy |-> FALSE] }
    [] s.ph = "init" /\ ~(s.lazy /\ ~s.inrun) ->
         { [op |-> "eval", x |-> x, ok |-> k, y |-> y, dt |-> d] :
             x \in (IF Expected(s) = <<>> THEN Rows ELSE Rng(Expected(s))), k \in BOOLEAN, y \in Outs, d \in {0, 1} }
    [] s.ph = "failing" -> IF s.inrun THEN { [op |-> "runraise", kind |-> "objective"] }
                           ELSE { [op |-> "newraise", kind |-> "objective"] }
    [] s.ph = "idle" \/ (s.ph = "init" /\ s.lazy /\ ~s.inrun) ->
         IF ops >= MaxOps THEN {} ELSE
         { [op |-> "run", mi |-> m, mt |-> t, eps |-> e] : m \in {NONE} \cup (0..MaxIter), t \in {NONE, INF} \cup (0..MaxT), e \in {0, 4} }
         \cup (IF s.ph = "idle" THEN { [op |-> "sug"],
                [op |-> "obs", X |-> Xs(s.hist), Y |-> Ys(s.hist)] } ELSE {})
    [] s.ph = "run" /\ s.batch = <<>> ->
         { [Fit0 EXCEPT !.fail = k, !.dt = d] : k \in BOOLEAN, d \in 0..(MaxT - 1) }
         \cup { [op |-> "batch", z |-> b] : b \in Batches }
         \cup { [op |-> "runend", X |-> Xs(s.hist), Y |-> Ys(s.hist), ybest |-> Prefix(s.hist),
                 fx |-> MinY(s.hist), xopt |-> s.hist[ArgFirst(s.hist)][1]] }
         \cup { [op |-> "runraise", kind |-> "explored"] }
    [] s.ph = "run" ->
         { [op |-> "eval", x |-> x, ok |-> k, y |-> y, dt |-> d] :
             x \in Rng(Expected(s)), k \in BOOLEAN, y \in Outs, d \in {0, 1} }
    [] s.ph = "sug" ->
         IF s.batch # <<>> THEN { [op |-> "sugend", rows |-> s.batch] }
         ELSE { Fit0 } \cup { [op |-> "batch", z |-> b] : b \in Batches } \cup { [op |-> "sugraise", kind |-> "explored"] }
    [] OTHER -> {}

Init == /\ c \in Configs /\ s = S0 /\ ops = 0 /\ done = <<>> /\ cur = <<>>
        /\ acq = 0 /\ spent = 0 /\ t0 = 0 /\ now = 0

\* ghost updates look only at the event, not at the specification's own bookkeeping
Ghost(e) ==
  /\ ops' = IF e.op \in {"run", "sug", "obs"} THEN ops + 1 ELSE ops
  /\ now' = IF e.op \in {"eval", "fit"} THEN now + e.dt ELSE now
  /\ LET full == e.op = "eval" /\ e.ok /\ Len(cur) + 1 = (IF s.ph = "init" THEN s.n0 ELSE Len(s.batch)) IN
     /\ done' = CASE e.op = "new" /\ e.n0 = 0 -> [i \in 1..Len(e.X0) |-> <<e.X0[i], e.Y0[i]>>]
                  [] full -> done \o Append(cur, <<e.x, c.sign * e.y>>)
                  [] OTHER -> done
     /\ cur' = IF e.op = "eval" /\ e.ok /\ ~full THEN Append(cur, <<e.x, c.sign * e.y>>) ELSE IF e.op = "eval" THEN <<>> ELSE cur
     /\ acq' = IF e.op = "run" THEN 0 ELSE IF full /\ s.ph = "run" THEN acq + 1 ELSE acq
     /\ t0' = IF e.op = "run" \/ (full /\ s.ph = "init") THEN now' ELSE t0
     /\ spent' = IF e.op = "run" THEN 0 ELSE IF full /\ s.ph = "run" THEN now' - t0 ELSE spent

Step(e) == Legal_(c, s, e) /\ s' = [Post(c, s, e) EXCEPT !.res = <<>>] /\ c' = c /\ Ghost(e)
Next == \E e \in Cand : Step(e)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Bound == Len(s.hist) <= MaxRows /\ now <= MaxT + 2

(* ---------------- user-level properties ---------------- *)
\* C01: the history is exactly the initial data followed by the completed batches
HistoryFaithful == s.hist = done
AppendOnly == [][IsPrefix(s.hist, s'.hist)]_vars
\* C02
IterBudget == (s.inrun /\ s.mi >= 0) => acq <= s.mi
NoRunWithoutLimit == (s.inrun /\ s.mi = NONE /\ s.mt = NONE) => acq = 0
StartedInTime == [][(s.ph = "run" /\ s.batch = <<>> /\ s'.batch # <<>>) => (s.mt < 0 \/ spent < s.mt)]_vars
\* a run always can go on or end (no stuck run)
NoStuck == (s.ph \in {"run", "sug", "failing"}) => \E e \in Cand : Legal_(c, s, e)
\* C04: requests for suggestions do not touch the history
SugPure == [][(s.ph = "sug") => s'.hist = s.hist]_vars
\* C05: an acquisition is preceded by a fit exactly when scheduled
Scheduled == (s.ph = "run" /\ s.batch # <<>>) => (s.fits = IF acq % c.iv = 0 THEN 1 ELSE 0)
\* C03 (of the operators themselves)
OptimumOK == Len(s.hist) > 0 =>
   /\ \A i \in 1..Len(s.hist) : MinY(s.hist) <= s.hist[i][2]
   /\ Prefix(s.hist)[Len(s.hist)] = MinY(s.hist)
   /\ \A i \in 2..Len(s.hist) : Prefix(s.hist)[i] <= Prefix(s.hist)[i-1]
TypeOK == s.ph \in {"void", "init", "idle", "run", "sug", "failing", "dead"}
=============================================================================
