-------------------------- MODULE MC_CostLearning ---------------------------
(* All sequences of batches, failures, trainings and queries over two       *)
(* locations: a run that meets the clauses has always been trained on       *)
(* exactly the evaluations of completed batches (independent ghost log).    *)
EXTENDS CostLearning
CONSTANTS MaxEvals, MaxFits
VARIABLES kind, s, log, cur
Sp == << [name |-> "x", t |-> "categorical", dom |-> <<0, 1>>, arms |-> <<>>, dim |-> 1] >>
Cfg == [space |-> Sp, U |-> 1, kind |-> kind]
Init == kind \in {"time", "none", "user"} /\ s = S0 /\ log = <<>> /\ cur = <<>>
X1(h) == [i \in 1..Len(h) |-> h[i][1]]
L1(h) == [i \in 1..Len(h) |-> h[i][2]]
Evs == {[op |-> "eval", x |-> <<x>>, k |-> k] : x, k \in 0..1} \cup {[op |-> "done"], [op |-> "fail", expected |-> TRUE]}
       \cup {[op |-> "train", X |-> X1(h), L |-> L1(h)] : h \in {s.timed \o s.buf, s.timed, s.buf, s.held, <<>>, s.buf \o s.timed}}
OK(e) == \A k \in Clauses(Cfg, s, e) : k[2]
Next == \E e \in Evs :
          /\ OK(e)
          /\ (e.op = "eval" => Len(log) + Len(cur) < MaxEvals)
          /\ (e.op = "train" => s.fits < MaxFits /\ cur # <<>>)
          /\ s' = Post(Cfg, s, e)
          /\ cur' = CASE e.op = "eval" -> Append(cur, <<e.x[1], e.k>>) [] OTHER -> <<>>
          /\ log' = IF e.op \in {"train", "done"} THEN log \o cur ELSE log
          /\ UNCHANGED kind
Spec == Init /\ [][Next]_<<kind, s, log, cur>>
Hot(x) == IF x = 0 THEN <<1, 0>> ELSE <<0, 1>>
Faithful == kind = "time" => (s.held = [i \in 1..Len(s.held) |-> <<Hot(log[i][1]), log[i][2]>>]
            /\ (cur = <<>> => Len(s.held) = Len(log)))
Nothing == kind # "time" => s.held = <<>>
\* the quotient rule on integers: a = f / v exactly when v divides f
ASSUME \A f \in {-12, 0, 5, 12}, v \in 1..4, df \in {-3, 0, 7}, g \in -2..2 :
   LET N == df * v - f * g IN
   (f % v = 0 /\ N % (v * v) = 0) =>
     /\ PerUnit([a |-> 100 * (f \div v), a1 |-> 100 * (f \div v), f |-> 100 * f, da |-> <<100 * (N \div (v * v))>>, df |-> <<100 * df>>], v, <<g>>)
     /\ (v > 1 /\ f # 0) => ~PerUnit([a |-> 100 * f, a1 |-> 100 * f, f |-> 100 * f, da |-> <<100 * df>>, df |-> <<100 * df>>], v, <<g>>)
=============================================================================
