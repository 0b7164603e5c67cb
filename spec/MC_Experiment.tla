--------------------------- MODULE MC_Experiment ----------------------------
(* All experiments over one variable of two values: whatever the driver     *)
(* does within the clauses, the number of evaluations is the initial ones   *)
(* plus whole batches, limited by iterations, minutes and tolerance.        *)
EXTENDS Experiment
CONSTANTS MaxRows, Broken
VARIABLES c, s, log, over
Sp == << [name |-> "x", t |-> "discrete", dom |-> <<0, 1>>, arms |-> <<>>, dim |-> 1] >>
Init == /\ c \in [space : {Sp}, U : {1}, cons : {<<>>}, dtype : {"random"}, n : 1..2, ev : {[type |-> "sequential", b |-> 1], [type |-> "random", b |-> 2]},
                  mi : {-2, 0, 1, 2}, mt : {-2, 60, 120}, tol : {0}, invalid : {"", "model"}]
        /\ (c.mi = -2 => c.mt # -2)
        /\ s = S0 /\ log = <<>> /\ over = FALSE
Dt == 40
Evs == {[op |-> "eval", names |-> <<[n |-> "x", w |-> 1]>>, x |-> <<x>>, y |-> x, dt |-> Dt, near |-> IF s.X # <<>> /\ s.X[Len(s.X)] = <<x>> THEN 0 ELSE 100000, P |-> <<>>] : x \in 0..1}
       \cup {[op |-> "end", X |-> s.X, Y |-> s.Y], [op |-> "raise", kind |-> "other"]}
OK(e) == \A k \in Clauses(c, s, e) : k[2] \/ (Broken = "minutes" /\ k[1] = "C24.stops") \/ (Broken = "free" /\ k[1] = "C24.goes_on")
Next == /\ ~over
        /\ \E e \in Evs : /\ OK(e)
                          /\ (e.op = "eval" => Len(log) < MaxRows)
                          /\ s' = Post(c, s, e)
                          /\ log' = IF e.op = "eval" THEN Append(log, e.x[1]) ELSE log
                          /\ over' = (e.op # "eval")
                          /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, s, log, over>>
\* independent reading of the promise
B == IF c.ev.type = "random" THEN 2 ELSE 1
A == Len(log) - c.n
Same(k) == k > 1 /\ log[k] = log[k - 1]
Promise == (over /\ c.invalid = "") =>
  /\ A >= 0 /\ A % B = 0
  /\ (c.mi # -2 => A <= c.mi * B)
  /\ (c.mt # -2 => A = 0 \/ (A - B) * Dt < c.mt)
  /\ \/ c.mi # -2 /\ A = c.mi * B
     \/ c.mt # -2 /\ A * Dt >= c.mt
     \/ Same(Len(log))
  /\ \A k \in 0..(A \div B - 1) : ~Same(c.n + k * B)
Bounded == (c.invalid = "" /\ c.mi # -2) => A <= c.mi * B
NothingRuns == c.invalid # "" => log = <<>>
=============================================================================
