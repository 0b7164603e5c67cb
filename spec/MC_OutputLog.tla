---------------------------- MODULE MC_OutputLog ----------------------------
(* A countdown per saver, as an engine would do it, against the counting    *)
(* definition of Fires; the best so far kept incrementally against Best.    *)
EXTENDS OutputLog
CONSTANTS Variant, MaxCalls
VARIABLES c, s, clock, best, fired, logs, ok
vars == <<c, s, clock, best, fired, logs, ok>>
Ints == {-1, 1, 2, 3}
Init == /\ \E a, b \in Ints : c = [savers |-> << [type |-> "logger", format |-> "csv", content |-> "ybest", interval |-> a],
                                                 [type |-> "report", format |-> "", content |-> "", interval |-> b] >>, dim |-> 1]
        /\ s = S0 /\ clock = <<c.savers[1].interval, c.savers[2].interval>> /\ best = [y |-> 99, x |-> <<0>>] /\ fired = <<0, 0>> /\ logs = <<>> /\ ok = TRUE
Tick(i, fin) == IF fin THEN (IF clock[i] = -1 THEN 0 ELSE IF Variant = "finalticks" THEN clock[i] - 1 ELSE clock[i]) ELSE IF clock[i] > 0 THEN clock[i] - 1 ELSE clock[i]
Call == /\ Len(s.hist) < MaxCalls
        /\ \E fin \in BOOLEAN, Y \in {<<3>>, <<5>>, <<4, 2>>, <<5, 3>>} :
             LET m == Len(s.hist) + 1
                 X == [k \in 1..Len(Y) |-> <<10 * m + k>>]
                 k == Tick(1, fin)  r == Tick(2, fin)
                 y == MinSeq(Y, 1)  j == CHOOSE j \in 1..Len(Y) : Y[j] = y
                 nb == IF y < best.y \/ (Variant = "last") THEN [y |-> y, x |-> X[j]] ELSE best
                 e == [op |-> "append", it |-> m, t |-> m, X |-> X, Y |-> Y, final |-> fin, rep |-> <<0, IF r = 0 THEN 1 ELSE 0>>] IN
             /\ ok' = (ok /\ \A q \in Clauses(c, s, e) : q[2]) /\ s' = Post(c, s, e)
             /\ best' = nb
             /\ logs' = IF k = 0 THEN Append(logs, [it |-> m, t |-> m, y |-> nb.y, x |-> nb.x]) ELSE logs
             /\ fired' = <<fired[1] + (IF k = 0 THEN 1 ELSE 0), fired[2] + (IF r = 0 THEN 1 ELSE 0)>>
             /\ clock' = <<IF k = 0 /\ Variant # "noreset" THEN c.savers[1].interval ELSE k, IF r = 0 THEN c.savers[2].interval ELSE r>>
             /\ UNCHANGED c
Next == Call
Spec == Init /\ [][Next]_vars
CloseEv == [op |-> "close", logs |-> << [heads |-> IF logs = <<>> THEN 0 ELSE 1, first |-> logs # <<>>, cols |-> 4, lines |-> logs], [heads |-> 0, first |-> FALSE, cols |-> 0, lines |-> <<>>] >>]
Accepted == ok /\ \A q \in Clauses(c, s, CloseEv) : q[2]
\* the counting view: a saver with interval k has fired (number of regular calls) div k times
Totals == \A i \in 1..2 : fired[i] = (IF c.savers[i].interval = -1 THEN Len(s.hist) - Regular(s.hist, Len(s.hist)) ELSE Regular(s.hist, Len(s.hist)) \div c.savers[i].interval)
=============================================================================
