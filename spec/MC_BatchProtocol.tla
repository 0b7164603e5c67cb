-------------------------- MODULE MC_BatchProtocol --------------------------
(* A small local-penalization world: acquisition values of three locations  *)
(* on a line, tent-shaped penalties.  Any run of the method accepted by the *)
(* clauses penalises exactly what was chosen and leaves the acquisition as  *)
(* it was; runs that forget a penalty, penalise with one that grows with    *)
(* the distance, leave one behind, or reuse those of the batch before are   *)
(* rejected.                                                                *)
EXTENDS BatchProtocol
CONSTANTS Width, Variant
VARIABLES ev, dd, b, base, pen, old, s, ok, out, reqs
vars == <<ev, dd, b, base, pen, old, s, ok, out, reqs>>
P == << <<0>>, <<1>>, <<2>>, <<4>> >>
L == 1..Len(P)
C == [ev |-> ev, b |-> b, dd |-> dd, P |-> P, m |-> 0]
Tent(i, j) == LET d == AbsI(P[i][1] - P[j][1]) IN IF d >= Width THEN 0 ELSE 10 * (Width - d)
AtPen(p) == [i \in L |-> base[i] + Sum([n \in 1..Len(p) |-> Tent(i, p[n])], 1)]
Best(f, A) == CHOOSE i \in A : \A j \in A : f[i] < f[j] \/ (f[i] = f[j] /\ i <= j)
Init == /\ ev \in {"sequential", "random", "local_penalization"} /\ dd \in BOOLEAN /\ b \in 1..3
        /\ base \in [L -> {10, 30, 50}] /\ pen = <<>> /\ old = <<>> /\ s = S0 /\ ok = TRUE /\ out = <<>> /\ reqs = 0
Do(e) == ok' = (ok /\ \A k \in Clauses(C, s, e) : k[2]) /\ s' = Post(C, s, e)
Begin == /\ s.ph = "idle" /\ out = <<>> /\ reqs < 2
         \* the surrogate may have changed since the batch before
         /\ \E bs \in IF reqs = 0 THEN {base} ELSE {base, [i \in L |-> base[Len(P) + 1 - i]]} :
              /\ base' = bs
              /\ Do([op |-> "begin", f |-> [i \in L |-> AtPen(pen)[i] - base[i] + bs[i]], ref |-> bs])
         /\ UNCHANGED <<ev, dd, b, pen, old, out, reqs>>
Used == IF Variant = "stale" /\ Len(old) >= Len(pen) THEN SubSeq(old, 1, Len(pen))
        ELSE IF Variant = "forget" /\ Len(pen) > 1 THEN <<pen[Len(pen)]>> ELSE pen
FarPen(p) == [i \in L |-> base[i] + Sum([n \in 1..Len(p) |-> AbsI(P[i][1] - P[p[n]][1]) * 10 + 10], 1)]
F == IF Variant = "far" THEN FarPen(Used) ELSE AtPen(Used)
Opt == /\ s.ph = "building" /\ out = <<>> /\ Len(s.calls) < MaxCalls(C)
       /\ LET A == IF dd THEN L \ {pen[i] : i \in 1..Len(pen)} ELSE L IN
          IF A = {} THEN Do([op |-> "opt_none"]) /\ UNCHANGED pen
          ELSE LET i == Best(F, A) IN
               /\ Do([op |-> "opt", f |-> F, f1 |-> F, own |-> F[i], x |-> P[i], dip |-> FALSE, g |-> [n \in 1..Len(s.calls) |-> F[CHOOSE q \in L : P[q] = s.calls[n].x]]])
               /\ pen' = IF ev = "local_penalization" THEN Append(pen, i) ELSE pen
       /\ UNCHANGED <<ev, dd, b, base, old, out, reqs>>
End == /\ s.ph = "building" /\ s.calls # <<>>
       /\ (ev = "local_penalization" => s.empty \/ Len(s.calls) = b)
       /\ LET rows == IF ev = "random" /\ b > 1 THEN <<s.calls[1].x>> \o [i \in 1..(b - 1) |-> P[i]] ELSE [i \in 1..Len(s.calls) |-> s.calls[i].x] IN
          Do([op |-> "end", rows |-> rows]) /\ out' = rows
       /\ pen' = (IF Variant = "leak" THEN pen ELSE <<>>) /\ old' = (IF ev = "local_penalization" THEN pen ELSE <<>>)
       /\ UNCHANGED <<ev, dd, b, base, reqs>>
After == /\ s.ph = "idle" /\ out # <<>> /\ Do([op |-> "after", f |-> AtPen(pen)])
         /\ out' = <<>> /\ reqs' = reqs + 1 /\ UNCHANGED <<ev, dd, b, base, pen, old>>
\* the same request answered by a batch method without a past
RECURSIVE Fresh(_)
Fresh(p) == IF Len(p) = Len(s.calls) THEN p
            ELSE LET A == IF dd THEN L \ {p[i] : i \in 1..Len(p)} ELSE L IN
                 IF A = {} THEN p ELSE Fresh(Append(p, Best(AtPen(IF ev = "local_penalization" THEN p ELSE <<>>), A)))
Again == /\ s.ph = "idle" /\ out # <<>> /\ ev = "local_penalization"
         /\ LET p == Fresh(<<>>) IN
            Do([op |-> "fresh", rows |-> [i \in 1..Len(p) |-> P[p[i]]], fs |-> [i \in 1..Len(p) |-> AtPen(SubSeq(p, 1, i - 1))]])
         /\ UNCHANGED <<ev, dd, b, base, pen, old, out, reqs>>
Next == Begin \/ Opt \/ End \/ After \/ Again
Spec == Init /\ [][Next]_vars
Accepted == ok
\* the chosen locations really are the successive optima of the penalised acquisition, and nothing is left behind
Greedy == (s.ph = "building" /\ ev = "local_penalization") =>
            \A n \in 1..Len(s.calls) : s.calls[n].x = P[Best(AtPen(SubSeq(pen, 1, n - 1)), IF dd THEN L \ {pen[i] : i \in 1..(n - 1)} ELSE L)]
Clean == s.ph = "idle" => pen = <<>>
=============================================================================
