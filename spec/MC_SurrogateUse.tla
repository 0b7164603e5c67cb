-------------------------- MODULE MC_SurrogateUse ---------------------------
(* Two surrogates that answer a query by loading each of their samples into *)
(* their parameters and restoring them, one step at a time and interleaved  *)
(* with the other one; results depend on parameters and data only.  The     *)
(* clauses accept every run; a design that forgets to restore, or whose     *)
(* copies share their data, is rejected.                                    *)
EXTENDS SurrogateUse
CONSTANTS Variant, MaxOps
VARIABLES s, ok, P, D, S, q, n
vars == <<s, ok, P, D, S, q, n>>
c == [samples |-> 2]
Dig(p, d) == [k \in 1..Len(p) |-> <<p[k], d[k]>>]
Init == s = [S0 EXCEPT !.dig = <<<<0, 0>>>>, !.ep = <<0>>] /\ ok = TRUE /\ P = <<0>> /\ D = <<0>> /\ S = <<<<1, 2>>>> /\ q = [m |-> 0, i |-> 0, old |-> 0, res |-> <<>>] /\ n = 0
Do(e) == ok' = (ok /\ \A k \in Clauses(c, s, e) : k[2]) /\ s' = Post(c, s, e) /\ n' = n + 1
Idle == q.m = 0 /\ n < MaxOps
\* fitting depends on the data; copies of model 1 refer to the data of model 1 when they share it
Owner(m) == IF Variant = "shared" /\ m = 2 THEN 1 ELSE m
Update == /\ Idle /\ \E m \in 1..Len(P), d \in 1..2 :
            LET D2 == [k \in 1..Len(P) |-> IF Owner(k) = Owner(m) THEN d ELSE D[k]]
                P2 == [P EXCEPT ![m] = d + 4] IN
            /\ P' = P2 /\ D' = D2 /\ S' = [S EXCEPT ![m] = <<d, d + 1>>]
            /\ Do([op |-> "update", m |-> m, data |-> d, held |-> D2[m], dig |-> Dig(P2, D2)]) /\ UNCHANGED q
Copy == /\ Idle /\ Len(P) = 1 /\ P' = Append(P, P[1]) /\ D' = Append(D, D[1]) /\ S' = Append(S, S[1])
        /\ Do([op |-> "copy", m |-> 1, cfg |-> 0, cfgcopy |-> 0, data |-> D[1], held |-> D[1], dig |-> Dig(P', D')]) /\ UNCHANGED q
Ask == /\ Idle /\ \E m \in 1..Len(P) : q' = [m |-> m, i |-> 1, old |-> P[m], res |-> <<>>]
       /\ UNCHANGED <<s, ok, P, D, S, n>>
Sample == /\ q.m > 0 /\ q.i <= 2
          /\ P' = [P EXCEPT ![q.m] = S[q.m][q.i]] /\ q' = [q EXCEPT !.i = @ + 1, !.res = Append(@, <<S[q.m][q.i], D[q.m]>>)]
          /\ UNCHANGED <<s, ok, D, S, n>>
Answer == /\ q.m > 0 /\ q.i = 3
          /\ LET P2 == IF Variant = "norestore" THEN P ELSE [P EXCEPT ![q.m] = q.old] IN
             /\ P' = P2
             /\ Do([op |-> "query", m |-> q.m, kind |-> "predict", x |-> 1, res |-> q.res, num |-> Len(q.res), pos |-> TRUE, args |-> TRUE, same |-> <<>>, dig |-> Dig(P2, D)])
          /\ q' = [q EXCEPT !.m = 0] /\ UNCHANGED <<D, S>>
Next == Update \/ Copy \/ Ask \/ Sample \/ Answer
Spec == Init /\ [][Next]_vars
Accepted == ok
\* what the clauses are for: between operations the parameters are those of the last fit
Fitted == q.m = 0 => \A m \in 1..Len(P) : P[m] \in {0} \cup {D[Owner(m)] + 4} \cup (IF m = 2 THEN {5, 6} ELSE {})
=============================================================================
