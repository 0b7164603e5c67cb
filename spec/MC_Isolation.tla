---------------------------- MODULE MC_Isolation -----------------------------
(* A heap of cells.  The optimizer keeps its history as a sequence of cells, *)
(* the caller holds references to cells.  The design copies what it gives    *)
(* back and only reads what it is given; the clauses accept every run of it. *)
(* Designs that hand out their history ("out"), evaluate the suggestion they *)
(* gave to the caller ("reuse"), keep the array of the objective ("buffer")  *)
(* or normalise the contexts they are given ("write") are refuted.           *)
EXTENDS Isolation, SequencesExt
CONSTANTS Variant, MaxOps
VARIABLES s, ok, heap, hist, twin, mine, n
vars == <<s, ok, heap, hist, twin, mine, n>>
\* hist: cells (of values) ; twin: the values of the undisturbed twin; mine: cells of the caller (object number = cell)
c == 0
Vals(h, hp) == [i \in 1..Len(h) |-> hp[h[i]]]
Own(m, hp) == LET q == SetToSortSeq(m, <) IN [i \in 1..Len(q) |-> [o |-> q[i], dig |-> hp[q[i]]]]
Sum(v) == IF Len(v) = 0 THEN 0 ELSE v[Len(v)] + 3 * Len(v)
Do(e) == ok' = (ok /\ \A k \in Clauses(c, s, e) : k[2]) /\ s' = Post(c, s, e) /\ n' = n + 1
Init == s = [own |-> {<<1, 5>>}, hist |-> <<>>] /\ ok = TRUE /\ heap = <<5>> /\ hist = <<>> /\ twin = <<>> /\ mine = {1} /\ n = 0
\* cell 1 is the context; the objective owns cell 1 + 1 when it reuses a buffer (created by the first run)
Suggest == /\ n < MaxOps
           /\ LET hp == IF Variant = "write" THEN [heap EXCEPT ![1] = 6] ELSE heap
                  v == (Sum(Vals(hist, heap)) + hp[1]) % 7
                  k == Len(heap) + 1
                  hp2 == Append(hp, v) IN
              /\ heap' = hp2 /\ mine' = mine \cup {k}
              /\ Do([op |-> "call", what |-> "suggest", own |-> Own(mine, hp2), hist |-> Vals(hist, hp2), res |-> v, twin |-> (Sum(twin) + 5) % 7,
                     new |-> <<[o |-> k, dig |-> v]>>])
              /\ UNCHANGED <<hist, twin>>
Run == /\ n < MaxOps
       /\ LET v == (Sum(Vals(hist, heap)) + 1) % 7
              reuse == Variant = "reuse" /\ Len(heap) > 1 /\ Cardinality(mine) > 1
              k == IF reuse THEN Len(heap) ELSE Len(heap) + 1
              hp == IF reuse THEN heap ELSE Append(heap, v) IN
          /\ heap' = hp /\ hist' = Append(hist, k) /\ twin' = Append(twin, (Sum(twin) + 1) % 7)
          /\ mine' = IF Variant = "buffer" THEN mine \cup {k} ELSE mine
          /\ Do([op |-> "call", what |-> "run", own |-> Own(mine, hp), hist |-> Vals(hist', hp), res |-> 0, twin |-> 0,
                 new |-> IF Variant = "buffer" THEN <<[o |-> k, dig |-> hp[k]]>> ELSE <<>>])
Get == /\ n < MaxOps /\ Len(hist) > 0
       /\ LET k == IF Variant = "out" THEN hist[Len(hist)] ELSE Len(heap) + 1
              v == heap[hist[Len(hist)]]
              hp == IF Variant = "out" THEN heap ELSE Append(heap, v) IN
          /\ heap' = hp /\ mine' = mine \cup {k}
          /\ Do([op |-> "call", what |-> "get", own |-> Own(mine, hp), hist |-> Vals(hist, hp), res |-> v, twin |-> twin[Len(twin)], new |-> <<[o |-> k, dig |-> v]>>])
          /\ UNCHANGED <<hist, twin>>
Scribble == /\ n < MaxOps
            /\ \E o \in mine \ {1} : heap[o] # 9
               /\ heap' = [heap EXCEPT ![o] = 9]
               /\ Do([op |-> "scribble", o |-> o, dig |-> 9, own |-> Own(mine, heap'), hist |-> Vals(hist, heap')])
            /\ UNCHANGED <<hist, twin, mine>>
Next == Suggest \/ Run \/ Get \/ Scribble
Spec == Init /\ [][Next]_vars
Accepted == ok
\* what the clauses are for: the history is the one of the undisturbed twin
Undisturbed == Vals(hist, heap) = twin
=============================================================================
