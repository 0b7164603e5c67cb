--------------------------- MODULE MC_ConfigTree ----------------------------
(* Loading key by key, recursively and in any order of the keys, against    *)
(* the declarative Override; sequences of loads and edits of the returned   *)
(* configuration leave the defaults alone unless they are shared.           *)
EXTENDS ConfigTree
CONSTANTS Variant, MaxLoads
VARIABLES defs, cur, todo, file, n, ph
vars == <<defs, cur, todo, file, n, ph>>
Keys == {"a", "b"}
Leaves == {"1", "2", "{}"}
\* trees of depth two over the keys: each key absent, a leaf, or an object with leaves
Inner == {t \in SUBSET (Keys \X {"1", "2"}) : \A x, y \in t : x[1] = y[1] => x = y} \ {{}}
KeyTrees(k) == {{}} \cup {{<< <<k>>, v>>} : v \in Leaves} \cup {{<< <<k, x[1]>>, x[2]>> : x \in t} : t \in Inner}
Trees == {ta \cup tb : ta \in KeyTrees("a"), tb \in KeyTrees("b")}
SmallTrees == {t \in Trees : \A x \in t : x[2] # "2"}
Sub(t, k) == {<<Tail(x[1]), x[2]>> : x \in {x \in t : x[1] # <<>> /\ Head(x[1]) = k}}
Under(t, k) == {<< <<k>> \o x[1], x[2]>> : x \in t}
Has(t, k) == Sub(t, k) # {}
LeafAt(t, k) == \E x \in t : x[1] = <<k>> /\ x[2] # "{}"
Without(t, k) == {x \in t : x[1] = <<>> \/ Head(x[1]) # k}
RECURSIVE Update(_, _)
RECURSIVE UpdateKeys(_, _, _)
\* the loader: objects meet objects recursively, anything else is replaced
Update(new, d) == IF new = {<< <<>>, "{}">>} THEN (IF \A x \in d : x[1] = <<>> THEN new ELSE d)
                  ELSE UpdateKeys(new, d \ {<< <<>>, "{}">>}, {Head(x[1]) : x \in new})
OneKey(new, d, k) ==
  LET nv == Sub(new, k)  dv == Sub(d, k)
      both == Has(d, k) /\ ~LeafAt(new, k) /\ ~LeafAt(d, k) IN
  Without(d, k) \cup Under(IF both THEN Update(nv, dv) ELSE nv, k)
UpdateKeys(new, d, K) == IF K = {} THEN d ELSE LET k == CHOOSE k \in K : TRUE IN UpdateKeys(new, OneKey(new, d, k), K \ {k})

D0 == {d \in SmallTrees : d # {}}
Init == defs \in D0 /\ file = {} /\ cur = {} /\ todo = {} /\ n = 0 /\ ph = "idle"
Start == /\ ph = "idle" /\ n < MaxLoads /\ \E t \in Trees : file' = t /\ todo' = {Head(x[1]) : x \in t}
         /\ cur' = defs /\ ph' = "loading" /\ UNCHANGED <<defs, n>>
\* the keys of the file, in any order
Step == /\ ph = "loading" /\ todo # {} /\ \E k \in todo : cur' = OneKey(file, cur, k) /\ todo' = todo \ {k}
        /\ defs' = IF Variant = "shared" THEN cur' ELSE defs
        /\ UNCHANGED <<file, n, ph>>
Done == ph = "loading" /\ todo = {} /\ ph' = "idle" /\ n' = n + 1 /\ UNCHANGED <<defs, cur, todo, file>>
Next == Start \/ Step \/ Done
Spec == Init /\ [][Next]_vars
Agrees == (ph = "idle" /\ n > 0) => cur = (IF Variant = "shared" THEN cur ELSE Override(file, defs))
DefaultsStay == [][defs' = defs]_vars
Whole == (ph = "idle" /\ n > 0 /\ Variant # "shared") => cur = Update(file, defs)
Replaced == (ph = "idle" /\ n > 0) => \A x \in file : x[2] # "{}" => x \in cur
Again == (ph = "idle" /\ n > 0) => Override(file, cur) = cur
=============================================================================
