----------------------------- MODULE DSUniverse -----------------------------
(* The universe of search spaces used to explore and test DesignSpace.     *)
EXTENDS DesignSpace
U0 == 4
V(t, dom, arms, dim) == [name |-> "", t |-> t, dom |-> dom, arms |-> arms, dim |-> dim]
CatDom(k) == [i \in 1..k |-> (i - 1) * U0]
Prims == << V("continuous", <<-4, 8>>, <<>>, 1), V("continuous", <<1, 6>>, <<>>, 2),
            V("discrete", <<5, 0, 2>>, <<>>, 1), V("discrete", <<-3, 8>>, <<>>, 2),
            V("categorical", CatDom(2), <<>>, 1), V("categorical", CatDom(3), <<>>, 1),
            V("categorical", CatDom(3), <<>>, 2), V("discrete", <<4, 8, 12, 30>>, <<>>, 1),
            V("categorical", CatDom(1), <<>>, 1) >>
Bands == << V("bandit", <<>>, << <<0, 0>>, <<4, 6>>, <<-3, 2>> >>, 1),
            V("bandit", <<>>, << <<2>>, <<7>>, <<-5>>, <<3>> >>, 1),
            V("bandit", <<>>, << <<1, 2, 3>>, <<8, 0, -2>> >>, 1) >>
Named(sp, un) == [i \in 1..Len(sp) |-> [sp[i] EXCEPT !.name = IF un THEN "var_" \o ToString(i - 1) ELSE "x" \o ToString(i)]]
SeqsOf(P, n) == UNION { [1..k -> Rng(P)] : k \in 1..n }
SpacesOf(n, m) == { Named(sp, un) : sp \in SeqsOf(Prims, n) \cup SeqsOf(Bands, m), un \in BOOLEAN }
=============================================================================
