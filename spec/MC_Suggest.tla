----------------------------- MODULE MC_Suggest -----------------------------
(* Every legal behaviour of Suggest on a small finite domain: requests with *)
(* all contexts, pending sets, batch sizes; responses chosen freely among   *)
(* those that meet the clauses.  The invariants restate the properties      *)
(* against independent ghosts.                                              *)
EXTENDS Suggest
CONSTANTS Confs, MaxReq
VARIABLES c, s, nreq, last, all
mvars == <<c, s, nreq, last, all>>
D(n, vs) == [name |-> n, t |-> "discrete", dom |-> vs, arms |-> <<>>, dim |-> 1]
K(n, k) == [name |-> n, t |-> "categorical", dom |-> [i \in 1..k |-> (i - 1) * 4], arms |-> <<>>, dim |-> 1]
Sp1 == << D("d", <<0, 2>>), K("k", 2) >>
Sp2 == << D("d", <<0, 1, 3>>) >>
Base == [U |-> 4, given |-> TRUE, design |-> "random"]
AllConfs ==
  { [space |-> Sp1, U |-> 4, given |-> TRUE, design |-> "random", dd |-> dd, b |-> b, ev |-> ev, cons |-> cn] :
      dd \in BOOLEAN, b \in {1, 2}, ev \in {"sequential", "random", "thompson_sampling"},
      cn \in { <<>>, << [k |-> "le", i |-> 1, j |-> 2, v |-> 0] >> } }
Conf2 == { x \in AllConfs : ~(x.b = 1 /\ x.ev = "random") }
ConfDD == { x \in AllConfs : x.dd /\ x.ev = "random" /\ x.b = 2 }
Pts(cc) == AllLegal(cc.space)
Ctxs(cc) == {<<>>} \cup { << [v |-> k, val |-> a] >> : k \in 1..Len(Expand(cc.space)), a \in {<<0>>} }
                  \cup { << [v |-> 2, val |-> <<4>>], [v |-> 1, val |-> <<0>>] >> }
Init == /\ c \in Confs
        /\ \E x \in {y \in Pts(c) : Feasible(c, y)} : s = Post(c, S0, [op |-> "init", rows |-> <<x>>]) /\ all = {x}
        /\ nreq = 0 /\ last = [op |-> "init"]
Reqs == { [op |-> "req", kind |-> kd, ctx |-> cx, unknown |-> un, pend |-> pd, ign |-> <<>>] :
          kd \in {"sug", "run"}, cx \in Ctxs(c), un \in BOOLEAN,
          pd \in { <<>> } \cup { <<p>> : p \in Pts(c) } }
OkReq(e) == ~(e.kind = "run" /\ e.pend # <<>>) /\ (e.unknown => e.ctx = <<>> /\ e.pend = <<>>)
Rows(n) == UNION { [1..m -> Pts(c)] : m \in 1..n }
Resps == { [op |-> "resp", rows |-> R] : R \in Rows(c.b) } \cup { [op |-> "explored"], [op |-> "reject"] }
Do(e) == /\ \A k \in Clauses(c, s, e) : k[2]
         /\ s' = Post(c, s, e) /\ c' = c
Next == \/ /\ s.ph = "idle" /\ nreq < MaxReq
           /\ \E e \in Reqs : OkReq(e) /\ Do(e) /\ last' = e
           /\ nreq' = nreq + 1 /\ all' = all
        \/ /\ s.ph = "asked"
           /\ \E e \in Resps : /\ Do(e) /\ last' = e
                               /\ all' = IF e.op = "resp" /\ s.req.kind = "run" THEN all \cup Rng(e.rows) ELSE all
           /\ nreq' = nreq
Spec == Init /\ [][Next]_mvars
\* ---- restated properties
AllLegalRows == \A x \in all : Legal(c.space, x) /\ Feasible(c, x)
NoRepeat == c.dd => Cardinality(all) = Len(s.taken)
GhostAgrees == all = Rng(s.taken)
\* some response is always possible
NoDeadEnd == (s.ph = "asked") => \E e \in Resps : \A k \in Clauses(c, s, e) : k[2]
RespOK == [][ (last'.op = "resp") =>
     /\ \A i \in 1..Len(last'.rows) :
          \A n \in 1..Len(s.req.ctx) : last'.rows[i][s.req.ctx[n].v] = s.req.ctx[n].val[1]
     /\ c.dd => \A i \in 1..Len(last'.rows) : ~(\E p \in 1..Len(s.req.pend) : s.req.pend[p] = last'.rows[i]) /\ last'.rows[i] \notin all
     /\ ~s.req.unknown ]_mvars
ExploredOK == [][ (last'.op = "explored" /\ s.ph = "asked") =>
     \A x \in Pts(c) : \/ ~Feasible(c, x) \/ x \in all \/ (\E p \in 1..Len(s.req.pend) : s.req.pend[p] = x)
                       \/ \E n \in 1..Len(s.req.ctx) : x[s.req.ctx[n].v] # s.req.ctx[n].val[1] ]_mvars
\* the request is forgotten once answered: context, pending and ignored points never stick
NothingSticks == s.ph = "idle" => s.req = NoReq
=============================================================================
