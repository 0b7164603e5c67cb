---------------------------- MODULE SurrogateUse ----------------------------
(***************************************************************************)
(* Surrogates as objects with a state (parameters and data) that only       *)
(* updates change.  Every event is an operation on model e.m and carries    *)
(* e.dig, the digests of the states of all models after the operation.      *)
(*  [op |-> "new"]                  the first, unfitted model               *)
(*  [op |-> "update", m, data, held]  ids of the data given and held        *)
(*  [op |-> "query", m, kind, x, res, num, want, pos, low]                  *)
(*        res: id of the result (equal ids: equal up to rounding),          *)
(*        num: number of results (samples), pos: all deviations positive,   *)
(*        same: ids of pairs that have to agree                             *)
(*  [op |-> "copy", m, cfg, cfgcopy, data, held]                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
S0 == [dig |-> <<>>, ep |-> <<>>, seen |-> {}]
\* ep[m]: how often model m was updated; seen: results of earlier queries
Touches(e) == IF e.op \in {"update"} THEN {e.m} ELSE {}
Post(c, s, e) ==
  CASE e.op = "new"    -> [s EXCEPT !.dig = e.dig, !.ep = <<0>>]
    [] e.op = "update" -> [s EXCEPT !.dig = e.dig, !.ep[e.m] = @ + 1]
    [] e.op = "copy"   -> [s EXCEPT !.dig = e.dig, !.ep = Append(@, 0)]
    [] e.op = "query"  -> [s EXCEPT !.dig = e.dig, !.seen = @ \cup {[m |-> e.m, ep |-> s.ep[e.m], kind |-> e.kind, x |-> e.x, res |-> e.res]}]
    [] OTHER -> s
Key(s, e) == {r \in s.seen : r.m = e.m /\ r.ep = s.ep[e.m] /\ r.kind = e.kind /\ r.x = e.x}
Clauses(c, s, e) ==
  CASE e.op = "new" -> {}
    [] e.op = "update" ->
         { <<"C20.data", e.held = e.data>>,
           <<"C20.independent", \A k \in 1..Len(s.dig) : k # e.m => e.dig[k] = s.dig[k]>> }
    [] e.op = "copy" ->
         { <<"C20.copy_config", e.cfgcopy = e.cfg>>, <<"C20.copy_data", e.held = e.data>>,
           <<"C20.pure", \A k \in 1..Len(s.dig) : e.dig[k] = s.dig[k]>> }
    [] e.op = "query" ->
         { <<"C20.pure", e.dig = s.dig>>,
           <<"C20.samples", e.num = c.samples>>,
           <<"C20.positive", e.pos>>,
           <<"C20.args", e.args>>,
           <<"C20.agree", \A i \in 1..Len(e.same) : e.same[i][1] = e.same[i][2]>> }
         \cup (IF Key(s, e) = {} THEN {} ELSE { <<"C20.repeat", \A r \in Key(s, e) : r.res = e.res>> })
         \cup (IF e.kind = "fmin" THEN { <<"C20.fmin", \A i \in 1..Len(e.same) : e.same[i][1] = e.same[i][2]>> } ELSE {})
    [] OTHER -> { <<"C20.raise", FALSE>> }
=============================================================================
