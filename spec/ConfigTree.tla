----------------------------- MODULE ConfigTree -----------------------------
(***************************************************************************)
(* Configurations as sets of <<path, value>> pairs: path is a sequence of   *)
(* keys, value a string; the value "{}" stands for an object without keys.  *)
(* Loading a file: the values of the file replace those of the defaults,    *)
(* key by key, at any depth.                                                *)
(* Events: [op |-> "load", new, res, defs]   file, result, built-in         *)
(*            defaults afterwards (all as sequences of [p, v])              *)
(*         [op |-> "bad", kind, rejected, defs]  unreadable/malformed file  *)
(*         [op |-> "space", text, lit]   descriptions of the search spaces  *)
(*            obtained from a textual and from a literal description        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Rng(q) == {q[i] : i \in 1..Len(q)}
Flat(q) == {<<q[i].p, q[i].v>> : i \in 1..Len(q)}
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Proper(p, q) == Prefix(p, q) /\ Len(p) < Len(q)
\* something of the tree t lies at or below path p, and it is an object there
IsObject(t, p) == \E x \in t : Proper(p, x[1]) \/ (x[1] = p /\ x[2] = "{}") \/ p = <<>>
\* values of the file that take effect
Effective(new, d) == {x \in new : ~(x[2] = "{}" /\ IsObject(d, x[1]))}
\* defaults that stay: nothing in the file is at, above or below their place, except empty objects above (they change nothing)
Stays(new, d, y) == \A x \in Effective(new, d) : ~Prefix(x[1], y[1]) /\ ~Proper(y[1], x[1])
Override(new, d) == Effective(new, d) \cup {y \in d : Stays(new, d, y)}

Clauses(c, e) ==
  CASE e.op = "load" -> { <<"C18.override", Flat(e.res) = Override(Flat(e.new), Flat(c.defs))>>,
                          <<"C18.defaults", Flat(e.defs) = Flat(c.defs)>> }
    [] e.op = "bad" -> { <<"C18.rejected", e.rejected>>, <<"C18.defaults", Flat(e.defs) = Flat(c.defs)>> }
    [] e.op = "space" -> { <<"C18.space", e.text = e.lit>> }
    [] OTHER -> { <<"C18.raise", FALSE>> }
=============================================================================
