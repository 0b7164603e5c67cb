----------------------------- MODULE Isolation ------------------------------
(***************************************************************************)
(* Who may change what.  A trace follows one optimizer and the objects the  *)
(* caller owns: those it handed over and those it was given.  o.dig is a    *)
(* digest of object o, hist the digests of the recorded evaluations.        *)
(*  [op |-> "call", what, own, hist, res, twin, new]                        *)
(*       own: [o, dig] of every object of the caller after the call         *)
(*       new: [o, dig] of the objects the call handed over or gave back     *)
(*       res/twin: the result, and that of a twin whose caller touches      *)
(*       nothing                                                            *)
(*  [op |-> "scribble", o, dig, own, hist]   the caller overwrites o        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
S0 == [own |-> {}, hist |-> <<>>]
Pairs(q) == {<<q[i].o, q[i].dig>> : i \in 1..Len(q)}
Recording == {"construct", "run", "objective"}
Post(c, s, e) ==
  CASE e.op = "call" -> [own |-> Pairs(e.own) \cup Pairs(e.new), hist |-> e.hist]
    [] e.op = "scribble" -> [own |-> Pairs(e.own), hist |-> e.hist]
    [] OTHER -> s
IsPrefix(p, q) == Len(p) <= Len(q) /\ \A i \in 1..Len(p) : p[i] = q[i]
Clauses(c, s, e) ==
  CASE e.op = "call" ->
         { <<"C21.args", s.own = Pairs(e.own)>>,
           <<"C21.twin", e.res = e.twin>>,
           <<"C21.history", IF e.what \in Recording THEN IsPrefix(s.hist, e.hist) ELSE e.hist = s.hist>> }
    [] e.op = "scribble" ->
         { <<"C21.independent", e.hist = s.hist>>,
           <<"C21.others", {p \in s.own : p[1] # e.o} = {p \in Pairs(e.own) : p[1] # e.o}>> }
    [] OTHER -> { <<"C21.raise", FALSE>> }
=============================================================================
