-------------------------- MODULE Gen_ConfigTree ---------------------------
(* Sequences of configuration files over the built-in defaults (a JSON list *)
(* of [p, v], named by the environment variable DEF).                       *)
EXTENDS ConfigTree, Json, IOUtils
CONSTANTS PerRun
VARIABLES n, out
Def == JsonDeserialize(IOEnv.DEF)
Pick(S) == RandomElement(IF n >= 0 THEN S ELSE {})
Chance(k) == Pick(1..100) <= k
Values == {"7", "-3.5", "\"text\"", "\"\"", "true", "false", "null", "[1, 2]", "[]", "[{\"k\": 1}]", "{}"}
Val(i) == TLCEval(Pick(Values))
Name(i) == TLCEval(Pick({"zz", "type", "name", "space", "k2", "model"}))
Leaf(i) == TLCEval(Def[Pick(1..Len(Def))].p)
\* a random path of an object of the defaults
ObjPath(i) == LET p == TLCEval(Leaf(i)) IN TLCEval(SubSeq(p, 1, Pick(0..(Len(p) - 1))))
Edit(i) ==
  LET r == Pick(1..100) IN
  TLCEval(
  CASE r <= 45 -> [p |-> Leaf(i), v |-> Val(i)]
    [] r <= 57 -> [p |-> Append(Leaf(i), Name(i)), v |-> Val(i)]
    [] r <= 75 -> [p |-> Append(ObjPath(i), Name(i)), v |-> Val(i)]
    [] r <= 85 -> [p |-> ObjPath(i) \o <<Name(i), Name(i + 1)>>, v |-> Val(i)]
    [] r <= 93 -> LET p == TLCEval(ObjPath(i)) IN [p |-> IF p = <<>> THEN <<"model">> ELSE p, v |-> Val(i)]
    [] OTHER -> [p |-> ObjPath(i) \o <<Name(i), Name(i + 1), Name(i + 2)>>, v |-> Val(i)])
Clash(p, q) == Prefix(p, q) \/ Prefix(q, p)
RECURSIVE Collect(_, _)
Collect(k, acc) == IF k = 0 THEN acc
                   ELSE LET e == TLCEval(Edit(k)) IN Collect(k - 1, IF \E i \in 1..Len(acc) : Clash(acc[i].p, e.p) THEN acc ELSE TLCEval(Append(acc, e)))
Load(i) == [op |-> "load", new |-> TLCEval(IF Chance(5) THEN << >> ELSE Collect(Pick(1..6), <<>>)), edit |-> TLCEval(Chance(60)), via |-> TLCEval(Pick({"parser", "parser", "update", "driver"}))]
Bad(i)  == [op |-> "bad", kind |-> TLCEval(Pick({"missing", "empty", "truncated", "binary", "directory", "list", "number", "trailing"}))]
NumSet == {-4, -1, 0, 1, 2, 3, 6, 8}
Var(i) == LET t == TLCEval(Pick({"continuous", "continuous", "discrete", "categorical", "bandit"})) IN
  [name |-> TLCEval(Pick({"x", "y", "z"})) \o ToString(i), t |-> t,
   dom |-> TLCEval(IF t = "continuous" THEN LET a == TLCEval(Pick(-4..4)) IN <<a, a + TLCEval(Pick(1..9))>>
                   ELSE IF t = "bandit" THEN <<>> ELSE SubSeq(TLCEval(CHOOSE q \in {TLCEval(<<Pick(NumSet), Pick({11, 12}), Pick({21, 22}), Pick({31, 32})>>)} : TRUE), 1, TLCEval(Pick(1..4)))),
   arms |-> TLCEval(IF t = "bandit" THEN [j \in 1..Pick(1..4) |-> <<j, TLCEval(Pick(NumSet))>>] ELSE <<>>),
   dim |-> TLCEval(IF t # "bandit" /\ Chance(40) THEN Pick(1..3) ELSE 0), \* 0: not given
   form |-> TLCEval(Pick({"tuple", "list", "spaces", "fraction"})), dimtext |-> TLCEval(Chance(60))]
Space(i) == [op |-> "space", vars |-> TLCEval(LET k == TLCEval(Pick(1..3)) b == TLCEval(Var(1)) IN
                    IF b.t = "bandit" THEN <<b>> ELSE SelectSeq([j \in 1..k |-> IF j = 1 THEN b ELSE TLCEval(Var(j))], LAMBDA v : v.t # "bandit")),
             cons |-> TLCEval(Chance(30))]
Event(i) == LET r == Pick(1..100) IN TLCEval(IF r <= 65 THEN Load(i) ELSE IF r <= 80 THEN Bad(i) ELSE Space(i))
Case == LET k == TLCEval(Pick(1..6)) IN [ev |-> TLCEval([i \in 1..k |-> TLCEval(Event(i))]), seed |-> TLCEval(Pick(1..100000))]
Init == n = 0 /\ out = <<>>
Next == n < PerRun /\ n' = n + 1 /\ out' = TLCEval(Case)
Spec == Init /\ [][Next]_<<n, out>>
Emit == n > 0 => PrintT(ToJson(out))
=============================================================================
