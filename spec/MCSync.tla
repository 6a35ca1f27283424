------------------------------- MODULE MCSync -------------------------------
EXTENDS ConfigSync
O(pc, pr, pd, dt, d) == [pc |-> pc, pr |-> pr, pd |-> pd, dt |-> dt, depth |-> d]
(* quick runs explore one set of options each (VP_OPT), thorough runs all *)
MCOptSet == IF Scale = 1 /\ IOEnv.VP_OPT = "0" THEN {O("merge", "merge", "delete", "minimum", 0)}
  ELSE IF Scale = 1 /\ IOEnv.VP_OPT = "1" THEN {O("create", "replace", "remove", "minimum", 0)}
  ELSE IF Scale = 1 /\ IOEnv.VP_OPT = "2" THEN {O("merge", "merge", "delete", "replace", 1)}
  ELSE IF Scale = 1
  THEN {O("merge", "merge", "delete", "minimum", 0), O("create", "replace", "remove", "minimum", 0),
        O("merge", "merge", "delete", "replace", 1)}
  ELSE {O(pc, pr, pd, "minimum", 0) : pc \in {"merge", "create", "replace"}, pr \in {"merge", "replace"}, pd \in {"delete", "remove"}}
       \cup {O("merge", pr, pd, "replace", d) : pr \in {"merge", "replace"}, pd \in {"delete", "remove"}, d \in 0..2}
MCFams == {Families[i] : i \in 1..Len(Families)}
(* the universes, for the conformance driver *)
Emit == LET F == [i \in 1..Len(Families) |-> [name |-> Families[i], cfgs |-> SetToSeq(Family(Families[i]))]]
        IN JsonSerialize(IOEnv.VP_OUT, F)
ASSUME IOEnv.VP_OUT = "" \/ Emit
=============================================================================
