------------------------------ MODULE ModelSet ------------------------------
(* The set of loaded models and the remembered answers to "which schema node *)
(* does this data node have": loading a model again replaces the answers     *)
(* about it and no others.  ver is the version loaded of each model (0: not  *)
(* loaded), memo what is remembered about a path.                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Models, Paths, Owner, MaxVer, Forget(_)   \* Forget(m): paths forgotten when m is loaded
VARIABLES ver, memo, got, hist
vars == <<ver, memo, got, hist>>
Init == ver = [m \in Models |-> 0] /\ memo = [p \in Paths |-> 0] /\ got = <<>> /\ hist = <<>>
Load(m) ==
  /\ ver[m] < MaxVer
  /\ ver' = [ver EXCEPT ![m] = @ + 1]
  /\ memo' = [p \in Paths |-> IF p \in Forget(m) THEN 0 ELSE memo[p]]
  /\ got' = <<>> /\ hist' = Append(hist, [op |-> "load", x |-> m])
Ask(p) ==
  LET v == IF memo[p] # 0 THEN memo[p] ELSE ver[Owner[p]] IN
  /\ got' = <<p, v>>
  /\ memo' = [memo EXCEPT ![p] = v]
  /\ UNCHANGED ver /\ hist' = Append(hist, [op |-> "ask", x |-> p])
Next == (\E m \in Models : Load(m)) \/ (\E p \in Paths : Ask(p))
Spec == Init /\ [][Next]_vars
(* answers are about the model as it is loaded now *)
Current == got # <<>> => got[2] = ver[Owner[got[1]]]
Bound == Len(hist) <= 8
View == <<ver, memo, got>>
=============================================================================
