------------------------------- MODULE Needs -------------------------------
(* What a download has to obtain: the announced modules and, for those the   *)
(* device hands out, whatever they import and include.                       *)
RECURSIVE Reach(_, _, _)
Reach(needs, given, S) ==
  LET T == S \cup UNION {needs[m] : m \in S \cap given} IN
  IF T = S THEN S ELSE Reach(needs, given, T)
Wanted(needs, given, S) == Reach(needs, given, S) \cap given
=============================================================================
