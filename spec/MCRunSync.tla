----------------------------- MODULE MCRunSync -----------------------------
EXTENDS RunSync
Names == <<"order", "nest", "set">>
MCFams == {Names[i] : i \in 1..Len(Names)}
Emit == JsonSerialize(IOEnv.VP_OUT, [i \in 1..Len(Names) |-> [name |-> Names[i], cfgs |-> SetToSeq(Family(Names[i]))]])
ASSUME IOEnv.VP_OUT = "" \/ Emit
=============================================================================
