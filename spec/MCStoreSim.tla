----------------------------- MODULE MCStoreSim -----------------------------
(* Behaviours of ModelStore as histories of what a user does and where the   *)
(* process dies, to be replayed in the real code.                            *)
EXTENDS MCStore, IOUtils, Json
VARIABLE hist
Log(x) == hist' = Append(hist, x)
SInit == Init /\ hist = <<>>
SNext ==
  \/ Work /\ UNCHANGED hist
  \/ \E k \in {"check", "force"} : Begin(k) /\ Log([op |-> "run", how |-> k, at |-> "", m |-> ""])
  \/ \E x \in Mods : Compile(x) /\ Log([op |-> "load", how |-> "", at |-> "", m |-> x])
  \/ Crash /\ run # "up" /\ Log([op |-> "crash", how |-> "", at |-> run, m |-> ""])
  \/ Upgrade /\ hist # <<>> /\ hist[Len(hist)].op # "upgrade" /\ Log([op |-> "upgrade", how |-> "", at |-> "", m |-> ""])
SSpec == SInit /\ [][SNext]_<<vars, hist>>
Emit == Len(hist) = 7 /\ run \in {"up", "off"} => PrintT("VPHIST " \o ToJson(hist))
Bound == Len(hist) <= 7
=============================================================================
