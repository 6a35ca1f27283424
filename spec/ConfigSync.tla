----------------------------- MODULE ConfigSync -----------------------------
(* A controller keeps a device at a target configuration: it computes the    *)
(* delta from the running to the target configuration and sends it; it may   *)
(* also roll back by sending the opposite delta.                             *)
EXTENDS Delta, Universe
CONSTANTS OptSet, Fams

VARIABLES fam,     \* the feature family explored
          run,     \* the device's running configuration
          tgt,     \* the configuration the controller wants
          opt,     \* delta options
          phase,   \* "idle", "planned" (target chosen), "synced"
          pay, back\* payload and opposite payload computed
vars == <<fam, run, tgt, opt, phase, pay, back>>

Init == /\ fam \in Fams /\ run = <<>> /\ tgt = <<>> /\ opt \in OptSet
        /\ phase = "idle" /\ pay = <<>> /\ back = <<>>
Plan == /\ phase = "idle"
        /\ tgt' \in Family(fam)
        /\ pay' = Delta(run, tgt', opt) /\ back' = Delta(tgt', run, opt)
        /\ phase' = "planned" /\ UNCHANGED <<fam, run, opt>>
Send == /\ phase = "planned"
        /\ run' = tgt        \* what Apply(run, pay) gives up to Equal: see Delivers
        /\ phase' = "idle" /\ tgt' = <<>> /\ pay' = <<>> /\ back' = <<>> /\ UNCHANGED <<fam, opt>>
Next == Plan \/ Send
Spec == Init /\ [][Next]_vars

(* invariants: the guarantees of a delta *)
Delivers    == phase = "planned" => LET r == Apply(run, pay) IN r.err = "" /\ Equal(r.k, tgt)
Reversible  == phase = "planned" => LET r == Apply(tgt, back) IN r.err = "" /\ Equal(r.k, run)
EmptyIffEq  == phase = "planned" => (Equal(run, tgt) => pay = <<>>) /\ (pay = <<>> => Equal(run, tgt))
IsMinimal   == phase = "planned" /\ opt.dt \in {"minimum", "replace"} => Minimal(pay, run, tgt, "")
IsPreferred == phase = "planned" => Prefers(pay, run, tgt, "", opt, 0)
NeverOnNP   == phase = "planned" => ~OnNP(pay, "", "create") /\ ~OnNP(pay, "", "delete")
WellFormed  == Unique(run, "") /\ OneCase(run, "") /\ IsNormal(run) /\ Known(run, "") /\ HasKeys(run, "")
OrderLaws   == phase = "planned" =>
                 ((Included(run, tgt) /\ Included(tgt, run)) <=> Equal(run, tgt))
=============================================================================
