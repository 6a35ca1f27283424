------------------------------ MODULE MCSession ------------------------------
(* Behaviours of ConfigSession, generated with tlc -simulate and replayed in *)
(* the real code.                                                            *)
EXTENDS ConfigSession
Depth == atoi(IOEnv.VP_DEPTH)
O0 == [pc |-> "merge", pr |-> "merge", pd |-> "delete", dt |-> "minimum", depth |-> 0]
VARIABLES s, hist, fam
vars == <<s, hist, fam>>

(* payloads of foreign edits are made of the delta between two members of the family *)
Init == s = Empty /\ hist = <<>> /\ fam \in {Families[i] : i \in 1..Len(Families)}
Call(c, pay) == /\ s' = Do(c, s, pay) /\ hist' = Append(hist, c) /\ UNCHANGED fam
Payload(d) == Delta(s.dels[d].src, s.dels[d].dst, O0)
(* one random successor per step (the simulator would otherwise evaluate the invariants on all) *)
Pick(S) == RandomElement(S)
Choose1(k, r, q, t, d, x, cfg) ==
  CASE k <= 3 -> Call([op |-> "load", t |-> t, cfg |-> cfg], <<>>)
    [] k \in {4, 5} -> Call([op |-> "add", r |-> r, s |-> q, t |-> t], <<>>)
    [] k \in {6, 7, 8} -> Call([op |-> "sub", r |-> r, s |-> q, d |-> d], <<>>)
    [] k = 9 -> Call([op |-> "neg", x |-> x, d |-> d], <<>>)
    [] k \in {10, 11, 12} -> Call([op |-> "apply", r |-> r, x |-> x, t |-> t], Payload(x))
    [] k = 13 -> Call([op |-> "cmp", r |-> r, s |-> q], <<>>)
    [] k = 14 -> Call([op |-> "copy", r |-> r, t |-> t], <<>>)
    [] k = 15 -> Call([op |-> "payload", x |-> x], <<>>)
    [] OTHER -> IF s.regs[r] = <<>> THEN Call([op |-> "copy", r |-> r, t |-> t], <<>>)
                ELSE LET p == Pick(Below(s.regs[r], <<>>)) IN
                  Call([op |-> "filter", r |-> r, t |-> t,
                        steps |-> << [ax |-> "desc", t |-> At(s.regs[r], p).t, pk |-> "", pv |-> "", tv |-> ""] >>], <<>>)
Next == /\ Len(hist) < Depth
        /\ \E k \in {Pick(1..16)}, r \in {Pick(Regs)}, q \in {Pick(Regs)}, t \in {Pick(Regs)},
              d \in {Pick(Slots)}, x \in {Pick(Slots)}, cfg \in {Pick(Family(fam))} :
             Choose1(k, r, q, t, d, x, cfg)
Spec == Init /\ [][Next]_vars

(* every configuration a session can reach is a proper one *)
Proper == \A r \in Regs : Unique(s.regs[r], "") /\ OneCase(s.regs[r], "") /\ IsNormal(s.regs[r])
                          /\ HasKeys(s.regs[r], "") /\ Clean(s.regs[r])
(* a delta applied to what it was made from leads to its destination *)
Leads == \A d \in Slots : LET a == Apply(s.dels[d].src, Payload(d)) IN
                            a.err = "" /\ Equal(a.k, s.dels[d].dst)
Emit == Len(hist) = Depth => PrintT("VPHIST " \o ToJson(hist))
=============================================================================
