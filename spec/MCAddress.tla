----------------------------- MODULE MCAddress -----------------------------
(* Laws of addresses over the configuration universes: an instance path      *)
(* denotes exactly its node, leaving out the last instance denotes the       *)
(* siblings, and leaving out inherited modules loses nothing.                *)
EXTENDS Address, Universe
VARIABLES fam, cfg, pos
vars == <<fam, cfg, pos>>
Init == fam \in {Families[i] : i \in 1..Len(Families)} /\ cfg \in Family(fam) /\ pos = <<>>
Next == \E i \in 1..Len(KidsAt(cfg, pos)) : pos' = Append(pos, i) /\ UNCHANGED <<fam, cfg>>
Spec == Init /\ [][Next]_vars
Denotes == pos # <<>> /\ Unique(cfg, "") => Instances(cfg, pos) = {pos}
Siblings == pos # <<>> /\ Unique(cfg, "") =>
  Kin(cfg, pos) = {x \in Below(cfg, <<>>) : Len(x) = Len(pos) /\ SubSeq(x, 1, Len(x) - 1) = SubSeq(pos, 1, Len(pos) - 1)
                                            /\ At(cfg, x).t = At(cfg, pos).t}
Lossless == pos # <<>> =>
  LET w == Written(cfg, pos, "", FALSE, TRUE)  f == Written(cfg, pos, "", TRUE, TRUE)
      m(i) == Info(PathAt(cfg, SubSeq(pos, 1, i), "")).pre
      s == [i \in 1..Len(w) |-> [om |-> w[i].om, m |-> IF w[i].om THEN "?" ELSE m(i)]]
  IN /\ ReadBack(s, "?") = [i \in 1..Len(f) |-> m(i)]
     /\ \A i \in 1..Len(w) : w[i].t = f[i].t /\ w[i].pr = f[i].pr
=============================================================================
