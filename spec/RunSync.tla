------------------------------ MODULE RunSync ------------------------------
(* A device taken from one running-config to another, command by command.    *)
EXTENDS RunningConfig
CONSTANT Fams
W(s) == s
Arr(S) == UNION {{s \in [1..n -> S] : \A i, j \in 1..n : i # j => s[i] # s[j]} : n \in 0..Cardinality(S)}
Leaf(l) == [l |-> l, c |-> <<>>]
Sect(l, c) == [l |-> l, c |-> c]
L(i) == Voc.small[i]
(* top-level lines: two orderless, two not *)
FOrder == {[i \in 1..Len(s) |-> Leaf(s[i])] : s \in Arr({L("o1"), L("o2"), L("p1"), L("p2")})}
(* one section whose lines come and go and change places *)
FNest == {<<Leaf(L("p1")), Sect(L("s1"), [i \in 1..Len(s) |-> Leaf(s[i])])>> : s \in Arr({L("q1"), L("q2"), L("r1")})}
         \cup {<<Sect(L("s1"), [i \in 1..Len(s) |-> Leaf(s[i])]), Leaf(L("o1"))>> : s \in Arr({L("q1"), L("r1")})}
         \cup {<<Leaf(L("s1"))>>, <<>>}
(* settings, each with its values, beside a plain line *)
Pick(i) == {<<>>} \cup {<<Leaf(Voc.settings[i].s[k])>> : k \in 1..Len(Voc.settings[i].s)}
Top == {i \in 1..Len(Voc.settings) : Voc.settings[i].d = 0 /\ Voc.settings[i].optional}
FSet == UNION {{x \o y : x \in Pick(i), y \in {<<>>, <<Leaf(L("p1"))>>}} : i \in Top}
Family(f) == CASE f = "order" -> FOrder [] f = "nest" -> FNest [] f = "set" -> FSet
VARIABLES fam, a, b, dev, todo, n
vars == <<fam, a, b, dev, todo, n>>
Init == /\ fam \in Fams
        /\ a \in Family(fam) /\ b \in Family(fam)
        /\ dev = AsSet(a) /\ todo = RefCli(a, b, 0) /\ n = 0
Next == /\ todo # <<>>
        /\ dev' = Exec(dev, Head(todo), 0) /\ todo' = Tail(todo) /\ n' = n + 1
        /\ UNCHANGED <<fam, a, b>>
Spec == Init /\ [][Next]_vars
Arrives == todo = <<>> => dev = AsSet(b)
Stable == todo = <<>> => ExecAll(dev, RefCli(a, b, 0), 0) = dev
DiffRight == n = 0 =>
  LET D == RefDiff(a, b, 0) IN
  /\ Alike(Without(a, D, "-"), Without(b, D, "+"), 0)
  /\ Same(Without(a, D, "-"), Without(b, D, "+"), 0)
  /\ Truthful(D, a, b, 0)
  /\ Restless(D, a, b, 0)
  /\ (D = <<>>) = Same(a, b, 0)
SameLaws == n = 0 =>
  /\ Same(a, b, 0) = Same(b, a, 0) /\ Alike(a, b, 0) = Alike(b, a, 0)
  /\ Same(a, b, 0) => Alike(a, b, 0)
  /\ Same(a, a, 0)
=============================================================================
