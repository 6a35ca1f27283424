------------------------------ MODULE MCModels ------------------------------
(* The difference of two models says exactly how to get from one to the      *)
(* other, over all pairs of a small universe of models.                      *)
EXTENDS Models
Leaf(t, v) == [t |-> t, at |-> {<<"type", "leaf">>, <<"datatype", v>>}, k |-> <<>>]
Cont(t, pr, k) == [t |-> t, at |-> {<<"type", "container">>, <<"presence", pr>>}, k |-> k]
Opt(S) == {<<>>} \cup {<<x>> : x \in S}
Leaves(t) == Opt({Leaf(t, "a"), Leaf(t, "b")})
L1 == {x \o y : x \in Leaves("x"), y \in Leaves("y")}
Inner == Opt({Cont("c", "t", k) : k \in L1} \cup {Cont("c", "f", k) : k \in Leaves("x")} \cup {Leaf("c", "a")})
Trees == {x \o <<Cont("top", "f", c)>> \o y : x \in Leaves("r"), c \in Inner, y \in Opt({Cont("z", "t", <<>>)})}
VARIABLES a, b
vars == <<a, b>>
Init == a \in Trees /\ b \in Trees
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
D == Diff(a, b, <<>>)
Exact == SameModel(Patch(a, b, D, <<>>), b)
EmptyIff == (D = {}) <=> SameModel(a, b)
Mirror == {x[1] : x \in View(D, "added")} = {x[1] : x \in View(Diff(b, a, <<>>), "deleted")}
Partition == {x \in D : x[2] # ""} = UNION {{x \in View(D, m) : x[2] = m} : m \in {"added", "deleted", "modified"}}
NoNoise == \A x \in D : x[2] = "" => \E y \in D : y[2] # "" /\ Above(x[1], y[1])
=============================================================================
