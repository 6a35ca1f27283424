----------------------------- MODULE MCDefaults -----------------------------
(* The defaults in use, found by descent, are those of which each step of    *)
(* the way down is taken without anything being in the data tree.            *)
EXTENDS Models
Lf(t, d) == [t |-> t, ty |-> "leaf", def |-> d, pres |-> FALSE, k |-> <<>>]
Nd(t, ty, d, pr, k) == [t |-> t, ty |-> ty, def |-> d, pres |-> pr, k |-> k]
Opt(S) == {<<>>} \cup {<<x>> : x \in S}
Leaves(t) == Opt({Lf(t, <<>>), Lf(t, <<"1">>)})
Case(t, K) == {Nd(t, "case", <<>>, FALSE, k) : k \in K}
Choice(t, K) == {Nd(t, "choice", d, FALSE, <<x, y>>) : d \in {<<>>, <<"c1">>, <<"c2">>}, x \in Case("a:c1", K), y \in Case("a:c2", Leaves("a:y"))}
Cont(t, K) == {Nd(t, "container", <<>>, p, k) : p \in BOOLEAN, k \in K}
List(t, K) == {Nd(t, "list", <<>>, FALSE, k) : k \in K}
K1 == Leaves("a:x") \cup {<<c>> : c \in Cont("a:i", Leaves("a:x"))}
K2 == {x \o z : x \in K1, z \in Opt(Choice("a:ch", K1))}
K3 == {<<n>> : n \in Cont("a:o", K2) \cup List("a:l", K2) \cup Choice("a:top", K2)}
VARIABLE s
Init == s \in K3
Next == UNCHANGED s
Spec == Init /\ [][Next]_s
RECURSIVE Ps(_, _)
Ps(kids, path) == UNION {{Append(path, kids[i].t)} \cup Ps(kids[i].k, Append(path, kids[i].t)) : i \in 1..Len(kids)}
RECURSIVE NodeAt(_, _)
NodeAt(kids, p) == LET n == kids[Find(kids, p[1])] IN IF Len(p) = 1 THEN n ELSE NodeAt(n.k, Tail(p))
Up(p) == SubSeq(p, 1, Len(p) - 1)
Taken(p) ==      \* with nothing in the data tree, does the node at p count as being there
  LET n == NodeAt(s, p) IN
  CASE n.ty = "case" -> LET c == NodeAt(s, Up(p)) IN c.def # <<>> /\ n.t = "a:" \o c.def[1]
    [] n.ty = "container" -> ~n.pres
    [] n.ty = "choice" -> TRUE
    [] OTHER -> FALSE
Declared == {p \in Ps(s, <<>>) :
  LET n == NodeAt(s, p) IN
  /\ \A i \in 1..(Len(p) - 1) : Taken(SubSeq(p, 1, i))
  /\ (n.ty = "leaf" /\ n.def # <<>>) \/ (n.ty = "case" /\ Taken(p))}
Same == InUse(s, <<>>) = Declared
OneCase == \A p, q \in InUse(s, <<>>) : (NodeAt(s, p).ty = "case" /\ NodeAt(s, q).ty = "case" /\ Up(p) = Up(q)) => p = q
=============================================================================
