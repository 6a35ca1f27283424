------------------------------ MODULE MCStore ------------------------------
EXTENDS ModelStore
m == {"a", "b", "c", "d"}
W1 == [load |-> {"a", "b"}, given |-> {"a", "b", "c"},
       needs |-> [x \in m |-> CASE x = "a" -> {"c"} [] x = "b" -> {"c", "d"} [] OTHER -> {}]]
W2 == [load |-> {"a"}, given |-> {"a", "d"},
       needs |-> [x \in m |-> CASE x = "a" -> {"d"} [] x = "d" -> {"a", "b"} [] OTHER -> {}]]
TheWorlds == <<W1, W2>>
=============================================================================
