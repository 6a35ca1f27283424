------------------------------ MODULE Operands ------------------------------
(* Operands that have no meaning.  A place of a configuration is torn if two *)
(* of its nodes have one identity or a list entry there lacks a key (or has  *)
(* it twice).  Two configurations are ambiguous if a place that both have is *)
(* torn in one of them: nothing can be said about their sum, their           *)
(* difference or their order.                                                *)
EXTENDS YangTree

KeysOnce(n, p) == Info(p).ty # "list" \/
  \A i \in 1..Len(Info(p).keys) : Len(OfTag(n.k, Info(p).keys[i])) = 1
Torn(kids, p) ==
  \/ \E i \in 1..Len(kids) : ~KeysOnce(kids[i], Sub(p, kids[i].t))
  \/ \E i, j \in 1..Len(kids) : i < j /\ IdIn(kids[i], p) = IdIn(kids[j], p)

RECURSIVE Ambiguous(_, _, _)
Ambiguous(a, b, p) ==
  \/ Torn(a, p) \/ Torn(b, p)
  \/ \E i \in 1..Len(a) :
       LET q == Sub(p, a[i].t)  j == IdxOf(b, Id(a[i], q), p) IN
       j # 0 /\ Ambiguous(a[i].k, b[j].k, q)

(* what comes of an operation on operands of the given kinds *)
Refused == "TypeError"
Result(op, x, y) ==
  CASE op = "+" -> IF (x = "config" /\ y \in {"config", "delta", "element"}) \/ (x = "delta" /\ y = "config") THEN "config" ELSE Refused
    [] op = "-" -> IF x = "config" /\ y = "config" THEN "delta" ELSE IF x = "config" /\ y = "delta" THEN "config" ELSE Refused
    [] op \in {"<", "<=", ">", ">="} -> IF x = "config" /\ y = "config" THEN "truth" ELSE Refused
    [] op \in {"==", "!="} -> IF x = "config" /\ y = "config" THEN "truth" ELSE Refused
    [] op = "neg" -> IF x = "delta" THEN "delta" ELSE Refused
    [] op = "pos" -> IF x = "delta" THEN "delta" ELSE Refused
    [] op = "Config" -> IF x \in {"none", "config", "element", "text", "reply"} THEN "config" ELSE Refused
    [] op = "Delta" -> IF x = "config" /\ y \in {"config", "none"} THEN "delta" ELSE Refused
    [] op = "Payload" -> IF x = "config" /\ y \in {"text", "element", "none"} THEN "delta" ELSE Refused
    [] OTHER -> "?"
(* options of a delta that have no meaning *)
Options == [preferred_create |-> {"merge", "create", "replace"}, preferred_replace |-> {"merge", "replace"},
            preferred_delete |-> {"delete", "remove"}, random_depth |-> {"None", "0", "3"}, random_seed |-> {"None", "0", "7", "-2"}]
OptionOk(o, v) == v \in Options[o]
=============================================================================
