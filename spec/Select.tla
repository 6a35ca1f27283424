------------------------------- MODULE Select -------------------------------
(* XPath-like selection of nodes and the sub-configuration it denotes.       *)
(* A position is the sequence of child indexes from the root.                *)
EXTENDS YangTree

RECURSIVE At(_, _)
KidsAt(cfg, pos) == IF pos = <<>> THEN cfg ELSE At(cfg, pos).k
At(cfg, pos) == IF Len(pos) = 1 THEN cfg[pos[1]] ELSE At(cfg[pos[1]].k, Tail(pos))

RECURSIVE Below(_, _)
Below(kids, pos) ==      \* positions of all nodes in kids, prefixed by pos
  UNION {{Append(pos, i)} \cup Below(kids[i].k, Append(pos, i)) : i \in 1..Len(kids)}
ChildrenOf(cfg, pos) == {Append(pos, i) : i \in 1..Len(KidsAt(cfg, pos))}

(* string-value of a node: its own text or all text inside it               *)
RECURSIVE StrVal(_)
StrVal(n) == IF n.k = <<>> THEN n.v ELSE FoldLeft(LAMBDA acc, c : acc \o StrVal(c), "", n.k)
Matches(n, s) ==
  /\ s.t = "*" \/ n.t = s.t
  /\ s.pk = "" \/ \E i \in 1..Len(n.k) : n.k[i].t = s.pk /\ StrVal(n.k[i]) = s.pv
  /\ s.tv = "" \/ n.v = s.tv

RECURSIVE Steps(_, _, _)
Steps(cfg, ctx, steps) ==
  IF steps = <<>> THEN ctx
  ELSE LET s == Head(steps)
           cand == UNION {IF s.ax = "child" THEN ChildrenOf(cfg, c)
                          ELSE Below(KidsAt(cfg, c), c) : c \in ctx}
       IN Steps(cfg, {c \in cand : Matches(At(cfg, c), s)}, Tail(steps))
Chosen(cfg, steps) == Steps(cfg, {<<>>}, steps)

Starts(x, pos) == Len(x) > Len(pos) /\ SubSeq(x, 1, Len(pos)) = pos

(* the selected subtrees, their ancestors, and the keys of list entries      *)
(* among these ancestors                                                     *)
RECURSIVE Keep(_, _, _, _)
Keep(kids, sel, pos, p) ==
  LET One(i) ==
        LET n == kids[i]  q == Sub(p, n.t)  x == Append(pos, i) IN
        IF x \in sel \/ Info(q).iskey THEN <<n>>
        ELSE IF \E s \in sel : Starts(s, x) THEN <<[n EXCEPT !.k = Keep(n.k, sel, x, q)]>>
        ELSE <<>>
  IN FlattenSeq([i \in 1..Len(kids) |-> One(i)])
=============================================================================
