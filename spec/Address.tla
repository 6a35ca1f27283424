------------------------------ MODULE Address ------------------------------
(* Addresses of nodes: which nodes a path denotes, how a path is written in  *)
(* the notations of the library, and which schema node a data node has.      *)
(* A position is the sequence of child indexes from the root (Select).       *)
EXTENDS Select

RECURSIVE PathAt(_, _, _)
PathAt(cfg, pos, p) ==          \* data path (schema path) of the node at pos
  IF pos = <<>> THEN p
  ELSE LET n == cfg[pos[1]] IN PathAt(n.k, Tail(pos), Sub(p, n.t))
RECURSIVE IdsAt(_, _, _)
IdsAt(cfg, pos, p) ==           \* identities from the root
  IF pos = <<>> THEN <<>>
  ELSE LET n == cfg[pos[1]] IN <<IdIn(n, p)>> \o IdsAt(n.k, Tail(pos), Sub(p, n.t))
RECURSIVE TagsAt(_, _)
TagsAt(cfg, pos) ==
  IF pos = <<>> THEN <<>> ELSE LET n == cfg[pos[1]] IN <<n.t>> \o TagsAt(n.k, Tail(pos))

(* the nodes an instance path denotes: those with the same identities        *)
RECURSIVE Follow(_, _, _)
Follow(kids, ids, p) ==
  IF ids = <<>> THEN {<<>>}
  ELSE UNION {{<<i>> \o r : r \in Follow(kids[i].k, Tail(ids), Sub(p, kids[i].t))}
              : i \in {j \in 1..Len(kids) : IdIn(kids[j], p) = Head(ids)}}
Instances(cfg, pos) == Follow(cfg, IdsAt(cfg, pos, ""), "")
(* without the instance of the last step: all its siblings of that name      *)
Kin(cfg, pos) ==
  LET up == SubSeq(pos, 1, Len(pos) - 1)
      par == IF up = <<>> THEN {<<>>} ELSE Instances(cfg, up)
      t == At(cfg, pos).t
  IN UNION {{Append(q, i) : i \in {j \in 1..Len(KidsAt(cfg, q)) : KidsAt(cfg, q)[j].t = t}} : q \in par}

(* a written path: steps [t, om, pr]: om when the module is left out, pr the *)
(* predicates <<tag or ".", value>>                                          *)
Pre(p) == Info(p).pre
Preds(n, p) ==
  LET f == Info(p) IN
  CASE f.ty = "leaf-list" -> <<<<".", n.v>>>>
    [] f.ty = "list" -> LET ks == SelectSeq(f.keys, LAMBDA k : k \in Tags(n.k)) IN [i \in 1..Len(ks) |-> <<ks[i], ValOf(n.k, ks[i])>>]
    [] OTHER -> <<>>
RECURSIVE Written(_, _, _, _, _)
Written(cfg, pos, p, all, inst) ==      \* all: no module is left out
  IF pos = <<>> THEN <<>>
  ELSE LET n == cfg[pos[1]]  q == Sub(p, n.t)
           om == ~all /\ p # "" /\ Pre(p) = Pre(q)
       IN <<[t |-> n.t, om |-> om, pr |-> IF inst \/ Len(pos) > 1 THEN Preds(n, q) ELSE <<>>]>>
          \o Written(n.k, Tail(pos), q, all, inst)

(* reading a path back: a module left out is that of the step before         *)
RECURSIVE ReadBack(_, _)
ReadBack(steps, m) ==   \* the modules of the steps, given those written
  IF steps = <<>> THEN <<>>
  ELSE LET s == Head(steps)  x == IF s.om THEN m ELSE s.m IN <<x>> \o ReadBack(Tail(steps), x)

(* ---- names of modules ---- *)
(* NS: the modules of the device, <<name, prefix, url>>; Extra2: namespaces  *)
(* of the protocol, which have no module name                                *)
Col(k) == CASE k = "name" -> 1 [] k = "prefix" -> 2 [] k = "url" -> 3
Rows(ns, k, x) == {i \in 1..Len(ns) : ns[i][Col(k)] = x /\ x # ""}
(* convert_tag(default, tag): dq, tq are written in the source notation;     *)
(* tq = "" when the tag has no qualifier.  src, dst = [k, omit]              *)
Convert(ns, dq, tq, src, dst) ==
  LET x == IF tq = "" THEN dq ELSE tq
      out == {ns[i][Col(dst.k)] : i \in Rows(ns, src.k, x)}
  IN CASE tq # "" /\ Rows(ns, src.k, tq) = {} -> [err |-> TRUE]
       [] tq = "" /\ ~src.omit -> [err |-> TRUE]
       [] dst.omit /\ x = dq -> [err |-> FALSE, ns |-> x, q |-> ""]
       [] out = {} \/ out = {""} -> [err |-> TRUE]
       [] OTHER -> [err |-> FALSE, ns |-> x, q |-> CHOOSE y \in out : TRUE]
=============================================================================
