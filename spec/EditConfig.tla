----------------------------- MODULE EditConfig -----------------------------
(* What a NETCONF server (RFC 6241 section 7.2, RFC 7950 sections 7.5.8,     *)
(* 7.6.6, 7.7.9, 7.8.6 and 7.9) does with an edit-config payload whose       *)
(* default operation is merge.                                               *)
EXTENDS YangTree

Ops == {"merge", "create", "replace", "delete", "remove"}

InsAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
RemoveIdx(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

LastOf(kids, t) ==
  LET I == {i \in 1..Len(kids) : kids[i].t = t}
  IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i
FirstOf(kids, t) ==
  LET I == {i \in 1..Len(kids) : kids[i].t = t}
  IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j

(* identity of the anchor that an insert attribute refers to *)
AnchorId(e, p) ==
  LET f == Info(p)  a == Anc(e) IN
  IF f.ty = "leaf-list" THEN <<e.t, a[1][2]>>
  ELSE <<e.t>> \o [i \in 1..Len(f.keys) |->
         LET I == {j \in 1..Len(a) : a[j][1] = f.keys[i]}
         IN IF I = {} THEN "<none>" ELSE a[CHOOSE j \in I : TRUE][2]]

(* place node x (edit e) among kids; the result is [k, err] *)
Place(kids, x, e, p) ==
  LET q == Sub(p, e.t)
      lastpos == IF LastOf(kids, e.t) = 0 THEN Len(kids) + 1 ELSE LastOf(kids, e.t) + 1
  IN IF ~IsUser(q) \/ Ins(e) \in {"", "last"} THEN [k |-> InsAt(kids, lastpos, x), err |-> ""]
     ELSE IF Ins(e) = "first" THEN
        [k |-> InsAt(kids, IF FirstOf(kids, e.t) = 0 THEN Len(kids) + 1 ELSE FirstOf(kids, e.t), x),
         err |-> ""]
     ELSE IF Ins(e) \in {"before", "after"} THEN
        IF Anc(e) = <<>> THEN [k |-> kids, err |-> "insert-attribute-missing"]
        ELSE LET j == IdxOf(kids, AnchorId(e, q), p) IN
             IF j = 0 THEN [k |-> kids, err |-> "insert-anchor-missing"]
             ELSE [k |-> InsAt(kids, IF Ins(e) = "before" THEN j ELSE j + 1, x), err |-> ""]
     ELSE [k |-> kids, err |-> "insert-unknown"]

(* move the existing node at index i as the edit says *)
Move(kids, i, e, p) ==
  LET q == Sub(p, e.t) IN
  IF ~IsUser(q) \/ Ins(e) = "" THEN [k |-> kids, err |-> ""]
  ELSE IF Ins(e) \in {"before", "after"} /\ Anc(e) # <<>>
          /\ AnchorId(e, q) = IdIn(kids[i], p) THEN [k |-> kids, err |-> ""]
  ELSE LET r == Place(RemoveIdx(kids, i), kids[i], e, p)
       IN IF r.err # "" THEN [k |-> kids, err |-> r.err] ELSE r

KeysOnly(e, p) == SelectSeq(Strip(e.k), LAMBDA n : n.t \in {Info(p).keys[i] : i \in 1..Len(Info(p).keys)})

RECURSIVE ApplyKids(_, _, _), ApplySeq(_, _, _, _)
(* [k |-> new kids, err |-> first error or ""] *)
One(kids, e, p) ==
  LET q == Sub(p, e.t)
      f == Info(q)
      i == IdxOf(kids, Id(e, q), p)
      op == IF Op(e) = "" THEN "merge" ELSE Op(e)
      self == Plain(e.t, e.v, Strip(e.k))
  IN
  IF op \notin Ops THEN [k |-> kids, err |-> "unknown-operation"]
  ELSE IF i = 0 THEN
    CASE op = "delete" -> [k |-> kids, err |-> "data-missing"]
      [] op = "remove" -> [k |-> kids, err |-> ""]
      [] op \in {"create", "replace"} -> Place(kids, self, e, p)
      [] OTHER ->
           IF f.ty \in {"container", "list"}
           THEN LET sub == ApplyKids(IF f.ty = "list" THEN KeysOnly(e, q) ELSE <<>>, e.k, q)
                    r == Place(kids, Plain(e.t, "", sub.k), e, p)
                IN [k |-> r.k, err |-> IF r.err # "" THEN r.err ELSE sub.err]
           ELSE Place(kids, self, e, p)
  ELSE
    CASE op = "create" -> [k |-> kids, err |-> "data-exists"]
      [] op \in {"delete", "remove"} -> [k |-> RemoveIdx(kids, i), err |-> ""]
      [] OTHER ->
           LET sub == IF f.ty \in {"container", "list"}
                      THEN IF op = "replace" THEN [k |-> Strip(e.k), err |-> ""]
                           ELSE ApplyKids(kids[i].k, e.k, q)
                      ELSE [k |-> <<>>, err |-> ""]
               new == IF f.ty \in {"container", "list"} THEN Plain(e.t, "", sub.k) ELSE self
               r == Move([kids EXCEPT ![i] = new], i, e, p)
           IN [k |-> r.k, err |-> IF r.err # "" THEN r.err ELSE sub.err]

ApplySeq(kids, edits, p, n) ==
  IF n > Len(edits) THEN [k |-> kids, err |-> ""]
  ELSE LET r == One(kids, edits[n], p)
       IN IF r.err # "" THEN r ELSE ApplySeq(r.k, edits, p, n + 1)

(* a node of one case exists after the edit because of the edit: nodes of    *)
(* the other cases that the edit does not also write are gone                *)
ImplicitDelete(kids, edits, p) ==
  LET written == {edits[i].t : i \in {i \in 1..Len(edits) : Op(edits[i]) \notin {"delete", "remove"}}}
      live == {kids[i].t : i \in {i \in 1..Len(kids) :
                 /\ kids[i].t \in written
                 /\ ~(IsNP(kids[i], Sub(p, kids[i].t)) /\ Trim(kids[i].k, Sub(p, kids[i].t)) = <<>>)}}
  IN SelectSeq(kids, LAMBDA n : n.t \in written
                \/ \A t \in live : ~Conflict(Sub(p, t), Sub(p, n.t)))

ApplyKids(kids, edits, p) ==
  LET r == ApplySeq(kids, edits, p, 1)
  IN IF r.err # "" THEN r ELSE [k |-> ImplicitDelete(r.k, edits, p), err |-> ""]

(* the datastore after the edit, in normal form, or the error *)
Apply(cfg, edits) ==
  LET r == ApplyKids(cfg, edits, "")
  IN IF r.err # "" THEN [k |-> cfg, err |-> r.err]
     ELSE [k |-> Normal(r.k), err |-> ""]
=============================================================================
