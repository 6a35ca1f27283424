------------------------------- MODULE Delta -------------------------------
(* Deltas between configurations: an abstract algorithm that computes an     *)
(* edit-config payload, and what any such payload has to satisfy.            *)
(* Options: [pc |-> merge|create|replace, pr |-> merge|replace,              *)
(*           pd |-> delete|remove, dt |-> minimum|replace, depth |-> Nat].   *)
EXTENDS EditConfig

Edit(t, v, k, op, ins, anc) ==
  [t |-> t, v |-> v, k |-> k, op |-> op, ins |-> ins, anc |-> anc]
RECURSIVE AsEdit(_)
AsEdit(kids) == [i \in 1..Len(kids) |-> Edit(kids[i].t, kids[i].v, AsEdit(kids[i].k), "", "", <<>>)]
EditOf(n, op) == Edit(n.t, n.v, AsEdit(n.k), op, "", <<>>)
WithIns(e, ins, anc) == [e EXCEPT !.ins = ins, !.anc = anc]

AnchorOf(n, p) ==       \* p : path of n
  LET f == Info(p) IN
  IF f.ty = "leaf-list" THEN << <<".", n.v>> >>
  ELSE [i \in 1..Len(f.keys) |-> <<f.keys[i], ValOf(n.k, f.keys[i])>>]

KeyEdits(n, p) == AsEdit(KeysOnly(n, p))

(* deletion of one node, never with "delete" on a non-presence container *)
RECURSIVE DeleteEdit(_, _, _)
DeleteEdit(n, p, pd) ==
  LET f == Info(p) IN
  CASE f.ty = "leaf-list" -> Edit(n.t, n.v, <<>>, pd, "", <<>>)
    [] f.ty = "list" -> Edit(n.t, "", KeyEdits(n, p), pd, "", <<>>)
    [] f.ty = "container" /\ ~f.pres /\ pd = "delete" ->
         Edit(n.t, "", [i \in 1..Len(n.k) |-> DeleteEdit(n.k[i], Sub(p, n.k[i].t), pd)], "", "", <<>>)
    [] OTHER -> Edit(n.t, "", <<>>, pd, "", <<>>)

(* creation of one node, never with "create" on a non-presence container *)
RECURSIVE CreateEdit(_, _)
CreateEdit(n, p) ==
  IF Info(p).ty = "container" /\ ~Info(p).pres
  THEN Edit(n.t, "", [i \in 1..Len(n.k) |-> CreateEdit(n.k[i], Sub(p, n.k[i].t))], "", "", <<>>)
  ELSE EditOf(n, "create")
NewEdit(n, p, o) ==
  IF o.dt = "replace" \/ o.pc = "replace" THEN EditOf(n, "replace")
  ELSE IF o.pc = "create" THEN CreateEdit(n, p) ELSE EditOf(n, "")

LeafListDiffers(a, b, p) ==
  \E t \in Tags(a) \cap Tags(b) :
     /\ Info(Sub(p, t)).ty = "leaf-list"
     /\ IF IsUser(Sub(p, t)) THEN IdSeq(a, t, p) # IdSeq(b, t, p)
        ELSE {OfTag(a, t)[i].v : i \in 1..Len(OfTag(a, t))} # {OfTag(b, t)[i].v : i \in 1..Len(OfTag(b, t))}

(* a list or container one level above the replace level is entered, never replaced *)
ByParent(a, b, p, o, lvl) ==
  o.pr = "replace" /\ ~(o.dt = "replace" /\ lvl + 1 = o.depth) /\ LeafListDiffers(a, b, p)
OmitDelete(n, b, p) ==     \* the server deletes n itself because b has another case
  \E i \in 1..Len(b) : Conflict(Sub(p, n.t), Sub(p, b[i].t))

RECURSIVE Diff(_, _, _, _, _)
(* payload that leads from a to b below path p; lvl: level of these nodes    *)
Diff(a, b, p, o, lvl) ==
  LET whole == o.dt = "replace" /\ lvl >= o.depth
      Prev(i) == LET I == {j \in 1..(i - 1) : b[j].t = b[i].t} IN
                 IF I = {} THEN 0 ELSE CHOOSE j \in I : \A x \in I : x <= j
      Ordered(e, i) == IF ~IsUser(Sub(p, b[i].t)) THEN e
                       ELSE IF Prev(i) = 0 THEN WithIns(e, "first", <<>>)
                       ELSE WithIns(e, "after", AnchorOf(b[Prev(i)], Sub(p, b[i].t)))
      Step(i) ==
        LET n == b[i]  q == Sub(p, n.t)  f == Info(q)  j == IdxOf(a, Id(n, q), p) IN
        IF j = 0 THEN <<Ordered(NewEdit(n, q, IF whole THEN [o EXCEPT !.pc = "replace"] ELSE o), i)>>
        ELSE LET m == a[j] IN
          CASE f.ty = "leaf" ->
                 IF m.v = n.v THEN IF f.iskey THEN <<EditOf(n, "")>> ELSE <<>>
                 ELSE <<EditOf(n, IF whole THEN "replace" ELSE IF o.pr = "merge" THEN "" ELSE o.pr)>>
            [] f.ty = "leaf-list" ->
                 IF f.user THEN <<Ordered(EditOf(n, IF whole THEN "replace" ELSE ""), i)>> ELSE <<>>
            [] f.ty = "container" ->
                 IF Same(m.k, n.k, q) THEN <<>>
                 ELSE IF whole THEN <<EditOf(n, "replace")>>
                 ELSE IF ByParent(m.k, n.k, q, o, lvl) THEN <<EditOf(n, "replace")>>
                 ELSE <<Edit(n.t, "", Diff(m.k, n.k, q, o, lvl + 1), "", "", <<>>)>>
            [] f.ty = "list" ->
                 IF Same(m.k, n.k, q)
                 THEN IF ~f.user THEN <<>>
                      ELSE IF whole THEN <<Ordered(EditOf(n, "replace"), i)>>
                      ELSE <<Ordered(Edit(n.t, "", KeyEdits(n, q), "", "", <<>>), i)>>
                 ELSE IF whole \/ ByParent(m.k, n.k, q, o, lvl)
                      THEN <<Ordered(EditOf(n, "replace"), i)>>
                 ELSE <<Ordered(Edit(n.t, "", Diff(m.k, n.k, q, o, lvl + 1), "", "", <<>>), i)>>
            [] OTHER -> <<>>
      kept == FlattenSeq([i \in 1..Len(b) |-> Step(i)])
      gone == SelectSeq(a, LAMBDA n : IdxOf(b, IdIn(n, p), p) = 0 /\ ~OmitDelete(n, b, p))
  IN kept \o [i \in 1..Len(gone) |-> DeleteEdit(gone[i], Sub(p, gone[i].t), o.pd)]

Delta(a, b, o) == Diff(a, b, "", o, 0)

(* ---- judgements on a payload e leading from a to b ---- *)
Find(kids, n, p) == IdxOf(kids, IdIn(n, p), p)

(* nothing but actual changes (apart from keys, and from user-ordered        *)
(* siblings, which are restated to fix their order)                          *)
RECURSIVE MinimalDelete(_, _, _)
MinimalDelete(e, n, p) ==       \* e deletes existing node n (path p)
  IF Op(e) \in {"delete", "remove"}
  THEN LET f == Info(p) IN
       CASE f.ty = "list" -> {e.k[i].t : i \in 1..Len(e.k)} = {f.keys[i] : i \in 1..Len(f.keys)}
         [] OTHER -> e.k = <<>>
  ELSE /\ IsNP(e, p) /\ Op(e) = "" /\ e.k # <<>>
       /\ \A i \in 1..Len(e.k) :
            LET j == Find(n.k, e.k[i], p) IN
            j # 0 /\ MinimalDelete(e.k[i], n.k[j], Sub(p, e.k[i].t))

RECURSIVE Minimal(_, _, _, _)
Minimal(es, a, b, p) ==
  \A i \in 1..Len(es) :
    LET e == es[i]  q == Sub(p, e.t)  f == Info(q)
        x == Find(a, e, p)  y == Find(b, e, p) IN
    IF y = 0 THEN x # 0 /\ MinimalDelete(e, a[x], q)
    ELSE IF Op(e) \in {"delete", "remove"} THEN FALSE
    ELSE IF x = 0 THEN Same(<<Plain(e.t, e.v, Strip(e.k))>>, <<b[y]>>, p)
    ELSE CASE f.ty = "leaf" -> f.iskey \/ (a[x].v # b[y].v /\ e.v = b[y].v)
           [] f.ty = "leaf-list" -> f.user
           [] OTHER ->
                IF Op(e) = "replace"
                THEN Same(Strip(e.k), b[y].k, q) /\ (f.user \/ ~Same(a[x].k, b[y].k, q))
                ELSE /\ Minimal(e.k, a[x].k, b[y].k, q)
                     /\ (f.ty = "list" /\ f.user) \/ ~Same(a[x].k, b[y].k, q)

RECURSIVE OpsIn(_)
OpsIn(es) == UNION {{Op(es[i])} \cup OpsIn(es[i].k) : i \in 1..Len(es)}
RECURSIVE NoOps(_)
NoOps(es) == \A i \in 1..Len(es) : Op(es[i]) = "" /\ NoOps(es[i].k)

(* an operation that a non-presence container must not carry *)
RECURSIVE OnNP(_, _, _)
OnNP(es, p, op) == \E i \in 1..Len(es) :
  \/ Op(es[i]) = op /\ IsNP(es[i], Sub(p, es[i].t))
  \/ OnNP(es[i].k, Sub(p, es[i].t), op)

(* a new subtree is created the preferred way *)
RECURSIVE CreatedAs(_, _, _)
CreatedAs(e, p, pc) ==
  CASE pc = "merge" -> Op(e) = "" /\ NoOps(e.k)
    [] pc = "replace" -> Op(e) = "replace" /\ NoOps(e.k)
    [] OTHER ->
        IF IsNP(e, p)
        THEN Op(e) = "" /\ \A i \in 1..Len(e.k) :
               LET q == Sub(p, e.k[i].t) IN
               \* a leaf that overrides a default in use already exists for some servers
               \/ CreatedAs(e.k[i], q, pc)
               \/ Info(q).def # <<>> /\ Op(e.k[i]) = ""
        ELSE Op(e) = "create" /\ NoOps(e.k)

RECURSIVE DeletedAs(_, _, _)
DeletedAs(e, p, pd) ==
  IF pd = "delete" /\ IsNP(e, p)
  THEN Op(e) = "" /\ e.k # <<>> /\ \A i \in 1..Len(e.k) : DeletedAs(e.k[i], Sub(p, e.k[i].t), pd)
  ELSE Op(e) = pd /\ NoOps(e.k)

RECURSIVE Prefers(_, _, _, _, _, _)
Prefers(es, a, b, p, o, lvl) ==
  LET whole == o.dt = "replace" /\ lvl >= o.depth
      pc == IF o.dt = "replace" THEN "replace" ELSE o.pc
  IN \A i \in 1..Len(es) :
    LET e == es[i]  q == Sub(p, e.t)  f == Info(q)
        x == Find(a, e, p)  y == Find(b, e, p) IN
    IF y = 0 THEN DeletedAs(e, q, o.pd)
    ELSE IF x = 0 THEN CreatedAs(e, q, pc)
    ELSE IF whole
         THEN f.iskey \/ (Op(e) = "replace" /\ NoOps(e.k)
                          /\ (f.ty \in {"container", "list"} => Same(Strip(e.k), b[y].k, q)))
    ELSE CASE f.ty = "leaf" -> Op(e) = (IF a[x].v = b[y].v \/ o.pr = "merge" THEN "" ELSE o.pr)
           [] f.ty = "leaf-list" -> Op(e) = ""
           [] OTHER ->
                IF ByParent(a[x].k, b[y].k, q, o, lvl)
                THEN Op(e) = "replace" /\ NoOps(e.k) /\ Same(Strip(e.k), b[y].k, q)
                ELSE Op(e) = "" /\ Prefers(e.k, a[x].k, b[y].k, q, o, lvl + 1)
=============================================================================
