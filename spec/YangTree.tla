------------------------------ MODULE YangTree ------------------------------
(* Abstract YANG-modelled configurations.                                    *)
(*                                                                           *)
(* A configuration is a sequence of nodes [t |-> tag, v |-> text, k |-> kids]*)
(* (tags are "prefix:name", identityref / instance-identifier values are     *)
(* written with module names, so the XML prefixes used are abstracted away). *)
(* A node of an edit-config payload also has op, ins and anc fields.         *)
(* Schema maps a data path "va:top/va:np/va:x" to what YANG says about it.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt, Json, IOUtils

(* read once from the YANG modules; a plain definition, not a CONSTANT, so   *)
(* that TLC caches it                                                        *)
Schema == JsonDeserialize(IOEnv.VP_SCHEMA)

NoInfo == [ty |-> "unknown", keys |-> <<>>, user |-> FALSE, pres |-> FALSE,
           def |-> <<>>, dt |-> "", iskey |-> FALSE, rw |-> TRUE,
           status |-> "current", choices |-> <<>>, kids |-> <<>>]

SchemaPaths == DOMAIN Schema
Info(p) == IF p \in SchemaPaths THEN Schema[p] ELSE NoInfo
Sub(p, t) == IF p = "" THEN t ELSE p \o "/" \o t

Op(n)  == IF "op"  \in DOMAIN n THEN n.op  ELSE ""
Ins(n) == IF "ins" \in DOMAIN n THEN n.ins ELSE ""
Anc(n) == IF "anc" \in DOMAIN n THEN n.anc ELSE <<>>
Extra(n) == IF "xat" \in DOMAIN n THEN n.xat ELSE ""

Plain(t, v, k) == [t |-> t, v |-> v, k |-> k]

(* ---- identity of a node among its siblings ---- *)
ValOf(kids, t) ==
  LET I == {i \in 1..Len(kids) : kids[i].t = t}
  IN IF I = {} THEN "<none>" ELSE kids[CHOOSE i \in I : \A j \in I : i <= j].v

Id(n, p) ==     \* p is the path of n itself
  LET f == Info(p) IN
  CASE f.ty = "leaf-list" -> <<n.t, n.v>>
    [] f.ty = "list"      -> <<n.t>> \o [i \in 1..Len(f.keys) |-> ValOf(n.k, f.keys[i])]
    [] OTHER              -> <<n.t>>

IdIn(n, p) == Id(n, Sub(p, n.t))

IdxOf(kids, id, p) ==
  LET I == {i \in 1..Len(kids) : IdIn(kids[i], p) = id}
  IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j

IsNP(n, p) == LET f == Info(p) IN f.ty = "container" /\ ~f.pres
IsUser(p) == Info(p).user /\ Info(p).ty \in {"list", "leaf-list"}

Tags(kids) == {kids[i].t : i \in 1..Len(kids)}
OfTag(kids, t) == SelectSeq(kids, LAMBDA n : n.t = t)
UserTags(kids, p) == {t \in Tags(kids) : IsUser(Sub(p, t))}
IdSeq(kids, t, p) == LET s == OfTag(kids, t) IN [i \in 1..Len(s) |-> IdIn(s[i], p)]

(* no two siblings have the same identity *)
RECURSIVE Unique(_, _)
Unique(kids, p) ==
  /\ \A i, j \in 1..Len(kids) : i < j => IdIn(kids[i], p) # IdIn(kids[j], p)
  /\ \A i \in 1..Len(kids) : Unique(kids[i].k, Sub(p, kids[i].t))

(* ---- equality up to what YANG makes irrelevant ---- *)
RECURSIVE Canon(_, _)
Canon(kids, p) ==
  [set |-> {<<IdIn(kids[i], p), kids[i].v, Canon(kids[i].k, Sub(p, kids[i].t))>>
              : i \in 1..Len(kids)},
   num |-> Len(kids),
   ord |-> {<<t, IdSeq(kids, t, p)>> : t \in UserTags(kids, p)}]

Same(a, b, p) == Canon(a, p) = Canon(b, p)
Equal(a, b) == Same(a, b, "")

RECURSIVE Le(_, _, _)
Le(a, b, p) ==
  /\ \A i \in 1..Len(a) :
       LET n == a[i]  q == Sub(p, n.t)  j == IdxOf(b, Id(n, q), p) IN
       /\ j # 0
       /\ n.v = b[j].v
       /\ Le(n.k, b[j].k, q)
  /\ \A t \in UserTags(a, p) :
       LET s == IdSeq(a, t, p)  r == IdSeq(b, t, p)
           Pos(id) == CHOOSE x \in 1..Len(r) : r[x] = id
       IN \A x \in 1..(Len(s) - 1) : Pos(s[x]) < Pos(s[x + 1])
Included(a, b) == Le(a, b, "")

(* structure only: no edit attributes, no stray attributes *)
RECURSIVE Clean(_)
Clean(kids) == \A i \in 1..Len(kids) :
   /\ Op(kids[i]) = "" /\ Ins(kids[i]) = "" /\ Anc(kids[i]) = <<>>
   /\ Extra(kids[i]) = ""
   /\ Clean(kids[i].k)

RECURSIVE Strip(_)
Strip(kids) == [i \in 1..Len(kids) |-> Plain(kids[i].t, kids[i].v, Strip(kids[i].k))]

(* ---- choices ---- *)
(* choices of a data node: sequence of <<choice, case>>, outermost first *)
Cases(p) == {<<Info(p).choices[i][1], Info(p).choices[i][2]>> : i \in 1..Len(Info(p).choices)}
Conflict(p, q) == \E x \in Cases(p), y \in Cases(q) : x[1] = y[1] /\ x[2] # y[2]
RECURSIVE OneCase(_, _)
OneCase(kids, p) ==
  /\ \A i, j \in 1..Len(kids) : ~Conflict(Sub(p, kids[i].t), Sub(p, kids[j].t))
  /\ \A i \in 1..Len(kids) : OneCase(kids[i].k, Sub(p, kids[i].t))

(* ---- normal form: explicit defaults, empty non-presence containers and    *)
(*      empty list entries carry no information                              *)
DropDefault(n, kids, p) ==       \* p : path of n, kids : its siblings
  LET f == Info(p) IN
  CASE f.ty = "leaf" -> ~f.iskey /\ f.def # <<>> /\ n.v = f.def[1]
    [] f.ty = "leaf-list" ->
         LET s == OfTag(kids, n.t)
             vs == [i \in 1..Len(s) |-> s[i].v]
         IN f.def # <<>> /\ IF f.user THEN vs = f.def
                            ELSE {vs[i] : i \in 1..Len(vs)} = {f.def[i] : i \in 1..Len(f.def)}
    [] OTHER -> FALSE

RECURSIVE Trim(_, _)
Trim(kids, p) ==
  LET deep == [i \in 1..Len(kids) |->
                 [kids[i] EXCEPT !.k = Trim(kids[i].k, Sub(p, kids[i].t))]]
  IN SelectSeq(deep, LAMBDA n :
       LET q == Sub(p, n.t) IN
       ~ \/ n.k = <<>> /\ (IsNP(n, q) \/ Info(q).ty = "list")
         \/ DropDefault(n, kids, q))

(* removal of obsolete (and on request deprecated) nodes *)
RECURSIVE DropStatus(_, _, _)
DropStatus(kids, p, dep) ==
  LET deep == [i \in 1..Len(kids) |->
                 [kids[i] EXCEPT !.k = DropStatus(kids[i].k, Sub(p, kids[i].t), dep)]]
  IN SelectSeq(deep, LAMBDA n :
       LET q == Sub(p, n.t)  s == Info(q).status IN
       ~ \/ n.k = <<>> /\ (IsNP(n, q) \/ Info(q).ty = "list")
         \/ s = "obsolete"
         \/ s = "deprecated" /\ dep)

Normal(kids) == Trim(kids, "")
IsNormal(kids) == Equal(kids, Normal(kids))

(* read-write part: what a device accepts as configuration *)
RECURSIVE ReadWrite(_, _)
ReadWrite(kids, p) ==
  LET ok == SelectSeq(kids, LAMBDA n : Info(Sub(p, n.t)).rw)
  IN [i \in 1..Len(ok) |-> [ok[i] EXCEPT !.k = ReadWrite(ok[i].k, Sub(p, ok[i].t))]]

(* well-formed against the schema *)
RECURSIVE Known(_, _)
Known(kids, p) == \A i \in 1..Len(kids) :
   /\ Sub(p, kids[i].t) \in SchemaPaths
   /\ Known(kids[i].k, Sub(p, kids[i].t))
RECURSIVE HasKeys(_, _)
HasKeys(kids, p) == \A i \in 1..Len(kids) :
   LET q == Sub(p, kids[i].t)  f == Info(q) IN
   /\ f.ty = "list" => \A x \in 1..Len(f.keys) : f.keys[x] \in Tags(kids[i].k)
   /\ HasKeys(kids[i].k, q)

RECURSIVE Size(_)
Size(kids) == IF kids = <<>> THEN 0
              ELSE 1 + Size(Head(kids).k) + Size(Tail(kids))
=============================================================================
