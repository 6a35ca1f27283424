------------------------------- MODULE Models -------------------------------
(* Compiled models: what the compiler has to say about each schema node, and *)
(* the difference of two models.                                             *)
(* A schema (as written in YANG) is a sequence of nodes                      *)
(*   [t, ty, cfg, st, def, key, user, pres, mand, feat, dt, vals, um, k]     *)
(* a model is a sequence of nodes [t, at, k] with at the set of attributes   *)
(* <<name, value>>.                                                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

RECURSIVE Join(_, _)
Join(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Join(Tail(s), sep)
Leafy(n) == n.ty \in {"leaf", "leaf-list"}
At(c, a, v) == IF c THEN {<<a, v>>} ELSE {}

Home(t) == SubSeq(t, 1, 2)      \* "a:": prefixes are single letters
(* mode: "" for data, else rpc, input, output, notification; cfg: whether the *)
(* parent is configuration; keys: the keys of the parent                      *)
ModeOf(n, mode) ==
  CASE n.ty \in {"rpc", "action"} -> "rpc" [] n.ty = "notification" -> "notification"
    [] mode = "rpc" /\ n.ty \in {"input", "output"} -> n.ty
    [] OTHER -> mode
Access(n, mode, cfg) ==
  CASE ModeOf(n, mode) \in {"rpc", "input"} -> "write"
    [] ModeOf(n, mode) \in {"output", "notification"} -> "read-only"
    [] cfg /\ n.cfg # "false" -> "read-write"
    [] OTHER -> "read-only"
Attrs(n, mode, cfg, keys) ==
  LET iskey == n.t \in ToSet(keys) /\ n.ty = "leaf" IN
  {<<"type", n.ty>>, <<"access", Access(n, mode, cfg)>>}
  \cup At(n.st \in {"deprecated", "obsolete"}, "status", n.st)
  \cup At(n.def # <<>>, "default", Join(n.def, ","))
  \cup At(n.ty = "list" /\ n.key # <<>>, "key", Join(n.keyw, " "))
  \cup At(n.ty \in {"list", "leaf-list"} /\ n.user, "ordered-by", "user")
  \cup At(n.ty = "container" /\ n.pres, "presence", "true")
  \cup At((n.ty \in {"leaf", "choice"} /\ n.mand) \/ iskey, "mandatory", "true")
  \cup At(iskey, "is_key", "true")
  \cup At(n.feat # <<>>, "if-feature", Join(n.feat, " "))
  \cup At(Leafy(n), "datatype", n.dt)
  \cup At(Leafy(n) /\ n.vals # <<>>, "values", Join(n.vals, "|"))
  \cup {<<"{urn:t}" \o n.ann[i][1], n.ann[i][2]>> : i \in 1..Len(n.ann)}
  \cup At(Leafy(n) /\ n.um # <<>>, "unionmembertypes", Join(n.um, "|"))
RECURSIVE Expect(_, _, _, _)
Expect(kids, mode, cfg, keys) ==
  [i \in 1..Len(kids) |->
     LET n == kids[i] IN
     [t |-> n.t, at |-> Attrs(n, mode, cfg, keys), k |-> Expect(n.k, ModeOf(n, mode), cfg /\ n.cfg # "false", n.key)]]

(* a model as a set: the order of schema nodes has no meaning *)
RECURSIVE Bag(_)
Bag(kids) == [n |-> Len(kids), s |-> {<<kids[i].t, kids[i].at, Bag(kids[i].k)>> : i \in 1..Len(kids)}]
SameModel(a, b) == Bag(a) = Bag(b)

(* ---- the printed tree: flags, options, keys, type and features of RFC 8340 ---- *)
Val(n, a) == IF \E x \in n.at : x[1] = a THEN (CHOOSE x \in n.at : x[1] = a)[2] ELSE ""
Line(n, p) ==
  LET ty == Val(n, "type")  acc == Val(n, "access") IN
  [p |-> p,
   flag |-> CASE ty = "case" -> "" [] ty \in {"rpc", "action"} -> "-x" [] ty = "notification" -> "-n"
              [] acc = "write" -> "-w" [] acc = "read-write" -> "rw" [] OTHER -> "ro",
   opt |-> CASE ty \in {"list", "leaf-list"} -> "*"
             [] ty \in {"leaf", "choice", "anydata", "anyxml"} /\ Val(n, "mandatory") # "true" -> "?" [] OTHER -> "",
   keys |-> IF ty = "list" THEN Val(n, "key") ELSE "",
   dt |-> IF ty \in {"anydata", "anyxml"} THEN "<" \o ty \o ">" ELSE Val(n, "datatype"),
   feat |-> Val(n, "if-feature")]
RECURSIVE Lines(_, _)
Lines(kids, path) == UNION {{Line(kids[i], Append(path, kids[i].t))} \cup Lines(kids[i].k, Append(path, kids[i].t)) : i \in 1..Len(kids)}

(* ---- defaults in use below a node that exists: RFC 7950, 7.6.1, 7.7.2, 7.9.3 ---- *)
(* found along containers without presence and default cases only            *)
RECURSIVE InUse(_, _)
InUse(kids, path) ==
  UNION {LET n == kids[i]  p == Append(path, n.t)
             cs == IF n.ty = "choice" /\ n.def # <<>>
                   THEN {j \in 1..Len(n.k) : n.k[j].t = Home(n.t) \o n.def[1]} ELSE {} IN
         CASE Leafy(n) /\ n.def # <<>> -> {p}
           [] n.ty = "container" /\ ~n.pres -> InUse(n.k, p)
           [] n.ty = "choice" -> UNION {{Append(p, n.k[j].t)} \cup InUse(n.k[j].k, Append(p, n.k[j].t)) : j \in cs}
           [] OTHER -> {}
         : i \in 1..Len(kids)}
(* ---- difference ---- *)
Find(kids, t) == LET I == {i \in 1..Len(kids) : kids[i].t = t} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
RECURSIVE All(_, _, _)
All(kids, path, mark) ==        \* a whole subtree has one mark
  UNION {{<<Append(path, kids[i].t), mark>>} \cup All(kids[i].k, Append(path, kids[i].t), mark) : i \in 1..Len(kids)}
RECURSIVE Diff(_, _, _)
Diff(a, b, path) ==             \* the nodes of the difference with their marks
  UNION {LET n == b[i]  j == Find(a, n.t)  p == Append(path, n.t) IN
         IF j = 0 THEN All(<<n>>, path, "added")
         ELSE IF SameModel(<<a[j]>>, <<n>>) THEN {}
         ELSE {<<p, IF a[j].at = n.at THEN "" ELSE "modified">>} \cup Diff(a[j].k, n.k, p)
         : i \in 1..Len(b)}
  \cup UNION {IF Find(b, a[i].t) = 0 THEN All(<<a[i]>>, path, "deleted") ELSE {} : i \in 1..Len(a)}
Above(p, q) == Len(p) < Len(q) /\ SubSeq(q, 1, Len(p)) = p
(* what is shown of one kind of change: its nodes and, unmarked, those above *)
View(d, mark) ==
  LET hit == {x \in d : x[2] = mark} IN
  hit \cup {<<x[1], "">> : x \in {y \in d : y[2] # mark /\ \E z \in hit : Above(y[1], z[1])}}

(* ---- laws, for the design check ---- *)
RECURSIVE Patch(_, _, _, _)
Patch(a, b, d, path) ==         \* a with the changes of d; b supplies what is new or modified
  LET kept == SelectSeq(a, LAMBDA n : <<Append(path, n.t), "deleted">> \notin d)
      new == SelectSeq(b, LAMBDA n : <<Append(path, n.t), "added">> \in d)
      One(n) == LET p == Append(path, n.t)  m == b[Find(b, n.t)] IN
                IF \E x \in d : x[1] = p THEN [t |-> n.t, at |-> IF <<p, "modified">> \in d THEN m.at ELSE n.at, k |-> Patch(n.k, m.k, d, p)]
                ELSE n
  IN [i \in 1..Len(kept) |-> One(kept[i])] \o new
=============================================================================
