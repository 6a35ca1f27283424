----------------------------- MODULE ModelTrace -----------------------------
(* Recorded compilations and model differences, against Models.              *)
EXTENDS Models, Integers, IOUtils, Json
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
NShards == atoi(IOEnv.VP_SHARDS)
Prop == IOEnv.VP_PROP
If(c, name) == IF c THEN {name} ELSE {}
NoExc(e, S) == IF e.exc # "" THEN {"exception: " \o e.exc} ELSE S

RECURSIVE M(_)          \* attributes were recorded as lists
M(kids) == [i \in 1..Len(kids) |-> [t |-> kids[i].t, at |-> ToSet(kids[i].at), k |-> M(kids[i].k)]]
RECURSIVE Paths(_, _)
Paths(kids, path) == UNION {{Append(path, kids[i].t)} \cup Paths(kids[i].k, Append(path, kids[i].t)) : i \in 1..Len(kids)}
RECURSIVE Size(_)
Size(kids) == IF kids = <<>> THEN 0 ELSE 1 + Size(Head(kids).k) + Size(Tail(kids))

VCompile(e) == NoExc(e,
  LET got == M(e.model)  want == Expect(e.schema, "", TRUE, <<>>) IN
  If(Paths(got, <<>>) # Paths(want, <<>>), "schema nodes are missing or superfluous")
  \cup If(Paths(got, <<>>) = Paths(want, <<>>) /\ ~SameModel(got, want), "what is said about a schema node")
  \cup If(\E i \in 1..Len(e.idv) : ~(ToSet(e.idv[i].must) \subseteq ToSet(e.idv[i].got) /\ ToSet(e.idv[i].got) \subseteq ToSet(e.idv[i].may)
                                    /\ Cardinality(ToSet(e.idv[i].got)) = Len(e.idv[i].got)), "values of an identityref")
  \cup If(~SameModel(M(e.cached), got), "the compiled model read again is another one")
  \cup If(~SameModel(M(e.other), got), "the model depends on what was compiled before")
  \cup If(ToSet(e.shown) # Lines(got, <<>>) \/ Len(e.shown) # Size(got), "the text does not show the model"))

Pairs(s) == {<<s[i][1], s[i][2]>> : i \in 1..Len(s)}
RECURSIVE Said(_, _)           \* what is said about the node at a path
Said(kids, p) == LET j == Find(kids, p[1]) IN
  IF j = 0 THEN <<>> ELSE IF Len(p) = 1 THEN <<kids[j].t, kids[j].at>> ELSE Said(kids[j].k, Tail(p))
Told(x) == IF x = <<>> THEN <<>> ELSE <<x[1], ToSet(x[2])>>
VDiff(e) == IF ~e.same THEN If(e.exc # "ValueError", "models of different modules are compared") ELSE NoExc(e,
  LET a == M(e.a)  b == M(e.b)  d == Diff(a, b, <<>>)
      Hit(m) == \E x \in d : x[2] = m
      TextOK(v, m) == IF Hit(m) THEN ~v.none /\ Pairs(v.lines) = View(d, m) ELSE v.none IN
  If(Pairs(e.d) # d, "the difference is not exact")
  \cup If(e.truth # (d # {}), "truth value")
  \cup If(Pairs(e.text) # d, "text of the difference")
  \cup If(~TextOK(e.added, "added"), "added")
  \cup If(~TextOK(e.deleted, "deleted"), "deleted")
  \cup If(~TextOK(e.modified, "modified"), "modified")
  \cup If(Pairs(e.d2) # d \/ Pairs(e.text2) # d \/ Len(e.d) # Cardinality(d) \/ Len(e.text) # Cardinality(d), "looking at the difference changes it, or nodes appear twice")
  \cup If(\E i \in 1..Len(e.cmp) : LET q == e.cmp[i] IN ~q.said \/ Told(q.one) # Said(a, q.path) \/ Told(q.two) # Said(b, q.path), "comparison of a node")
  \cup If(M(e.a2) # a \/ M(e.b2) # b, "the models changed"))

(* defaults in use below each schema node; the first one asked is the model  *)
RECURSIVE At0(_, _)
At0(kids, path) == IF path = <<>> THEN kids ELSE At0(kids[Find(kids, path[1])].k, Tail(path))
VDefaults(e) == NoExc(e,
  If(\E i \in 1..Len(e.asked) :
       LET a == e.asked[i]  want == InUse(At0(e.schema, a.at), a.at) IN
       ToSet(a.got) # want \/ Len(a.got) # Cardinality(want), "defaults in use")
  \cup If({e.asked[i].at : i \in 1..Len(e.asked)} # {<<>>} \cup Paths(Expect(e.schema, "", TRUE, <<>>), <<>>), "schema nodes")
  \cup If(~SameModel(M(e.model), M(e.model2)), "asking changes the model"))

Verdict(e) == CASE e.kind = "compile" -> VCompile(e) [] e.kind = "mdiff" -> VDiff(e) [] e.kind = "defaults" -> VDefaults(e) [] OTHER -> {"unknown event"}
VARIABLES sh, l
vars == <<sh, l>>
Here == sh + l * NShards
Init == sh \in 1..NShards /\ l = 0
Next == /\ Here <= Len(Trace)
        /\ LET bad == Verdict(Trace[Here]) IN
           IF bad = {} THEN TRUE
           ELSE PrintT("VPBAD " \o ToString(Trace[Here].id) \o " " \o ToString(bad))
        /\ l' = l + 1 /\ UNCHANGED sh
Spec == Init /\ [][Next]_vars
=============================================================================
