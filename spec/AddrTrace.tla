----------------------------- MODULE AddrTrace -----------------------------
(* Recorded answers of the real code about addresses, against Address.       *)
EXTENDS Address
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
NShards == atoi(IOEnv.VP_SHARDS)
Prop == IOEnv.VP_PROP
If(c, name) == IF c THEN {name} ELSE {}
NoExc(e, S) == IF e.exc # "" THEN {"exception: " \o e.exc} ELSE S

(* a node of a configuration *)
ItemBad(a, it) ==
  LET p == PathAt(a, it.pos, "") IN
  If(it.sp # p \/ it.sty # Info(p).ty, "schema node")
  \cup If(it.model # Info(Head(TagsAt(a, it.pos))).mod, "model of the node")
  \cup If(ToSet(it.inst) # Instances(a, it.pos), "the path does not denote the node")
  \cup If(ToSet(it.kin) # Kin(a, it.pos), "the path without instance does not denote the siblings")
  \cup UNION {If(it.w[x].s # Written(a, it.pos, "", it.w[x].all, it.w[x].inst), "notation " \o it.w[x].n) : x \in 1..Len(it.w)}
VNodes(e) == NoExc(e, UNION {ItemBad(e.a, e.items[i]) : i \in 1..Len(e.items)})

(* a node of a schema: e.path from the root of the schema, choices and cases included *)
VSchema(e) == NoExc(e,
  If(e.sel # <<e.n>>, "the path does not denote the schema node")
  \cup If(e.full # [i \in 1..Len(e.path) |-> [t |-> e.path[i], om |-> FALSE, pr |-> <<>>]], "notation lxml")
  \cup If(e.short # [i \in 1..Len(e.path) |-> [t |-> e.path[i], om |-> i > 1 /\ e.mods[i] = e.mods[i - 1], pr |-> <<>>]], "notation xpath")
  \cup If(e.model # e.want, "model of the node")
  \cup If(e.stmt # "" /\ e.stmt # e.path[Len(e.path)], "statement")
  \cup If(e.cstmt # "" /\ e.cstmt # e.path[Len(e.path)], "statement of a config node"))

VTag(e) ==
  LET w == Convert(e.ns, e.dq, e.tq, e.src, e.dst) IN
  IF w.err THEN If(e.exc = "", "an unknown or missing module is accepted")
  ELSE NoExc(e, If(e.rns # w.ns, "namespace of the tag") \cup If(e.rq # w.q \/ e.rn # e.n, "converted tag"))

(* prefixes for the namespaces of a reply *)
VNs(e) == NoExc(e,
  If({e.ret[i][2] : i \in 1..Len(e.ret)} # ToSet(e.urls), "namespaces of the reply are missing or invented")
  \cup If(Cardinality({e.ret[i][1] : i \in 1..Len(e.ret)}) # Len(e.ret), "a prefix stands for two namespaces")
  \cup If(\E i \in 1..Len(e.ret), j \in 1..Len(e.ns) : e.ns[j][3] = e.ret[i][2] /\ e.ns[j][2] # e.ret[i][1], "prefix of a known module"))

(* a history of loading models and asking for schema nodes *)
RECURSIVE Walk(_, _, _)
Walk(h, i, ver) ==
  IF i > Len(h) THEN {}
  ELSE LET x == h[i] IN
       IF x.op = "load" THEN (IF x.exc = "" THEN {} ELSE {"exception: " \o x.exc}) \cup Walk(h, i + 1, [ver EXCEPT ![x.m] = x.v])
       ELSE (IF ver[x.m] = 0 THEN If(x.exc # "ModelMissing", "a node of a model that is not loaded")
             ELSE IF x.exc # "" THEN {"exception: " \o x.exc}
             ELSE If(x.v # ver[x.m] \/ x.sp # x.p \/ ~x.cur, "schema node of another model or version"))
            \cup Walk(h, i + 1, ver)
VHist(e) == Walk(e.h, 1, [m \in {"vpalpha", "vpbeta"} |-> 0])

Verdict(e) == CASE e.kind = "nodes" -> VNodes(e) [] e.kind = "schema" -> VSchema(e) [] e.kind = "tag" -> VTag(e)
                [] e.kind = "ns" -> VNs(e) [] e.kind = "hist" -> VHist(e) [] OTHER -> {"unknown event"}
VARIABLES sh, l
vars == <<sh, l>>
Here == sh + l * NShards
Init == sh \in 1..NShards /\ l = 0
Next == /\ Here <= Len(Trace)
        /\ LET bad == Verdict(Trace[Here]) IN
           IF bad = {} THEN TRUE
           ELSE PrintT("VPBAD " \o ToString(Trace[Here].id) \o " " \o ToString(bad))
        /\ l' = l + 1 /\ UNCHANGED sh
Spec == Init /\ [][Next]_vars
=============================================================================
