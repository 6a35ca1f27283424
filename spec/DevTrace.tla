------------------------------ MODULE DevTrace ------------------------------
(* Recorded sessions of a client with devices, against Device: each session  *)
(* is a world and the steps taken with what was seen.                        *)
EXTENDS Device, Integers, IOUtils, Json
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
NShards == atoi(IOEnv.VP_SHARDS)
If(c, name) == IF c THEN {name} ELSE {}

RECURSIVE M(_)
M(kids) == [i \in 1..Len(kids) |-> [t |-> kids[i].t, at |-> ToSet(kids[i].at), k |-> M(kids[i].k)]]
World(e) == [devs |-> e.devs,
             folders |-> [f \in 1..Len(e.folders) |->
               [j \in 1..Len(e.folders[f]) |-> [x \in DOMAIN e.folders[f][j] |-> IF x = "tree" THEN M(e.folders[f][j].tree) ELSE e.folders[f][j][x]]]]]

OneFilter(q, op, roots, src) ==
  /\ Len(q) = 1 /\ q[1].op = op /\ q[1].ftype = "subtree" /\ q[1].bare
  /\ ToSet(q[1].roots) = roots /\ Len(q[1].roots) = Cardinality(roots)
  /\ q[1].source = src

Back(w, s, x) ==        \* a reply or a notification
  If(~PrefixesOK(w, s[x.i].folder, x.urls, x.ns), "prefixes of what comes back")
  \cup If(x.shown # x.doc, "text of what comes back")
  \cup If((\E k \in 1..Len(x.hits) : x.hits[k][1] # x.hits[k][2]) \/ x.own[1] # x.own[2], "search in what comes back")

Step(w, s, x) ==        \* <<state, what is wrong>>
  CASE x.op = "loadable" ->
         <<[s EXCEPT ![x.i].found = TRUE],
           If(x.exc # "" \/ ToSet(x.got) # Loadable(w.devs[x.i]), "models of the device")
           \cup If(x.asked # Asks(w, s, x.i), "how the device is asked for its models")>>
    [] x.op = "scan" -> <<[s EXCEPT ![x.i].folder = x.f], If(x.exc # "", "scan fails") \cup If(x.asked # <<>>, "scan of local files asks the device")>>
    [] x.op = "names" ->
         <<s, IF s[x.i].folder = 0 THEN If(x.exc # "ValueError", "names before a scan")
              ELSE If(x.exc # "" \/ {<<n[1], n[2], n[3]>> : n \in ToSet(x.got)} # Names(w, s[x.i].folder)
                      \/ Len(x.got) # Cardinality(Names(w, s[x.i].folder)), "names of the modules")>>
    [] x.op = "load" ->
         LET t == AfterLoad(w, s, x.i, x.m) IN
         <<t, If(x.exc # IF CanLoad(w, s, x.i, x.m) THEN "" ELSE "ValueError", "loading a model")
              \cup If(ToSet(x.loaded) # Loaded(t, x.i) \/ Len(x.loaded) # Cardinality(Loaded(t, x.i)), "the loaded models")
              \cup If({<<r[1], r[2]>> : r \in ToSet(x.roots)} #
                      UNION {{<<r.t, m>> : r \in ToSet(Mod(w, Version(t, x.i, m), m).roots)} : m \in Loaded(t, x.i)}, "the roots of loaded models")
              \cup If(x.asked # Asks(w, s, x.i), "how the device is asked for its models")>>
    [] x.op = "load file" ->
         LET t == [s EXCEPT ![x.i].loaded = {p \in @ : p[1] # x.m} \cup {<<x.m, x.f>>}] IN
         <<t, If(x.exc # "" \/ ToSet(x.loaded) # Loaded(t, x.i), "loading a compiled model")>>
    [] x.op \in {"get", "get_config"} ->
         IF ~x.bymodels THEN <<s, If(x.exc # "" \/ x.raw # x.ref, "request of one's own making") \cup (IF x.got /\ x.exc = "" THEN Back(w, s, x) ELSE {})>>
         ELSE LET bad == GetError(w, s, x.i, ToSet(x.ms), x.op) IN
              IF bad # "" THEN <<s, If(x.exc # bad, "models that cannot be asked for") \cup If(x.sent # <<>>, "something is sent in spite of an error")>>
              ELSE <<s, If(x.exc # "" \/ ~OneFilter(x.sent, x.op, Wanted(w, s, x.i, ToSet(x.ms), x.op),
                                                    IF x.op = "get" THEN "" ELSE IF x.source = "" THEN "running" ELSE x.source), "filter of a request")
                      \cup (IF x.got /\ x.exc = "" THEN Back(w, s, x) ELSE {})>>
    [] x.op = "edit" ->
         IF x.refexc # "" THEN <<s, If(x.exc # x.refexc \/ x.sent # <<>>, "edit-config that cannot be sent")>> ELSE
         <<s, If(x.exc # "" \/ Len(x.sent) # 1, "edit-config is not sent")
              \cup (IF Len(x.sent) # 1 THEN {} ELSE
                    If(x.sent[1].op # "edit-config" \/ x.sent[1].target # Target(w.devs[x.i], x.target), "target of an edit-config")
                    \cup If(x.sent[1].payload # x.want, "contents of an edit-config")
                    \cup If(x.raw # x.ref, "parameters of an edit-config"))>>
    [] x.op = "note" ->
         <<s, If(x.exc # "" \/ x.none = x.there \/ x.args # x.want, "taking a notification") \cup (IF x.there /\ x.exc = "" THEN Back(w, s, x) ELSE {})>>
    [] x.op = "other" -> <<s, If(x.raw # x.ref \/ x.exc # x.refexc, "another request")>>
    [] x.op = "unknown" -> <<s, If(x.exc # "ValueError" \/ x.sent # <<>>, "unknown operation")>>
    [] x.op = "combine" ->
         LET why == Against(w, s, x.i, x.j, ToSet(x.ms)) IN
         <<[s EXCEPT ![1].found = @ \/ x.asks[1] # <<>>, ![2].found = @ \/ x.asks[2] # <<>>],
           If(\E k \in 1..2 : x.asks[k] \notin {<<>>, Asks(w, s, k)}, "how the device is asked for its models") \cup
           (IF why = {} THEN If(x.exc # "", "configurations of equal devices are not combined")
                               \cup If(x.exc = "" /\ x.res # x.ref, "combination across devices is different")
              ELSE If(x.exc \notin why, "configurations of unequal devices are combined"))>>
    [] OTHER -> <<s, {"unknown step"}>>
RECURSIVE Run(_, _, _, _)
Run(w, s, steps, k) ==
  IF k > Len(steps) THEN {}
  ELSE LET r == Step(w, s, steps[k]) IN
       IF r[2] # {} THEN r[2] \cup {"step " \o ToString(k)} ELSE Run(w, r[1], steps, k + 1)
Verdict(e) == LET w == World(e) IN Run(w, Start(w), e.steps, 1)

VARIABLES sh, l
vars == <<sh, l>>
Here == sh + l * NShards
Init == sh \in 1..NShards /\ l = 0
Next == /\ Here <= Len(Trace)
        /\ LET bad == Verdict(Trace[Here]) IN
           IF bad = {} THEN TRUE
           ELSE PrintT("VPBAD " \o ToString(Trace[Here].id) \o " " \o ToString(bad))
        /\ l' = l + 1 /\ UNCHANGED sh
Spec == Init /\ [][Next]_vars
=============================================================================
