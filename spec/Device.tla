------------------------------- MODULE Device -------------------------------
(* A client of devices: which models a device has, which are loaded, what is *)
(* asked of it, and when configurations of two devices may be combined.      *)
(* A world w has                                                             *)
(*   w.devs[i]    = [mon, lib, caps, cand, wr]: two services that list       *)
(*                  modules (k = "no", "ok", "error" or "broken", l the list),*)
(*                  modules among the capabilities, and whether there is a   *)
(*                  candidate and a writable running datastore               *)
(*   w.folders[f] = sequence of modules [m, pfx, url, roots, tree], roots a  *)
(*                  sequence of [t, acc, ty]                                 *)
(* The client remembers of device i                                          *)
(*   s[i] = [found, folder, loaded]: whether modules were asked for, the     *)
(*          folder scanned last (0: none), loaded = set of <<m, f>>          *)
EXTENDS Models
Start(w) == [i \in 1..Len(w.devs) |-> [found |-> FALSE, folder |-> 0, loaded |-> {}]]

(* ---- which models there are ---- *)
Loadable(d) == IF d.mon.k = "ok" THEN ToSet(d.mon.l) ELSE IF d.lib.k = "ok" THEN ToSet(d.lib.l) ELSE ToSet(d.caps)
Inquiry(d) == (IF d.mon.k = "no" THEN <<>> ELSE <<"mon">>) \o (IF d.mon.k # "ok" /\ d.lib.k # "no" THEN <<"lib">> ELSE <<>>)
Asks(w, s, i) == IF s[i].found THEN <<>> ELSE Inquiry(w.devs[i])
Names(w, f) == {<<x.m, x.pfx, x.url>> : x \in ToSet(w.folders[f])}
Mod(w, f, m) == CHOOSE x \in ToSet(w.folders[f]) : x.m = m

(* ---- loading ---- *)
CanLoad(w, s, i, m) == m \in Loadable(w.devs[i]) /\ s[i].folder # 0
Loaded(s, i) == {p[1] : p \in s[i].loaded}
Version(s, i, m) == (CHOOSE p \in s[i].loaded : p[1] = m)[2]
AfterLoad(w, s, i, m) ==
  IF CanLoad(w, s, i, m)
  THEN [s EXCEPT ![i] = [found |-> TRUE, folder |-> @.folder, loaded |-> {p \in @.loaded : p[1] # m} \cup {<<m, @.folder>>}]]
  ELSE [s EXCEPT ![i].found = TRUE]

(* ---- asking for data ---- *)
Readable(op) == IF op = "get" THEN {"read-write", "read-only"} ELSE {"read-write"}
RootsOf(w, s, i, m, op) ==
  {r.t : r \in {x \in ToSet(Mod(w, Version(s, i, m), m).roots) : x.ty \notin {"rpc", "notification"} /\ x.acc \in Readable(op)}}
Wanted(w, s, i, ms, op) == UNION {RootsOf(w, s, i, m, op) : m \in ms}
GetError(w, s, i, ms, op) ==
  IF ~(ms \subseteq Loaded(s, i)) THEN "ModelMissing" ELSE IF Wanted(w, s, i, ms, op) = {} THEN "ValueError" ELSE ""
Target(d, given) == IF given # "" THEN given ELSE IF ~d.cand /\ d.wr THEN "running" ELSE "candidate"

(* ---- what comes back: its namespaces have one prefix each, that of the module if there is one ---- *)
Special == {<<"nc", "urn:ietf:params:xml:ns:netconf:base:1.0">>, <<"ncEvent", "urn:ietf:params:xml:ns:netconf:notification:1.0">>}
PrefixesOK(w, f, urls, ns) ==
  /\ {p[2] : p \in ToSet(ns)} = ToSet(urls)
  /\ Len(ns) = Cardinality({p[1] : p \in ToSet(ns)}) /\ Len(ns) = Cardinality(ToSet(urls))
  /\ \A p \in ToSet(ns) : \A k \in Special \cup {<<n[2], n[3]>> : n \in Names(w, f)} : k[2] = p[2] => k[1] = p[1]

(* ---- two devices ---- *)
(* ms: the models of both configurations; the reasons not to combine them *)
Against(w, s, i, j, ms) ==
  IF i = j THEN {}
  ELSE UNION {
    (IF m \in Loadable(w.devs[i]) /\ m \in Loadable(w.devs[j]) /\ m \in Loaded(s, i) /\ m \in Loaded(s, j) THEN {} ELSE {"ModelMissing"})
    \cup (IF m \in Loaded(s, i) /\ m \in Loaded(s, j)
             /\ ~SameModel(Mod(w, Version(s, i, m), m).tree, Mod(w, Version(s, j, m), m).tree) THEN {"ModelIncompatible"} ELSE {})
    \cup (IF LET a == Mod(w, s[i].folder, m)  b == Mod(w, s[j].folder, m) IN a.pfx = b.pfx /\ a.url = b.url THEN {} ELSE {"ModelIncompatible"})
    : m \in ms}
=============================================================================
