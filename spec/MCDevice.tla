------------------------------ MODULE MCDevice ------------------------------
(* Two devices, two folders; every history of inquiries, scans and loads.    *)
EXTENDS Device
L(x) == [t |-> x, acc |-> "read-write", ty |-> "container"]
Tree(v) == <<[t |-> "a:c", at |-> {<<"type", "container">>, <<"default", v>>}, k |-> <<>>]>>
ModA(v, p) == [m |-> "ma", pfx |-> p, url |-> "urn:a", tree |-> Tree(v),
               roots |-> <<L("a:c"), [t |-> "a:s", acc |-> "read-only", ty |-> "container"], [t |-> "a:n", acc |-> "read-only", ty |-> "notification"]>>]
ModB == [m |-> "mb", pfx |-> "b", url |-> "urn:b", tree |-> Tree("1"),
         roots |-> <<[t |-> "b:r", acc |-> "write", ty |-> "rpc"], [t |-> "b:n", acc |-> "read-only", ty |-> "notification"]>>]
Dev(mon, lib, caps) == [mon |-> mon, lib |-> lib, caps |-> caps, cand |-> FALSE, wr |-> TRUE]
Ans(k, l) == [k |-> k, l |-> l]
Devs == {Dev(Ans(a, <<"ma", "mb">>), Ans(b, <<"ma">>), <<"mb">>) : a \in {"no", "ok", "error"}, b \in {"no", "ok", "broken"}}
Folders == {<<ModA(v, p), ModB>> : v \in {"1", "2"}, p \in {"a", "x"}}
Worlds == {[devs |-> <<d, e>>, folders |-> <<f, g>>] : d \in Devs, e \in {x \in Devs : x.mon.k = "ok"}, f \in {<<ModA("1", "a"), ModB>>}, g \in Folders}
VARIABLES w, s, sent, act
vars == <<w, s, sent, act>>
Init == w \in Worlds /\ s = Start(w) /\ sent = [i \in {1, 2} |-> <<>>] /\ act = <<"start">>
FindDev(i) == s' = [s EXCEPT ![i].found = TRUE] /\ sent' = [sent EXCEPT ![i] = @ \o Asks(w, s, i)] /\ act' = <<"find", i>>
Scan(i, f) == s' = [s EXCEPT ![i].folder = f] /\ act' = <<"scan", i, f>> /\ UNCHANGED sent
Load(i, m) == s' = AfterLoad(w, s, i, m) /\ sent' = [sent EXCEPT ![i] = @ \o Asks(w, s, i)] /\ act' = <<"load", i, m>>
Next == UNCHANGED w /\ \E i \in {1, 2} : FindDev(i) \/ (\E f \in {1, 2} : Scan(i, f)) \/ (\E m \in {"ma", "mb"} : Load(i, m))
Spec == Init /\ [][Next]_vars
(* modules are inquired at most once, and only what the device offers *)
Once == \A i \in {1, 2} : sent[i] \in {<<>>, Inquiry(w.devs[i])}
(* only loaded models can be asked about, only data, and configuration is data *)
Ms == SUBSET {"ma", "mb"}
Data == \A i \in {1, 2}, ms \in Ms :
  /\ GetError(w, s, i, ms, "get") = "" => ms \subseteq Loaded(s, i)
  /\ GetError(w, s, i, ms, "get_config") = "" =>
       GetError(w, s, i, ms, "get") = "" /\ Wanted(w, s, i, ms, "get_config") \subseteq Wanted(w, s, i, ms, "get")
  /\ ms \subseteq Loaded(s, i) => Wanted(w, s, i, ms, "get") \cap {"a:n", "b:r", "b:n"} = {}
Scanned == \A i \in {1, 2} : s[i].folder # 0
(* combining is symmetric, possible on one device, and needs equal models *)
Fair == Scanned => \A ms \in Ms :
  /\ Against(w, s, 1, 2, ms) = Against(w, s, 2, 1, ms)
  /\ Against(w, s, 1, 1, ms) = {}
  /\ Against(w, s, 1, 2, ms) = {} => \A m \in ms : SameModel(Mod(w, Version(s, 1, m), m).tree, Mod(w, Version(s, 2, m), m).tree)
  /\ \A ns \in SUBSET ms : Against(w, s, 1, 2, ns) \subseteq Against(w, s, 1, 2, ms)
LoadedKnown == \A i \in {1, 2} : Loaded(s, i) \subseteq Loadable(w.devs[i]) /\ (s[i].loaded # {} => s[i].found)
Seen == <<w, s, sent>>
=============================================================================
