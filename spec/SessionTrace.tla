---------------------------- MODULE SessionTrace ----------------------------
(* Recorded sessions against ConfigSession.  Each line is one call with the  *)
(* contents of all registers and slots after it.                             *)
EXTENDS ConfigSession
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
NShards == atoi(IOEnv.VP_SHARDS)
If(c, name) == IF c THEN {name} ELSE {}
Seen(e) == [regs |-> [r \in Regs |-> e.regs[r]], dels |-> [d \in Slots |-> e.dels[d]], err |-> e.exc]

VARIABLES sh, l, s
vars == <<sh, l, s>>
(* sessions are dealt to shards; e.sh is the shard of event e *)
Line == [k \in 1..NShards |-> SelectSeq([i \in 1..Len(Trace) |-> i], LAMBDA i : Trace[i].sh = k)]
Init == sh \in 1..NShards /\ l = 1 /\ s = Empty

Judge(e) ==
  LET t == Do(e.c, s, IF "nc" \in DOMAIN e THEN e.nc ELSE <<>>)
      o == Seen(e) IN
  If(e.exc # t.err, "outcome " \o e.exc \o " instead of " \o t.err)
  \cup UNION {If(~Equal(o.regs[r], t.regs[r]),
                 IF "t" \in DOMAIN e.c /\ e.c.t = r THEN "result" ELSE "another object changed") : r \in Regs}
  \cup UNION {If(~Equal(o.dels[d].src, t.dels[d].src) \/ ~Equal(o.dels[d].dst, t.dels[d].dst),
                 IF "d" \in DOMAIN e.c /\ e.c.d = d THEN "resulting delta" ELSE "another delta changed") : d \in Slots}
  \cup If(e.mut, "an operand was modified")
  \cup If(e.c.op = "cmp" /\ e.exc = "" /\ e.ans # Answer(e.c, s), "comparison")
  \cup If(e.c.op = "payload" /\ e.exc = "" /\
          LET a == Apply(s.dels[e.c.x].src, e.nc) IN a.err # "" \/ ~Equal(a.k, s.dels[e.c.x].dst), "payload")
  \cup If(e.c.op = "payload" /\ e.exc = "" /\ e.nc # e.nc2, "payload differs when asked again")

Next ==
  /\ l <= Len(Line[sh])
  /\ LET e == Trace[Line[sh][l]] IN
     IF e.c.op = "begin" THEN s' = Empty
     ELSE LET bad == Judge(e) IN
          /\ IF bad = {} THEN TRUE ELSE PrintT("VPBAD " \o ToString(e.id) \o " " \o ToString(bad))
          /\ s' = [Seen(e) EXCEPT !.err = ""]
  /\ l' = l + 1 /\ UNCHANGED sh
Spec == Init /\ [][Next]_vars
=============================================================================
