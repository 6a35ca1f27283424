------------------------------ MODULE RunTrace ------------------------------
(* Recorded outcomes of RunningConfigDiff against RunningConfig.             *)
EXTENDS RunningConfig
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
NShards == atoi(IOEnv.VP_SHARDS)
Prop == IOEnv.VP_PROP
If(c, name) == IF c THEN {name} ELSE {}
NoExc(e, s) == IF e.exc # "" THEN {"exception: " \o e.exc} ELSE s

OneWay(es, a, b, way) ==
  If(~Alike(Without(a, es, "-"), Without(b, es, "+"), 0), way \o ": what is left differs")
  \cup If(~Truthful(es, a, b, 0), way \o ": a mark is wrong")
VDiff(e) ==
  NoExc(e, IF Prop = "C23"
    THEN OneWay(e.diff, e.a, e.b, "diff") \cup OneWay(e.rev, e.b, e.a, "diff_reverse")
         \cup If(e.bool # (e.diff # <<>>), "truth value")
         \cup If(e.text # Printed(e.diff, ""), "printed form")
         \cup If(~e.stable, "asking again gives another answer")
    ELSE If(Same(e.a, e.b, 0) /\ (e.diff # <<>> \/ e.rev # <<>>), "a difference of order only")
         \cup If(~Alike(e.a, e.b, 0) /\ (e.diff = <<>> \/ e.rev = <<>>), "a difference is not reported")
         \cup If(~Restless(e.diff, e.a, e.b, 0), "a line that stayed is removed and added")
         \cup If(~Restless(e.rev, e.b, e.a, 0), "a line that stayed is removed and added in the reverse"))
(* configs that repeat lines: every line is added and removed as many times  *)
(* as it takes                                                               *)
Times(t, l) == Cardinality({i \in 1..Len(t) : t[i].l = l})
Marks(es, l, m) == Cardinality({i \in 1..Len(es) : es[i].l = l /\ es[i].m = m})
RECURSIVE Counts(_, _, _)
Counts(es, a, b) ==
  /\ \A l \in Lines(a) \cup Lines(b) \cup Lines(es) :
       Times(b, l) - Times(a, l) = Marks(es, l, "+") - Marks(es, l, "-")
  /\ \A i \in 1..Len(es) : es[i].m = "" /\ es[i].c # <<>> /\ es[i].l \in Lines(a) \cap Lines(b) =>
       Counts(es[i].c, a[Where(a, es[i].l)].c, b[Where(b, es[i].l)].c)
VDup(e) ==
  NoExc(e, IF Prop = "C23"
    THEN If(~Counts(e.diff, e.a, e.b) \/ ~Counts(e.rev, e.b, e.a), "number of marks")
         \cup If(e.bool # (e.diff # <<>>), "truth value")
         \cup If(e.text # Printed(e.diff, ""), "printed form")
    ELSE If(Same(e.a, e.b, 0) /\ (e.diff # <<>> \/ e.rev # <<>>), "a difference of order only")
         \cup If(~Alike(e.a, e.b, 0) /\ (e.diff = <<>> \/ e.rev = <<>>), "a difference is not reported"))
(* C25: the commands take a device from a to b, and back *)
VCli(e) ==
  NoExc(e, If(ExecAll(AsSet(e.a), e.cli, 0) # AsSet(e.b), "the commands lead elsewhere")
      \cup If(ExecAll(AsSet(e.b), e.back, 0) # AsSet(e.a), "the reverse commands lead elsewhere")
      \cup If(Same(e.a, e.b, 0) /\ (e.cli # <<>> \/ e.back # <<>>), "commands although nothing differs")
      \cup If(~e.stable, "asking again gives another answer"))
(* C26: one config, spelled in two ways *)
VRead(e) ==
  NoExc(e, If(Full(e.tree) # e.a, "read as another config")
      \cup If(~Same(Full(e.tree2), e.a, 0), "the other spelling is read as another config")
      \cup If(e.diff # <<>>, "two spellings of one config differ"))

Verdict(e) ==
  CASE e.kind = "diff" -> VDiff(e)
    [] e.kind = "dup" -> VDup(e)
    [] e.kind = "cli" -> VCli(e)
    [] e.kind = "read" -> VRead(e)
    [] OTHER -> {"unknown event"}
VARIABLES sh, l
vars == <<sh, l>>
Here == sh + l * NShards
Init == sh \in 1..NShards /\ l = 0
Next == /\ Here <= Len(Trace)
        /\ LET bad == Verdict(Trace[Here]) IN
           IF bad = {} THEN TRUE
           ELSE PrintT("VPBAD " \o ToString(Trace[Here].id) \o " " \o ToString(bad))
        /\ l' = l + 1 /\ UNCHANGED sh
Spec == Init /\ [][Next]_vars
=============================================================================
