----------------------------- MODULE StoreTrace -----------------------------
(* Recorded runs of the real code on a folder of YANG modules, against the   *)
(* requirements of ModelStore.  before and after are the folder at the time; *)
(* a run may have been ended by a crash.                                     *)
EXTENDS Needs, Naturals, Integers, Sequences, FiniteSets, TLC, IOUtils, Json, SequencesExt
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
NShards == atoi(IOEnv.VP_SHARDS)
Prop == IOEnv.VP_PROP
If(c, name) == IF c THEN {name} ELSE {}

Mods(e) == ToSet(e.w.mods)
Needs(e) == [m \in Mods(e) |-> ToSet(e.w.imp[m]) \cup ToSet(e.w.inc[m])]
Known(e) == Reach(Needs(e), ToSet(e.w.given), ToSet(e.w.load))
Want(e) == Wanted(Needs(e), ToSet(e.w.given), ToSet(e.w.load))
Complete(e, d) == \A m \in Mods(e) : d.yang[m] = IF m \in Want(e) THEN e.v ELSE 0
Have(e) == {m \in Mods(e) : e.after.yang[m] # 0}

(* what the compiler says about who needs whom *)
DepsOK(e) ==
  \A m \in Mods(e) :
    /\ ToSet(e.imports[m]) = IF m \in Have(e) THEN ToSet(e.w.imp[m]) ELSE {}
    /\ ToSet(e.depends[m]) = {x \in Have(e) : m \in Needs(e)[x]}
    /\ Cardinality({i \in 1..Len(e.listed) : e.listed[i] = m}) <= IF m \in Have(e) THEN 1 ELSE 0

VRun(e) ==
  CASE e.res = "hang" -> {"never ends"}
    [] e.res = "crash" -> {}
    [] OTHER ->
       If(e.exc # "", "exception: " \o e.exc)
       \cup If(e.exc = "" /\ ~DepsOK(e), "dependencies")
       \cup (IF e.how = "ignore"
             THEN If(e.after.yang # e.before.yang \/ e.after.mark # e.before.mark, "files changed although nothing is to be downloaded")
                  \cup If(e.asked # <<>>, "download although it is to be ignored")
             ELSE If(~Complete(e, e.after), "modules are missing, stale or superfluous")
                  \cup If(e.how = "check" /\ e.fresh /\ e.asked # <<>>, "download although the folder is up to date")
                  \cup If(~(e.how = "check" /\ (e.fresh \/ Complete(e, e.before)) /\ e.asked = <<>>) /\ ToSet(e.asked) # Known(e),
                          "not the modules that are needed were requested"))
VLoad(e) ==
  CASE e.res = "hang" -> {"never ends"}
    [] e.res = "crash" -> {}
    [] OTHER -> If(e.exc # "", "exception: " \o e.exc)
                \cup If(e.exc = "" /\ e.got # e.v, "the model is not that of the module")
                \cup If(e.after.yang # e.before.yang \/ e.after.mark # e.before.mark, "files changed by compiling")

Verdict(e) == CASE e.kind = "run" -> VRun(e) [] e.kind = "load" -> VLoad(e) [] OTHER -> {"unknown event"}
VARIABLES sh, l
vars == <<sh, l>>
Here == sh + l * NShards
Init == sh \in 1..NShards /\ l = 0
Next == /\ Here <= Len(Trace)
        /\ LET bad == Verdict(Trace[Here]) IN
           IF bad = {} THEN TRUE
           ELSE PrintT("VPBAD " \o ToString(Trace[Here].id) \o " " \o ToString(bad))
        /\ l' = l + 1 /\ UNCHANGED sh
Spec == Init /\ [][Next]_vars
=============================================================================
