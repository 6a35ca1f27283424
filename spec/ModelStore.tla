----------------------------- MODULE ModelStore -----------------------------
(* The folder in which the YANG modules of a device are kept: how it is      *)
(* filled by concurrent downloads, what survives a crash at any point, and   *)
(* when its content may be trusted.                                          *)
(*                                                                           *)
(* A world w is [load, needs, given]: the modules the device announces, what *)
(* each module imports and includes, and which ones the device hands out.    *)
EXTENDS Needs, Naturals, Integers, FiniteSets, Sequences, TLC

CONSTANTS Mods, Worlds,       \* Worlds[v]: the device in version v
          Workers, MaxCrash, MaxRuns,
          MarkFirst           \* the mark of a complete download is removed before anything else

Want(w) == Wanted(w.needs, w.given, w.load)
Vers == DOMAIN Worlds
NoFile == 0
Torn == -1                    \* a file that was being written when the process died

VARIABLES
  dev,                        \* version of the device
  yang, mark, deps, cache,    \* the folder: modules, capabilities, dependencies, compiled modules
  run, queue, known, work,    \* the running process, gone after a crash
  crashes, runs
disk == <<yang, mark, deps, cache>>
proc == <<run, queue, known, work>>
vars == <<dev, disk, proc, crashes, runs>>

Idle == [st |-> "idle", m |-> "", new |-> {}]
Init ==
  /\ dev = 1
  /\ yang = [m \in Mods |-> NoFile] /\ mark = NoFile /\ deps = NoFile
  /\ cache = [m \in Mods |-> NoFile]
  /\ run = "off" /\ queue = {} /\ known = {} /\ work = [w \in Workers |-> Idle]
  /\ crashes = 0 /\ runs = 0

(* ------------------------------------------------------------- a download *)
Begin(kind) ==
  /\ run \in {"off", "up"} /\ runs < MaxRuns
  /\ runs' = runs + 1
  /\ run' = IF kind = "check" /\ mark = dev THEN "deps?" ELSE "clean"
  /\ queue' = {} /\ known' = {} /\ work' = [w \in Workers |-> Idle]
  /\ UNCHANGED <<dev, disk, crashes>>

Clean ==
  /\ run = "clean"
  /\ \/ mark # NoFile /\ mark' = NoFile /\ UNCHANGED <<yang, deps, cache>>
     \/ /\ MarkFirst => mark = NoFile
        /\ \/ \E m \in Mods : yang[m] # NoFile /\ yang' = [yang EXCEPT ![m] = NoFile] /\ UNCHANGED <<mark, deps, cache>>
           \/ \E m \in Mods : cache[m] # NoFile /\ cache' = [cache EXCEPT ![m] = NoFile] /\ UNCHANGED <<mark, deps, yang>>
           \/ deps # NoFile /\ deps' = NoFile /\ UNCHANGED <<yang, mark, cache>>
  /\ UNCHANGED <<dev, proc, crashes, runs>>
Cleaned ==
  /\ run = "clean" /\ mark = NoFile /\ deps = NoFile
  /\ \A m \in Mods : yang[m] = NoFile /\ cache[m] = NoFile
  /\ run' = "down" /\ known' = Worlds[dev].load /\ queue' = Worlds[dev].load
  /\ UNCHANGED <<dev, disk, work, crashes, runs>>

Ask(w) ==
  /\ run = "down" /\ work[w].st = "idle"
  /\ \E m \in queue : /\ queue' = queue \ {m}
                      /\ work' = [work EXCEPT ![w] = [st |-> "asked", m |-> m, new |-> {}]]
  /\ UNCHANGED <<dev, disk, run, known, crashes, runs>>
Answer(w) ==
  /\ run = "down" /\ work[w].st = "asked"
  /\ IF work[w].m \in Worlds[dev].given
     THEN /\ yang' = [yang EXCEPT ![work[w].m] = Torn]
          /\ work' = [work EXCEPT ![w].st = "store"]
     ELSE work' = [work EXCEPT ![w] = Idle] /\ UNCHANGED yang
  /\ UNCHANGED <<dev, mark, deps, cache, run, queue, known, crashes, runs>>
Store(w) ==
  /\ run = "down" /\ work[w].st = "store"
  /\ yang' = [yang EXCEPT ![work[w].m] = dev]
  /\ work' = [work EXCEPT ![w].st = "look"]
  /\ UNCHANGED <<dev, mark, deps, cache, run, queue, known, crashes, runs>>
Look(w) ==                    \* which of its needs are new ...
  /\ run = "down" /\ work[w].st = "look"
  /\ work' = [work EXCEPT ![w].st = "tell", ![w].new = Worlds[dev].needs[work[w].m] \ known]
  /\ UNCHANGED <<dev, disk, run, queue, known, crashes, runs>>
Tell(w) ==                    \* ... and later: have them downloaded, too
  /\ run = "down" /\ work[w].st = "tell"
  /\ known' = known \cup work[w].new /\ queue' = queue \cup work[w].new
  /\ work' = [work EXCEPT ![w] = Idle]
  /\ UNCHANGED <<dev, disk, run, crashes, runs>>

Down == /\ run = "down" /\ queue = {} /\ \A w \in Workers : work[w].st = "idle"
        /\ run' = "mark" /\ UNCHANGED <<dev, disk, queue, known, work, crashes, runs>>
Mark == /\ run = "mark" /\ mark' = (IF mark = Torn THEN dev ELSE Torn)
        /\ run' = (IF mark = Torn THEN "deps" ELSE "mark")
        /\ UNCHANGED <<dev, yang, deps, cache, queue, known, work, crashes, runs>>
Deps == /\ run = "deps" /\ deps' = (IF deps = Torn THEN dev ELSE Torn)
        /\ run' = (IF deps = Torn THEN "up" ELSE "deps")
        /\ UNCHANGED <<dev, yang, mark, cache, queue, known, work, crashes, runs>>
(* dependencies that cannot be read are derived from the modules again *)
Read == /\ run = "deps?"
        /\ run' = IF deps \in Vers THEN "up" ELSE "deps"
        /\ UNCHANGED <<dev, disk, queue, known, work, crashes, runs>>

(* ------------------------------------------------------ compiling a module *)
Compile(m) ==
  /\ run = "up" /\ yang[m] # NoFile /\ cache[m] \notin Vers
  /\ cache' = [cache EXCEPT ![m] = Torn] /\ run' = "compile" /\ known' = {m}
  /\ UNCHANGED <<dev, yang, mark, deps, queue, work, crashes, runs>>
Compiled ==
  /\ run = "compile"
  /\ \E m \in known : cache' = [cache EXCEPT ![m] = yang[m]]
  /\ run' = "up" /\ known' = {}
  /\ UNCHANGED <<dev, yang, mark, deps, queue, work, crashes, runs>>

(* -------------------------------------------------------------- environment *)
Crash ==
  /\ run # "off" /\ crashes < MaxCrash
  /\ crashes' = crashes + 1 /\ run' = "off"
  /\ queue' = {} /\ known' = {} /\ work' = [w \in Workers |-> Idle]
  /\ UNCHANGED <<dev, disk, runs>>
Upgrade ==
  /\ run \in {"off", "up"}
  /\ \E v \in Vers : v # dev /\ dev' = v
  /\ run' = "off" /\ UNCHANGED <<disk, queue, known, work, crashes, runs>>

Work == \/ Clean \/ Cleaned \/ Down \/ Mark \/ Deps \/ Read \/ Compiled
        \/ \E w \in Workers : Ask(w) \/ Answer(w) \/ Store(w) \/ Look(w) \/ Tell(w)
Next == \/ Work \/ Begin("check") \/ Begin("force") \/ (\E m \in Mods : Compile(m)) \/ Crash \/ Upgrade
Spec == Init /\ [][Next]_vars /\ WF_vars(Work)

(* --------------------------------------------------------------- properties *)
Complete(v) == \A m \in Mods : yang[m] = IF m \in Want(Worlds[v]) THEN v ELSE NoFile
(* the mark never lies *)
Trust == mark \in Vers => Complete(mark)
(* after a download everything is there and nothing is left of the past *)
Ready == run \in {"up", "compile"} => Complete(dev) /\ deps = dev
Fresh == run \in {"up", "compile"} => \A m \in Mods : cache[m] \in {NoFile, Torn, dev}
(* whatever the pace of the workers, a download ends *)
Ends == [](run \in {"clean", "down", "mark", "deps"} => <>(run \in {"up", "off", "compile"}))
=============================================================================
