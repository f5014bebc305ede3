------------------------------- MODULE Assets --------------------------------
(* Installation of the runtime assets in a directory shared by all cjit       *)
(* processes, one action per file system call. A process that finds the mark  *)
(* uses the directory at once; others take the lock, look again, write every  *)
(* file, set the mark, release the lock. Processes can be killed before any   *)
(* call and any modifying call can fail. With Protocol = "naive" the          *)
(* directory's existence is taken as installed: TLC refutes that one.         *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS Procs, NFiles, Protocol, Faults
VARIABLES dir,      \* does the directory exist
          file,     \* per file: "absent", "empty", "full"
          mark, lock, pc, idx, faults, seen
vars == <<dir, file, mark, lock, pc, idx, faults, seen>>
None == "none"
Files == 1..NFiles
Init == /\ dir = FALSE /\ file = [f \in Files |-> "absent"] /\ mark = FALSE /\ lock = None
        /\ pc = [p \in Procs |-> "start"] /\ idx = [p \in Procs |-> 1] /\ faults = 0
        /\ seen = [p \in Procs |-> {}]
Goto(p, l) == pc' = [pc EXCEPT ![p] = l]
Complete == \A f \in Files : file[f] = "full"

Stat(p) == /\ pc[p] = "start"
           /\ Goto(p, IF ~dir THEN "mkdir" ELSE IF Protocol = "naive" THEN "use" ELSE "look")
           /\ UNCHANGED <<dir, file, mark, lock, idx, faults, seen>>
MkDir(p) == /\ pc[p] = "mkdir" /\ dir' = TRUE
            /\ Goto(p, IF Protocol = "naive" THEN "open" ELSE "look")
            /\ UNCHANGED <<file, mark, lock, idx, faults, seen>>
Look(p) == /\ pc[p] = "look" /\ Goto(p, IF mark THEN "use" ELSE "lock")
           /\ UNCHANGED <<dir, file, mark, lock, idx, faults, seen>>
Lock(p) == /\ pc[p] = "lock" /\ lock = None /\ lock' = p /\ Goto(p, "relook")
           /\ UNCHANGED <<dir, file, mark, idx, faults, seen>>
Relook(p) == /\ pc[p] = "relook" /\ Goto(p, IF mark THEN "unlock" ELSE "open")
             /\ UNCHANGED <<dir, file, mark, lock, idx, faults, seen>>
Open(p) == /\ pc[p] = "open" /\ file' = [file EXCEPT ![idx[p]] = "empty"] /\ Goto(p, "write")
           /\ UNCHANGED <<dir, mark, lock, idx, faults, seen>>
Write(p) == /\ pc[p] = "write" /\ file' = [file EXCEPT ![idx[p]] = "full"]
            /\ IF idx[p] < NFiles THEN /\ idx' = [idx EXCEPT ![p] = @ + 1] /\ Goto(p, "open")
                                  ELSE /\ UNCHANGED idx /\ Goto(p, IF Protocol = "naive" THEN "use" ELSE "mark")
            /\ UNCHANGED <<dir, mark, lock, faults, seen>>
Mark(p) == /\ pc[p] = "mark" /\ mark' = TRUE /\ Goto(p, "unlock")
           /\ UNCHANGED <<dir, file, lock, idx, faults, seen>>
Unlock(p) == /\ pc[p] = "unlock" /\ lock' = None /\ Goto(p, "use")
             /\ UNCHANGED <<dir, file, mark, idx, faults, seen>>
\* compiling reads the files one by one
Read(p) == /\ pc[p] = "use" /\ \E f \in Files \ seen[p] : seen' = [seen EXCEPT ![p] = @ \cup {f}]
           /\ UNCHANGED <<dir, file, mark, lock, pc, idx, faults>>
Run(p) == /\ pc[p] = "use" /\ seen[p] = Files /\ Goto(p, "ran")
          /\ UNCHANGED <<dir, file, mark, lock, idx, faults, seen>>
Free(p) == IF lock = p THEN None ELSE lock
Kill(p) == /\ faults < Faults /\ pc[p] \notin {"ran", "failed", "killed"}
           /\ faults' = faults + 1 /\ Goto(p, "killed") /\ lock' = Free(p)
           /\ UNCHANGED <<dir, file, mark, idx, seen>>
IOFail(p) == /\ faults < Faults /\ pc[p] \in {"mkdir", "open", "write", "mark"}
             /\ faults' = faults + 1 /\ Goto(p, "failed") /\ lock' = Free(p)
             /\ UNCHANGED <<dir, file, mark, idx, seen>>
Step(p) == Stat(p) \/ MkDir(p) \/ Look(p) \/ Lock(p) \/ Relook(p) \/ Open(p) \/ Write(p) \/ Mark(p) \/ Unlock(p) \/ Read(p) \/ Run(p)
Next == \E p \in Procs : Step(p) \/ Kill(p) \/ IOFail(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Step(p))

UseComplete == \A p \in Procs : pc[p] = "use" => Complete
MarkComplete == mark => Complete
OneWriter == Cardinality({p \in Procs : pc[p] \in {"open", "write", "mark"}}) <= 1
\* somebody who is not disturbed gets to run
Progress == \A p \in Procs : <>(pc[p] \in {"ran", "failed", "killed"})

==============================================================================
