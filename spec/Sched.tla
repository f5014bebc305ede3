-------------------------------- MODULE Sched --------------------------------
(* Schedules of a few processes: each process makes about S calls; a schedule *)
(* is a sequence of slices <<process, calls, ending>> with bounded switches   *)
(* and at most one fault, which ends the slice.                               *)
EXTENDS Naturals, Sequences, TLC, CSV, Json, IOUtils
CONSTANTS Procs, Points, Slices, Kinds
VARIABLES h, last, fault
vars == <<h, last, fault>>
Init == h = <<>> /\ last = 100 /\ fault = FALSE
Slice == /\ Len(h) < Slices
         /\ \E p \in Procs : \E n \in Points : \E k \in Kinds \cup {"pause"} :
              /\ p # last /\ (k # "pause" => ~fault)
              /\ (\A i \in 1..Len(h) : h[i].p = p => h[i].k = "pause")      \* not after its fault
              /\ (p > 0 => \E i \in 1..Len(h) : h[i].p = p - 1)  \* processes are alike: start them in order
              /\ h' = Append(h, [p |-> p, n |-> n, k |-> k]) /\ last' = p /\ fault' = (fault \/ k # "pause")
Emit == Len(h') = 0 \/ CSVWrite("%1$s", <<ToJson(h')>>, IOEnv.VF_OUT)
Next == Slice /\ Emit
Spec == Init /\ [][Next]_vars
==============================================================================
