------------------------------- MODULE MCBuild -------------------------------
(* Every build of up to MaxLen inputs, as a state machine with its properties. *)
EXTENDS Build
CONSTANTS Used, MaxLen, UsedModes
VARIABLE s
Init == \E n \in 0..MaxLen : \E ins \in [1..n -> Used] : \E m \in UsedModes : \E e \in {"main", "alt"} : s = Start(ins, m, e)
Next == s.phase # "done" /\ s' = Step(s)
Spec == Init /\ [][Next]_s /\ WF_s(Next)

AllLoaded == \A i \in 1..Len(s.ins) : Kinds[s.ins[i]].loads
NoDuplicate == \A i, j \in 1..Len(s.ins) : i # j => Kinds[s.ins[i]].defs \cap Kinds[s.ins[j]].defs = {}
Closed == UNION {Kinds[s.ins[i]].refs : i \in 1..Len(s.ins)} \subseteq UNION {Kinds[s.ins[i]].defs : i \in 1..Len(s.ins)}
Safe == (s.ran \/ s.status = "success") => s.ins # <<>> /\ AllLoaded /\ NoDuplicate
RunClosed == (s.ran \/ (s.status = "success" /\ s.mode = "exe")) => Closed
NothingLeft == s.status = "failure" => ~s.ran /\ ~s.file
OrderFree == s.phase = "done" /\ s.status = "failure" /\ s.mode = "run" /\ s.ins # <<>> =>
                ~(AllLoaded /\ NoDuplicate /\ Closed /\ s.entry \in s.defs)
Ends == <>(s.phase = "done")
==============================================================================
