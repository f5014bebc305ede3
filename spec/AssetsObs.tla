------------------------------ MODULE AssetsObs ------------------------------
EXTENDS Naturals, Sequences
(* What any implementation must show, whatever its protocol: a recorded       *)
(* trace is a sequence of observations [ev, p, ...]:                          *)
(*   use: p compiled; complete: the set was complete and stayed so meanwhile  *)
(*   exit: p ended with a status and did (ran) or did not run its application *)
(*   disturbed: p was killed or had a call fail                               *)
Good(o) == CASE o.ev = "use"  -> o.complete
             [] o.ev = "exit" -> \/ o.killed
                                 \/ (o.ran /\ o.status = 42)
                                 \/ (o.disturbed /\ ~o.ran /\ o.status # 0 /\ ~o.used)
             [] OTHER -> TRUE
Accept(c) == \A i \in 1..Len(c.trace) : Good(c.trace[i])
FirstBad(c) == IF Accept(c) THEN 0 ELSE CHOOSE i \in 1..Len(c.trace) : ~Good(c.trace[i]) /\ \A j \in 1..(i - 1) : Good(c.trace[j])
==============================================================================
