------------------------------- MODULE MCLife --------------------------------
EXTENDS Life, TLC, CSV, Json, IOUtils
CONSTANTS Depth, Record
VARIABLES s, h      \* h: the events so far
vars == <<s, h>>
Events == {[ev |-> x, n |-> n] : x \in {"buf", "flush", "raw", "stop", "xstop", "cont", "cstop", "slow", "read", "abort", "segv"}, n \in {1}}
     \cup {[ev |-> x, n |-> n] : x \in {"ret", "exit", "quit"}, n \in {0, 3, 256 + 5}}
     \cup {[ev |-> "fork", n |-> n] : n \in {1, 2}}
     \cup {[ev |-> x, n |-> n] : x \in {"raise", "kill"}, n \in {9, 15}}
Init == \E p \in {"none", "good", "bad"} : s = Begin(p) /\ h = <<>>
Setup == s.cjit = "setup" /\ s' = WritePid(s) /\ UNCHANGED h
Go == s.cjit = "ready" /\ s' = Start(s) /\ UNCHANGED h
Ev == \E e \in Events : /\ s.cjit = "waiting" /\ s.app # "ended" /\ Enabled(s, e.ev, e.n)
                        /\ (Len(h) < Depth \/ e.ev \in Ends)
                        /\ s' = Occur(s, e) /\ h' = Append(h, e)
Wait == /\ s.app = "ended" /\ s.cjit = "waiting" /\ s' = Reap(s) /\ UNCHANGED h
        /\ (Record => CSVWrite("%1$s", <<ToJson([pid |-> s.pid, events |-> h])>>, IOEnv.VF_OUT))
Next == Setup \/ Go \/ Ev \/ Wait
Spec == Init /\ [][Next]_vars
----
Once == s.calls <= 1 /\ (s.app # "none" => s.calls = 1)
Outlives == s.cjit = "done" => s.app \in {"none", "ended"}
PidFirst == s.app # "none" /\ s.pid # "none" => s.pidfile = "exact"
BadPid == s.pid = "bad" => s.app = "none"
StatusKnown == s.cjit = "done" => s.status <= 255
NoDup == \A i, j \in 1..Len(s.out) : i # j => s.out[i] # s.out[j]
Complete == s.app = "ended" /\ h # <<>> /\ h[Len(h)].ev \in {"ret", "exit"} => Len(s.out) = s.tok
OutGrows == [][Len(s'.out) >= Len(s.out) /\ SubSeq(s'.out, 1, Len(s.out)) = s.out]_vars
==============================================================================
