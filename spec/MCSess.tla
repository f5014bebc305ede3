------------------------------- MODULE MCSess -------------------------------
(* all interleavings of calls on two sessions up to a depth: what a session   *)
(* shows is what it shows alone                                               *)
EXTENDS Sess, FiniteSets
CONSTANT Depth
F(n, k, v, x) == [n |-> n, k |-> k, v |-> v, x |-> x]
U(f) == [bad |-> FALSE, f |-> f]
Ops(s) == {[s |-> s, o |-> "new", k |-> k] : k \in {"mem", "app"}}
     \cup {[s |-> s, o |-> "def", m |-> "M", v |-> s], [s |-> s, o |-> "reloc"], [s |-> s, o |-> "del"], [s |-> s, o |-> "exec"], [s |-> s, o |-> "list"]}
     \cup {[s |-> s, o |-> "comp", u |-> u] : u \in {[bad |-> TRUE, f |-> <<>>], U(<<F("q_main", "mac", 1, "M")>>), U(<<F("q_c", "cnt", 5, ""), F("q_main", "ref", 0, "q_c")>>)}}
     \cup {[s |-> s, o |-> "call", m |-> "q_main"]}
VARIABLES st, ops, obs
Init == st = Start(2) /\ ops = <<>> /\ obs = <<>>
Next == /\ Len(ops) < Depth
        /\ \E s \in {1, 2} : \E o \in Ops(s) :
             /\ Allowed(st, o)
             /\ LET r == Do(st, o) IN st' = r.st /\ obs' = Append(obs, [i |-> r.i, l |-> r.l])
             /\ ops' = Append(ops, o)
Spec == Init /\ [][Next]_<<st, ops, obs>>

RECURSIVE Idx(_, _)
Idx(s, i) == IF i > Len(ops) THEN <<>> ELSE (IF ops[i].s = s THEN <<i>> ELSE <<>>) \o Idx(s, i + 1)
Alone == \A s \in {1, 2} : LET ix == Idx(s, 1) IN
  Hist_(Start(2), [j \in 1..Len(ix) |-> ops[ix[j]]], 1) = [j \in 1..Len(ix) |-> obs[ix[j]]]
(* executing twice, or before there is input, changes nothing                 *)
Refused == \A s \in {1, 2} : LET o == [s |-> s, o |-> "exec"] IN
  Allowed(st, o) /\ (st.s[s].unit = 0 \/ st.s[s].ph = "done") => Do(st, o).st = st /\ Do(st, o).i < 0
Dead == \A s \in {1, 2} : st.s[s].ph = "dead" => st.s[s].defs = {} /\ \A o \in Ops(s) : Allowed(st, o) => o.o = "new"
=============================================================================
