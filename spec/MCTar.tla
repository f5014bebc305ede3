------------------------------- MODULE MCTar -------------------------------
(* Every archive of up to N blocks over a small alphabet, cut at every block  *)
(* and half block.                                                            *)
EXTENDS Tar
CONSTANT N
VARIABLES a, s
H(t, z, n, g) == [k |-> "head", sum |-> g, magic |-> TRUE, type |-> t, size |-> z, name |-> n]
Z == [k |-> "zero", sum |-> FALSE, magic |-> FALSE, type |-> "", size |-> 0, name |-> <<>>]
D == [k |-> "data", sum |-> FALSE, magic |-> FALSE, type |-> "", size |-> 0, name |-> <<>>]
Alphabet == {H("dir", 0, <<"d">>, TRUE), H("reg", 0, <<"d", "e">>, TRUE), H("reg", 700, <<"f">>, TRUE), H("reg", 512, <<"f">>, TRUE),
             H("reg", 3, <<"..", "f">>, TRUE), H("reg", 9, <<"f">>, FALSE), H("other", 512, <<"x">>, TRUE), H("reg", -1, <<"n">>, TRUE), Z, D}
Init == \E n \in 1..N : \E b \in [1..n -> Alphabet] : \E w \in 0..n : \E t \in {0, 200} :
          /\ t > 0 => w < n
          /\ a = [blocks |-> b, whole |-> w, tail |-> t] /\ s = Start
Next == s.result = "reading" /\ s' = Step(a, s) /\ UNCHANGED a
Spec == Init /\ [][Next]_<<a, s>> /\ WF_<<a, s>>(Next)
Ends == <>(s.result # "reading")
Inside == s.pos >= 1 /\ \A i \in 1..Len(s.members) : s.members[i].size = 0 \/ (s.members[i].at - 1) * 512 + s.members[i].size <= a.whole * 512 + a.tail
\* success only behind a zero block that is in the archive, with all headers right
Complete == s.result = "success" => /\ s.pos <= a.whole /\ a.blocks[s.pos].k = "zero" /\ s.members # <<>>
                                    /\ \A i \in 1..Len(s.members) : a.blocks[s.members[i].at - 1].sum
Contained == Outcome(a).kind = "tree" => \A f \in Outcome(a).files : \A i \in 1..Len(f.path) : f.path[i] # ".."
==============================================================================
