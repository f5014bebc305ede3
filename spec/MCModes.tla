------------------------------ MODULE MCModes ------------------------------
(* all command histories on two or three sources up to a depth                *)
EXTENDS Modes, FiniteSets, TLC
CONSTANTS Depth, NUnits
Paths == <<<<"a", "/", "x", ".", "c">>, <<"b", "/", "x", ".", "y", ".", "c">>, <<"z", ".", "c">>>>
P == SubSeq(Paths, 1, NUnits)
OF == {<<>>, <<"o", ".", "o">>, <<"x", ".", "o">>}
EF == {<<"e">>, <<"g">>}
VARIABLES st, n, made
vars == <<st, n, made>>
Inputs(u) == {[k |-> "src", u |-> u]} \cup {[k |-> "obj", f |-> x.f] : x \in {y \in st.objs : y.c[1] = u}}
Selections == {s \in [1..NUnits -> UNION {Inputs(u) : u \in 1..NUnits}] : \A u \in 1..NUnits : s[u] \in Inputs(u)}
Cmds == {[op |-> "edit", u |-> u] : u \in 1..NUnits} \cup {[op |-> "c", u |-> u, o |-> o] : u \in 1..NUnits, o \in OF}
        \cup {[op |-> "exe", o |-> e, ins |-> s] : e \in EF, s \in Selections}
(* made: what every name was last produced from (history variable)            *)
Init == st = Start(P) /\ n = 0 /\ made = {}
Next == /\ n < Depth /\ n' = n + 1
        /\ \E s \in Cmds :
             /\ (s.op = "edit" => st.ver[s.u] < 1)
             /\ st' = Do(P, st, s).st
             /\ made' = CASE s.op = "edit" -> made
                          [] s.op = "c" -> LET f == IF s.o = <<>> THEN ObjName(P[s.u]) ELSE s.o IN {m \in made : m.f # f} \cup {[f |-> f, t |-> n, c |-> <<<<s.u, st.ver[s.u]>>>>]}
                          [] OTHER -> {m \in made : m.f # s.o} \cup {[f |-> s.o, t |-> n, c |-> Units(st, s.ins)]}
Spec == Init /\ [][Next]_vars

Run(ins) == Do(P, st, [op |-> "run", ins |-> ins]).runs
Call(e) == Do(P, st, [op |-> "call", o |-> e]).runs
(* each unit exactly once, whichever way it is given                          *)
Complete == \A s \in Selections : \A u \in 1..NUnits : Run(s)[u][1] = u
(* sources run as they are, objects as they were                              *)
Fresh == \A s \in Selections : \A u \in 1..NUnits : /\ Run(s)[u][2] <= st.ver[u]
                                                    /\ s[u].k = "src" => Run(s)[u][2] = st.ver[u]
                                                    /\ s[u].k = "obj" => <<Run(s)[u]>> = (CHOOSE m \in made : m.f = s[u].f).c
(* running from sources, and linking now and calling the result, agree        *)
SameWays == \A s \in Selections : LET t == Do(P, st, [op |-> "exe", o |-> <<"q">>, ins |-> s]).st
                                  IN Do(P, t, [op |-> "call", o |-> <<"q">>]).runs = Run(s)
(* an executable does not change with the files it was made of                *)
Stable == \A x \in st.exes : Call(x.f) = (CHOOSE m \in made : m.f = x.f).c
Names == /\ ObjName(P[1]) = <<"x", ".", "o">>
         /\ NUnits > 1 => ObjName(P[2]) = <<"x", ".", "y", ".", "o">>
         /\ \A x, y \in st.objs : x.f = y.f => x = y
=============================================================================
