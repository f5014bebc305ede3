------------------------------- MODULE MCCond -------------------------------
(* The line machine and the nesting semantics agree on every small program;   *)
(* exactly one arm of a chain with an #else is taken.                         *)
EXTENDS Cond, TLC
CONSTANT Full
VARIABLES a1, a2, mid, last, step
Lit1 == [k |-> "lit", t |-> "llong", v |-> <<1>>]
Lit0 == [k |-> "lit", t |-> "llong", v |-> <<>>]
Val(m) == [k |-> "int", t |-> "llong", v |-> m, txt |-> "n"]
Exprs == (IF Full THEN {Lit1, Lit0, [k |-> "un", op |-> "!", a |-> [k |-> "def", n |-> "A"]]} ELSE {}) \cup
         {[k |-> "mac", n |-> "A"], [k |-> "def", n |-> "A"], [k |-> "bin", op |-> "/", a |-> Lit1, b |-> [k |-> "mac", n |-> "A"]]}
Heads == {[k |-> "if", e |-> e] : e \in Exprs} \cup {[k |-> "ifdef", n |-> "A"], [k |-> "ifndef", n |-> "A"]}
Elifs == {[k |-> "elif", e |-> e] : e \in Exprs}
Simple == (IF Full THEN {<<>>, <<[k |-> "def", n |-> "A", v |-> Val(<<1>>)]>>} ELSE {}) \cup
          {<<[k |-> "undef", n |-> "A"]>>, <<[k |-> "junk"]>>, <<[k |-> "def", n |-> "A", v |-> Val(<<>>)]>>}
M(i) == <<[k |-> "mark", id |-> i]>>
Arm(l, b) == [l |-> l, body |-> b]
ElseL == [k |-> "else"]
Chain(arms) == [k |-> "chain", arms |-> arms]
Small == {Chain(<<Arm(h, M("p") \o s)>>) : h \in Heads, s \in Simple} \cup {Chain(<<Arm(h, M("p")), Arm(ElseL, M("q") \o s)>>) : h \in Heads, s \in Simple}
Inner == {<<x>> : x \in {x \in Small : Len(x.arms) = 1}} \cup Simple
None == [k |-> "none"]
Init == a1 \in {Arm(h, M("a") \o b) : h \in Heads, b \in Inner} /\ a2 = None /\ mid = <<>> /\ last = <<>> /\ step = 0
Next == \/ step = 0 /\ step' = 1 /\ mid' \in {<<Arm(e, M("b") \o b)>> : e \in Elifs, b \in Simple} \cup {<<>>} /\ UNCHANGED <<a1, a2, last>>
        \/ step = 1 /\ step' = 2 /\ last' \in {<<>>, M("c")} \cup {<<x>> : x \in Small} /\ UNCHANGED <<a1, a2, mid>>
Spec == Init /\ [][Next]_<<a1, a2, mid, last, step>>
Prog == <<Chain(<<a1>> \o mid \o <<Arm(ElseL, M("e") \o last)>>)>> \o last
Envs == {<<>>, <<[n |-> "A", v |-> Val(<<1>>)]>>, <<[n |-> "A", v |-> [k |-> "empty"]]>>, <<[n |-> "A", v |-> [k |-> "name", n |-> "A"]]>>}
Agree == step = 2 => \A env \in Envs : LET t == Tree(Start(env), Prog)
                                           l == Lines(Start(env), Unfold(Prog), 1)
                                       IN l.st = t.st /\ l.out = t.out /\ l.env = t.env /\ (l.st = "run" => l.stack = <<>>)
One == step = 2 => \A env \in Envs : LET t == Lines(Start(env), Unfold(Prog), 1)
                                     IN t.st = "run" => Cardinality({i \in 1..Len(t.out) : t.out[i] \in {"a", "b", "e"}}) = 1
=============================================================================
