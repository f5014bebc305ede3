----------------------------- MODULE MCLinkage -----------------------------
(* Linking input by input, every choice of roles of NU units for 2 names.     *)
EXTENDS Linkage
CONSTANTS NU
VARIABLES c, x, k
Roles == {"none", "ref", "wref", "strong", "weak", "common", "static"}
Shapes == { [i \in 1..NU |-> [form |-> "unit", us |-> <<i>>]],
            [i \in 1..NU |-> [form |-> IF i = NU THEN "dll" ELSE "unit", us |-> <<i>>]],
            [i \in 1..2 |-> IF i = 1 THEN [form |-> "unit", us |-> <<1>>] ELSE [form |-> "archive", us |-> [j \in 1..(NU - 1) |-> j + 1]]] }
Init == \E a \in [1..NU -> Roles], b \in [1..NU -> {"none", "ref", "strong", "common"}] : \E sh \in Shapes :
          /\ c = [n |-> 2, units |-> [u \in 1..NU |-> [roles |-> <<a[u], b[u]>>, size |-> <<u, 1>>]], inputs |-> sh, libc |-> <<2>>]
          /\ x = Start(c) /\ k = 1
Next == k <= Len(c.inputs) /\ x' = Add(c, x, c.inputs[k]) /\ k' = k + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, x, k>>
Done == k > Len(c.inputs)
Role(u, s) == c.units[u].roles[s]
In == ToSet(x.in)
Strongs(s) == {u \in In : Role(u, s) = "strong"}
\* the rules, stated directly
OneStrong == Done /\ ~Fails(c, x) => \A s \in 1..2 : Cardinality(Strongs(s)) <= 1 /\ (Strongs(s) # {} => Final(c, x, s) = [to |-> "unit", by |-> CHOOSE u \in Strongs(s) : TRUE])
TwoFail == Done /\ (\E s \in 1..2 : Cardinality(Strongs(s)) > 1) => Fails(c, x)
CommonOverWeak == Done /\ ~Fails(c, x) => \A s \in 1..2 : Strongs(s) = {} /\ (\E u \in In : Role(u, s) = "common") => Final(c, x, s).to = "common"
InputsFirst == Done /\ ~Fails(c, x) => \A s \in 1..2 : (\E u \in In : Role(u, s) \in {"strong", "weak", "common"}) => Final(c, x, s).to \notin {"dll", "libc", "null"}
NullOnlyWeak == Done /\ ~Fails(c, x) => \A u \in In, s \in 1..2 : Role(u, s) = "ref" => Final(c, x, s).to # "null"
Private == Done /\ ~Fails(c, x) => \A u \in In, s \in 1..2 : Role(u, s) = "static" => Seen(c, x, u, s) = [to |-> "static", by |-> u]
\* for units the order matters only to the choice between weak definitions
Reversed == [c EXCEPT !.inputs = [i \in 1..Len(@) |-> @[Len(@) + 1 - i]]]
OnlyUnits == \A i \in 1..Len(c.inputs) : c.inputs[i].form = "unit"
OrderFree == Done /\ OnlyUnits => LET y == Link(Reversed, Start(Reversed), 1)
                IN /\ Fails(c, x) = Fails(Reversed, y)
                   /\ \A s \in 1..2 : Final(c, x, s).to = Final(Reversed, y, s).to /\ (x.tab[s].st = "common" => x.tab[s].size = y.tab[s].size)
\* a member that is in defines a name that was wanted
NoIdleMember == Done /\ c.inputs[2].form = "archive" => \A u \in In \ {1} : \E s \in 1..2 : Defines(c, u, s) /\ \E v \in In \ {u} : Role(v, s) = "ref"
==============================================================================
