------------------------------ MODULE MCValid ------------------------------
(* Every unit of up to MaxLen file-scope declarations of one name, and of a *)
(* block of up to MaxLen declarations of it, with what must follow from     *)
(* being accepted.                                                          *)
EXTENDS Valid
CONSTANT MaxLen
VARIABLES u, blk
NoI == [k |-> "none"]
One == [k |-> "e", e |-> [k |-> "num", v |-> 1]]
F(ps) == [k |-> "fun", ret |-> IntT, pars |-> ps, va |-> FALSE, old |-> FALSE]
VarOf(t, sto, i) == [k |-> "var", n |-> "X", t |-> t, sto |-> sto, i |-> i]
Ret == [k |-> "return", e |-> <<[k |-> "num", v |-> 1]>>]
Alphabet == {VarOf(IntT, "", NoI), VarOf(IntT, "extern", NoI), VarOf(IntT, "static", NoI), VarOf(IntT, "", One), VarOf(T("char"), "", NoI),
             VarOf([k |-> "arr", to |-> IntT, n |-> 3], "", NoI), VarOf([k |-> "arr", to |-> IntT, n |-> -1], "extern", NoI),
             [k |-> "typedef", n |-> "X", t |-> IntT], [k |-> "typedef", n |-> "X", t |-> T("char")],
             [k |-> "proto", n |-> "X", t |-> F(<<>>), sto |-> ""], [k |-> "proto", n |-> "X", t |-> F(<<IntT>>), sto |-> ""],
             [k |-> "fun", n |-> "X", t |-> F(<<>>), pn |-> <<>>, sto |-> "", body |-> <<Ret>>],
             [k |-> "enum", cs |-> <<[n |-> "X", has |-> FALSE, e |-> [k |-> "num", v |-> 0]]>>]}
Init == u = <<>> /\ blk \in BOOLEAN
Next == /\ Len(u) < MaxLen
        /\ \E d \in Alphabet : (blk => d.k # "fun") /\ u' = Append(u, d)
        /\ UNCHANGED blk
Spec == Init /\ [][Next]_<<u, blk>>

Unit(s) == IF ~blk THEN s
           ELSE <<[k |-> "fun", n |-> "q", t |-> [k |-> "fun", ret |-> T("void"), pars |-> <<>>, va |-> FALSE, old |-> FALSE], pn |-> <<>>, sto |-> "",
                   body |-> [i \in DOMAIN s |-> [k |-> "decl", d |-> s[i]]]]>>
Kind(d) == IF d.k \in {"proto", "fun"} THEN "function" ELSE d.k
IsDef(d) == d.k = "fun" \/ (d.k = "var" /\ d.i.k # "none")
\* what is wrong stays wrong
Monotone == u # <<>> => LET a == Check([u |-> Unit(SubSeq(u, 1, Len(u) - 1))])
                        IN a.v = "err" => Check([u |-> Unit(u)]).v = "err"
\* an accepted name stands for one thing, with one type, defined at most once
OneThing == Check([u |-> Unit(u)]).v = "ok" =>
              /\ Cardinality({Kind(u[i]) : i \in DOMAIN u}) <= 1
              /\ Cardinality({i \in DOMAIN u : IsDef(u[i])}) <= 1
              /\ \A i, j \in DOMAIN u : u[i].k # "enum" /\ u[j].k # "enum" => Compat(u[i].t, u[j].t) = {}
              /\ blk => Cardinality({i \in DOMAIN u : u[i].k \in {"var", "typedef", "enum"} /\ ~(u[i].k = "var" /\ u[i].sto = "extern")}) <= 1
\* and in a block an object is there once; what a block declares is gone after it
Gone == blk => LET s == Unit(u) IN Check([u |-> s]).v = "ok" /\ u # <<>> /\ (\A i \in DOMAIN u : u[i].k = "enum" \/ (u[i].k = "var" /\ u[i].sto = "static")) =>
                 Check([u |-> Append(s, [k |-> "typedef", n |-> "X", t |-> T("long")])]).v = "ok"
=============================================================================
