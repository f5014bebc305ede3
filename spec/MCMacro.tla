------------------------------ MODULE MCMacro -------------------------------
(* Laws of macro replacement over every small set of macros and text.         *)
EXTENDS Macro, TLC
CONSTANTS BodyLen, TextLen
VARIABLES fb, ob, text, step
T(s, k) == [t |-> <<s>>, k |-> k, sp |-> FALSE, hs |-> {}]
Atoms == {T("a", "id"), T("F", "id"), T("O", "id"), T("(", "pun"), T(")", "pun")}
Ops == {[t |-> HH, k |-> "op", sp |-> FALSE, hs |-> {}], T("x", "id")}
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
\* ## neither first nor last
BodyOk(b) == b = <<>> \/ (b[1].t # HH /\ b[Len(b)].t # HH /\ \A i \in 1..Len(b) - 1 : b[i].t # HH \/ b[i + 1].t # HH)
Bodies == {b \in Seqs(Atoms \cup Ops, BodyLen) : BodyOk(b)}
OBodies == Seqs(Atoms, 2)
Init == fb \in Bodies /\ ob = <<>> /\ text = <<>> /\ step = 0
Next == \/ step = 0 /\ ob' \in OBodies /\ step' = 1 /\ UNCHANGED <<fb, text>>
        \/ step = 1 /\ text' \in Seqs(Atoms, TextLen) /\ step' = 2 /\ UNCHANGED <<fb, ob>>
Spec == Init /\ [][Next]_<<fb, ob, text, step>>
Ms == <<[n |-> <<"F">>, fn |-> TRUE, ps |-> <<<<"x">>>>, va |-> FALSE, body |-> fb], [n |-> <<"O">>, fn |-> FALSE, ps |-> <<>>, va |-> FALSE, body |-> ob],
        [n |-> <<"I">>, fn |-> TRUE, ps |-> <<<<"x">>>>, va |-> FALSE, body |-> <<T("x", "id")>>], [n |-> <<"V">>, fn |-> TRUE, ps |-> <<<<"x">>>>, va |-> TRUE, body |-> <<T("x", "id")>>],
        [n |-> <<"E">>, fn |-> FALSE, ps |-> <<>>, va |-> FALSE, body |-> <<>>],
        [n |-> <<"J">>, fn |-> TRUE, ps |-> <<<<"x">>, <<"y">>>>, va |-> FALSE, body |-> <<T("x", "id"), [t |-> HH, k |-> "op", sp |-> FALSE, hs |-> {}], T("y", "id")>>]>>
E2(ts, nest) == Expand(ts, Ms, nest, 0)
Fine(ts) == \A i \in 1..Len(ts) : ts[i].k # "bad"
Texts(ts) == [i \in 1..Len(ts) |-> ts[i].t]
RECURSIVE Bal(_, _, _)
Bal(ts, i, d) == IF d < 0 THEN FALSE ELSE IF i > Len(ts) THEN d = 0 ELSE Bal(ts, i + 1, d + (IF ts[i].t = LP THEN 1 ELSE IF ts[i].t = RP THEN -1 ELSE 0))
Call(f, as) == <<T(f, "id"), T("(", "pun")>> \o as \o <<T(")", "pun")>>
\* nothing that should be replaced is left
Complete == step = 2 => \A nest \in BOOLEAN : LET e == E2(text, nest) IN Fine(e) =>
  \A i \in 1..Len(e) : e[i].t = <<"O">> => <<"O">> \in e[i].hs
\* text without macro names stays
Inert == (step = 2 /\ \A i \in 1..Len(text) : text[i].t \notin {<<"F">>, <<"O">>}) => E2(text, FALSE) = text
\* I(text) is what the text becomes (in itself); a variable argument list is one argument; J(text,) and J(,text) do not expand it
Identity == (step = 2 /\ Bal(text, 1, 0)) =>
  LET e == E2(text, FALSE)
      i == E2(Call("I", text), FALSE)
      k == E2(Call("V", text), FALSE)
  IN (Fine(e) /\ Fine(i) /\ (e = <<>> \/ \A j \in 1..Len(e) : e[j].t # <<"F">>)) => Texts(i) = Texts(e) /\ Texts(k) = Texts(i)
Empty == (step = 2 /\ Bal(text, 1, 0)) =>
  LET a == E2(Call("J", text \o <<T(",", "pun")>>), FALSE)
      b == E2(Call("J", <<T(",", "pun")>> \o text), FALSE)
      e == E2(text, FALSE)
      c == E2(text \o <<T("E", "id")>>, FALSE)
  IN /\ Fine(a) /\ Fine(e) => Texts(a) = Texts(b) /\ Texts(a) = Texts(e)
     /\ Fine(e) => Texts(c) = Texts(e)
\* the order in which macros are defined does not matter
NoOrder == step = 2 => Expand(text, Ms, FALSE, 0) = Expand(text, <<Ms[6], Ms[5], Ms[4], Ms[3], Ms[2], Ms[1]>>, FALSE, 0)
\* the hide sets grow only with names of macros in play and expansion ends
Known == step = 2 => \A nest \in BOOLEAN : LET e == E2(text, nest) IN \A i \in 1..Len(e) : e[i].hs \subseteq {Ms[j].n : j \in 1..Len(Ms)}
=============================================================================
