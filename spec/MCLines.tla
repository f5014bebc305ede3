------------------------------ MODULE MCLines -------------------------------
(* All texts of up to N items in the main file, with one header of its own    *)
(* and one that includes it.                                                  *)
EXTENDS Lines, TLC, FiniteSets
CONSTANT N
VARIABLES main, s, ph
vars == <<main, s, ph>>
I(k, n) == [k |-> k, n |-> n, b |-> 0, v |-> 0, c |-> "const", fs |-> FALSE, f |-> "", i |-> 0, t |-> k]
Alpha == {I("none", 1), I("none", 3), I("mark", 1), [I("mark", 2) EXCEPT !.b = 1], [I("line", 1) EXCEPT !.v = 5], [I("line", 2) EXCEPT !.v = 1, !.fs = TRUE, !.f = "x"],
          I("if", 1), [I("if", 1) EXCEPT !.c = "line", !.v = 2], [I("elif", 2) EXCEPT !.v = 1], [I("elif", 1) EXCEPT !.c = "line", !.v = 3], I("else", 1), I("endif", 1),
          [I("inc", 1) EXCEPT !.i = 2], [I("inc", 1) EXCEPT !.i = 3], I("err", 1), [I("warn", 2) EXCEPT !.b = 1]}
H2 == <<I("none", 2), I("mark", 1), [I("line", 1) EXCEPT !.v = 9, !.fs = TRUE, !.f = "y"], I("warn", 1)>>
H3 == <<I("mark", 1), [I("inc", 2) EXCEPT !.i = 2], I("mark", 1)>>
Files == <<[name |-> "m", items |-> main], [name |-> "h", items |-> H2], [name |-> "g", items |-> H3]>>
\* conditionals nest
RECURSIVE Nest(_, _)
Nest(q, st) == IF q = <<>> THEN st = <<>>
               ELSE LET k == q[1].k IN
                    CASE k = "if" -> Nest(Tail(q), Append(st, "if"))
                      [] k \in {"elif", "else"} -> st # <<>> /\ st[Len(st)] = "if" /\ Nest(Tail(q), IF k = "else" THEN Append(SubSeq(st, 1, Len(st) - 1), "else") ELSE st)
                      [] k = "endif" -> st # <<>> /\ Nest(Tail(q), SubSeq(st, 1, Len(st) - 1))
                      [] OTHER -> Nest(Tail(q), st)
Init == main = <<>> /\ s = Start(<<[name |-> "m", items |-> <<>>]>>) /\ ph = "write"
Next == \/ ph = "write" /\ Len(main) < N /\ \E a \in Alpha : main' = Append(main, a) /\ UNCHANGED <<s, ph>>
        \/ ph = "write" /\ Nest(main, <<>>) /\ ph' = "read" /\ s' = Start(Files) /\ UNCHANGED main
        \/ ph = "read" /\ s.end = "no" /\ s' = Step(s, Files) /\ UNCHANGED <<main, ph>>
Spec == Init /\ [][Next]_vars

RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1].n + Sum(Tail(q))
\* a file is at 1 + the lines read so far, or at v + the lines read since the last #line v that was obeyed
Counted == ph = "read" => \A j \in 1..Len(s.st) :
   LET fr == s.st[j]
       its == Files[fr.i].items
       P == {p \in 1..(fr.pc - 1) : its[p].k = "line"}
   IN \/ fr.l = 1 + Sum(SubSeq(its, 1, fr.pc - 1)) /\ fr.f = Files[fr.i].name
      \/ \E p \in P : fr.l = its[p].v + Sum(SubSeq(its, p + 1, fr.pc - 1)) /\ (its[p].fs => fr.f = its[p].f)
NoLine == ph = "read" => \A j \in 1..Len(s.st) : LET fr == s.st[j]  its == Files[fr.i].items IN
   (\A p \in 1..(fr.pc - 1) : its[p].k # "line") => fr.l = 1 + Sum(SubSeq(its, 1, fr.pc - 1)) /\ fr.f = Files[fr.i].name
\* without conditionals everything up to the first error is said, in order
RECURSIVE Kinds(_)
Kinds(q) == IF q = <<>> THEN <<>>
            ELSE CASE q[1].k \in {"mark", "warn"} -> <<q[1].k>> \o Kinds(Tail(q))
                   [] q[1].k = "err" -> <<"err">>
                   [] q[1].k = "inc" -> Kinds(Files[q[1].i].items) \o Kinds(Tail(q))
                   [] OTHER -> Kinds(Tail(q))
All == (ph = "read" /\ s.end # "no" /\ \A p \in 1..Len(main) : main[p].k \notin {"if"}) => [j \in 1..Len(s.out) |-> s.out[j].k] = Kinds(main)
\* at most one group of each conditional is read
OneGroup == ph = "read" => \A j \in 1..Len(s.st) : \A q \in 1..Len(s.st[j].g) : s.st[j].g[q].on => s.st[j].g[q].was
\* an include leaves its includer where the directive is
Back == ph = "read" => \A j \in 1..(Len(s.st) - 1) : LET fr == s.st[j] IN Files[fr.i].items[fr.pc].k = "inc" /\ On(fr)
From == ph = "read" => \A j \in 1..Len(s.out) : (s.out[j].from = <<>> \/ s.out[j].from[1].f \in {"m", "x"}) /\ Len(s.out[j].from) < 3
End == (ph = "read" /\ s.end = "ok") => Len(s.st) = 1 /\ s.st[1].g = <<>> /\ s.st[1].pc = Len(main) + 1
Same == (ph = "read" /\ s.end # "no") => Said(Files) = [out |-> s.out, end |-> s.end]
=============================================================================
