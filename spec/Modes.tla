------------------------------- MODULE Modes -------------------------------
(* The ways a program gets built: a directory holding sources (each with a    *)
(* version), objects and executables, and the commands that change or use it. *)
(* An object stands for its source as it was when it was compiled, an         *)
(* executable for the units it was linked from; running either way, from      *)
(* sources, objects, standard input or any mixture, runs the same units.      *)
EXTENDS Integers, Sequences

(* base name: the characters after the last slash *)
RECURSIVE Base_(_, _)
Base_(p, i) == IF i = 0 THEN p ELSE IF p[i] = "/" THEN SubSeq(p, i + 1, Len(p)) ELSE Base_(p, i - 1)
BaseName(p) == Base_(p, Len(p))
RECURSIVE Dot_(_, _)
Dot_(p, i) == IF i = 0 THEN p ELSE IF p[i] = "." THEN SubSeq(p, 1, i - 1) ELSE Dot_(p, i - 1)
NoExt(p) == Dot_(p, Len(p))
(* the object cjit -c writes without -o (paths are sequences of characters)   *)
ObjName(p) == NoExt(BaseName(p)) \o <<".", "o">>

(* st.ver[u]: version of source u; st.objs, st.exes: sets of [f |-> name, c |-> contents] *)
Put(s, f, c) == {x \in s : x.f # f} \cup {[f |-> f, c |-> c]}
Get(s, f) == (CHOOSE x \in s : x.f = f).c
Has(s, f) == \E x \in s : x.f = f

Start(paths) == [ver |-> [u \in 1..Len(paths) |-> 0], objs |-> {}, exes |-> {}]

Content(st, i) == IF i.k = "obj" THEN Get(st.objs, i.f) ELSE <<i.u, st.ver[i.u]>>
Ready(st, ins) == \A j \in 1..Len(ins) : ins[j].k = "obj" => Has(st.objs, ins[j].f)
Units(st, ins) == [j \in 1..Len(ins) |-> Content(st, ins[j])]

(* effect of a command, and the units that run (none: <<>>)                   *)
Do(paths, st, s) ==
  CASE s.op = "edit" -> [st |-> [st EXCEPT !.ver[s.u] = @ + 1], runs |-> <<>>]
    [] s.op = "c" -> [st |-> [st EXCEPT !.objs = Put(@, IF s.o = <<>> THEN ObjName(paths[s.u]) ELSE s.o, <<s.u, st.ver[s.u]>>)], runs |-> <<>>]
    [] s.op = "exe" -> IF Ready(st, s.ins) THEN [st |-> [st EXCEPT !.exes = Put(@, s.o, Units(st, s.ins))], runs |-> <<>>] ELSE [st |-> st, runs |-> <<>>]
    [] s.op = "run" -> [st |-> st, runs |-> IF Ready(st, s.ins) THEN Units(st, s.ins) ELSE <<>>]
    [] s.op = "call" -> [st |-> st, runs |-> IF Has(st.exes, s.o) THEN Get(st.exes, s.o) ELSE <<>>]

RECURSIVE Hist_(_, _, _, _)
Hist_(paths, st, steps, i) ==
  IF i > Len(steps) THEN <<>>
  ELSE LET r == Do(paths, st, steps[i])
       IN <<[runs |-> r.runs, objs |-> {x.f : x \in r.st.objs}, exes |-> {x.f : x \in r.st.exes}]>> \o Hist_(paths, r.st, steps, i + 1)
History(c) == Hist_(c.paths, Start(c.paths), c.steps, 1)
=============================================================================
