------------------------------- MODULE MCLibs -------------------------------
(* The search as a machine over (library, directory), for every placement of  *)
(* two names over the directories; checked against the rules stated directly. *)
EXTENDS Libs, TLC
CONSTANTS Dirs, NConf
VARIABLES c, s, path, todo
vars == <<c, s, path, todo>>
Order == SetToSeq(Dirs)
Elf(d, n) == [dir |-> d, name |-> n, kind |-> "elf", id |-> <<d, n>>, todir |-> "", toname |-> "", items |-> <<>>]
Link(d, n, t, m) == [dir |-> d, name |-> n, kind |-> "link", id |-> <<>>, todir |-> t, toname |-> m, items |-> <<>>]
Dir(d, n) == [dir |-> d, name |-> n, kind |-> "dir", id |-> <<>>, todir |-> "", toname |-> "", items |-> <<>>]
Scr(d, n) == [dir |-> d, name |-> n, kind |-> "script", id |-> <<>>, todir |-> "", toname |-> "",
              items |-> <<[how |-> "rel", dir |-> "", name |-> "y"]>>]
Place(d, n) == {<<>>, <<Elf(d, n)>>, <<Dir(d, n)>>} \cup {<<Link(d, n, t, n)>> : t \in Dirs}
                 \cup (IF n = "x" THEN {<<Scr(d, n)>>} ELSE {})
Mk(a, b) == Flat([i \in 1..Len(Order) |-> a[Order[i]] \o b[Order[i]]])
Init == \E a \in {f \in [Dirs -> UNION {Place(d, "x") : d \in Dirs}] : \A d \in Dirs : f[d] \in Place(d, "x")} :
         \E b \in {f \in [Dirs -> UNION {Place(d, "y") : d \in Dirs}] : \A d \in Dirs : f[d] \in {<<>>, <<Elf(d, "y")>>}} :
         \E l \in {<<"x">>, <<"x", "y">>, <<"y", "x">>} :
           /\ c = [fs |-> Mk(a, b), L |-> SubSeq(Order, 1, Len(Order) - 1 - NConf), cwd |-> Order[Len(Order) - NConf],
                   conf |-> SubSeq(Order, Len(Order) - NConf + 1, Len(Order)), libs |-> l]
           /\ s = [loaded |-> <<>>, missing |-> <<>>, open |-> FALSE] /\ path = Path(c) /\ todo = l
\* one directory is tried for the first library to do
Try == /\ todo # <<>> /\ path # <<>>
       /\ LET e == Open(c.fs, Head(path), Head(todo))
          IN IF IsFile(e) THEN /\ s' = (IF e.kind = "elf" THEN Add(s, e) ELSE Script(c, s, e.items))
                               /\ path' = Path(c) /\ todo' = Tail(todo)
             ELSE path' = Tail(path) /\ UNCHANGED <<s, todo>>
       /\ UNCHANGED c
Miss == /\ todo # <<>> /\ path = <<>>
        /\ s' = [s EXCEPT !.missing = Append(@, Head(todo))] /\ path' = Path(c) /\ todo' = Tail(todo) /\ UNCHANGED c
Next == Try \/ Miss
Spec == Init /\ [][Next]_vars
\* the machine computes Outcome
Agrees == todo = <<>> => s = Outcome(c)
\* nothing is loaded that no directory of the search path leads to
Sound == \A i \in 1..Len(s.loaded) : \E j \in 1..Len(c.fs) : c.fs[j].id = s.loaded[i] /\ c.fs[j].kind = "elf"
\* a directory earlier in the path that has the (plain) library wins
First == \A i \in 1..Len(Path(c)) :
           todo = <<>> /\ c.libs = <<"x">> /\ Lookup(c.fs, Path(c)[i], "x").kind = "elf" /\ (\A k \in 1..(i - 1) : ~IsFile(Open(c.fs, Path(c)[k], "x")))
             => s.loaded = <<<<Path(c)[i], "x">>>>
\* loaded or missing, never both nor neither
Total == todo = <<>> /\ c.libs = <<"x">> => (s.loaded = <<>>) = (s.missing # <<>>)
==============================================================================
