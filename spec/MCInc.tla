-------------------------------- MODULE MCInc --------------------------------
(* Laws of the search and of guarded files, for every small world: files are  *)
(* put into directories and directories onto the search list one by one.      *)
EXTENDS Inc, TLC
CONSTANTS MostFiles, MostList
VARIABLES files, list
Dirs == <<<<"a">>, <<"b">>, <<"a", "s">>>>
DirSet == {Dirs[i] : i \in 1..Len(Dirs)}
N(c) == [abs |-> FALSE, c |-> c]
Names == {N(<<"x">>), N(<<"y">>), N(<<"s", "x">>), N(<<"..", "b", "x">>), [abs |-> TRUE, c |-> <<"b", "x">>], N(<<"..", "s", "y">>)}
Mark == [k |-> "mark", n |-> 7]
Inc(f, c) == [k |-> "inc", form |-> f, name |-> N(c)]
Guarded(b) == <<[k |-> "if", pos |-> FALSE, g |-> "G", a |-> <<[k |-> "def", g |-> "G"]>> \o b, b |-> <<>>]>>
Bodies == {<<Mark>>, Guarded(<<Mark, Inc("q", <<"x">>)>>), <<[k |-> "once"], Mark, Inc("q", <<"y">>)>>, <<Mark, Inc("na", <<"x">>)>>}
Init == files = <<>> /\ list = <<>>
AddFile == Len(files) < MostFiles /\ \E d \in DirSet, n \in {"x", "y"}, b \in Bodies :
             /\ \A i \in 1..Len(files) : ~(files[i].d = d /\ files[i].n = n)
             /\ files' = Append(files, [d |-> d, n |-> n, body |-> b])
             /\ UNCHANGED list
AddDir == Len(list) < MostList /\ \E d \in DirSet : (\A i \in 1..Len(list) : list[i] # d) /\ list' = Append(list, d) /\ UNCHANGED files
Next == AddFile \/ AddDir
Spec == Init /\ [][Next]_<<files, list>>
W == [dirs |-> Dirs, files |-> files, list |-> list]
Forms == {"q", "a"}
\* a directory added at the end, or a file added in a place searched later, changes nothing that was found
Stable ==
  \A here \in DirSet, f \in Forms, n \in Names :
    LET r == Search(W, here, 0, f, n)
    IN /\ list # <<>> => LET q == Search([W EXCEPT !.list = SubSeq(list, 1, Len(list) - 1)], here, 0, f, n) IN q.f # 0 => r = q
       /\ r.f # 0 => /\ f = "a" => r.at # 1
                     /\ n.abs <=> r.at = 0
                     /\ \A i \in 1..Len(files) : i # r.f => LET o == SelectSeq(files, LAMBDA x : x # files[i])
                                                            IN Search([W EXCEPT !.files = o], here, 0, f, n).at = r.at
       \* the quoted form finds whatever the other finds
       /\ Search(W, here, 0, "a", n).f # 0 => Search(W, here, 0, "q", n).f # 0
\* what is next lies behind
Behind == \A here \in DirSet, n \in Names, at \in 1..(Len(list) + 1), f \in {"nq", "na"} : LET r == Search(W, here, at, f, n) IN r.f # 0 => r.at > at
\* a file that is guarded, or marked once, contributes once, whatever the order and form of the directives
Twice(f, g, n) == Unit([W EXCEPT !.files = Append(files, [d |-> <<>>, n |-> "main", body |-> <<[k |-> "inc", form |-> f, name |-> n], [k |-> "inc", form |-> g, name |-> n]>>])], Len(files) + 1, {})
OnceOnly == \A n \in Names : \A f, g \in Forms :
              LET r == Search(W, <<>>, 0, f, n)
              IN (r.f # 0 /\ r = Search(W, <<>>, 0, g, n) /\ files[r.f].body[1].k \in {"if", "once"}) =>
                   LET u == Twice(f, g, n)
                       v == Unit([W EXCEPT !.files = Append(files, [d |-> <<>>, n |-> "main", body |-> <<[k |-> "inc", form |-> f, name |-> n]>>])], Len(files) + 1, {})
                   IN u.err # "" \/ (v.out # <<>> /\ u.out = v.out)
=============================================================================
