-------------------------------- MODULE Tar --------------------------------
(* Reading a ustar archive, block by block, and the tree it must leave.       *)
(* An archive is a sequence of blocks; a block is [k, sum, magic, type, size, *)
(* name]: k is "zero" (all zero), "head" (a member header) or "data"; sum and *)
(* magic say whether the checksum and magic are right; size is the number of  *)
(* bytes of the member (-1: not a number); name is the sequence of segments   *)
(* of prefix and name. The archive ends after `len` bytes: `blocks` whole     *)
(* blocks are readable and tail more bytes.                                   *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

BlocksOf(n) == (n + 511) \div 512
IsDir(h) == h.type = "dir"
IsReg(h) == h.type = "reg"
Escapes(h) == \E i \in 1..Len(h.name) : h.name[i] = ".."
Plain(name) == SelectSeq(name, LAMBDA c : c # "" /\ c # ".")

\* reader state: pos is the index of the next block to read as a header
Start == [pos |-> 1, members |-> <<>>, result |-> "reading", escape |-> FALSE]
Fail(s) == [s EXCEPT !.result = "failure"]
Step(a, s) ==
  IF s.pos > a.whole THEN Fail(s)                       \* truncated: no end
  ELSE LET h == a.blocks[s.pos]
       IN CASE h.k = "zero" -> IF s.members = <<>> THEN Fail(s) ELSE [s EXCEPT !.result = "success"]
            [] h.k = "data" \/ ~h.sum \/ ~h.magic \/ h.size < 0 -> Fail(s)
            [] OTHER ->
                 LET room == (a.whole - s.pos) * 512 + a.tail
                     n == BlocksOf(h.size)
                 IN IF h.size > room THEN Fail(s)
                    ELSE [s EXCEPT !.pos = @ + 1 + n, !.escape = @ \/ Escapes(h),
                                   !.members = Append(@, [type |-> h.type, path |-> Plain(h.name), at |-> s.pos + 1, size |-> h.size])]
RECURSIVE Read(_, _)
Read(a, s) == IF s.result # "reading" THEN s ELSE Read(a, Step(a, s))

Dirs(ms) == {m.path : m \in {x \in ToSet(ms) : x.type = "dir" /\ x.path # <<>>}}
\* the last member of a name is the one that stays
Files(ms) == {[path |-> ms[i].path, at |-> ms[i].at, size |-> ms[i].size] :
                i \in {j \in 1..Len(ms) : ms[j].type = "reg" /\ \A k \in (j + 1)..Len(ms) : ~(ms[k].type = "reg" /\ ms[k].path = ms[j].path)}}
Parent(p) == SubSeq(p, 1, Len(p) - 1)
\* can the tree be made: every file's and directory's parent is a directory made before it, none is in the way of another
Feasible(ms) ==
  /\ \A i \in 1..Len(ms) : ms[i].type = "dir" => (ms[i].path = <<>> \/ Parent(ms[i].path) = <<>>
        \/ \E j \in 1..(i - 1) : ms[j].type = "dir" /\ ms[j].path = Parent(ms[i].path))
  /\ \A i \in 1..Len(ms) : ms[i].type = "reg" => (ms[i].path # <<>> /\ (Parent(ms[i].path) = <<>>
        \/ \E j \in 1..(i - 1) : ms[j].type = "dir" /\ ms[j].path = Parent(ms[i].path)))
  /\ \A i, j \in 1..Len(ms) : (ms[i].type = "dir" /\ ms[j].type = "reg") => ms[i].path # ms[j].path

\* what the property demands:
\*  tree     success, exactly these directories and files
\*  failure  a failure, whatever is left inside the destination
\*  notsuccess  the archive does not bring the directories its members need: a failure, unless they are all there
\*  inside   either, but nothing outside of the destination
Outcome(a) ==
  LET s == Read(a, Start)
  IN IF s.result = "failure" THEN [kind |-> "failure", dirs |-> {}, files |-> {}]
     ELSE IF s.escape THEN [kind |-> "inside", dirs |-> {}, files |-> {}]
     ELSE IF ~Feasible(s.members) THEN [kind |-> "notsuccess", dirs |-> Dirs(s.members), files |-> Files(s.members)]
     ELSE [kind |-> "tree", dirs |-> Dirs(s.members), files |-> Files(s.members)]
==============================================================================
