------------------------------ MODULE MCList ------------------------------
(* Every history of up to DEPTH operations on lists of a capacity in CAPS;    *)
(* histories of full length are written out for replay.                       *)
EXTENDS List, CSV, IOUtils, Json, TLC
CONSTANTS DEPTH, CAPS
VARIABLES c, l, h
Configs == [cap : CAPS, fixed : {0, 1}, cb : {1}]
Init == c \in {x \in Configs : x.fixed = 0 \/ x.cap > 0} /\ l = <<>> /\ h = <<>>
O(op, a) == [op |-> op, a |-> a]
N == Len(h) + 1 \* ids are distinct within a history
\* deterministic operations and what they make of the list
Ops == {O("addk", <<N, 1 + (N % 2), k>>) : k \in {1, 2}}
       \cup {O("insk", <<i, N, 2, 1>>) : i \in 0..(Len(l) - 1)}
       \cup {O("setk", <<i, N, 0, 2>>) : i \in 0..(Len(l) - 1)}
       \cup {O("rem", <<i>>) : i \in 0..Len(l)}
       \cup {O("swap", <<0, Len(l) - 1>>)} \cup {O("sort", <<k>>) : k \in {0, 4}} \cup {O("clear", <<>>)}
Do(o) ==
  CASE o.op = "addk" -> IF Full(c, l) THEN l ELSE Append(l, New(o))
    [] o.op = "insk" -> IF Full(c, l) THEN l ELSE With(l, o.a[1], New(o))
    [] o.op = "setk" -> Put(l, o.a[1], New(o))
    [] o.op = "rem" -> IF In(l, o.a[1]) THEN Without(l, o.a[1]) ELSE l
    [] o.op = "swap" -> IF l = <<>> THEN l ELSE Put(Put(l, 0, At(l, Len(l) - 1)), Len(l) - 1, At(l, 0))
    [] o.op = "sort" -> SortSeq(l, LAMBDA x, y : x.key < y.key)
    [] o.op = "clear" -> <<>>
Next == /\ Len(h) < DEPTH
        /\ \E o \in Ops : h' = Append(h, o) /\ l' = Do(o)
        /\ UNCHANGED c
        /\ (Len(h') = DEPTH => CSVWrite("%1$s", <<ToJson([c |-> c, ops |-> h'])>>, IOEnv.VF_OUT))
Spec == Init /\ [][Next]_<<c, l, h>>
Bounded == c.fixed = 1 => Len(l) <= c.cap
NoTwins == \A i, j \in 1..Len(l) : l[i].id = l[j].id => i = j
\* the step relation accepts what Do computes
Agrees == [][LET o == h'[Len(h')] IN
             Step(c, l, o, CASE o.op = "addk" -> IF Full(c, l) THEN -1 ELSE Len(l)
                             [] o.op = "insk" -> IF Full(c, l) THEN 0 ELSE 1
                             [] o.op = "setk" -> At(l, o.a[1]).id
                             [] o.op = "rem" -> IF In(l, o.a[1]) THEN At(l, o.a[1]).id ELSE -1
                             [] OTHER -> 0, l',
                  CASE o.op = "addk" /\ Full(c, l) -> Gone(c, <<o.a[1]>>) [] o.op = "clear" -> Gone(c, Ids(l)) [] OTHER -> <<>>)]_<<c, l, h>>
===========================================================================
