-------------------------------- MODULE List --------------------------------
(* The list container (array.h) as a sequence of items [id, size, key]; index *)
(* arguments and results count from 0. Step says which results, contents and  *)
(* cleared items an operation may have; a recorded history is a behaviour     *)
(* when every step is allowed.                                                *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Functions

Item(id, size, key) == [id |-> id, size |-> size, key |-> key]
Full(c, l) == c.fixed = 1 /\ Len(l) >= c.cap
Ids(l) == [i \in 1..Len(l) |-> l[i].id]
Gone(c, ids) == IF c.cb = 1 THEN ids ELSE <<>>
Count(l, x) == Cardinality({i \in 1..Len(l) : l[i] = x})
Perm(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Count(a, a[i]) = Count(b, a[i])
Le(kind, x, y) == CASE kind \in {0, 2, 4} -> x.key <= y.key
                    [] kind \in {3, 5} -> x.key >= y.key
                    [] OTHER -> x.size <= y.size
Ordered(kind, l) == \A i \in 1..(Len(l) - 1) : Le(kind, l[i], l[i + 1])
Sorted(l) == Ordered(0, l)
In(l, i) == i >= 0 /\ i < Len(l)
At(l, i) == l[i + 1]
Put(l, i, x) == [l EXCEPT ![i + 1] = x]
Without(l, i) == SubSeq(l, 1, i) \o SubSeq(l, i + 2, Len(l))
With(l, i, x) == SubSeq(l, 1, i) \o <<x>> \o SubSeq(l, i + 1, Len(l))

\* the item an operation brings in
New(o) == CASE o.op = "addk" -> Item(o.a[1], o.a[2], o.a[3])
            [] o.op = "item" -> Item(o.a[1], o.a[2], o.a[3])
            [] o.op \in {"add", "push"} -> Item(o.a[1], o.a[2], 0)
            [] o.op \in {"set", "ins"} -> Item(o.a[2], o.a[3], 0)
            [] o.op \in {"setk", "insk"} -> Item(o.a[2], o.a[3], o.a[4])

\* contents l, operation o: is (r, m, cleared) an outcome the sequence allows?
Step(c, l, o, r, m, cleared) ==
  CASE o.op \in {"addk", "add", "push", "item"} ->
         IF Full(c, l) THEN r = -1 /\ m = l /\ cleared = Gone(c, <<New(o).id>>)
         ELSE r = Len(l) /\ m = Append(l, New(o)) /\ cleared = <<>>
    [] o.op \in {"set", "setk"} -> r = At(l, o.a[1]).id /\ m = Put(l, o.a[1], New(o)) /\ cleared = <<>>
    [] o.op \in {"ins", "insk"} ->
         /\ cleared = <<>>
         /\ IF Full(c, l) THEN r = 0 /\ m = l ELSE r = 1 /\ m = With(l, o.a[1], New(o))
    [] o.op = "rem" -> /\ cleared = <<>>
                       /\ IF In(l, o.a[1]) THEN r = At(l, o.a[1]).id /\ m = Without(l, o.a[1]) ELSE r = -1 /\ m = l
    [] o.op = "del" -> IF In(l, o.a[1]) THEN m = Without(l, o.a[1]) /\ cleared = Gone(c, <<At(l, o.a[1]).id>>) ELSE m = l /\ cleared = <<>>
    [] o.op = "swap" -> /\ cleared = <<>>
                        /\ m = IF In(l, o.a[1]) /\ In(l, o.a[2]) THEN Put(Put(l, o.a[1], At(l, o.a[2])), o.a[2], At(l, o.a[1])) ELSE l
    [] o.op = "clear" -> m = <<>> /\ cleared = Gone(c, Ids(l))
    [] o.op = "sort" -> cleared = <<>> /\ Perm(l, m) /\ Ordered(o.a[1], m)
    [] o.op = "find" -> /\ m = l /\ cleared = <<>>
                        /\ (o.a[1] = 3 /\ ~Sorted(l)) \/ (IF \E i \in 1..Len(l) : l[i].key = o.a[2] THEN In(l, r) /\ At(l, r).key = o.a[2] ELSE r = -1)
    [] o.op = "end" -> r = 1 /\ m = <<>> /\ cleared = Gone(c, Ids(l))
Capacity(c, n, cap) == IF c.fixed = 1 THEN cap = c.cap ELSE cap >= n

\* the first step of a recorded history that is none of the specification's (0: all are)
Verdict(h) ==
  LET Acc(s, k) ==
        IF s.bad # 0 THEN s
        ELSE LET t == h.steps[k]
             IN IF Step(h.c, s.l, h.ops[k], t.r, t.l, t.cleared) /\ (h.ops[k].op = "end" \/ (Capacity(h.c, Len(t.l), t.cap) /\ t.beyond = 0))
                THEN [bad |-> 0, l |-> t.l] ELSE [bad |-> k, l |-> s.l]
  IN FoldLeft(Acc, [bad |-> 0, l |-> <<>>], [k \in 1..Len(h.steps) |-> k]).bad
=============================================================================
