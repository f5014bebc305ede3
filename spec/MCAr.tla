------------------------------- MODULE MCAr -------------------------------
(* Archives growing by one object at a time.                                  *)
EXTENDS Ar
CONSTANTS MAX
VARIABLES ms, w
Objects == {[name |-> n, size |-> s, defs |-> d, ok |-> TRUE] : n \in {"a.o", "b.o"}, s \in {0, 3, 4},
            d \in {<<>>, <<[name |-> "x", len |-> 1]>>, <<[name |-> "x", len |-> 1], [name |-> "yy", len |-> 2]>>}}
Init == ms = <<>> /\ w = 8
\* w: where a writer that appends would be
Next == Len(ms) < MAX /\ \E o \in Objects : ms' = Append(ms, o) /\ w' = Total(ms')
Spec == Init /\ [][Next]_<<ms, w>>
Aligned == \A k \in 1..Len(ms) : Offset(ms, k) % 2 = 0
Room == \A k \in 1..Len(ms) : Offset(ms, k) + Header + ms[k].size <= (IF k = Len(ms) THEN Total(ms) ELSE Offset(ms, k + 1))
Behind == ms # <<>> => Offset(ms, 1) >= 8 + Header + IndexLen(ms)
OneEach == Cardinality(Extracted(ms)) = Cardinality(ToSet(Listing(ms)))
Index == LET h == Outcome([ins |-> ms]).has IN \A i \in 1..Len(h) : \E j \in 1..Len(ms[h[i][2]].defs) : ms[h[i][2]].defs[j].name = h[i][1]
===========================================================================
