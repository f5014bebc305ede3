------------------------------ MODULE MCLayout ------------------------------
(* Laws of layout, initialisation and access, over all small aggregates       *)
(* built member by member (one of them may be a structure of its own).        *)
EXTENDS Layout, TLC
CONSTANTS Types, Widths, Most
VARIABLES ms, kind
S(t) == [k |-> "s", t |-> t]
Rec(u, p, m) == [k |-> "r", u |-> u, packed |-> p, al |-> 0, pack |-> 0, ms |-> m]
M(n, ty, w, al) == [n |-> n, ty |-> ty, w |-> w, al |-> al, pk |-> FALSE]
Inner == Rec(FALSE, FALSE, <<M("p", S("char"), -1, 0), M("q", S("int"), -1, 0)>>)
Two == [k |-> "a", n |-> 2, of |-> Inner]
Names == <<"a", "b", "c", "d">>
Kinds == {[u |-> u, p |-> p] : u \in BOOLEAN, p \in BOOLEAN}
NewM(n) == {M(n, S(t), -1, al) : t \in Types, al \in {0, 4}}
      \cup {M(n, S(t), w, 0) : t \in Types \ {"float"}, w \in {x \in Widths : x <= 8}}
      \cup {M(n, S("int"), 31, 0), M(n, S("llong"), 33, 0), M(n, S("llong"), 64, 0), M("", S("char"), 3, 0), M(n, Inner, -1, 0), M("", Rec(FALSE, FALSE, <<M(n, S("short"), -1, 0)>>), -1, 0)}
      \cup (IF Len(ms) < 2 THEN {M(n, Two, -1, 0)} ELSE {}) \cup {M("", S("int"), 0, 0)}
Init == ms = <<>> /\ kind \in Kinds
Next == Len(ms) < Most /\ UNCHANGED kind /\ \E m \in NewM(Names[Len(ms) + 1]) : ms' = Append(ms, m) /\ ~(kind.p /\ m.w = 0)
Spec == Init /\ [][Next]_<<ms, kind>>
T == Rec(kind.u, kind.p, ms)
L == Lay(T)
End(i) == L.ms[i].off + (IF ms[i].w >= 0 THEN ms[i].w ELSE L.ms[i].ty.size * 8)
Sane == /\ L.size % L.align = 0
        /\ \A i \in 1..Len(ms) : End(i) <= L.size * 8 /\ (kind.u => L.ms[i].off = 0)
        /\ \A i \in 1..Len(ms) : ms[i].w < 0 => (L.ms[i].off % 8 = 0 /\ L.ms[i].off % (8 * Mx(ms[i].al, IF kind.p THEN 1 ELSE L.ms[i].ty.align)) = 0)
        /\ \A i \in 1..Len(ms) : (ms[i].w > 0 /\ ~kind.p) => L.ms[i].off \div (8 * L.ms[i].ty.size) = (End(i) - 1) \div (8 * L.ms[i].ty.size)
        /\ ~kind.u => \A i \in 1..Len(ms), j \in 1..Len(ms) : i < j => End(i) <= L.ms[j].off
\* nothing is wasted: a member begins less than its alignment behind the one before, the end is rounded up
Tight == ~kind.u => /\ \A i \in 2..Len(ms) : L.ms[i].off - End(i - 1) < 8 * Mx(ms[i].al, L.ms[i].ty.align)
                    /\ (ms # <<>> /\ ms[Len(ms)].w # 0) => L.size * 8 - End(Len(ms)) < 8 * L.align
LV == Leaves(L, 0, FALSE)
\* initialisers
E(n) == [k |-> "e", v |-> [n |-> FALSE, m |-> <<n>>]]
Lst(is) == [k |-> "l", is |-> is]
I(d, v) == [d |-> d, v |-> v]
Flat == Lst([i \in 1..Len(LV) |-> I(<<>>, E(i))])
\* one designated item per leaf, last first
Dm(n) == [k |-> "m", n |-> n]
Di(i) == [k |-> "i", i |-> i]
Paths == LET RECURSIVE G(_)
             G(i) == IF i > Len(ms) THEN <<>>
                     ELSE (IF ms[i].n = "" THEN (IF ms[i].w >= 0 THEN <<>> ELSE <<<<Dm(ms[i].ty.ms[1].n)>>>>)
                           ELSE IF ms[i].ty.k = "s" THEN <<<<Dm(ms[i].n)>>>>
                           ELSE IF ms[i].ty.k = "r" THEN <<<<Dm(ms[i].n), Dm("p")>>, <<Dm(ms[i].n), Dm("q")>>>>
                           ELSE <<<<Dm(ms[i].n), Di(0), Dm("p")>>, <<Dm(ms[i].n), Di(0), Dm("q")>>, <<Dm(ms[i].n), Di(1), Dm("p")>>, <<Dm(ms[i].n), Di(1), Dm("q")>>>>) \o G(i + 1)
         IN G(1)
Rev == Lst([i \in 1..Len(Paths) |-> LET j == Len(Paths) + 1 - i IN I(Paths[j], E(j))])
Inits == (~kind.u /\ Len(ms) = Most) =>
  LET a == Initial(L, Flat)
      b == Initial(L, Rev)
      z == Initial(L, Lst(<<>>))
      x == Initial(L, Lst(Append(Flat.is, I(<<>>, E(1)))))
      o == Initial(L, Lst(Rev.is \o Flat.is))
  IN /\ a.ok /\ b.ok /\ a = b /\ z.ok /\ z.bytes = Zeros(L.size) /\ z.mask = a.mask
     /\ ~x.ok /\ (o.ok => o.bytes = a.bytes)
     /\ \A i \in 1..Len(LV) : Value(a.bytes, LV[i]) = Value(Store(Zeros(L.size), LV[i], [n |-> FALSE, m |-> <<i>>]), LV[i])
V77 == [n |-> TRUE, m |-> <<77>>]
Access == (ms # <<>> /\ Len(ms) <= 2) =>
  \A i \in 1..Len(LV) : LET m0 == [j \in 1..L.size |-> 165]
                            m1 == Store(m0, LV[i], V77)
                        IN /\ \A j \in 1..Len(LV) : (j # i /\ ~kind.u) => Value(m1, LV[j]) = Value(m0, LV[j])
                           /\ Store(m1, LV[i], V77) = m1
                           /\ LV[i].t \in {"int", "char", "short", "llong"} => Value(m1, LV[i]) = Bytes(WrapTo(FromInt(-77), LV[i].w, TRUE), 8)
=============================================================================
