-------------------------------- MODULE MCAbi --------------------------------
(* Laws of argument passing, for all short sequences of arguments over an     *)
(* alphabet of types.                                                         *)
EXTENDS Abi, TLC
CONSTANTS Most, Rich
VARIABLES ts, ret, left
S(t) == [k |-> "s", t |-> t]
M(n, ty) == [n |-> n, ty |-> ty, w |-> -1, al |-> 0, pk |-> FALSE]
Rec(u, p, m) == [k |-> "r", u |-> u, packed |-> p, al |-> 0, pack |-> 0, ms |-> m]
R1(a) == Rec(FALSE, FALSE, <<M("a", S(a))>>)
R2(a, b) == Rec(FALSE, FALSE, <<M("a", S(a)), M("b", S(b))>>)
R3(a, b, c) == Rec(FALSE, FALSE, <<M("a", S(a)), M("b", S(b)), M("c", S(c))>>)
Basic == {S("char"), S("long"), S("double"), S("ldouble"), R2("long", "long"), R2("double", "long"), R3("long", "long", "char"), R2("double", "float")}
More == {S("float"), S("ptr"), R1("ldouble"), R1("float"), R2("float", "float"), R3("float", "float", "int"), Rec(FALSE, TRUE, <<M("a", S("char")), M("b", S("int"))>>),
         Rec(TRUE, FALSE, <<M("a", S("double")), M("b", S("int"))>>), Rec(TRUE, FALSE, <<M("a", S("ldouble")), M("b", S("long"))>>),
         Rec(FALSE, FALSE, <<M("a", [k |-> "a", n |-> 3, of |-> S("short")]), M("b", S("float"))>>)}
Alphabet == IF Rich THEN Basic \cup More ELSE Basic
Many(t, n) == [i \in 1..n |-> S(t)]
Starts == {<<>>, Many("long", 4), Many("double", 7) \o Many("int", 5)}
Init == ts \in Starts /\ left = Most /\ ret \in {Void, S("long"), R3("long", "long", "char")}
Next == left > 0 /\ left' = left - 1 /\ UNCHANGED ret /\ \E t \in Alphabet : ts' = Append(ts, t)
Spec == Init /\ [][Next]_<<ts, ret, left>>
Ret == IF ret.k = "v" THEN Void ELSE Lay(ret)
Ls == [i \in 1..Len(ts) |-> Lay(ts[i])]
Slots(at, ls, a) == UNION {IF at[a][p].w = "st" THEN {<<"st", o>> : o \in at[a][p].i..(at[a][p].i + ls[a].size - 1)} ELSE {<<at[a][p].w, at[a][p].i>>} : p \in 1..Len(at[a])}
\* arguments do not share places; registers are used from the first one on, without gaps; an argument is in registers or in memory as a whole;
\* memory is aligned; arguments that follow do not move earlier ones
Laws ==
  LET ls == Ls
      p == PlaceAll(ls, 1, Start(Ret))
      sl == [a \in 1..Len(ts) |-> Slots(p.at, ls, a)]
      all == UNION {sl[a] : a \in 1..Len(ts)}
      g == {s[2] : s \in {x \in all : x[1] = "gp"}}
      v == {s[2] : s \in {x \in all : x[1] = "sse"}}
      w == [a \in 1..Len(ts) |-> {x[1] : x \in sl[a]}]
  IN /\ \A a, b \in 1..Len(ts) : a < b => sl[a] \cap sl[b] = {}
     /\ g = Start(Ret).gp..(p.s.gp - 1) /\ v = 0..(p.s.sse - 1) /\ p.s.gp <= 6 /\ p.s.sse <= 8
     /\ \A a \in 1..Len(ts) : /\ w[a] # {} /\ ("st" \in w[a] => w[a] = {"st"}) /\ (ls[a].size > 16 => w[a] = {"st"})
                              /\ \A q \in 1..Len(p.at[a]) : p.at[a][q].w = "st" => p.at[a][q].i % Mx(8, ls[a].align) = 0
     /\ ts # <<>> => PlaceAll(SubSeq(ls, 1, Len(ts) - 1), 1, Start(Ret)).at = SubSeq(p.at, 1, Len(ts) - 1)
\* every bit of the arguments is somewhere
Complete ==
  LET ls == Ls
      at == PlaceAll(ls, 1, Start(Ret)).at
      b == [a \in 1..Len(ts) |-> [j \in 1..ls[a].size |-> ((7 * j + 31 * a) % 250) + 1]]
      im == Args([args |-> [a \in 1..Len(ts) |-> [ty |-> ts[a], b |-> b[a]]], ret |-> [ty |-> ret, b |-> <<>>]])
      img == [gp |-> im.gp, sse |-> im.sse, st |-> im.st]
  IN \A a \in 1..Len(ts) : \A j \in 1..ls[a].size : im.masks[a][j] # 0 =>
       \E p \in 1..Len(at[a]) : LET q == at[a][p]
                                     x == j - q.from + (IF q.w = "st" THEN q.i ELSE q.i * 8)
                                 IN j > q.from /\ (q.w = "st" \/ j <= q.from + 8) /\ img[q.w][x] = b[a][j]
=============================================================================
