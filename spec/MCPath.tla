------------------------------ MODULE MCPath ------------------------------
(* The laws of the algebra, for every pair of paths of up to LA and LB        *)
(* characters (grown one character at a time).                                *)
EXTENDS Path, TLC
CONSTANTS LA, LB
VARIABLES a, b
Alphabet == {"/", ".", "x"}
Init == a = <<>> /\ b = <<>>
Next == \/ Len(a) < LA /\ b = <<>> /\ \E ch \in Alphabet : a' = Append(a, ch) /\ b' = b
        \/ Len(b) < LB /\ \E ch \in Alphabet : b' = Append(b, ch) /\ a' = a
Spec == Init /\ [][Next]_<<a, b>>
Idempotent == Normal(Normal(a)) = Normal(a)
Clean(p) == LET t == Texts(p) IN /\ \A k \in 1..Len(t) : t[k] = Dot => Len(t) = 1 /\ ~IsAbs(p)
                                 /\ \A k \in 1..Len(t) : t[k] = Back => ~IsAbs(p) /\ (k = 1 \/ t[k - 1] = Back)
                                 /\ Len(p) > 1 => Last(p) # Sep
                                 /\ \A i \in 1..(Len(p) - 1) : ~(p[i] = Sep /\ p[i + 1] = Sep)
NormalClean == Clean(Normal(a)) /\ Clean(Join(<<a, b>>)) /\ IsAbs(Normal(a)) = IsAbs(a)
BelowRoot == IsAbs(Absolute(a, b)) /\ Clean(Absolute(a, b))
\* dir, base and ext cut the path up
Parts == HasBase(a) => LET s == BaseSeg(a) IN /\ DirLen(a) = s.b
                                              /\ \A i \in (s.b + s.n + 1)..Len(a) : a[i] = Sep
                                              /\ HasExt(a) => ExtStart(a) + ExtLen(a) = s.b + s.n
\* the relative path leads from the base to the target
RoundTrip == IsAbs(a) = IsAbs(b) /\ HasRelative(a, b) /\ a # <<>> /\ b # <<>> =>
               Normal(Join(<<a, Relative(a, b)>>)) = Normal(b)
JoinNormal == a # <<>> => (Join(<<a, b>>) = Join(<<Normal(a), b>>) /\ (b # <<>> /\ ~IsAbs(b) => Join(<<a, b>>) = Join(<<a, Normal(b)>>)))
Common == IsAbs(a) = IsAbs(b) => LET n == Intersection(a, b) p == Normal(SubSeq(a, 1, n)) IN
             /\ n <= Len(a)
             /\ a = b /\ Normal(a) # Dot => Normal(p) = Normal(a)
ChangedBase == (HasBase(a) /\ Trim(b) # <<>> /\ (\A i \in 1..Len(Trim(b)) : Trim(b)[i] # Sep)) => Text(ChangeBase(a, b), BaseSeg(ChangeBase(a, b))) = Trim(b)
===========================================================================
