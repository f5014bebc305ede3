-------------------------------- MODULE Path --------------------------------
(* The algebra of Unix paths: a path is a sequence of one-character strings.  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Sep == "/"
IsAbs(p) == p # <<>> /\ p[1] = Sep
RootLen(p) == IF IsAbs(p) THEN 1 ELSE 0
Root(p) == SubSeq(p, 1, RootLen(p))
\* segments as [b, n]: characters b+1 .. b+n
Starts(p) == {i \in 1..Len(p) : p[i] # Sep /\ (i = 1 \/ p[i - 1] = Sep)}
EndOf(p, i) == CHOOSE j \in i..Len(p) : (j = Len(p) \/ p[j + 1] = Sep) /\ \A k \in i..j : p[k] # Sep
Segs(p) == LET st == SetToSortSeq(Starts(p), LAMBDA a, b : a < b)
           IN [k \in 1..Len(st) |-> [b |-> st[k] - 1, n |-> EndOf(p, st[k]) - st[k] + 1]]
Text(p, s) == SubSeq(p, s.b + 1, s.b + s.n)
Texts(p) == LET s == Segs(p) IN [k \in 1..Len(s) |-> Text(p, s[k])]
Dot == <<".">>
Back == <<".", ".">>
Kind(t) == CASE t = Dot -> 1 [] t = Back -> 2 [] OTHER -> 0

\* the segments that remain when . and .. are resolved: indexes into t
Resolve(t, abs) ==
  LET Acc(st, k) == CASE t[k] = Dot -> st
                      [] t[k] = Back -> IF st # <<>> /\ t[Last(st)] # Back THEN Front(st) ELSE IF abs THEN st ELSE Append(st, k)
                      [] OTHER -> Append(st, k)
  IN FoldLeft(Acc, <<>>, [k \in 1..Len(t) |-> k])
Visible(t, abs) == LET r == Resolve(t, abs) IN [k \in 1..Len(r) |-> t[r[k]]]
Glue(ts) == FoldLeft(LAMBDA acc, t : IF acc = <<>> THEN t ELSE acc \o <<Sep>> \o t, <<>>, ts)
Build(root, t, abs) == LET v == Visible(t, abs) IN IF v = <<>> /\ root = <<>> /\ t # <<>> THEN Dot ELSE root \o Glue(v)
AllTexts(ps) == FoldLeft(LAMBDA acc, p : acc \o Texts(p), <<>>, ps)
Join(ps) == Build(Root(ps[1]), AllTexts(ps), IsAbs(ps[1]))
Normal(p) == Join(<<p>>)
Absolute(base, p) == IF IsAbs(p) THEN Normal(p) ELSE Join(<<<<Sep>>, base, p>>)

CommonLen(a, b) == LET ks == {k \in 0..(IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)) : \A i \in 1..k : a[i] = b[i]}
                   IN CHOOSE k \in ks : \A j \in ks : j <= k
\* ".." left over in the base cannot be undone lexically: then there is no relative path
HasRelative(base, p) ==
  IsAbs(base) = IsAbs(p) => LET a == Visible(Texts(base), IsAbs(base)) b == Visible(Texts(p), IsAbs(p)) k == CommonLen(a, b)
                            IN \A i \in (k + 1)..Len(a) : a[i] # Back
Relative(base, p) ==
  IF IsAbs(base) # IsAbs(p) THEN <<>>
  ELSE LET a == Visible(Texts(base), IsAbs(base)) b == Visible(Texts(p), IsAbs(p)) k == CommonLen(a, b)
           ts == [i \in 1..(Len(a) - k) |-> Back] \o SubSeq(b, k + 1, Len(b))
       IN IF ts = <<>> THEN Dot ELSE Glue(ts)
Intersection(base, p) ==
  IF IsAbs(base) # IsAbs(p) THEN 0
  ELSE LET ta == Texts(base) ra == Resolve(ta, IsAbs(base)) a == [i \in 1..Len(ra) |-> ta[ra[i]]] b == Visible(Texts(p), IsAbs(p)) k == CommonLen(a, b)
           s == Segs(base)
       IN IF k = 0 THEN RootLen(base) ELSE s[ra[k]].b + s[ra[k]].n

HasBase(p) == Starts(p) # {}
BaseSeg(p) == Last(Segs(p))
DirLen(p) == IF HasBase(p) THEN BaseSeg(p).b ELSE 0
Dots(p) == {i \in (BaseSeg(p).b + 1)..(BaseSeg(p).b + BaseSeg(p).n) : p[i] = "."}
HasExt(p) == HasBase(p) /\ Dots(p) # {}
ExtStart(p) == (CHOOSE i \in Dots(p) : \A j \in Dots(p) : j <= i) - 1
ExtLen(p) == BaseSeg(p).b + BaseSeg(p).n - ExtStart(p)
Trim(v) == LET ks == {i \in 1..Len(v) : v[i] # Sep} IN IF ks = {} THEN <<>> ELSE SubSeq(v, CHOOSE i \in ks : \A j \in ks : i <= j, CHOOSE i \in ks : \A j \in ks : j <= i)
ChangeSeg(p, s, v) == SubSeq(p, 1, s.b) \o Trim(v) \o SubSeq(p, s.b + s.n + 1, Len(p))
ChangeBase(p, v) == IF HasBase(p) THEN ChangeSeg(p, BaseSeg(p), v) ELSE Root(p) \o Trim(v)
ChangeRoot(p, r) == r \o SubSeq(p, RootLen(p) + 1, Len(p))
Undot(e) == IF e # <<>> /\ e[1] = "." THEN Tail(e) ELSE e
ChangeExt(p, e) ==
  IF ~HasBase(p) THEN Root(p) \o Dot \o Undot(e)
  ELSE LET end == BaseSeg(p).b + BaseSeg(p).n cut == IF HasExt(p) THEN ExtStart(p) ELSE end
       IN SubSeq(p, 1, cut) \o Dot \o Undot(e) \o SubSeq(p, end + 1, Len(p))
\* what a buffer of n bytes gets to see of a result
Cut(r, n) == SubSeq(r, 1, IF Len(r) < n THEN Len(r) ELSE n - 1)

Str(p) == FoldLeft(LAMBDA t, ch : t \o ch, "", p)
Unary(p) == [norm |-> Str(Normal(p)), root |-> RootLen(p), dir |-> DirLen(p),
             base |-> IF HasBase(p) THEN <<BaseSeg(p).b, BaseSeg(p).n>> ELSE <<-1, 0>>,
             ext |-> IF HasExt(p) THEN <<ExtStart(p), ExtLen(p)>> ELSE <<-1, 0>>,
             segs |-> LET s == Segs(p) IN [k \in 1..Len(s) |-> <<s[k].b, s[k].n, Kind(Text(p, s[k]))>>]]
Binary(c) == LET a == c.a b == c.b
             IN [join |-> Str(Join(<<a, b>>)), abs |-> Str(Absolute(a, b)), hasrel |-> HasRelative(a, b), rel |-> Str(Relative(a, b)),
                 inter |-> Intersection(a, b), croot |-> Str(ChangeRoot(a, b)), cbase |-> Str(ChangeBase(a, b)), cext |-> Str(ChangeExt(a, b)),
                 cseg |-> LET s == Segs(a) IN [k \in 1..Len(s) |-> Str(ChangeSeg(a, s[k], b))], multi |-> Str(Join(<<a, b, a, b>>))]
=============================================================================
