------------------------------- MODULE MCInt --------------------------------
(* The specification of integer arithmetic against TLC's own integers on      *)
(* small operands, and against the laws of arithmetic on large ones.          *)
EXTENDS CInt, TLC
CONSTANTS Small, Large
VARIABLES a, b, done
Corners == {Pow2(k) : k \in Large} \cup {Sub(Pow2(k), FromInt(1)) : k \in Large} \cup {Add(Pow2(k), FromInt(77)) : k \in Large}
Vals == UNION {{x, Neg(x)} : x \in {FromInt(k) : k \in Small} \cup Corners}
Init == a \in Vals /\ b = Zero /\ done = FALSE
Next == ~done /\ done' = TRUE /\ b' \in Vals /\ UNCHANGED a
Spec == Init /\ [][Next]_<<a, b, done>>
Sm(x) == Len(x.m) <= 1
Native == (done /\ Sm(a) /\ Sm(b)) =>
  LET x == ToInt(a)
      y == ToInt(b)
  IN /\ ToInt(Add(a, b)) = x + y /\ ToInt(Sub(a, b)) = x - y /\ ToInt(Mul(a, b)) = x * y
     /\ (Cmp(a, b) < 0) = (x < y) /\ (Cmp(a, b) = 0) = (x = y)
     /\ \A w \in {1, 5, 8, 13} : ToInt(Low(a, w)) = x % TwoTo(w)
     /\ \A k \in {0, 1, 3, 9} : ToInt(ShiftDown(a, k)) = x \div TwoTo(k)
Canon(x) == (x.m = <<>> \/ x.m[Len(x.m)] # 0) /\ (x.m = <<>> => ~x.n)
Laws == done =>
  /\ \A x \in {Add(a, b), Sub(a, b), Mul(a, b), Low(a, 64), WrapTo(a, 32, TRUE)} : Canon(x)
  /\ Sub(Add(a, b), b) = a /\ Add(a, b) = Add(b, a) /\ Mul(a, b) = Mul(b, a)
  /\ Mul(a, Add(b, FromInt(1))) = Add(Mul(a, b), a)
  /\ b # Zero => (/\ Add(Mul(Quot(a, b), b), Rest(a, b)) = a /\ CmpMag(Rest(a, b).m, b.m) < 0 /\ (Rest(a, b) = Zero \/ Rest(a, b).n = a.n))
Wraps == (done /\ b = Zero) => \A w \in {1, 7, 8, 16, 31, 32, 33, 64} : \A s \in BOOLEAN :
  LET v == WrapTo(a, w, s)
  IN /\ Low(v, w) = Low(a, w) /\ (s => Cmp(v, Pow2(w - 1)) < 0 /\ Cmp(v, Neg(Pow2(w - 1))) >= 0) /\ (~s => ~v.n /\ Cmp(v, Pow2(w)) < 0)
Signed == {"int", "long", "llong"}
\* unsigned arithmetic is a ring; comparison is total; types of results do not depend on order
Ring == done => \A t \in {"uint", "ulong", "ullong"} :
  LET x == Conv(a, t, 0)
      y == Conv(b, t, 0)
      Bi(op, p, q) == Binary(op, p, t, q, t).v
  IN /\ Bi("-", Bi("+", x, y), y) = x
     /\ Bi("^", Bi("^", x, y), y) = x
     /\ Bi("+", Bi("&", x, y), Bi("|", x, y)) = Bi("+", x, y)
     /\ y # Zero => Bi("+", Bi("*", Bi("/", x, y), y), Bi("%", x, y)) = x
Promoted == {"int", "uint", "long", "ulong", "llong", "ullong"}
Comm == (~done /\ a = Zero) => \A s, t \in Promoted : Common(s, t) = Common(t, s) /\ Width[Common(s, t)] >= Width[s] /\ \A u \in Promoted : Common(Common(s, t), u) = Common(s, Common(t, u))
=============================================================================
