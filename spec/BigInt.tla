------------------------------- MODULE BigInt -------------------------------
(* Mathematical integers of any size: [n, m], n telling whether negative, m   *)
(* the magnitude as bytes, least significant first, without zeros at the top. *)
EXTENDS Integers, Sequences, SequencesExt

RECURSIVE Norm(_)
Norm(m) == IF m = <<>> \/ m[Len(m)] # 0 THEN m ELSE Norm(SubSeq(m, 1, Len(m) - 1))
Dig(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
Big(n, m) == [n |-> n /\ m # <<>>, m |-> m]
Zero == [n |-> FALSE, m |-> <<>>]
RECURSIVE NatMag(_)
NatMag(k) == IF k = 0 THEN <<>> ELSE <<k % 256>> \o NatMag(k \div 256)
FromInt(k) == IF k < 0 THEN Big(TRUE, NatMag(-k)) ELSE Big(FALSE, NatMag(k))
RECURSIVE MagNat(_)
MagNat(m) == IF m = <<>> THEN 0 ELSE m[1] + 256 * MagNat(Tail(m))   \* only for small ones
ToInt(a) == IF a.n THEN -MagNat(a.m) ELSE MagNat(a.m)
IsSmall(a) == Len(a.m) <= 3
MaxN(x, y) == IF x > y THEN x ELSE y

RECURSIVE AddC(_, _, _, _)
AddC(a, b, i, c) ==
  IF i > Len(a) /\ i > Len(b) THEN IF c = 0 THEN <<>> ELSE <<c>>
  ELSE LET s == Dig(a, i) + Dig(b, i) + c IN <<s % 256>> \o AddC(a, b, i + 1, s \div 256)
AddMag(a, b) == AddC(a, b, 1, 0)
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpFrom(a, b, i - 1)
CmpMag(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpFrom(a, b, Len(a))
RECURSIVE SubC(_, _, _, _)
SubC(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET s == a[i] - Dig(b, i) - c IN <<s % 256>> \o SubC(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
SubMag(a, b) == Norm(SubC(a, b, 1, 0))     \* a >= b
RECURSIVE MulD(_, _, _, _)
MulD(a, d, i, c) ==
  IF i > Len(a) THEN IF c = 0 THEN <<>> ELSE <<c>>
  ELSE LET s == a[i] * d + c IN <<s % 256>> \o MulD(a, d, i + 1, s \div 256)
RECURSIVE MulMag(_, _)
MulMag(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
                ELSE LET r == MulMag(a, Tail(b)) IN AddMag(Norm(MulD(a, b[1], 1, 0)), IF r = <<>> THEN <<>> ELSE <<0>> \o r)
\* the digit q with q*b <= r < (q+1)*b, by halving the range lo..hi
RECURSIVE QDigit(_, _, _, _)
QDigit(r, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET q == (lo + hi + 1) \div 2
       IN IF CmpMag(Norm(MulD(b, q, 1, 0)), r) <= 0 THEN QDigit(r, b, q, hi) ELSE QDigit(r, b, lo, q - 1)
RECURSIVE DivFrom(_, _, _, _)
DivFrom(a, b, i, s) ==
  IF i = 0 THEN s
  ELSE LET r == Norm(<<a[i]>> \o s.r)
           q == IF CmpMag(r, b) < 0 THEN 0 ELSE QDigit(r, b, 1, 255)
       IN DivFrom(a, b, i - 1, [q |-> <<q>> \o s.q, r |-> IF q = 0 THEN r ELSE SubMag(r, Norm(MulD(b, q, 1, 0)))])
DivMag(a, b) ==
  IF Len(a) <= 3 /\ Len(b) <= 3 THEN [q |-> NatMag(MagNat(a) \div MagNat(b)), r |-> NatMag(MagNat(a) % MagNat(b))]
  ELSE LET s == DivFrom(a, b, Len(a), [q |-> <<>>, r |-> <<>>]) IN [q |-> Norm(s.q), r |-> s.r]

Cmp(a, b) == IF a.n # b.n THEN (IF a.n THEN -1 ELSE 1) ELSE IF a.n THEN CmpMag(b.m, a.m) ELSE CmpMag(a.m, b.m)
Neg(a) == Big(~a.n, a.m)
Add(a, b) ==
  IF a.n = b.n THEN Big(a.n, AddMag(a.m, b.m))
  ELSE IF CmpMag(a.m, b.m) >= 0 THEN Big(a.n, SubMag(a.m, b.m)) ELSE Big(b.n, SubMag(b.m, a.m))
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == Big(a.n # b.n, MulMag(a.m, b.m))
\* C division: towards zero, the remainder has the sign of the dividend
Quot(a, b) == Big(a.n # b.n, DivMag(a.m, b.m).q)
Rest(a, b) == Big(a.n, DivMag(a.m, b.m).r)

RECURSIVE TwoTo(_)
TwoTo(k) == IF k = 0 THEN 1 ELSE 2 * TwoTo(k - 1)
Pow2(k) == Big(FALSE, [i \in 1..(k \div 8) |-> 0] \o <<TwoTo(k % 8)>>)
\* the low w bits of the two's complement form, as a number
LowMag(m, w) ==
  LET full == w \div 8
      part == w % 8
      cut == SubSeq(m, 1, IF Len(m) < full THEN Len(m) ELSE full)
  IN IF part = 0 \/ Len(m) <= full THEN Norm(cut) ELSE Norm(cut \o <<m[full + 1] % TwoTo(part)>>)
Low(a, w) ==
  LET l == LowMag(a.m, w) IN IF ~a.n \/ l = <<>> THEN Big(FALSE, l) ELSE Big(FALSE, SubMag(Pow2(w).m, l))
Bit(m, i) == (Dig(m, i \div 8 + 1) \div TwoTo(i % 8)) % 2     \* bit i of a magnitude
\* the value of type (w bits, signed or not) congruent to a
WrapTo(a, w, sgn) ==
  LET l == Low(a, w) IN IF sgn /\ Bit(l.m, w - 1) = 1 THEN Sub(l, Pow2(w)) ELSE l
Fits(a, w, sgn) == WrapTo(a, w, sgn) = a
Bytes(a, n) == LET l == Low(a, 8 * n) IN [i \in 1..n |-> Dig(l.m, i)]
FromBytes(b) == Big(FALSE, Norm(b))
\* floor of a / 2^k
ShiftDown(a, k) ==
  LET f == [q |-> Quot(a, Pow2(k)), r |-> Rest(a, Pow2(k))]
  IN IF a.n /\ f.r # Zero THEN Sub(f.q, FromInt(1)) ELSE f.q
=============================================================================
