------------------------------ MODULE MCFloat -------------------------------
(* A format of P bits: every pair of values, the operations against integer   *)
(* arithmetic on multiples of its smallest value; conversions and encodings.  *)
EXTENDS Float, TLC
CONSTANTS P, EM
VARIABLES a, b, ph
F == [p |-> P, emin |-> 0 - EM, emax |-> EM]
Q == 0 - EM - P + 1           \* exponent of the smallest value
RECURSIVE Up(_, _)
Up(k, n) == IF n = 0 THEN k ELSE 2 * Up(k, n - 1)
\* all finite values: multiples i of 2^Q with at most P bits
Finite == {i \in 0..(Up(1, 2 * EM + P) - 1) : LowZero(NatMag(i), IF BitLen(NatMag(i)) > P THEN BitLen(NatMag(i)) - P ELSE 0)}
V(i, n) == Num(n, NatMag(i), Q)
Vals == {V(i, n) : i \in Finite, n \in BOOLEAN} \cup {NaN, Inf(TRUE), Inf(FALSE)}
Init == a \in Vals /\ b = NaN /\ ph = 0
Next == ph = 0 /\ ph' = 1 /\ a' = a /\ b' \in Vals
Spec == Init /\ [][Next]_<<a, b, ph>>
Int0(v) == (IF v.n THEN -1 ELSE 1) * ToInt(Big(FALSE, IF v.m = <<>> THEN <<>> ELSE ShlMag(v.m, v.x - Q)))     \* in units of 2^Q
Fin(v) == v.c = "num"
Sgn0(k) == IF k < 0 THEN -1 ELSE IF k = 0 THEN 0 ELSE 1
Abs1(x) == IF x < 0 THEN -x ELSE x
InF(v) == v.c # "num" \/ IsZero(v) \/ LET r == Rnd(F, v.n, v.m, v.x, FALSE) IN r.lo = r.hi /\ FCmp(r.lo, v) = 0
\* r encloses the number num / den * 2^Q and nothing of the format is between its ends
Encloses(r, num, den) ==
  LET lo == IF Fin(r.lo) THEN Abs1(Int0(r.lo)) ELSE -1
      hi == IF Fin(r.hi) THEN Abs1(Int0(r.hi)) ELSE Up(1, 2 * EM + P)
      n == Abs1(num)
      d == Abs1(den)
  IN /\ lo >= 0 /\ lo * d <= n /\ (IF Fin(r.hi) THEN n <= hi * d ELSE TRUE)
     /\ (r.lo = r.hi <=> lo * d = n)
     /\ (r.lo # r.hi => \A i \in Finite : ~(i > lo /\ i < hi))
     /\ (n # 0 => r.lo.n = (Sgn0(num) * Sgn0(den) < 0))
Ops == ph = 1 /\ Fin(a) /\ Fin(b) =>
  LET x == Int0(a)
      y == Int0(b)
      s == FAdd(F, a, b)
      d == FAdd(F, a, FNeg(b))
      m == FMul(F, a, b)
      q == FDiv(F, a, b)
  IN /\ Encloses(s, x + y, 1) /\ Encloses(d, x - y, 1)
     /\ Encloses(m, x * y, Up(1, -Q))
     /\ (y # 0 => Encloses(q, x * Up(1, -Q), y))
     /\ (x + y = 0 => IsZero(s.lo) /\ s.lo.n = (a.n /\ b.n /\ x = 0))
     /\ FCmp(a, b) = Sgn0(x - y)
     /\ (\A r \in {s, d, m} : InF(r.lo) /\ InF(r.hi))
     /\ (y # 0 => InF(q.lo) /\ InF(q.hi))
     /\ (2 * Abs1(x) >= Abs1(y) /\ Abs1(x) <= 2 * Abs1(y) /\ a.n = b.n => d.lo = d.hi)        \* Sterbenz
Specials == ph = 1 =>
  /\ \A op \in {"+", "-", "*", "/"} : LET r == FOp(F, op, a, b) IN (a.c = "nan" \/ b.c = "nan" => r.lo = NaN)
  /\ \A op \in {"+", "*"} : FOp(F, op, a, b) = FOp(F, op, b, a)
  /\ (a.c = "nan" \/ b.c = "nan") = (FCmp(a, b) = 2)
  /\ (FCmp(a, b) # 2 => FCmp(b, a) = -FCmp(a, b) /\ FCmp(FNeg(a), FNeg(b)) = -FCmp(a, b))
  /\ \A op \in {"<", ">", "<=", ">="} : (a.c = "nan" => ~Rel(op, FCmp(a, b)))
  /\ (a.c # "nan" /\ ~IsZero(a) => FMul(F, Inf(FALSE), a).lo = Inf(a.n))
  /\ Rel("==", FCmp(a, b)) = ~Rel("!=", FCmp(a, b))
\* encodings of the real formats, integers
Codes == ph = 1 =>
  /\ \A t \in {"float", "double"} : (a.c # "nan" => Decode(t, Encode(t, a)) = (IF Fin(a) /\ ~IsZero(a) THEN Decode(t, Encode(t, Rnd(Fmt[t], a.n, a.m, a.x, FALSE).lo)) ELSE a)
                                                   /\ FCmp(Decode(t, Encode(t, a)), a) = 0 /\ Decode(t, Encode(t, a)).n = a.n)
  /\ (Fin(a) => LET i == Trunc(a) IN ConvF(ConvF(i, "llong", "double").lo, "double", "llong").lo = i
                                     /\ CmpMag(i.m, a.m) <= 0)
=============================================================================
