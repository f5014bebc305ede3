------------------------------- MODULE Float --------------------------------
(* IEEE 754 binary formats and C expressions over them and the integers.      *)
(* A value is [c "nan"], [c "inf", n sign] or [c "num", n sign, m magnitude,  *)
(* x exponent] for m * 2^x. Results that are not representable are known as   *)
(* the two neighbours lo and hi.                                              *)
EXTENDS Lex

Fmt == [float |-> [p |-> 24, emin |-> -126, emax |-> 127], double |-> [p |-> 53, emin |-> -1022, emax |-> 1023], ldouble |-> [p |-> 64, emin |-> -16382, emax |-> 16383]]
FRank == [float |-> 1, double |-> 2, ldouble |-> 3]
IsF(t) == t \in {"float", "double", "ldouble"}
NaN == [c |-> "nan"]
Inf(n) == [c |-> "inf", n |-> n]
Num(n, m, x) == IF m = <<>> THEN [c |-> "num", n |-> n, m |-> m, x |-> 0] ELSE [c |-> "num", n |-> n, m |-> m, x |-> x]
RECURSIVE Log2(_)
Log2(k) == IF k <= 1 THEN 0 ELSE 1 + Log2(k \div 2)
BitLen(m) == IF m = <<>> THEN 0 ELSE 8 * (Len(m) - 1) + Log2(m[Len(m)]) + 1
ShlMag(m, k) == IF m = <<>> THEN <<>> ELSE [i \in 1..(k \div 8) |-> 0] \o (IF k % 8 = 0 THEN m ELSE Norm(MulD(m, TwoTo(k % 8), 1, 0)))
ShrMag(m, k) ==      \* rounded down
  LET d == SubSeq(m, k \div 8 + 1, Len(m))
  IN IF k \div 8 >= Len(m) THEN <<>> ELSE IF k % 8 = 0 THEN d
     ELSE LET u == MulD(d, TwoTo(8 - (k % 8)), 1, 0) IN Norm(SubSeq(u, 2, Len(u)))
LowZero(m, k) ==     \* the k lowest bits are 0
  (\A i \in 1..(IF k \div 8 < Len(m) THEN k \div 8 ELSE Len(m)) : m[i] = 0) /\ (k \div 8 >= Len(m) \/ m[k \div 8 + 1] % TwoTo(k % 8) = 0)
\* [lo, hi]: the value (a little more if more) in format f, rounded towards 0 and away from it
\* where there is more, m has at least p + 1 bits
Rnd(f, n, m, x, more) ==
  IF m = <<>> THEN [lo |-> Num(n, <<>>, 0), hi |-> Num(n, <<>>, 0)]
  ELSE LET e0 == x + BitLen(m) - 1
           e == IF e0 < f.emin THEN f.emin ELSE e0
           q == e - f.p + 1
           d == q - x
           lm == IF d <= 0 THEN m ELSE ShrMag(m, d)
           ex == d <= 0 \/ (LowZero(m, d) /\ ~more)
           lx == IF d <= 0 THEN x ELSE q
           hm == AddMag(lm, <<1>>)
           top == [c |-> "num", n |-> n, m |-> SubMag(Pow2(f.p).m, <<1>>), x |-> f.emax - f.p + 1]
       IN IF e0 > f.emax THEN [lo |-> top, hi |-> Inf(n)]
          ELSE IF ex THEN [lo |-> Num(n, lm, lx), hi |-> Num(n, lm, lx)]
          ELSE [lo |-> Num(n, lm, lx), hi |-> IF lx + BitLen(hm) - 1 > f.emax THEN Inf(n) ELSE Num(n, hm, lx)]
Exact(v) == [lo |-> v, hi |-> v]
IsNum(v) == v.c = "num"
IsZero(v) == v.c = "num" /\ v.m = <<>>
FNeg(v) == IF v.c = "nan" THEN v ELSE [v EXCEPT !.n = ~v.n]
\* comparison: -1 0 1, 2 if one is not a number
CmpPos(a, b) ==
  IF a.m = <<>> \/ b.m = <<>> THEN (IF a.m = b.m THEN 0 ELSE IF a.m = <<>> THEN -1 ELSE 1)
  ELSE LET la == a.x + BitLen(a.m)
           lb == b.x + BitLen(b.m)
       IN IF la # lb THEN (IF la < lb THEN -1 ELSE 1)
          ELSE IF a.x >= b.x THEN CmpMag(ShlMag(a.m, a.x - b.x), b.m) ELSE CmpMag(a.m, ShlMag(b.m, b.x - a.x))
FCmp(a, b) ==
  IF a.c = "nan" \/ b.c = "nan" THEN 2
  ELSE IF IsZero(a) /\ IsZero(b) THEN 0
  ELSE LET big(v) == IF v.c = "inf" THEN 1 ELSE 0
           pos == IF a.c = "inf" \/ b.c = "inf" THEN big(a) - big(b) ELSE CmpPos(a, b)
       IN IF IsZero(a) THEN (IF b.n THEN 1 ELSE -1)
          ELSE IF IsZero(b) THEN (IF a.n THEN -1 ELSE 1)
          ELSE IF a.n # b.n THEN (IF a.n THEN -1 ELSE 1)
          ELSE IF a.n THEN -pos ELSE pos
Rel(op, c) == CASE op = "==" -> c = 0 [] op = "!=" -> c # 0 [] c = 2 -> FALSE [] OTHER -> Compare(op, c)
FAddNum(f, a, b) ==
  IF IsZero(a) /\ IsZero(b) THEN Exact(Num(a.n /\ b.n, <<>>, 0))
  ELSE IF IsZero(a) THEN Rnd(f, b.n, b.m, b.x, FALSE)
  ELSE IF IsZero(b) THEN Rnd(f, a.n, a.m, a.x, FALSE)
  ELSE LET hi == IF a.x + BitLen(a.m) >= b.x + BitLen(b.m) THEN a ELSE b
           lo == IF hi = a THEN b ELSE a
           far == (hi.x + BitLen(hi.m)) - (lo.x + BitLen(lo.m)) > 2 * f.p + 80
           \* far apart: all that matters of the smaller one is its sign
           k == 2 * f.p
           l == IF far THEN [lo EXCEPT !.m = <<1>>, !.x = hi.x - k] ELSE lo
           x == IF hi.x < l.x THEN hi.x ELSE l.x
           s == Add(Big(hi.n, ShlMag(hi.m, hi.x - x)), Big(l.n, ShlMag(l.m, l.x - x)))
       IN IF s = Zero THEN Exact(Num(FALSE, <<>>, 0)) ELSE Rnd(f, s.n, s.m, x, FALSE)
FAdd(f, a, b) ==
  IF a.c = "nan" \/ b.c = "nan" THEN Exact(NaN)
  ELSE IF a.c = "inf" THEN (IF b.c = "inf" /\ a.n # b.n THEN Exact(NaN) ELSE Exact(a))
  ELSE IF b.c = "inf" THEN Exact(b) ELSE FAddNum(f, a, b)
FMul(f, a, b) ==
  LET n == a.n # b.n
  IN IF a.c = "nan" \/ b.c = "nan" THEN Exact(NaN)
     ELSE IF a.c = "inf" \/ b.c = "inf" THEN (IF IsZero(a) \/ IsZero(b) THEN Exact(NaN) ELSE Exact(Inf(n)))
     ELSE IF IsZero(a) \/ IsZero(b) THEN Exact(Num(n, <<>>, 0)) ELSE Rnd(f, n, MulMag(a.m, b.m), a.x + b.x, FALSE)
\* quotient of magnitudes with p + 2 bits and more
Ratio(f, n, am, bm, x) ==
  LET k0 == f.p + 2 + BitLen(bm) - BitLen(am)
      k == IF k0 < 0 THEN 0 ELSE k0
      d == DivMag(ShlMag(am, k), bm)
  IN Rnd(f, n, d.q, x - k, d.r # <<>>)
FDiv(f, a, b) ==
  LET n == a.n # b.n
  IN IF a.c = "nan" \/ b.c = "nan" THEN Exact(NaN)
     ELSE IF a.c = "inf" THEN (IF b.c = "inf" THEN Exact(NaN) ELSE Exact(Inf(n)))
     ELSE IF b.c = "inf" THEN Exact(Num(n, <<>>, 0))
     ELSE IF IsZero(b) THEN (IF IsZero(a) THEN Exact(NaN) ELSE Exact(Inf(n)))
     ELSE IF IsZero(a) THEN Exact(Num(n, <<>>, 0)) ELSE Ratio(f, n, a.m, b.m, a.x - b.x)
FOp(f, op, a, b) == CASE op = "+" -> FAdd(f, a, b) [] op = "-" -> FAdd(f, a, FNeg(b)) [] op = "*" -> FMul(f, a, b) [] OTHER -> FDiv(f, a, b)
Trunc(v) == IF v.m = <<>> THEN Zero ELSE IF v.x >= 0 THEN Big(v.n, ShlMag(v.m, v.x)) ELSE Big(v.n, ShrMag(v.m, -v.x))
Pad(m, n) == [i \in 1..n |-> Dig(m, i)]
\* the object representation, least significant byte first; a NaN is <<>>
Encode(t, v) ==
  LET f == Fmt[t]
      n == CASE t = "float" -> 4 [] t = "double" -> 8 [] OTHER -> 10
      eb == CASE t = "float" -> 8 [] t = "double" -> 11 [] OTHER -> 15
      fb == IF t = "ldouble" THEN 64 ELSE f.p - 1       \* bits below the exponent
      sign == IF v.n THEN Pow2(fb + eb).m ELSE <<>>
  IN IF v.c = "nan" THEN <<>>
     ELSE IF v.c = "inf" THEN Pad(AddMag(sign, AddMag(ShlMag(SubMag(Pow2(eb).m, <<1>>), fb), IF t = "ldouble" THEN Pow2(63).m ELSE <<>>)), n)
     ELSE IF v.m = <<>> THEN Pad(sign, n)
     ELSE LET e0 == v.x + BitLen(v.m) - 1
              e == IF e0 < f.emin THEN f.emin ELSE e0
              q == e - f.p + 1
              u == IF v.x >= q THEN ShlMag(v.m, v.x - q) ELSE ShrMag(v.m, q - v.x)      \* in units of the last place
              full == BitLen(u) = f.p
              frac == IF t = "ldouble" \/ ~full THEN u ELSE SubMag(u, Pow2(f.p - 1).m)
              ex == IF full THEN e + f.emax ELSE 0
          IN Pad(AddMag(sign, AddMag(ShlMag(NatMag(ex), fb), frac)), n)
Decode(t, b) ==      \* of double and float
  LET f == Fmt[t]
      eb == IF t = "float" THEN 8 ELSE 11
      m == Norm(b)
      n == Bit(b, f.p - 1 + eb) = 1
      ex == MagNat(LowMag(ShrMag(m, f.p - 1), eb))
      fr == LowMag(m, f.p - 1)
  IN IF ex = TwoTo(eb) - 1 THEN (IF fr = <<>> THEN Inf(n) ELSE NaN)
     ELSE IF ex = 0 THEN Num(n, fr, f.emin - f.p + 1)
     ELSE Num(n, AddMag(fr, Pow2(f.p - 1).m), ex - f.emax - f.p + 1)
\* a floating constant: m * b^x
RECURSIVE TenTo(_)
TenTo(k) == IF k = 0 THEN <<1>> ELSE IF k % 2 = 1 THEN Norm(MulD(TenTo(k - 1), 10, 1, 0)) ELSE LET h == TenTo(k \div 2) IN MulMag(h, h)
Const(c) ==
  LET f == Fmt[c.t]
  IN IF c.m = Zero THEN Exact(Num(FALSE, <<>>, 0))
     ELSE IF c.b = 2 THEN (IF c.x < -20000 \/ c.x > 20000 THEN Exact(NaN) ELSE Rnd(f, FALSE, c.m.m, c.x, FALSE))
     ELSE IF c.x >= 0 THEN Rnd(f, FALSE, MulMag(c.m.m, TenTo(c.x)), 0, FALSE)
     ELSE Ratio(f, FALSE, c.m.m, TenTo(-c.x), 0)

(* ---- conversions and expressions *)
CommonF(a, b) == IF IsF(a) \/ IsF(b) THEN (IF ~IsF(a) THEN b ELSE IF ~IsF(b) THEN a ELSE IF FRank[a] >= FRank[b] THEN a ELSE b) ELSE Common(Promote(a, 0), Promote(b, 0))
Pair(lo, hi) == [lo |-> lo, hi |-> hi, ub |-> FALSE]
Undef == [lo |-> Zero, hi |-> Zero, ub |-> TRUE]
ConvF(v, from, to) ==
  IF ~IsF(from) THEN
     (IF ~IsF(to) THEN Pair(Conv(v, to, 0), Conv(v, to, 0)) ELSE LET r == Rnd(Fmt[to], v.n, v.m, 0, FALSE) IN Pair(r.lo, r.hi))
  ELSE IF IsF(to) THEN
     (IF v.c # "num" THEN Pair(v, v) ELSE LET r == Rnd(Fmt[to], v.n, v.m, v.x, FALSE) IN Pair(r.lo, r.hi))
  ELSE IF to = "bool" THEN Pair(BoolInt(~IsZero(v)), BoolInt(~IsZero(v)))
  ELSE IF v.c # "num" \/ v.x > 70 THEN Undef
  ELSE LET i == Trunc(v) IN IF InType(i, to) THEN Pair(i, i) ELSE Undef
True0(v, t) == IF IsF(t) THEN ~IsZero(v) ELSE v # Zero
RECURSIVE FTypeOf(_, _)
FTypeOf(e, vars) ==
  CASE e.k = "lit" -> e.t
    [] e.k = "flit" -> FloatConst(e.s).t
    [] e.k \in {"var", "asg", "opasg", "pre", "post"} -> vars[e.i].t
    [] e.k = "un" -> IF e.op = "!" THEN "int" ELSE LET a == FTypeOf(e.a, vars) IN IF IsF(a) THEN a ELSE Promote(a, 0)
    [] e.k = "bin" -> IF e.op \in {"<", ">", "<=", ">=", "==", "!="} THEN "int"
                          ELSE IF e.op \in {"<<", ">>"} THEN Promote(FTypeOf(e.a, vars), 0) ELSE CommonF(FTypeOf(e.a, vars), FTypeOf(e.b, vars))
    [] e.k = "logic" -> "int"
    [] e.k = "cond" -> CommonF(FTypeOf(e.a, vars), FTypeOf(e.b, vars))
    [] e.k = "comma" -> FTypeOf(e.b, vars)
    [] OTHER -> e.t     \* cast
\* a result: t type, v and h the two values it may have, st the store
FR(t, p, st, ub) == [t |-> t, v |-> p.lo, h |-> p.hi, st |-> st, ub |-> ub \/ p.ub]
Open(r) == r.ub \/ r.v # r.h      \* undefined or not known exactly: cannot go on with it
FBin(op, a, ta, b, tb) ==      \* [lo, hi, ub] and the type is given by CommonF or int
  LET t == CommonF(ta, tb)
  IN IF ~IsF(t) THEN (LET r == Binary(op, a, Promote(ta, 0), b, Promote(tb, 0)) IN [lo |-> r.v, hi |-> r.v, ub |-> r.ub])
     ELSE LET x == ConvF(a, ta, t)
              y == ConvF(b, tb, t)
          IN IF x.lo # x.hi \/ y.lo # y.hi THEN Undef
             ELSE IF op \in {"<", ">", "<=", ">=", "==", "!="} THEN (LET z == BoolInt(Rel(op, FCmp(x.lo, y.lo))) IN Pair(z, z))
             ELSE LET r == FOp(Fmt[t], op, x.lo, y.lo) IN Pair(r.lo, r.hi)
BinType(op, ta, tb) == IF op \in {"<", ">", "<=", ">=", "==", "!="} THEN "int" ELSE IF op \in {"<<", ">>"} THEN Promote(ta, 0) ELSE CommonF(ta, tb)
RECURSIVE FEv(_, _, _)
FEv(e, st, vars) ==
  CASE e.k = "lit" -> FR(e.t, Pair(Lit(e), Lit(e)), st, FALSE)
    [] e.k = "flit" -> (LET c == FloatConst(e.s) IN FR(c.t, LET r == Const(c) IN Pair(r.lo, r.hi), st, FALSE))
    [] e.k = "var" -> FR(vars[e.i].t, Pair(st[e.i], st[e.i]), st, FALSE)
    [] e.k = "cast" -> (LET a == FEv(e.a, st, vars) IN IF Open(a) THEN FR(e.t, Undef, st, TRUE) ELSE FR(e.t, ConvF(a.v, a.t, e.t), a.st, FALSE))
    [] e.k = "un" -> (LET a == FEv(e.a, st, vars)
                      IN IF Open(a) THEN FR("int", Undef, st, TRUE)
                         ELSE IF e.op = "!" THEN (LET z == BoolInt(~True0(a.v, a.t)) IN FR("int", Pair(z, z), a.st, FALSE))
                         ELSE IF IsF(a.t) THEN (LET z == IF e.op = "-" THEN FNeg(a.v) ELSE a.v IN FR(a.t, Pair(z, z), a.st, FALSE))
                         ELSE LET r == Unary(e.op, a.v, Promote(a.t, 0)) IN FR(r.t, Pair(r.v, r.v), a.st, r.ub))
    [] e.k = "bin" -> (LET a == FEv(e.a, st, vars)
                           b == FEv(e.b, a.st, vars)
                       IN IF Open(a) THEN FR("int", Undef, st, TRUE) ELSE IF Open(b) THEN FR("int", Undef, st, TRUE)
                          ELSE FR(BinType(e.op, a.t, b.t), FBin(e.op, a.v, a.t, b.v, b.t), b.st, FALSE))
    [] e.k = "logic" -> (LET a == FEv(e.a, st, vars)
                         IN IF Open(a) THEN FR("int", Undef, st, TRUE)
                            ELSE IF True0(a.v, a.t) = (e.op = "||") THEN (LET z == BoolInt(e.op = "||") IN FR("int", Pair(z, z), a.st, FALSE))
                            ELSE LET b == FEv(e.b, a.st, vars)
                                     z == BoolInt(True0(b.v, b.t))
                                 IN IF Open(b) THEN FR("int", Undef, st, TRUE) ELSE FR("int", Pair(z, z), b.st, FALSE))
    [] e.k = "cond" -> (LET c == FEv(e.c, st, vars)
                            t == FTypeOf(e, vars)
                            x == IF True0(c.v, c.t) THEN FEv(e.a, c.st, vars) ELSE FEv(e.b, c.st, vars)
                        IN IF Open(c) THEN FR(t, Undef, st, TRUE) ELSE IF Open(x) THEN FR(t, Undef, st, TRUE) ELSE FR(t, ConvF(x.v, x.t, t), x.st, FALSE))
    [] e.k = "comma" -> (LET a == FEv(e.a, st, vars) IN IF Open(a) THEN FR("int", Undef, st, TRUE) ELSE FEv(e.b, a.st, vars))
    [] e.k = "asg" -> (LET a == FEv(e.a, st, vars)
                           t == vars[e.i].t
                           x == ConvF(a.v, a.t, t)
                       IN IF Open(a) \/ x.ub \/ x.lo # x.hi THEN FR(t, Undef, st, TRUE) ELSE FR(t, x, [a.st EXCEPT ![e.i] = x.lo], FALSE))
    [] OTHER ->      \* opasg, pre, post
         LET d == vars[e.i].t
             a == IF e.k = "opasg" THEN FEv(e.a, st, vars) ELSE FR("int", Pair(FromInt(1), FromInt(1)), st, FALSE)
             op == IF e.k = "opasg" THEN e.op ELSE IF e.op = "++" THEN "+" ELSE "-"
             x == FBin(op, a.st[e.i], d, a.v, a.t)
             t == CommonF(d, a.t)
             y == ConvF(x.lo, t, d)
         IN IF Open(a) THEN FR(d, Undef, st, TRUE) ELSE IF x.ub \/ x.lo # x.hi THEN FR(d, Undef, st, TRUE)
            ELSE IF y.ub \/ y.lo # y.hi THEN FR(d, Undef, st, TRUE)
            ELSE IF e.k = "post" THEN FR(d, Pair(st[e.i], st[e.i]), [a.st EXCEPT ![e.i] = y.lo], FALSE)
            ELSE FR(d, y, [a.st EXCEPT ![e.i] = y.lo], FALSE)
\* c: [e, vars: [t, v bytes]], use: "value", "cond", "conv" (to c.u)
FInit(c) == [i \in 1..Len(c.vars) |->
   LET w == c.vars[i] IN CASE w.t = "ldouble" -> Decode("double", w.v) [] IsF(w.t) -> Decode(w.t, w.v) [] OTHER -> Conv(Big(FALSE, Norm(w.v)), w.t, 0)]
Show(v, t) == IF IsF(t) THEN Encode(t, v) ELSE Bytes(v, 8)
FOutcome(c) ==
  LET r == FEv(c.e, FInit(c), c.vars)
      z == BoolInt(True0(r.v, r.t))
      bad == [ub |-> TRUE, t |-> "", r |-> "", v |-> <<>>, h |-> <<>>, st |-> <<>>]
      u == IF c.use = "conv" THEN ConvF(r.v, r.t, c.u) ELSE IF c.use = "cond" THEN Pair(z, z) ELSE Pair(r.v, r.h)
      rt == IF c.use = "conv" THEN c.u ELSE IF c.use = "cond" THEN "int" ELSE r.t
  IN IF r.ub \/ (c.use # "value" /\ r.v # r.h) THEN bad
     ELSE IF u.ub THEN bad
     ELSE [ub |-> FALSE, t |-> r.t, r |-> rt, v |-> Show(u.lo, rt), h |-> Show(u.hi, rt), st |-> [i \in 1..Len(c.vars) |-> Show(r.st[i], c.vars[i].t)]]
\* c: [s: text of a floating constant]
Literal(c) ==
  LET k == FloatConst(c.s)
      r == Const(k)
  IN IF k.k # "float" THEN [t |-> "", v |-> <<>>, h |-> <<>>] ELSE [t |-> k.t, v |-> Encode(k.t, r.lo), h |-> Encode(k.t, r.hi)]
=============================================================================
