-------------------------------- MODULE Lex ---------------------------------
(* From the characters of a source text to tokens and the meaning of the      *)
(* literals among them: C99 5.1.1.2 phases 1 to 6, 6.4 (no digraphs, no       *)
(* trigraphs). Texts are sequences of bytes.                                  *)
EXTENDS CInt

NL == 10
Digits == 48..57
Lower == 97..122
Upper == 65..90
IdStart == Lower \cup Upper \cup {95}
IdChar == IdStart \cup Digits
White == {32, 9, 10, 11, 12, 13}
At(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE 0
\* phase 2: a backslash and the end of the line after it go
RECURSIVE Splice(_, _)
Splice(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] = 92 /\ At(s, i + 1) = NL THEN Splice(s, i + 2)
  ELSE IF s[i] = 92 /\ At(s, i + 1) = 13 /\ At(s, i + 2) = NL THEN Splice(s, i + 3)
  ELSE <<s[i]>> \o Splice(s, i + 1)

(* ---- phase 3 *)
P1 == {<<c>> : c \in {33, 37, 38, 40, 41, 42, 43, 44, 45, 46, 47, 58, 59, 60, 61, 62, 63, 91, 93, 94, 123, 124, 125, 126}}
P2 == {<<43, 43>>, <<45, 45>>, <<45, 62>>, <<60, 60>>, <<62, 62>>, <<60, 61>>, <<62, 61>>, <<61, 61>>, <<33, 61>>, <<38, 38>>, <<124, 124>>,
       <<43, 61>>, <<45, 61>>, <<42, 61>>, <<47, 61>>, <<37, 61>>, <<38, 61>>, <<94, 61>>, <<124, 61>>}
P3 == {<<60, 60, 61>>, <<62, 62, 61>>, <<46, 46, 46>>}
Puncts == P1 \cup P2 \cup P3
Upto(s, i, j) == SubSeq(s, i, IF j > Len(s) THEN Len(s) ELSE j)
PunctAt(s, i) ==      \* length of the punctuator at i, 0 if there is none
  IF Upto(s, i, i + 2) \in P3 THEN 3 ELSE IF Upto(s, i, i + 1) \in P2 THEN 2 ELSE IF <<s[i]>> \in P1 THEN 1 ELSE 0
RECURSIVE IdEnd(_, _)
IdEnd(s, i) == IF At(s, i) \in IdChar THEN IdEnd(s, i + 1) ELSE i
RECURSIVE NumEnd(_, _)
NumEnd(s, i) ==      \* of a preprocessing number
  IF At(s, i) \in {69, 101, 80, 112} /\ At(s, i + 1) \in {43, 45} THEN NumEnd(s, i + 2)
  ELSE IF At(s, i) \in IdChar \cup {46} THEN NumEnd(s, i + 1) ELSE i
RECURSIVE QuoteEnd(_, _, _)
QuoteEnd(s, i, q) ==      \* after the closing quote, 0 if there is none on the line
  IF i > Len(s) \/ s[i] = NL THEN 0
  ELSE IF s[i] = q THEN i + 1
  ELSE IF s[i] = 92 THEN (IF At(s, i + 1) = NL THEN 0 ELSE QuoteEnd(s, i + 2, q))
  ELSE QuoteEnd(s, i + 1, q)
RECURSIVE BlockEnd(_, _)
BlockEnd(s, i) == IF i >= Len(s) THEN 0 ELSE IF s[i] = 42 /\ s[i + 1] = 47 THEN i + 2 ELSE BlockEnd(s, i + 1)
RECURSIVE LineEnd(_, _)
LineEnd(s, i) == IF i > Len(s) \/ s[i] = NL THEN i ELSE LineEnd(s, i + 1)
\* the thing at i: [k, e], e the position after it
Thing(s, i) ==
  LET c == s[i]
      d == At(s, i + 1)
      w == IF c = 76 /\ d \in {34, 39} THEN 1 ELSE 0
      q == At(s, i + w)
  IN IF c \in White THEN [k |-> "white", e |-> i + 1]
     ELSE IF c = 47 /\ d = 47 THEN [k |-> "white", e |-> LineEnd(s, i)]
     ELSE IF c = 47 /\ d = 42 THEN (LET e == BlockEnd(s, i + 2) IN IF e = 0 THEN [k |-> "bad", e |-> Len(s) + 1] ELSE [k |-> "white", e |-> e])
     ELSE IF q \in {34, 39} THEN (LET e == QuoteEnd(s, i + w + 1, q) IN IF e = 0 THEN [k |-> "bad", e |-> Len(s) + 1] ELSE [k |-> IF q = 34 THEN "str" ELSE "chr", e |-> e])
     ELSE IF c \in IdStart THEN [k |-> "id", e |-> IdEnd(s, i)]
     ELSE IF c \in Digits \/ (c = 46 /\ d \in Digits) THEN [k |-> "num", e |-> NumEnd(s, i)]
     ELSE IF PunctAt(s, i) > 0 THEN [k |-> "punct", e |-> i + PunctAt(s, i)]
     ELSE [k |-> "bad", e |-> i + 1]
RECURSIVE LexFrom(_, _)
LexFrom(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET t == Thing(s, i)
       IN (IF t.k = "white" THEN <<>> ELSE <<[k |-> t.k, s |-> SubSeq(s, i, t.e - 1)]>>) \o LexFrom(s, t.e)
Tokens(text) == LexFrom(Splice(text, 1), 1)
Lexable(ts) == \A i \in 1..Len(ts) : ts[i].k # "bad"

(* ---- integer constants *)
Lo(c) == IF c \in Upper THEN c + 32 ELSE c
HexVal(c) == IF c \in Digits THEN c - 48 ELSE IF Lo(c) \in 97..102 THEN Lo(c) - 87 ELSE 99
DigitsIn(s, i, base) == \* end of the digits of the base from i
  LET RECURSIVE E(_)
      E(j) == IF j <= Len(s) /\ HexVal(s[j]) < base THEN E(j + 1) ELSE j
  IN E(i)
RECURSIVE ValueOf(_, _, _, _, _)
ValueOf(s, i, e, base, v) == IF i = e THEN v ELSE ValueOf(s, i + 1, e, base, Add(Mul(v, FromInt(base)), FromInt(HexVal(s[i]))))
Suffix(s) ==      \* [ok, u, l]
  LET t == [i \in 1..Len(s) |-> s[i]]
      isU(c) == c \in {85, 117}
      isL(c) == c \in {76, 108}
      n == Len(t)
      cut == IF n > 0 /\ isU(t[1]) THEN SubSeq(t, 2, n) ELSE IF n > 0 /\ isU(t[n]) THEN SubSeq(t, 1, n - 1) ELSE t
      u == Len(cut) < n
  IN [ok |-> cut = <<>> \/ (Len(cut) = 1 /\ isL(cut[1])) \/ (Len(cut) = 2 /\ isL(cut[1]) /\ cut[1] = cut[2]), u |-> u, l |-> Len(cut)]
Candidates(dec, u, l) ==
  LET all == <<"int", "uint", "long", "ulong", "llong", "ullong">>
      from == SelectSeq(all, LAMBDA t : Rank[t] >= 3 + l)
  IN SelectSeq(from, LAMBDA t : IF u THEN ~Sgn[t] ELSE ~dec \/ Sgn[t])
FitsIn(v, t) == Cmp(v, Pow2(Width[t] - (IF Sgn[t] THEN 1 ELSE 0))) < 0
\* kind "int": [t, v]; "bad": not a constant; "float": a floating constant; "big": no type holds it
IntConst(s) ==
  LET base == IF At(s, 1) # 48 THEN 10 ELSE IF At(s, 2) \in {88, 120} THEN 16 ELSE IF At(s, 2) \in {66, 98} THEN 2 ELSE 8
      from == IF base \in {2, 16} THEN 3 ELSE 1
      e == DigitsIn(s, from, base)
      sf == Suffix(SubSeq(s, e, Len(s)))
      v == ValueOf(s, from, e, base, Zero)
      cs == SelectSeq(Candidates(base = 10, sf.u, sf.l), LAMBDA t : FitsIn(v, t))
  IN IF e = from \/ ~sf.ok THEN [k |-> "bad"]
     ELSE IF cs = <<>> THEN [k |-> "big"] ELSE [k |-> "int", t |-> cs[1], v |-> v]
\* floating constants: [k "float", t, n / d a fraction of big numbers times 10^x or 2^x]
FloatConst(s) ==
  LET hex == At(s, 1) = 48 /\ At(s, 2) \in {88, 120}
      base == IF hex THEN 16 ELSE 10
      i0 == IF hex THEN 3 ELSE 1
      e1 == DigitsIn(s, i0, base)
      dot == At(s, e1) = 46
      e2 == IF dot THEN DigitsIn(s, e1 + 1, base) ELSE e1
      nd == (e1 - i0) + (IF dot THEN e2 - e1 - 1 ELSE 0)
      expc == At(s, e2) \in (IF hex THEN {80, 112} ELSE {69, 101})
      sg == IF expc /\ At(s, e2 + 1) \in {43, 45} THEN 1 ELSE 0
      x0 == e2 + 1 + sg
      e3 == IF expc THEN DigitsIn(s, x0, 10) ELSE e2
      suf == SubSeq(s, e3, Len(s))
      m == ValueOf(SubSeq(s, i0, e1 - 1) \o (IF dot THEN SubSeq(s, e1 + 1, e2 - 1) ELSE <<>>), 1, nd + 1, base, Zero)
      xs == SubSeq(s, x0, e3 - 1)
      small == Len(xs) <= 5
      x == IF expc /\ small THEN (IF At(s, e2 + 1) = 45 THEN -1 ELSE 1) * ToInt(ValueOf(xs, 1, Len(xs) + 1, 10, Zero)) ELSE 0
      fr == IF dot THEN e2 - e1 - 1 ELSE 0
  IN IF nd = 0 \/ ~(dot \/ expc) \/ (expc /\ e3 = x0) \/ (hex /\ ~expc) \/ ~(suf = <<>> \/ (Len(suf) = 1 /\ Lo(suf[1]) \in {102, 108}))
     THEN [k |-> "bad"]
     ELSE IF ~small THEN [k |-> "big"]
     ELSE [k |-> "float", t |-> IF suf = <<>> THEN "double" ELSE IF Lo(suf[1]) = 102 THEN "float" ELSE "ldouble",
           m |-> m, b |-> IF hex THEN 2 ELSE 10, x |-> x - (IF hex THEN 4 * fr ELSE fr)]
Number(s) == LET i == IntConst(s) IN IF i.k # "bad" THEN i ELSE FloatConst(s)

(* ---- characters and strings *)
Simple == [c \in {97, 98, 102, 110, 114, 116, 118, 39, 34, 92, 63, 101} |->
             CASE c = 97 -> 7 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] c = 118 -> 11 [] c = 101 -> 27 [] OTHER -> c]
Utf8(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
\* length of the UTF-8 sequence at i (0: not one), its character
Cont(c) == c \in 128..191
U8At(s, i) ==
  LET c == s[i]
      b == At(s, i + 1)
  IN IF c < 128 THEN [n |-> 1, c |-> c]
     ELSE IF c \in 194..223 /\ Cont(b) THEN [n |-> 2, c |-> (c - 192) * 64 + b - 128]
     ELSE IF c \in 224..239 /\ Cont(b) /\ Cont(At(s, i + 2)) /\ (c = 224 => b >= 160) /\ (c = 237 => b < 160)
          THEN [n |-> 3, c |-> (c - 224) * 4096 + (b - 128) * 64 + At(s, i + 2) - 128]
     ELSE IF c \in 240..244 /\ Cont(b) /\ Cont(At(s, i + 2)) /\ Cont(At(s, i + 3)) /\ (c = 240 => b >= 144) /\ (c = 244 => b < 144)
          THEN [n |-> 4, c |-> (c - 240) * 262144 + (b - 128) * 4096 + (At(s, i + 2) - 128) * 64 + At(s, i + 3) - 128]
     ELSE [n |-> 0, c |-> 0]
\* elements of the text between quotes: [k "esc": a value to be stored, "chr": a character, "bad"]
RECURSIVE OctEnd(_, _, _)
OctEnd(s, i, n) == IF n = 0 \/ At(s, i) \notin 48..55 THEN i ELSE OctEnd(s, i + 1, n - 1)
RECURSIVE HexEnd(_, _)
HexEnd(s, i) == IF i <= Len(s) /\ HexVal(s[i]) < 16 THEN HexEnd(s, i + 1) ELSE i
RECURSIVE Elements(_, _, _)
Elements(s, i, wide) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] # 92 THEN
       (IF ~wide THEN <<[k |-> "esc", v |-> FromInt(s[i])]>> \o Elements(s, i + 1, wide)
        ELSE LET u == U8At(s, i) IN IF u.n = 0 THEN <<[k |-> "bad"]>> ELSE <<[k |-> "esc", v |-> FromInt(u.c)]>> \o Elements(s, i + u.n, wide))
  ELSE LET c == At(s, i + 1)
       IN IF c \in 48..55 THEN (LET e == OctEnd(s, i + 1, 3) IN <<[k |-> "esc", v |-> ValueOf(s, i + 1, e, 8, Zero)]>> \o Elements(s, e, wide))
          ELSE IF c = 120 THEN
               (LET e == HexEnd(s, i + 2) IN IF e = i + 2 THEN <<[k |-> "bad"]>> ELSE <<[k |-> "esc", v |-> ValueOf(s, i + 2, e, 16, Zero)]>> \o Elements(s, e, wide))
          ELSE IF c \in {117, 85} THEN
               (LET n == IF c = 117 THEN 4 ELSE 8
                    e == i + 2 + n
                    v == ValueOf(s, i + 2, e, 16, Zero)
                IN IF e - 1 > Len(s) \/ HexEnd(s, i + 2) < e THEN <<[k |-> "bad"]>>
                   ELSE IF Cmp(v, FromInt(1114111)) > 0 \/ (Cmp(v, FromInt(55296)) >= 0 /\ Cmp(v, FromInt(57343)) <= 0) \/ (Cmp(v, FromInt(160)) < 0 /\ v \notin {FromInt(36), FromInt(64), FromInt(96)})
                        THEN <<[k |-> "odd"]>>      \* not allowed by 6.4.3
                   ELSE <<[k |-> "chr", v |-> v]>> \o Elements(s, e, wide))
          ELSE IF c \in DOMAIN Simple THEN <<[k |-> "esc", v |-> FromInt(Simple[c])]>> \o Elements(s, i + 2, wide)
          ELSE <<[k |-> "odd"]>>      \* unknown escape: a warning at best
Wide(t) == t.s[1] = 76
Inside(t) == SubSeq(t.s, IF Wide(t) THEN 3 ELSE 2, Len(t.s) - 1)
\* the code units of the elements; fit: all values fit the unsigned type of the element
RECURSIVE Units(_, _)
Units(es, wide) ==
  IF es = <<>> THEN <<>>
  ELSE (IF wide \/ es[1].k = "esc" THEN <<es[1].v>> ELSE LET u == Utf8(ToInt(es[1].v)) IN [i \in 1..Len(u) |-> FromInt(u[i])]) \o Units(Tail(es), wide)
State(es, wide) ==
  IF \E i \in 1..Len(es) : es[i].k = "bad" THEN "bad"
  ELSE IF \E i \in 1..Len(es) : es[i].k = "odd" \/ (es[i].k = "esc" /\ Cmp(es[i].v, Pow2(IF wide THEN 32 ELSE 8)) >= 0) THEN "odd" ELSE "ok"
CharConst(t) ==
  LET w == Wide(t)
      es == Elements(Inside(t), 1, w)
      st == State(es, w)
      us == Units(es, w)
  IN IF es = <<>> \/ st = "bad" THEN [k |-> "bad"]
     ELSE IF st = "odd" THEN [k |-> "odd"]
     ELSE IF Len(us) # 1 THEN [k |-> "multi"]
     ELSE [k |-> "int", t |-> "int", v |-> Conv(us[1], IF w THEN "int" ELSE "char", 0)]
\* adjacent literals: wide if one of them is
StrConst(ts) ==
  LET w == \E i \in 1..Len(ts) : Wide(ts[i])
      ess == [i \in 1..Len(ts) |-> Elements(Inside(ts[i]), 1, w)]
      RECURSIVE Cat(_)
      Cat(i) == IF i > Len(ts) THEN <<>> ELSE Units(ess[i], w) \o Cat(i + 1)
  IN IF \E i \in 1..Len(ts) : State(ess[i], w) = "bad" THEN [k |-> "bad"]
     ELSE IF \E i \in 1..Len(ts) : State(ess[i], w) # "ok" THEN [k |-> "odd"]
     ELSE [k |-> "str", w |-> w, us |-> Cat(1) \o <<Zero>>]

\* what cjit makes of narrow literals after a wide one (a known finding): their bytes one by one
RECURSIVE ByPiece(_, _)
ByPiece(ts, i) ==
  IF i > Len(ts) THEN <<Zero>>
  ELSE LET w == Wide(ts[i])
           us == Units(Elements(Inside(ts[i]), 1, w), w)
       IN [j \in 1..Len(us) |-> IF w THEN us[j] ELSE Low(us[j], 8)] \o ByPiece(ts, i + 1)
Mixed(ts) == \E i, j \in 1..Len(ts) : Wide(ts[i]) /\ ~Wide(ts[j])

(* ---- expressions of tokens, for what the tokens of operators mean *)
(* variables a..j are ints, p points to a structure s with members x and y,   *)
(* v is an array of 4 ints, q points to it; small values only                 *)
Kind(ts, i) == IF i <= Len(ts) THEN ts[i].k ELSE "end"
Is(ts, i, s) == i <= Len(ts) /\ ts[i].k = "punct" /\ ts[i].s = s
Err == [ok |-> FALSE]
Ok(e, i) == [ok |-> TRUE, e |-> e, i |-> i]
Ch(c) == <<c>>
BinOps == <<  \* by precedence, weakest first
  {<<124, 124>>}, {<<38, 38>>}, {<<124>>}, {<<94>>}, {<<38>>}, {<<61, 61>>, <<33, 61>>}, {<<60>>, <<62>>, <<60, 61>>, <<62, 61>>},
  {<<60, 60>>, <<62, 62>>}, {<<43>>, <<45>>}, {<<42>>, <<47>>, <<37>>}>>
AsgOps == {<<61>>, <<43, 61>>, <<45, 61>>, <<42, 61>>, <<47, 61>>, <<37, 61>>, <<38, 61>>, <<94, 61>>, <<124, 61>>, <<60, 60, 61>>, <<62, 62, 61>>}
RECURSIVE PComma(_, _), PAsg(_, _), PBin(_, _, _), PBinRest(_, _, _, _), PUn(_, _), PPost(_, _, _), PPrim(_, _), PCommaRest(_, _, _)
PPrim(ts, i) ==
  IF Kind(ts, i) = "id" THEN Ok([k |-> "id", n |-> ts[i].s], i + 1)
  ELSE IF Kind(ts, i) = "num" THEN Ok([k |-> "num", s |-> ts[i].s], i + 1)
  ELSE IF Kind(ts, i) = "chr" THEN Ok([k |-> "chr", t |-> ts[i]], i + 1)
  ELSE IF Is(ts, i, Ch(40)) THEN (LET r == PComma(ts, i + 1) IN IF r.ok /\ Is(ts, r.i, Ch(41)) THEN Ok([k |-> "par", a |-> r.e], r.i + 1) ELSE Err)
  ELSE Err
PPost(ts, i, e) ==
  IF Is(ts, i, <<43, 43>>) \/ Is(ts, i, <<45, 45>>) THEN PPost(ts, i + 1, [k |-> "post", o |-> ts[i].s, a |-> e])
  ELSE IF Is(ts, i, Ch(46)) /\ Kind(ts, i + 1) = "id" THEN PPost(ts, i + 2, [k |-> "mem", a |-> e, n |-> ts[i + 1].s])
  ELSE IF Is(ts, i, <<45, 62>>) /\ Kind(ts, i + 1) = "id" THEN PPost(ts, i + 2, [k |-> "arrow", a |-> e, n |-> ts[i + 1].s])
  ELSE IF Is(ts, i, Ch(91)) THEN (LET r == PComma(ts, i + 1) IN IF r.ok /\ Is(ts, r.i, Ch(93)) THEN PPost(ts, r.i + 1, [k |-> "sub", a |-> e, b |-> r.e]) ELSE Err)
  ELSE Ok(e, i)
PUn(ts, i) ==
  IF \E o \in {<<43, 43>>, <<45, 45>>, <<43>>, <<45>>, <<33>>, <<126>>, <<42>>, <<38>>} : Is(ts, i, o)
  THEN LET r == PUn(ts, i + 1) IN IF r.ok THEN Ok([k |-> "pre", o |-> ts[i].s, a |-> r.e], r.i) ELSE Err
  ELSE LET r == PPrim(ts, i) IN IF r.ok THEN PPost(ts, r.i, r.e) ELSE Err
PBin(ts, i, l) ==
  IF l > Len(BinOps) THEN PUn(ts, i)
  ELSE LET r == PBin(ts, i, l + 1) IN IF r.ok THEN PBinRest(ts, r.i, l, r.e) ELSE Err
PBinRest(ts, i, l, e) ==
  IF Kind(ts, i) = "punct" /\ ts[i].s \in BinOps[l]
  THEN LET r == PBin(ts, i + 1, l + 1) IN IF r.ok THEN PBinRest(ts, r.i, l, [k |-> "bin", o |-> ts[i].s, a |-> e, b |-> r.e]) ELSE Err
  ELSE Ok(e, i)
PAsg(ts, i) ==
  LET r == PBin(ts, i, 1)
  IN IF ~r.ok THEN Err
     ELSE IF Is(ts, r.i, Ch(63)) THEN
       (LET a == PComma(ts, r.i + 1)
        IN IF ~a.ok \/ ~Is(ts, a.i, Ch(58)) THEN Err
           ELSE LET b == PAsg(ts, a.i + 1)      \* the third operand: no assignment without parentheses
                IN IF ~b.ok \/ b.e.k = "asg" THEN Err ELSE Ok([k |-> "cond", c |-> r.e, a |-> a.e, b |-> b.e], b.i))
     ELSE IF Kind(ts, r.i) = "punct" /\ ts[r.i].s \in AsgOps THEN
       (LET b == PAsg(ts, r.i + 1) IN IF b.ok THEN Ok([k |-> "asg", o |-> ts[r.i].s, a |-> r.e, b |-> b.e], b.i) ELSE Err)
     ELSE r
PCommaRest(ts, i, e) ==
  IF Is(ts, i, Ch(44)) THEN LET r == PAsg(ts, i + 1) IN IF r.ok THEN PCommaRest(ts, r.i, [k |-> "comma", a |-> e, b |-> r.e]) ELSE Err
  ELSE Ok(e, i)
PComma(ts, i) == LET r == PAsg(ts, i) IN IF r.ok THEN PCommaRest(ts, r.i, r.e) ELSE Err
Parse(ts) == LET r == PComma(ts, 1) IN IF r.ok /\ r.i = Len(ts) + 1 THEN r ELSE Err

\* values: [t "int", v] [t "ptr", to: index of the first cell, of: "s" or "int"] [t "struct"] [t "array"]; lv: the cell, 0 if none
\* cells: 1..10 a..j, 11 s.x, 12 s.y, 13..16 v
Big0 == 20000
I(v) == [t |-> "int", v |-> v, lv |-> 0, st |-> "ok"]
St(x) == [t |-> "int", v |-> 0, lv |-> 0, st |-> x]
StrId(n) == IF Len(n) = 1 THEN n[1] ELSE 0
Truth(b) == IF b THEN 1 ELSE 0
Abs0(x) == IF x < 0 THEN -x ELSE x
QuoI(a, b) == LET q == Abs0(a) \div Abs0(b) IN IF (a < 0) # (b < 0) THEN -q ELSE q
BwI(op, x, y) == LET r == Bitwise2(op, Conv(FromInt(x), "int", 0), Conv(FromInt(y), "int", 0), "int") IN ToInt(r)
Chk(v) == IF v > Big0 \/ v < -Big0 THEN St("big") ELSE I(v)
Arith(o, x, y) ==
  CASE o = <<43>> -> Chk(x + y) [] o = <<45>> -> Chk(x - y)
    [] o = <<42>> -> Chk(x * y)
    [] o \in {<<47>>, <<37>>} -> IF y = 0 THEN St("big") ELSE IF o = <<47>> THEN I(QuoI(x, y)) ELSE I(x - y * QuoI(x, y))
    [] o = <<38>> -> I(BwI("&", x, y)) [] o = <<124>> -> I(BwI("|", x, y)) [] o = <<94>> -> I(BwI("^", x, y))
    [] o = <<60, 60>> -> IF x < 0 \/ y < 0 \/ y > 8 \/ x > 100 THEN St("big") ELSE I(x * TwoTo(y))
    [] o = <<62, 62>> -> IF x < 0 \/ y < 0 \/ y > 31 THEN St("big") ELSE I(IF y > 20 THEN 0 ELSE x \div TwoTo(y))
    [] o = <<60>> -> I(Truth(x < y)) [] o = <<62>> -> I(Truth(x > y)) [] o = <<60, 61>> -> I(Truth(x <= y)) [] o = <<62, 61>> -> I(Truth(x >= y))
    [] o = <<61, 61>> -> I(Truth(x = y)) [] OTHER -> I(Truth(x # y))
\* what cannot be assigned to: certainly not ("err"), or with some compilers ("odd")
RECURSIVE Plain(_)
Plain(e) == IF e.k = "par" THEN Plain(e.a) ELSE e.k \in {"num", "chr", "post", "bin"}
NoLv(e) == St(IF Plain(e) THEN "err" ELSE "odd")
\* [r: value, m: memory]
RV(r, m) == [r |-> r, m |-> m]
Cell(m, c) == [t |-> "int", v |-> m[c], lv |-> c, st |-> "ok"]
RECURSIVE Run(_, _)
Run(e, m) ==
  CASE e.k = "par" -> Run(e.a, m)
    [] e.k = "num" -> (LET n == Number(e.s) IN RV(IF n.k = "int" /\ n.t = "int" THEN (IF Cmp(n.v, FromInt(Big0)) > 0 THEN St("big") ELSE I(ToInt(n.v))) ELSE IF n.k = "bad" THEN St("err") ELSE St("big"), m))
    [] e.k = "chr" -> (LET n == CharConst(e.t) IN RV(IF n.k = "int" THEN (IF Cmp(n.v, FromInt(Big0)) > 0 THEN St("big") ELSE I(ToInt(n.v))) ELSE IF n.k = "bad" THEN St("err") ELSE St("big"), m))
    [] e.k = "id" -> (LET c == StrId(e.n)
                      IN IF c \in 97..106 THEN RV(Cell(m, c - 96), m)
                         ELSE IF c = 112 THEN RV([t |-> "sptr", v |-> 0, lv |-> 0, st |-> "ok"], m)
                         ELSE IF c = 115 THEN RV([t |-> "struct", v |-> 0, lv |-> 11, st |-> "ok"], m)
                         ELSE IF c = 118 THEN RV([t |-> "iptr", v |-> 0, lv |-> 0, st |-> "ok"], m)
                         ELSE RV(St("err"), m))
    [] e.k = "mem" -> (LET a == Run(e.a, m)
                           c == StrId(e.n)
                       IN IF a.r.st # "ok" THEN a ELSE IF a.r.t # "struct" \/ c \notin {120, 121} THEN RV(St("err"), m) ELSE RV(Cell(a.m, c - 109), a.m))
    [] e.k = "arrow" -> (LET a == Run(e.a, m)
                             c == StrId(e.n)
                         IN IF a.r.st # "ok" THEN a ELSE IF a.r.t # "sptr" \/ c \notin {120, 121} THEN RV(St("err"), m) ELSE RV(Cell(a.m, c - 109), a.m))
    [] e.k = "sub" -> (LET a == Run(e.a, m)
                           b == Run(e.b, a.m)
                       IN IF a.r.st # "ok" THEN a ELSE IF b.r.st # "ok" THEN b
                          ELSE IF a.r.t # "iptr" \/ b.r.t # "int" THEN RV(St(IF a.r.t = "int" /\ b.r.t = "iptr" THEN "big" ELSE "err"), m)
                          ELSE IF b.r.v + a.r.v \notin 0..3 THEN RV(St("big"), m) ELSE RV(Cell(b.m, 13 + a.r.v + b.r.v), b.m))
    [] e.k = "post" -> (LET a == Run(e.a, m)
                        IN IF a.r.st # "ok" THEN a ELSE IF a.r.t # "int" \/ a.r.lv = 0 THEN RV(NoLv(e.a), m)
                           ELSE RV(I(a.r.v), [a.m EXCEPT ![a.r.lv] = a.r.v + (IF e.o = <<43, 43>> THEN 1 ELSE -1)]))
    [] e.k = "pre" -> (LET a == Run(e.a, m)
                       IN IF a.r.st # "ok" THEN a
                          ELSE IF e.o \in {<<43, 43>>, <<45, 45>>} THEN
                            (IF a.r.t # "int" \/ a.r.lv = 0 THEN RV(NoLv(e.a), m)
                             ELSE LET w == a.r.v + (IF e.o = <<43, 43>> THEN 1 ELSE -1) IN RV(I(w), [a.m EXCEPT ![a.r.lv] = w]))
                          ELSE IF e.o = <<42>> THEN
                            (IF a.r.t = "iptr" THEN RV(Cell(a.m, 13 + a.r.v), a.m) ELSE IF a.r.t = "sptr" THEN RV([t |-> "struct", v |-> 0, lv |-> 11, st |-> "ok"], a.m)
                             ELSE IF a.r.t = "addr" THEN RV(Cell(a.m, a.r.v), a.m) ELSE RV(St("err"), m))
                          ELSE IF e.o = <<38>> THEN
                            (IF a.r.t = "int" /\ a.r.lv > 0 THEN RV([t |-> "addr", v |-> a.r.lv, lv |-> 0, st |-> "ok"], a.m)
                             ELSE IF a.r.t = "int" THEN RV(NoLv(e.a), m) ELSE RV(St("big"), m))
                          ELSE IF a.r.t # "int" THEN RV(St("big"), m)
                          ELSE RV(CASE e.o = <<43>> -> I(a.r.v) [] e.o = <<45>> -> I(-a.r.v) [] e.o = <<126>> -> I(-a.r.v - 1) [] OTHER -> I(Truth(a.r.v = 0)), a.m))
    [] e.k = "bin" ->
       (IF e.o \in {<<38, 38>>, <<124, 124>>}
        THEN LET a == Run(e.a, m)
                 b == Run(e.b, a.m)
             IN IF a.r.st # "ok" THEN a ELSE IF b.r.st # "ok" THEN b ELSE IF a.r.t # "int" \/ b.r.t # "int" THEN RV(St("big"), m)
                ELSE IF (a.r.v = 0) = (e.o = <<38, 38>>) THEN RV(I(Truth(e.o = <<124, 124>>)), a.m)
                ELSE RV(I(Truth(b.r.v # 0)), b.m)
        ELSE LET a == Run(e.a, m)
                 b == Run(e.b, a.m)
             IN IF a.r.st # "ok" THEN a ELSE IF b.r.st # "ok" THEN b
                ELSE IF a.r.t # "int" \/ b.r.t # "int" THEN RV(St("big"), m) ELSE RV(Arith(e.o, a.r.v, b.r.v), b.m))
    [] e.k = "cond" -> (LET c == Run(e.c, m)
                            a == Run(e.a, c.m)
                            b == Run(e.b, c.m)
                        IN IF c.r.st # "ok" THEN c ELSE IF a.r.st # "ok" THEN a ELSE IF b.r.st # "ok" THEN b
                           ELSE IF c.r.t # "int" \/ a.r.t # "int" \/ b.r.t # "int" THEN RV(St("big"), m)
                           ELSE IF c.r.v # 0 THEN RV(I(a.r.v), a.m) ELSE RV(I(b.r.v), b.m))
    [] e.k = "comma" -> (LET a == Run(e.a, m)
                             b == Run(e.b, a.m) IN IF a.r.st # "ok" THEN a ELSE IF b.r.st = "ok" /\ b.r.t = "int" THEN RV(I(b.r.v), b.m) ELSE b)
    [] OTHER -> (LET a == Run(e.a, m)
                     b == Run(e.b, a.m)
                     x == IF e.o = <<61>> THEN I(b.r.v) ELSE Arith(SubSeq(e.o, 1, Len(e.o) - 1), b.m[a.r.lv], b.r.v)
                 IN IF a.r.st # "ok" THEN a ELSE IF b.r.st # "ok" THEN b
                    ELSE IF a.r.t # "int" \/ a.r.lv = 0 THEN RV(NoLv(e.a), m) ELSE IF b.r.t # "int" THEN RV(St("big"), m)
                    ELSE IF x.st # "ok" THEN RV(x, m) ELSE RV(I(x.v), [b.m EXCEPT ![a.r.lv] = x.v]))
\* a variable used twice: its value might depend on the order
Cells0(ts) == {i \in 1..Len(ts) : ts[i].k = "id"}
Twice(ts) == \E i, j \in Cells0(ts) : i # j /\ (ts[i].s = ts[j].s \/ (ts[i].s \in {<<112>>, <<115>>} /\ ts[j].s \in {<<112>>, <<115>>}))
Names(ts) == \A i \in Cells0(ts) : Len(ts[i].s) = 1 /\ ts[i].s[1] \in (97..106 \cup {112, 115, 118, 120, 121})

Meaning(c) ==      \* c: [s: text, m: memory]
  LET ts == Tokens(c.s)
      k == IF ts = <<>> THEN "none" ELSE ts[1].k
  IN IF ~Lexable(ts) THEN [k |-> "bad"]
     ELSE IF Len(ts) = 1 /\ k = "num" THEN Number(ts[1].s)
     ELSE IF Len(ts) = 1 /\ k = "chr" THEN CharConst(ts[1])
     ELSE IF k = "str" /\ \A i \in 1..Len(ts) : ts[i].k = "str" THEN StrConst(ts)
     ELSE LET p == Parse(ts)
          IN IF ~p.ok THEN [k |-> "syntax"]
             ELSE LET r == Run(p.e, c.m)
                  IN IF r.r.st = "err" THEN [k |-> "bad"]
                     ELSE IF ~Names(ts) \/ Twice(ts) \/ r.r.st # "ok" \/ r.r.t # "int" THEN [k |-> "odd"]
                     ELSE [k |-> "val", v |-> r.r.v, m |-> r.m]
Pack(n) == IF n.k = "int" THEN [k |-> "int", t |-> n.t, v |-> Bytes(n.v, 8)]
           ELSE IF n.k = "str" THEN [k |-> "str", w |-> n.w, us |-> [i \in 1..Len(n.us) |-> Bytes(n.us[i], IF n.w THEN 4 ELSE 1)]]
           ELSE IF n.k = "float" THEN [k |-> "float", t |-> n.t]
           ELSE n
Lexed(c) == LET tk == Tokens(c.s) IN
  [m |-> Pack(Meaning(c)), alt |-> IF (\A i \in 1..Len(tk) : tk[i].k = "str") /\ tk # <<>> /\ Mixed(tk) /\ Wide(tk[1]) /\ StrConst(tk).k = "str"
                                     THEN LET us == ByPiece(tk, 1) IN [i \in 1..Len(us) |-> Bytes(us[i], 4)] ELSE <<>>,
   first |-> tk # <<>> /\ tk[1].k = "str" /\ ~Wide(tk[1]),
   ts |-> LET t == Tokens(c.s) IN [i \in 1..Len(t) |-> [k |-> t[i].k, s |-> t[i].s]]]
=============================================================================
