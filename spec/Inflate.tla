------------------------------ MODULE Inflate ------------------------------
(* RFC 1951 and RFC 1952 as an executable definition, bit by bit. Input is a  *)
(* sequence of bytes. A decoder state is [p, out, st]: the next bit (from 0), *)
(* the bytes produced and "ok", "done", "error" (not valid) or "any" (the     *)
(* RFC does not say).                                                         *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC

P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>
\* the bits of a sequence of bytes; b below is such a sequence of bits
BitsOf(bytes) == TLCEval([i \in 1..(8 * Len(bytes)) |-> (bytes[((i - 1) \div 8) + 1] \div P2[((i - 1) % 8) + 1]) % 2])
NBits(b) == Len(b)
Bit(b, p) == b[p + 1]
Has(b, p, n) == p + n <= Len(b)
\* n bits from p on, least significant first
RECURSIVE Bits(_, _, _)
Bits(b, p, n) == IF n = 0 THEN 0 ELSE Bit(b, p) + 2 * Bits(b, p + 1, n - 1)

(* ---- Huffman codes: [count, sym, kind], count[l + 1] codes of length l,    *)
(* sym their symbols in order of code                                         *)
Build(L) ==
  LET all == [i \in 1..Len(L) |-> i - 1]
      of(l) == SelectSeq(all, LAMBDA s : L[s + 1] = l)
      by == TLCEval([l \in 1..15 |-> of(l)])
      left == FoldLeft(LAMBDA a, l : IF a < 0 THEN a ELSE 2 * a - Len(by[l]), 1, [l \in 1..15 |-> l])
      n == FoldLeft(LAMBDA a, l : a + Len(by[l]), 0, [l \in 1..15 |-> l])
  IN [count |-> TLCEval([l \in 1..15 |-> Len(by[l])]), sym |-> TLCEval(FoldLeft(LAMBDA a, x : a \o x, <<>>, by)),
      kind |-> CASE n = 0 -> "empty" [] left < 0 -> "over" [] left = 0 -> "complete"
                 [] n = 1 /\ Len(by[1]) = 1 -> "single" [] OTHER -> "incomplete"]
\* one symbol: [s, p], s = -1 when there is none
RECURSIVE Walk(_, _, _, _, _, _, _)
Walk(b, p, h, l, code, first, index) ==
  IF l > 15 \/ p >= Len(b) THEN [s |-> -1, p |-> p]
  ELSE LET c == code + b[p + 1]
           n == h.count[l]
       IN IF c - n < first THEN [s |-> h.sym[index + (c - first) + 1], p |-> p + 1]
          ELSE Walk(b, p + 1, h, l + 1, 2 * c, 2 * (first + n), index + n)
Symbol(b, p, h) == Walk(b, p, h, 1, 0, 0, 0)

FixedLit == Build([i \in 1..288 |-> IF i <= 144 THEN 8 ELSE IF i <= 256 THEN 9 ELSE IF i <= 280 THEN 7 ELSE 8])
FixedDist == Build([i \in 1..32 |-> 5])
LenBase == <<3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258>>
LenBits == <<0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0>>
DistBase == <<1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577>>
DistBits == <<0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13>>

Err(s) == [s EXCEPT !.st = "error"]
\* a copy of n bytes from d bytes back, that may overlap itself
RECURSIVE Copy(_, _, _)
Copy(out, d, n) ==
  IF n = 0 THEN out
  ELSE LET k == IF n < d THEN n ELSE d IN Copy(out \o SubSeq(out, Len(out) - d + 1, Len(out) - d + k), d, n - k)

\* the symbols of one block
RECURSIVE Codes(_, _, _, _)
Codes(b, s, lit, dist) ==
  LET x == Symbol(b, s.p, lit)
  IN IF x.s < 0 THEN Err(s)
     ELSE IF x.s < 256 THEN Codes(b, [s EXCEPT !.p = x.p, !.out = Append(@, x.s)], lit, dist)
     ELSE IF x.s = 256 THEN [s EXCEPT !.p = x.p]
     ELSE IF x.s > 285 \/ dist.kind = "empty" THEN Err(s)
     ELSE LET i == x.s - 256
          IN IF ~Has(b, x.p, LenBits[i]) THEN Err(s)
             ELSE LET n == LenBase[i] + Bits(b, x.p, LenBits[i])
                      y == Symbol(b, x.p + LenBits[i], dist)
                  IN IF y.s < 0 \/ y.s > 29 \/ ~Has(b, y.p, DistBits[y.s + 1]) THEN Err(s)
                     ELSE LET d == DistBase[y.s + 1] + Bits(b, y.p, DistBits[y.s + 1])
                          IN IF d > Len(s.out) THEN Err(s)
                             ELSE Codes(b, [s EXCEPT !.p = y.p + DistBits[y.s + 1], !.out = Copy(@, d, n)], lit, dist)

Stored(b, s) ==
  LET q == ((s.p + 7) \div 8) * 8
  IN IF ~Has(b, q, 32) THEN Err(s)
     ELSE LET n == Bits(b, q, 16)
          IN IF n + Bits(b, q + 16, 16) # 65535 \/ ~Has(b, q + 32, 8 * n) THEN Err(s)
             ELSE [s EXCEPT !.p = q + 32 + 8 * n, !.out = @ \o [i \in 1..n |-> Bits(b, q + 24 + 8 * i, 8)]]

Order == <<17, 18, 19, 1, 9, 8, 10, 7, 11, 6, 12, 5, 13, 4, 14, 3, 15, 2, 16>>
\* the code lengths of a dynamic block: [L, p, ok]
RECURSIVE Lengths(_, _, _, _, _)
Lengths(b, p, h, L, n) ==
  IF Len(L) = n THEN [L |-> L, p |-> p, ok |-> TRUE]
  ELSE LET x == Symbol(b, p, h)
           no == [L |-> L, p |-> p, ok |-> FALSE]
           rep(v, base, k) ==
             IF ~Has(b, x.p, k) THEN no
             ELSE LET m == base + Bits(b, x.p, k)
                  IN IF Len(L) + m > n THEN no ELSE Lengths(b, x.p + k, h, L \o [i \in 1..m |-> v], n)
       IN CASE x.s < 0 -> no
            [] x.s >= 0 /\ x.s < 16 -> Lengths(b, x.p, h, Append(L, x.s), n)
            [] x.s = 16 -> IF L = <<>> THEN no ELSE rep(L[Len(L)], 3, 2)
            [] x.s = 17 -> rep(0, 3, 3)
            [] OTHER -> rep(0, 11, 7)
Dynamic(b, s) ==
  IF ~Has(b, s.p, 14) THEN Err(s)
  ELSE LET nl == Bits(b, s.p, 5) + 257
           nd == Bits(b, s.p + 5, 5) + 1
           nc == Bits(b, s.p + 10, 4) + 4
           q == s.p + 14
       IN IF nl > 286 \/ ~Has(b, q, 3 * nc) THEN Err(s)
          ELSE LET cl == [i \in 1..19 |-> LET k == CHOOSE k \in 1..19 : Order[k] = i IN IF k <= nc THEN Bits(b, q + 3 * (k - 1), 3) ELSE 0]
                   h == Build(cl)
               IN CASE h.kind \in {"over", "empty", "incomplete"} -> Err(s)
                    [] h.kind = "single" \/ nd > 30 -> [s EXCEPT !.st = "any"]
                    [] OTHER ->
                         LET r == Lengths(b, q + 3 * nc, h, <<>>, nl + nd)
                         IN IF ~r.ok \/ r.L[257] = 0 THEN Err(s)
                            ELSE LET lit == Build(SubSeq(r.L, 1, nl))
                                     dist == Build(SubSeq(r.L, nl + 1, nl + nd))
                                 IN IF lit.kind \in {"over", "incomplete"} \/ dist.kind \in {"over", "incomplete"} THEN Err(s)
                                    ELSE Codes(b, [s EXCEPT !.p = r.p], lit, dist)
\* one block
Block(b, s) ==
  IF ~Has(b, s.p, 3) THEN Err(s)
  ELSE LET t == Bits(b, s.p + 1, 2)
           q == [s EXCEPT !.p = @ + 3]
           r == CASE t = 0 -> Stored(b, q) [] t = 1 -> Codes(b, q, FixedLit, FixedDist) [] t = 2 -> Dynamic(b, q) [] OTHER -> Err(q)
       IN IF r.st = "ok" /\ Bit(b, s.p) = 1 THEN [r EXCEPT !.st = "done"] ELSE r
RECURSIVE Blocks(_, _)
Blocks(b, s) == IF s.st # "ok" THEN s ELSE Blocks(b, Block(b, s))
Raw(bytes) == LET s == Blocks(BitsOf(bytes), [p |-> 0, out |-> <<>>, st |-> "ok"])
          IN [st |-> s.st, out |-> IF s.st = "done" THEN s.out ELSE <<>>, used |-> (s.p + 7) \div 8]

(* ---- CRC-32 in two halves of 16 bits                                       *)
CrcTab == << <<0, 0>>, <<7607, 4196>>, <<15214, 8392>>, <<9945, 12460>>, <<30428, 16784>>, <<27499, 20980>>, <<19890, 24920>>, <<20485, 28988>>, <<60856, 33568>>, <<61455, 37700>>, <<54998, 41960>>, <<52065, 45964>>, <<39780, 49840>>, <<34515, 53972>>, <<40970, 57976>>, <<48573, 61980>> >>
Nib(c) == LET t == CrcTab[(c[2] % 16) + 1]
          IN << t[1] ^^ (c[1] \div 16), t[2] ^^ ((c[2] \div 16) + (c[1] % 16) * 4096) >>
CrcByte(c, x) == Nib(Nib(<<c[1], c[2] ^^ x>>))
Crc(bytes) == LET c == FoldLeft(CrcByte, <<65535, 65535>>, bytes) IN <<65535 - c[1], 65535 - c[2]>>

(* ---- the gzip member                                                       *)
Le16(b, i) == b[i] + 256 * b[i + 1]
Half(b, i) == <<Le16(b, i + 2), Le16(b, i)>>
\* index after a zero terminated field starting at i, 0 if it does not end
RECURSIVE Zero(_, _)
Zero(b, i) == IF i > Len(b) THEN 0 ELSE IF b[i] = 0 THEN i + 1 ELSE Zero(b, i + 1)
Flag(b, n) == (b[4] \div n) % 2 = 1
Header(b) == \* index of the deflate data, 0 if the header is not valid
  IF Len(b) < 18 \/ b[1] # 31 \/ b[2] # 139 \/ b[3] # 8 \/ b[4] >= 32 THEN 0
  ELSE LET i1 == IF ~Flag(b, 4) THEN 11 ELSE IF 13 + Le16(b, 11) > Len(b) THEN 0 ELSE 13 + Le16(b, 11)
           i2 == IF i1 = 0 \/ ~Flag(b, 8) THEN i1 ELSE Zero(b, i1)
           i3 == IF i2 = 0 \/ ~Flag(b, 16) THEN i2 ELSE Zero(b, i2)
       IN IF i3 = 0 \/ ~Flag(b, 2) THEN i3
          ELSE IF i3 + 1 > Len(b) THEN 0
          ELSE IF Crc(SubSeq(b, 1, i3 - 1))[2] # Le16(b, i3) THEN 0 ELSE i3 + 2
\* the length field is the length mod 2^32; outputs here are shorter than 2^31
Gunzip(b) ==
  LET i == Header(b)
      bad == [st |-> "error", out |-> <<>>]
  IN IF i = 0 \/ Len(b) - i + 1 < 8 THEN bad
     ELSE LET r == Raw(SubSeq(b, i, Len(b) - 8))
              n == Len(r.out)
          IN CASE r.st = "any" -> [st |-> "any", out |-> <<>>]
               [] r.st = "error" -> bad
               [] OTHER -> IF /\ i + r.used = Len(b) - 7
                              /\ Half(b, Len(b) - 7) = Crc(r.out)
                              /\ Half(b, Len(b) - 3) = <<n \div 65536, n % 65536>>
                           THEN [st |-> "done", out |-> r.out] ELSE bad
==============================================================================
