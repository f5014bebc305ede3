--------------------------------- MODULE Abi ---------------------------------
(* Where the System V ABI for x86-64 puts arguments and results (3.2.3).      *)
(* A call is a sequence of arguments [ty, b] (a type of Layout, its bytes),   *)
(* and a result type. The result is the state of the machine at the callee's  *)
(* entry: six general registers, eight vector registers and the stack, as     *)
(* bytes with the bits that have a definite value.                            *)
EXTENDS Layout

Void == [k |-> "v"]
(* ---- classes of the eightbytes of a type *)
ScalarClass(t) == IF t \in {"float", "double"} THEN "SSE" ELSE "INT"
Merge(a, b) == IF a = b THEN a ELSE IF a = "NO" THEN b ELSE IF b = "NO" THEN a ELSE IF "MEM" \in {a, b} THEN "MEM" ELSE IF "INT" \in {a, b} THEN "INT"
               ELSE IF {a, b} \cap {"X87", "X87UP"} # {} THEN "MEM" ELSE "SSE"
\* class a leaf gives to eightbyte e (from 1)
LeafClass(f, e) ==
  LET lo == (e - 1) * 64 IN
  IF f.w = 0 \/ f.off >= lo + 64 \/ f.off + (IF f.t = "ldouble" THEN 128 ELSE f.w) <= lo THEN "NO"
  ELSE IF f.t = "ldouble" THEN (IF f.off = lo THEN "X87" ELSE "X87UP") ELSE ScalarClass(f.t)
RECURSIVE MergeAll(_, _, _)
MergeAll(lv, e, i) == IF i = 0 THEN "NO" ELSE Merge(MergeAll(lv, e, i - 1), LeafClass(lv[i], e))
Memory1 == <<"MEM">>
Classes(l) ==
  CASE l.k = "v" -> <<>>
    [] l.k = "s" -> IF l.t = "ldouble" THEN <<"X87", "X87UP">> ELSE <<ScalarClass(l.t)>>
    [] OTHER ->
       LET lv == Leaves(l, 0, FALSE)
           n == (l.size + 7) \div 8
           c == [e \in 1..n |-> MergeAll(lv, e, Len(lv))]
       IN IF l.size > 16 THEN Memory1
          ELSE IF \E i \in 1..Len(lv) : ~lv[i].bf /\ lv[i].off % (SizeT[lv[i].t] * 8) # 0 THEN Memory1
          ELSE IF \E e \in 1..n : c[e] = "MEM" THEN Memory1
          ELSE IF \E e \in 1..n : c[e] = "X87UP" /\ (e = 1 \/ c[e - 1] # "X87") THEN Memory1
          ELSE c
Count(c, x) == Cardinality({i \in 1..Len(c) : c[i] = x})
InMemory(c) == c # <<>> /\ (c[1] = "MEM" \/ \E i \in 1..Len(c) : c[i] = "X87")
ReturnsInMemory(c) == c # <<>> /\ c[1] = "MEM"
\* both kinds of registers, or an eightbyte of padding only
Split(c) == \/ Count(c, "INT") > 0 /\ Count(c, "SSE") > 0
            \/ Len(c) > 0 /\ Count(c, "NO") > 0

(* ---- placing: s = [gp, sse, st] registers used and bytes of stack; pieces [w, i, from, n] *)
RECURSIVE Regs(_, _, _)
Regs(c, k, s) ==   \* pieces of the eightbytes from k on
  IF k > Len(c) THEN <<>>
  ELSE CASE c[k] = "INT" -> <<[w |-> "gp", i |-> s.gp, from |-> (k - 1) * 8]>> \o Regs(c, k + 1, [s EXCEPT !.gp = @ + 1])
         [] c[k] = "SSE" -> <<[w |-> "sse", i |-> s.sse, from |-> (k - 1) * 8]>> \o Regs(c, k + 1, [s EXCEPT !.sse = @ + 1])
         [] OTHER -> Regs(c, k + 1, s)
PlaceArg(l, s) ==
  LET c == Classes(l)
      gi == Count(c, "INT")
      si == Count(c, "SSE")
      off == Up(s.st, Mx(8, l.align))
  IN IF l.size = 0 THEN [ps |-> <<>>, s |-> s]
     ELSE IF InMemory(c) \/ s.gp + gi > 6 \/ s.sse + si > 8
     THEN [ps |-> <<[w |-> "st", i |-> off, from |-> 0]>>, s |-> [s EXCEPT !.st = off + Up(l.size, 8)]]
     ELSE [ps |-> Regs(c, 1, s), s |-> [s EXCEPT !.gp = @ + gi, !.sse = @ + si]]
RECURSIVE PlaceAll(_, _, _)
PlaceAll(ls, i, s) == IF i > Len(ls) THEN [at |-> <<>>, s |-> s]
                      ELSE LET p == PlaceArg(ls[i], s)
                               r == PlaceAll(ls, i + 1, p.s)
                           IN [at |-> <<p.ps>> \o r.at, s |-> r.s]
Start(ret) == [gp |-> IF ReturnsInMemory(Classes(ret)) THEN 1 ELSE 0, sse |-> 0, st |-> 0]

(* ---- images *)
\* definite bits of an object
Mask(l) == LET lv == Leaves(l, 0, FALSE) IN Memory([i \in 1..Len(lv) |-> [off |-> lv[i].off, w |-> lv[i].w, by |-> Ones(lv[i].w)]], l.size, Zeros(l.size))
\* image of kind w with n bytes: the pieces of the arguments' bytes that are there
Take(b, from, n) == [j \in 1..n |-> IF from + j <= Len(b) THEN b[from + j] ELSE 0]
RECURSIVE Writes(_, _, _, _, _)
Writes(ps, ls, bs, w, a) ==
  IF a = 0 THEN <<>>
  ELSE LET h == SelectSeq(ps[a], LAMBDA q : q.w = w)
       IN Writes(ps, ls, bs, w, a - 1) \o
          [p \in 1..Len(h) |-> LET m == IF w = "st" THEN ls[a].size ELSE Mn(8, ls[a].size - h[p].from)
                               IN [off |-> 8 * (IF w = "st" THEN h[p].i ELSE 8 * h[p].i), w |-> 8 * m, by |-> Take(bs[a], h[p].from, m)]]
Fill(ps, ls, bs, w, n) == Memory(Writes(ps, ls, bs, w, Len(ps)), n, Zeros(n))
Args(c) ==
  LET ret == IF c.ret.ty.k = "v" THEN Void ELSE Lay(c.ret.ty)
      ls == [i \in 1..Len(c.args) |-> Lay(c.args[i].ty)]
      r == PlaceAll(ls, 1, Start(ret))
      bs == [i \in 1..Len(c.args) |-> c.args[i].b]
      ms == [i \in 1..Len(c.args) |-> Mask(ls[i])]
      rc == Classes(ret)
      rp == IF InMemory(rc) THEN <<>> ELSE Regs(rc, 1, [gp |-> 0, sse |-> 0, st |-> 0])
      rb == c.ret.b
      rm == IF ret.k = "v" THEN <<>> ELSE Mask(ret)
  IN [gp |-> Fill(r.at, ls, bs, "gp", 48), gpm |-> Fill(r.at, ls, ms, "gp", 48),
      sse |-> Fill(r.at, ls, bs, "sse", 64), ssem |-> Fill(r.at, ls, ms, "sse", 64),
      st |-> Fill(r.at, ls, bs, "st", r.s.st), stm |-> Fill(r.at, ls, ms, "st", r.s.st),
      used |-> r.s,
      masks |-> ms, sizes |-> [i \in 1..Len(ls) |-> ls[i].size], aligns |-> [i \in 1..Len(ls) |-> ls[i].align],
      split |-> Split(rc) \/ \E i \in 1..Len(ls) : Split(Classes(ls[i])),
      retsize |-> IF ret.k = "v" THEN 0 ELSE ret.size, retm |-> rm,
      retmem |-> ReturnsInMemory(rc), x87 |-> Count(rc, "X87") > 0,
      \* rax, rdx, xmm0, xmm1
      rv |-> Fill(<<rp>>, <<[size |-> Len(rb)]>>, <<rb>>, "gp", 16) \o Fill(<<rp>>, <<[size |-> Len(rb)]>>, <<rb>>, "sse", 16),
      rvm |-> Fill(<<rp>>, <<[size |-> Len(rb)]>>, <<rm>>, "gp", 16) \o Fill(<<rp>>, <<[size |-> Len(rb)]>>, <<rm>>, "sse", 16)]
=============================================================================
