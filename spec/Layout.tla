------------------------------- MODULE Layout -------------------------------
(* Layout of C objects (System V ABI, x86-64, with the GNU attributes), their *)
(* initialisation (C99 6.7.8 with GNU ranges) and access to their members.    *)
(* type: [k: s, t] scalar; [k: a, n, of] array (n = -1: as many as needed);   *)
(* [k: r, u, packed, al, pack, ms] structure or union of members              *)
(* [n, ty, w, al, pk]: w = -1, or the width of a bit-field; al: alignment     *)
(* asked for or 0; pk: packed; n = "" for unnamed ones                        *)
EXTENDS CInt

SizeT == [bool |-> 1, char |-> 1, schar |-> 1, uchar |-> 1, short |-> 2, ushort |-> 2, int |-> 4, uint |-> 4, long |-> 8, ulong |-> 8, llong |-> 8, ullong |-> 8,
          ptr |-> 8, float |-> 4, double |-> 8, ldouble |-> 16]
Up(x, a) == ((x + a - 1) \div a) * a
Mx(x, y) == IF x > y THEN x ELSE y
Mn(x, y) == IF x < y THEN x ELSE y

(* ---- layout: the type with [size, align] in bytes and each member's off, in bits *)
RECURSIVE Lay(_)
RECURSIVE Place(_, _, _, _)
\* members i.. of structure ty; s: [cur, align, ms]
Place(ty, ms, i, s) ==
  IF i > Len(ms) THEN s
  ELSE LET m == ms[i]
           l == Lay(m.ty)
           packed == ty.packed \/ m.pk
           a0 == IF packed THEN 1 ELSE IF ty.pack > 0 THEN Mn(ty.pack, l.align) ELSE l.align
           a == Mx(a0, m.al)
           start == IF ty.u THEN 0 ELSE s.cur
           off == IF m.w < 0 THEN Up(start, a * 8)
                  ELSE IF m.w = 0 THEN Up(start, l.align * 8)
                  ELSE IF ~packed /\ (start % (l.size * 8)) + m.w > l.size * 8 THEN Up(start, l.align * 8)
                  ELSE start
           end == off + (IF m.w < 0 THEN l.size * 8 ELSE m.w)
           counts == m.w < 0 \/ m.n # ""
       IN Place(ty, ms, i + 1, [cur |-> Mx(s.cur, end), align |-> IF counts THEN Mx(s.align, a) ELSE s.align,
                                ms |-> Append(s.ms, [n |-> m.n, ty |-> l, w |-> m.w, off |-> off])])
Lay(ty) ==
  CASE ty.k = "s" -> [k |-> "s", t |-> ty.t, size |-> SizeT[ty.t], align |-> SizeT[ty.t]]
    [] ty.k = "a" -> LET e == Lay(ty.of) IN [k |-> "a", n |-> ty.n, of |-> e, size |-> Mx(ty.n, 0) * e.size, align |-> e.align]
    [] OTHER -> LET p == Place(ty, ty.ms, 1, [cur |-> 0, align |-> 1, ms |-> <<>>])
                    al == Mx(p.align, ty.al)
                IN [k |-> "r", u |-> ty.u, ms |-> p.ms, size |-> Up(Up(p.cur, 8) \div 8, al), align |-> al]

(* ---- scalars inside an object, in order: [off, w (bits), t, bf, un: shares its place with others] *)
RECURSIVE Leaves(_, _, _)
RECURSIVE LeavesA(_, _, _, _)
RECURSIVE LeavesM(_, _, _, _)
LeavesA(e, i, base, un) == IF i = 0 THEN <<>> ELSE LeavesA(e, i - 1, base, un) \o Leaves(e, base + (i - 1) * e.size * 8, un)
LeavesM(ms, i, base, un) ==
  IF i = 0 THEN <<>>
  ELSE LeavesM(ms, i - 1, base, un) \o
       (IF ms[i].w >= 0 THEN (IF ms[i].n = "" THEN <<>> ELSE <<[off |-> base + ms[i].off, w |-> ms[i].w, t |-> ms[i].ty.t, bf |-> TRUE, un |-> un]>>)
        ELSE Leaves(ms[i].ty, base + ms[i].off, un))
Leaves(l, base, un) ==
  CASE l.k = "s" -> <<[off |-> base, w |-> IF l.t = "ldouble" THEN 80 ELSE l.size * 8, t |-> l.t, bf |-> FALSE, un |-> un]>>
    [] l.k = "a" -> LeavesA(l.of, Mx(l.n, 0), base, un)
    [] OTHER -> LeavesM(l.ms, Len(l.ms), base, un \/ l.u)

(* ---- representation of the value v (a small integer) in a scalar: bytes *)
RECURSIVE Log(_)
Log(n) == IF n < 2 THEN 0 ELSE 1 + Log(n \div 2)
FloatBytes(v, mant, expo, bias, n) ==     \* sign, exponent of expo bits, mant stored fraction bits
  IF v = 0 THEN [i \in 1..n |-> 0]
  ELSE LET a == IF v < 0 THEN -v ELSE v
           e == Log(a)
           f == Mul(FromInt(a - TwoTo(e)), Pow2(mant - e))
           x == Add(f, Mul(FromInt(bias + e), Pow2(mant)))
       IN Bytes(IF v < 0 THEN Add(x, Pow2(mant + expo)) ELSE x, n)
LongDouble(v) ==
  IF v = 0 THEN [i \in 1..10 |-> 0]
  ELSE LET a == IF v < 0 THEN -v ELSE v
           e == Log(a)
           x == Add(Mul(FromInt(a), Pow2(63 - e)), Mul(FromInt(16383 + e), Pow2(64)))
       IN Bytes(IF v < 0 THEN Add(x, Pow2(79)) ELSE x, 10)
\* v: [n: negative, m: magnitude bytes]; floating scalars only take small ones
ValBytes(v, t, w) ==
  LET b == Big(v.n, Norm(v.m))
  IN CASE t = "float" -> FloatBytes(ToInt(b), 23, 8, 127, 4)
       [] t = "double" -> FloatBytes(ToInt(b), 52, 11, 1023, 8)
       [] t = "ldouble" -> LongDouble(ToInt(b))
       [] t = "bool" -> <<IF b = Zero THEN 0 ELSE 1>>
       [] t = "ptr" -> Bytes(b, 8)
       [] OTHER -> Bytes(Low(b, w), (w + 7) \div 8)

(* ---- initialisation *)
(* initialiser: [k: e, v] | [k: l, is: sequence of [d, v]] | [k: s, b: bytes]  *)
(* designators: [k: m, n] [k: i, i] [k: r, i, j]                               *)
\* write: [off, w, by]
Bad0 == [ok |-> FALSE, ws |-> <<>>]
\* where a member name is: sequence of member indices (through unnamed aggregates), or <<>>
RECURSIVE Find(_, _)
Find(l, n) ==
  IF l.k # "r" THEN <<>>
  ELSE LET direct == {i \in 1..Len(l.ms) : l.ms[i].n = n}
           via == {i \in 1..Len(l.ms) : l.ms[i].n = "" /\ l.ms[i].w < 0 /\ Find(l.ms[i].ty, n) # <<>>}
       IN IF direct # {} THEN <<CHOOSE i \in direct : TRUE>>
          ELSE IF via # {} THEN LET i == CHOOSE j \in via : TRUE IN <<i>> \o Find(l.ms[i].ty, n)
          ELSE <<>>
\* frame: aggregate l at base, i: the next element (from 1)
Skip(l, i) == IF l.k = "r" THEN LET h == {j \in i..Len(l.ms) : l.ms[j].n # "" \/ l.ms[j].w < 0} IN IF h = {} THEN Len(l.ms) + 1 ELSE CHOOSE j \in h : \A q \in h : j <= q ELSE i
Frame(l, base, i) == [l |-> l, base |-> base, i |-> Skip(l, i), sel |-> FALSE]
\* number of elements that can be reached by going on
Ends(f) == IF f.l.k = "a" THEN (f.l.n >= 0 /\ f.i > f.l.n) ELSE IF f.l.u THEN f.sel \/ f.i > Len(f.l.ms) ELSE f.i > Len(f.l.ms)
\* the element the frame is at: [l, off, w]
At(f) == IF f.l.k = "a" THEN [l |-> f.l.of, off |-> f.base + (f.i - 1) * f.l.of.size * 8, w |-> -1]
         ELSE [l |-> f.l.ms[f.i].ty, off |-> f.base + f.l.ms[f.i].off, w |-> f.l.ms[f.i].w]
Advance(f) == [f EXCEPT !.i = Skip(f.l, f.i + 1), !.sel = TRUE]
IsAgg(l) == l.k # "s"
CharArr(l) == l.k = "a" /\ l.of.k = "s" /\ l.of.t \in {"char", "schar", "uchar"}
IntArr(l) == l.k = "a" /\ l.of.k = "s" /\ l.of.t = "int"
Flex(l) == l.k = "a" /\ l.n < 0
Inside(w, lo, hi) == w.off >= lo /\ w.off < hi /\ w.off + w.w <= hi
Touches(ws, lo, hi) == \E i \in 1..Len(ws) : ws[i].w > 0 /\ ws[i].off < hi /\ ws[i].off + ws[i].w > lo
Clear(ws, lo, hi) == SelectSeq(ws, LAMBDA w : ~Inside(w, lo, hi))
RECURSIVE Items(_, _, _, _, _)
RECURSIVE Give(_, _, _, _)
RECURSIVE Pick(_, _, _)
\* initialise element e := [l, off, w] from v (not descending into unbraced aggregates)
Give(e, v, ws, n) ==
  IF v.k = "l" THEN
    (IF IsAgg(e.l)
     THEN IF Len(v.is) = 1 /\ v.is[1].d = <<>> /\ v.is[1].v.k = "s" /\ (CharArr(e.l) \/ IntArr(e.l))
          THEN Give(e, v.is[1].v, Clear(ws, e.off, e.off + e.l.size * 8), n)
          ELSE Items(e.l, e.off, v.is, [ok |-> TRUE, ws |-> Append(Clear(ws, e.off, e.off + e.l.size * 8), [off |-> e.off, w |-> 0, by |-> <<>>])], <<Frame(e.l, e.off, 1)>>)
     ELSE IF Len(v.is) = 1 /\ v.is[1].d = <<>> /\ v.is[1].v.k = "e" THEN Give(e, v.is[1].v, ws, n) ELSE Bad0)
  ELSE IF v.k = "s" THEN
    (IF ~(CharArr(e.l) \/ IntArr(e.l)) THEN Bad0
     ELSE LET sz == e.l.of.size
              cnt == IF e.l.n < 0 THEN Len(v.b) + 1 ELSE e.l.n
          IN IF Len(v.b) > cnt \/ (sz = 1) # ~v.wide THEN Bad0
             ELSE [ok |-> TRUE, ws |-> Clear(ws, e.off, e.off + e.l.size * 8) \o [i \in 1..cnt |-> [off |-> e.off + (i - 1) * sz * 8, w |-> sz * 8,
                     by |-> [j \in 1..sz |-> IF j = 1 /\ i <= Len(v.b) THEN v.b[i] ELSE 0]]]])
  ELSE IF IsAgg(e.l) THEN Bad0
  ELSE LET w == IF e.w >= 0 THEN e.w ELSE IF e.l.t = "ldouble" THEN 80 ELSE e.l.size * 8
       IN [ok |-> TRUE, ws |-> Append(ws, [off |-> e.off, w |-> w, by |-> ValBytes(v.v, e.l.t, w)])]
\* follow designators from the frame stack: new stack, whose top is at the designated element; <<>> if there is none
Pick(st, ds, ws) ==
  IF ds = <<>> THEN st
  ELSE LET f == st[Len(st)]
           d == ds[1]
           rest == Tail(ds)
           go(path, fr) ==    \* select the members of path, one frame each
             LET RECURSIVE G(_, _)
                 G(p, s) == LET h == s[Len(s)]
                                s2 == [s EXCEPT ![Len(s)] = [h EXCEPT !.i = p[1], !.sel = FALSE]]
                                at == At(s2[Len(s2)])
                            IN IF Len(p) = 1 THEN s2 ELSE G(Tail(p), Append(s2, Frame(at.l, at.off, 1)))
             IN G(path, fr)
           step(s) == IF rest = <<>> THEN s
                      ELSE LET at == At(s[Len(s)]) IN IF ~IsAgg(at.l) \/ Flex(at.l) THEN <<>> ELSE Pick(Append(s, Frame(at.l, at.off, 1)), rest, ws)
       IN IF d.k = "m" THEN LET p == Find(f.l, d.n) IN IF p = <<>> THEN <<>> ELSE step(go(p, st))
          ELSE IF f.l.k # "a" THEN <<>>
          ELSE IF f.l.n >= 0 /\ (d.i >= f.l.n \/ (d.k = "r" /\ d.j >= f.l.n)) THEN <<>>
          ELSE step([st EXCEPT ![Len(st)] = [f EXCEPT !.i = d.i + 1, !.sel = FALSE]])
\* unions on the way that already hold something: nothing is said about such objects
Reused(st, ws, from) == \E j \in from..Len(st) : st[j].l.k = "r" /\ st[j].l.u /\ Touches(ws, st[j].base, st[j].base + st[j].l.size * 8)
RECURSIVE Settle(_)
Settle(st) == IF st = <<>> THEN <<>> ELSE IF Ends(st[Len(st)]) THEN LET up == SubSeq(st, 1, Len(st) - 1) IN IF up = <<>> THEN <<>> ELSE Settle([up EXCEPT ![Len(up)] = Advance(@)]) ELSE st
\* descend until v can initialise the element at the top of the stack
RECURSIVE Descend(_, _)
Descend(st, v) ==
  LET at == At(st[Len(st)])
  IN IF IsAgg(at.l) /\ at.l.k = "a" /\ at.l.n < 0 THEN <<>>     \* flexible members are left alone
     ELSE IF v.k = "l" \/ ~IsAgg(at.l) \/ (v.k = "s" /\ ((CharArr(at.l) /\ ~v.wide) \/ (IntArr(at.l) /\ v.wide))) THEN st
     ELSE LET f == Frame(at.l, at.off, 1) IN IF Ends(f) THEN <<>> ELSE Descend(Append(st, f), v)
Items(l, base, is, r, st0) ==
  IF is = <<>> \/ ~r.ok THEN r
  ELSE LET it == is[1]
           st1 == IF it.d = <<>> THEN Settle(st0) ELSE Pick(<<Frame(l, base, 1)>>, it.d, r.ws)
           st == IF st1 = <<>> THEN <<>> ELSE Descend(st1, it.v)
           old == IF it.d = <<>> THEN Len(IF st0 = <<>> THEN <<>> ELSE Settle(st0)) + 1 ELSE 1
           top == st[Len(st)]
           next(r2, f) == Items(l, base, Tail(is), r2, [st EXCEPT ![Len(st)] = Advance(f)])
           rng == it.d # <<>> /\ it.d[Len(it.d)].k = "r"
       IN IF st = <<>> THEN Bad0
          ELSE IF Flex(At(top).l) THEN Bad0
          ELSE IF Reused(st, r.ws, old) \/ (it.d = <<>> /\ top.l.k = "r" /\ top.l.u /\ Touches(r.ws, top.base, top.base + top.l.size * 8)) THEN Bad0
          ELSE IF ~rng THEN next(Give(At(top), it.v, r.ws, 0), top)
          ELSE IF Len(st) # Len(st1) THEN Bad0    \* a range of aggregates needs braces
          ELSE LET d == it.d[Len(it.d)]
                   RECURSIVE All(_, _)
                   All(j, q) == IF j > d.j \/ ~q.ok THEN q ELSE All(j + 1, Give(At([top EXCEPT !.i = j + 1]), it.v, q.ws, 0))
               IN IF d.j < d.i THEN Bad0 ELSE next(All(d.i, r), [top EXCEPT !.i = d.j + 1])
\* an object of unknown length has as many elements as were initialised
Used(l, ws) == LET ends == {(ws[i].off \div (l.of.size * 8)) + 1 : i \in 1..Len(ws)} IN IF ends = {} THEN 0 ELSE CHOOSE x \in ends : \A y \in ends : y <= x
BitAt(by, k) == LET q == k \div 8 + 1 IN IF q > Len(by) THEN 0 ELSE (by[q] \div TwoTo(k % 8)) % 2
Memory(ws, size, init) ==
  [i \in 1..size |-> LET lo == (i - 1) * 8
                         v == {j \in 1..Len(ws) : ws[j].off < lo + 8 /\ ws[j].off + ws[j].w > lo}
                         x == [j \in 0..7 |-> LET h == {q \in v : ws[q].off <= lo + j /\ lo + j < ws[q].off + ws[q].w}
                                              IN IF h = {} THEN BitAt(<<init[i]>>, j) ELSE LET m == CHOOSE q \in h : \A p \in h : p <= q IN BitAt(ws[m].by, lo + j - ws[m].off)]
                     IN IF v = {} THEN init[i] ELSE x[0] + 2 * x[1] + 4 * x[2] + 8 * x[3] + 16 * x[4] + 32 * x[5] + 64 * x[6] + 128 * x[7]]
\* bits with a definite value: those of members (of the first one of a union nothing was stored in), and those stored
Ones(w) == [i \in 1..(w + 7) \div 8 |-> 255]
RECURSIVE Definite(_, _, _)
RECURSIVE DefM(_, _, _, _)
DefM(ms, i, base, ws) ==
  IF i = 0 THEN <<>>
  ELSE DefM(ms, i - 1, base, ws) \o
       (IF ms[i].w >= 0 THEN (IF ms[i].n = "" THEN <<>> ELSE <<[off |-> base + ms[i].off, w |-> ms[i].w, by |-> Ones(ms[i].w)]>>)
        ELSE Definite(ms[i].ty, base + ms[i].off, ws))
Definite(l, base, ws) ==
  CASE l.k = "s" -> LET w == IF l.t = "ldouble" THEN 80 ELSE l.size * 8 IN <<[off |-> base, w |-> w, by |-> Ones(w)]>>
    [] l.k = "a" -> LET RECURSIVE G(_)
                        G(i) == IF i > Mx(l.n, 0) THEN <<>> ELSE Definite(l.of, base + (i - 1) * l.of.size * 8, ws) \o G(i + 1)
                    IN G(1)
    [] ~l.u -> DefM(l.ms, Len(l.ms), base, ws)
    [] OTHER -> IF Touches(ws, base, base + l.size * 8) \/ l.ms = <<>> THEN <<>>
                ELSE LET i == Skip(l, 1) IN IF i > Len(l.ms) THEN <<>> ELSE DefM(<<l.ms[i]>>, 1, base, ws)
Zeros(n) == [i \in 1..n |-> 0]
\* outcome of an object's definition
Initial(l0, v) ==
  LET r == Give([l |-> l0, off |-> 0, w |-> -1], v, <<>>, 0)
  IN IF ~r.ok THEN [ok |-> FALSE, size |-> 0, bytes |-> <<>>, mask |-> <<>>]
     ELSE LET l == IF l0.k = "a" /\ l0.n < 0 THEN [l0 EXCEPT !.n = Used(l0, r.ws), !.size = Used(l0, r.ws) * l0.of.size] ELSE l0
              mk == Definite(l, 0, r.ws) \o [i \in 1..Len(r.ws) |-> [r.ws[i] EXCEPT !.by = Ones(r.ws[i].w)]]
          IN [ok |-> TRUE, size |-> l.size, bytes |-> Memory(r.ws, l.size, Zeros(l.size)), mask |-> Memory(mk, l.size, Zeros(l.size))]

(* ---- access: writes to leaves of an object filled with a pattern *)
Value(mem, f) ==   \* as 64 bits
  LET by == [i \in 1..(f.w + 7) \div 8 |->
               IF f.off % 8 = 0 /\ i * 8 <= f.w THEN mem[f.off \div 8 + i]
               ELSE LET x == [j \in 0..7 |-> LET b == f.off + (i - 1) * 8 + j IN IF (i - 1) * 8 + j >= f.w THEN 0 ELSE BitAt(<<mem[b \div 8 + 1]>>, b % 8)]
                    IN x[0] + 2 * x[1] + 4 * x[2] + 8 * x[3] + 16 * x[4] + 32 * x[5] + 64 * x[6] + 128 * x[7]]
  IN IF f.t \in {"float", "double", "ldouble"} THEN by
     ELSE LET x == FromBytes(by) IN Bytes(IF f.t # "ptr" /\ Sgn[f.t] THEN WrapTo(x, f.w, TRUE) ELSE x, 8)
Store(mem, f, v) == Memory(<<[off |-> f.off, w |-> f.w, by |-> ValBytes(v, f.t, f.w)]>>, Len(mem), mem)
\* offsets of the members that have an address, each array with its last element, in order
RECURSIVE Offs(_, _)
RECURSIVE OffsM(_, _, _)
OffsM(ms, i, base) == IF i = 0 THEN <<>>
                      ELSE OffsM(ms, i - 1, base) \o (IF ms[i].w >= 0 THEN <<>> ELSE (IF ms[i].n # "" /\ ms[i].ty.k = "r" THEN <<(base + ms[i].off) \div 8>> ELSE <<>>) \o Offs(ms[i].ty, base + ms[i].off))
Offs(l, base) == CASE l.k = "s" -> <<base \div 8>>
                   [] l.k = "a" -> <<base \div 8>> \o (IF l.n <= 0 THEN <<>> ELSE LET b == base + (l.n - 1) * l.of.size * 8 IN (IF l.of.k = "r" THEN <<b \div 8>> ELSE <<>>) \o Offs(l.of, b))
                   [] OTHER -> OffsM(l.ms, Len(l.ms), base)
\* case: [ty, init: sequence of initialisers, hist: sequence of [leaf, v], fill]
LayOutcome(c) ==
  LET l == Lay(c.ty)
      lv == Leaves(l, 0, FALSE)
      fill == [i \in 1..l.size |-> c.fill]
      all == Memory([i \in 1..Len(lv) |-> [off |-> lv[i].off, w |-> lv[i].w, by |-> Ones(lv[i].w)]], l.size, Zeros(l.size))
      RECURSIVE H(_, _, _)
      H(i, mem, out) == IF i > Len(c.hist) THEN out
                        ELSE LET m2 == Store(mem, lv[c.hist[i].leaf], c.hist[i].v) IN H(i + 1, m2, Append(out, [mem |-> m2, val |-> Value(m2, lv[c.hist[i].leaf])]))
      hs == H(1, fill, <<>>)
  IN [size |-> l.size, align |-> l.align, offs |-> IF l.k = "r" THEN Offs(l, 0) ELSE <<>>,
      inits |-> [i \in 1..Len(c.init) |-> Initial(l, c.init[i])],
      all |-> all, hist |-> hs,
      final |-> IF hs = <<>> THEN <<>> ELSE [i \in 1..Len(lv) |-> Value(hs[Len(hs)].mem, lv[i])]]
=============================================================================
