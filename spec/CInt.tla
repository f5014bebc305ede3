-------------------------------- MODULE CInt --------------------------------
(* Type and value of C integer expressions (C99 6.3, 6.5; LP64). Expressions  *)
(* are trees evaluated in a store; the result tells the type, the value, the  *)
(* store afterwards and whether anything undefined was met.                   *)
EXTENDS BigInt, Bitwise, FiniteSets

Rank == [bool |-> 0, char |-> 1, schar |-> 1, uchar |-> 1, short |-> 2, ushort |-> 2, int |-> 3, uint |-> 3, long |-> 4, ulong |-> 4, llong |-> 5, ullong |-> 5]
Width == [bool |-> 1, char |-> 8, schar |-> 8, uchar |-> 8, short |-> 16, ushort |-> 16, int |-> 32, uint |-> 32, long |-> 64, ulong |-> 64, llong |-> 64, ullong |-> 64]
Sgn == [t \in DOMAIN Rank |-> t \in {"char", "schar", "short", "int", "long", "llong"}]
ToU == [int |-> "uint", long |-> "ulong", llong |-> "ullong", uint |-> "uint", ulong |-> "ulong", ullong |-> "ullong"]
SizeOf(t) == IF t = "bool" THEN 1 ELSE Width[t] \div 8
\* conversion to a type; w > 0: to a bit-field of w bits
Conv(v, t, w) == IF t = "bool" THEN (IF v = Zero THEN Zero ELSE FromInt(1))
                 ELSE WrapTo(v, IF w > 0 THEN w ELSE Width[t], Sgn[t])
InType(v, t) == Conv(v, t, 0) = v
Promote(t, w) == IF w > 0 THEN (IF t = "uint" /\ w = 32 THEN "uint" ELSE "int") ELSE IF Rank[t] < 3 THEN "int" ELSE t
\* usual arithmetic conversions of promoted types
Common(a, b) ==
  IF a = b THEN a
  ELSE IF Sgn[a] = Sgn[b] THEN (IF Rank[a] > Rank[b] THEN a ELSE b)
  ELSE LET u == IF Sgn[a] THEN b ELSE a
           s == IF Sgn[a] THEN a ELSE b
       IN IF Rank[u] >= Rank[s] THEN u ELSE IF Width[s] > Width[u] THEN s ELSE ToU[s]

BoolInt(b) == IF b THEN FromInt(1) ELSE Zero
Bw(op, x, y) == CASE op = "&" -> x & y [] op = "|" -> x | y [] OTHER -> x ^^ y
Bitwise2(op, a, b, t) ==
  LET n == Width[t] \div 8
      x == Bytes(a, n)
      y == Bytes(b, n)
  IN Conv(FromBytes([i \in 1..n |-> Bw(op, x[i], y[i])]), t, 0)
\* a result in type t: unsigned ones wrap, signed ones must be representable
Make(v, t) == IF Sgn[t] THEN [t |-> t, v |-> v, ub |-> ~InType(v, t)] ELSE [t |-> t, v |-> Conv(v, t, 0), ub |-> FALSE]
Bad(t) == [t |-> t, v |-> Zero, ub |-> TRUE]
Compare(op, c) == CASE op = "<" -> c < 0 [] op = ">" -> c > 0 [] op = "<=" -> c <= 0 [] op = ">=" -> c >= 0 [] op = "==" -> c = 0 [] OTHER -> c # 0
Shift(op, v, t, k) ==    \* k: the value of the count
  IF k.n \/ Cmp(k, FromInt(Width[t])) >= 0 THEN Bad(t)
  ELSE LET n == ToInt(k)
       IN IF op = "<<" THEN (IF v.n THEN Bad(t) ELSE Make(Mul(v, Pow2(n)), t)) ELSE [t |-> t, v |-> ShiftDown(v, n), ub |-> FALSE]
\* binary operator on converted-to-be operands (types and widths given)
Binary(op, a, ta, b, tb) ==
  IF op \in {"<<", ">>"} THEN Shift(op, a, ta, b)
  ELSE LET t == Common(ta, tb)
           x == Conv(a, t, 0)
           y == Conv(b, t, 0)
       IN CASE op \in {"&", "|", "^"} -> [t |-> t, v |-> Bitwise2(op, x, y, t), ub |-> FALSE]
            [] op \in {"<", ">", "<=", ">=", "==", "!="} -> [t |-> "int", v |-> BoolInt(Compare(op, Cmp(x, y))), ub |-> FALSE]
            [] op = "+" -> Make(Add(x, y), t)
            [] op = "-" -> Make(Sub(x, y), t)
            [] op = "*" -> Make(Mul(x, y), t)
            [] y = Zero -> Bad(t)
            [] op = "/" -> Make(Quot(x, y), t)
            [] OTHER -> IF InType(Quot(x, y), t) THEN [t |-> t, v |-> Rest(x, y), ub |-> FALSE] ELSE Bad(t)
Unary(op, a, t) ==
  CASE op = "!" -> [t |-> "int", v |-> BoolInt(a = Zero), ub |-> FALSE]
    [] op = "-" -> Make(Neg(a), t)
    [] op = "~" -> [t |-> t, v |-> Conv(Sub(Neg(a), FromInt(1)), t, 0), ub |-> FALSE]
    [] OTHER -> [t |-> t, v |-> a, ub |-> FALSE]

\* result of an expression; w > 0 when it has the type of a bit-field of w bits
R(t, w, v, st, ub) == [t |-> t, w |-> w, v |-> v, st |-> st, ub |-> ub]
Of(x, st, ub) == R(x.t, 0, x.v, st, ub \/ x.ub)
Lit(e) == Big(FALSE, Norm(e.v))
RECURSIVE TypeOf(_, _)
TypeOf(e, vars) ==     \* [t, w] without evaluating
  CASE e.k = "lit" -> [t |-> e.t, w |-> 0]
    [] e.k \in {"var", "asg", "opasg", "pre", "post"} -> [t |-> vars[e.i].t, w |-> vars[e.i].w]
    [] e.k = "un" -> IF e.op = "!" THEN [t |-> "int", w |-> 0] ELSE LET a == TypeOf(e.a, vars) IN [t |-> Promote(a.t, a.w), w |-> 0]
    [] e.k = "bin" -> LET a == TypeOf(e.a, vars)
                          b == TypeOf(e.b, vars)
                      IN [t |-> IF e.op \in {"<", ">", "<=", ">=", "==", "!="} THEN "int"
                                ELSE IF e.op \in {"<<", ">>"} THEN Promote(a.t, a.w) ELSE Common(Promote(a.t, a.w), Promote(b.t, b.w)), w |-> 0]
    [] e.k = "logic" -> [t |-> "int", w |-> 0]
    [] e.k = "cond" -> LET a == TypeOf(e.a, vars)
                           b == TypeOf(e.b, vars) IN [t |-> Common(Promote(a.t, a.w), Promote(b.t, b.w)), w |-> 0]
    [] e.k = "comma" -> TypeOf(e.b, vars)
    [] e.k = "cast" -> [t |-> e.t, w |-> 0]
    [] OTHER -> [t |-> "ulong", w |-> 0]    \* sizeof
RECURSIVE Ev(_, _, _)
Ev(e, st, vars) ==
  CASE e.k = "lit" -> R(e.t, 0, Lit(e), st, FALSE)
    [] e.k = "var" -> R(vars[e.i].t, vars[e.i].w, st[e.i], st, FALSE)
    [] e.k = "sizeof" -> R("ulong", 0, FromInt(SizeOf(TypeOf(e.a, vars).t)), st, FALSE)
    [] e.k = "un" -> LET a == Ev(e.a, st, vars) IN Of(Unary(e.op, a.v, Promote(a.t, a.w)), a.st, a.ub)
    [] e.k = "cast" -> LET a == Ev(e.a, st, vars) IN R(e.t, 0, Conv(a.v, e.t, 0), a.st, a.ub)
    [] e.k = "bin" -> LET a == Ev(e.a, st, vars)
                          b == Ev(e.b, a.st, vars)
                      IN Of(Binary(e.op, a.v, Promote(a.t, a.w), b.v, Promote(b.t, b.w)), b.st, a.ub \/ b.ub)
    [] e.k = "logic" -> LET a == Ev(e.a, st, vars)
                        IN IF (a.v = Zero) = (e.op = "&&") THEN R("int", 0, BoolInt(e.op = "||"), a.st, a.ub)
                           ELSE LET b == Ev(e.b, a.st, vars) IN R("int", 0, BoolInt(b.v # Zero), b.st, a.ub \/ b.ub)
    [] e.k = "cond" -> LET c == Ev(e.c, st, vars)
                           t == TypeOf(e, vars).t
                           x == IF c.v # Zero THEN Ev(e.a, c.st, vars) ELSE Ev(e.b, c.st, vars)
                       IN R(t, 0, Conv(x.v, t, 0), x.st, c.ub \/ x.ub)
    [] e.k = "comma" -> LET a == Ev(e.a, st, vars)
                            b == Ev(e.b, a.st, vars) IN R(b.t, b.w, b.v, b.st, a.ub \/ b.ub)
    [] e.k = "asg" -> LET a == Ev(e.a, st, vars)
                          v == Conv(a.v, vars[e.i].t, vars[e.i].w)
                      IN R(vars[e.i].t, vars[e.i].w, v, [a.st EXCEPT ![e.i] = v], a.ub)
    [] e.k = "opasg" -> LET a == Ev(e.a, st, vars)
                            d == vars[e.i]
                            x == Binary(e.op, a.st[e.i], Promote(d.t, d.w), a.v, Promote(a.t, a.w))
                            v == Conv(x.v, d.t, d.w)
                        IN R(d.t, d.w, v, [a.st EXCEPT ![e.i] = v], a.ub \/ x.ub)
    [] OTHER ->     \* pre, post: ++ and --
         LET d == vars[e.i]
             x == Binary(IF e.op = "++" THEN "+" ELSE "-", st[e.i], Promote(d.t, d.w), FromInt(1), "int")
             v == Conv(x.v, d.t, d.w)
         IN R(d.t, d.w, IF e.k = "pre" THEN v ELSE st[e.i], [st EXCEPT ![e.i] = v], x.ub)

\* where the value goes: "value", "cond" (tested), "conv" (to type u), "switch" (on labels)
Use(c, r) ==
  CASE c.use = "cond" -> BoolInt(r.v # Zero)
    [] c.use = "conv" -> Conv(r.v, c.u, 0)
    [] c.use = "switch" -> LET t == Promote(r.t, r.w)
                               hits == {k \in 1..Len(c.labels) : Conv(Big(c.labels[k].n, Norm(c.labels[k].m)), t, 0) = r.v}
                           IN IF hits = {} THEN Zero ELSE FromInt(CHOOSE k \in hits : \A j \in hits : k <= j)
    [] OTHER -> r.v
Init0(c) == [i \in 1..Len(c.vars) |-> Conv(Big(FALSE, Norm(c.vars[i].v)), c.vars[i].t, c.vars[i].w)]
Outcome(c) ==
  LET r == Ev(c.e, Init0(c), c.vars)
  IN IF r.ub THEN [ub |-> TRUE, t |-> "", v |-> <<>>, st |-> <<>>]
     ELSE [ub |-> FALSE, t |-> IF r.w > 0 THEN "bits" ELSE r.t, v |-> Bytes(Use(c, r), 8), st |-> [i \in 1..Len(c.vars) |-> Bytes(r.st[i], 8)]]
=============================================================================
