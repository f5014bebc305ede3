------------------------------- MODULE MiniC --------------------------------
(* Abstract machine of C statements (C99 6.8, plus the GNU statement          *)
(* expressions, case ranges, computed goto, a ?: b and cleanup variables).    *)
(* A run of a program is a sequence of observations <<id, value>>.            *)
(* Executing a statement ends in a completion record:                         *)
(*   k: "n" normal, "brk", "cont", "goto" l, "ret" v, "ub" (anything          *)
(*   undefined, or out of fuel), "seek" (label looked for not in here)        *)
(* A statement is executed from its start (seek = "") or from a label in it.  *)
EXTENDS Integers, Sequences

Undef == -99999
Lim == 90000
\* state: mem: values of objects, out: observations, fuel, d: call depth
Res(k, v, l, st) == [k |-> k, v |-> v, l |-> l, st |-> st]
Norm(v, st) == Res("n", v, "", st)
UB(st) == Res("ub", Undef, "", st)
B2I(b) == IF b THEN 1 ELSE 0
Abs(x) == IF x < 0 THEN -x ELSE x
CDiv(x, y) == LET q == Abs(x) \div Abs(y) IN IF (x < 0) = (y < 0) THEN q ELSE -q
Op(op, x, y) ==
  CASE op = "+" -> x + y [] op = "-" -> x - y
    [] op = "*" -> IF Abs(x) > 300 \/ Abs(y) > 300 THEN Undef ELSE x * y
    [] op = "/" -> IF y = 0 THEN Undef ELSE CDiv(x, y)
    [] op = "%" -> IF y = 0 THEN Undef ELSE x - y * CDiv(x, y)
    [] op = "==" -> B2I(x = y) [] op = "!=" -> B2I(x # y) [] op = "<" -> B2I(x < y)
    [] op = ">" -> B2I(x > y) [] op = "<=" -> B2I(x <= y) [] OTHER -> B2I(x >= y)
Un(op, x) == CASE op = "-" -> -x [] op = "!" -> B2I(x = 0) [] op = "~" -> -x - 1 [] OTHER -> x
Ranged(v, st) == IF v = Undef \/ Abs(v) > Lim THEN UB(st) ELSE Norm(v, st)
\* environments: sequences of [n, a]: name and address; the innermost is last
RECURSIVE Find(_, _, _)
Find(env, n, i) == IF env[i].n = n THEN env[i].a ELSE Find(env, n, i - 1)
Loc(env, n) == Find(env, n, Len(env))
Set(st, a, v) == [st EXCEPT !.mem[a] = v]
Obs(st, id, v) == [st EXCEPT !.out = Append(@, <<id, v>>)]
Burn(st) == [st EXCEPT !.fuel = @ - 1]

\* is label l in statement s (not inside expressions)
RECURSIVE Has(_, _)
HasAny(ss, l) == \E i \in 1..Len(ss) : Has(ss[i], l)
Has(s, l) ==
  CASE s.k = "blk" -> HasAny(s.body, l)
    [] s.k = "if" -> Has(s.a, l) \/ HasAny(s.b, l)
    [] s.k \in {"while", "do", "for", "sw"} -> Has(s.b, l)
    [] s.k \in {"case", "def", "lab"} -> s.l = l \/ Has(s.s, l)
    [] OTHER -> FALSE
\* the case labels of a switch: sequence of [lo, hi, l]; default: lo > hi
RECURSIVE Cases(_)
RECURSIVE CasesOf(_, _)
CasesOf(ss, i) == IF i > Len(ss) THEN <<>> ELSE Cases(ss[i]) \o CasesOf(ss, i + 1)
Cases(s) ==
  CASE s.k = "blk" -> CasesOf(s.body, 1)
    [] s.k = "if" -> Cases(s.a) \o CasesOf(s.b, 1)
    [] s.k \in {"while", "do", "for"} -> Cases(s.b)
    [] s.k = "lab" -> Cases(s.s)
    [] s.k = "case" -> <<[lo |-> s.lo, hi |-> s.hi, l |-> s.l]>> \o Cases(s.s)
    [] s.k = "def" -> <<[lo |-> 1, hi |-> 0, l |-> s.l]>> \o Cases(s.s)
    [] OTHER -> <<>>
Select(cs, v) ==
  LET hit == {i \in 1..Len(cs) : cs[i].lo <= v /\ v <= cs[i].hi}
      def == {i \in 1..Len(cs) : cs[i].lo > cs[i].hi}
  IN IF hit # {} THEN cs[CHOOSE i \in hit : TRUE].l ELSE IF def # {} THEN cs[CHOOSE i \in def : TRUE].l ELSE ""

RECURSIVE Ev(_, _, _, _)
RECURSIVE Exec(_, _, _, _, _)
RECURSIVE Run(_, _, _, _, _, _, _)
RECURSIVE Block(_, _, _, _, _)
RECURSIVE Loop(_, _, _, _, _)
RECURSIVE ForLoop(_, _, _, _, _)
RECURSIVE Args(_, _, _, _, _, _)
\* an expression whose value is used
Use(e, env, st, P) == LET r == Ev(e, env, st, P) IN IF r.k = "n" /\ r.v = Undef THEN UB(r.st) ELSE r
\* cleanups of the first m declarations of a block, last first
RECURSIVE Clean(_, _, _, _)
Clean(ss, m, base, st) ==
  IF m = 0 THEN st
  ELSE Clean(ss, m - 1, base, IF ss[m].k = "decl" /\ ss[m].cl > 0 THEN Obs(st, ss[m].cl, st.mem[base + m]) ELSE st)
\* statements ss[i..] of a block whose variables live at base + their index
Run(ss, i, base, env, st, seek, P) ==
  IF i > Len(ss) THEN [r |-> Res(IF seek = "" THEN "n" ELSE "seek", 0, "", st), at |-> Len(ss)]
  ELSE LET s == ss[i]
           e2 == IF s.k = "decl" THEN Append(env, [n |-> s.n, a |-> base + i]) ELSE env
       IN IF s.k = "decl"
          THEN IF seek # "" THEN Run(ss, i + 1, base, e2, st, seek, P)
               ELSE IF s.e = <<>> THEN Run(ss, i + 1, base, e2, Set(st, base + i, Undef), "", P)
               ELSE LET r == Use(s.e[1], env, st, P)
                    IN IF r.k # "n" THEN [r |-> r, at |-> i - 1] ELSE Run(ss, i + 1, base, e2, Set(r.st, base + i, r.v), "", P)
          ELSE IF seek # "" /\ ~Has(s, seek) THEN Run(ss, i + 1, base, e2, st, seek, P)
          ELSE LET r == Exec(s, env, st, seek, P)
               IN IF r.k = "n" THEN Run(ss, i + 1, base, e2, r.st, "", P) ELSE [r |-> r, at |-> i - 1]
\* a whole block; a goto to a label in it starts it again from there, its objects live on
RECURSIVE Again(_, _, _, _, _, _)
Again(ss, base, env, st, seek, P) ==
  LET x == Run(ss, 1, base, env, st, seek, P)
      r == x.r
  IN IF r.k = "goto" /\ HasAny(ss, r.l)
     THEN IF r.st.fuel = 0 THEN UB(r.st) ELSE Again(ss, base, env, Burn(r.st), r.l, P)
     ELSE IF r.k = "ub" THEN r
     ELSE IF \E j \in 1..x.at : ss[j].k = "decl" /\ ss[j].cl > 0 /\ r.st.mem[base + j] = Undef THEN UB(r.st)   \* its declaration was jumped over
     ELSE [r EXCEPT !.st = Clean(ss, x.at, base, r.st)]
Grow(st, n) == [st EXCEPT !.mem = @ \o [i \in 1..n |-> Undef]]
Block(ss, env, st, seek, P) == Again(ss, Len(st.mem), env, Grow(st, Len(ss)), seek, P)

Exec(s, env, st, seek, P) ==
  CASE s.k = "e" -> LET r == Ev(s.e, env, st, P) IN IF r.k = "n" THEN Norm(0, r.st) ELSE r
    [] s.k = "nop" -> Norm(0, st)
    [] s.k = "blk" -> Block(s.body, env, st, seek, P)
    [] s.k = "if" ->
         IF seek # "" THEN (IF Has(s.a, seek) THEN Exec(s.a, env, st, seek, P) ELSE Exec(s.b[1], env, st, seek, P))
         ELSE LET c == Use(s.c, env, st, P)
              IN IF c.k # "n" THEN c
                 ELSE IF c.v # 0 THEN Exec(s.a, env, c.st, "", P)
                 ELSE IF s.b = <<>> THEN Norm(0, c.st) ELSE Exec(s.b[1], env, c.st, "", P)
    [] s.k \in {"while", "do"} -> Loop(s, env, st, IF s.k = "do" /\ seek = "" THEN "!" ELSE seek, P)
    [] s.k = "for" ->    \* the scope of the loop variable is a block of its own
         LET base == Len(st.mem)
             isdecl == s.i # <<>> /\ s.i[1].k = "decl"
             env2 == IF isdecl THEN Append(env, [n |-> s.i[1].n, a |-> base + 1]) ELSE env
             st2 == IF isdecl THEN Grow(st, 1) ELSE st
             i == IF seek # "" \/ s.i = <<>> THEN Norm(0, st2)
                  ELSE IF isdecl THEN (LET r == Use(s.i[1].e[1], env, st2, P) IN IF r.k = "n" THEN Norm(0, Set(r.st, base + 1, r.v)) ELSE r)
                  ELSE Ev(s.i[1].e, env2, st2, P)
         IN IF i.k # "n" THEN i ELSE ForLoop(s, env2, i.st, seek, P)
    [] s.k = "sw" ->
         LET c == IF seek # "" THEN Norm(0, st) ELSE Use(s.c, env, st, P)
             l == IF seek # "" THEN seek ELSE Select(Cases(s.b), c.v)
         IN IF c.k # "n" THEN c
            ELSE IF l = "" THEN Norm(0, c.st)
            ELSE LET r == Exec(s.b, env, c.st, l, P) IN IF r.k = "brk" THEN Norm(0, r.st) ELSE r
    [] s.k \in {"case", "def", "lab"} -> Exec(s.s, env, st, IF s.l = seek THEN "" ELSE seek, P)
    [] s.k = "brk" -> Res("brk", 0, "", st)
    [] s.k = "cont" -> Res("cont", 0, "", st)
    [] s.k = "ret" -> IF s.e = <<>> THEN Res("ret", Undef, "", st)
                      ELSE LET r == Use(s.e[1], env, st, P) IN IF r.k = "n" THEN Res("ret", r.v, "", r.st) ELSE r
    [] s.k = "sev" -> LET r == Use(s.e, env, st, P) IN IF r.k = "n" THEN Res("sev", r.v, "", r.st) ELSE r
    [] s.k = "goto" -> Res("goto", 0, s.l, st)
    [] s.k = "cgoto" -> LET r == Use(s.e, env, st, P)
                        IN IF r.k # "n" THEN r ELSE IF r.v \in 1..Len(s.ls) THEN Res("goto", 0, s.ls[r.v], r.st) ELSE UB(r.st)
    [] OTHER -> UB(st)
\* while and do; seek "!" : straight into the body
Loop(s, env, st, seek, P) ==
  LET c == IF seek # "" THEN Norm(1, st) ELSE Use(s.c, env, st, P)
  IN IF c.k # "n" THEN c
     ELSE IF c.v = 0 THEN Norm(0, c.st)
     ELSE IF c.st.fuel = 0 THEN UB(c.st)
     ELSE LET r == Exec(s.b, env, Burn(c.st), IF seek = "!" THEN "" ELSE seek, P)
          IN CASE r.k \in {"n", "cont"} -> Loop(s, env, r.st, "", P)
               [] r.k = "brk" -> Norm(0, r.st)
               [] OTHER -> r
ForLoop(s, env, st, seek, P) ==
  LET c == IF seek # "" \/ s.c = <<>> THEN Norm(1, st) ELSE Use(s.c[1], env, st, P)
      r == IF c.k # "n" \/ c.v = 0 THEN c ELSE IF c.st.fuel = 0 THEN UB(c.st) ELSE Exec(s.b, env, Burn(c.st), seek, P)
      n == IF s.s = <<>> THEN Norm(0, r.st) ELSE Ev(s.s[1], env, r.st, P)
      x == IF c.k = "n" /\ c.v # 0 /\ r.k \in {"n", "cont"} THEN n ELSE r
  IN CASE c.k = "n" /\ c.v = 0 -> Norm(0, c.st)
       [] x.k = "n" -> ForLoop(s, env, x.st, "", P)
       [] c.k = "n" /\ r.k = "brk" -> Norm(0, r.st)
       [] x.k = "goto" /\ Has(s.b, x.l) -> IF x.st.fuel = 0 THEN UB(x.st) ELSE ForLoop(s, env, Burn(x.st), x.l, P)
       [] OTHER -> x

\* arguments, left to right (programs have at most one with effects)
Args(as, ps, i, env, st, P) ==
  IF i > Len(as) THEN [r |-> Norm(0, st), b |-> <<>>]
  ELSE IF as[i].k = "ref"
       THEN LET x == Args(as, ps, i + 1, env, st, P) IN [r |-> x.r, b |-> <<[n |-> ps[i], a |-> Loc(env, as[i].n)]>> \o x.b]
       ELSE LET r == Use(as[i], env, st, P)
                a == Len(r.st.mem) + 1
                x == Args(as, ps, i + 1, env, [r.st EXCEPT !.mem = Append(@, r.v)], P)
            IN IF r.k # "n" THEN [r |-> r, b |-> <<>>] ELSE [r |-> x.r, b |-> <<[n |-> ps[i], a |-> a]>> \o x.b]
Ev(e, env, st, P) ==
  CASE e.k = "num" -> Norm(e.v, st)
    [] e.k = "var" -> LET v == st.mem[Loc(env, e.n)] IN IF v = Undef THEN UB(st) ELSE Norm(v, st)
    [] e.k = "asg" -> LET r == Use(e.e, env, st, P) IN IF r.k = "n" THEN Norm(r.v, Set(r.st, Loc(env, e.n), r.v)) ELSE r
    [] e.k = "opasg" -> LET r == Use(e.e, env, st, P)
                            a == Loc(env, e.n)
                            x == IF r.st.mem[a] = Undef THEN UB(r.st) ELSE Ranged(Op(e.op, r.st.mem[a], r.v), r.st)
                        IN IF r.k # "n" THEN r ELSE IF x.k # "n" THEN x ELSE Norm(x.v, Set(x.st, a, x.v))
    [] e.k = "inc" -> LET a == Loc(env, e.n)
                          v == st.mem[a]
                          w == v + e.by
                      IN IF v = Undef THEN UB(st) ELSE IF Abs(w) > Lim THEN UB(st) ELSE Norm(IF e.post THEN v ELSE w, Set(st, a, w))
    [] e.k = "bin" -> LET x == Use(e.a, env, st, P)
                          y == IF x.k = "n" THEN Use(e.b, env, x.st, P) ELSE x
                      IN IF y.k # "n" THEN y ELSE Ranged(Op(e.op, x.v, y.v), y.st)
    [] e.k = "un" -> LET x == Use(e.a, env, st, P) IN IF x.k # "n" THEN x ELSE Ranged(Un(e.op, x.v), x.st)
    [] e.k \in {"and", "or"} ->
         LET x == Use(e.a, env, st, P)
         IN IF x.k # "n" THEN x
            ELSE IF (x.v = 0) = (e.k = "and") THEN Norm(B2I(e.k = "or"), x.st)
            ELSE LET y == Use(e.b, env, x.st, P) IN IF y.k # "n" THEN y ELSE Norm(B2I(y.v # 0), y.st)
    [] e.k = "cond" -> LET x == Use(e.c, env, st, P)
                       IN IF x.k # "n" THEN x ELSE IF x.v # 0 THEN Ev(e.a, env, x.st, P) ELSE Ev(e.b, env, x.st, P)
    [] e.k = "elvis" -> LET x == Use(e.a, env, st, P) IN IF x.k # "n" \/ x.v # 0 THEN x ELSE Ev(e.b, env, x.st, P)
    [] e.k = "comma" -> LET x == Ev(e.a, env, st, P) IN IF x.k # "n" THEN x ELSE Ev(e.b, env, x.st, P)
    [] e.k = "tr" -> LET x == Use(e.e, env, st, P) IN IF x.k # "n" THEN x ELSE Norm(x.v, Obs(x.st, e.id, x.v))
    [] e.k = "se" -> \* ({ statements; value; }): the value is the last expression, computed in the block
         LET x == Block(Append(e.body, [k |-> "sev", e |-> e.e]), env, st, "", P)
         IN IF x.k = "sev" THEN Norm(x.v, x.st) ELSE x
    [] e.k = "call" ->
         LET f == P.fs[e.f]
             x == Args(e.as, f.ps, 1, env, st, P)
             r == Block(f.body, SubSeq(env, 1, P.globals) \o x.b, [x.r.st EXCEPT !.d = @ + 1, !.fuel = @ - 1], "", P)
         IN IF x.r.k # "n" THEN x.r
            ELSE IF x.r.st.d > 12 \/ x.r.st.fuel <= 0 THEN UB(x.r.st)
            ELSE IF r.k \in {"n", "ret"} THEN Norm(IF r.k = "ret" THEN r.v ELSE Undef, [r.st EXCEPT !.d = @ - 1])
            ELSE UB(r.st)
    [] OTHER -> UB(st)

\* a program: globals are the first objects; function 1 is called with the given arguments
Start(P) == [mem |-> P.init, out |-> <<>>, fuel |-> P.fuel, d |-> 0]
GEnv(P) == [i \in 1..P.globals |-> [n |-> P.names[i], a |-> i]]
Outcome(P) ==
  LET r == Ev([k |-> "call", f |-> 1, as |-> P.args], GEnv(P), Start(P), P)
  IN [ub |-> r.k # "n" \/ r.v = Undef, v |-> r.v, out |-> r.st.out, g |-> SubSeq(r.st.mem, 1, P.globals)]
=============================================================================
