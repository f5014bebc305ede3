-------------------------------- MODULE Macro -------------------------------
(* Macro replacement (C99 6.10.3), with hide sets: a token remembers the      *)
(* macros whose expansion it came from and is not replaced by those again.    *)
(* Where the standard leaves open whether a replacement is nested (a call     *)
(* that begins in an expansion and ends behind it), both answers are computed *)
(* and the case is only decided if they agree.                                *)
(* token: [t: text as a sequence of characters, k: kind, sp: white space      *)
(* before it, hs: hide set]; kinds: id, num, str, pun, and internally pm      *)
(* (placemarker), op (the # and ## operators of a body), bad (undefined)      *)
EXTENDS Integers, Sequences, FiniteSets

Lim == 120
Flat(ss) == LET RECURSIVE G(_)
                G(i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o G(i + 1) IN G(1)
BadTok == [t |-> <<"?">>, k |-> "bad", sp |-> FALSE, hs |-> {}]
PM(sp) == [t |-> <<>>, k |-> "pm", sp |-> sp, hs |-> {}]
IsP(tok, p) == tok.k = "pun" /\ tok.t = p
LP == <<"(">>
RP == <<")">>
CM == <<",">>
\* macro named n, if any. ms: sequence of [n, fn, ps, va, body]
Has(ms, n) == \E i \in 1..Len(ms) : ms[i].n = n
Get(ms, n) == ms[CHOOSE i \in 1..Len(ms) : ms[i].n = n]

\* arguments of a call: index of the first token after "(" -> [args, last: index of ")", ok]
RECURSIVE Collect(_, _, _, _, _, _)
Collect(ts, i, depth, cur, args, maxc) ==    \* maxc: number of commas that separate (further ones belong to the variable part)
  IF i > Len(ts) THEN [ok |-> FALSE, args |-> args, last |-> i]
  ELSE LET x == ts[i]
       IN IF IsP(x, LP) THEN Collect(ts, i + 1, depth + 1, Append(cur, x), args, maxc)
          ELSE IF IsP(x, RP) THEN IF depth = 0 THEN [ok |-> TRUE, args |-> Append(args, cur), last |-> i]
                                  ELSE Collect(ts, i + 1, depth - 1, Append(cur, x), args, maxc)
          ELSE IF IsP(x, CM) /\ depth = 0 /\ Len(args) < maxc THEN Collect(ts, i + 1, 0, <<>>, Append(args, cur), maxc)
          ELSE Collect(ts, i + 1, depth, Append(cur, x), args, maxc)

\* the # operator
Esc(x) == IF x.k # "str" THEN x.t ELSE Flat([i \in 1..Len(x.t) |-> IF x.t[i] \in {"\"", "\\"} THEN <<"\\", x.t[i]>> ELSE <<x.t[i]>>])
Stringify(ts, sp) ==
  [t |-> <<"\"">> \o Flat([i \in 1..Len(ts) |-> (IF i > 1 /\ ts[i].sp THEN <<" ">> ELSE <<>>) \o Esc(ts[i])]) \o <<"\"">>, k |-> "str", sp |-> sp, hs |-> {}]
\* the ## operator
Puns == {<<"+", "+">>, <<"-", "-">>, <<"-", ">">>, <<"<", "<">>, <<">", ">">>, <<"=", "=">>, <<"!", "=">>, <<"<", "=">>, <<">", "=">>, <<"&", "&">>, <<"|", "|">>, <<"+", "=">>,
         <<"-", "=">>, <<"*", "=">>, <<"/", "=">>, <<"%", "=">>, <<"&", "=">>, <<"|", "=">>, <<"^", "=">>, <<"<", "<", "=">>, <<">", ">", "=">>}
Paste(a, b) ==
  IF a.k = "pm" THEN [b EXCEPT !.sp = a.sp]
  ELSE IF b.k = "pm" THEN a
  ELSE LET t == a.t \o b.t
           k == CASE a.k = "id" /\ b.k = "num" /\ \E i \in 1..Len(b.t) : b.t[i] \in {".", "+", "-"} -> "bad"
                  [] a.k = "id" /\ b.k \in {"id", "num"} -> "id"
                  [] a.k = "num" /\ b.k \in {"id", "num"} -> "num"
                  [] a.k = "pun" /\ b.k = "pun" /\ t \in Puns -> "pun"
                  [] OTHER -> "bad"
       IN [t |-> t, k |-> k, sp |-> a.sp, hs |-> a.hs \cap b.hs]
IsOp(x, s) == x.k = "op" /\ x.t = s
Hash == <<"#">>
HH == <<"#", "#">>
Par(ps, x) == IF x.k = "id" /\ \E i \in 1..Len(ps) : ps[i] = x.t THEN CHOOSE i \in 1..Len(ps) : ps[i] = x.t ELSE 0
Space1(ts, sp) == IF ts = <<>> THEN ts ELSE [ts EXCEPT ![1].sp = sp]
\* pastes, left to right
RECURSIVE Join(_, _)
Join(ts, out) ==
  IF ts = <<>> THEN out
  ELSE IF IsOp(ts[1], HH) /\ Len(ts) > 1 /\ out # <<>>
       THEN Join(SubSeq(ts, 3, Len(ts)), SubSeq(out, 1, Len(out) - 1) \o <<Paste(out[Len(out)], ts[2])>>)
       ELSE Join(Tail(ts), Append(out, ts[1]))

RECURSIVE Expand(_, _, _, _)
\* body items from i on
RECURSIVE Subst(_, _, _, _, _)
Subst(m, args, i, ms, nest) ==
  IF i > Len(m.body) THEN <<>>
  ELSE LET b == m.body
           x == b[i]
           n == IF i < Len(b) THEN b[i + 1] ELSE PM(FALSE)
           p == Par(m.ps, x)
           raw(q, sp) == IF args[q] = <<>> THEN <<PM(sp)>> ELSE Space1(args[q], sp)
       IN IF m.fn /\ IsOp(x, Hash) /\ Par(m.ps, n) > 0
          THEN <<Stringify(args[Par(m.ps, n)], x.sp)>> \o Subst(m, args, i + 2, ms, nest)
          \* GNU: , ## __VA_ARGS__ : without variable arguments the comma goes
          ELSE IF m.va /\ IsP(x, CM) /\ IsOp(n, HH) /\ i + 2 <= Len(b) /\ Par(m.ps, b[i + 2]) = Len(m.ps)
          THEN (IF args[Len(m.ps)] = <<>> THEN <<>> ELSE <<x>> \o Space1(Expand(args[Len(m.ps)], ms, nest, 0), b[i + 2].sp)) \o Subst(m, args, i + 3, ms, nest)
          ELSE IF p > 0
          THEN (IF IsOp(n, HH) \/ (i > 1 /\ IsOp(b[i - 1], HH)) THEN raw(p, x.sp)
                ELSE LET e == Expand(args[p], ms, nest, 0) IN IF e = <<>> THEN <<PM(x.sp)>> ELSE Space1(e, x.sp)) \o Subst(m, args, i + 1, ms, nest)
          ELSE <<x>> \o Subst(m, args, i + 1, ms, nest)
\* replacement list of a call, with the hide set added and placemarkers gone
Replace(m, args, hs, sp, ms, nest) ==
  LET j == Join(Subst(m, args, 1, ms, nest), <<>>)
      k == SelectSeq(j, LAMBDA x : x.k # "pm")
  IN Space1([i \in 1..Len(k) |-> [k[i] EXCEPT !.hs = @ \cup hs]], sp)
ArgsOk(m, args) == \/ Len(args) = Len(m.ps)
                   \/ Len(m.ps) = 0 /\ args = <<<<>>>>
                   \/ m.va /\ Len(args) = Len(m.ps) - 1
Pad(m, args) == IF Len(args) < Len(m.ps) THEN Append(args, <<>>) ELSE args
Expand(ts, ms, nest, n) ==
  IF ts = <<>> THEN <<>>
  ELSE IF n > Lim \/ Len(ts) > Lim THEN <<BadTok>>
  ELSE LET x == ts[1]
           rest == Tail(ts)
           keep == <<x>> \o Expand(rest, ms, nest, n + 1)
       IN IF x.k # "id" \/ x.t \in x.hs THEN keep
          ELSE IF ~Has(ms, x.t) THEN keep
          ELSE LET m == Get(ms, x.t)
               IN IF ~m.fn THEN Expand(Replace(m, <<>>, x.hs \cup {m.n}, x.sp, ms, nest) \o rest, ms, nest, n + 1)
                  ELSE IF rest = <<>> THEN keep
                  ELSE IF ~IsP(rest[1], LP) THEN keep
                  ELSE LET c == Collect(rest, 2, 0, <<>>, <<>>, IF m.va THEN Len(m.ps) - 1 ELSE 99)
                           hs == IF ~c.ok THEN {} ELSE IF nest THEN x.hs \cup {m.n} ELSE (x.hs \cap rest[c.last].hs) \cup {m.n}
                       IN IF ~c.ok \/ ~ArgsOk(m, c.args) \/ \E i \in 1..Len(c.args) : \E j \in 1..Len(c.args[i]) : c.args[i][j].k = "bad" THEN <<BadTok>>
                          ELSE Expand(Replace(m, Pad(m, c.args), hs, x.sp, ms, nest) \o SubSeq(rest, c.last + 1, Len(rest)), ms, nest, n + 1)

Plain(ts) == [i \in 1..Len(ts) |-> [t |-> ts[i].t, k |-> ts[i].k, sp |-> ts[i].sp]]
Lift(ts) == [i \in 1..Len(ts) |-> [t |-> ts[i].t, k |-> ts[i].k, sp |-> ts[i].sp, hs |-> {}]]
LiftM(ms) == [i \in 1..Len(ms) |-> [ms[i] EXCEPT !.body = Lift(@)]]
\* case: [ms, text] -> the tokens the text becomes
Outcome(c) ==
  LET ms == LiftM(c.ms)
      a == Expand(Lift(c.text), ms, FALSE, 0)
      b == Expand(Lift(c.text), ms, TRUE, 0)
  IN [ok |-> a = [i \in 1..Len(a) |-> IF i > Len(b) THEN BadTok ELSE [b[i] EXCEPT !.hs = a[i].hs]] /\ Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i].k # "bad",
      out |-> Plain(a)]
=============================================================================
