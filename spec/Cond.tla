-------------------------------- MODULE Cond --------------------------------
(* Conditional inclusion (C99 6.10.1) with the macros it depends on, as a     *)
(* machine that reads one line after the other: a stack of open groups, the   *)
(* macros, those saved by push_macro, and what has been let through.          *)
(* line: [k] with k: if, elif [e]; ifdef, ifndef [n]; else; endif; def [n, v];*)
(* undef, push, pop [n]; mark [id]; val [n] (the macro's expansion is seen);  *)
(* error [id]; junk (anything, only harmless where it is skipped)             *)
(* value of a macro: [k: int, t, v, txt] [k: name, n] [k: empty]              *)
(* expressions: those of CInt with the types intmax_t and uintmax_t only, and *)
(* [k: mac, n] and [k: def, n]                                                *)
EXTENDS CInt

Idx(env, n) == LET h == {i \in 1..Len(env) : env[i].n = n} IN IF h = {} THEN 0 ELSE CHOOSE i \in h : TRUE
Without(env, n) == SelectSeq(env, LAMBDA x : x.n # n)
With(env, n, v) == Append(Without(env, n), [n |-> n, v |-> v])
Number(t, m) == [k |-> "lit", t |-> t, v |-> m]
\* what the name stands for, following macros that stand for names
RECURSIVE Chase(_, _, _)
Chase(env, n, seen) ==
  LET i == Idx(env, n)
  IN IF i = 0 \/ n \in seen THEN [k |-> "left", n |-> n]
     ELSE IF env[i].v.k = "name" THEN Chase(env, env[i].v.n, seen \cup {n}) ELSE env[i].v
RECURSIVE Empties(_, _)
Empties(e, env) ==    \* does some operand become nothing
  CASE e.k = "mac" -> Chase(env, e.n, {}).k = "empty"
    [] e.k \in {"un"} -> Empties(e.a, env)
    [] e.k \in {"bin", "logic"} -> Empties(e.a, env) \/ Empties(e.b, env)
    [] e.k = "cond" -> Empties(e.c, env) \/ Empties(e.a, env) \/ Empties(e.b, env)
    [] OTHER -> FALSE
RECURSIVE Resolve(_, _)
Resolve(e, env) ==
  CASE e.k = "mac" -> LET x == Chase(env, e.n, {}) IN IF x.k = "int" THEN Number(x.t, x.v) ELSE Number("llong", <<>>)
    [] e.k = "def" -> Number("llong", IF Idx(env, e.n) = 0 THEN <<>> ELSE <<1>>)
    [] e.k = "un" -> [e EXCEPT !.a = Resolve(@, env)]
    [] e.k \in {"bin", "logic"} -> [e EXCEPT !.a = Resolve(@, env), !.b = Resolve(@, env)]
    [] e.k = "cond" -> [e EXCEPT !.c = Resolve(@, env), !.a = Resolve(@, env), !.b = Resolve(@, env)]
    [] OTHER -> e
\* "yes", "no", or "bad": not a constant expression with a defined value
Test(e, env) == IF Empties(e, env) THEN "bad"
                ELSE LET r == Ev(Resolve(e, env), <<>>, <<>>) IN IF r.ub THEN "bad" ELSE IF r.v = Zero THEN "no" ELSE "yes"

Start(env) == [env |-> env, saved |-> <<>>, stack |-> <<>>, out |-> <<>>, st |-> "run"]
Top(s) == s.stack[Len(s.stack)]
\* open group: on: its lines count; done: no later group of this #if can; outer: lines around it count
Live(s) == s.stack = <<>> \/ Top(s).on
Open(s, on) == [s EXCEPT !.stack = Append(@, [on |-> Live(s) /\ on, done |-> ~Live(s) \/ on])]
Swap(s, on) == [s EXCEPT !.stack = [@ EXCEPT ![Len(@)] = [on |-> on, done |-> Top(s).done \/ on]]]
Text(x) == CASE x.k = "int" -> x.txt [] x.k = "empty" -> "" [] OTHER -> x.n
Bad_(s) == [s EXCEPT !.st = "bad"]
Decide(s, t, F(_)) == IF t = "bad" THEN Bad_(s) ELSE F(t = "yes")
Line(s, l) ==
  IF s.st # "run" THEN s
  ELSE CASE l.k \in {"if", "ifdef", "ifndef"} /\ ~Live(s) -> Open(s, FALSE)
    [] l.k = "if" -> Decide(s, Test(l.e, s.env), LAMBDA y : Open(s, y))
    [] l.k = "ifdef" -> Open(s, Idx(s.env, l.n) # 0)
    [] l.k = "ifndef" -> Open(s, Idx(s.env, l.n) = 0)
    [] l.k = "elif" -> IF Top(s).done THEN Swap(s, FALSE) ELSE Decide(s, Test(l.e, s.env), LAMBDA y : Swap(s, y))
    [] l.k = "else" -> Swap(s, ~Top(s).done)
    [] l.k = "endif" -> [s EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
    [] ~Live(s) -> s
    [] l.k = "def" -> [s EXCEPT !.env = With(Without(@, l.n), l.n, l.v)]
    [] l.k = "undef" -> [s EXCEPT !.env = Without(@, l.n)]
    [] l.k = "push" -> [s EXCEPT !.saved = Append(@, [n |-> l.n, i |-> Idx(s.env, l.n), v |-> IF Idx(s.env, l.n) = 0 THEN [k |-> "empty"] ELSE s.env[Idx(s.env, l.n)].v])]
    [] l.k = "pop" -> LET h == {j \in 1..Len(s.saved) : s.saved[j].n = l.n}
                      IN IF h = {} THEN s
                         ELSE LET j == CHOOSE j \in h : \A q \in h : q <= j
                                  x == s.saved[j]
                              IN [s EXCEPT !.saved = SubSeq(@, 1, j - 1) \o SubSeq(@, j + 1, Len(@)), !.env = IF x.i = 0 THEN Without(@, l.n) ELSE With(@, l.n, x.v)]
    [] l.k = "mark" -> [s EXCEPT !.out = Append(@, l.id)]
    [] l.k = "val" -> [s EXCEPT !.out = Append(@, Text(Chase(s.env, l.n, {})))]
    [] l.k = "error" -> [s EXCEPT !.st = "error", !.out = <<l.id>>]
    [] OTHER -> Bad_(s)
RECURSIVE Lines(_, _, _)
Lines(s, ls, i) == IF i > Len(ls) THEN s ELSE Lines(Line(s, ls[i]), ls, i + 1)
\* [st: run, error (with its message) or bad; out]
CondOutcome(c) == LET s == Lines(Start(c.env), c.lines, 1) IN [st |-> IF s.st = "run" /\ s.stack # <<>> THEN "bad" ELSE s.st, out |-> s.out]

\* the same as a function of the nesting: a tree is a sequence of lines and [k |-> "chain", arms: seq of [l, body]], its last arm possibly "else"
RECURSIVE Tree(_, _)
RECURSIVE Arms(_, _, _)
Arms(s, arms, i) ==
  IF i > Len(arms) THEN s
  ELSE LET l == arms[i].l
           t == CASE l.k \in {"if", "elif"} -> Test(l.e, s.env) [] l.k = "ifdef" -> (IF Idx(s.env, l.n) # 0 THEN "yes" ELSE "no")
                  [] l.k = "ifndef" -> (IF Idx(s.env, l.n) = 0 THEN "yes" ELSE "no") [] OTHER -> "yes"
       IN IF t = "bad" THEN Bad_(s) ELSE IF t = "yes" THEN Tree(s, arms[i].body) ELSE Arms(s, arms, i + 1)
Tree(s, items) ==
  IF items = <<>> \/ s.st # "run" THEN s
  ELSE Tree(IF items[1].k = "chain" THEN Arms(s, items[1].arms, 1) ELSE Line(s, items[1]), Tail(items))
RECURSIVE Unfold(_)
Unfold(items) ==
  IF items = <<>> THEN <<>>
  ELSE (IF items[1].k # "chain" THEN <<items[1]>>
        ELSE LET RECURSIVE G(_)
                 G(i) == IF i > Len(items[1].arms) THEN <<[k |-> "endif"]>> ELSE <<items[1].arms[i].l>> \o Unfold(items[1].arms[i].body) \o G(i + 1)
             IN G(1)) \o Unfold(Tail(items))
=============================================================================
