------------------------------ MODULE MCMiniC -------------------------------
(* The abstract machine of MiniC against the laws of C's statements: every    *)
(* construct equals its expansion into simpler ones, in every context.        *)
EXTENDS MiniC, TLC, FiniteSets
CONSTANT Full
VARIABLES s, ctx, done
N(v) == [k |-> "num", v |-> v]
V(n) == [k |-> "var", n |-> n]
Bi(op, a, b) == [k |-> "bin", op |-> op, a |-> a, b |-> b]
T(id, e) == [k |-> "tr", id |-> id, e |-> e]
X(e) == [k |-> "e", e |-> e]
Inc(n) == [k |-> "inc", n |-> n, by |-> 1, post |-> TRUE]
B(ss) == [k |-> "blk", body |-> ss]
If(c, a, b) == [k |-> "if", c |-> c, a |-> a, b |-> b]
Go(l) == [k |-> "goto", l |-> l]
Lab(l, t) == [k |-> "lab", l |-> l, s |-> t]
Nop == [k |-> "nop"]
Brk == [k |-> "brk"]
Cont == [k |-> "cont"]
While(c, b) == [k |-> "while", c |-> c, b |-> b]
DoW(c, b) == [k |-> "do", c |-> c, b |-> b]
For(i, c, st, b) == [k |-> "for", i |-> i, c |-> c, s |-> st, b |-> b]
Sw(c, b) == [k |-> "sw", c |-> c, b |-> b]
Case(l, lo, hi, t) == [k |-> "case", l |-> l, lo |-> lo, hi |-> hi, s |-> t]
Def(l, t) == [k |-> "def", l |-> l, s |-> t]
Ret(e) == [k |-> "ret", e |-> <<e>>]
Decl(n, e, cl) == [k |-> "decl", n |-> n, e |-> <<e>>, cl |-> cl]

Leaves == {X(Inc("x")), X(T(1, V("x"))), Go("E"), Nop} \cup IF Full THEN {X([k |-> "asg", n |-> "y", e |-> V("x")]), Ret(N(7))} ELSE {}
Jumps == {Brk, Cont}
Conds == {Bi("<", V("x"), N(2)), N(0)} \cup IF ~Full THEN {[k |-> "or", a |-> T(3, V("x")), b |-> T(4, V("y"))]} ELSE {Bi("==", V("y"), N(1)), T(2, Bi("<", V("x"), V("y"))), [k |-> "and", a |-> T(3, V("x")), b |-> T(4, Bi("<", V("y"), N(2)))]}
Small(ls) == ls \cup {B(<<a, b>>) : a, b \in ls} \cup {If(c, a, <<b>>) : c \in Conds, a, b \in ls} \cup {If(c, a, <<>>) : c \in Conds, a \in ls}
           \cup {B(<<Go("I"), a, Lab("I", b)>>) : a, b \in ls}
Simple == Small(Leaves)
Jumpy == Small(Leaves \cup Jumps)
\* contexts: in a function, in a loop, in a loop in a switch, skipped into
Ctxs == {"plain", "loop", "switch", "if0"}
In(c, t) ==
  CASE c = "plain" -> <<t, X(T(8, V("y"))), Lab("E", Ret(V("x")))>>
    [] c = "loop" -> <<For(<<Decl("i", N(0), 0)>>, <<Bi("<", V("i"), N(2))>>, <<Inc("i")>>, B(<<X(Inc("y")), t, X(T(9, V("x")))>>)), X(T(8, V("y"))), Lab("E", Ret(V("x")))>>
    [] c = "switch" -> <<While(Bi("<", V("y"), N(3)), B(<<X(Inc("y")), Sw(V("y"), B(<<Case("k1", 1, 2, t), X(T(7, V("x"))), Def("k2", X(T(6, V("y"))))>>))>>)), Lab("E", Ret(V("x")))>>
    [] OTHER -> <<Go("J"), If(N(0), B(<<X(T(7, V("x"))), Lab("J", t), X(T(6, V("x")))>>), <<X(T(5, V("x")))>>), Lab("E", Ret(V("x")))>>
Prog(c, t, x, y) == [fs |-> <<[ps |-> <<"y">>, body |-> In(c, t)]>>, globals |-> 1, names |-> <<"x">>, init |-> <<x>>, fuel |-> 30, args |-> <<N(y)>>]
Same(c, t, u) == \A x, y \in 0..2 : LET p == Outcome(Prog(c, t, x, y))
                                        q == Outcome(Prog(c, u, x, y)) IN p.ub \/ q.ub \/ p = q
Init == s \in Jumpy /\ ctx \in Ctxs /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<s, ctx>>
Spec == Init /\ [][Next]_<<s, ctx, done>>
W(t) == B(<<X(Inc("x")), t>>)       \* a loop body that makes progress
Loopy == ctx \in {"loop", "switch"}
LoopLaws == (done /\ s \in Simple) => \A c \in Conds :
  /\ Same(ctx, While(c, W(s)), B(<<Lab("A", If(c, B(<<W(s), Go("A")>>), <<>>))>>))
  /\ Same(ctx, While(c, W(s)), For(<<>>, <<c>>, <<>>, W(s)))
  /\ Same(ctx, While(c, W(s)), If(c, DoW(c, W(s)), <<>>))
  /\ Same(ctx, DoW(c, W(s)), B(<<Lab("A", W(s)), If(c, Go("A"), <<>>)>>))
  /\ Same(ctx, For(<<X([k |-> "asg", n |-> "y", e |-> N(0)])>>, <<c>>, <<Inc("x")>>, s), B(<<X([k |-> "asg", n |-> "y", e |-> N(0)]), While(c, B(<<s, X(Inc("x"))>>))>>))
\* break and continue are jumps to the end of the loop and of its body
RECURSIVE Sub(_, _, _)
Sub(t, b, c) == CASE t.k = "brk" -> Go(b) [] t.k = "cont" -> Go(c)
                  [] t.k = "blk" -> B([i \in 1..Len(t.body) |-> Sub(t.body[i], b, c)])
                  [] t.k = "if" -> If(t.c, Sub(t.a, b, c), [i \in 1..Len(t.b) |-> Sub(t.b[i], b, c)])
                  [] t.k = "lab" -> Lab(t.l, Sub(t.s, b, c))
                  [] OTHER -> t
JumpLaws == done => \A c \in Conds :
  /\ Same(ctx, While(c, W(s)), B(<<While(c, B(<<Sub(W(s), "Z", "C"), Lab("C", Nop)>>)), Lab("Z", Nop)>>))
  /\ Same(ctx, For(<<>>, <<c>>, <<Inc("x")>>, s), B(<<Lab("A", Nop), If(c, B(<<Sub(s, "Z", "C"), Lab("C", X(Inc("x"))), Go("A")>>), <<>>), Lab("Z", Nop)>>))
SwitchLaws == (done /\ s \in Simple) =>
  /\ Same(ctx, Sw(V("x"), B(<<Case("p", 0, 0, s), Brk, Case("q", 1, 5, X(T(3, V("y")))), Brk, Def("r", s)>>)),
          If(Bi("==", V("x"), N(0)), s, <<If(Bi("<=", V("x"), N(5)), X(T(3, V("y"))), <<s>>)>>))
  /\ Same(ctx, Sw(V("x"), B(<<Def("r", X(T(3, V("y")))), Case("p", 1, 1, s)>>)), B(<<If(Bi("==", V("x"), N(1)), Nop, <<X(T(3, V("y")))>>), s>>))
  /\ Same(ctx, Sw(V("x"), B(<<s, Case("p", 7, 9, s)>>)), Nop)
DeadLaws == done =>
  /\ ((Loopy \/ s \in Simple) => Same(ctx, If(N(0), s, <<>>), Nop))
  /\ ((Loopy \/ s \in Simple) => Same(ctx, B(<<Go("Z"), s, Lab("Z", Nop)>>), Nop))
  /\ ((Loopy \/ s \in Simple) => Same(ctx, B(<<s>>), s))
  /\ ((Loopy \/ s \in Simple) => Same(ctx, If(N(0), Nop, <<s>>), s))
  /\ ((Loopy \/ s \in Simple) => Same(ctx, DoW(N(0), Nop), Nop))
\* a cleanup runs exactly once however the block is left
Cleanups == (done /\ (Loopy \/ s \in Simple)) => \A x, y \in 0..2 :
  LET t == B(<<Decl("q", N(40), 40), X(T(41, N(41))), s>>)
      p == Outcome(Prog(ctx, t, x, y)).out
      Num(id) == Cardinality({i \in 1..Len(p) : p[i][1] = id})
  IN Num(40) = Num(41) \/ Outcome(Prog(ctx, t, x, y)).ub
ExprLaws == (done /\ s = Nop /\ ctx = "loop") => \A a, b \in Conds :
  /\ Same(ctx, X(T(1, [k |-> "and", a |-> a, b |-> b])), X(T(1, [k |-> "cond", c |-> a, a |-> [k |-> "cond", c |-> b, a |-> N(1), b |-> N(0)], b |-> N(0)])))
  /\ Same(ctx, X(T(1, [k |-> "or", a |-> a, b |-> b])), X(T(1, [k |-> "cond", c |-> a, a |-> N(1), b |-> [k |-> "cond", c |-> b, a |-> N(1), b |-> N(0)]])))
  /\ Same(ctx, X(T(1, [k |-> "comma", a |-> a, b |-> b])), B(<<X(a), X(T(1, b))>>))
  /\ Same(ctx, If([k |-> "and", a |-> a, b |-> b], X(Inc("x")), <<X(Inc("y"))>>), B(<<If(a, If(b, B(<<X(Inc("x")), Go("Z")>>), <<>>), <<>>), X(Inc("y")), Lab("Z", Nop)>>))
  /\ Same(ctx, X(T(1, [k |-> "se", body |-> <<X(T(5, V("x"))), X(Inc("x"))>>, e |-> a])), B(<<X(T(5, V("x"))), X(Inc("x")), X(T(1, a))>>))
=============================================================================
