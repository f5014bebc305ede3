------------------------------- MODULE Whole -------------------------------
(* What a program of several units does: objects and functions with internal  *)
(* or external linkage, static initialisers holding values and addresses,     *)
(* constructors, main, exit handlers and destructors.                         *)
(* c.data: [n, u, st, tent, k, v]: name, unit, static, tentative, kind        *)
(*   ("i" integers, "p" pointers to integers, "f" functions, "s" string)      *)
(* c.fns: [n, u, st, cd (0, 1 constructor, 2 destructor), body]               *)
(* c.args: what main prints of its arguments; c.inp: numbers on its input     *)
(* c.ord: the units in the order they are given, c.ver: their versions        *)
EXTENDS Integers, Sequences, TLC

First(s, T(_)) == LET is == {i \in 1..Len(s) : T(s[i])} IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : i <= j
(* a name in a unit: its static object, else the one with external linkage    *)
DataOf(c, u, n) ==
  LET a == First(c.data, LAMBDA d : d.n = n /\ d.u = u /\ d.st)
      b == First(c.data, LAMBDA d : d.n = n /\ ~d.st /\ ~d.tent)
  IN IF a # 0 THEN a ELSE IF b # 0 THEN b ELSE First(c.data, LAMBDA d : d.n = n /\ ~d.st)
FnOf(c, u, n) ==
  LET a == First(c.fns, LAMBDA f : f.n = n /\ f.u = u /\ f.st)
  IN IF a # 0 THEN a ELSE First(c.fns, LAMBDA f : f.n = n /\ ~f.st)

Null == <<0, 0, 0>>
(* an address constant in unit u: element i of an object, a function, null    *)
Addr(c, u, a) == CASE a.k = "d" -> <<1, DataOf(c, u, a.n), a.i>>
                   [] a.k = "f" -> <<2, FnOf(c, u, a.n), 0>>
                   [] OTHER -> Null
(* initial memory; tentative definitions are zero                             *)
Mem0(c) == [d \in 1..Len(c.data) |->
  LET x == c.data[d] IN
  [i \in 1..Len(x.v) |-> CASE x.k = "i" -> IF x.tent THEN 0 ELSE x.v[i] + (IF i = 1 THEN c.ver[x.u] ELSE 0)
                           [] x.k = "s" -> x.v[i]
                           [] OTHER -> IF x.tent THEN Null ELSE Addr(c, x.u, x.v[i])]]

(* pointer value of an operand: a constant, or an element of a pointer object *)
Ptr(c, u, m, a) == IF a.k = "v" THEN m[DataOf(c, u, a.n)][a.i + 1] ELSE Addr(c, u, a)

(* where an object begins: after those before it, at a multiple of its        *)
(* alignment                                                                  *)
RECURSIVE Base(_, _)
Base(c, d) == LET from == IF d = 1 THEN 0 ELSE Base(c, d - 1) + 8 * Len(c.data[d - 1].v)
              IN from + ((c.data[d].al - (from % c.data[d].al)) % c.data[d].al)

Frame(c, f) == [u |-> c.fns[f].u, b |-> c.fns[f].body, i |-> 1]
Out(s, v) == [s EXCEPT !.out = @ \o ToString(v) \o " "]
(* one statement of the topmost function                                      *)
Step(c, s) ==
  LET top == s.stack[Len(s.stack)]
      rest == SubSeq(s.stack, 1, Len(s.stack) - 1)
  IN IF top.i > Len(top.b) THEN [s EXCEPT !.stack = rest]
     ELSE LET x == top.b[top.i]
              u == top.u
              t == [s EXCEPT !.stack = Append(rest, [top EXCEPT !.i = @ + 1])]
              Call(f) == [t EXCEPT !.stack = Append(@, Frame(c, f))]
          IN CASE x.s = "out" -> Out(t, x.v + 100 * c.ver[u])
               [] x.s = "show" -> Out(t, s.mem[DataOf(c, u, x.n)][x.i + 1])
               [] x.s = "mis" -> Out(t, Base(c, DataOf(c, u, x.n)) % c.data[DataOf(c, u, x.n)].al)
               [] x.s = "str" -> [t EXCEPT !.out = @ \o s.mem[DataOf(c, u, x.n)][1] \o " "]
               [] x.s = "set" -> [t EXCEPT !.mem[DataOf(c, u, x.n)][x.i + 1] = x.v]
               [] x.s = "inc" -> [t EXCEPT !.mem[DataOf(c, u, x.n)][x.i + 1] = @ + x.v]
               [] x.s = "setp" -> [t EXCEPT !.mem[DataOf(c, u, x.n)][x.i + 1] = Ptr(c, u, s.mem, x.a)]
               [] x.s = "same" -> Out(t, IF Ptr(c, u, s.mem, x.a) = Ptr(c, u, s.mem, x.b) THEN 1 ELSE 0)
               [] x.s = "deref" -> LET p == Ptr(c, u, s.mem, x.a) IN Out(t, IF p = Null THEN -1 ELSE s.mem[p[2]][p[3] + 1])
               [] x.s = "store" -> LET p == Ptr(c, u, s.mem, x.a) IN IF p = Null THEN t ELSE [t EXCEPT !.mem[p[2]][p[3] + 1] = x.v]
               [] x.s = "call" -> Call(FnOf(c, u, x.n))
               [] x.s = "callp" -> LET p == Ptr(c, u, s.mem, x.a) IN IF p = Null THEN t ELSE Call(p[2])
               [] x.s = "atexit" -> [t EXCEPT !.ends = Append(@, FnOf(c, u, x.n))]
               [] x.s = "read" -> IF s.inp = <<>> THEN Out(t, -1) ELSE Out([t EXCEPT !.inp = Tail(@)], Head(s.inp))
               [] x.s = "exit" -> [t EXCEPT !.code = x.v, !.stack = <<>>]

RECURSIVE Exec(_, _, _)
Exec(c, s, k) == IF s.stack = <<>> \/ k = 0 THEN [s EXCEPT !.left = k] ELSE Exec(c, Step(c, s), k - 1)
Enter(c, s, f) == Exec(c, [s EXCEPT !.stack = <<Frame(c, f)>>], s.left)

(* constructors (destructors): by the order of the units, then of definition  *)
RECURSIVE CdOf(_, _, _)
CdOf(c, kind, j) == IF j > Len(c.ord) THEN <<>>
                    ELSE SelectSeq([i \in 1..Len(c.fns) |-> i], LAMBDA f : c.fns[f].u = c.ord[j] /\ c.fns[f].cd = kind) \o CdOf(c, kind, j + 1)
RECURSIVE EnterAll(_, _, _)
EnterAll(c, s, fs) == IF fs = <<>> THEN s ELSE EnterAll(c, Enter(c, s, Head(fs)), Tail(fs))
RECURSIVE Ends(_, _)
Ends(c, s) == IF s.ends = <<>> THEN s
              ELSE Ends(c, Enter(c, [s EXCEPT !.ends = SubSeq(@, 1, Len(@) - 1)], s.ends[Len(s.ends)]))
Reversed(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

Meaning(c) ==
  LET s0 == [mem |-> Mem0(c), out |-> "", stack |-> <<>>, inp |-> c.inp, ends |-> <<>>, code |-> c.code, left |-> 600]
      s1 == EnterAll(c, s0, CdOf(c, 1, 1))
      s2 == Enter(c, [s1 EXCEPT !.out = @ \o c.args], FnOf(c, 1, "main"))   \* main prints its arguments first
      s3 == Ends(c, s2)
      s4 == EnterAll(c, s3, Reversed(CdOf(c, 2, 1)))
  IN [out |-> s4.out, code |-> s4.code, ok |-> s4.left > 0]
=============================================================================
