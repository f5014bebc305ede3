------------------------------- MODULE Valid -------------------------------
(* C02: which translation units of a subset of C are to be accepted.        *)
(* A unit is a sequence of external declarations over abstract syntax; the  *)
(* checker walks it with a symbol table of nested scopes and decides        *)
(*   "ok"   no constraint of C99 is violated,                               *)
(*   "err"  a constraint every compiler diagnoses as an error is violated,  *)
(*   "any"  anything else: what compilers only warn about or take as an     *)
(*          extension, or something whose consequences are not modelled.    *)
(* A status is the set of what was found: constraints violated, by name,    *)
(* "any" and "out". A constraint violated anywhere makes the unit an error, *)
(* unless something is "out".                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* "any" for what involves floating constants where an integer constant expression is required: some compilers fold it
J(a, b) == a \cup b
If(c, s) == IF c THEN {s} ELSE {}
Errs(s) == s \ {"any", "out"}

---------------------------------------------------------------------------
(* Types *)
IntKinds == {"bool", "char", "uchar", "short", "int", "uint", "long", "ulong", "en"}
FltKinds == {"float", "double"}
T(k) == [k |-> k]
IntT == T("int")
Ptr(t) == [k |-> "ptr", to |-> t]
IsInt(t) == t.k \in IntKinds
IsArith(t) == t.k \in IntKinds \cup FltKinds
IsScalar(t) == IsArith(t) \/ t.k = "ptr"
Decay(t) == CASE t.k = "arr" -> Ptr(t.to) [] t.k = "fun" -> Ptr(t) [] OTHER -> t
SizeOfKind == [bool |-> 1, char |-> 1, uchar |-> 1, short |-> 2, int |-> 4, uint |-> 4, en |-> 4, long |-> 8, ulong |-> 8, float |-> 4,
               double |-> 8, ptr |-> 8]

\* compatibility: {}, {"types"}, {"any"} or both
RECURSIVE Compat(_, _), CompatSeq(_, _)
Compat(a, b) ==
  IF a.k # b.k THEN {IF IsInt(a) /\ IsInt(b) /\ (a.k = "en" \/ b.k = "en") THEN "any" ELSE "types"}
  ELSE CASE a.k = "ptr" -> Compat(a.to, b.to)
         [] a.k = "arr" -> J(Compat(a.to, b.to), If(a.n # b.n /\ a.n # -1 /\ b.n # -1, "types"))
         [] a.k = "st" -> IF a.id = 0 \/ b.id = 0 THEN {"any"} ELSE If(a.id # b.id, "types")
         [] a.k = "fun" -> J(Compat(a.ret, b.ret),
                             IF a.old /\ b.old THEN {}
                             ELSE IF a.old \/ b.old THEN {"any"}
                             ELSE IF Len(a.pars) # Len(b.pars) \/ a.va # b.va THEN {"types"}
                             ELSE CompatSeq(a.pars, b.pars))
         [] OTHER -> {}
CompatSeq(s, u) == IF s = <<>> THEN {} ELSE J(Compat(Head(s), Head(u)), CompatSeq(Tail(s), Tail(u)))

---------------------------------------------------------------------------
(* Symbol table. Z.sc: scopes, innermost last, each [ids, tags]; Z.sts:     *)
(* structure types by number: [un, comp, mem]                               *)
Empty == [x \in {} |-> 0]
NewScope == [ids |-> Empty, tags |-> Empty]
RECURSIVE LookAt(_, _, _, _)
LookAt(sc, i, n, tags) ==
  IF i = 0 THEN 0
  ELSE LET f == IF tags THEN sc[i].tags ELSE sc[i].ids
       IN IF n \in DOMAIN f THEN i ELSE LookAt(sc, i - 1, n, tags)
Where(Z, n) == LookAt(Z.sc, Len(Z.sc), n, FALSE)
Ent(Z, n) == Z.sc[Where(Z, n)].ids[n]
WhereTag(Z, n) == LookAt(Z.sc, Len(Z.sc), n, TRUE)
TagId(Z, n) == LET w == WhereTag(Z, n) IN IF w = 0 THEN 0 ELSE Z.sc[w].tags[n]
Local(Z) == Len(Z.sc)
HasHere(Z, n) == n \in DOMAIN Z.sc[Local(Z)].ids
Put(Z, n, e) == [Z EXCEPT !.sc[Len(Z.sc)].ids = (n :> e) @@ @]
PutTag(Z, n, id) == [Z EXCEPT !.sc[Len(Z.sc)].tags = (n :> id) @@ @]
Fail(Z, s) == [Z EXCEPT !.s = J(Z.s, s)]
Push(Z) == [Z EXCEPT !.sc = Append(@, NewScope)]
Pop(Z) == [Z EXCEPT !.sc = SubSeq(@, 1, Len(@) - 1)]

\* structure tags named for the first time are declared, incomplete, where they are named
RECURSIVE Touch(_, _), TouchSeq(_, _)
Touch(Z, t) ==
  CASE t.k = "st" -> IF WhereTag(Z, t.tag) # 0 THEN Z
                     ELSE PutTag([Z EXCEPT !.sts = Append(@, [un |-> t.un, comp |-> FALSE, mem |-> <<>>])], t.tag, Len(Z.sts) + 1)
    [] t.k \in {"ptr", "arr"} -> Touch(Z, t.to)
    [] t.k = "fun" -> TouchSeq(Touch(Z, t.ret), t.pars)
    [] OTHER -> Z
TouchSeq(Z, s) == IF s = <<>> THEN Z ELSE TouchSeq(Touch(Z, Head(s)), Tail(s))

\* tags first named in a parameter list are not known outside of it
RECURSIVE NewInPars(_, _), HasNew(_, _)
HasNew(Z, t) == CASE t.k = "st" -> WhereTag(Z, t.tag) = 0
                  [] t.k \in {"ptr", "arr"} -> HasNew(Z, t.to)
                  [] t.k = "fun" -> HasNew(Z, t.ret) \/ NewInPars(Z, t)
                  [] OTHER -> FALSE
NewInPars(Z, t) == CASE t.k = "fun" -> NewInPars(Z, t.ret) \/ \E i \in DOMAIN t.pars : HasNew(Z, t.pars[i])
                     [] t.k \in {"ptr", "arr"} -> NewInPars(Z, t.to)
                     [] OTHER -> FALSE

\* a type name to a type
RECURSIVE Res(_, _)
Res(t, Z) ==
  CASE t.k = "st" -> [k |-> "st", id |-> TagId(Z, t.tag)]
    [] t.k = "ptr" -> Ptr(Res(t.to, Z))
    [] t.k = "arr" -> [k |-> "arr", to |-> Res(t.to, Z), n |-> t.n]
    [] t.k = "fun" -> [k |-> "fun", ret |-> Res(t.ret, Z), pars |-> [i \in DOMAIN t.pars |-> Decay(Res(t.pars[i], Z))], va |-> t.va, old |-> t.old]
    [] t.k = "td" -> IF Where(Z, t.n) = 0 THEN T("bad") ELSE IF Ent(Z, t.n).k = "td" THEN Ent(Z, t.n).t ELSE T("bad")
    [] t.k = "spec" -> T("int")
    [] OTHER -> t

RECURSIVE Complete(_, _)
Complete(t, Z) ==
  CASE t.k = "st" -> IF t.id = 0 THEN FALSE ELSE Z.sts[t.id].comp
    [] t.k = "arr" -> t.n # -1 /\ Complete(t.to, Z)
    [] t.k \in {"void", "fun", "bad"} -> FALSE
    [] OTHER -> TRUE
RECURSIVE HasFlex(_, _)
HasFlex(t, Z) == t.k = "st" /\ Complete(t, Z)
                 /\ LET m == Z.sts[t.id].mem IN m # <<>> /\ LET l == m[Len(m)].t IN (l.k = "arr" /\ l.n = -1) \/ HasFlex(l, Z)

\* lists of type specifiers C99 6.7.2 allows, as multisets
CountOf(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SpecOk(s) ==
  LET c(x) == CountOf(s, x)
      n == Len(s)
      sign == c("signed") + c("unsigned")
      base == n - sign - c("long") - c("short")
  IN /\ n > 0 /\ sign <= 1
     /\ \/ base = 1 /\ c("int") = 1 /\ c("short") + c("long") <= 1
        \/ base = 1 /\ c("int") = 1 /\ c("short") = 0 /\ c("long") = 2
        \/ base = 0 /\ c("short") + c("long") <= 1
        \/ base = 0 /\ c("short") = 0 /\ c("long") = 2
        \/ base = 1 /\ c("char") = 1 /\ c("short") + c("long") = 0
        \/ base = 1 /\ c("double") = 1 /\ sign = 0 /\ c("short") = 0 /\ c("long") <= 1
        \/ base = 1 /\ n = 1 /\ (c("float") = 1 \/ c("void") = 1 \/ c("_Bool") = 1)

\* constraints on a type name itself
RECURSIVE TyOk(_, _), TySeq(_, _)
TyOk(t, Z) ==
  CASE t.k = "td" -> If(Res(t, Z).k = "bad", "typename")
    [] t.k = "st" -> LET id == TagId(Z, t.tag) IN If(id # 0 /\ Z.sts[id].un # t.un, "tag")
    [] t.k = "ptr" -> TyOk(t.to, Z)
    [] t.k = "arr" -> LET e == Res(t.to, Z)
                      IN J(TyOk(t.to, Z), J(If(~Complete(e, Z), "element"), J(If(t.n < -1, "negative"), If(HasFlex(e, Z), "any"))))
    [] t.k = "fun" -> \* old compilers took int f()[] for int *f()
                         J(IF t.ret.k = "arr" /\ t.ret.n = -1 THEN {"out"} ELSE J(TyOk(t.ret, Z), If(Res(t.ret, Z).k \in {"arr", "fun"}, "result-type")),
                           TySeq(t.pars, Z))
    [] t.k = "spec" -> If(~SpecOk(t.w), "specifiers")
    [] OTHER -> {}
\* an argument cannot be of type void
TySeq(s, Z) == IF s = <<>> THEN {}
               ELSE J(J(TyOk(Head(s), Z), If(Res(Head(s), Z).k = "void", "void-parameter")), TySeq(Tail(s), Z))

---------------------------------------------------------------------------
(* Expressions. A result: s status, t type, lv "y"/"n"/"m" (some compilers  *)
(* take it), c constant: "n" no, "i" integer of value v, "x" integer of     *)
(* unknown value, "f" floating, "a" address; bf: a bit-field                *)
V(t, c, v) == [s |-> {}, t |-> t, lv |-> "n", c |-> c, v |-> v, bf |-> FALSE]
Rv(t) == V(t, "n", 0)
Lv(t, c) == [s |-> {}, t |-> t, lv |-> "y", c |-> c, v |-> 0, bf |-> FALSE]
NotLv(x) == x.lv \in {"n", "c"}     \* "c": a cast or unary plus
Cst(e, x) == IF x.lv = "c" THEN "-noop" ELSE IF x.t.k = "st" /\ e.k = "call" THEN "-result" ELSE "-value"
Bad(why) == [s |-> {why}, t |-> IntT, lv |-> "n", c |-> "n", v |-> 0, bf |-> FALSE]
Lax(t) == [s |-> {"any"}, t |-> t, lv |-> "m", c |-> "?", v |-> 0, bf |-> FALSE]
With(r, s) == [r EXCEPT !.s = J(s, @)]
Plus(o, r, s) == [r EXCEPT !.s = J(s, @), !.lv = IF o = "+" /\ @ = "n" THEN "c" ELSE @]
\* (some compilers take only an int, and not a _Bool, of value 0)
Null(r) == r.c = "i" /\ r.v = 0 /\ IsInt(r.t) /\ r.t.k # "bool"

\* the value of an operand: arrays and functions become pointers; lv and bf go
Val(r) == [r EXCEPT !.t = Decay(@), !.lv = "n", !.bf = FALSE,
           !.c = IF r.t.k \in {"arr", "fun"} THEN @ ELSE IF r.lv = "y" THEN "n" ELSE @]

Rank == [bool |-> 0, char |-> 1, uchar |-> 1, short |-> 2, int |-> 3, uint |-> 3, en |-> 3, long |-> 4, ulong |-> 4]
Promote(t) == IF t.k \in {"bool", "char", "uchar", "short", "en"} THEN IntT ELSE t
Usual(a, b) ==
  IF a.k = "double" \/ b.k = "double" THEN T("double") ELSE IF a.k = "float" \/ b.k = "float" THEN T("float")
  ELSE LET x == Promote(a)
           y == Promote(b)
       IN IF "ulong" \in {x.k, y.k} THEN T("ulong") ELSE IF "long" \in {x.k, y.k} THEN T("long")
          ELSE IF "uint" \in {x.k, y.k} THEN T("uint") ELSE IntT

\* may a value r be assigned, passed or returned to type t?
AssignSt(t, r, Z) ==
  IF r.t.k = "void" \/ t.k = "void" THEN {"assign-void"}
  ELSE IF IsArith(t) THEN
    IF IsArith(r.t) THEN {}
    ELSE IF r.t.k = "ptr" THEN IF t.k = "bool" THEN {} ELSE {IF t.k \in FltKinds THEN "assign-pointer-to-float" ELSE "any"}
    ELSE {"assign-types"}
  ELSE IF t.k = "ptr" THEN
    IF r.t.k = "ptr" THEN
       LET a == t.to
           b == r.t.to
       IN IF a.k = "void" \/ b.k = "void" THEN If(a.k = "fun" \/ b.k = "fun", "any") ELSE If(Compat(a, b) # {}, "any")
    ELSE IF IsInt(r.t) THEN If(~Null(r), "any") ELSE {"assign-types"}
  ELSE IF t.k = "st" /\ r.t.k = "st" THEN J(IF t.id = 0 \/ r.t.id = 0 THEN {"any"} ELSE If(t.id # r.t.id, "assign-types"), If(~Complete(t, Z), "assign-incomplete"))
  ELSE {"assign-types"}

IntConst(op, a, b) ==
  CASE op = "+" -> <<TRUE, a + b>> [] op = "-" -> <<TRUE, a - b>> [] op = "*" -> <<TRUE, a * b>>
    [] op \in {"/", "%"} -> IF a < 0 \/ b <= 0 THEN <<FALSE, 0>> ELSE <<TRUE, IF op = "/" THEN a \div b ELSE a % b>>
    [] op = "<" -> <<TRUE, IF a < b THEN 1 ELSE 0>>
    [] op = "==" -> <<TRUE, IF a = b THEN 1 ELSE 0>>
    [] op = "&&" -> <<TRUE, IF a # 0 /\ b # 0 THEN 1 ELSE 0>>
    [] op = "||" -> <<TRUE, IF a # 0 \/ b # 0 THEN 1 ELSE 0>>
    [] OTHER -> <<FALSE, 0>>
\* results compilers may find without knowing the value of one operand
Folds(op, a, b) == \/ op \in {"*", "&", "|", "%", "/", "&&", "||"} /\ a.c \in {"i", "x", "f", "?"}
                   \/ op \in {"*", "&", "|", "%", "/", "<", ">", "<=", ">=", "==", "!="} /\ b.c \in {"i", "x", "f", "?"}
                   \/ op \in {"<", ">", "<=", ">=", "==", "!="} /\ a.c \in {"i", "x", "f", "?"}
Both(op, t, a, b) ==
  IF a.c = "i" /\ b.c = "i" /\ t.k \in {"int", "long"}
  THEN LET r == IntConst(op, a.v, b.v) IN IF r[1] /\ r[2] \in -100000..100000 THEN V(t, "i", r[2]) ELSE V(t, "x", 0)
  ELSE IF a.c \in {"i", "x"} /\ b.c \in {"i", "x"} THEN V(t, "x", 0)
  ELSE IF a.c \in {"i", "x", "f"} /\ b.c \in {"i", "x", "f"} THEN V(t, "f", 0)
  ELSE IF "?" \in {a.c, b.c} \/ Folds(op, a, b) THEN V(t, "?", 0)
  ELSE Rv(t)

\* binary operators on values (no lvalues any more)
Bin(op, a, b, Z) ==
  LET both == J(a.s, b.s)
      A == IsArith(a.t) /\ IsArith(b.t)
      I == IsInt(a.t) /\ IsInt(b.t)
      step(p, i) ==          \* pointer moved by an integer
        IF p.t.to.k \in {"void", "fun"} THEN Lax(p.t)
        ELSE IF ~Complete(p.t.to, Z) THEN Bad("incomplete-step")
        ELSE V(p.t, IF p.c = "a" /\ i.c \in {"i", "x"} THEN "a" ELSE "n", 0)
      r == CASE op \in {"*", "/"} -> IF A THEN Both(op, Usual(a.t, b.t), a, b) ELSE Bad("operand " \o op)
             [] op \in {"%", "&", "|", "^"} -> IF I THEN Both(op, Usual(a.t, b.t), a, b) ELSE Bad("operand " \o op)
             [] op \in {"<<", ">>"} -> IF I THEN (IF b.c = "n" \/ (b.c = "i" /\ b.v \in 0..31) THEN Both(op, Promote(a.t), a, b) ELSE V(Promote(a.t), "?", 0)) ELSE Bad("operand " \o op)
             [] op = "+" -> IF A THEN Both(op, Usual(a.t, b.t), a, b)
                            ELSE IF a.t.k = "ptr" /\ IsInt(b.t) THEN step(a, b)
                            ELSE IF b.t.k = "ptr" /\ IsInt(a.t) THEN step(b, a) ELSE Bad("operand +")
             [] op = "-" -> IF A THEN Both(op, Usual(a.t, b.t), a, b)
                            ELSE IF a.t.k = "ptr" /\ IsInt(b.t) THEN step(a, b)
                            ELSE IF a.t.k = "ptr" /\ b.t.k = "ptr"
                                 THEN IF a.t.to.k \in {"void", "fun"} \/ b.t.to.k \in {"void", "fun"} THEN Lax(T("long"))
                                      ELSE IF ~Complete(a.t.to, Z) \/ ~Complete(b.t.to, Z) THEN Lax(T("long"))
                                      ELSE IF Compat(a.t.to, b.t.to) # {} THEN Lax(T("long")) ELSE Rv(T("long"))
                            ELSE Bad("operand -")
             [] op \in {"<", ">", "<=", ">=", "==", "!="} ->
                            IF A THEN Both(op, IntT, a, b)
                            ELSE IF a.t.k = "ptr" /\ b.t.k = "ptr"
                                 THEN LET x == a.t.to
                                          y == b.t.to
                                      IN IF Compat(x, y) = {} THEN (IF x.k = "fun" /\ op \notin {"==", "!="} THEN Lax(IntT) ELSE Rv(IntT))
                                         ELSE IF (x.k = "void" \/ y.k = "void") /\ op \in {"==", "!="} /\ x.k # "fun" /\ y.k # "fun" THEN Rv(IntT)
                                         ELSE Lax(IntT)
                            ELSE IF (a.t.k = "ptr" /\ Null(b)) \/ (b.t.k = "ptr" /\ Null(a))
                                 THEN IF op \in {"==", "!="} THEN Rv(IntT) ELSE Lax(IntT)
                            ELSE IF (a.t.k = "ptr" /\ IsInt(b.t)) \/ (b.t.k = "ptr" /\ IsInt(a.t)) THEN Lax(IntT)
                            ELSE Bad("operand " \o op)
             [] op \in {"&&", "||"} -> IF IsScalar(a.t) /\ IsScalar(b.t)
                                       THEN (
                                             IF "a" \in {a.c, b.c} THEN Lax(IntT) ELSE Both(op, IntT, a, b)) ELSE Bad("operand " \o op)
             [] OTHER -> Bad("operator")
      z == IF op \in {"/", "%"} /\ b.c = "i" /\ b.v = 0 THEN [r EXCEPT !.c = "n", !.s = J(@, {"any"})] ELSE r
  IN With(z, both)

RECURSIVE Member(_, _)
Member(mem, n) == IF mem = <<>> THEN [n |-> "", t |-> IntT, bf |-> -1] ELSE IF Head(mem).n = n THEN Head(mem) ELSE Member(Tail(mem), n)
SizeC(t, Z) == IF t.k \in DOMAIN SizeOfKind THEN V(T("ulong"), "i", SizeOfKind[t.k])
               ELSE IF t.k = "arr" /\ t.to.k \in DOMAIN SizeOfKind THEN V(T("ulong"), "i", SizeOfKind[t.to.k] * t.n)
               ELSE V(T("ulong"), "x", 0)
Sizeof(t, Z) == IF t.k \in {"fun", "void"} THEN Lax(T("ulong")) ELSE IF ~Complete(t, Z) THEN Bad("sizeof-incomplete") ELSE SizeC(t, Z)

Cast(t, r, Z) ==
  IF t.k = "void" THEN Rv(t)
  ELSE IF t.k \in {"st", "arr", "fun"} THEN IF t.k = "st" /\ r.t.k = "st" /\ Compat(t, r.t) = {} /\ t.id # 0 THEN Lax(t) ELSE Bad("cast-to " \o t.k)
  ELSE IF ~IsScalar(r.t) THEN Bad("cast-from " \o r.t.k)
  ELSE IF t.k \in FltKinds THEN IF r.t.k = "ptr" THEN Bad("cast-pointer-to-float") ELSE V(t, IF r.c \in {"i", "x", "f"} THEN "f" ELSE IF r.c = "?" THEN "?" ELSE "n", 0)
  ELSE IF t.k = "ptr" THEN IF r.t.k \in FltKinds THEN Bad("cast-float-to-pointer")
                           ELSE IF r.c = "i" /\ r.v = 0 /\ t.to.k = "void" THEN V(t, "a", 0)
                           ELSE V(t, IF r.c \in {"i", "x", "a"} THEN "a" ELSE IF r.c = "?" THEN "?" ELSE "n", 0)
  ELSE \* to an integer type
    IF r.t.k = "ptr" THEN IF SizeOfKind[t.k] = 8 THEN [Rv(t) EXCEPT !.s = If(r.c # "n", "any")] ELSE Lax(t)
    ELSE IF r.c = "i" THEN IF r.v \in 0..1 \/ (r.v \in -128..127 /\ t.k \in {"char", "short", "int", "long"}) \/
                              (r.v \in 0..100000 /\ t.k \in {"int", "uint", "long", "ulong"}) THEN V(t, "i", r.v) ELSE V(t, "x", 0)
    ELSE V(t, IF r.c \in {"x", "f"} THEN "x" ELSE IF r.c = "?" THEN "?" ELSE "n", 0)

RECURSIVE E(_, _), Args(_, _, _, _), IniSt(_, _, _, _), IniList(_, _, _, _, _, _)

CallR(f, args, Z) ==
  LET ft == IF f.t.k = "ptr" /\ f.t.to.k = "fun" THEN f.t.to ELSE IF f.t.k = "fun" THEN f.t ELSE T("bad")
  IN IF ft.k = "bad" THEN Bad("call")
     ELSE LET n == Len(ft.pars)
              cnt == IF ft.old THEN {} ELSE IF Len(args) < n THEN {"arguments-few"} ELSE If(Len(args) > n /\ ~ft.va, "arguments-many")
              inc == If(ft.ret.k \notin {"void", "arr"} /\ ~Complete(ft.ret, Z), "call-incomplete")
          IN With(Rv(ft.ret), J(f.s, J(cnt, J(inc, Args(args, ft, 1, Z)))))
Args(args, ft, i, Z) ==
  IF i > Len(args) THEN {}
  ELSE LET r == Val(E(args[i], Z))
           s == IF i <= Len(ft.pars) THEN AssignSt(ft.pars[i], r, Z)
                ELSE IF r.t.k = "void" THEN {"argument-void"} ELSE If(~Complete(r.t, Z), "argument-incomplete")
       IN J(J(r.s, s), Args(args, ft, i + 1, Z))

Scalar(e, Z) == LET r == Val(E(e, Z)) IN J(r.s, If(~IsScalar(r.t), "condition"))

E(e, Z) ==
  CASE e.k = "num" -> V(IntT, "i", e.v)
    [] e.k = "flt" -> V(T("double"), "f", 0)
    [] e.k = "str" -> Lv([k |-> "arr", to |-> T("char"), n |-> e.n + 1], "a")
    [] e.k = "id" ->
         IF Where(Z, e.n) = 0 THEN Bad("undeclared")
         ELSE LET x == Ent(Z, e.n)
              IN CASE x.k = "td" -> Bad("typedef-as-value")
                   [] x.k = "ec" -> IF x.c = "i" THEN V(IntT, "i", x.v) ELSE V(IntT, "x", 0)
                   [] x.k = "fun" -> [Rv(x.t) EXCEPT !.c = "a"]
                   [] OTHER -> Lv(x.t, IF x.st THEN "a" ELSE "n")
    [] e.k = "un" ->
         LET x == E(e.a, Z)
             r == Val(x)
         IN IF e.o = "&" THEN
              With(IF x.t.k = "fun" THEN V(Ptr(x.t), "a", 0)
                   ELSE IF x.bf THEN Bad("address-of-bit-field") ELSE IF NotLv(x) THEN Bad("address-of" \o Cst(e.a, x))
                   ELSE V(Ptr(x.t), IF x.c = "a" THEN "a" ELSE "n", 0), J(x.s, If(x.lv = "m", "any")))
            ELSE IF e.o = "*" THEN
              With(IF r.t.k # "ptr" THEN Bad("indirection")
                   ELSE IF r.t.to.k = "void" THEN [Lax(T("void")) EXCEPT !.lv = "m"]
                   ELSE IF r.t.to.k = "fun" THEN V(r.t.to, r.c, 0)
                   ELSE IF ~Complete(r.t.to, Z) /\ r.t.to.k # "arr" THEN Lax(r.t.to)
                   ELSE Lv(r.t.to, IF r.c = "a" THEN "a" ELSE "n"), r.s)
            ELSE IF e.o \in {"-", "+"} THEN
              Plus(e.o, IF ~IsArith(r.t) THEN Bad("operand unary" \o e.o)
                   ELSE IF r.c = "i" THEN (IF Promote(r.t).k \in {"int", "long"} THEN V(Promote(r.t), "i", IF e.o = "-" THEN -r.v ELSE r.v)
                                           ELSE V(Promote(r.t), "x", 0))
                   ELSE V(Promote(r.t), IF r.c \in {"x", "f", "?"} THEN r.c ELSE "n", 0), r.s)
            ELSE IF e.o = "~" THEN With(IF ~IsInt(r.t) THEN Bad("operand ~") ELSE V(Promote(r.t), IF r.c \in {"i", "x"} THEN "x" ELSE IF r.c = "?" THEN "?" ELSE "n", 0), r.s)
            ELSE \* !
              With(IF ~IsScalar(r.t) THEN Bad("operand !") ELSE IF r.c = "i" THEN V(IntT, "i", IF r.v = 0 THEN 1 ELSE 0)
                   ELSE IF r.c = "a" THEN Lax(IntT) ELSE V(IntT, IF r.c = "x" THEN "x" ELSE IF r.c = "f" THEN "x" ELSE IF r.c = "?" THEN "?" ELSE "n", 0),
                   J(r.s, If(r.c = "f", "any")))
    [] e.k = "bin" -> LET r == Bin(e.o, Val(E(e.a, Z)), Val(E(e.b, Z)), Z)
                      IN IF r.c = "n" /\ e.a = e.b THEN [r EXCEPT !.c = "?"] ELSE r
    [] e.k = "asg" ->
         LET x == E(e.a, Z)
             r == Val(E(e.b, Z))
             ok == IF x.t.k \in {"arr", "fun"} \/ NotLv(x) THEN {"assign-to" \o Cst(e.a, x)}
                   ELSE J(If(x.lv = "m", "any"),
                          IF e.o = "" THEN AssignSt(x.t, r, Z)
                          ELSE LET y == Bin(e.o, Val(x), r, Z) IN J(y.s, AssignSt(x.t, [y EXCEPT !.c = "n"], Z)))
         IN With(With([Rv(x.t) EXCEPT !.lv = IF x.t.k = "st" THEN "m" ELSE "m"], ok), J(x.s, r.s))
    [] e.k = "inc" ->
         LET x == E(e.a, Z)
         IN With(IF x.t.k \in {"arr", "fun"} \/ NotLv(x) THEN Bad("increment" \o Cst(e.a, x))
                 ELSE IF ~IsScalar(x.t) THEN Bad("increment-type")
                 ELSE IF x.lv = "m" THEN Lax(x.t)
                 ELSE IF x.t.k = "ptr" THEN (IF x.t.to.k \in {"void", "fun"} THEN Lax(x.t)
                                             ELSE IF Complete(x.t.to, Z) THEN [Rv(x.t) EXCEPT !.lv = "m"] ELSE Bad("incomplete-step"))
                 ELSE [Rv(x.t) EXCEPT !.lv = "m"], x.s)
    [] e.k = "cond" ->
         LET c == Val(E(e.a, Z))
             x == Val(E(e.b, Z))
             y == Val(E(e.c, Z))
             r == IF ~IsScalar(c.t) THEN Bad("condition")
                  ELSE IF IsArith(x.t) /\ IsArith(y.t) THEN (LET b == Both("?", Usual(x.t, y.t), x, y) IN
                       IF c.c = "i" /\ b.c \in {"i", "x"} THEN
                          LET w == IF c.v # 0 THEN x ELSE y IN IF w.c = "i" /\ b.t.k \in {"int", "long"} THEN V(b.t, "i", w.v) ELSE V(b.t, "x", 0)
                       ELSE IF c.c \in {"i", "x"} THEN b ELSE IF c.c = "n" THEN [b EXCEPT !.c = "n"] ELSE Lax(b.t))
                  ELSE IF x.t.k = "void" /\ y.t.k = "void" THEN Rv(x.t)
                  ELSE IF x.t.k = "void" \/ y.t.k = "void" THEN Lax(T("void"))
                  ELSE IF x.t.k = "st" /\ y.t.k = "st" THEN IF Errs(Compat(x.t, y.t)) # {} THEN Bad("branches") ELSE With(Rv(x.t), Compat(x.t, y.t))
                  ELSE IF x.t.k = "ptr" /\ y.t.k = "ptr"
                       THEN IF Compat(x.t.to, y.t.to) = {} THEN Rv(x.t)
                            ELSE IF x.t.to.k = "void" /\ y.t.to.k # "fun" THEN Rv(x.t)
                            ELSE IF y.t.to.k = "void" /\ x.t.to.k # "fun" THEN Rv(y.t) ELSE Lax(Ptr(T("void")))
                  ELSE IF x.t.k = "ptr" /\ Null(y) THEN Rv(x.t) ELSE IF y.t.k = "ptr" /\ Null(x) THEN Rv(y.t)
                  ELSE IF (x.t.k = "ptr" /\ IsInt(y.t)) THEN Lax(x.t) ELSE IF (y.t.k = "ptr" /\ IsInt(x.t)) THEN Lax(y.t)
                  ELSE Bad("branches")
             k == If("a" \in {x.c, y.c} /\ c.c # "n", "any")
         IN With([r EXCEPT !.lv = "m"], J(k, J(c.s, J(x.s, y.s))))
    [] e.k = "comma" -> LET x == E(e.a, Z)
                            r == Val(E(e.b, Z)) IN With([r EXCEPT !.c = IF @ = "n" THEN "n" ELSE "?", !.lv = "m"], x.s)
    [] e.k = "call" -> IF e.f.k = "id" /\ Where(Z, e.f.n) = 0   \* declared implicitly
                       THEN [Lax(IntT) EXCEPT !.s = J({"out"}, Args(e.x, [pars |-> <<>>], 1, Z))] ELSE CallR(Val(E(e.f, Z)), e.x, Z)
    [] e.k \in {"mem", "arrow"} ->
         LET x == E(e.a, Z)
             p == Val(x)
             t == IF e.k = "mem" THEN x.t ELSE IF p.t.k = "ptr" THEN p.t.to ELSE T("bad")
         IN With(IF t.k # "st" THEN Bad("member-of-non-structure") ELSE IF ~Complete(t, Z) THEN Bad("member-of-incomplete")
                 ELSE LET m == Member(Z.sts[t.id].mem, e.n)
                      IN IF m.n = "" THEN Bad("no-such-member")
                         ELSE [Lv(m.t, IF e.k = "mem" THEN x.c ELSE IF p.c = "a" THEN "a" ELSE "n")
                               EXCEPT !.bf = m.bf >= 0, !.lv = IF e.k = "mem" THEN (IF NotLv(x) THEN "m" ELSE x.lv) ELSE "y"], x.s)
    [] e.k = "idx" ->
         LET r == Bin("+", Val(E(e.a, Z)), Val(E(e.b, Z)), Z)
         IN IF r.t.k = "ptr" THEN (IF r.t.to.k = "fun" THEN Lax(r.t.to) ELSE [Lv(r.t.to, r.c) EXCEPT !.s = r.s]) ELSE With(Bad("subscript"), r.s)
    [] e.k = "cast" -> LET r == Val(E(e.a, Z)) IN [With(Cast(Res(e.t, Z), r, Z), J(r.s, TyOk(e.t, Z))) EXCEPT !.lv = IF @ = "n" THEN "c" ELSE @]
    [] e.k = "szt" -> With(Sizeof(Res(e.t, Z), Z), TyOk(e.t, Z))
    [] e.k = "sze" -> LET x == E(e.a, Z) IN With(IF x.bf THEN Bad("sizeof-bit-field") ELSE Sizeof(x.t, Z), x.s)
    [] e.k = "clit" -> LET t == Res(e.t, Z)
                           n == IF t.k = "arr" /\ t.n = -1 THEN [t EXCEPT !.n = Len(e.i.x)] ELSE t
                       IN With(IF t.k \in {"void", "fun"} THEN Bad("literal-type") ELSE Lv(n, "n"), J(TyOk(e.t, Z), J(If(Len(Z.sc) = 1, "any"), IniSt(t, e.i, Z, FALSE))))
    [] OTHER -> Bad("expression")

\* initialisers: i.k = "e" an expression, "l" a list of [d, n, v, i] (d: "" none, "." field n, "[" index v)
IniSt(t, i, Z, static) ==
  IF t.k = "arr" THEN
    IF i.k = "e" THEN (IF i.e.k = "str" /\ t.to.k \in {"char", "uchar"} THEN If(t.n # -1 /\ i.e.n > t.n, "any")
                       ELSE IF i.e.k = "clit" THEN {"any"}
                       ELSE {IF i.e.k = "str" /\ t.to.k = "arr" THEN "initialiser-string-nested" ELSE "initialiser-of-array"})
    ELSE IF Len(i.x) = 1 /\ i.x[1].i.k = "e" /\ i.x[1].d = "" /\ t.to.k \in {"char", "uchar"}
         THEN (IF i.x[1].i.e.k = "str" THEN If(t.n # -1 /\ i.x[1].i.e.n > t.n, "any") ELSE IniList(t, i.x, 1, 0, Z, static))
    ELSE J(If(i.x = <<>>, "any"), IniList(t, i.x, 1, 0, Z, static))
  ELSE IF t.k = "st" THEN
    IF ~Complete(t, Z) THEN {"initialiser-of-incomplete"}
    ELSE IF i.k = "e" THEN LET r == Val(E(i.e, Z)) IN J(r.s, J(AssignSt(t, r, Z), If(static, IF i.e.k = "clit" THEN "any" ELSE "initialiser-not-constant")))
    ELSE J(If(i.x = <<>> \/ Z.sts[t.id].mem = <<>>, "any"), IniList(t, i.x, 1, 0, Z, static))
  ELSE IF IsScalar(t) THEN
    IF i.k = "e" THEN LET r == Val(E(i.e, Z))
                      IN J(r.s, J(AssignSt(t, r, Z), (IF static THEN IF r.c = "n" THEN {"initialiser-not-constant"} ELSE If(r.c = "?" \/ (r.c = "a" /\ t.k = "bool"), "any") ELSE {})))
    ELSE IF Len(i.x) = 1 /\ i.x[1].d = "" THEN (IF i.x[1].i.k = "e" THEN IniSt(t, i.x[1].i, Z, static) ELSE {"any"})
    ELSE {"any"}
  ELSE {"initialiser-of-function"}

\* pos: number of elements or members before the current one
IniList(t, xs, j, pos, Z, static) ==
  IF j > Len(xs) THEN {}
  ELSE
    LET x == xs[j]
        mem == IF t.k = "st" THEN Z.sts[t.id].mem ELSE <<>>
        at(n) == CHOOSE q \in DOMAIN mem : mem[q].n = n
        \* where this one goes; -1: nowhere
        p == IF x.d = "." THEN (IF t.k # "st" THEN -1 ELSE IF Member(mem, x.n).n = "" THEN -1 ELSE at(x.n) - 1)
             ELSE IF x.d = "[" THEN (IF t.k # "arr" THEN -1 ELSE IF x.v < 0 \/ (t.n # -1 /\ x.v >= t.n) THEN -1 ELSE x.v)
             ELSE pos
        cap == IF t.k = "arr" THEN (IF t.n = -1 THEN 100000 ELSE t.n) ELSE IF Z.sts[t.id].un THEN 1 ELSE Len(mem)
    IN IF p = -1 THEN {"designator"}
       ELSE IF x.d = "" /\ p >= cap THEN {"any"}
       ELSE LET et == IF t.k = "arr" THEN t.to ELSE mem[p + 1].t
                agg == et.k \in {"arr", "st"}
                \* a scalar for an aggregate: braces are left out, unless it is a structure of that type
                s == IF (t.k = "st" /\ mem[p + 1].n = "") \/ (et.k = "arr" /\ et.n = -1) THEN {"any"}
                     ELSE IF agg /\ x.i.k = "e" /\ ~(et.k = "arr" /\ x.i.e.k = "str" /\ et.to.k \in {"char", "uchar"})
                     THEN LET r == Val(E(x.i.e, Z)) IN IF et.k = "st" /\ r.s = {} /\ r.t = et THEN If(static, "initialiser-not-constant") ELSE J(r.s, {"any"})
                     ELSE IniSt(et, x.i, Z, static)
            IN J(s, IniList(t, xs, j + 1, IF t.k = "st" /\ Z.sts[t.id].un /\ x.d = "." THEN 1 ELSE p + 1, Z, static))

RECURSIVE IniCount(_, _, _, _)
IniCount(xs, j, pos, top) ==     \* number of elements a list gives an array of unspecified size
  IF j > Len(xs) THEN top
  ELSE LET p == (IF xs[j].d = "[" THEN xs[j].v ELSE pos) + 1 IN IniCount(xs, j + 1, p, IF p > top THEN p ELSE top)
Sized(t, i) == IF t.k # "arr" \/ t.n # -1 THEN t
               ELSE IF i.k = "l" THEN [t EXCEPT !.n = IniCount(i.x, 1, 0, 0)]
               ELSE IF i.e.k = "str" THEN [t EXCEPT !.n = i.e.n + 1] ELSE t

---------------------------------------------------------------------------
(* Declarations *)
Obj(t, st, def, sto) == [k |-> "var", t |-> t, st |-> st, def |-> def, sto |-> sto]

\* type of a redeclared array: the size known from either
Composite(a, b) == IF a.k = "arr" /\ b.k = "arr" /\ a.n = -1 THEN b ELSE a

Re(s) == {IF x = "types" THEN "redeclared-type" ELSE x : x \in s}
Redecl(Z, n, e) ==   \* status of declaring n as e where the scope already has it
  LET o == Z.sc[Local(Z)].ids[n]
      file == Local(Z) = 1
      linked(x) == x.k = "fun" \/ x.sto = "extern"
  IN IF o.k # e.k THEN {IF ~file /\ (linked(o) \/ linked(e)) THEN "redeclared-extern" ELSE "redeclared-kind " \o o.k \o " " \o e.k}
     ELSE CASE e.k = "td" -> LET c == Compat(o.t, e.t) IN IF file THEN Re(c) ELSE J(Re(c), {"any"})
            [] e.k = "ec" -> {"redeclared-enumerator"}
            [] e.k = "fun" -> J(Re(Compat(o.t, e.t)), J(If(o.def /\ e.def, "redefined-function"), If(o.sto # e.sto, "any")))
            [] OTHER -> IF file \/ (o.sto = "extern" /\ e.sto = "extern")
                        THEN J(Re(Compat(o.t, e.t)), J(If(o.def /\ e.def, "redefined-variable"), If((o.sto = "static") # (e.sto = "static"), "any")))
                        ELSE IF o.sto = "extern" \/ e.sto = "extern" THEN {"redeclared-extern"} ELSE {"redeclared-local"}

Declare(Z, n, e) ==
  IF HasHere(Z, n)
  THEN LET o == Z.sc[Local(Z)].ids[n]
           y == Fail(Z, Redecl(Z, n, e))
       IN IF o.k = e.k /\ e.k \in {"var", "fun"} /\ Errs(Redecl(Z, n, e)) = {}
          THEN Put(y, n, [e EXCEPT !.def = o.def \/ e.def, !.t = Composite(o.t, e.t)])
          ELSE Put(y, n, e)
  ELSE Put(Z, n, e)

\* a block-scope declaration with external linkage agrees with the one at file scope
Outer(Z, n, e) == IF Local(Z) > 1 /\ n \in DOMAIN Z.sc[1].ids
                  THEN LET o == Z.sc[1].ids[n] IN IF o.k # e.k THEN {"any"} ELSE If(Compat(o.t, e.t) # {}, "any")
                  ELSE {}

VarD(Z0, d) ==
  LET Z == Fail(Touch(Z0, d.t), If(NewInPars(Z0, d.t), "out"))
      file == Local(Z) = 1
      t == Res(d.t, Z)
      static == file \/ d.sto = "static"
      has == d.i.k # "none"
      t2 == IF has THEN Sized(t, d.i) ELSE t
      e == Obj(t2, static \/ d.sto = "extern", has, d.sto)
      s1 == TyOk(d.t, Z)
      s2 == IF t.k = "bad" THEN {"typename"}
            ELSE IF t.k = "void" THEN {IF d.sto = "extern" \/ (file /\ ~has) THEN "any" ELSE "void-object"}
            ELSE IF t.k = "fun" THEN {IF has THEN "initialiser-of-function" ELSE "any"}
            ELSE IF d.sto = "extern" THEN If(has, IF file THEN "any" ELSE "extern-initialiser")
            ELSE IF Complete(t2, Z) THEN {}
            ELSE IF t.k = "arr" /\ Complete(t.to, Z) /\ t.n = -1 THEN IF file /\ d.sto = "" /\ ~has THEN {} ELSE {IF file THEN "any" ELSE "unsized-array"}
            ELSE {IF file /\ ~has /\ d.sto \in {"", "static"} /\ t.k = "st" THEN "any" ELSE "incomplete-object"}
      s3 == If(has /\ HasFlex(t, Z), "any")
      \* the name is in scope in its own initialiser
      Y == Declare(Fail(Z, J(J(s1, s2), J(s3, IF d.sto = "extern" THEN Outer(Z, d.n, e) ELSE {}))), d.n, e)
      s4 == IF has /\ Errs(J(s1, s2)) = {} THEN IniSt(t, d.i, Y, static) ELSE {}
  IN Fail(Y, s4)

\* members of a structure
RECURSIVE MemD(_, _, _, _, _, _)
MemD(Z, un, ms, j, acc, s) ==
  IF j > Len(ms) THEN [mem |-> acc, s |-> s]
  ELSE
    LET m == ms[j]
        t == Res(m.t, Z)
        dup == m.n # "" /\ \E q \in 1..Len(acc) : acc[q].n = m.n
        flex == t.k = "arr" /\ t.n = -1
        st == J(TyOk(m.t, Z), J(If(dup, "member-twice"),
               IF flex THEN (IF ~Complete(t.to, Z) THEN {"incomplete-member"}
                             ELSE IF un \/ acc = <<>> THEN {"any"} ELSE If(j < Len(ms), "flexible-not-last"))
               ELSE J(If(~Complete(t, Z), "incomplete-member"), If(HasFlex(t, Z), "any"))))
        w == IF m.bf = -1 THEN {}
             ELSE IF ~IsInt(t) THEN {"bit-field-type"}
             ELSE IF m.bf < -1 THEN {"bit-field-negative"}
             ELSE IF m.bf = 0 /\ m.n # "" THEN {"bit-field-zero"}
             ELSE IF m.bf > (IF t.k = "bool" THEN 1 ELSE 8 * SizeOfKind[t.k]) THEN {IF t.k = "bool" /\ m.bf <= 8 THEN "any" ELSE "bit-field-wide"}
             ELSE If(t.k = "en", "any")
        none == If(m.n = "" /\ m.bf = -1, "any")
    IN MemD(Z, un, ms, j + 1, Append(acc, [n |-> m.n, t |-> IF flex \/ Complete(t, Z) THEN t ELSE IntT, bf |-> m.bf]), J(s, J(J(st, w), none)))

RECURSIVE TouchMem(_, _, _)
TouchMem(Z, ms, j) == IF j > Len(ms) THEN Z ELSE TouchMem(Touch(Z, ms[j].t), ms, j + 1)

StructD(Z0, d) ==
  LET here == d.tag \in DOMAIN Z0.sc[Local(Z0)].tags
      Z1 == IF here THEN Z0
            ELSE PutTag([Z0 EXCEPT !.sts = Append(@, [un |-> d.un, comp |-> FALSE, mem |-> <<>>])], d.tag, Len(Z0.sts) + 1)
      id == Z1.sc[Local(Z1)].tags[d.tag]
      o == Z1.sts[id]
      bad == o.comp \/ o.un # d.un
      Z2 == TouchMem(Z1, d.mem, 1)
      r == MemD(Z2, d.un, d.mem, 1, <<>>, {})
  IN IF bad THEN Fail(Z2, {"redefined-tag"})
     ELSE Fail([Z2 EXCEPT !.sts[id] = [un |-> d.un, comp |-> TRUE, mem |-> r.mem]], r.s)

TagD(Z, d) ==    \* struct A;
  IF d.tag \in DOMAIN Z.sc[Local(Z)].tags THEN Fail(Z, If(Z.sts[Z.sc[Local(Z)].tags[d.tag]].un # d.un, "tag"))
  ELSE PutTag([Z EXCEPT !.sts = Append(@, [un |-> d.un, comp |-> FALSE, mem |-> <<>>])], d.tag, Len(Z.sts) + 1)

\* an integer constant expression is required
ConstSt(r) == J(r.s, IF ~IsInt(r.t) THEN {"constant-not-integer"} ELSE IF r.c \notin {"i", "x", "f", "?"} THEN {"not-constant"} ELSE If(r.c # "i", "any"))

RECURSIVE EnumD(_, _, _, _)
EnumD(Z, cs, j, next) ==
  IF j > Len(cs) THEN Z
  ELSE LET c == cs[j]
           r == IF c.has THEN Val(E(c.e, Z)) ELSE V(IntT, "i", next)
           s == IF ~c.has THEN {} ELSE ConstSt(r)
       IN EnumD(Declare(Fail(Z, s), c.n, [k |-> "ec", t |-> IntT, v |-> r.v, c |-> r.c, def |-> TRUE, st |-> FALSE, sto |-> ""]), cs, j + 1,
                IF r.c = "i" THEN r.v + 1 ELSE 0)

AssertD(Z, d) == LET r == Val(E(d.e, Z)) IN
  Fail(Z, J(ConstSt(r), If(IsInt(r.t) /\ r.c = "i" /\ r.v = 0, "assertion")))

TypedefD(Z0, d) == LET Z == Fail(Touch(Z0, d.t), If(NewInPars(Z0, d.t), "out")) IN
  Declare(Fail(Z, TyOk(d.t, Z)), d.n, [k |-> "td", t |-> Res(d.t, Z), def |-> FALSE, st |-> FALSE, sto |-> ""])

FunProto(Z, d, def) ==
  LET t == Res(d.t, Z)
      e == [k |-> "fun", t |-> t, def |-> def, st |-> TRUE, sto |-> IF d.sto = "static" THEN "static" ELSE ""]
      s == J(TyOk(d.t, Z), IF Local(Z) > 1 THEN J(Outer(Z, d.n, e), If(d.sto = "static", "static-local-function")) ELSE {})
  IN Declare(Fail(Z, s), d.n, e)

---------------------------------------------------------------------------
(* Statements. Z.lp loops, Z.sw switches open (each [vals, def]), Z.ret the *)
(* function's result type                                                   *)
RECURSIVE Labels(_), LabelsSeq(_), Gotos(_), GotosSeq(_)
Labels(s) == CASE s.k = "label" -> <<s.n>> \o Labels(s.b)
               [] s.k = "block" -> LabelsSeq(s.b)
               [] s.k = "if" -> Labels(s.b) \o LabelsSeq(s.e)
               [] s.k \in {"while", "do", "for", "switch", "case", "default"} -> Labels(s.b)
               [] OTHER -> <<>>
LabelsSeq(b) == IF b = <<>> THEN <<>> ELSE Labels(Head(b)) \o LabelsSeq(Tail(b))
Gotos(s) == CASE s.k = "goto" -> {s.n}
              [] s.k = "block" -> GotosSeq(s.b)
              [] s.k = "if" -> Gotos(s.b) \cup GotosSeq(s.e)
              [] s.k \in {"while", "do", "for", "switch", "case", "default", "label"} -> Gotos(s.b)
              [] OTHER -> {}
GotosSeq(b) == IF b = <<>> THEN {} ELSE Gotos(Head(b)) \cup GotosSeq(Tail(b))

RECURSIVE D(_, _), St(_, _), StSeq(_, _, _), FunDef(_, _)

Cond(Z, e) == Fail(Z, Scalar(e, Z))

St(Z, s) ==
  CASE s.k = "expr" -> Fail(Z, E(s.e, Z).s)
    [] s.k = "nop" -> Z
    [] s.k = "decl" -> D(Z, s.d)
    [] s.k = "block" -> Pop(StSeq(Push(Z), s.b, 1))
    [] s.k = "if" -> LET Y == Pop(St(Push(Cond(Z, s.c)), s.b)) IN IF s.e = <<>> THEN Y ELSE Pop(St(Push(Y), s.e[1]))
    [] s.k = "while" -> LET Y == Pop(St(Push([Cond(Z, s.c) EXCEPT !.lp = @ + 1]), s.b)) IN [Y EXCEPT !.lp = @ - 1]
    [] s.k = "do" -> LET Y == Pop(St(Push([Z EXCEPT !.lp = @ + 1]), s.b)) IN Cond([Y EXCEPT !.lp = @ - 1], s.c)
    [] s.k = "for" -> LET X == Fail(St(Push(Z), s.i), If(s.i.k = "decl" /\ s.i.d.k = "var" /\ s.i.d.sto # "", "any"))
                          Y == Fail(Cond(X, s.c), E(s.u, X).s)
                          W == Pop(St(Push([Y EXCEPT !.lp = @ + 1]), s.b))
                      IN Pop([W EXCEPT !.lp = @ - 1])
    [] s.k = "switch" -> LET r == Val(E(s.c, Z))
                             X == Fail(Z, J(r.s, If(~IsInt(r.t), "switch-type")))
                             Y == Pop(St(Push([X EXCEPT !.sw = Append(@, [vals |-> {}, def |-> FALSE])]), s.b))
                         IN [Y EXCEPT !.sw = SubSeq(@, 1, Len(@) - 1)]
    [] s.k = "case" -> LET r == Val(E(s.e, Z))
                           n == Len(Z.sw)
                           X == Fail(Z, J(If(n = 0, "case-outside"), ConstSt(r)))
                           Y == IF n = 0 \/ r.c # "i" \/ ~IsInt(r.t) THEN X
                                ELSE [Fail(X, If(r.v \in Z.sw[n].vals, "case-twice")) EXCEPT !.sw[n].vals = @ \cup {r.v}]
                       IN St(Y, s.b)
    [] s.k = "default" -> LET n == Len(Z.sw)
                          IN IF n = 0 THEN St(Fail(Z, {"default-outside"}), s.b) ELSE St([Fail(Z, If(Z.sw[n].def, "default-twice")) EXCEPT !.sw[n].def = TRUE], s.b)
    [] s.k = "break" -> Fail(Z, If(Z.lp = 0 /\ Z.sw = <<>>, "break-outside"))
    [] s.k = "continue" -> Fail(Z, If(Z.lp = 0, "continue-outside"))
    [] s.k = "return" -> IF s.e = <<>> THEN Fail(Z, If(Z.ret.k # "void", "any"))
                         ELSE LET r == Val(E(s.e[1], Z))
                              IN Fail(Z, J(r.s, IF Z.ret.k = "void" THEN {"any"} ELSE AssignSt(Z.ret, r, Z)))
    [] s.k = "label" -> St(Z, s.b)
    [] s.k = "goto" -> Z
    [] OTHER -> Fail(Z, {"statement"})
StSeq(Z, b, i) == IF i > Len(b) THEN Z ELSE StSeq(St(Z, b[i]), b, i + 1)

RECURSIVE Params(_, _, _, _)
Params(Z, t, names, i) ==
  IF i > Len(names) THEN Z
  ELSE LET n == names[i]
           pt == t.pars[i]
       IN Params(Declare(Fail(Z, J(If(HasHere(Z, n), "parameter-twice"), If(~Complete(pt, Z), "incomplete-parameter"))), n, Obj(pt, FALSE, TRUE, "")), t, names, i + 1)

FunDef(Z0, d) ==
  LET Z == Fail(Touch(Z0, d.t), If(NewInPars(Z0, d.t), "out"))
      t == Res(d.t, Z)
      A == FunProto(Z, d, TRUE)
      B == Fail(A, If(t.ret.k \notin {"void", "arr"} /\ ~Complete(t.ret, A), "incomplete-result"))
      C == Params([Push(B) EXCEPT !.ret = t.ret, !.lp = 0, !.sw = <<>>], t, d.pn, 1)
      lab == LabelsSeq(d.body)
      ls == J(If(\E i, j \in DOMAIN lab : i < j /\ lab[i] = lab[j], "label-twice"),
              If(~(GotosSeq(d.body) \subseteq {lab[i] : i \in DOMAIN lab}), "no-label"))
  IN IF t.k # "fun" THEN Fail(Z, {"not-a-function"}) ELSE Pop(Fail(StSeq(C, d.body, 1), ls))

D(Z, d) ==
  CASE d.k = "var" -> VarD(Z, d)
    [] d.k = "typedef" -> TypedefD(Z, d)
    [] d.k = "stdef" -> StructD(Z, d)
    [] d.k = "stdecl" -> TagD(Z, d)
    [] d.k = "enum" -> EnumD(Z, d.cs, 1, 0)
    [] d.k = "assert" -> AssertD(Z, d)
    [] d.k = "proto" -> LET Y == Touch(Z, d.t) IN FunProto(Fail(Y, If(NewInPars(Z, d.t), "out")), d, FALSE)
    [] d.k = "fun" -> IF Local(Z) > 1 THEN Fail(Z, {"any"}) ELSE FunDef(Z, d)
    [] OTHER -> Fail(Z, {"declaration"})

RECURSIVE Decls(_, _, _)
Decls(Z, u, i) == IF i > Len(u) THEN Z ELSE Decls(D(Z, u[i]), u, i + 1)
Start == [sc |-> <<NewScope>>, sts |-> <<>>, s |-> {}, lp |-> 0, sw |-> <<>>, ret |-> T("void")]

\* external names declared somewhere and not defined in the unit: whether that matters depends on their use
RECURSIVE Externs(_), ExternsSeq(_)
Externs(s) == CASE s.k = "decl" -> Externs(s.d)
                [] s.k = "proto" -> {s.n}
                [] s.k = "var" -> IF s.sto = "extern" THEN {s.n} ELSE {}
                [] s.k = "fun" -> ExternsSeq(s.body)
                [] s.k = "block" -> ExternsSeq(s.b)
                [] s.k = "if" -> Externs(s.b) \cup ExternsSeq(s.e)
                [] s.k = "for" -> Externs(s.i) \cup Externs(s.b)
                [] s.k \in {"while", "do", "switch", "case", "default", "label"} -> Externs(s.b)
                [] OTHER -> {}
ExternsSeq(b) == IF b = <<>> THEN {} ELSE Externs(Head(b)) \cup ExternsSeq(Tail(b))
Defined(ids, n) == n \in DOMAIN ids /\ (ids[n].def \/ (ids[n].k = "var" /\ ids[n].sto # "extern"))

Verdict(u) == LET Z == Decls(Start, u, 1) IN J(Z.s, If(\E n \in ExternsSeq(u) : ~Defined(Z.sc[1].ids, n), "any"))
Check(c) == LET v == Verdict(c.u)
            IN [v |-> IF "out" \in v THEN "any" ELSE IF Errs(v) # {} THEN "err" ELSE IF v # {} THEN "any" ELSE "ok", why |-> Errs(v)]
=============================================================================
