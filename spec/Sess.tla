-------------------------------- MODULE Sess --------------------------------
(* Compiler sessions in one process. A session has its own macros, include    *)
(* path, options, host symbols, definitions and variables; the only things    *)
(* sessions share are the files they write.                                   *)
(*  kinds: "mem" compiled to memory, called in place                          *)
(*         "obj" writes an object file                                        *)
(*         "app" runs as an application once, in a process of its own         *)
(*  hurt: a text did not compile: more can be compiled, but not used          *)
(*  phases: none, open, done (relocated, written or executed), dead (deleted),*)
(*          bad (a call has failed: only deleting it is specified)            *)
EXTENDS Integers, Sequences, TLC

NoSess == [ph |-> "none", k |-> "mem", mac |-> {}, inc |-> <<>>, uch |-> FALSE, host |-> {}, defs |-> {}, vars |-> <<>>, want |-> {}, unit |-> 0, hurt |-> FALSE]
Start(n) == [s |-> [i \in 1..n |-> NoSess], files |-> {}]

Has(set, n) == \E x \in set : x.n = n
The(set, n) == CHOOSE x \in set : x.n = n
Put(set, x) == {y \in set : y.n # x.n} \cup {x}

(* A unit is a sequence of functions [n, k, v, x]; k says what it returns:    *)
(*  const v; mac: macro x plus v; inc: the header's value plus v; uch: is     *)
(*  char unsigned; cnt: the unit's own counter from v; gdef: defines global x *)
(*  (initially v) and counts it up; gref: counts up x of another unit;        *)
(*  host: the host's function; ref: twice function x, plus 1                  *)
Compiles(s, u) ==
  /\ ~u.bad
  /\ \A i \in 1..Len(u.f) : LET f == u.f[i] IN
       /\ ~Has(s.defs, f.n)
       /\ f.k = "mac" => Has(s.mac, f.x)
       /\ f.k = "inc" => s.inc # <<>>
       /\ f.k = "gdef" => ~\E d \in s.defs : d.k = "gdef" /\ d.x = f.x
DefOf(s, f, id) ==
  CASE f.k = "mac" -> [n |-> f.n, k |-> "const", v |-> The(s.mac, f.x).v + f.v, x |-> ""]
    [] f.k = "inc" -> [n |-> f.n, k |-> "const", v |-> s.inc[1] + f.v, x |-> ""]
    [] f.k = "uch" -> [n |-> f.n, k |-> "const", v |-> IF s.uch THEN 1 ELSE 0, x |-> ""]
    [] f.k = "cnt" -> [n |-> f.n, k |-> "cnt", v |-> f.v, x |-> ToString(id)]
    [] OTHER -> f
Wants(f) == CASE f.k = "ref" -> {<<"fn", f.x>>} [] f.k = "gref" -> {<<"var", f.x>>} [] f.k = "host" -> {<<"host", f.x>>} [] OTHER -> {}
AddUnit(s, u) == [s EXCEPT !.defs = @ \cup {DefOf(s, u.f[i], s.unit + i) : i \in 1..Len(u.f)},
                           !.want = @ \cup UNION {Wants(u.f[i]) : i \in 1..Len(u.f)}, !.unit = @ + Len(u.f)]

Linked(s) == \A w \in s.want : CASE w[1] = "fn" -> Has(s.defs, w[2])
                                 [] w[1] = "var" -> \E d \in s.defs : d.k = "gdef" /\ d.x = w[2]
                                 [] OTHER -> Has(s.host, w[2])
(* initial variables of a linked session                                      *)
Vars0(s) == {[n |-> (IF d.k = "gdef" THEN "g" ELSE "c") \o d.x, v |-> d.v] : d \in {e \in s.defs : e.k \in {"gdef", "cnt"}}}

RECURSIVE Call(_, _, _)
(* [v: result, vars: variables afterwards]                                    *)
Call(s, vars, n) ==
  LET d == The(s.defs, n)
      up(x) == LET o == The(vars, x) IN [v |-> o.v + 1, vars |-> Put(vars, [n |-> x, v |-> o.v + 1])]
  IN CASE d.k = "const" -> [v |-> d.v, vars |-> vars]
       [] d.k = "host" -> [v |-> The(s.host, d.x).v + d.v, vars |-> vars]
       [] d.k = "ref" -> LET r == Call(s, vars, d.x) IN [v |-> 2 * r.v + 1, vars |-> r.vars]
       [] d.k = "cnt" -> up("c" \o d.x)
       [] OTHER -> up("g" \o d.x)

Sess(s, v) == [s |-> s, i |-> v, l |-> {}]
(* an operation on session s: the session afterwards and what the caller sees *)
(* (i: a number, l: a set of names); -1 is a failure; -1000001, -1000002: failing and refused executions             *)
Op(s, files, o) ==
  CASE o.o = "new" -> Sess([NoSess EXCEPT !.ph = "open", !.k = o.k], 0)
    [] o.o = "def" -> Sess([s EXCEPT !.mac = Put(@, [n |-> o.m, v |-> o.v])], 0)
    [] o.o = "undef" -> Sess([s EXCEPT !.mac = {x \in @ : x.n # o.m}], 0)
    [] o.o = "inc" -> Sess([s EXCEPT !.inc = Append(@, o.v)], 0)
    [] o.o = "uch" -> Sess([s EXCEPT !.uch = TRUE], 0)
    [] o.o = "host" -> Sess([s EXCEPT !.host = Put(@, [n |-> o.m, v |-> o.v])], 0)
    [] o.o = "comp" -> IF Compiles(s, o.u) THEN Sess(AddUnit(s, o.u), 0) ELSE IF o.u.bad THEN Sess([s EXCEPT !.hurt = TRUE], -1) ELSE Sess([s EXCEPT !.ph = "bad"], -1)
    [] o.o = "addobj" -> IF \E x \in files : x.n = o.f /\ (~\E d \in x.s.defs : Has(s.defs, d.n) \/ (d.k = "gdef" /\ \E e \in s.defs : e.k = "gdef" /\ e.x = d.x))
                         THEN LET x == The(files, o.f).s IN
                              Sess([s EXCEPT !.defs = @ \cup {[d EXCEPT !.x = IF d.k = "cnt" THEN @ \o "@" \o ToString(s.unit) ELSE @] : d \in x.defs},
                                             !.want = @ \cup x.want, !.unit = @ + 1], 0)
                         ELSE Sess([s EXCEPT !.ph = "bad"], -1)
    [] o.o = "out" -> Sess([s EXCEPT !.ph = "done"], 0)
    [] o.o = "reloc" -> IF Linked(s) THEN Sess([s EXCEPT !.ph = "done", !.vars = Vars0(s)], 0) ELSE Sess([s EXCEPT !.ph = "bad"], -1)
    [] o.o = "get" -> Sess(s, IF Has(s.defs, o.m) THEN 1 ELSE 0)
    [] o.o = "call" -> LET r == Call(s, s.vars, o.m) IN Sess([s EXCEPT !.vars = r.vars], r.v)
    [] o.o = "list" -> [s |-> s, i |-> 0, l |-> {d.n : d \in s.defs}]
    (* the application runs on its own copy of the variables; a session is    *)
    (* executed once, when it has input, and is linked to a named file only   *)
    [] o.o = "exec" -> IF s.unit = 0 \/ s.ph = "done" THEN Sess(s, -1000002)
                       ELSE IF ~Linked(s) \/ ~Has(s.defs, "q_main") THEN Sess([s EXCEPT !.ph = "bad"], -1000001)
                       ELSE Sess([s EXCEPT !.ph = "done"], Call(s, Vars0(s), "q_main").v)
    [] o.o = "link" -> Sess(s, -1000002)
    [] o.o = "del" -> Sess([NoSess EXCEPT !.ph = "dead"], 0)

Do(st, o) == LET r == Op(st.s[o.s], st.files, o) IN
  [st |-> [s |-> [st.s EXCEPT ![o.s] = r.s],
           files |-> IF o.o = "out" THEN Put(st.files, [n |-> o.f, s |-> st.s[o.s]]) ELSE st.files],
   i |-> r.i, l |-> r.l]
(* operations that may be called                                              *)
Allowed(st, o) == LET s == st.s[o.s] IN
  CASE o.o = "new" -> s.ph \in {"none", "dead"}
    [] o.o = "del" -> s.ph \notin {"none", "dead"}
    [] o.o = "reloc" -> s.ph = "open" /\ ~s.hurt /\ s.k = "mem"
    [] o.o = "out" -> s.ph = "open" /\ ~s.hurt /\ s.k = "obj"
    [] o.o = "exec" -> s.ph \in {"open", "done"} /\ ~s.hurt /\ s.k = "app"
    [] o.o = "link" -> s.ph \in {"open", "done"} /\ s.k = "app"
    [] o.o \in {"get", "list"} -> s.ph = "done" /\ s.k = "mem"
    [] o.o = "call" -> s.ph = "done" /\ s.k = "mem" /\ Has(s.defs, o.m)
    [] o.o = "host" -> s.ph = "open" /\ s.k = "mem"
    [] o.o = "undef" -> s.ph = "open" /\ s.k # "app"
    [] o.o = "addobj" -> s.ph = "open" /\ ~s.hurt /\ s.k = "mem"
    [] o.o = "comp" -> s.ph = "open" /\ (s.hurt => o.u.bad \/ Compiles(s, o.u))
    [] OTHER -> s.ph = "open"

(* a history: operations not allowed where they stand are left out (i = -1000009)   *)
RECURSIVE Hist_(_, _, _)
Hist_(st, ops, i) ==
  IF i > Len(ops) THEN <<>>
  ELSE IF Allowed(st, ops[i])
       THEN LET r == Do(st, ops[i]) IN <<[i |-> r.i, l |-> r.l]>> \o Hist_(r.st, ops, i + 1)
       ELSE <<[i |-> -1000009, l |-> {}]>> \o Hist_(st, ops, i + 1)
History(c) == Hist_(Start(c.n), c.ops, 1)
=============================================================================
