------------------------------ MODULE Linkage ------------------------------
(* Which definition every reference binds to when inputs are linked.          *)
(* A unit gives every symbol (1..n) a role: "none", "ref" (strong reference), *)
(* "wref" (weak reference), "strong", "weak", "common" (tentative), "static"; *)
(* size[s] is the size of the object it defines. Inputs are, in order,        *)
(* [form, us]: form "unit" (one unit), "archive" (members us) or "dll".       *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Refers == {"ref", "wref", "strong", "weak", "common"}  \* roles that see the global name
\* the table of global names
Blank(n) == [s \in 1..n |-> [st |-> "none", by |-> 0, size |-> 0]]
Rank(st) == CASE st = "none" -> 0 [] st = "wref" -> 1 [] st = "ref" -> 2 [] st = "weak" -> 3 [] st = "common" -> 4 [] OTHER -> 5
\* a unit's role meets what the table has
Merge(e, role, u, size) ==
  CASE role \in {"none", "static"} -> e
    [] role = "strong" /\ e.st = "strong" -> [e EXCEPT !.st = "twice"]
    [] e.st = "twice" -> e
    [] role = "common" /\ e.st = "common" -> [e EXCEPT !.size = IF size > @ THEN size ELSE @]
    [] Rank(role) > Rank(e.st) -> [st |-> role, by |-> IF role \in {"ref", "wref"} THEN 0 ELSE u, size |-> size]
    [] OTHER -> e
\* state: [tab, in (units included), err]
AddUnit(c, x, u) ==
  LET t == [s \in 1..c.n |-> Merge(x.tab[s], c.units[u].roles[s], u, c.units[u].size[s])]
  IN [x EXCEPT !.tab = t, !.in = Append(@, u), !.err = @ \/ \E s \in 1..c.n : t[s].st = "twice"]
Defines(c, u, s) == c.units[u].roles[s] \in {"strong", "weak"}
\* a member is pulled when it defines a name with a strong undefined reference
Pulled(c, x, us) == {i \in 1..Len(us) : us[i] \notin ToSet(x.in) /\ \E s \in 1..c.n : x.tab[s].st = "ref" /\ Defines(c, us[i], s)}
RECURSIVE AddArchive(_, _, _)
AddArchive(c, x, us) ==
  LET p == Pulled(c, x, us)
  IN IF p = {} THEN x
     ELSE LET i == CHOOSE i \in p : \A j \in p : i <= j IN AddArchive(c, AddUnit(c, x, us[i]), us)
AddDll(c, x, u) == [x EXCEPT !.dll = [s \in 1..c.n |-> IF @[s] = 0 /\ Defines(c, u, s) THEN u ELSE @[s]]]
Add(c, x, i) == CASE i.form = "unit" -> AddUnit(c, x, i.us[1])
                  [] i.form = "archive" -> AddArchive(c, x, i.us)
                  [] OTHER -> AddDll(c, x, i.us[1])
Start(c) == [tab |-> Blank(c.n), in |-> <<>>, err |-> FALSE, dll |-> [s \in 1..c.n |-> 0]]
RECURSIVE Link(_, _, _)
Link(c, x, k) == IF k > Len(c.inputs) THEN x ELSE Link(c, Add(c, x, c.inputs[k]), k + 1)

InLibc(c, s) == s \in ToSet(c.libc)
\* where a global name leads in the end: [to, by]
Final(c, x, s) ==
  LET e == x.tab[s]
  IN CASE e.st \in {"strong", "weak"} -> [to |-> "unit", by |-> e.by]
       [] e.st = "common" -> [to |-> "common", by |-> 0]
       [] x.dll[s] # 0 -> [to |-> "dll", by |-> x.dll[s]]
       [] InLibc(c, s) -> [to |-> "libc", by |-> 0]
       [] OTHER -> [to |-> "null", by |-> 0]
Unresolved(c, x) == \E s \in 1..c.n : x.tab[s].st = "ref" /\ Final(c, x, s).to = "null"
Fails(c, x) == x.err \/ Unresolved(c, x)
Seen(c, x, u, s) == IF c.units[u].roles[s] = "static" THEN [to |-> "static", by |-> u] ELSE Final(c, x, s)
Outcome(c) ==
  LET x == Link(c, Start(c), 1)
  IN IF Fails(c, x) THEN [fails |-> TRUE, in |-> <<>>, sees |-> <<>>, size |-> <<>>]
     ELSE [fails |-> FALSE, in |-> x.in, size |-> [s \in 1..c.n |-> x.tab[s].size],
           sees |-> [k \in 1..Len(x.in) |-> [s \in 1..c.n |-> IF c.units[x.in[k]].roles[s] = "none" THEN [to |-> "none", by |-> 0] ELSE Seen(c, x, x.in[k], s)]]]
==============================================================================
