--------------------------------- MODULE Ar ---------------------------------
(* The archive cjit -ar makes from objects: 8 bytes of magic, a member "/"    *)
(* with the symbol index, then every object behind a header of 60 bytes, all  *)
(* members starting at even offsets. An object is [name, size, defs, twin]:   *)
(* its base name, length in bytes, and the global and weak names it defines.  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Even(n) == n + (n % 2)
Header == 60
\* length of the index: a count, an offset per name, the names each with a NUL
IndexLen(ms) == FoldLeft(LAMBDA n, m : FoldLeft(LAMBDA k, d : k + 4 + d.len + 1, n, m.defs), 4, ms)
RECURSIVE Offset(_, _)
Offset(ms, k) == IF k = 1 THEN 8 + Header + Even(IndexLen(ms)) ELSE Offset(ms, k - 1) + Header + Even(ms[k - 1].size)
Total(ms) == IF ms = <<>> THEN 8 ELSE Offset(ms, Len(ms)) + Header + Even(Last(ms).size)
Listing(ms) == [k \in 1..Len(ms) |-> ms[k].name]
\* extraction leaves, for every name, the last member that has it
Extracted(ms) == {[name |-> ms[k].name, from |-> k] : k \in {i \in 1..Len(ms) : \A j \in (i + 1)..Len(ms) : ms[j].name # ms[i].name}}
\* creating: inputs in order, [ok, ...]; a missing input ends it and leaves nothing
Created(ins) == \A i \in 1..Len(ins) : ins[i].ok
Outcome(c) ==
  LET ms == c.ins
  IN IF ~Created(c.ins) THEN [ok |-> FALSE, total |-> 0, listing |-> <<>>, offsets |-> <<>>, extracted |-> {}, has |-> <<>>]
     ELSE [ok |-> TRUE, total |-> Total(ms), listing |-> Listing(ms), offsets |-> [k \in 1..Len(ms) |-> Offset(ms, k)], extracted |-> Extracted(ms),
           has |-> FoldLeft(LAMBDA acc, k : acc \o [j \in 1..Len(ms[k].defs) |-> <<ms[k].defs[j].name, k>>], <<>>, [k \in 1..Len(ms) |-> k])]
=============================================================================
