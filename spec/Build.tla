-------------------------------- MODULE Build --------------------------------
(* Building a program from a sequence of inputs: each input is loaded in      *)
(* order, then everything is linked, then the result is run or written.       *)
(* The first failure ends it: no application code runs, no file is written,   *)
(* the status is a failure.                                                   *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

(* kind of input |-> does it load, what it defines (strongly) and refers to;  *)
(* src: can be compiled with -c; piped: can be given on standard input        *)
K(l, d, r, s) == [loads |-> l, defs |-> d, refs |-> r, src |-> s]
Kinds == [
  main    |-> K(TRUE, {"main"}, {}, TRUE),
  mainalt |-> K(TRUE, {"main", "alt"}, {}, TRUE),
  mainf   |-> K(TRUE, {"main"}, {"f"}, TRUE),
  unitf   |-> K(TRUE, {"f"}, {}, TRUE),
  unitg   |-> K(TRUE, {"g"}, {"f"}, TRUE),
  dupf    |-> K(TRUE, {"f"}, {}, TRUE),
  dataf   |-> K(TRUE, {"d"}, {}, TRUE),
  datad   |-> K(TRUE, {"d"}, {}, TRUE),
  undef   |-> K(TRUE, {"u"}, {"nowhere"}, TRUE),
  unddata |-> K(TRUE, {"v"}, {"nodata"}, TRUE),
  altonly |-> K(TRUE, {"alt"}, {}, TRUE),
  empty   |-> K(TRUE, {}, {}, TRUE),
  short   |-> K(TRUE, {}, {}, TRUE),
  onebyte |-> K(TRUE, {}, {}, TRUE),
  srccc   |-> K(TRUE, {"k"}, {}, TRUE),
  srcC    |-> K(TRUE, {"kk"}, {}, TRUE),
  noext   |-> K(TRUE, {"n"}, {}, FALSE),
  header  |-> K(TRUE, {}, {}, FALSE),
  gccobj  |-> K(TRUE, {"o"}, {"f"}, FALSE),
  cjitobj |-> K(TRUE, {"p"}, {}, FALSE),
  shlib   |-> K(TRUE, {}, {}, FALSE),
  missing |-> K(FALSE, {}, {}, TRUE),
  missobj |-> K(FALSE, {}, {}, FALSE),
  missnoext |-> K(FALSE, {}, {}, FALSE),
  missso  |-> K(FALSE, {}, {}, FALSE),
  direct  |-> K(FALSE, {}, {}, TRUE),
  dirnoext |-> K(FALSE, {}, {}, FALSE),
  dangling |-> K(FALSE, {}, {}, TRUE),
  bom8    |-> K(FALSE, {}, {}, FALSE),
  bom16l  |-> K(FALSE, {}, {}, FALSE),
  bom16b  |-> K(FALSE, {}, {}, FALSE),
  syntax  |-> K(FALSE, {}, {}, TRUE),
  sysynext |-> K(FALSE, {}, {}, FALSE),
  syntaxcc |-> K(FALSE, {}, {}, TRUE),
  undecl  |-> K(FALSE, {}, {}, TRUE),
  badtype |-> K(FALSE, {}, {}, TRUE),
  hasherr |-> K(FALSE, {}, {}, TRUE),
  noinc   |-> K(FALSE, {}, {}, TRUE),
  openif  |-> K(FALSE, {}, {}, TRUE),
  opencom |-> K(FALSE, {}, {}, TRUE),
  openstr |-> K(FALSE, {}, {}, TRUE),
  openbrace |-> K(FALSE, {}, {}, TRUE),
  redef   |-> K(FALSE, {}, {}, TRUE),
  incomplete |-> K(FALSE, {}, {}, TRUE),
  badlabel |-> K(FALSE, {}, {}, TRUE),
  garbobj |-> K(FALSE, {}, {}, FALSE),
  garbso  |-> K(FALSE, {}, {}, FALSE),
  garba   |-> K(FALSE, {}, {}, FALSE) ]

(* modes: run (in memory), exe (-o), obj (-c), objo (-c -o); the *_nodir and  *)
(* *_nospace variants cannot write their output                               *)
Modes == {"run", "exe", "obj", "objo", "exe_nodir", "exe_nospace", "objo_nodir", "obj_nospace"}
Compiles(m) == m \in {"obj", "objo", "objo_nodir", "obj_nospace"}
Writable(m) == m \in {"exe", "obj", "objo"}

Start(ins, m, e) == [ins |-> ins, mode |-> m, entry |-> e, next |-> 1, phase |-> "load", defs |-> {}, refs |-> {},
                     ran |-> FALSE, file |-> FALSE, status |-> "none"]
Fail(s) == [s EXCEPT !.phase = "done", !.status = "failure"]
Defined == {}
\* one step of the build
Step(s) ==
  CASE s.phase = "load" /\ Compiles(s.mode) /\ Len(s.ins) # 1 -> Fail(s)
    [] s.phase = "load" /\ Len(s.ins) = 0 -> Fail(s)
    [] s.phase = "load" /\ Len(s.ins) > 0 /\ s.next <= Len(s.ins) /\ ~(Compiles(s.mode) /\ Len(s.ins) # 1) ->
         LET k == Kinds[s.ins[s.next]]
         IN IF ~k.loads \/ (Compiles(s.mode) /\ ~k.src) \/ k.defs \cap s.defs # {} THEN Fail(s)
            ELSE [s EXCEPT !.next = @ + 1, !.defs = @ \cup k.defs, !.refs = @ \cup k.refs]
    [] s.phase = "load" /\ s.next > Len(s.ins) /\ Len(s.ins) > 0 -> [s EXCEPT !.phase = IF Compiles(s.mode) THEN "write" ELSE "link"]
    [] s.phase = "link" ->
         LET need == s.refs \cup (IF s.mode = "run" THEN {s.entry} ELSE {"main"})
         IN IF need \subseteq s.defs THEN [s EXCEPT !.phase = IF s.mode = "run" THEN "run" ELSE "write"] ELSE Fail(s)
    [] s.phase = "write" -> IF Writable(s.mode) THEN [s EXCEPT !.phase = "done", !.file = TRUE, !.status = "success"] ELSE Fail(s)
    [] s.phase = "run" -> [s EXCEPT !.phase = "done", !.ran = TRUE, !.status = "application"]
    [] OTHER -> s

RECURSIVE Finish(_)
Finish(s) == IF s.phase = "done" THEN s ELSE Finish(Step(s))
Outcome(c) == LET s == Finish(Start(c.ins, c.mode, c.entry)) IN [ran |-> s.ran, file |-> s.file, status |-> s.status]

(* the names one program uses and how, the names it defines and those the     *)
(* system provides: a name that is merely declared, or only measured, or used *)
(* weakly, needs no definition                                                *)
Needing == {"call", "take", "read", "write", "init", "array"}
Needs(c) == {u.name : u \in {v \in ToSet(c.uses) : v.how \in Needing}}
Resolves(c) == LET missing == Needs(c) \ (ToSet(c.defs) \cup ToSet(c.given)) IN [ok |-> missing = {} \/ c.mode = "obj", missing |-> SetToSeq(missing)]

(* which files are C sources by the end of their names, whatever the rest of  *)
(* the path looks like; what a file must hold to be accepted. "any": not      *)
(* specified                                                                  *)
Sources == {"c", "C"} \cup {a \o b : a \in {"c", "C"}, b \in {"c", "C"}} \cup {a \o b \o d : a \in {"c", "C"}, b \in {"x", "X"}, d \in {"x", "X"}}
TextToo == {"", "h", "i"}
Suffix(c) ==
  IF c.text # "good" THEN (IF c.text = "bom" /\ Compiles(c.mode) THEN "any" ELSE "refused")
  ELSE IF c.ext \in Sources THEN "built"
  ELSE IF c.ext \in TextToo /\ ~Compiles(c.mode) THEN "built" ELSE "any"
==============================================================================
