--------------------------------- MODULE Cli ---------------------------------
(* Command line of cjit: which words are options, values, ignored compiler    *)
(* flags, inputs and application arguments, and what a run then observes.     *)
(*                                                                            *)
(* A word is a sequence of one-character strings (characters without a        *)
(* meaning here may be any other token). The scanner is a machine that eats   *)
(* one word per step; Scan is its step function, used both by the model       *)
(* checked in MCCli and, iterated, to predict the outcome of real runs.       *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

ValueOpts == {"D", "L", "l", "C", "I", "e", "p", "o", "a"}
FlagOpts  == {"q", "h", "v", "c", "g"}
Alnum == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
          "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z",
          "0","1","2","3","4","5","6","7","8","9"}

StaticLibgcc == <<"-","s","t","a","t","i","c","-","l","i","b","g","c","c">>
Shared == <<"-","s","h","a","r","e","d">>
Pedantic == <<"-","p","e","d","a","n","t","i","c">>
Verb == <<"-","-","v","e","r","b">>
Separator == <<"-","-">>
Dash == <<"-">>

(* compiler flags that are accepted and dropped *)
Tolerated(w) ==
    \/ w \in {<<"-","s">>, StaticLibgcc, Shared, Pedantic}
    \/ /\ Len(w) >= 2 /\ w[1] = "-" /\ w[2] \in {"O", "f", "W", "M", "g"}
       /\ (Len(w) = 2 \/ w[3] \in Alnum)

Begin == [mode |-> "scan", opt |-> "", opts |-> <<>>, inputs |-> <<>>, app |-> <<>>, ignored |-> 0, flags |-> 0]

IsOption(w) == Len(w) >= 2 /\ w[1] = "-"

Scan(st, w) ==
    CASE st.mode = "app"   -> [st EXCEPT !.app = Append(@, w)]
      [] st.mode = "value" -> [st EXCEPT !.mode = "scan", !.opts = Append(@, <<st.opt, w>>)]
      [] w = Separator     -> [st EXCEPT !.mode = "app"]
      [] ~IsOption(w)      -> [st EXCEPT !.inputs = Append(@, w)]
      [] Tolerated(w)      -> [st EXCEPT !.ignored = @ + 1]
      [] w = Verb          -> [st EXCEPT !.opts = Append(@, <<"verb", <<>>>>)]
      [] w[2] \in ValueOpts /\ Len(w) = 2 -> [st EXCEPT !.mode = "value", !.opt = w[2]]
      [] w[2] \in ValueOpts /\ Len(w) > 2 -> [st EXCEPT !.opts = Append(@, <<w[2], SubSeq(w, 3, Len(w))>>)]
      [] w[2] \in FlagOpts /\ Len(w) = 2  -> [st EXCEPT !.opts = Append(@, <<w[2], <<>>>>)]
      [] OTHER -> [st EXCEPT !.mode = "undefined"]   \* outside of the documented language

RECURSIVE ScanAll(_, _)
ScanAll(st, ws) == IF ws = <<>> THEN st ELSE ScanAll(Scan(st, Head(ws)), Tail(ws))

------------------------------------------------------------------------------
(* What the options mean *)
Values(st, o) == LET s == SelectSeq(st.opts, LAMBDA x : x[1] = o) IN [i \in 1..Len(s) |-> s[i][2]]
HasOpt(st, o) == \E i \in 1..Len(st.opts) : st.opts[i][1] = o
LastOr(s, d) == IF s = <<>> THEN d ELSE s[Len(s)]

\* position of the first "=" of a word, or 0
EqPos(w) == LET P == {i \in 1..Len(w) : w[i] = "="} IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j
MacroName(w) == IF EqPos(w) = 0 THEN w ELSE SubSeq(w, 1, EqPos(w) - 1)
MacroValue(w) == IF EqPos(w) = 0 THEN <<"1">> ELSE SubSeq(w, EqPos(w) + 1, Len(w))

\* value of macro name n, or "undefined"; the last definition stands
Macro(st, n) ==
    LET d == SelectSeq(Values(st, "D"), LAMBDA w : MacroName(w) = n)
    IN IF d = <<>> THEN [def |-> FALSE, val |-> <<>>] ELSE [def |-> TRUE, val |-> MacroValue(d[Len(d)])]

\* first directory of the sequence dirs that is in the set S, or <<>>
FirstIn(dirs, S) == LET f == SelectSeq(dirs, LAMBDA d : d \in S) IN IF f = <<>> THEN <<>> ELSE Head(f)

Mode(st) == IF st.inputs = <<>> /\ HasOpt(st, "v") THEN "status"   \* -v alone prints the setup
            ELSE IF HasOpt(st, "c") THEN "obj" ELSE IF HasOpt(st, "o") THEN "exe" ELSE "run"

(* c.words: the command line; c.headers: name -> directories having it;       *)
(* c.libs: name -> directories having it; c.macros: names to report.          *)
Expect(c) ==
    LET st == ScanAll(Begin, c.words)
        names == Values(st, "l")
    IN [ ok |-> st.mode \in {"scan", "app"},
         mode |-> Mode(st),
         inputs |-> st.inputs,
         argv |-> st.app,
         argv0 |-> IF st.inputs = <<>> THEN <<>> ELSE st.inputs[Len(st.inputs)],
         entry |-> LastOr(Values(st, "e"), <<"m","a","i","n">>),
         macros |-> [i \in 1..Len(c.macros) |-> Macro(st, c.macros[i])],
         headers |-> [i \in 1..Len(c.headers) |-> FirstIn(Values(st, "I"), ToSet(c.headers[i]))],
         libs |-> [i \in 1..Len(c.libs) |-> IF c.libs[i].name \in ToSet(names)
                                              THEN FirstIn(Values(st, "L"), ToSet(c.libs[i].dirs)) ELSE <<>>],
         cflags |-> Values(st, "C"),
         pid |-> LastOr(Values(st, "p"), <<>>),
         out |-> LastOr(Values(st, "o"), <<>>),
         verbose |-> HasOpt(st, "verb") ]
==============================================================================
