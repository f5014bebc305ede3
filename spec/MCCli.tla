-------------------------------- MODULE MCCli --------------------------------
(* The scanner as a state machine over every command line of at most N words  *)
(* of an alphabet covering each word class, with the properties it must have. *)
EXTENDS Cli, TLC
CONSTANT N
Alphabet == { <<"a",".","c">>, <<"b",".","c">>, <<"-">>, <<"-","g">>, <<"-","O","2">>, <<"-","s">>, <<"-","W","a","l","l">>,
              <<"-","D">>, <<"-","D","A">>, <<"A">>, <<"-","I","d">>, <<"-","p">>, <<"-","-">>, <<"-","-","v","e","r","b">>, <<"-","q">>, <<>> }
VARIABLES eaten, st
vars == <<eaten, st>>
Init == eaten = <<>> /\ st = Begin
Next == \E w \in Alphabet : Len(eaten) < N /\ eaten' = Append(eaten, w) /\ st' = Scan(st, w)
Spec == Init /\ [][Next]_vars
----
FirstSep == LET P == {i \in 1..Len(eaten) : eaten[i] = Separator /\ (i = 1 \/ ScanAll(Begin, SubSeq(eaten, 1, i - 1)).mode = "scan")}
            IN IF P = {} THEN Len(eaten) + 1 ELSE CHOOSE i \in P : \A j \in P : i <= j
\* everything after the separator, and nothing else, is for the application
AppExact == st.app = SubSeq(eaten, FirstSep + 1, Len(eaten))
\* every word before the separator is used exactly once
Separate == Cardinality({i \in 1..Len(eaten) : i < FirstSep /\ i > 1 /\ ScanAll(Begin, SubSeq(eaten, 1, i - 1)).mode = "value"})
Accounted == st.mode # "undefined" =>
    Len(st.inputs) + Len(st.opts) + st.ignored + Separate + (IF st.mode = "value" THEN 1 ELSE 0) = FirstSep - 1
\* inputs appear in the order given and are never options
InputsOrdered == /\ \A i \in 1..Len(st.inputs) : ~IsOption(st.inputs[i])
                 /\ \E f \in [1..Len(st.inputs) -> 1..Len(eaten)] :
                       /\ \A i \in 1..Len(st.inputs) : eaten[f[i]] = st.inputs[i] /\ f[i] < FirstSep
                       /\ \A i, j \in 1..Len(st.inputs) : i < j => f[i] < f[j]
\* an ignored flag changes nothing: removing the words that Scan ignores gives the same result
Core(s) == [s EXCEPT !.ignored = 0]
RECURSIVE Kept(_, _)
Kept(s, ws) == IF ws = <<>> THEN <<>> ELSE
    LET n == Scan(s, Head(ws)) IN (IF n.ignored > s.ignored THEN <<>> ELSE <<Head(ws)>>) \o Kept(n, Tail(ws))
IgnoredHarmless == Core(ScanAll(Begin, Kept(Begin, eaten))) = Core(st)
\* nothing after the separator can change options or inputs
AppInert == [][st.mode = "app" => /\ st'.opts = st.opts /\ st'.inputs = st.inputs /\ st'.mode = "app"]_vars
==============================================================================
