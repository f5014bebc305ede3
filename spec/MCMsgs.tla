------------------------------- MODULE MCMsgs -------------------------------
EXTENDS Msgs, TLC, FiniteSets
CONSTANT N
VARIABLES tty, opts, what, input
vars == <<tty, opts, what, input>>
Kinds == {"q", "v", "verb", "h", "badD", "z", "c", "o", "e", "p", "L", "I", "C", "D"}
C == [env |-> 0, tty |-> tty, opts |-> opts, what |-> what, input |-> input]
Init == opts = <<>> /\ tty \in BOOLEAN /\ what \in {"ok", "err", "undef", "noentry", "missing", "signal"} /\ input \in {"file", "stdin", "dash"} /\ (what = "missing" => input = "file")
Next == Len(opts) < N /\ \E k \in Kinds \ (IF input = "file" THEN {} ELSE {"c"}) : opts' = Append(opts, [k |-> k, a |-> Len(opts) + 1]) /\ UNCHANGED <<tty, what, input>>
Spec == Init /\ [][Next]_vars
W == Written(C)
Has(k) == \E i \in 1..Len(opts) : opts[i].k = k
Said(m) == \E i \in 1..Len(W.err) : W.err[i].m = m
Stops == Has("h") \/ Has("badD")
\* redirected output makes it quiet: nothing but what goes wrong
Redirected == (~tty /\ what = "ok" /\ ~Stops /\ ~Has("verb") /\ ~Has("v") /\ ~Has("o") /\ ~Has("z"))
              => W.err = IF Has("c") THEN <<>> ELSE <<[m |-> "app", a |-> <<>>]>>
QuietAsked == (what = "ok" /\ ~Stops /\ ~Has("verb") /\ ~Has("v") /\ ~Has("o") /\ ~Has("z") /\ ~Has("c") /\ opts # <<>> /\ opts[1].k = "q")
              => W.err = <<[m |-> "app", a |-> <<>>]>>
Talks == (Has("verb") /\ ~Stops /\ ~Has("c")) => Said("banner")
Terminal == (tty /\ ~Stops /\ ~Has("q") /\ ~Has("c")) => Said("banner")
\* -v and --verb never make it say less
More == (~Stops /\ ~Has("c") /\ input # "stdin") => \A k \in {"v", "verb"} :
   LET u == Written([C EXCEPT !.opts = Append(opts, [k |-> k, a |-> 9])])
   IN \A i \in 1..Len(W.err) : \E j \in 1..Len(u.err) : u.err[j] = W.err[i]
\* whatever goes wrong is said, however quiet
Errors == (~Stops /\ ~(input = "stdin" /\ Has("v"))) =>
   /\ (what = "err" => Said("source"))
   /\ (what = "undef" /\ ~Has("c") => Said("undefined"))
   /\ (what = "noentry" /\ ~Has("c") /\ ~Has("o") => Said("no entry"))
   /\ (what = "signal" /\ W.app => Said("killed"))
Runs == W.app => Cardinality({i \in 1..Len(W.err) : W.err[i].m = "app"}) = 1
NotRun == ~W.app => ~Said("app")
=============================================================================
