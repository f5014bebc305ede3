-------------------------------- MODULE Msgs --------------------------------
(* What one run of cjit writes: to standard output only what the application  *)
(* wrote (or the path --xass is asked for), to standard error a sequence of   *)
(* messages [m, a]: text m with the arguments numbered a in it, and what the  *)
(* application wrote there.                                                   *)
(* A case: tty: standard output is a terminal; opts: the options in order,    *)
(* [k, a]: kind and number of the argument; env: argument number of $CFLAGS   *)
(* or 0; input: "file", "stdin" (no file given; with -v it is not read), "dash"     *)
(* (file -);                                                                  *)
(* what becomes of it: "ok", "err" (an error in the source), "undef" (an      *)
(* undefined symbol), "noentry", "missing" (no such file), "signal".          *)
EXTENDS Integers, Sequences

M(m, a) == [m |-> m, a |-> a]
Start(c) == [quiet |-> ~c.tty, verbose |-> FALSE, status |-> FALSE, obj |-> FALSE, exe |-> FALSE, entry |-> 0, out |-> 0, err |-> <<>>, env |-> c.env, end |-> FALSE]
Say(s, m, a) == [s EXCEPT !.err = Append(@, M(m, a))]
If(s, b, m, a) == IF b THEN Say(s, m, a) ELSE s
Opt(s, o) ==
  CASE o.k = "q" -> IF s.verbose THEN s ELSE [s EXCEPT !.quiet = TRUE]
    [] o.k = "v" -> [s EXCEPT !.status = TRUE]
    [] o.k = "verb" -> [s EXCEPT !.quiet = FALSE, !.verbose = TRUE]
    [] o.k = "h" -> [Say(s, "help", <<>>) EXCEPT !.end = TRUE]
    [] o.k = "badD" -> [Say(s, "badD", <<o.a>>) EXCEPT !.end = TRUE]
    [] o.k = "z" -> Say(s, "unknown", <<o.a>>)
    [] o.k = "c" -> [s EXCEPT !.quiet = TRUE, !.obj = TRUE]
    [] o.k = "o" -> [s EXCEPT !.out = o.a, !.exe = TRUE]
    [] o.k = "e" -> [If(s, ~s.quiet, "entry", <<o.a>>) EXCEPT !.entry = o.a]
    [] o.k = "p" -> If(s, ~s.quiet, "pid", <<o.a>>)
    [] o.k = "L" -> If(s, s.verbose, "libdir", <<o.a>>)
    [] o.k = "I" -> If(s, s.verbose, "incdir", <<o.a>>)
    [] o.k = "C" -> If(s, s.verbose, "cflags", <<o.a>>)
    [] o.k = "D" -> s
RECURSIVE Opts(_, _, _)
Opts(s, os, i) == IF i > Len(os) \/ s.end THEN s ELSE Opts(Opt(s, os[i]), os, i + 1)

\* argument 0 of the case is the source
Src == 0
App(s) == Say(s, "app", <<>>)
Setup(s) == [If(s, s.env # 0, "env", <<s.env>>) EXCEPT !.env = 0]
Add(s0, c) ==      \* the input is read; TRUE in ok when there is something to run
  LET s == Setup(IF c.input = "stdin" THEN If(s0, ~s0.quiet, "stdin", <<>>) ELSE s0)
  IN
  CASE c.input \in {"stdin", "dash"} -> LET t == s
                            IN IF c.what = "err" THEN [ok |-> FALSE, s |-> Say(Say(t, "source", <<>>), "in stdin", <<>>)] ELSE [ok |-> TRUE, s |-> t]
    [] c.what = "err" -> [ok |-> FALSE, s |-> Say(Say(s, "source", <<>>), IF s.obj THEN "compile error" ELSE "file error", <<Src>>)]
    [] c.what = "missing" /\ s.obj -> [ok |-> FALSE, s |-> Say(Say(s, "not found", <<Src>>), "compile error", <<Src>>)]
    [] c.what = "missing" -> [ok |-> FALSE, s |-> Say(Say(Say(s, "bom", <<Src>>), "add", <<Src>>), "file error", <<Src>>)]
    [] OTHER -> [ok |-> TRUE, s |-> s]
Banner(s) == If(s, ~s.quiet, "banner", <<>>)
Status(s) == IF s.status THEN Setup(Say(s, "status", <<>>)) ELSE s
Go(s0, c) ==
  LET s == Banner(s0)
      a == Add(CASE s.verbose /\ c.input = "file" -> Say(Say(s, "sources", <<>>), "+", <<Src>>)
                 [] s.verbose /\ c.input = "dash" -> Say(Say(s, "sources", <<>>), "| standard input", <<>>)
                 [] OTHER -> s, c)
      t == Status(a.s)
  IN IF c.input = "stdin" /\ s.status THEN Status(s)
     ELSE IF s.obj THEN LET b == Add(Status(s), c)
                        IN IF b.ok THEN If(b.s, ~s.quiet, "compiling", <<Src, s.out>>) ELSE b.s
     ELSE IF ~a.ok THEN a.s
     ELSE IF s.exe THEN LET u == Say(t, "create", <<s.out>>)
                        IN IF c.what = "undef" THEN Say(Say(u, "undefined", <<>>), "link error", <<s.out>>) ELSE u
     ELSE CASE c.what = "undef" -> Say(Say(Say(t, "undefined", <<>>), "exec error", <<>>), "missing", <<>>)
            [] c.what = "noentry" -> Say(t, "no entry", <<s.entry>>)
            [] c.what = "signal" -> Say(App(t), "killed", <<>>)
            [] OTHER -> App(t)
Ran(c, s) == ~s.end /\ ~(c.input = "stdin" /\ s.status) /\ ~s.obj /\ ~s.exe /\ c.what \in {"ok", "signal"}
\* the messages are all there are unless more were asked for
Written(c) == LET s == Opts(Start(c), c.opts, 1)
                  t == IF s.end THEN s ELSE Go(s, c)
              IN [err |-> t.err, app |-> Ran(c, s), exact |-> ~s.verbose /\ ~s.status]
=============================================================================
