-------------------------------- MODULE Life ---------------------------------
(* The life of a program run in memory by cjit: the pid file, the process     *)
(* that executes the application, what it undergoes and what cjit reports.    *)
EXTENDS Naturals, Sequences

(* events of an application's life, as records [ev, n]                        *)
(*   buf      writes a token to stdout through a buffer     flush             *)
(*   raw      writes a token to stdout directly                               *)
(*   stop     stops itself        xstop  is stopped by someone    cont        *)
(*   cstop    cjit itself is stopped and continued                            *)
(*   fork     forks a child that exits with n and is (n odd) or is not waited *)
(*   slow     registers an exit handler that takes a while and writes a token *)
(*   read     reads n bytes of standard input and writes them back directly   *)
(* and its ends: ret, exit, quit (_exit), raise, kill, abort, segv            *)
Ends == {"ret", "exit", "quit", "raise", "kill", "abort", "segv"}

\* pid: "none" (not asked for), "good", "bad" (cannot be written)
Begin(pid) == [app |-> "none", cjit |-> "setup", pid |-> pid, pidfile |-> "absent", out |-> <<>>, buf |-> <<>>,
               late |-> <<>>, status |-> 1000, calls |-> 0, tok |-> 0]

WritePid(s) == IF s.pid = "none" THEN [s EXCEPT !.cjit = "ready"]
               ELSE IF s.pid = "good" THEN [s EXCEPT !.cjit = "ready", !.pidfile = "exact"]
               ELSE [s EXCEPT !.cjit = "done", !.status = 255]
Start(s) == [s EXCEPT !.app = "running", !.cjit = "waiting", !.calls = @ + 1]

\* exit handlers run in reverse order of registration, stdio flushes last
Normal(s, n) == [s EXCEPT !.app = "ended", !.out = @ \o s.buf \o s.late, !.buf = <<>>, !.late = <<>>, !.status = n % 256]
Killed(s, n) == [s EXCEPT !.app = "ended", !.buf = <<>>, !.status = n]

\* other signals than KILL stay pending while the process is stopped
Enabled(s, ev, n) == CASE ev = "cont" -> s.app = "stopped"
                    [] ev = "kill" -> s.app = "running" \/ (s.app = "stopped" /\ n = 9)
                    [] ev = "cstop" -> s.app \in {"running", "stopped"}
                    [] OTHER -> s.app = "running"
Occur(s, e) ==
    CASE e.ev = "buf"   -> [s EXCEPT !.buf = Append(@, s.tok), !.tok = @ + 1]
      [] e.ev = "flush" -> [s EXCEPT !.out = @ \o s.buf, !.buf = <<>>]
      [] e.ev = "raw"   -> [s EXCEPT !.out = Append(@, s.tok), !.tok = @ + 1]
      [] e.ev \in {"stop", "xstop"} -> [s EXCEPT !.app = "stopped"]
      [] e.ev = "cont"  -> [s EXCEPT !.app = "running"]
      [] e.ev = "cstop" -> s
      [] e.ev = "fork"  -> s
      [] e.ev = "read"  -> [s EXCEPT !.out = Append(@, s.tok), !.tok = @ + 1]
      [] e.ev = "slow"  -> [s EXCEPT !.late = <<s.tok>> \o @, !.tok = @ + 1]
      [] e.ev \in {"ret", "exit"} -> Normal(s, e.n)
      [] e.ev = "quit"  -> [Killed(s, e.n % 256) EXCEPT !.late = <<>>]
      [] e.ev \in {"raise", "kill"} -> [Killed(s, e.n) EXCEPT !.late = <<>>]
      [] e.ev = "abort" -> [Killed(s, 6) EXCEPT !.late = <<>>]
      [] e.ev = "segv"  -> [Killed(s, 11) EXCEPT !.late = <<>>]
Reap(s) == [s EXCEPT !.cjit = "done"]

RECURSIVE Play(_, _)
Play(s, es) == IF es = <<>> THEN s ELSE Play(Occur(s, Head(es)), Tail(es))
Outcome(c) == LET s0 == WritePid(Begin(c.pid))
                  s == IF s0.cjit = "done" THEN s0 ELSE Reap(Play(Start(s0), c.events))
              IN [status |-> s.status, out |-> s.out, calls |-> s.calls, pidfile |-> s.pidfile]
==============================================================================
