#!/usr/bin/env python3
"""checks/run.py <property id>: decide one property on /repo's working tree."""
import os, signal, sys
if not sys.flags.utf8_mode:  # whatever the locale
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONUTF8="1"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vf
# the caller may ignore or block signals (nohup does); what is run here starts from the defaults
for s in (signal.SIGHUP, signal.SIGINT, signal.SIGQUIT, signal.SIGTERM, signal.SIGUSR1, signal.SIGUSR2, signal.SIGALRM, signal.SIGCHLD, signal.SIGXFSZ, signal.SIGTSTP, signal.SIGTTIN, signal.SIGTTOU):
    if signal.getsignal(s) == signal.SIG_IGN:
        signal.signal(s, signal.SIG_DFL)
signal.pthread_sigmask(signal.SIG_SETMASK, [])
for f in (sys.stdout, sys.stderr):
    f.reconfigure(encoding="utf-8", errors="backslashreplace")
vf.main(sys.argv)
