"""C03: the application runs once, to completion, and cjit reports how it ended (spec/Life.tla)."""
import os, signal, subprocess, time, shutil, threading

TECHNIQUE = "TLA+ spec of the process life cycle, TLC-generated behaviours replayed against live cjit processes"
LEVEL = "model_checking"
NOTE = ("Every event sequence of bounded length (output, stops, continues, forks, all kinds of end, pid file good/bad/absent) that TLC "
        "enumerates from the specification is driven step by step on a real cjit process; all 256 exit statuses and all fatal signals are swept.")

APP = r'''
extern int printf(const char*,...); extern int fflush(void*); extern int read(int,void*,unsigned long); extern int write(int,const void*,unsigned long);
extern int getpid(void); extern int getppid(void); extern int raise(int); extern int kill(int,int); extern void exit(int); extern void _exit(int); extern void abort(void);
extern int fork(void); extern int waitpid(int,int*,int); extern int atexit(void(*)(void)); extern int usleep(unsigned); extern int sprintf(char*,const char*,...);
extern int open(const char*,int,...); extern int close(int); extern char *getenv(const char*);
extern int atoi(const char*); extern unsigned long strlen(const char*);
static int tok, calls;
static int stk[64], sp;
static int line(char*b){int i=0;while(i<200&&read(0,b+i,1)==1){if(b[i]=='\n'){b[i]=0;return 1;}i++;}return 0;}
static void ack(const char*m){char b[300];sprintf(b,"@%s\n",m);write(2,b,strlen(b));}
static void raw(int t){char b[32];sprintf(b,"%d;",t);write(1,b,strlen(b));}
static void late(void){usleep(40000);printf("%d;",stk[--sp]);}
static const char *pidcheck(void){
  static char b[64]; char w[64]; int f,n,m; char *p=getenv("VF_PID"); if(!p) return "none";
  f=open(p,0); if(f<0) return "absent"; n=read(f,b,60); close(f); if(n<0) n=0; b[n]=0;
  sprintf(w,"%d\n",getpid()); m=strlen(w); if(m!=n) return "bad"; while(n--) if(b[n]!=w[n]) return "bad"; return "exact";}
static const char *ctorpid;
static void __attribute__((constructor)) early(void){ctorpid=pidcheck();}
int main(int argc,char**argv){
  char b[256],m[300]; calls++;
  sprintf(m,"start %d %d %s %s",getpid(),getppid(),ctorpid,pidcheck()); ack(m);
  while(line(b)){
    int n=atoi(b+2);
    switch(b[0]){
    case 'b': printf("%d;",tok++); break;
    case 'f': fflush(0); break;
    case 'w': raw(tok++); break;
    case 's': ack("stopping"); raise(19); break;
    case 'r': { int i; char c; for(i=0;i<n;i++) if(read(0,&c,1)!=1||c!=(char)(i*7+1)) ack("BADIN"); raw(tok++); break; }
    case 'l': stk[sp++]=tok++; atexit(late); break;
    case 'k': { int st,p=fork(); if(p==0) _exit(n); if(n&1) {waitpid(p,&st,0);} break; }
    case 'R': return n;
    case 'E': exit(n);
    case 'Q': _exit(n);
    case 'S': raise(n); break;
    case 'A': abort();
    case 'V': *(volatile int*)0=1;
    case 'n': break;
    }
    ack("ok");
  }
  ack("eof");
  return 77;
}
int other(int argc,char**argv){ write(1,"OTHER;",6); return main(argc,argv); }
'''
CMD = {"buf": "b", "flush": "f", "raw": "w", "stop": "s", "slow": "l", "read": "r", "fork": "k", "ret": "R", "exit": "E", "quit": "Q", "raise": "S",
       "abort": "A", "segv": "V"}


def state(pid):
    try:
        return open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()[0]
    except OSError:
        return None


class Drive:
    def __init__(self, ctx, cjit, d, case, flags=()):
        self.bad = []
        env = dict(os.environ, LC_ALL="C.UTF-8")
        env.pop("CFLAGS", None)
        args = [cjit] + list(flags)
        pid = case["pid"]
        self.pidpath = None
        if pid == "good":
            self.pidpath = d + "/app.pid"
            if case.get("old"):
                open(self.pidpath, "w").write("9" * 40 + "\nstale\n")
        elif pid == "bad":
            self.pidpath = case.get("badpath") or "/dev/full"
        if self.pidpath:
            env["VF_PID"] = self.pidpath
            args += ["-p", self.pidpath]
        args.append("app.c")
        self.p = subprocess.Popen(args, cwd=d, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        self.out = b""
        self.t = threading.Thread(target=self.pump)
        self.t.start()
        self.apid = None
        self.timer = threading.Timer(60, self.dead)
        self.timer.start()
        self.err = b""

    def dead(self):
        self.bad.append("hangs")
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass

    def pump(self):
        self.out = self.p.stdout.read()

    def ackline(self):
        while True:
            l = self.p.stderr.readline()
            self.err += l
            if not l:
                return None
            if l.startswith(b"@"):
                return l[1:].strip().decode()

    def send(self, s):
        try:
            self.p.stdin.write(s)
            self.p.stdin.flush()
        except OSError:
            self.bad.append("the application is gone")

    def waitstate(self, pid, want):
        for _ in range(2000):
            if state(pid) in want:
                return True
            time.sleep(.002)
        self.bad.append("process state %s, waited for %s" % (state(pid), want))
        return False

    def go(self, case):
        l = self.ackline()
        if l is None:
            self.end()
            return
        w = l.split()
        if w[0] != "start":
            self.bad.append("unexpected " + l)
        self.apid = int(w[1])
        if self.apid == self.p.pid:
            self.bad.append("the application runs in the process of cjit, %d" % self.p.pid)
        want = {"none": "none", "good": "exact", "bad": "?"}[case["pid"]]
        if w[3] != want or w[4] != want:
            self.bad.append("pid file seen by the application: %s in a constructor, %s in main" % (w[3], w[4]))
        for e in case["events"]:
            ev, n = e["ev"], e["n"]
            if ev in ("xstop", "stop"):
                if ev == "stop":
                    self.send(b"s 0\n")
                    self.ackline()
                else:
                    os.kill(self.apid, signal.SIGSTOP)
                self.waitstate(self.apid, ("T",))
                self.stopped = ev
                t = time.time() + .03
                while time.time() < t:
                    if self.p.poll() is not None:
                        self.bad.append("cjit ended (%d) with the application stopped" % self.p.returncode)
                        break
                    time.sleep(.005)
            elif ev == "cont":
                os.kill(self.apid, signal.SIGCONT)
                if self.stopped == "stop":
                    if self.ackline() != "ok":
                        self.bad.append("not continued")
                else:
                    self.waitstate(self.apid, ("S", "R", "D"))
            elif ev == "cstop":
                os.kill(self.p.pid, signal.SIGSTOP)
                time.sleep(.005)
                os.kill(self.p.pid, signal.SIGCONT)
            elif ev == "kill":
                os.kill(self.apid, n)
            else:
                self.send(("%s %d\n" % (CMD[ev], n)).encode())
                if ev == "read":
                    self.send(bytes((i * 7 + 1) & 255 for i in range(n)))
                if ev not in ("ret", "exit", "quit", "raise", "abort", "segv"):
                    a = self.ackline()
                    if a != "ok":
                        self.bad.append("event %s: %s" % (ev, a))
        self.end()

    def end(self):
        try:
            self.p.wait(30)
        except subprocess.TimeoutExpired:
            self.bad.append("cjit does not end")
            os.killpg(self.p.pid, signal.SIGKILL)
            self.p.wait()
        if self.apid and state(self.apid) is not None:
            self.bad.append("cjit ended while the application is %s" % state(self.apid))
            try:
                os.kill(self.apid, signal.SIGKILL)
            except OSError:
                pass
        self.t.join(10)
        self.err += self.p.stderr.read()
        self.timer.cancel()
        self.p.stdin.close() if not self.p.stdin.closed else None
        self.p.stdout.close()
        self.p.stderr.close()
        if b"BADIN" in self.err:
            self.bad.append("standard input does not reach the application unchanged")


def check(ctx):
    ctx.model("MCLife", "CONSTANTS Depth = %d\nRecord = FALSE" % (5 if ctx.thorough else 4),
              ["Once", "Outlives", "PidFirst", "BadPid", "StatusKnown", "NoDup", "Complete"], ["OutGrows"], extra_cfg="CHECK_DEADLOCK FALSE\n")
    cjit = ctx.build()
    cases, _ = ctx.behaviours("MCLife", "SPECIFICATION Spec\nCONSTANTS Depth = %d\nRecord = TRUE\nCHECK_DEADLOCK FALSE\n" % (3 if ctx.thorough else 2))
    rng = ctx.rng
    cases.sort(key=str)
    if not ctx.thorough:
        cases = [c for c in cases if len(c["events"]) < 3 or rng.random() < .33]
    # statuses and signals
    for n in range(256):
        cases.append(dict(pid="none", events=[dict(ev=rng.choice(["ret", "exit", "quit"]), n=n)]))
    for n in (256, 511, 65536 + 9, 0x7fffff00, 0x7fffffff):
        cases.append(dict(pid="none", events=[dict(ev="ret", n=n)]))
        cases.append(dict(pid="none", events=[dict(ev="exit", n=n)]))
    for s in [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 24, 25, 26, 27, 29, 30, 31] + list(range(34, 65)):
        cases.append(dict(pid=rng.choice(["none", "good"]), events=[dict(ev="raise", n=s)]))
        cases.append(dict(pid="none", events=[dict(ev="raw", n=1), dict(ev="kill", n=s)]))
    # long random lives
    for _ in range(1500 if ctx.thorough else 250):
        ev, st = [], "running"
        for _ in range(rng.randrange(4, 16)):
            if st == "stopped":
                x = rng.choice(["cont", "cont", "cstop"])
            else:
                x = rng.choice(["buf", "flush", "raw", "raw", "buf", "stop", "xstop", "cstop", "fork", "read"] + (["slow"] if rng.random() < .3 else []))
            st = "stopped" if x in ("stop", "xstop") else "running" if x == "cont" else st
            ev.append(dict(ev=x, n=rng.randrange(1, 200)))
        if st == "stopped":
            ev.append(dict(ev="cont", n=1) if rng.random() < .7 else dict(ev="kill", n=9))
        if ev[-1]["ev"] != "kill":
            ev.append(rng.choice([dict(ev="ret", n=rng.randrange(256)), dict(ev="exit", n=rng.randrange(1024)), dict(ev="kill", n=15), dict(ev="raise", n=12),
                                  dict(ev="abort", n=1), dict(ev="quit", n=8)]))
        cases.append(dict(pid=rng.choice(["none", "good"]), events=ev, old=rng.random() < .5))
    for b in ("nodir/x.pid", ".", "/dev/full", "app.c/x"):
        cases.append(dict(pid="bad", badpath=b, events=[dict(ev="ret", n=0)]))
    # tokens of the flushing commands are numbers; ends by signals that stop are not used
    exp = ctx.eval("Life", [dict(pid=c["pid"], events=c["events"]) for c in cases], "Outcome")
    base = ctx.dir("base")
    open(base + "/app.c", "w").write(APP)
    ctx.run([cjit, "app.c"], cwd=base)
    flags = [[], [], ["-q"], ["--verb"], ["-v"], ["-e", "other"], ["-q", "-O2"]]

    def one(i):
        c, e = cases[i], exp[i]
        d = ctx.dir()
        os.link(base + "/app.c", d + "/app.c")
        fl = flags[i % len(flags)]
        try:
            D = Drive(ctx, cjit, d, c, fl)
            D.go(c)
            bad = D.bad
            out = b"".join(b"%d;" % t for t in e["out"])
            if e["calls"] and "other" in fl:
                out = b"OTHER;" + out
            if D.p.returncode != e["status"]:
                bad.append("exit status %d, expected %d" % (D.p.returncode, e["status"]))
            if D.out != out:
                bad.append("standard output %r, expected %r" % (D.out[-300:], out))
            if e["calls"] == 0 and D.apid:
                bad.append("the application started although its pid file cannot be written")
            if e["calls"] == 1 and not D.apid:
                bad.append("the application did not start: %r" % D.err[-200:])
            if c["pid"] == "good" and D.apid:
                t = open(D.pidpath, "rb").read() if os.path.exists(D.pidpath) else None
                if t != b"%d\n" % D.apid:
                    bad.append("pid file holds %r, application was %d" % (t, D.apid))
            return bad
        finally:
            shutil.rmtree(d, ignore_errors=True)

    res = ctx.pmap(one, range(len(cases)), 24)
    ctx.traces(len(cases))
    ctx.sample(cases[len(cases) // 3])
    ctx.sample(cases[-30])
    for i, r in enumerate(res):
        if r:
            r2 = one(i)
            if r2:
                ctx.violation("life", "%s %s\n%s" % (flags[i % len(flags)], cases[i], "; ".join(r2)), dict(case=cases[i], flags=flags[i % len(flags)]))
