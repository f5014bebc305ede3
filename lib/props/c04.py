"""C04: installation of the runtime assets (spec/Assets.tla, spec/Sched.tla)."""
import os, shutil, re
import vf

TECHNIQUE = "TLA+ spec of the installation protocol (TLC), TLC-generated schedules and faults imposed on real processes, traces validated by TLC"
LEVEL = "model_checking"
NOTE = ("The lock/mark protocol is model checked for 3 processes with crashes and write failures (and the naive one is refuted); real cjit processes are "
        "stepped call by call (ptrace) through schedules TLC enumerates, with kills, failing and short writes at every call, and every use of the assets is compared byte for byte.")

APP = r'''#include <stdarg.h>
#include <stddef.h>
#include <stdbool.h>
#include <float.h>
extern int printf(const char*,...);
int main(void){ volatile unsigned long long u=1ull<<63; volatile double d=u; bool b=true; va_list l; (void)l;
 printf("APP %d\n", (unsigned long long)d==u && b && DBL_DIG==15); return 42; }
'''


def check(ctx):
    inv = ["UseComplete", "MarkComplete", "OneWriter"]
    ctx.model("Assets", "CONSTANTS Procs = {p1, p2%s}\nNFiles = %d\nProtocol = \"marker\"\nFaults = 2\n" % (", p3" if ctx.thorough else "", 2), inv, ["Progress"],
              extra_cfg="CHECK_DEADLOCK FALSE\n")
    if not ctx.thorough:
        ctx.model("Assets", "CONSTANTS Procs = {p1, p2, p3}\nNFiles = 2\nProtocol = \"marker\"\nFaults = 1\n", inv, extra_cfg="CHECK_DEADLOCK FALSE\n")
    r = ctx.model("Assets", "CONSTANTS Procs = {p1, p2}\nNFiles = 2\nProtocol = \"naive\"\nFaults = 0\n", ["UseComplete"], extra_cfg="CHECK_DEADLOCK FALSE\n",
                  expect_ok=False)
    if "Invariant UseComplete is violated" not in r["out"]:
        raise vf.Broken("the naive protocol is not refuted: the model is vacuous")
    cjit = ctx.build()
    tree = ctx.tree()
    ref = ctx.dir("ref")
    shutil.copy(tree + "/lib/tinycc/libtcc1.a", ref)
    shutil.copytree(tree + "/lib/tinycc/include", ref + "/include")
    src = os.path.join(vf.VERIF, "harness/fsstep.c")
    step = ctx.cc(ctx.scratch + "/fsstep", [src], san=False)
    image = open(cjit, "rb").read()
    if ctx.version.encode() not in image:
        raise vf.Broken("the version is not in the binary")
    work = ctx.dir("work")
    made = []

    def instance(n):
        """a cjit with an asset directory of its own"""
        B62 = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
        v = "v9-" + B62[n // 3844 % 62] + B62[n // 62 % 62] + B62[n % 62] + ctx.version[6:]
        d = os.path.join(work, "c%d" % n)
        os.mkdir(d)
        with open(d + "/cjit", "wb") as f:
            f.write(image.replace(ctx.version.encode(), v.encode()))
        os.chmod(d + "/cjit", 0o755)
        open(d + "/app.c", "w").write(APP)
        a = "/tmp/cjit-" + v
        shutil.rmtree(a, ignore_errors=True)
        ctx._cleanup.append(a)
        return d, a

    counter = [0]

    def run(sched, nproc, extra=()):
        with ctx._lock:
            counter[0] += 1
            n = counter[0]
        d, a = instance(n)
        try:
            cmd = [step, ref, a, "app.c", sched]
            for i in range(nproc):
                cmd += ["--", d + "/cjit"] + list(extra) + ["app.c"]
            r = ctx.run(cmd, cwd=d, timeout=60)
            tr, steps = [], {}
            out = r.out.decode()
            used = set(re.findall(r"^use (\d+)", out, re.M))
            for l in out.splitlines():
                w = l.split(None, 3)
                if w[0] == "use":
                    tr.append(dict(ev="use", p=int(w[1]), complete=w[2] == "ok", what=w[3] if len(w) > 3 else ""))
                elif w[0] == "steps":
                    steps[int(w[1])] = int(w[2])
                elif w[0] == "exit":
                    p = int(w[1])
                    o = open(d + "/out.%d" % p, "rb").read() if os.path.exists(d + "/out.%d" % p) else b""
                    tr.append(dict(ev="exit", p=p, status=int(w[2]) % 1000, ran=b"APP 1" in o, used=w[1] in used, killed="%d:K" % p in sched,
                                   disturbed="%d:E" % p in sched, out=o.decode("latin-1")[-200:]))
                elif w[0] == "hang":
                    tr.append(dict(ev="exit", p=int(w[1]), status=999, ran=False, used=False, killed=False, disturbed=False, out="hang"))
            # whatever happened, a later undisturbed run works
            r2 = ctx.run([step, ref, a, "app.c", "0:*", "--", d + "/cjit", "app.c"], cwd=d, timeout=60)
            o = open(d + "/out.0", "rb").read()
            tr.append(dict(ev="use", p=9, complete="use 0 ok" in r2.out.decode(), what=r2.out.decode()[:200]))
            m = re.search(r"exit 0 (-?\d+)", r2.out.decode())
            tr.append(dict(ev="exit", p=9, status=int(m.group(1)) % 1000 if m else 998, ran=b"APP 1" in o, used=True, killed=False, disturbed=False,
                           out=o.decode("latin-1")[-200:]))
            return tr, steps
        finally:
            shutil.rmtree(d, ignore_errors=True)
            shutil.rmtree(a, ignore_errors=True)

    tr, steps = run("0:*", 1)
    S = steps.get(0, 0)
    if S < 5:
        S = 40
    ctx.log("an undisturbed first run makes %d file system calls" % S)
    scheds = []
    # every call of a first run: killed there, failing there, short write there, others run then
    for i in range(S + 1):
        for k in "KEH":
            scheds.append(("0:%d 0:%s 1:*" % (i, k), 2))
            if ctx.thorough or i % 3 == 0:
                scheds.append(("0:%d 1:%d 0:%s 1:*" % (i, ctx.rng.randrange(1, S), k), 2))
        scheds.append(("0:%d 1:*" % i, 2))
    pts = sorted(set([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, S // 2, S - 4, S - 3, S - 2, S - 1] if not ctx.thorough else range(1, S + 1)))
    two, _ = ctx.behaviours("Sched", "SPECIFICATION Spec\nCONSTANTS Procs = {0, 1}\nPoints = {%s}\nSlices = 3\nKinds = {}\nCHECK_DEADLOCK FALSE\n"
                            % ", ".join(map(str, pts[:8] if not ctx.thorough else pts[::3])))
    three, _ = ctx.behaviours("Sched", "SPECIFICATION Spec\nCONSTANTS Procs = {0, 1, 2}\nPoints = {2, 4, 7, %d, %d}\nSlices = 4\nKinds = {\"K\", \"E\"}\nCHECK_DEADLOCK FALSE\n"
                              % (S // 3, S - 3))

    def tokens(h):
        r = []
        for s in h:
            r.append("%d:%d" % (s["p"], s["n"]))
            if s["k"] != "pause":
                r.append("%d:%s" % (s["p"], s["k"]))
        return " ".join(r)

    two = sorted((tokens(h) for h in two if len(h) >= 2))
    three = sorted((tokens(h) for h in three if len(h) >= 3))
    scheds += [(t, 2) for t in (two if ctx.thorough else ctx.rng.sample(two, min(len(two), 250)))]
    scheds += [(t, 3) for t in ctx.rng.sample(three, min(len(three), 4000 if ctx.thorough else 500))]
    for _ in range(1500 if ctx.thorough else 150):
        t, dead = [], set()
        for _ in range(ctx.rng.randrange(3, 9)):
            p = ctx.rng.randrange(3)
            if p in dead:
                continue
            t.append("%d:%d" % (p, ctx.rng.randrange(1, S)))
            if ctx.rng.random() < .25:
                k = ctx.rng.choice("KEH")
                t.append("%d:%s" % (p, k))
                if k != "H":
                    dead.add(p)
        scheds.append((" ".join(t), 3))
    res = ctx.pmap(lambda s: run(*s)[0], scheds)
    ctx.traces(len(scheds))
    ctx.count("calls_in_first_run", S)
    ctx.count("schedules", len(scheds))
    ctx.sample(dict(schedule=scheds[5][0], trace=res[5]))
    ctx.sample(dict(schedule=scheds[-1][0], trace=res[-1]))

    def strip(t):
        return [{k: v for k, v in o.items() if k not in ("what", "out")} for o in t]
    bad = evaluate(ctx, res, strip)
    for (s, n), t, b in zip(scheds, res, bad):
        if b:
            for _ in range(3):  # timing decides when a blocked process resumes
                t2, _ = run(s, n)
                b2 = evaluate(ctx, [t2], strip)[0]
                if b2:
                    o = t2[b2 - 1]
                    ctx.violation(o["ev"], "schedule %s of %d processes: %s" % (s, n, o), dict(schedule=s, processes=n, trace=t2))
                    break
    # --xass installs the same way: what it reports as installed is complete
    def xass(i):
        with ctx._lock:
            counter[0] += 1
            n = counter[0]
        d, a = instance(n)
        try:
            x = d + "/assets"
            k = "KEH"[i % 3]
            r = ctx.run([step, ref, x, "app.c", "0:%d 1:%d 0:%s 0:* 1:*" % (i, i % 7 + 1, k), "--", d + "/cjit", "--xass=" + x, "--", d + "/cjit", "--xass=" + x], cwd=d)
            bad = []
            for p in (0, 1):
                m = re.search(r"exit %d (-?\d+)" % p, r.out.decode())
                if m is None or p == 1 and m.group(1) != "0":
                    bad.append("process %d: %s" % (p, r.out[-200:]))
            diff = differs(ref, x)
            if diff:
                bad.append("installed assets: " + diff)
            return bad
        finally:
            shutil.rmtree(d, ignore_errors=True)
            shutil.rmtree(a, ignore_errors=True)
    pts = list(range(0, S, 1 if ctx.thorough else 2))
    ctx.traces(len(pts))
    for i, b in zip(pts, ctx.pmap(xass, pts)):
        if b and xass(i):
            ctx.violation("xass", "--xass interrupted after %d calls, another one running: %s" % (i, b))


def differs(a, b):
    for r, _, fs in os.walk(a):
        for f in fs:
            p = os.path.join(r, f)
            q = os.path.join(b, os.path.relpath(p, a))
            if not os.path.exists(q) or open(p, "rb").read() != open(q, "rb").read():
                return q
    return ""


def evaluate(ctx, res, strip):
    return ctx.eval("AssetsObs", [dict(trace=strip(t)) for t in res], "FirstBad")
