"""Common machinery of the checks: building /repo's working tree in a scratch
directory, running TLC on the specifications, replaying cases on the real
code, known findings, evidence."""
import os, sys, json, time, shutil, tempfile, subprocess, hashlib, random, atexit, signal
import threading, resource, selectors
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class Broken(Exception):
    """The check itself could not work (build failure, TLC error...)"""


def sh(cmd, timeout=600, **kw):
    kw.setdefault("stdout", subprocess.PIPE)
    kw.setdefault("stderr", subprocess.STDOUT)
    kw.setdefault("stdin", subprocess.DEVNULL)
    return subprocess.run(cmd, timeout=timeout, **kw)


def converse(p, stdin, timeout, cap=256 << 20):
    """communicate, but a process that writes without end is stopped: (out, err, too long or too much)"""
    end = time.monotonic() + timeout
    bufs = {}
    todo = memoryview(stdin or b"")
    try:
        with selectors.PollSelector() as sel:
            for f in (p.stdout, p.stderr):
                bufs[f] = []
                sel.register(f, selectors.EVENT_READ)
            if p.stdin:
                try:
                    p.stdin.flush()
                except OSError:
                    pass
                if todo:
                    os.set_blocking(p.stdin.fileno(), False)
                    sel.register(p.stdin, selectors.EVENT_WRITE)
                else:
                    p.stdin.close()
            n = 0
            while sel.get_map():
                left = end - time.monotonic()
                if left <= 0 or n > cap:
                    return b"".join(bufs[p.stdout]), b"".join(bufs[p.stderr]), True
                for key, _ in sel.select(left):
                    f = key.fileobj
                    if f is p.stdin:
                        try:
                            todo = todo[os.write(f.fileno(), todo[:65536]):]
                        except BlockingIOError:
                            continue
                        except OSError:
                            todo = todo[:0]
                        if not todo:
                            sel.unregister(f)
                            try:
                                f.close()
                            except OSError:
                                pass
                    else:
                        b = os.read(f.fileno(), 65536)
                        n += len(b)
                        if b:
                            bufs[f].append(b)
                        else:
                            sel.unregister(f)
        try:
            p.wait(max(0.01, end - time.monotonic()))
        except subprocess.TimeoutExpired:
            return b"".join(bufs[p.stdout]), b"".join(bufs[p.stderr]), True
        return b"".join(bufs[p.stdout]), b"".join(bufs[p.stderr]), False
    finally:
        for f in (p.stdin, p.stdout, p.stderr):
            try:
                if f:
                    f.close()
            except OSError:
                pass


class Run:
    """Outcome of one process."""
    __slots__ = ("rc", "out", "err", "timeout")

    def __init__(self, rc, out, err, timeout=False):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout

    def __repr__(self):
        return "rc=%r out=%r err=%r%s" % (self.rc, self.out[-400:], self.err[-400:], " TIMEOUT" if self.timeout else "")


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.sanitized, self.hangs = set(), 0
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="vf-%s-" % prop.lower(), dir="/tmp")
        os.chmod(self.scratch, 0o755)
        self._cleanup = []
        self._lock = threading.Lock()
        self.violations = []
        self.known_hit = {}
        self.known = load_known(prop)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.notes = {}
        self.assumptions = []
        self._n = 0
        atexit.register(self.cleanup)

    # ---- lifetime
    def cleanup(self):
        for d in self._cleanup:
            shutil.rmtree(d, ignore_errors=True)
        self._cleanup = []
        if os.environ.get("VF_KEEP"):
            print("kept", self.scratch)
        else:
            shutil.rmtree(self.scratch, ignore_errors=True)

    def dir(self, name=None):
        with self._lock:
            self._n += 1
            n = self._n
        d = os.path.join(self.scratch, name or "d%d" % n)
        os.makedirs(d, exist_ok=True)
        return d

    def log(self, *a):
        print("[%s %.1fs]" % (self.prop, time.time() - self.t0), *a, file=sys.stderr, flush=True)

    # ---- building the tree under test
    def tree(self):
        """Copy of /repo's working tree sources (no build products)."""
        if getattr(self, "_tree", None):
            return self._tree
        dst = os.path.join(self.scratch, "tree")
        os.makedirs(dst)
        for f in source_files():
            s = os.path.join(REPO, f)
            if not os.path.isfile(s) and not os.path.islink(s):
                continue
            t = os.path.join(dst, f)
            os.makedirs(os.path.dirname(t), exist_ok=True)
            shutil.copy2(s, t, follow_symlinks=False)
        self._tree = dst
        return dst

    def build(self):
        """Build cjit from the working tree; returns the path of the binary.
        The build has a private VERSION, hence a private asset directory."""
        if getattr(self, "_bin", None):
            return self._bin
        if os.environ.get("VF_BIN"):     # development: another compiler as the subject
            self._bin, self.version, self.assets = os.environ["VF_BIN"], "dev", "/nonexistent"
            return self._bin
        cache = os.environ.get("VF_CACHE")
        key = None
        if cache:
            key = tree_hash()
            c = os.path.join(cache, key)
            if os.path.exists(os.path.join(c, "ok")):
                self._tree, self._bin = os.path.join(c, "tree"), os.path.join(c, "tree", "cjit")
                self.version = open(os.path.join(c, "ok")).read()
                self.assets = "/tmp/cjit-" + self.version
                return self._bin
        t = self.tree()
        env = dict(os.environ, HOME=os.environ.get("HOME", "/root"), LC_ALL="C.UTF-8", CC="gcc")
        for k in ("MAKEFLAGS", "CFLAGS", "LDFLAGS"):
            env.pop(k, None)
        self.version = "v9-%s-%d-%06x" % (self.prop, os.getpid(), random.SystemRandom().randrange(1 << 24))
        p = sh(["make", "-j8", "-f", "build/linux.mk", "CC=gcc", "lib/tinycc/libtcc1.a"], cwd=t, env=env)
        ok = p.returncode == 0 and os.path.exists(t + "/lib/tinycc/libtcc1.a")
        if ok:
            p = sh(["make", "linux", "CC=gcc", "VERSION=" + self.version], cwd=t, env=env)
            ok = p.returncode == 0 and os.path.exists(t + "/cjit")
        if not ok:
            raise Broken("the tree does not build:\n" + p.stdout.decode(errors="replace")[-3000:])
        self._bin = t + "/cjit"
        self.assets = "/tmp/cjit-" + self.version
        if cache:
            c = os.path.join(cache, key)
            shutil.rmtree(c, ignore_errors=True)
            os.makedirs(c)
            shutil.copytree(t, c + "/tree", symlinks=True)
            open(c + "/ok", "w").write(self.version)
            self._tree, self._bin = c + "/tree", c + "/tree/cjit"
        else:
            self._cleanup.append(self.assets)
        self.log("built", self._bin)
        return self._bin

    def cc(self, out, srcs, flags=(), libs=(), san=True):
        """Compile a harness against the tree's sources with the system compiler."""
        t = self.tree()
        cmd = ["gcc", "-g", "-O1", "-w", "-D_GNU_SOURCE", "-DLIBC_GNU", "-DCJIT_BUILD_LINUX", "-DVERSION=\"v0\"",
               "-I" + t + "/src", "-I" + t + "/lib/tinycc"]
        if san:
            cmd += ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
        cmd += list(flags) + ["-o", out] + list(srcs) + list(libs)
        if any("-fsanitize" in x for x in cmd):
            self.sanitized.add(os.path.realpath(out))
        p = sh(cmd)
        if p.returncode != 0:
            raise Broken("harness does not build: %s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-3000:]))
        return out

    # ---- running
    def run(self, argv, cwd=None, stdin=b"", timeout=60, env=None, **kw):
        e = dict(os.environ, LC_ALL="C.UTF-8")
        for k in ("CFLAGS", "LD_PRELOAD"):
            e.pop(k, None)
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:hard_rss_limit_mb=3000"
        e["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=99"
        if env:
            e.update(env)
        try:
            p = subprocess.Popen(argv, cwd=cwd or self.scratch, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                                 stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, start_new_session=True, **kw)
        except OSError as x:
            return Run(-999, b"", str(x).encode())
        if os.path.realpath(argv[0]) not in self.sanitized:
            try:
                resource.prlimit(p.pid, resource.RLIMIT_AS, (6 << 30, 6 << 30))
            except OSError:
                pass
        # where much hangs there is no need to wait for long
        if self.hangs > 5:
            timeout = min(timeout, 10 if self.hangs < 30 else 3)
        out, err, late = converse(p, stdin, timeout)
        if late:
            self.hangs += 1
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            return Run(-9, out, err, True)
        return Run(p.returncode, out, err)

    def pmap(self, fn, items, workers=None):
        items = list(items)
        with ThreadPoolExecutor(workers or NCPU) as ex:
            return list(ex.map(fn, items))

    # ---- TLC
    def tlc(self, module, cfg, env=None, workers=None, extra=(), timeout=800, expect_ok=True, simulate=None, files=None, mem="4g"):
        """Run TLC on spec/<module>.tla with configuration text `cfg`.
        Returns dict(ok, states, distinct, depth, out)."""
        d = self.dir()
        for root, _, fs in os.walk(SPEC):
            for f in fs:
                if f.endswith(".tla"):
                    os.symlink(os.path.join(root, f), os.path.join(d, f))
        for k, v in (files or {}).items():
            p = os.path.join(d, k)
            if os.path.islink(p):
                os.unlink(p)
            with open(p, "w") as f:
                f.write(v)
        with open(d + "/run.cfg", "w") as f:
            f.write(cfg)
        e = dict(os.environ, LC_ALL="C.UTF-8")
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        cmd = ["java", "-Xmx" + mem, "-Xss64m", "-XX:+UseParallelGC", "-Dtlc2.TLC.stopAfter=0", "-cp", JAR, "tlc2.TLC",
               "-workers", str(workers or NCPU), "-metadir", d + "/states", "-config", "run.cfg", "-noGenerateSpecTE"]
        if simulate:
            cmd += ["-simulate", simulate]
        cmd += list(extra) + [module + ".tla"]
        cmd.remove("-Dtlc2.TLC.stopAfter=0")
        try:
            p = sh(cmd, cwd=d, env=e, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Broken("TLC timed out on " + module)
        out = p.stdout.decode(errors="replace")
        r = dict(ok=p.returncode == 0, rc=p.returncode, out=out, dir=d, states=0, distinct=0, depth=0)
        import re
        m = re.findall(r"(\d+) states generated(?: \([^)]*\))?,? ?(\d+) distinct states found", out)
        if not m:
            m = re.findall(r"([\d,]+) states generated \([^)]*\), ([\d,]+) distinct states found", out)
        if m:
            r["states"], r["distinct"] = (int(x.replace(",", "")) for x in m[-1])
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        if m:
            r["depth"] = int(m[-1])
        if expect_ok and not r["ok"]:
            out = "\n".join(l for l in out.split("\n") if l and not l.startswith(("Parsing file", "Semantic processing")))
            raise Broken("TLC failed on %s (rc %d):\n%s" % (module, p.returncode, out[-3000:]))
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["states"]
        shutil.rmtree(d + "/states", ignore_errors=True)
        return r

    def model(self, module, constants="", invariants=(), properties=(), spec="Spec", extra_cfg="", **kw):
        """Exhaustive model checking of the specification itself. Any
        violated invariant is a defect of the specification (Broken)."""
        cfg = "SPECIFICATION %s\n%s\n" % (spec, constants)
        for i in invariants:
            cfg += "INVARIANT %s\n" % i
        for i in properties:
            cfg += "PROPERTY %s\n" % i
        cfg += extra_cfg
        r = self.tlc(module, cfg, **kw)
        self.log("model %s: %d distinct states, depth %d" % (module, r["distinct"], r["depth"]))
        return r

    def eval(self, module, cases, op="Eval", constants="", timeout=800, mem="6g", workers=None):
        """Have TLC compute `op`(case) for every case: one state per case,
        explored in parallel. Returns the list of results."""
        if not cases:
            return []
        d = self.dir()
        cf, of = d + "/cases.ndjson", d + "/out.txt"
        with open(cf, "w") as f:
            for c in cases:
                f.write(json.dumps(c) + "\n")
        mod = "Eval_" + module
        text = """---- MODULE %s ----
EXTENDS %s, CSV, IOUtils, Json, TLC
Cases_ == ndJsonDeserialize(IOEnv.VF_CASES)
VARIABLES idx_, done_
Init_ == idx_ \\in 1..Len(Cases_) /\\ done_ = FALSE
Next_ == /\\ ~done_ /\\ done_' = TRUE /\\ idx_' = idx_
         /\\ CSVWrite("%%1$s", <<ToJson([i |-> idx_, r |-> %s(Cases_[idx_])])>>, IOEnv.VF_OUT)
====
""" % (mod, module, op)
        cfg = "INIT Init_\nNEXT Next_\nCHECK_DEADLOCK FALSE\n" + constants
        self.tlc(mod, cfg, env=dict(VF_CASES=cf, VF_OUT=of), files={mod + ".tla": text}, timeout=timeout, mem=mem, workers=workers)
        res = [None] * len(cases)
        got = 0
        with open(of) as f:
            for l in f:
                try:
                    x = json.loads(json.loads(l))
                except ValueError:   # long lines of several workers get mixed up
                    continue
                res[x["i"] - 1] = x["r"]
                got += 1
        if got != len(cases) and workers != 1:
            left = [i for i, r in enumerate(res) if r is None]
            for i, r in zip(left, self.eval(module, [cases[i] for i in left], op, constants, timeout, mem, 1)):
                res[i] = r
            return res
        if got != len(cases):
            raise Broken("TLC evaluated %d of %d cases of %s" % (got, len(cases), module))
        return res

    def behaviours(self, module, cfg, env=None, **kw):
        """Run TLC on a specification that writes its behaviours (one JSON
        document per line, with CSVWrite) to the file named by VF_OUT."""
        d = self.dir()
        of = d + "/out.txt"
        e = dict(VF_OUT=of)
        e.update(env or {})
        r = self.tlc(module, cfg, env=e, **kw)
        res = []
        if os.path.exists(of):
            with open(of) as f:
                for l in f:
                    x = json.loads(l)
                    res.append(json.loads(x) if isinstance(x, str) else x)
        return res, r

    # ---- verdicts
    def violation(self, key, what, replay=None):
        """A confirmed disagreement between specification and code."""
        key = str(key)
        with self._lock:
            for k in self.known:
                if k["key"] == key:
                    if key not in self.known_hit:
                        self.known_hit[key] = what
                        print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]), flush=True)
                    return
            self.violations.append((key, what))
            n = len(self.violations)
            if n > 20:
                return
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s-%d.json" % (self.prop, self.seed, n))
            with open(path, "w") as f:
                json.dump(dict(property=self.prop, seed=self.seed, key=key, what=what, replay=replay), f, indent=1, default=_js)
            print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
            print("  " + what.replace("\n", "\n  ")[:3000], flush=True)

    def sample(self, x):
        with self._lock:
            if len(self.cov["samples"]) < 8:
                self.cov["samples"].append(json.loads(json.dumps(x, default=_js)))

    def traces(self, n=1):
        with self._lock:
            self.cov["traces_validated_against_impl"] += n

    def count(self, name, n=1):
        with self._lock:
            self.notes[name] = self.notes.get(name, 0) + n

    def finish(self, level):
        for k in self.known:
            if k["key"] not in self.known_hit and k.get("always", True):
                print("note: known finding not reproduced in this run: %s" % k["key"], file=sys.stderr)
        cov = dict(self.cov)
        cov.update(self.notes)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        self.log("done: %s violations=%d" % (json.dumps({k: v for k, v in cov.items() if k != "samples"}), len(self.violations)))
        return 1 if self.violations else 0


def _js(o):
    if isinstance(o, bytes):
        return o.decode("latin-1")
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    if isinstance(o, Run):
        return repr(o)
    return str(o)


def source_files():
    try:
        p = subprocess.run(["git", "-c", "safe.directory=*", "-C", REPO, "ls-files", "-co", "--exclude-standard", "-z", "--",
                            "src", "lib", "build", "assets", "GNUmakefile"],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        fs = [f for f in p.stdout.decode().split("\0") if f]
        if p.returncode == 0 and "GNUmakefile" in fs:
            return [f for f in fs if not f.startswith("lib/tinycc/tests/")]
    except Exception:
        pass
    raise Broken("cannot list the sources of " + REPO)


def tree_hash():
    h = hashlib.sha256()
    for f in sorted(source_files()):
        p = os.path.join(REPO, f)
        if os.path.isfile(p):
            h.update(f.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()[:16]


def load_known(prop):
    """known-findings.txt: 'known: property=<id> key=<key> <text>' lines count,
    'fixed: ...' lines suppress nothing."""
    res = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                rest = l.split(" ", 2)[2]
                assert rest.startswith("key="), l
                key, what = rest[4:].split(" ", 1)
                res.append(dict(key=key, what=what))
    return res


def cstr(b):
    """bytes -> C string literal safe for any compiler"""
    if isinstance(b, str):
        b = b.encode()
    return '"' + "".join(chr(c) if 32 <= c < 127 and c not in b'"\\?' else "\\%03o" % c for c in b) + '"'


def main(argv):
    prop = argv[1]
    sys.path.insert(0, os.path.join(VERIF, "lib"))
    import importlib
    ctx = None
    try:
        mod = importlib.import_module("props." + prop.lower())
        ctx = Ctx(prop)
        mod.check(ctx)
        rc = ctx.finish(getattr(mod, "LEVEL", "model_checking"))
    except Broken as e:
        print("ERROR: %s" % e, file=sys.stderr)
        # a violation that was found and confirmed stands
        if ctx and ctx.violations:
            rc = ctx.finish("model_checking")
        else:
            rc = 2
    except Exception:
        import traceback
        traceback.print_exc()
        rc = ctx.finish("model_checking") if ctx and ctx.violations else 3
    if ctx:
        ctx.cleanup()
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main(sys.argv)
