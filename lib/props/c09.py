"""C09: the same program whichever way it is built (spec/Modes.tla, spec/Whole.tla)."""
import os, random, shutil
import vf

TECHNIQUE = "TLA+ specification of build histories and of whole programs, TLC-computed outputs and products compared with cjit's over generated histories"
LEVEL = "model_checking"
NOTE = ("The build directory (versions of sources, objects, executables) and the meaning of multi-unit programs (linkage, static initialisers with addresses, constructors, exit handlers, destructors) are specified in TLA+; "
        "the laws of the former are model checked over all short histories, and random histories over random programs are replayed with cjit: every product's name and every run's output and status must be the specified ones.")

BASES = ["x", "main", "y.z", "a-b", "u_1", "long_name_of_a_source_file", "w"]
DIRS = ["", "", "d", "d/e", "s t"]


def align(d):
    """alignment of an object"""
    return 8 if d["k"] in "pf" else d["al"] if d["style"] == "aligned" else {"short": 2, "llong": 8, "double": 8, "struct2": 8}.get(d["style"], 4)


class Gen:
    """a random program of n units"""

    def __init__(self, rng, n):
        self.r, self.n = rng, n
        self.data, self.fns = [], []
        r = rng
        # objects
        for u in range(1, n + 1):
            for _ in range(r.randrange(1, 5)):
                self.newdata(u)
        # tentative definitions of one object in several units
        for k in range(r.choice([0, 0, 1, 2])):
            us = r.sample(range(1, n + 1), r.randrange(1, n + 1))
            ln = r.choice([1, 3, 700])
            al = r.choice([0, 0, 16, 64, 256])
            for j, u in enumerate(us):
                self.data.append(dict(n="tent%d" % k, u=u, st=False, tent=True, k=r.choice("i") if True else 0, v=[0] * min(ln, 3), style="aligned" if al else "int", al=al or 4, len=ln, own=0))
            if r.random() < .4:
                u = r.choice(range(1, n + 1))
                if u not in us:
                    self.data.append(dict(n="tent%d" % k, u=u, st=False, tent=False, k="i", v=[r.randrange(100) for _ in range(min(ln, 3))], style="aligned" if al else "int", al=al or 4, len=ln, own=0))
        # functions, the last one is main
        nf = r.randrange(n, n + 5)
        for i in range(nf):
            u = i + 1 if i < n else r.randrange(1, n + 1)
            st = i >= n and r.random() < .4
            cd = r.choice([0, 0, 0, 0, 1, 2]) if i >= n else 0
            name = "sf%d" % r.randrange(2) if st else "f%d" % i
            if st and any(f["n"] == name and f["u"] == u for f in self.fns):
                st, name = False, "f%d" % i
            self.fns.append(dict(n=name, u=u, st=st, cd=cd, body=[], lv=i))
        self.fns.append(dict(n="main", u=1, st=False, cd=0, body=[], lv=nf))
        # pointers, which need something to point to
        for u in range(1, n + 1):
            for _ in range(r.randrange(0, 4)):
                self.newptr(u)
        for i, f in enumerate(self.fns):
            f["body"] = self.body(f)
        if r.random() < .3:
            self.fns[-1]["body"].append(dict(s="exit", v=r.randrange(256)))
        self.code = r.choice([0, 0, 1, 7, 255, r.randrange(256)])
        self.args = r.choice([[], [], ["a"], ["one two", "-c", "--", "", "x.c"]])
        self.inp = [r.randrange(-9, 1000) for _ in range(r.randrange(4))]
        self.incs = [r.random() < .5 for _ in range(n)]

    def name(self, st, p):
        r = self.r
        return "%s%d" % ("s" if st else p, r.randrange(3) if st else len(self.data))

    def newdata(self, u):
        r = self.r
        st = r.random() < .4
        n = self.name(st, "g")
        if any(d["n"] == n and d["u"] == u for d in self.data):
            st, n = False, self.name(False, "g")
        if r.random() < .2:
            self.data.append(dict(n=n, u=u, st=st, tent=False, k="s", v=["".join(r.choice("abcXYZ019_+") for _ in range(r.choice([0, 1, 5, 40])))], style=r.choice(["ptr", "arr", "const"]), own=0, len=1))
        else:
            ln = r.choice([1, 1, 2, 3, 5])
            self.data.append(dict(n=n, u=u, st=st, tent=False, k="i", v=[r.randrange(-50, 100) for _ in range(ln)], own=0, len=ln,
                                  style=r.choice(["int", "int", "int", "struct", "struct2", "short", "llong", "double", "float", "const", "aligned"])))
            if self.data[-1]["style"] == "aligned":
                self.data[-1]["al"] = r.choice([16, 32, 64, 64, 256, 1024])
                if r.random() < .3:     # in bss
                    self.data[-1].update(v=[0] * ln, zero=True, ver=False)

    def ints(self, u, ptr=False, mut=False):
        ds = [d for d in self.data if d["k"] == "i" and self.sees(u, d)]
        if ptr:
            ds = [d for d in ds if d["style"] in ("int", "struct", "struct2", "aligned")]
        if mut:
            ds = [d for d in ds if d["style"] != "const"]
        return ds

    def sees(self, u, d):
        """unit u sees object d by its name"""
        if d["st"]:
            return d["u"] == u
        return not any(e["n"] == d["n"] and e["st"] and e["u"] == u for e in self.data)

    def addr(self, u):
        r = self.r
        ds = self.ints(u, ptr=True)
        if not ds or r.random() < .1:
            return dict(k="0")
        d = r.choice(ds)
        return dict(k="d", n=d["n"], i=r.randrange(len(d["v"])))

    def fnsees(self, u, f):
        if f["n"] == "main" or f["cd"]:
            return False
        if f["st"]:
            return f["u"] == u
        return True

    def faddr(self, u, lv):
        r = self.r
        fs = [f for f in self.fns if self.fnsees(u, f) and f["lv"] < lv]
        if not fs or r.random() < .1:
            return dict(k="0")
        return dict(k="f", n=r.choice(fs)["n"])

    def newptr(self, u):
        r = self.r
        st = r.random() < .4
        n = self.name(st, "p")
        if any(d["n"] == n and d["u"] == u for d in self.data):
            st, n = False, self.name(False, "p")
        ln = r.choice([1, 2, 3])
        tent = r.random() < .15
        k = r.choice("pf")
        lv = r.randrange(1, len(self.fns))
        v = [dict(k="0") if tent else self.addr(u) if k == "p" else self.faddr(u, lv) for _ in range(ln)]
        self.data.append(dict(n=n, u=u, st=st, tent=tent, k=k, v=v, lv=lv, own=0, len=ln, style=r.choice(["plain", "plain", "struct", "const"]) if not tent else "plain"))

    def ptrs(self, u, k, lv=None, mut=False):
        return [d for d in self.data if d["k"] == k and self.sees(u, d) and (lv is None or d["lv"] <= lv) and not (mut and d["style"] == "const")]

    def pexpr(self, u, k, lv):
        r = self.r
        ds = self.ptrs(u, k, lv if k == "f" else None)
        if ds and r.random() < .7:
            d = r.choice(ds)
            return dict(k="v", n=d["n"], i=r.randrange(len(d["v"])))
        return self.addr(u) if k == "p" else self.faddr(u, lv)

    def body(self, f):
        r, u, lv = self.r, f["u"], f["lv"]
        out = []
        for _ in range(r.randrange(2, 7) if f["n"] != "main" else r.randrange(5, 14)):
            w = r.choice(["out", "show", "show", "mis", "str", "set", "inc", "setp", "same", "deref", "deref", "store", "call", "call", "callp", "callp", "atexit", "read"])
            if w == "out":
                out.append(dict(s="out", v=r.randrange(100), style=r.randrange(4)))
            elif w in ("show", "set", "inc"):
                ds = self.ints(u, mut=w != "show")
                if ds:
                    d = r.choice(ds)
                    out.append(dict(s=w, n=d["n"], i=r.randrange(len(d["v"])), v=r.randrange(-20, 60)))
            elif w == "mis":
                ds = [d for d in self.data if d["k"] != "s" and self.sees(u, d)]
                if any(d["style"] == "aligned" for d in ds) and r.random() < .7:
                    ds = [d for d in ds if d["style"] == "aligned"]
                if ds:
                    out.append(dict(s="mis", n=r.choice(ds)["n"]))
            elif w == "str":
                ds = [d for d in self.data if d["k"] == "s" and self.sees(u, d)]
                if ds:
                    out.append(dict(s="str", n=r.choice(ds)["n"]))
            elif w == "setp":
                k = r.choice("pf")
                ds = self.ptrs(u, k, mut=True)
                if ds:
                    d = r.choice(ds)
                    a = self.pexpr(u, k, d.get("lv"))
                    out.append(dict(s="setp", n=d["n"], i=r.randrange(len(d["v"])), a=a))
            elif w == "same":
                k = r.choice("ppf")
                out.append(dict(s="same", a=self.pexpr(u, k, 99), b=self.pexpr(u, k, 99), fn=k == "f"))
            elif w in ("deref", "store"):
                out.append(dict(s=w, a=self.pexpr(u, "p", None), v=r.randrange(-20, 60)))
            elif w == "call":
                fs = [g for g in self.fns if self.fnsees(u, g) and g["lv"] < lv]
                if fs:
                    out.append(dict(s="call", n=r.choice(fs)["n"]))
            elif w == "read":
                out.append(dict(s="read"))
            elif w == "callp":
                out.append(dict(s="callp", a=self.pexpr(u, "f", lv)))
            elif w == "atexit" and lv == len(self.fns) - 1:
                fs = [g for g in self.fns if self.fnsees(u, g)]
                if fs:
                    out.append(dict(s="atexit", n=r.choice(fs)["n"]))
        return out

    def find(self, u, n):
        for d in self.data:
            if d["n"] == n and d["u"] == u and d["st"]:
                return d
        return next((d for d in self.data if d["n"] == n and not d["st"] and not d["tent"]), None) or next(d for d in self.data if d["n"] == n and not d["st"])

    # ---- C text
    def decl(self, d, ext, ver):
        """declaration (ext) or definition of an object"""
        n, ln, s = d["n"], d["len"], d["style"]
        st = "extern " if ext else "static " if d["st"] else ""
        if d["k"] == "s":
            t = {"ptr": "const char *%s", "arr": "char %s[]", "const": "const char *const %s"}[s] % n
            return st + t + ("" if ext else " = \"%s\"" % d["v"][0]) + ";"
        if d["k"] == "i":
            init = "{%s}" % ", ".join(("%d + VER" if i == 0 else "%d") % x for i, x in enumerate(d["v"]))
            z = ext or d["tent"] or d.get("zero")
            if s in ("struct", "struct2"):
                t = ("struct { char c; int v[%d]; } %s" if s == "struct" else "struct { double d; struct { char c; int v[%d]; } in; } %s") % (ln, n)
                return st + t + ("" if z else " = {1, %s}" % init if s == "struct" else " = {.in.v = %s, .d = 2.5}" % init) + ";"
            t = {"int": "int %s[%d]", "short": "short %s[%d]", "llong": "long long %s[%d]", "double": "double %s[%d]", "float": "float %s[%d]", "const": "const int %s[%d]", "aligned": "int _Alignas(%d) %%s[%%d]" % d.get("al", 0)}[s] % (n, ln)
            return st + t + ("" if z else " = " + init) + ";"
        c = "const " if s == "const" else ""
        t = "int *%s%s[%d]" % (c, n, ln) if d["k"] == "p" else "void (*%s%s[%d])(void)" % (c, n, ln)
        init = "{%s}" % ", ".join(self.cval(d["u"], a) for a in d["v"])
        if s == "struct":
            t = "struct { char c; %s; } %s" % (t.replace(n, "v"), n)
            init = "{2, %s}" % init
        return st + t + ("" if ext or d["tent"] else " = " + init) + ";"

    def elem(self, u, n, i):
        d = self.find(u, n)
        return n + (".v" if d["style"] == "struct" else ".in.v" if d["style"] == "struct2" else "") + "[%d]" % i

    def cval(self, u, a):
        if a["k"] == "0":
            return "0"
        if a["k"] == "f":
            return a["n"] if self.r.random() < .5 else "&" + a["n"]
        e = self.elem(u, a["n"], a["i"])
        if a["k"] == "v":
            return e
        return self.r.choice(["&%s" % e, "%s + %d" % (e.rsplit("[", 1)[0], a["i"]), "&%s[%d] - 1" % (e.rsplit("[", 1)[0], a["i"] + 1)])

    def stmt(self, u, x):
        s = x["s"]
        if s == "out":
            v = "%d + 100 * VER" % x["v"]
            return ["printf(\"%%d \", %s);" % v, "fprintf(stdout, \"%%d%%c\", %s, ' ');" % v, "{ char b[20]; sprintf(b, \"%%d \", %s); fputs(b, stdout); }" % v, "{ static int loc; loc = %s; printf(\"%%i \", loc); }" % v][x["style"]]
        if s == "show":
            d = self.find(u, x["n"])
            return "printf(\"%%d \", (int)%s);" % self.elem(u, x["n"], x["i"])
        if s == "mis":
            return "printf(\"%%d \", (int)((unsigned long)&%s %% %d));" % (x["n"], align(self.find(u, x["n"])))
        if s == "str":
            return "printf(\"%%s \", %s);" % x["n"]
        if s == "set":
            return self.elem(u, x["n"], x["i"]) + " = %d;" % x["v"]
        if s == "inc":
            return self.elem(u, x["n"], x["i"]) + " += %d;" % x["v"]
        if s == "setp":
            return self.elem(u, x["n"], x["i"]) + " = %s;" % self.cval(u, x["a"])
        if s == "same":
            t = "(void (*)(void))" if x["fn"] else "(int *)"
            return "printf(\"%%d \", %s(%s) == %s(%s));" % (t, self.cval(u, x["a"]), t, self.cval(u, x["b"]))
        if s == "deref":
            return "{ int *q = %s; printf(\"%%d \", q ? *q : -1); }" % self.cval(u, x["a"])
        if s == "store":
            return "{ int *q = %s; if (q) *q = %d; }" % (self.cval(u, x["a"]), x["v"])
        if s == "call":
            return x["n"] + "();"
        if s == "callp":
            return "{ void (*q)(void) = %s; if (q) q(); }" % self.cval(u, x["a"])
        if s == "atexit":
            return "atexit(%s);" % x["n"]
        if s == "read":
            return "{ int n; if (scanf(\"%d\", &n) != 1) n = -1; printf(\"%d \", n); }"
        if s == "exit":
            return "exit(%d);" % x["v"]

    def unit(self, u, ver):
        """text of a unit; the same for every version but for VER"""
        self.r = random.Random("%s/%d" % (self.salt, u))
        # (glibc's headers take away __attribute__)
        if any(f["u"] == u and f["cd"] for f in self.fns):
            o = ["extern int printf(const char *, ...); extern int scanf(const char *, ...); extern int sprintf(char *, const char *, ...); typedef struct _IO_FILE FILE; extern FILE *stdout;",
                 "extern int fprintf(FILE *, const char *, ...); extern int fputs(const char *, FILE *); extern int atexit(void (*)(void)); extern void exit(int);"]
        else:
            o = ["#include <stdio.h>", "#include <stdlib.h>"]
        o.append("#include \"local%d.h\"" % u if self.incs[u - 1] else "#define VER %d" % ver)
        for f in self.fns:
            if f["n"] == "main":
                continue
            if f["st"] and f["u"] == u:
                o.append("static void %s(void);" % f["n"])
            elif not f["st"]:
                o.append("void %s(void);" % f["n"])
        seen = set()
        for d in self.data:      # what it uses of others
            if not d["st"] and d["u"] != u and d["n"] not in seen and self.sees(u, d) and not any(e["n"] == d["n"] and e["u"] == u for e in self.data):
                seen.add(d["n"])
                o.append(self.decl(self.find(u, d["n"]), True, ver))
        for d in self.data:
            if d["u"] == u:
                o.append(self.decl(d, False, ver))
        for f in self.fns:
            if f["u"] != u:
                continue
            head = "int main(int argc, char **argv) {" if f["n"] == "main" else "%s%svoid %s(void) {" % ("static " if f["st"] else "", ["", "__attribute__((constructor)) ", "__attribute__((destructor)) "][f["cd"]], f["n"])
            o.append(head)
            if f["n"] == "main":
                o.append("  for (int i = 1; i < argc; i++) printf(\"[%s] \", argv[i]);")
            o += ["  " + self.stmt(u, x) for x in f["body"]]
            if f["n"] == "main":
                o.append("  return %d;" % self.code)
            o.append("}")
        return "\n".join(o) + "\n"

    def spec(self, runs, piped):
        return dict(data=[dict(n=d["n"], u=d["u"], st=d["st"], tent=d["tent"] or d.get("zero", False), k=d["k"], v=d["v"], al=align(d)) for d in self.data],
                    fns=[dict(n=f["n"], u=f["u"], st=f["st"], cd=f["cd"], body=f["body"]) for f in self.fns],
                    ord=[x[0] for x in runs], ver=[dict(map(tuple, runs)).get(u, 0) for u in range(1, self.n + 1)], code=self.code,
                    args="".join("[%s] " % a for a in self.args), inp=[] if piped else self.inp)


def steps(r, g, paths):
    n = g.n
    objs, st, exes = {}, [], []

    def objname(p):
        b = p.rsplit("/", 1)[-1]
        return b.rsplit(".", 1)[0] + ".o"

    def inputs(stdin):
        ins = []
        piped = stdin and r.random() < .5
        for u in range(1, n + 1):
            fs = [f for f, v in objs.items() if v == u]
            if fs and r.random() < .6:
                ins.append(dict(k="obj", f=r.choice(fs)))
            elif piped and not g.incs[u - 1]:
                ins.append(dict(k="-", u=u))
                piped = False
            else:
                ins.append(dict(k="src", u=u))
        if r.random() < .5:
            r.shuffle(ins)
        return ins

    for _ in range(r.randrange(6, 12)):
        w = r.choice(["c", "c", "c", "run", "run", "exe", "exe", "call", "edit"])
        if w == "c":
            u = r.randrange(1, n + 1)
            o = r.choice(["", "", "", "out.o", "d/named.o", "o2.x.o"])
            objs[o or objname(paths[u - 1])] = u
            st.append(dict(op="c", u=u, o=o))
        elif w == "run":
            st.append(dict(op="run", ins=inputs(True)))
        elif w == "exe":
            o = r.choice(["prog", "d/prog2", "p.out"])
            if o not in exes:
                exes.append(o)
            st.append(dict(op="exe", o=o, ins=inputs(True)))
            if r.random() < .7:
                st.append(dict(op="call", o=o))
        elif w == "call" and exes:
            st.append(dict(op="call", o=r.choice(exes)))
        elif w == "edit":
            st.append(dict(op="edit", u=r.randrange(1, n + 1)))
    return st


def piped(s):
    return any(x["k"] == "-" for x in s.get("ins", []))


def check(ctx):
    ctx.model("MCModes", "CONSTANTS Depth = %d\nNUnits = %d\n" % ((5, 2) if ctx.thorough else (4, 2)), ["Complete", "Fresh", "SameWays", "Stable", "Names"], extra_cfg="CHECK_DEADLOCK FALSE\n")
    if ctx.thorough:
        ctx.model("MCModes", "CONSTANTS Depth = 4\nNUnits = 3\n", ["Complete", "Fresh", "SameWays", "Stable", "Names"], extra_cfg="CHECK_DEADLOCK FALSE\n")
    r = ctx.rng
    cases = []
    for i in range(4000 if ctx.thorough else 600):
        n = r.choice([1, 1, 2, 2, 3, 4])
        g = Gen(r, n)
        g.salt = r.getrandbits(32)
        paths = []
        while len(paths) < n:
            d, b = r.choice(DIRS), r.choice(BASES)
            p = (d + "/" if d else "") + b + ".c"
            if p not in paths:
                paths.append(r.choice(["", "", "./"]) + p if not d else p)
                if len({q.replace("./", "") for q in paths}) < len(paths):
                    paths.pop()
        cases.append(dict(g=g, paths=paths, steps=steps(r, g, paths)))

    def ch(s):
        return list(s)

    def jst(s):
        s = dict(s)
        if "o" in s:
            s["o"] = ch(s["o"])
        if "ins" in s:
            s["ins"] = [dict(x, f=ch(x["f"])) if "f" in x else x for x in s["ins"]]
        return s
    hist = ctx.eval("Modes", [dict(paths=[ch(p) for p in c["paths"]], steps=[jst(s) for s in c["steps"]]) for c in cases], "History")
    todo, idx = [], {}
    for ci, (c, h) in enumerate(zip(cases, hist)):
        c["hist"] = h
        for s, x in zip(c["steps"], h):
            k = (ci, str(x["runs"]), piped(s))
            if sorted(y[0] for y in x["runs"]) == list(range(1, c["g"].n + 1)) and k not in idx:
                idx[k] = len(todo)
                todo.append(c["g"].spec(x["runs"], piped(s)))
    ctx.log("%d histories, %d programs to run" % (len(cases), len(todo)))
    mean = ctx.eval("Whole", todo, "Meaning")
    ctx.log("meanings computed, %d too long" % sum(not m["ok"] for m in mean))
    cjit = ctx.build()

    def one(ci, keep=False):
        c = cases[ci]
        g, paths = c["g"], c["paths"]
        d = ctx.dir()
        for p in paths + ["d/", "s t/"]:
            os.makedirs(os.path.join(d, os.path.dirname(p)), exist_ok=True)
        ver = {}

        def write(u):
            p = os.path.join(d, paths[u - 1])
            if g.incs[u - 1]:
                with open(os.path.join(os.path.dirname(p), "local%d.h" % u), "w") as f:
                    f.write("#define VER %d\n" % ver[u])
            with open(p, "w") as f:
                f.write(g.unit(u, ver[u]))
        for u in range(1, g.n + 1):
            ver[u] = 0
            write(u)
        bad, runs, log = None, 0, []
        before = {os.path.relpath(os.path.join(dp, f), d) for dp, _, fs in os.walk(d) for f in fs}
        for s, h in zip(c["steps"], c["hist"]):
            stdin = " ".join(str(x) for x in g.inp).encode() if s["op"] in ("run", "call") else b""
            if s["op"] == "edit":
                ver[s["u"]] += 1
                write(s["u"])
                log.append("# %s is edited, version %d" % (paths[s["u"] - 1], ver[s["u"]]))
                continue
            if s["op"] == "c":
                cmd = [cjit, "-c", paths[s["u"] - 1]] + (["-o", s["o"]] if s["o"] else [])
                if s["o"] and g.salt % 2:
                    cmd = [cjit, "-o", s["o"], "-c", paths[s["u"] - 1]]
            elif s["op"] in ("run", "exe"):
                ins = []
                for x in s["ins"]:
                    if x["k"] == "obj":
                        ins.append(x["f"])
                    elif x["k"] == "src":
                        ins.append(paths[x["u"] - 1])
                    else:
                        ins.append("-")
                        stdin = g.unit(x["u"], ver[x["u"]]).encode()
                if ins == ["-"] and not g.args:
                    ins = []
                cmd = [cjit] + (["-q"] if g.salt % 3 == 0 else []) + (["-o", s["o"]] if s["op"] == "exe" else []) + ins
                if s["op"] == "run" and g.args:
                    cmd += ["--"] + g.args
            else:
                if not h["runs"]:
                    continue
                cmd = [os.path.join(d, s["o"])] + g.args
            key = (ci, str(h["runs"]), piped(s))
            wants = mean[idx[key]] if key in idx else None
            if s["op"] in ("run", "call"):
                if wants is None or not wants["ok"]:
                    continue
            p = ctx.run(cmd, cwd=d, stdin=stdin, timeout=30)
            log.append(" ".join("'%s'" % a for a in cmd).replace(cjit, "cjit"))
            runs += 1
            if s["op"] in ("run", "call"):
                if p.out.decode("latin-1") != wants["out"] or p.rc != wants["code"]:
                    bad = "output %r status %d, specified %r status %d; input %r; stderr %r" % (p.out.decode("latin-1"), p.rc, wants["out"], wants["code"], stdin[:40], p.err[-300:])
            else:
                if p.rc != 0 and s["op"] == "c":
                    bad = "compiling failed: %r" % p
                if s["op"] == "exe":
                    # what it was linked from, as specified
                    if p.rc != 0:
                        bad = "linking failed: %r" % p
                now = {os.path.relpath(os.path.join(dp, f), d) for dp, _, fs in os.walk(d) for f in fs} - before
                want = {"".join(f) for f in h["objs"]} | {"".join(f) for f in h["exes"]}
                if not bad and now != want:
                    bad = "files written: %r, specified: %r" % (sorted(now), sorted(want))
            if bad:
                break
        if bad:
            return dict(what="after\n  " + "\n  ".join(log) + "\n" + bad, files={paths[u - 1]: g.unit(u, ver[u]) for u in range(1, g.n + 1)}, runs=runs, steps=c["steps"])
        shutil.rmtree(d, ignore_errors=True)
        return dict(what=None, runs=runs)

    # histories whose selection lacks or repeats a unit end there
    for c in cases:
        full = list(range(1, c["g"].n + 1))
        objs, keep, hs = set(), [], []
        for s, h in zip(c["steps"], c["hist"]):
            if s["op"] == "run" and sorted(x[0] for x in h["runs"]) != full:
                continue
            keep.append(s)
            hs.append(h)
        c["steps"], c["hist"] = keep, hs
    res = ctx.pmap(one, range(len(cases)))
    for ci, x in enumerate(res):
        ctx.traces(x["runs"])
        if x["what"]:
            y = one(ci)
            if y["what"]:
                ctx.violation("history", y["what"], y)
    for c in cases[:3]:
        ctx.sample(dict(paths=c["paths"], steps=c["steps"], unit1=c["g"].unit(1, 0)))
    ctx.count("histories", len(cases))
