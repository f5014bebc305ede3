"""C19: the files a unit is made of are those the search order names (spec/Inc.tla)."""
import os, shutil
import vf

TECHNIQUE = "TLA+ specification of header search and inclusion, model checked on all small worlds of directories; TLC-computed unit contents compared with what cjit compiles for generated worlds, search lists, spellings and modes"
LEVEL = "model_checking"
NOTE = ("The search (including file's directory, -I, runtime, source directories, system), __has_include, #include_next, guards, #pragma once and the nesting limit are specified in TLA+ and its laws model checked; "
        "generated directory trees full of headers of the same names are built, cjit is run in every mode from several directories, and the sequence of marks each unit was compiled from is compared with the specification's.")

NAMES = ["a.h", "b.h", "c.h", "d.inc", "stdarg.h", "stdio.h"]
DIRN = ["p", "q", "r", "s t", "a.h"]
MACS = ["G1", "G2", "A_H", "B_H", "__C_H__", "T"]
# the runtime and system directories are outside of the root
RT, SYS, NO = ["@", "rt"], ["@", "sys"], ["?"]
# headers that are there anyway
RTN = ["stdarg.h", "float.h", "stdbool.h"]
SYSN = ["stdio.h", "errno.h", "limits.h"]


class World:
    def __init__(self, rng):
        r = self.r = rng
        self.dirs = []
        for _ in range(r.choice([2, 3, 4, 5, 6])):
            p = r.choice([[]] + self.dirs)
            d = p + [r.choice(DIRN)]
            if d not in self.dirs and len(d) <= 3:
                self.dirs.append(d)
        self.all = [[]] + self.dirs
        self.files = []
        self.next = 1
        self.names = r.sample(NAMES[:4], r.choice([1, 2, 2, 3])) + ([r.choice(NAMES[4:])] if r.random() < .2 else [])
        for d in self.all:
            for n in self.names:
                if r.random() < .6 and d + [n] not in self.dirs:
                    self.files.append(dict(d=d, n=n, body=None))
        for f in self.files:
            f["body"] = self.header(f)

    def name(self, here):
        """a name in a directive"""
        r = self.r
        n = r.choice(self.names)
        k = r.random()
        if k < .55 or n in NAMES[4:]:
            return dict(abs=False, c=[n])
        if k < .65:
            return dict(abs=False, c=[r.choice(DIRN), n])
        if k < .93:
            # a spelling that leads somewhere
            a, b = r.choice([here] + self.all), r.choice(self.all)
            c = [".."] * len(a) + b + [n]
            if len(a) and r.random() < .6:
                # common directories need not be left
                i = 0
                while i < min(len(a), len(b)) and a[i] == b[i]:
                    i += 1
                c = [".."] * (len(a) - i) + b[i:] + [n]
            if r.random() < .2:
                c.insert(r.randrange(len(c)), ".")
            if r.random() < .15 and self.dirs:
                d = r.choice(self.dirs)
                if len(d) == 1 and not here:
                    c = d + [".."] + c
            return dict(abs=False, c=c)
        return dict(abs=True, c=r.choice(self.all) + [n])

    def mark(self):
        self.next += 1
        return dict(k="mark", n=self.next)

    def item(self, here, depth, main=False):
        r = self.r
        k = r.random()
        if k < .3:
            return self.mark()
        if k < .58:
            form = r.choice(["q", "q", "q", "a"] if main or r.random() < .7 else ["nq", "na"])
            return dict(k="inc", form=form, name=self.name(here))
        if k < .68:
            nm = self.name(here)
            if r.random() < .2:
                nm = dict(abs=False, c=[r.choice(RTN + SYSN)])
            return dict(k="has", form=r.choice(["q", "a"] if main or r.random() < .7 else ["nq", "na"]), name=nm)
        if k < .76:
            return dict(k="def", g=r.choice(MACS))
        if k > .95:
            return dict(k="line", name=self.name(here))
        if k < .82:
            return dict(k="und", g=r.choice(MACS))
        if depth > 1:
            return self.mark()
        return dict(k="if", pos=r.random() < .5, g=r.choice(MACS), a=self.items(here, depth + 1, main), b=self.items(here, depth + 1, main) if r.random() < .5 else [])

    def items(self, here, depth, main=False):
        return [self.item(here, depth, main) for _ in range(self.r.choice([0, 1, 1, 2, 3]))]

    def header(self, f):
        r = self.r
        k = r.random()
        g = r.choice(MACS)
        body = [self.mark()] + self.items(f["d"], 1)
        if k < .3:     # the usual guard, and what looks like one
            b = [dict(k="if", pos=False, g=g, a=[dict(k="def", g=g if r.random() < .85 else r.choice(MACS))] + body, b=[self.mark()] if r.random() < .15 else [])]
            if r.random() < .15:
                b.append(r.choice([self.mark(), dict(k="und", g=g), dict(k="if", pos=False, g=r.choice(MACS), a=[self.mark()], b=[])]))
            if r.random() < .1:
                b.insert(0, r.choice([self.mark(), dict(k="def", g=r.choice(MACS)), dict(k="if", pos=False, g=r.choice(MACS), a=[self.mark()], b=[])]))
            return b
        if k < .5:
            body.insert(r.choice([0, 0, 0, len(body)]), dict(k="once"))
            return body
        if k < .9:     # something that ends
            return [dict(k="if", pos=False, g="N%d" % self.next, a=[dict(k="def", g="N%d" % self.next)] + body, b=[self.mark()])] if r.random() < .5 else [x for x in body if x["k"] != "inc"]
        return body

    def path(self, d, here, r):
        """spelling of directory d from here"""
        k = r.random()
        if k < .2:
            return ["/@"] + d
        i = 0
        while i < min(len(d), len(here)) and d[i] == here[i]:
            i += 1
        c = [".."] * (len(here) - i) + d[i:]
        if k < .4:
            c = ["."] + c
        if k > .9 and d:
            c = c + ["..", d[-1]]
        return c

    def case(self):
        r = self.r
        cwd = r.choice(self.all)
        mode = r.choice(["run", "run", "run", "exe", "obj", "stdin"])
        n = 1 if mode in ("obj", "stdin") else r.choice([1, 1, 2, 3])
        idirs, opts = [], []
        for d in r.sample(self.all + [NO], r.randint(0, min(4, len(self.all)))):
            idirs.append(d)
            if d == NO:
                p = r.choice(["nowhere", "./nowhere", "/@/nowhere"])
            else:
                p = "/".join(self.path(d, cwd, r)) or "."
                if r.random() < .15:
                    p += "/"
            opts.append(["-C", "-I" + p] if r.random() < .15 and " " not in p else ["-I" + p] if r.random() < .5 else ["-I", p])
        macs = r.sample(MACS, r.choice([0, 0, 0, 1]))
        files = [f for f in self.files]
        srcs, named, paths = [], [], []
        for i in range(n):
            d = r.choice([cwd, r.choice(self.all)])
            if mode == "stdin":
                d = cwd
            files = files + [dict(d=d, n="m%d.c" % i, body=[x for _ in range(r.choice([1, 2, 2, 3])) for x in [self.item(d, 0, True), dict(k="inc", form=r.choice("qqa"), name=self.name(d))]][:r.choice([2, 3, 5])])]
            srcs.append(len(files))
            c = self.path(d, cwd, r)
            named.append(len(c) > 0 and mode != "stdin")
            paths.append("/".join(c + ["m%d.c" % i]))
        return dict(dirs=self.dirs + [RT, SYS], files=files + [dict(d=RT, n=x, body=[dict(k="mark", n=9999)]) for x in RTN] + [dict(d=SYS, n=x, body=[dict(k="mark", n=9999)]) for x in SYSN],
                    idirs=idirs, rt=[RT], sys=[SYS], srcs=srcs, named=named, macs=macs, mode=mode, cwd=cwd, opts=opts, paths=paths, seed=r.getrandbits(32))


def render(body, root, rng, ind=""):
    out = ""
    for x in body:
        sp = rng.choice(["#", "#", "#", " # ", "#  "])
        k = x["k"]
        if k == "mark":
            out += "%d,\n" % x["n"]
        elif k == "line":
            out += "%s%s%d \"%s%s\"\n" % (sp, rng.choice(["line ", "line ", " "]), rng.randrange(1, 99), root + "/" if x["name"]["abs"] else "", "/".join(x["name"]["c"]))
        elif k == "once":
            out += sp + "pragma once\n"
        elif k in ("def", "und"):
            out += sp + ("define %s%s\n" % (x["g"], rng.choice(["", " 1"])) if k == "def" else "undef %s\n" % x["g"])
        elif k in ("inc", "has"):
            n = ("%s/" % root if x["name"]["abs"] else "") + "/".join(x["name"]["c"])
            q = '"%s"' % n if x["form"] in ("q", "nq") else "<%s>" % n
            nx = "_next" if x["form"][0] == "n" else ""
            if k == "has":
                out += "%sif __has_include%s%s(%s)\n1,\n#else\n0,\n#endif\n" % (sp, nx, rng.choice(["", " "]), q)
            elif rng.random() < .12 and " " not in n and "." not in n.split("/"):
                m = "W%d" % rng.getrandbits(30)
                out += "#define %s %s\n%sinclude%s %s\n#undef %s\n" % (m, q, sp, nx, m, m) if q[0] == '"' else "%sinclude%s %s\n" % (sp, nx, q)
            else:
                out += "%sinclude%s%s%s%s\n" % (sp, nx, rng.choice([" ", " ", "", "\t"]), q, rng.choice(["", "", "", " // x", " /* a\n b */"]))
        else:
            pos, a, b = x["pos"], x["a"], x["b"]
            how = rng.randrange(5)
            if how == 0:
                head = "if defined(%s)" % x["g"] if pos else "if !defined %s" % x["g"]
            elif how == 1 and b:
                head, a, b = ("ifndef" if pos else "ifdef") + " " + x["g"], b, a
            else:
                head = ("ifdef" if pos else "ifndef") + " " + x["g"]
            out += sp + head + "\n" + render(a, root, rng) + ("#else\n" + render(b, root, rng) if b or rng.random() < .1 else "") + "#endif" + rng.choice(["", "", " /* %s */" % x["g"]]) + "\n"
    return out


def text(f, root, rng):
    b = render(f["body"], root, rng)
    pre = rng.choice(["", "", "", "/* a\n   header */\n", "\n\n", "// x\n"])
    post = rng.choice(["", "", "\n", "// end\n", "/* end */"])
    b = pre + b + post
    return b[:-1] if b.endswith("\n") and rng.random() < .1 else b


MAIN = "extern int printf(const char *, ...);\n%sint main(void) { const int *p;\n%sreturn 0; }\n"


def check(ctx):
    t = ctx.thorough
    ctx.model("MCInc", "CONSTANTS MostFiles = %d\nMostList = 2\n" % (3 if t else 2), ["Stable", "Behind", "OnceOnly"], extra_cfg="CHECK_DEADLOCK FALSE\n")
    cjit = ctx.build()
    rng = ctx.rng
    cases = []
    for _ in range(2500 if t else 500):
        w = World(rng)
        cases += [w.case() for _ in range(3)]
    keys = ["dirs", "files", "idirs", "rt", "sys", "srcs", "named", "macs"]
    res = ctx.eval("Inc", [{k: c[k] for k in keys} for c in cases], op="Units")
    todo = []
    for c, r in zip(cases, res):
        c["want"] = r
        if any(9999 in u["out"] or len(u["out"]) > 5000 for u in r):
            continue
        todo.append(c)
    ctx.log("%d runs, %d with an error" % (len(todo), sum(any(u["err"] for u in c["want"]) for c in todo)))

    import random

    def run(c):
        root = ctx.dir()
        rr = random.Random(c["seed"])
        for d in c["dirs"]:
            if d[0][0] != "@":
                os.makedirs(os.path.join(root, *d), exist_ok=True)
        srcs = set(c["srcs"])
        stdin = b""
        for i, f in enumerate(c["files"]):
            if f["d"] and f["d"][0][0] == "@":
                continue
            s = text(f, root, rr)
            if i + 1 in srcs:
                k = c["srcs"].index(i + 1)
                s = "%sstatic const int seq[] = {\n%s\n-1 };\nconst int *get%d(void) { return seq; }\n" % (rr.choice(["", "typedef int T%d;\n" % k, "enum { E = %d };\n" % k]), s, k)
                if k == len(c["srcs"]) - 1:
                    s += MAIN % ("".join("const int *get%d(void);\n" % j for j in range(k + 1)), "".join('printf("%d:", %d); for (p = get%d(); *p >= 0; p++) printf(" %%d", *p); printf("\\n");\n' % (j, j, j) for j in range(k + 1)))
                if c["mode"] == "stdin":
                    stdin = s.encode()
                    continue
            open(os.path.join(root, *f["d"], f["n"]), "w").write(s)
        cwd = os.path.join(root, *c["cwd"])
        fix = lambda p: p.replace("/@", root)
        argv = [cjit, "-q"] + ["-D%s" % m for m in c["macs"]] + [fix(x) for o in c["opts"] for x in o]
        paths = [fix(p) for p in c["paths"]]
        out = os.path.join(root, "@out")
        if c["mode"] == "run":
            r = ctx.run(argv + paths, cwd=cwd)
        elif c["mode"] == "stdin":
            r = ctx.run(argv + ([] if rr.random() < .5 else ["-"]), cwd=cwd, stdin=stdin)
        else:
            r = ctx.run(argv + (["-c"] if c["mode"] == "obj" else []) + ["-o", out] + paths, cwd=cwd)
            if r.rc == 0:
                r = ctx.run([cjit, "-q", out + ".o"] if c["mode"] == "obj" and os.rename(out, out + ".o") is None else [out], cwd=cwd)
        return r, root, argv, paths

    def wrong(c, r):
        errs = [u["err"] for u in c["want"] if u["err"]]
        if errs:
            if r.rc == 0:
                return "status 0, expected an error (%s)" % errs[0]
            if r.out:
                return "output %r in spite of an error" % r.out[:200]
            msg = b"not found" if errs[0] == "missing" else b"error"
            if msg not in r.err and b"No such file" not in r.err:
                return "no error message with %r: %r" % (msg, r.err[-300:])
            return None
        want = "".join("%d:%s\n" % (i, "".join(" %d" % n for n in u["out"])) for i, u in enumerate(c["want"]))
        if r.rc != 0 or r.out.decode("latin-1") != want:
            return "status %d, output %r, expected %r; %s" % (r.rc, r.out.decode("latin-1")[:600], want[:600], r.err.decode("latin-1")[-300:])
        return None

    def go(c):
        r, root, argv, paths = run(c)
        w = wrong(c, r)
        if w:
            shutil.rmtree(root, ignore_errors=True)
            r, root, argv, paths = run(c)
            w = wrong(c, r)
        if w:
            fs = {os.path.relpath(os.path.join(p, f), root): open(os.path.join(p, f), "rb").read().decode("latin-1") for p, _, ff in os.walk(root) for f in ff if f.endswith((".h", ".c", ".inc"))}
            ctx.violation("include", "mode %s in %r: %s\n  %s" % (c["mode"], "/".join(c["cwd"]), " ".join(map(str, argv[1:] + paths)), w),
                          dict(mode=c["mode"], cwd=c["cwd"], argv=argv[1:] + paths, files=fs, wrong=w, root=root))
        shutil.rmtree(root, ignore_errors=True)
        ctx.traces(1)
    ctx.pmap(go, todo)
    ctx.count("runs", len(todo))
    ctx.count("inclusions", sum(len(u["out"]) for c in todo for u in c["want"]))
    ctx.sample(dict(cwd=todo[0]["cwd"], opts=todo[0]["opts"], paths=todo[0]["paths"], want=todo[0]["want"]))
