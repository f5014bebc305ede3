"""C08: every reference binds to the definition the linkage rules choose (spec/Linkage.tla)."""
import itertools, os, shutil, random

TECHNIQUE = "TLA+ spec of symbol resolution, TLC model checking, replay of TLC-resolved programs through cjit"
LEVEL = "model_checking"
NOTE = ("All role combinations of 3 units and 2 names are model checked against the rules; random programs of up to 6 units (sources, cjit and gcc objects, "
        "archives, shared libraries) report which object and function every name leads to from every unit, in code and in data, and this is compared with what TLC computes.")

ROLES = ["none", "ref", "wref", "strong", "weak", "common", "static"]


def name(s, c):
    return "sched_yield" if s in c["libc"] else "sym%d" % s


def render(c, u, rng):
    t = "extern int printf(const char*,...);\n"
    rep = ""
    for s in range(1, c["n"] + 1):
        role = c["units"][u - 1]["roles"][s - 1]
        size = c["units"][u - 1]["size"][s - 1]
        nm = name(s, c)
        v = 1000 * u + s
        if role == "none":
            continue
        func = c["kind"][s - 1] == "func"
        if func:
            d = {"ref": "int %s(void);", "wref": "__attribute__((weak)) int %s(void);", "strong": "int %s(void){return " + str(v) + ";}",
                 "weak": "__attribute__((weak)) int %s(void){return " + str(v) + ";}", "static": "static int %s(void){return " + str(v) + ";}"}[role] % nm
            if role == "strong" and rng.random() < .15:
                d = "static int own%d(void){return %d;}\nint %s(void) __attribute__((alias(\"own%d\")));" % (s, v, nm, s)
            if role == "ref" and rng.random() < .3:
                d = "extern " + d
            if role == "strong" and rng.random() < .3:
                d = "int %s(void);\n" % nm + d
            rep += ' int (*p%d)(void) = %s;\n' % (s, nm) if rng.random() < .5 else ' int (*p%d)(void) = pt%d;\n' % (s, s)
            t += d + "\nstatic int (*pt%d)(void) = %s;\n" % (s, nm)
            call = rng.choice(["p%d()" % s, "%s()" % nm])
            if nm == "sched_yield" and role in ("ref", "wref"):
                call = "%s()" % nm
            rep += ' printf("%d %d %%d %%p\\n", p%d ? %s : -1, (void*)p%d);\n' % (u, s, s, call, s)
        else:
            d = {"ref": "extern int %s[];", "wref": "extern int %s[] __attribute__((weak));", "strong": "int %s[2]={V,V};", "weak": "__attribute__((weak)) int %s[2]={V,V};",
                 "common": "int %s[N];", "static": "static int %s[3]={V,V,V};"}[role].replace("V", str(v)).replace("N", str(size)) % nm
            if role in ("common", "strong") and rng.random() < .3:
                d = "extern int %s[];\n" % nm + d
            t += d + "\nstatic int *pt%d = %s;\n" % (s, nm)
            rep += ' int *p%d = %s;\n' % (s, rng.choice([nm, "pt%d" % s]))
            rep += ' printf("%d %d %%d %%p\\n", p%d ? %s : -1, (void*)p%d);\n' % (u, s, s, rng.choice(["p%d[0]" % s, nm + "[0]"]), s)
    return t, rep


def unit(c, u, rng):
    t, rep = render(c, u, rng)
    return t + "__attribute__((constructor)) static void report(void){\n%s printf(\"in %d\\n\");\n}\n" % (rep, u)


def dll(c, u, rng):
    t = ""
    for s in range(1, c["n"] + 1):
        if c["units"][u - 1]["roles"][s - 1] in ("strong", "weak"):
            v = 1000 * u + s
            w = "__attribute__((weak)) " if c["units"][u - 1]["roles"][s - 1] == "weak" else ""
            t += w + ("int %s(void){return %d;}\n" % (name(s, c), v) if c["kind"][s - 1] == "func" else "int %s[2]={%d,%d};\n" % (name(s, c), v, v))
    return t


def check(ctx):
    ctx.model("MCLinkage", "CONSTANT NU = %d\n" % (4 if ctx.thorough else 3),
              ["OneStrong", "TwoFail", "CommonOverWeak", "InputsFirst", "NullOnlyWeak", "Private", "OrderFree", "NoIdleMember"], extra_cfg="CHECK_DEADLOCK FALSE\n", timeout=600)
    cjit = ctx.build()
    rng = ctx.rng
    cases = []

    def add(kind, units, inputs, libc=(), mode=None, forms=None):
        cases.append(dict(n=len(kind), kind=kind, units=units, inputs=inputs, libc=list(libc), mode=mode or rng.choice(["run", "run", "exe"]), forms=forms, seed=rng.random()))

    def U(*roles, size=None):
        return dict(roles=list(roles), size=size or [1 + rng.randrange(5) for _ in roles])

    # every pair of roles for a function and an object, in three build forms
    for a in ROLES:
        for b in ROLES:
            for kind in ("func", "data"):
                if kind == "func" and "common" in (a, b):
                    continue
                for forms in (["src", "src"], ["co", "src"], ["go", "src"], ["src", "go"], ["go", "co"]):
                    add([kind], [U(a), U(b)], [dict(form="unit", us=[1]), dict(form="unit", us=[2])], forms=forms)
                add([kind], [U(a), U(b)], [dict(form="dll", us=[2]), dict(form="unit", us=[1])] if rng.random() < .5 else [dict(form="unit", us=[1]), dict(form="dll", us=[2])]) \
                    if b in ("strong", "weak") else None
                if b in ("strong", "weak", "static"):
                    add([kind], [U(a), U(b)], [dict(form="unit", us=[1]), dict(form="archive", us=[2])])
                    add([kind], [U(a), U(b)], [dict(form="archive", us=[2]), dict(form="unit", us=[1])])
    # chains of members that need one another, in every order of the archive, the last link perhaps missing or in a second archive
    for k in (2, 3, 4):
        for order in itertools.permutations(range(2, k + 2)):
            for cut in ((0, 1, 2) if k < 4 or ctx.thorough else (rng.randrange(3),)):
                kind = [rng.choice(["func", "func", "data"]) for _ in range(k)]
                units = [U(*(["ref"] + ["none"] * (k - 1)))]
                for i in range(k):
                    roles = ["none"] * k
                    roles[i] = rng.choice(["strong", "strong", "weak"])
                    if i + 1 < k:
                        roles[i + 1] = "ref" if not cut or i + 2 < k else rng.choice(["ref", "wref"])
                    elif cut == 1:
                        roles[i] = "static"
                    elif k > 1 and rng.random() < .3:
                        roles[0] = "ref"    # round in a circle
                    units.append(U(*roles))
                split = rng.randint(1, k - 1) if cut == 2 else k
                add(kind, units, [dict(form="unit", us=[1]), dict(form="archive", us=list(order[:split]))] + ([dict(form="archive", us=list(order[split:]))] if split < k else []))
    for _ in range(9000 if ctx.thorough else 1500):
        n = rng.randint(1, 4)
        kind = [rng.choice(["func", "data"]) for _ in range(n)]
        libc = []
        if rng.random() < .25:
            libc = [n]
            kind[n - 1] = "func"
        k = rng.randint(2, 6)
        style = rng.random()
        units, inputs = [], []
        left = list(range(1, k + 1))
        arch = []
        dlls = []
        for u in left:
            r = rng.random()
            if u > 1 and r < .3:
                arch.append(u)
            elif u > 1 and r < .42:
                dlls.append(u)
            else:
                inputs.append(dict(form="unit", us=[u]))
        groups = []
        while arch:
            m = rng.randint(1, len(arch))
            groups.append(arch[:m])
            arch = arch[m:]
        strong_given = [False] * n
        for u in range(1, k + 1):
            roles = []
            g = next((g for g in groups if u in g), None)
            for s in range(n):
                if u in dlls:
                    ch = ["none", "none", "strong", "weak"]
                elif g:
                    ch = ["none", "none", "ref", "strong", "weak", "static", "wref"]
                else:
                    ch = ["none", "ref", "ref", "wref", "weak", "static", "strong", "common", "common"]
                if kind[s] == "func":
                    ch = [x for x in ch if x != "common"]
                r = rng.choice(ch)
                if r == "strong" and u not in dlls:
                    if strong_given[s] and rng.random() < .85:
                        r = rng.choice(["ref", "weak", "static"])
                    else:
                        strong_given[s] = True
                # one member of an archive per name; archives and libraries do not compete
                if g and r in ("strong", "weak"):
                    if any(units[v - 1]["roles"][s] in ("strong", "weak") for v in g if v < u) or any(units[v - 1]["roles"][s] != "none" for v in dlls if v < u) or s + 1 in libc:
                        r = "static"
                if u in dlls and (s + 1 in libc or any(units[v - 1]["roles"][s] in ("strong", "weak") for h in groups for v in h if v < u)):
                    r = "none"
                roles.append(r)
            units.append(U(*roles))
        if style < .6:   # give what is missing, so that most programs link
            u = len(units) + 1
            roles = []
            for s in range(n):
                have = any(x["roles"][s] in ("strong", "weak", "common") for x in units)
                roles.append("none" if have or s + 1 in libc else rng.choice(["strong", "weak", "strong"] if kind[s] == "func" else ["strong", "common", "weak"]))
            units.append(U(*roles))
            inputs.append(dict(form="unit", us=[u]))
        inputs += [dict(form="dll", us=[d]) for d in dlls]
        rng.shuffle(inputs)
        for g in groups:
            at = len(inputs) if rng.random() < .6 else rng.randint(0, len(inputs))
            inputs.insert(at, dict(form="archive", us=g))
        if not any(i["form"] == "unit" for i in inputs):
            continue
        add(kind, units, inputs, libc)
    for c in cases:   # a common of a shared library is the library's business
        for i in c["inputs"]:
            if i["form"] != "unit":
                for u in i["us"]:
                    c["units"][u - 1]["roles"] = [r if r != "common" else "none" for r in c["units"][u - 1]["roles"]]
    exp = ctx.eval("Linkage", [{k: c[k] for k in ("n", "units", "inputs", "libc")} for c in cases], "Outcome")

    def one(n):
        c, e = cases[n], exp[n]
        rng = random.Random(c["seed"])
        d = ctx.dir()
        # data of a shared library is out of reach of position dependent code in memory
        nonpic_ok = c["mode"] == "exe" or not any(i["form"] == "dll" for i in c["inputs"])
        try:
            words = []

            def obj(u, form):
                src = d + "/u%d.c" % u
                open(src, "w").write(unit(c, u, rng))
                if form == "src":
                    return "u%d.c" % u
                o = "u%d.o" % u
                if form == "co":
                    r = ctx.run([cjit, "-q", "-c", "-o", o, "u%d.c" % u], cwd=d)
                    if r.rc != 0:
                        raise RuntimeError("cjit -c fails: %r" % r)
                else:
                    ctx.cc(d + "/" + o, ["-c", src], flags=["-fcommon", "-fPIC" if nonpic_ok is False else rng.choice(["-fPIC", "-fPIE"]), rng.choice(["-O0", "-O2"])], san=False)
                return o
            k = 0
            for i in c["inputs"]:
                if i["form"] == "unit":
                    f = c["forms"][k] if c["forms"] and k < len(c["forms"]) else rng.choice(["src", "src", "co", "go"])
                    k += 1
                    words.append(obj(i["us"][0], f))
                elif i["form"] == "archive":
                    a = "ar%d.a" % i["us"][0]
                    os_ = [obj(u, rng.choice(["co", "go"])) for u in i["us"]]
                    r = ctx.run(["ar", "rcs", a] + os_ if rng.random() < .5 else [cjit, "-ar", "rcs", a] + os_, cwd=d)
                    if r.rc != 0:
                        raise RuntimeError("ar fails: %r" % r)
                    words.append(a)
                else:
                    so = "libd%d.so" % i["us"][0]
                    open(d + "/t%d.c" % i["us"][0], "w").write(dll(c, i["us"][0], rng))
                    ctx.cc(d + "/" + so, ["-shared", "-fPIC", d + "/t%d.c" % i["us"][0]], san=False, flags=["-Wl,-soname,./" + so])
                    words.append("./" + so)
            open(d + "/m.c", "w").write("int main(void){return 0;}\n")
            first = next((i for i, w in enumerate(words) if w.endswith((".c", ".o"))), 0)
            words.insert(rng.choice([0, first]), "m.c")
            if c["mode"] == "run":
                r = ctx.run([cjit, "-q"] + words, cwd=d)
            else:
                r = ctx.run([cjit, "-q", "-o", "x.exe"] + words, cwd=d)
                if r.rc == 0 and os.path.exists(d + "/x.exe") and not e["fails"]:
                    r = ctx.run(["./x.exe"], cwd=d)
            bad = []
            if e["fails"]:
                if r.rc == 0:
                    bad.append("the build succeeds, it must fail")
                if r.out:
                    bad.append("code runs: %r" % r.out[:60])
                return (bad, r, words) if bad else None
            if r.rc != 0:
                return (["the program must build and run"], r, words)
            got, units, spans = {}, [], []
            for l in r.out.decode("latin-1").split("\n"):
                f = l.split()
                if len(f) == 2 and f[0] == "in":
                    units.append(int(f[1]))
                elif len(f) == 4:
                    got[int(f[0]), int(f[1])] = (int(f[2]), f[3])
            if sorted(units) != sorted(e["in"]):
                bad.append("units in the program: %s, expected %s" % (sorted(units), sorted(e["in"])))
            addr = {}
            for u, sees in zip(e["in"], e["sees"]):
                for s, t in enumerate(sees, 1):
                    if t["to"] == "none":
                        continue
                    g = got.get((u, s))
                    if not g:
                        bad.append("unit %d does not report name %d" % (u, s))
                        continue
                    want = {"unit": 1000 * t["by"] + s, "dll": 1000 * t["by"] + s, "static": 1000 * t["by"] + s, "common": 0, "null": -1, "libc": 0}[t["to"]]
                    if g[0] != want:
                        bad.append("name %d seen from unit %d leads to %s, expected %s (%s)" % (s, u, g[0], want, t["to"]))
                    if t["to"] in ("unit", "common", "static", "dll"):
                        key = (t["to"], t["by"], s)
                        if addr.setdefault(key, g[1]) != g[1]:
                            bad.append("name %d has several addresses" % s)
                        if c["kind"][s - 1] == "data" and not bad:
                            a = int(g[1], 16)
                            z = {"common": e["size"][s - 1], "static": 3}.get(t["to"], 2)
                            spans.append((a, a + 4 * z, key))
            for i, (a, b, k1) in enumerate(spans):
                for (p, q, k2) in spans[:i]:
                    if k1 != k2 and a < q and p < b:
                        bad.append("%s and %s overlap" % (k1, k2))
            return (bad, r, words) if bad else None
        except RuntimeError as x:
            return ([str(x)], None, [])
        finally:
            shutil.rmtree(d, ignore_errors=True)

    res = ctx.pmap(one, range(len(cases)))
    for n, x in enumerate(res):
        if x and one(n):
            bad, r, words = x
            c = cases[n]
            ctx.violation("bind", "; ".join(bad[:6]) + "\n%s %s\nkinds %s libc %s\n%s\n%r" % (
                c["mode"], words, c["kind"], c["libc"], "\n".join("unit %d: %s size %s" % (i + 1, u["roles"], u["size"]) for i, u in enumerate(c["units"])), r),
                dict(case=c, expected=exp[n], words=words))
    ctx.traces(len(cases))
    ctx.count("programs_that_fail", sum(e["fails"] for e in exp))
    ctx.count("programs_with_archives", sum(any(i["form"] == "archive" for i in c["inputs"]) for c in cases))
    ctx.sample(dict(case=cases[-1], expected=exp[-1]))
