"""C02: nothing runs and success is never reported unless every input built (spec/Build.tla)."""
import os, itertools, shutil
import validgen

TECHNIQUE = "TLA+ spec of the build protocol, TLC model checking, replay of TLC-predicted outcomes into cjit"
LEVEL = "model_checking"
NOTE = ("All sequences of up to 2 inputs (quick: 3 sampled) over 47 kinds of good and defective inputs in every mode, including "
        "standard input and unwritable outputs, are built by the real cjit and their exit status, side effects and files compared with the outcome TLC computes. spec/Valid.tla decides the constraints of C for translation units of abstract syntax (declarations, scopes, "
        "types, expressions, statements, initialisers): random units with and without a defect, lists of type specifiers, pairs of declarations and operators "
        "over operands of every type must be refused, or built and run, as it says.")

P = "extern int puts(const char*);\nstatic void __attribute__((constructor)) k%s(void){puts(\"CTOR\");}\n"
SRC = {
    "main": "int main(void){puts(\"RAN\");return 7;}\n",
    "mainalt": "int main(void){puts(\"RAN\");return 7;}\nint alt(void){puts(\"RANALT\");return 9;}\n",
    "mainf": "int f(void);int main(void){puts(\"RAN\");return f()+6;}\n",
    "unitf": "int f(void){return 1;}\n",
    "unitg": "int f(void);int g(void){return f();}\n",
    "dupf": "int f(void){return 1;}\n",
    "dataf": "int d=4;\n",
    "datad": "int d=5;\n",
    "undef": "int nowhere(void);int u(void){return nowhere();}\n",
    "unddata": "extern int nodata;int v(void){return nodata;}\n",
    "altonly": "int alt(void){puts(\"RANALT\");return 9;}\n",
    "srccc": "int k(void){return 1;}\n",
    "srcC": "int kk(void){return 1;}\n",
    "noext": "int n(void){return 1;}\n",
    "bom8": "int b8(void){return 1;}\n", "bom16l": "", "bom16b": "",
    "syntax": "int main(void){puts(\"RAN\");return 7;}\nint alt(void){puts(\"RANALT\");return 9;}\nint x = ;\n",
    "sysynext": "int main(void){puts(\"RAN\");return 7;}\nint f(void){return 1;}\nint y = (;\n",
    "syntaxcc": "int main(void){puts(\"RAN\");return 7;}\nint f(void){return 1;}\n}\n",
    "undecl": "int main(void){puts(\"RAN\");return nodecl;}\n",
    "badtype": "struct s {int a;};int main(void){struct s x;puts(\"RAN\");return x + 1;}\n",
    "hasherr": "int main(void){puts(\"RAN\");return 7;}\n#error stop\n",
    "noinc": "int main(void){puts(\"RAN\");return 7;}\n#include \"doesnotexist.h\"\n",
    "openif": "int main(void){puts(\"RAN\");return 7;}\n#if 1\n",
    "opencom": "int main(void){puts(\"RAN\");return 7;}\n/* never closed\n",
    "openstr": "int main(void){puts(\"RAN\");return 7;}\nchar *s = \"abc;\n",
    "openbrace": "int main(void){puts(\"RAN\");return 7;}\nint z(void){ return 1;\n",
    "redef": "int main(void){puts(\"RAN\");return 7;}\nint z(void){return 1;}\nint z(void){return 1;}\n",
    "incomplete": "struct nope q;\nint main(void){struct nope x;puts(\"RAN\");return 7;}\n",
    "badlabel": "int main(void){puts(\"RAN\");goto away;return 7;}\n",
}
EXT = {"srccc": "cc", "srcC": "C", "syntaxcc": "cxx", "noext": "", "sysynext": "", "missobj": "o", "missnoext": "", "missso": "so", "dirnoext": "",
       "gccobj": "o", "cjitobj": "o", "shlib": "so", "garbobj": "o", "garbso": "so", "garba": "a", "header": "h"}
OTHER = ["empty", "short", "onebyte", "header", "gccobj", "cjitobj", "shlib", "missing", "missobj", "missnoext", "missso", "direct", "dirnoext", "dangling",
         "garbobj", "garbso", "garba"]
MODES = ["run", "exe", "obj", "objo", "exe_nodir", "exe_nospace", "objo_nodir", "obj_nospace"]
PIPED = ["main", "mainalt", "mainf", "unitf", "dupf", "undef", "altonly", "short", "onebyte", "syntax", "undecl", "badtype", "hasherr", "noinc", "openif",
         "opencom", "openstr", "openbrace", "redef", "incomplete", "badlabel", "bom8", "dataf", "datad"]
PURE = ("main", "mainalt", "unitf", "unitg", "dupf", "mainf", "dataf", "datad", "undef", "altonly", "srccc", "noext", "gccobj", "cjitobj", "header", "empty",
        "shlib")


def name(k):
    e = EXT.get(k, "c")
    return k + ("." + e if e else "")


def text(k):
    if k in SRC:
        t = (P % k + SRC[k]).encode()
        return {"bom8": b"\xef\xbb\xbf" + t, "bom16l": b"\xff\xfe" + t.decode().encode("utf-16-le"),
                "bom16b": b"\xfe\xff" + t.decode().encode("utf-16-be")}.get(k, t)
    return {"empty": b"", "short": b";\n", "onebyte": b"\n", "header": b"#define HH 1\n"}.get(k)


# what tcc accepts on purpose or for want of the information: one known finding each
LENIENT = ["assign-to-noop", "increment-noop", "address-of-noop", "assign-to-result", "address-of-result", "increment-result", "cast-to arr", "cast-to fun",
           "sizeof-bit-field", "redeclared-extern", "initialiser-string-nested"]
MAIN = "extern int puts(const char*);\nint main(void){puts(\"RAN\");return 7;}\n"


def valid(ctx, cjit):
    """units of spec/Valid.tla: what it calls an error must fail in every mode, what it calls right must build and run"""
    ctx.model("MCValid", "CONSTANT MaxLen = %d" % (4 if ctx.thorough else 3), ["Monotone", "OneThing", "Gone"], extra_cfg="CHECK_DEADLOCK FALSE\n")
    rng = ctx.rng
    units = [validgen.unit(rng)[0] for _ in range(12000 if ctx.thorough else 1600)]
    specs, decls = validgen.specifier_units(), validgen.declaration_units()
    units += validgen.lenient_units()
    units += specs if ctx.thorough else rng.sample(specs, 500)
    units += decls if ctx.thorough else rng.sample(decls, 400)
    units += validgen.operator_units(rng, 25000 if ctx.thorough else 2000)
    exp = []
    for i in range(0, len(units), 5000):
        exp += ctx.eval("Valid", [dict(u=u) for u in units[i:i + 5000]], "Check")
    texts = [validgen.text(u) + MAIN for u in units]
    modes = [rng.choice(["run", "run", "run", "stdin", "obj", "exe"]) for _ in units]

    def one(i):
        e, m = exp[i], modes[i]
        if e["v"] == "any":
            return None
        d = ctx.dir()
        try:
            open(d + "/u.c", "w").write(texts[i])
            argv = {"run": ["u.c"], "stdin": ["-"], "obj": ["-c", "u.c"], "exe": ["-o", "u.exe", "u.c"]}[m]
            r = ctx.run([cjit, "-q"] + argv, cwd=d, stdin=texts[i].encode() if m == "stdin" else b"")
            new = sorted(set(os.listdir(d)) - {"u.c"})
            bad = []
            if e["v"] == "err":
                if not 0 < r.rc < 256:
                    bad.append("exit status %d" % r.rc)
                if r.out:
                    bad.append("application code ran: %r" % r.out[:60])
                if new:
                    bad.append("files left behind: %s" % new)
                if bad:
                    bad.insert(0, "the unit violates a constraint (%s) and must be refused" % ", ".join(sorted(e["why"])))
            else:
                want = {"obj": ["u.o"], "exe": ["u.exe"]}.get(m, [])
                if m in ("run", "stdin") and (r.rc != 7 or r.out != b"RAN\n"):
                    bad.append("exit status %d output %r" % (r.rc, r.out[:60]))
                elif m in ("obj", "exe") and (r.rc != 0 or r.out):
                    bad.append("exit status %d output %r" % (r.rc, r.out[:60]))
                if new != want:
                    bad.append("files created: %s" % new)
                if m == "exe" and not bad:
                    r = ctx.run(["./u.exe"], cwd=d)
                    if r.rc != 7 or r.out != b"RAN\n":
                        bad.append("the executable: exit status %d output %r" % (r.rc, r.out[:60]))
                if bad:
                    bad.insert(0, "the unit violates no constraint and must be accepted")
            return (bad, r) if bad else None
        finally:
            shutil.rmtree(d, ignore_errors=True)

    res = ctx.pmap(one, range(len(units)))
    ctx.traces(sum(1 for e in exp if e["v"] != "any"))
    for v in ("ok", "err", "any"):
        ctx.count("units_" + v, sum(1 for e in exp if e["v"] == v))
    ctx.count("constraints_violated", len({w for e in exp for w in e["why"]}))
    ctx.sample(dict(unit=texts[0], verdict=exp[0]["v"]))
    for i, r in enumerate(res):
        if r:
            r = one(i)
            if r:
                why = sorted(exp[i]["why"])
                known = [w for w in why if w in LENIENT]
                key = "accepted:" + (known or ["+".join(why)])[0].replace(" ", "-") if exp[i]["v"] == "err" else "refused:" + modes[i]
                ctx.violation(key, "mode %s: %s\n%r\n%s" % (modes[i], "; ".join(r[0]), r[1], texts[i]), dict(unit=texts[i], mode=modes[i]))


SPECIAL = ["_fp_hw", "_start", "_init", "_fini", "__init_array_start", "__init_array_end", "__preinit_array_start", "__fini_array_end", "_GLOBAL_OFFSET_TABLE_",
           "_DYNAMIC", "__dso_handle", "__bss_start", "_edata", "_etext", "_end", "edata", "etext", "end", "__executable_start", "__ehdr_start", "__tcc_main",
           "__tcc_backtrace", "__bound_init", "__bound_ptr_add", "__bound_local_new", "__rt_exit", "_runmain", "__mzerodf", "__va_arg", "__clear_cache", "__fixdfdi",
           "__floatundixf", "__udivdi3", "__atomic_load_8", "__builtin_expect", "__builtin_frame_address", "alloca", "memcpy", "setjmp", "printf", "sin", "dlsym",
           "pthread_create", "environ", "stderr", "L.0", "__func__", "__stack_chk_fail", "_dl_relocate_static_pie", "__libc_start_main", "__cxa_finalize",
           "__gmon_start__", "_ITM_registerTMCloneTable", "tcc_new", "cjit_new", "main", "wmain", "__main", "rt_printline", "exit", "atexit", "stat", "nowhere"]


def names(ctx, cjit):
    """every name a program needs must be defined somewhere, whatever it looks like"""
    import ctypes
    rng, me = ctx.rng, ctypes.CDLL(None)
    libs = [me] + [ctypes.CDLL(l) for l in ("libm.so.6", "libc.so.6")]
    taken = set(SPECIAL) - {"nowhere"}
    mine = {x[2].decode(errors="replace") for x in (l.split() for l in ctx.run(["nm", cjit]).out.splitlines()) if len(x) == 3}
    for k in (os.listdir(ctx.tree() + "/lib/tinycc") if os.path.isdir(ctx.tree() + "/lib/tinycc") else []):
        if k.endswith("libtcc1.a") or k == "bcheck.o":
            mine |= {x[-1].decode(errors="replace") for x in (l.split() for l in ctx.run(["nm", ctx.tree() + "/lib/tinycc/" + k]).out.splitlines()) if len(x) >= 2}

    def free(n):
        if n in taken or n in mine or n.lstrip("_").startswith(("atomic", "builtin", "func", "asm", "attr", "sync")) or len(n) < 3 or not (n[0].isalpha() or n[0] == "_") or not n.replace("_", "a").isalnum():
            return False
        if n in ("int", "for", "asm", "auto", "char", "long", "void", "goto", "case", "else", "enum", "__asm", "main_", "short", "float", "stati", "inline", "exter"):
            return False
        for l in libs:
            try:
                getattr(l, n)
                return False
            except AttributeError:
                pass
        return True
    pool = set()
    for n in SPECIAL:
        pool |= {n[:k] for k in range(3, len(n))} | {n + t for t in ("1", "_", "x", "_start", "z")} | {"_" + n, "x" + n, n.upper(), n.lower(), n.strip("_")}
        if n.startswith("__"):
            pool.add(n[1:])
    pool = sorted(n for n in pool if free(n))
    HOW = ["call", "take", "read", "write", "init", "array", "weak", "decl", "size", "calldecl"]

    def use(i, n, how):
        """(declarations, statement)"""
        return {"call": ("int %s(void);\n" % n, "%s();" % n), "take": ("extern char %s[];\n" % n, "sink = %s + 1;" % n),
                "read": ("extern int %s;\n" % n, "sunk = %s;" % n), "write": ("extern int %s;\n" % n, "%s = 2;" % n),
                "init": ("extern int %s;\nint *p%d = &%s;\n" % (n, i, n), ""), "array": ("void %s(void);\nvoid (*t%d[2])(void) = {0, %s};\n" % (n, i, n), ""),
                "weak": ("extern int %s __attribute__((weak));\n" % n, "sink = (char*)&%s;" % n), "decl": ("extern int %s;\n" % n, ""),
                "size": ("extern int %s[3];\n" % n, "sunk = sizeof %s;" % n), "calldecl": ("int %s(int, char*);\n" % n, "sunk = sizeof %s(1, 0);" % n)}[how]

    def define(n, how):
        if how in ("call", "array", "calldecl"):
            return "int %s(void){return 1;}\n" % n
        return "int %s[3] = {1};\n" % n
    cases = []
    todo = [([(n, rng.choice(HOW[:6]))], ()) for n in pool]
    for _ in range(3000 if ctx.thorough else 300):
        us = [(n, rng.choice(HOW)) for n in rng.sample(pool, rng.choice([1, 2, 3, 4]))]
        todo.append((us, [n for n, h in us if rng.random() < .8]))
    for us, ds in todo:
        at = rng.random() < .5  # the uses are in another unit than main
        head = "extern int puts(const char*);\nchar *sink; int sunk;\n" + "".join(use(i, n, h)[0] for i, (n, h) in enumerate(us))
        body = "".join(use(i, n, h)[1] for i, (n, h) in enumerate(us))
        run = "int main(void){puts(\"RAN\");return 7;}\n"
        a = head + "void u(int a){if (a == 0) return; %s }\n" % body + ("" if at else run)
        b = "".join(define(n, dict(us)[n]) for n in ds) + ("extern int puts(const char*);\n" + run if at else "int other;\n")
        cases.append(dict(uses=[dict(name=n, how=h) for n, h in us], defs=sorted(ds), given=[], mode=rng.choice(["run", "run", "exe", "objs", "stdin"]), t=[a, b], swap=rng.random() < .3))
    exp = ctx.eval("Build", [{k: c[k] for k in ("uses", "defs", "given", "mode")} for c in cases], "Resolves")

    def one(i):
        c, e = cases[i], exp[i]
        d = ctx.dir()
        try:
            fs = []
            for k, t in zip("ab", c["t"]):
                open(d + "/%s.c" % k, "w").write(t)
                fs.append(k + ".c")
            if c["mode"] == "objs":
                for k in "ab":
                    r = ctx.run([cjit, "-q", "-c", k + ".c"], cwd=d)
                    if r.rc or not os.path.exists(d + "/%s.o" % k):
                        return ["-c fails though only linking needs the names"], r
                fs = ["a.o", "b.o"]
            if c["swap"]:
                fs.reverse()
            stdin = b""
            if c["mode"] == "stdin":
                stdin, fs[0] = c["t"]["ab".index(fs[0][0])].encode(), "-"
            before = set(os.listdir(d))
            r = ctx.run([cjit, "-q"] + (["-o", "out"] if c["mode"] == "exe" else []) + fs, cwd=d, stdin=stdin)
            bad, new = [], set(os.listdir(d)) - before
            if e["ok"]:
                if c["mode"] == "exe" and r.rc == 0 and new == {"out"}:
                    new = set()
                    r = ctx.run(["./out"], cwd=d)
                if r.rc != 7 or r.out != b"RAN\n" or new:
                    bad.append("every name needed is defined, but: status %d output %r files %s" % (r.rc, r.out[:60], sorted(new)))
            elif not 0 < r.rc < 256 or r.out or new:
                bad.append("nothing defines %s, but: status %d output %r files %s" % (e["missing"], r.rc, r.out[:60], sorted(new)))
            return (bad, r) if bad else None
        finally:
            shutil.rmtree(d, ignore_errors=True)
    res = ctx.pmap(one, range(len(cases)))
    ctx.traces(len(cases))
    ctx.count("names_undefined", sum(1 for e in exp if not e["ok"]))
    for i, r in enumerate(res):
        if r:
            r = one(i)
            if r:
                ctx.violation("names:" + "+".join(exp[i]["missing"] or ["defined"]), "mode %s: %s\n%r\n%s\n--\n%s" % (cases[i]["mode"], "; ".join(r[0]), r[1], *cases[i]["t"]), cases[i])


def suffixes(ctx, cjit):
    """sources by the ends of their names"""
    r = ctx.rng
    exts = ["c", "C", "cc", "cC", "Cc", "CC", "cxx", "cxX", "cXx", "cXX", "Cxx", "CxX", "CXx", "CXX", "", "h", "i", "cpp", "x", "cx", "xc", "ccc", "txt"]
    cases = []
    for e in exts:
        for t in ("good", "bad", "bom"):
            for m in ("run", "exe", "obj"):
                stem = r.choice(["m", "a.b", "x.c", "v1.2.3", "main-1", "c", "cc", "a b", "o.o", "..m"])
                d = r.choice(["", "", "d/", "d.c/", "d.x/", "./", "d.o/e/"])
                if e == "" and "." in stem:
                    stem = "prog"
                cases.append(dict(ext=e, text=t, mode=m, path=d + stem + ("." + e if e else ""), stem=stem, bom=r.choice([b"\xef\xbb\xbf", b"\xff\xfe", b"\xfe\xff"]).hex()))
    exp = ctx.eval("Build", [{k: c[k] for k in ("ext", "text", "mode")} for c in cases], "Suffix")

    def one(i):
        c, e = cases[i], exp[i]
        d = ctx.dir()
        try:
            os.makedirs(os.path.dirname(d + "/" + c["path"]), exist_ok=True)
            t = b'extern int puts(const char*);\nint main(void){puts("RAN");return 7;}\n' + (b"int x = ;\n" if c["text"] == "bad" else b"")
            if c["text"] == "bom":
                b = bytes.fromhex(c["bom"])
                t = b + t if len(b) == 3 else b + t.decode().encode("utf-16-le" if b[0] == 255 else "utf-16-be")
            open(d + "/" + c["path"], "wb").write(t)
            top = os.listdir(d)
            want = {"exe": "out", "obj": c["stem"] + ".o"}.get(c["mode"])
            g = ctx.run([cjit, "-q"] + {"run": [], "exe": ["-o", "out"], "obj": ["-c"]}[c["mode"]] + [c["path"]], cwd=d)
            new = sorted(set(os.listdir(d)) - set(top))
            if e == "built":
                if c["mode"] == "run":
                    return None if g.rc == 7 and g.out == b"RAN\n" and not new else (g, new)
                if g.rc or g.out or new != [want]:
                    return g, new
                g = ctx.run(["./out"] if c["mode"] == "exe" else [cjit, "-q", want], cwd=d)
                return None if g.rc == 7 and g.out == b"RAN\n" else (g, "product")
            if e == "refused":
                return None if 0 < g.rc < 256 and not g.out and not new else (g, new)
            # unspecified, but not both ways
            return (g, new) if g.rc not in (0, 7) and (g.out or new) else None
        finally:
            shutil.rmtree(d, ignore_errors=True)
    res = ctx.pmap(one, range(len(cases)))
    ctx.traces(len(cases))
    for i, x in enumerate(res):
        if x and one(i):
            ctx.violation("suffix:" + cases[i]["ext"], "%s holding %s text, mode %s: expected %s; %r, new files %s" % (cases[i]["path"], cases[i]["text"], cases[i]["mode"], exp[i], *x), cases[i])


def check(ctx):
    ctx.model("MCBuild", "CONSTANTS MaxLen = %d\nUsedModes = {\"run\", \"exe\", \"obj\", \"exe_nospace\"}\n"
              "Used = {\"main\", \"mainf\", \"unitf\", \"dupf\", \"undef\", \"altonly\", \"syntax\", \"missing\", \"empty\"}" % (5 if ctx.thorough else 4),
              ["Safe", "RunClosed", "NothingLeft", "OrderFree"], ["Ends"] if ctx.thorough else [], extra_cfg="CHECK_DEADLOCK FALSE\n")
    cjit = ctx.build()
    base = ctx.dir("base")
    for k in list(SRC) + OTHER:
        t = text(k)
        p = os.path.join(base, name(k))
        if t is not None:
            open(p, "wb").write(t)
    open(base + "/t.c", "w").write(P % "o" + "int f(void);int o(void){return f();}\n")
    ctx.cc(base + "/gccobj.o", ["-c", base + "/t.c"], san=False)
    open(base + "/t.c", "w").write("int sh(void){return 1;}\n")
    ctx.cc(base + "/shlib.so", ["-shared", "-fPIC", base + "/t.c"], san=False)
    open(base + "/cjitobj.c", "w").write(P % "p" + "int p(void){return 1;}\n")
    r = ctx.run([cjit, "-c", "cjitobj.c"], cwd=base)
    if not os.path.exists(base + "/cjitobj.o"):
        return ctx.violation("cjitobj", "cjit -c of a valid source writes no object: %r" % r)
    for g in ("garbobj", "garbso", "garba"):
        open(base + "/" + name(g), "w").write("garbage, not an object\n" * 4)
    os.mkdir(base + "/direct.c")
    os.mkdir(base + "/dirnoext")
    os.symlink("nowhere.c", base + "/dangling.c")
    valid(ctx, cjit)
    names(ctx, cjit)
    suffixes(ctx, cjit)
    kinds = list(SRC) + OTHER
    ctx.assumptions.append("runs as root, so unreadable inputs are missing files, directories and dangling links, not permission errors")

    cases = []

    def add(ins, mode, entry="main", stdin=None):
        # -c takes a byte-order mark; the status of that is not specified
        if mode.startswith("obj") and any(i.startswith("bom") or i == "shlib" for i in ins):
            return
        if mode.startswith("exe") and "shlib" in ins:
            return
        cases.append(dict(ins=ins, mode=mode, entry=entry, stdin=stdin))

    for k in kinds:
        for m in MODES:
            add([k], m)
        add([k], "run", "alt")
    for a in kinds:
        for b in kinds:
            if a == b:
                continue
            add([a, b], "run")
            add([a, b], ctx.rng.choice(["exe", "exe", "exe_nospace", "objo", "obj"]))
            if a in ("mainalt", "altonly") or b in ("mainalt", "altonly"):
                add([a, b], "run", "alt")
    for k in PIPED:
        for m in ("run", "exe"):
            add([k], m, stdin=(0, True))
            add([k], m, stdin=(0, False))
        for b in ("main", "mainf", "unitf", "syntax", "missing", "mainalt"):
            if b != k:
                add([k, b], "run", stdin=(0, True))
                add([b, k], "run", stdin=(1, True))
                add([b, k], "exe", stdin=(1, True))
    good = [k for k in PURE]
    for _ in range(20000 if ctx.thorough else 2500):
        n = ctx.rng.choice([3, 3, 4, 5])
        if ctx.rng.random() < .6:  # mostly good with at most one bad
            ins = [ctx.rng.choice(["main", "mainf", "mainalt"])] + ctx.rng.sample([g for g in good if not g.startswith("main")], n - 1)
            if ctx.rng.random() < .5:
                b = ctx.rng.choice([k for k in kinds if k not in ins])
                ins[ctx.rng.randrange(n)] = b
        else:
            ins = ctx.rng.sample(kinds, n)
        ctx.rng.shuffle(ins)
        add(ins, ctx.rng.choice(["run", "run", "run", "exe", "exe_nodir", "obj"]), ctx.rng.choice(["main", "main", "main", "alt"]))

    exp = ctx.eval("Build", [dict(ins=c["ins"], mode=c["mode"], entry=c["entry"]) for c in cases], "Outcome")

    def one(i):
        c, e = cases[i], exp[i]
        d = ctx.dir()
        try:
            words, stdin = [], b""
            for n, k in enumerate(c["ins"]):
                if c["stdin"] and c["stdin"][0] == n:
                    stdin = text(k)
                    if c["stdin"][1]:
                        words.append("-")
                else:
                    words.append(name(k))
                    src = os.path.join(base, name(k))
                    if os.path.lexists(src):
                        if os.path.islink(src):
                            os.symlink("nowhere.c", d + "/" + name(k))
                        elif os.path.isdir(src):
                            os.mkdir(d + "/" + name(k))
                        else:
                            os.link(src, d + "/" + name(k))
            before = set(os.listdir(d))
            m = c["mode"]
            opts = {"exe": ["-o", "out.exe"], "exe_nospace": ["-o", "out.exe"], "exe_nodir": ["-o", "nodir/out.exe"], "obj": ["-c"],
                    "obj_nospace": ["-c"], "objo": ["-c", "-o", "out.o"], "objo_nodir": ["-c", "-o", "nodir/o.o"], "run": []}[m]
            if c["entry"] != "main":
                opts = opts + ["-e", c["entry"]]
            cmd = [cjit] + opts + words
            if m.endswith("nospace"):
                cmd = ["bash", "-c", "ulimit -f 0; trap '' XFSZ; exec \"$@\"", "x"] + cmd
            r = ctx.run(cmd, cwd=d, stdin=stdin)
            new = sorted(set(os.listdir(d)) - before)
            bad = []
            if r.timeout:
                bad.append("does not end")
            if e["status"] == "failure":
                if r.rc <= 0 or r.rc >= 256:
                    bad.append("exit status %d where the build must fail" % r.rc)
                if r.out:
                    bad.append("application code ran: %r" % r.out[:60])
                if new:
                    bad.append("files left behind: %s" % new)
            elif e["status"] == "success":
                want = {"exe": "out.exe", "objo": "out.o", "obj": c["ins"][0] + ".o"}[m]
                if r.rc != 0:
                    bad.append("exit status %d, expected 0" % r.rc)
                if new != [want]:
                    bad.append("files created: %s, expected %s" % (new, want))
                if r.out:
                    bad.append("output %r" % r.out[:60])
                if m == "exe" and not bad:
                    r2 = ctx.run(["./out.exe"], cwd=d)
                    if r2.rc != 7 or not r2.out.endswith(b"RAN\n"):
                        bad.append("the executable does not work: %r" % r2)
            else:
                rc, word = (9, b"RANALT\n") if c["entry"] == "alt" else (7, b"RAN\n")
                if r.rc != rc or not r.out.endswith(word):
                    bad.append("the program should have run: exit status %d output %r" % (r.rc, r.out[-60:]))
                if new:
                    bad.append("files created: %s" % new)
            return (bad, r, words, opts) if bad else None
        finally:
            shutil.rmtree(d, ignore_errors=True)

    res = ctx.pmap(one, range(len(cases)))
    ctx.traces(len(cases))
    for s in ("failure", "success", "application"):
        ctx.count("outcome_" + s, sum(1 for e in exp if e["status"] == s))
    ctx.sample(cases[17])
    ctx.sample(cases[-1])
    for i, r in enumerate(res):
        if r:
            r = one(i)
            if r:
                ctx.violation("%s:%s:%s" % (cases[i]["mode"], cases[i]["entry"], "+".join(cases[i]["ins"])),
                              "cjit %s %s (%s)\n%s\n%r" % (" ".join(r[3]), " ".join(r[2]), cases[i], "; ".join(r[0]), r[1]), cases[i])
