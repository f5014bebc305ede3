"""C01: options, inputs and application arguments (spec/Cli.tla)."""
import os, itertools, shutil

TECHNIQUE = "TLA+ spec of the command line scanner, TLC model checking, replay of TLC-predicted command lines into cjit"
LEVEL = "model_checking"
NOTE = ("The scanner machine is model checked exhaustively for all lines of up to 4-5 words over a 16 word alphabet; thousands of "
        "real command lines (exhaustive small ones, random long ones) are run and everything the program, the file system and the exit "
        "status show is compared with what TLC computes from the specification.")

MAIN = r'''
extern int printf(const char*,...);
extern int qv(void) __attribute__((weak));
extern int rv(void) __attribute__((weak));
char order[64]; int n;
static void __attribute__((constructor)) k(void){order[n++]='%(letter)s';}
#define S_(x) #x
#define S(x) S_(x)
#if __has_include(<h1.h>)
#include <h1.h>
#endif
#if __has_include(<h2.h>)
#include <h2.h>
#endif
#ifndef H1
#define H1 none
#endif
#ifndef H2
#define H2 none
#endif
static int body(const char *e,int c,char**v){
 int i; printf("entry %%s\norder %%s\n",e,order);
#ifdef A
 printf("A %%s\n",S(A));
#else
 printf("A -\n");
#endif
#ifdef B
 printf("B %%s\n",S(B));
#else
 printf("B -\n");
#endif
#ifdef s
 printf("s %%s\n",S(s));
#else
 printf("s -\n");
#endif
#ifdef ZC
 printf("ZC\n");
#endif
 printf("h1 %%s\nh2 %%s\n",S(H1),S(H2));
 printf("q %%d\nr %%d\n",qv?qv():0,rv?rv():0);
 printf("argc %%d %%d\n",c,v[c]==0);
 for(i=0;i<c;i++){unsigned char*p=(unsigned char*)v[i];printf("arg ");while(*p)printf("%%02x",*p++);printf("\n");}
 return 3;
}
int main(int c,char**v){return body("main",c,v);}
int alt(int c,char**v){return body("alt",c,v);}
int f2(int c,char**v){return body("f2",c,v);}
'''
UNIT = "extern char order[64]; extern int n;\nstatic void __attribute__((constructor)) k(void){order[n++]='%s';}\n"
UNITS = {"a.c": "a", "b.c": "b", "sub/x.c": "x", "y-1.c": "y", "m.c": "m"}
HDR = [["i1", "i2"], ["i2", "i3"]]
LIBS = [dict(name="q", dirs=["l1", "l2"]), dict(name="r", dirs=["l2"])]
LIBVAL = {("q", "l1"): 11, ("q", "l2"): 12, ("r", "l2"): 22}

TOLER = ["-g", "-g3", "-ggdb", "-O", "-O2", "-Os", "-s", "-shared", "-static-libgcc", "-Wall", "-W", "-Werror", "-fPIC", "-fno-common",
         "-MD", "-M", "-f", "-Wl,--as-needed", "-pedantic", "-fvisibility=hidden", "-O3", "-Wno-unused"]
APPW = ["", "x", "-g", "--", "-D", "--verb", "-O2", "a b", "\xc3\xa9", "\x01\n", "-e", "m.c", "'\"", "*", "%s%n", "-", "-c", "-o", "out",
        "-h", "-Wall", "-fx", "--xass", "\\", "=", "-p", "-s", "-v"]


def chars(w):
    return list(w)


def items():
    """small alphabet for exhaustive enumeration: lists of words"""
    return [["-g"], ["-O2"], ["-s"], ["-Wall"], ["-W"], ["-D", "A"], ["-DA=7"], ["-DB"], ["-D", "s"], ["-I", "i1"], ["-Ii2"], ["-e", "alt"],
            ["-ef2"], ["-p", "p1"], ["-p", "-s"], ["-q"], ["--verb"], ["a.c"], ["-Ll1"], ["-lq"], ["-C", "-DZC=5"], ["-f"], ["-shared"], ["-v"]]


def gen(rng, thorough):
    it = items()
    cases = []
    tails = [[], ["--"], ["--", "x", "-g"], ["--", "--", "-Dq"]]
    for k in range(0, 3):
        for combo in itertools.product(it, repeat=k):
            for pos in range(k + 1):
                if k == 2 and not thorough and rng.random() > 0.5:
                    continue
                words = []
                for i, c in enumerate(combo):
                    if i == pos:
                        words.append("m.c")
                    words += c
                if pos == k:
                    words.append("m.c")
                if sum(1 for w in words if w == "a.c") > 1:
                    continue
                cases.append(dict(words=words + tails[rng.randrange(4)] if k == 2 else words, stdin=None))
                if k < 2:
                    for t in tails[1:]:
                        cases.append(dict(words=words + t, stdin=None))
    n = 12000 if thorough else 2500
    for _ in range(n):
        mode = rng.choice(["run"] * 7 + ["exe", "exe", "obj"])
        ws = []
        opts = []
        ni = rng.randrange(0, 4)
        for _ in range(rng.randrange(0, 7)):
            k = rng.randrange(13)
            if k < 4:
                opts.append([rng.choice(TOLER)])
            elif k == 4:
                v = rng.choice(["A", "B", "A=1", "A=xy_z", "B=2", "A=", "s", "s=O2", "B=g"])
                opts.append(["-D", v] if rng.random() < .5 else ["-D" + v])
            elif k == 5 or k == 6:
                v = rng.choice(["i1", "i2", "i3", "nodir", "./i1", "sub"])
                opts.append(["-I", v] if rng.random() < .5 else ["-I" + v])
            elif k == 7 and mode == "run":
                opts.append(rng.choice([["-e", "alt"], ["-ef2"], ["-e", "main"], ["-e", "f2"]]))
            elif k == 8 and mode == "run":
                opts.append(rng.choice([["-p", "p1"], ["-pp2"], ["-p", "-s"], ["-p", "-O2"], ["-p", "pid file"], ["-p", "-g"], ["-p", "m.pid.c"]]))
            elif k == 9:
                opts.append(rng.choice([["-q"], ["--verb"], ["-v"], ["-g"]]))
            elif k == 10 and mode == "run":
                v = rng.choice(["l1", "l2"])
                opts.append(["-L", v] if rng.random() < .5 else ["-L" + v])
            elif k == 11 and mode == "run":
                v = rng.choice(["q", "r"])
                opts.append(["-l", v] if rng.random() < .5 else ["-l" + v])
            elif k == 12:
                opts.append(rng.choice([["-C", "-DZC=5"], ["-C-DZC"]]))
        # a -l needs some directory that has the library, see C05 for the others
        ls = [o for o in opts if o[0].startswith("-l")]
        if ls and not any(o in (["-Ll2"], ["-L", "l2"]) for o in opts):
            opts.append(["-L", "l2"])
        ins = ["m.c"]
        if mode != "obj":
            ins += rng.sample(["a.c", "b.c", "sub/x.c", "y-1.c"], ni)
        rng.shuffle(ins)
        stdin = None
        if mode == "run" and rng.random() < .2:
            stdin = "main" if rng.random() < .5 else "z"
            if stdin == "main":
                ins[ins.index("m.c")] = "-"
                if len(ins) == 1 and rng.random() < .6:
                    ins = []
            else:
                ins.insert(rng.randrange(len(ins) + 1), "-")
        if mode == "exe":
            opts.append(rng.choice([["-o", "exe"], ["-oe2"], ["-o", "-s"], ["-o", "-O2"], ["-o", "out file"], ["-o", "sub/e"]]))
        if mode == "obj":
            opts.append(["-c"])
            if rng.random() < .6:
                opts.append(rng.choice([["-o", "t.o"], ["-oq.o"], ["-o", "sub/w.o"], ["-o", "-g"]]))
        rng.shuffle(opts)
        slots = [[x] for x in ins]
        seq = opts[:]
        # inputs keep their order but are interleaved with options
        poss = sorted(rng.randrange(len(seq) + 1) for _ in slots)
        for p, s in reversed(list(zip(poss, slots))):
            seq.insert(p, s)
        for s in seq:
            ws += s
        if mode == "run" and rng.random() < .6 or mode != "run" and rng.random() < .3:
            ws.append("--")
            for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 9])):
                ws.append(rng.choice(APPW) if rng.random() < .8 else "".join(chr(rng.randrange(1, 256)) for _ in range(rng.randrange(1, 9))))
            if rng.random() < .05:
                ws.append("L" * 6000)
        cases.append(dict(words=ws, stdin=stdin, env={"CFLAGS": "-DZC=1"} if rng.random() < .05 else {}))
    return cases


def check(ctx):
    ctx.model("MCCli", "CONSTANT N = %d" % (5 if ctx.thorough else 4), ["AppExact", "Accounted", "InputsOrdered", "IgnoredHarmless"], ["AppInert"],
              extra_cfg="CHECK_DEADLOCK FALSE\n")
    cjit = ctx.build()
    base = ctx.dir("base")
    for f, l in UNITS.items():
        os.makedirs(os.path.dirname(os.path.join(base, f)), exist_ok=True)
        open(os.path.join(base, f), "w").write(MAIN % dict(letter="m") if f == "m.c" else UNIT % l)
    for h, ds in enumerate(HDR):
        for d in ds:
            os.makedirs(base + "/" + d, exist_ok=True)
            open(base + "/%s/h%d.h" % (d, h + 1), "w").write("#define H%d %s\n" % (h + 1, d))
    for l in LIBS:
        for d in l["dirs"]:
            os.makedirs(base + "/" + d, exist_ok=True)
            src = base + "/%s.lib" % l["name"]
            open(src, "w").write("int %sv(void){return %d;}\n" % (l["name"], LIBVAL[l["name"], d]))
            ctx.cc(base + "/%s/lib%s.so" % (d, l["name"]), ["-xc", src], ["-shared", "-fPIC"], san=False)
            os.unlink(src)
    ctx.run([cjit, "-q", "a.c", "m.c"], cwd=base)  # assets
    cases = gen(ctx.rng, ctx.thorough)
    arg = [dict(words=[chars(w) if len(w) < 100 else [w] for w in c["words"]],
                macros=[["A"], ["B"], ["s"]],
                headers=[[chars(x) for d in ds for x in (d, "./" + d)] for ds in HDR],
                libs=[dict(name=chars(l["name"]), dirs=[chars(d) for d in l["dirs"]]) for l in LIBS]) for c in cases]
    exp = ctx.eval("Cli", arg, "Expect")
    J = "".join

    def expected(e, argv0, extra_argv=None, order=None, env=None):
        out = []
        out.append("entry " + J(e["entry"]))
        out.append("order " + order)
        for n, m in zip("ABs", e["macros"]):
            out.append("%s %s" % (n, J(m["val"]) if m["def"] else "-"))
        if e["cflags"] or env:
            out.append("ZC")
        for n, h in zip((1, 2), e["headers"]):
            out.append("h%d %s" % (n, J(h).replace("./", "") or "none"))
        for l, d in zip(LIBS, e["libs"]):
            out.append("%s %d" % (l["name"], LIBVAL[l["name"], J(d)] if d else 0))
        args = ([argv0] if argv0 is not None else []) + (e["argv"] if extra_argv is None else extra_argv)
        args = [J(a).encode("latin-1").hex() for a in args]
        return out, args

    def letters(e, c):
        r = ""
        for i in e["inputs"]:
            i = J(i)
            r += ("m" if c["stdin"] == "main" else "z") if i == "-" else UNITS[i]
        if not e["inputs"]:
            r = "m"
        return r

    def one(ix):
        c, e = cases[ix], exp[ix]
        if not e["ok"]:
            return None
        d = ctx.dir()
        try:
            for f in UNITS:
                os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
                os.link(os.path.join(base, f), os.path.join(d, f))
            for x in ("i1", "i2", "i3", "l1", "l2"):
                os.symlink(base + "/" + x, d + "/" + x)
            before = {os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs}
            stdin = {"main": MAIN % dict(letter="m"), "z": UNIT % "z", None: ""}[c["stdin"]].encode()
            r = ctx.run([cjit] + [w.encode("latin-1") for w in c["words"]], cwd=d, stdin=stdin, env=c.get('env'))
            new = {os.path.relpath(os.path.join(q, f), d): os.path.join(q, f) for q, _, fs in os.walk(d) for f in fs
                   if os.path.join(q, f) not in before}
            bad = []
            J_ = "".join
            argv0 = e["argv0"] if e["inputs"] else None
            want_files = set()
            if e["mode"] == "status":
                if r.rc != 0 or r.out or new:
                    bad.append("-v alone: exit status %d, output %r, files %s" % (r.rc, r.out[:100], sorted(new)))
                return (bad, r) if bad else None
            order = letters(e, c)
            if e["mode"] == "run":
                want, args = expected(e, argv0, order=order, env=c.get('env'))
                got = r.out.decode("latin-1").split("\n")
                if r.rc != 3:
                    bad.append("exit status %d, expected the program's 3" % r.rc)
                bad += compare(got, want, args, argv0 is None)
                if e["pid"]:
                    want_files.add(J_(e["pid"]))
                    p = os.path.join(d, J_(e["pid"]))
                    if os.path.exists(p) and not open(p).read().strip().isdigit():
                        bad.append("pid file has %r" % open(p).read())
            else:
                if r.rc != 0:
                    bad.append("exit status %d, expected 0" % r.rc)
                if r.out:
                    bad.append("output %r" % r.out[:100])
                if e["mode"] == "exe":
                    f = J_(e["out"])
                    want_files.add(f)
                    if f in new:
                        r2 = ctx.run(["./" + f, "p q", "-x"], cwd=d)
                        want, args = expected(e, list("./" + f), [list("p q"), list("-x")], order, c.get('env'))
                        if r2.rc != 3:
                            bad.append("executable exits %d" % r2.rc)
                        bad += compare(r2.out.decode("latin-1").split("\n"), want, args, False)
                else:
                    f = J_(e["out"]) or "m.o"
                    want_files.add(f)
                    if f in new:
                        os.rename(new[f], d + "/zz.o")
                        r2 = ctx.run([cjit, "zz.o", "--", "k"], cwd=d)
                        want, args = expected(e, list("zz.o"), [["k"]], order, c.get('env'))
                        if r2.rc != 3:
                            bad.append("object exits %d %r" % (r2.rc, r2.err[-200:]))
                        bad += compare(r2.out.decode("latin-1").split("\n"), want, args, False)
            if set(new) != want_files:
                bad.append("files created %s, expected %s" % (sorted(new), sorted(want_files)))
            hasver = b"cjit version" in r.err
            if e["mode"] in ("run", "exe") and hasver != e["verbose"]:
                bad.append("version line %s, --verb %s" % (hasver, e["verbose"]))
            return (bad, r) if bad else None
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def compare(got, want, args, skip0):
        bad = []
        lines = [g for g in got if g and not g.startswith("arg")]
        if lines != want:
            bad.append("program saw %s, expected %s" % ([a for a in lines if a not in want][:6], [a for a in want if a not in lines][:6] or "other order"))
        ga = [g[4:] for g in got if g.startswith("arg ")]
        n = [g.split() for g in got if g.startswith("argc ")]
        if not n or int(n[0][1]) != len(ga) or n[0][2] != "1":
            bad.append("argc line %s with %d arguments" % (n, len(ga)))
        if (ga[1:] if skip0 else ga) != args:
            bad.append("argv (hex) %s, expected %s" % (ga[:12], args[:12]))
        return bad

    idx = [i for i in range(len(cases)) if exp[i]["ok"]]
    res = ctx.pmap(one, idx)
    ctx.traces(len(idx))
    ctx.sample(dict(words=cases[idx[len(idx) // 2]]["words"], expected=exp[idx[len(idx) // 2]]["mode"]))
    ctx.sample(dict(words=cases[idx[-1]]["words"], expected=exp[idx[-1]]["mode"]))
    for m in ("run", "exe", "obj"):
        ctx.count("mode_" + m, sum(1 for i in idx if exp[i]["mode"] == m))
    for i, r in zip(idx, res):
        if r:
            r2 = one(i)
            if r2:
                ctx.violation("cmdline", "cjit %s\n%s\n%r" % (cases[i]["words"], "\n".join(r2[0]), r2[1]), cases[i])
