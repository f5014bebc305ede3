"""C05: -l resolves each library to the file the search rules name (spec/Libs.tla)."""
import os, shutil, itertools

TECHNIQUE = "TLA+ spec of the library search, TLC model checking, replay of TLC-predicted resolutions into cjit"
LEVEL = "model_checking"
NOTE = ("The search machine is model checked over all placements of two names in 3-4 directories; random and exhaustive small placements of real shared "
        "libraries, links (chained, dangling, looping, relative, absolute, long) and linker scripts over -L, current and configured directories are resolved by "
        "the real cjit (system configuration redirected to scratch) and which files are loaded in which order is compared with what TLC computes.")

SHIM = r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
typedef void DIR;
static const char *re(const char *p, char *b) {
  const char *root = getenv("VF_CONF");
  if (root && p && !strncmp(p, "/etc/ld.so.conf", 15)) { snprintf(b, 4096, "%s%s", root, p + 4); return b; }
  return p; }
#define R(t,n) t (*r)() = dlsym(RTLD_NEXT, n); char b[4096];
FILE *fopen(const char *p, const char *m) { R(FILE*,"fopen") return r(re(p,b), m); }
FILE *fopen64(const char *p, const char *m) { R(FILE*,"fopen64") return r(re(p,b), m); }
int open(const char *p, int f, ...) { va_list a; va_start(a,f); int m=va_arg(a,int); va_end(a); R(int,"open") return r(re(p,b), f, m); }
int open64(const char *p, int f, ...) { va_list a; va_start(a,f); int m=va_arg(a,int); va_end(a); R(int,"open64") return r(re(p,b), f, m); }
int openat(int d, const char *p, int f, ...) { va_list a; va_start(a,f); int m=va_arg(a,int); va_end(a); R(int,"openat") return r(d, re(p,b), f, m); }
DIR *opendir(const char *p) { R(DIR*,"opendir") return r(re(p,b)); }
int scandir(const char *p, void *l, void *f, void *c) { R(int,"scandir") return r(re(p,b), l, f, c); }
int scandir64(const char *p, void *l, void *f, void *c) { R(int,"scandir64") return r(re(p,b), l, f, c); }
"""
IDS = ["i%d" % i for i in range(14)]
NAMES = ["liba.so", "libb.so", "libcc.so", "lib3d.so", "libx-y_z.1.so"]
LONG = "l" * 120
# names that agree for long
FAR = ["lib%s.so" % n for n in ["n" * 70, "n" * 70 + "a", "n" * 70 + "b", "m" * 200 + "1", "m" * 200 + "2", "m" * 200, "a.so", "aa", "a-b", "A", "n" * 33, "n" * 64, "n" * 65]]


def render_script(rng, items, where):
    """Text of a linker script loading the items in order."""
    def it(i):
        if i["how"] == "abs":
            return where(i["dir"]) + "/" + i["name"]
        if i["how"] == "l":
            return "-l" + i["name"][3:-3]
        return i["name"]
    sep = lambda: rng.choice([" ", "  ", "\n", "\t", " , ", " /* c, ) */ ", " /**/ ", " /***/ ", " /* a **/", " /* / * x ***/ ", " /*/ */"])
    out = rng.choice(["", "/* GNU ld script\n   Use the shared library. */\n", "OUTPUT_FORMAT(elf64-x86-64)\n", "\n\n", "/*** boxed ***/\n", "/* GNU ld script **/",
                      "/* " + "long comment " * 12 + "*/ OUTPUT_FORMAT ( elf64-x86-64 )\n"])
    k = 0
    while k < len(items) or (k == 0 and not items):
        n = rng.randint(1, max(1, len(items) - k))
        part = items[k:k + n]
        k += max(n, 1)
        cmd = rng.choice(["INPUT", "GROUP"])
        out += cmd + rng.choice(["(", " (", "( ", "(\n"])
        if len(part) > 1 and rng.random() < .5:
            j = rng.randrange(1, len(part))
            out += sep().join(it(i) for i in part[:j]) + " AS_NEEDED" + rng.choice(["(", " ( "]) + sep().join(it(i) for i in part[j:]) + rng.choice([")", " )"]) + " "
        elif part and rng.random() < .15:
            out += "AS_NEEDED(" + sep().join(it(i) for i in part) + ")"
        else:
            out += sep().join(it(i) for i in part)
        out += rng.choice([")", " )", "\n)"]) + rng.choice(["", "\n", " ", " /* end */\n", "/* end **/"])
    return out + rng.choice(["", "", "/* not closed", "/* end **/\n"])


def check(ctx):
    ctx.model("MCLibs", "CONSTANTS\nNConf = 1\nDirs = {%s}\n" % ", ".join('"d%d"' % i for i in range(4 if ctx.thorough else 3)),
              ["Agrees", "Sound", "First", "Total"], extra_cfg="CHECK_DEADLOCK FALSE\n")
    cjit = ctx.build()
    base = ctx.dir("base")
    open(base + "/shim.c", "w").write(SHIM)
    ctx.cc(base + "/shim.so", ["-shared", "-fPIC", base + "/shim.c", "-ldl"], san=False)
    for i in IDS:
        open(base + "/t.c", "w").write('extern long write(int,const void*,unsigned long);\n__attribute__((constructor)) static void k(void){write(1,"L%s\\n",%d);}\n'
                                       'const char *which(void){return "%s";}\n' % (i, len(i) + 2, i))
        ctx.cc(base + "/" + i, ["-shared", "-fPIC", "-Wl,-soname,%s.so" % i, base + "/t.c"], san=False)
    rng = ctx.rng
    cases = []
    DIRS = ["A", "B", "C", "W", "S1", "S2", "T"]

    def elf(d, n, i):
        return dict(dir=d, name=n, kind="elf", id=i, todir="", toname="", items=[], rel=False)

    def link(d, n, td, tn, rel):
        return dict(dir=d, name=n, kind="link", id="", todir=td, toname=tn, items=[], rel=rel)

    def dirn(d, n):
        return dict(dir=d, name=n, kind="dir", id="", todir="", toname="", items=[], rel=False)

    def script(d, n, items):
        return dict(dir=d, name=n, kind="script", id="", todir="", toname="", items=items, rel=False)

    # exhaustive: one name over -L, cwd and configured directories
    opts = ["none", "elf", "abslink", "rellink", "dangling", "dir", "script"]
    for combo in itertools.product(opts, repeat=3):
        fs = [elf("T", "real.so", "i9"), elf("T", "libq.so", "i8")]
        for d, o, i in zip(["A", "W", "S1"], combo, IDS):
            fs += {"none": [], "elf": [elf(d, "liba.so", i)], "abslink": [link(d, "liba.so", "T", "real.so", False)],
                   "rellink": [link(d, "liba.so", "T", "real.so", True)], "dangling": [link(d, "liba.so", "T", "gone.so", True)],
                   "dir": [dirn(d, "liba.so")], "script": [script(d, "liba.so", [dict(how="abs", dir="T", name="libq.so")])]}[o]
        cases.append(dict(fs=fs, L=["A"], cwd="W", conf=["S1"], libs=["liba.so"]))
    for _ in range(12000 if ctx.thorough else 2500):
        dirs = DIRS
        pool = NAMES if rng.random() < .7 else NAMES[:1] + rng.sample(FAR, 4)
        ids = list(IDS)
        rng.shuffle(ids)
        fs, seen = [], set()
        n = rng.randint(2, 12)
        elfs = 0
        while n:
            n -= 1
            d, nm = rng.choice(dirs), rng.choice(pool + ["real.so", "libc2.so.6", LONG + ".so"])
            if (d, nm) in seen:
                continue
            seen.add((d, nm))
            r = rng.random()
            if r < .45:
                if elfs < len(ids):
                    fs.append(elf(d, nm, ids[elfs]))
                    elfs += 1
            elif r < .75:
                td, tn = rng.choice(dirs), rng.choice(pool + ["real.so", LONG + ".so"])
                fs.append(link(d, nm, td, tn, rng.random() < .5))
            elif r < .8:
                fs.append(dirn(d, nm))
            elif nm in pool:
                items = []
                for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4])):
                    h = rng.choice(["abs", "rel", "l"])
                    items.append(dict(how=h, dir=rng.choice(dirs) if h == "abs" else "", name=rng.choice(pool if h == "l" else ["real.so", "libc2.so.6"] + pool[:2] + pool[2:3])))
                fs.append(script(d, nm, items))
        L = [rng.choice(["A", "B", "C"]) for _ in range(rng.randint(0, 4))]
        conf = rng.sample(["S1", "S2"], rng.randint(0, 2))
        libs = [rng.choice(pool) for _ in range(rng.randint(1, 3))]
        cases.append(dict(fs=fs, L=L, cwd="W", conf=conf, libs=libs))

    # a script reached through a script is not the business of this property
    def nested(c):
        def op(d, n, k=20):
            for e in c["fs"]:
                if e["dir"] == d and e["name"] == n:
                    return op(e["todir"], e["toname"], k - 1) if e["kind"] == "link" and k else e
            return None
        for e in c["fs"]:
            for i in e["items"]:
                for d in ([i["dir"]] if i["how"] == "abs" else c["L"] + [c["cwd"]] + c["conf"]):
                    t = op(d, i["name"])
                    if t and t["kind"] in ("script", "dir"):
                        return True
        return False
    cases = [c for c in cases if not nested(c)]
    exp = ctx.eval("Libs", [dict(fs=[{k: v for k, v in e.items() if k != "rel"} for e in c["fs"]], L=c["L"], cwd=c["cwd"], conf=c["conf"], libs=c["libs"]) for c in cases], "Outcome")
    seeds = [rng.random() for _ in cases]
    import random

    def one(n):
        c, e = cases[n], exp[n]
        r = random.Random(seeds[n])
        root = ctx.dir()
        try:
            deep = "/".join(["p" * 60] * 5) if r.random() < .1 else ""
            where = lambda d: os.path.join(root, deep, d) if deep and d in ("A", "S1") else os.path.join(root, d)
            for d in DIRS:
                os.makedirs(where(d))
            for f in c["fs"]:
                p = where(f["dir"]) + "/" + f["name"]
                if f["kind"] == "elf":
                    os.link(base + "/" + f["id"], p)
                elif f["kind"] == "dir":
                    os.mkdir(p)
                elif f["kind"] == "link":
                    t = where(f["todir"]) + "/" + f["toname"]
                    if f["rel"]:
                        t = os.path.relpath(where(f["todir"]), where(f["dir"])) + "/" + f["toname"]
                        if r.random() < .3:
                            t = "./" * r.choice([1, 5, 80]) + t
                    os.symlink(t, p)
                else:
                    open(p, "w").write(render_script(r, f["items"], where))
            etc = root + "/etc"
            os.makedirs(etc + "/ld.so.conf.d")
            conf = [where(d) for d in c["conf"]]
            cut = r.randint(0, len(conf))
            noise = lambda: r.choice(["", "", "# comment\n", "\n", "include /etc/ld.so.conf.d/*.conf\n", "# /etc/x\n"])
            open(etc + "/ld.so.conf", "w").write(noise() + "".join(x + "\n" + noise() for x in conf[:cut]))
            rest = conf[cut:]
            names = sorted(r.sample(["00a.conf", "10-b.conf", "b.conf", "z.conf", "a b.conf"], 3))
            k = 0
            for nm in names:
                take = len(rest) - k if nm == names[-1] else r.randint(0, len(rest) - k)
                body = noise() + "".join(x + "\n" for x in rest[k:k + take]) + noise()
                if r.random() < .3 and body.endswith("\n"):
                    body = body[:-1]
                k += take
                open(etc + "/ld.so.conf.d/" + nm, "w").write(body)
            cwd = where("W")
            prog = 'extern int puts(const char*);const char *which(void);int main(void){puts(%s);return 0;}\n' % ("which()" if e["loaded"] else '"none"')
            open(cwd + "/m.c", "w").write(prog)
            words = []
            for d in c["L"]:
                p = where(d)
                p = r.choice([p, os.path.relpath(p, cwd), "./" + os.path.relpath(p, cwd), p + "/", p + "/../" + d, p + "//."])
                words.append(["-L" + p] if r.random() < .5 else ["-L", p])
            for l in c["libs"]:
                nm = l[3:-3]
                words.append(["-l" + nm] if r.random() < .5 else ["-l", nm])
            # options of one kind keep their order, the kinds are mixed
            a, b = words[:len(c["L"])], words[len(c["L"]):]
            mixed = []
            while a or b:
                mixed += (a if a and (not b or r.random() < .5) else b).pop(0)
            exe = bool(e["loaded"]) and not e["open"] and r.random() < .2
            pos = r.choice([0, 1])
            argv = [cjit, "-q"] + (["-o", "m.exe"] if exe else []) + ((["m.c"] + mixed) if pos else (mixed + ["m.c"]))
            g = ctx.run(argv, cwd=cwd, env=dict(LD_PRELOAD=base + "/shim.so", VF_CONF=root + "/etc"))
            bad = []
            out = g.out.decode("latin-1").split("\n")
            loaded = []
            for l in out:
                if l.startswith("L") and l[1:] not in loaded:
                    loaded.append(l[1:])
            want = e["loaded"]
            ok = loaded[:len(want)] == want if e["open"] else loaded == want
            if not exe:
                if not ok:
                    bad.append("files loaded: %s, expected %s" % (loaded, want))
                elif want and not e["open"] and want[0] not in out:
                    bad.append("the symbol binds to %s, expected %s" % (out, want[0]))
                if g.rc != 0 and not e["open"]:
                    bad.append("exit status %d" % g.rc)
            elif not bad:
                q = ctx.run(["readelf", "-d", "m.exe"], cwd=cwd)
                need = [x.split("[")[1].split("]")[0][:-3] for x in q.out.decode("latin-1").split("\n") if "NEEDED" in x and "[i" in x]
                if need != want:
                    bad.append("libraries the executable needs: %s, expected %s" % (need, want))
            for m in e["missing"]:
                if m.encode() not in g.err:
                    bad.append("%s is not found, and not reported" % m)
            if not e["missing"] and not exe and b"not found" in g.err:
                bad.append("reports a library as not found")
            return (bad, g, argv) if bad else None
        finally:
            shutil.rmtree(root, ignore_errors=True)

    res = ctx.pmap(one, range(len(cases)))
    for n, x in enumerate(res):
        if x and one(n):
            bad, g, argv = x
            ctx.violation("resolve", "; ".join(bad) + "\n%s\n%r\n-L %s cwd %s conf %s libs %s" % (argv[1:], g, cases[n]["L"], cases[n]["cwd"], cases[n]["conf"], cases[n]["libs"]),
                          dict(case=cases[n], expected=exp[n], argv=argv))
    ctx.traces(len(cases))
    ctx.count("resolutions", len(cases))
    ctx.count("with_scripts", sum(any(f["kind"] == "script" for f in c["fs"]) for c in cases))
    ctx.sample(dict(case=cases[400], expected=exp[400]))
