"""C16: sessions follow their protocol and do not disturb each other (spec/Sess.tla)."""
import os, random, shutil
import vf

TECHNIQUE = "TLA+ specification of compiler sessions, non-interference model checked over all interleavings, random histories replayed through the libtcc and cjit APIs (sequentially and with a thread per session)"
LEVEL = "model_checking"
NOTE = ("The session state machine is specified in TLA+ (macros, include path, options, host symbols, definitions, variables, phases, shared object files); that each session shows what it shows alone is model checked over all interleavings to a depth; "
        "random histories of up to four sessions, with compilation errors of many kinds in between, are replayed in one process and every result, symbol list and error callback compared.")

# texts that do not compile; whatever they leave behind must not show elsewhere
BAD = r'''
int q_e(void) { return 1 +; }
int q_e(int n) { if (n) { for (;;) { switch (n) { case 1: undefined_thing; } } } }
#if 1
int q_e;
---
int q_e; /* open
---
char *q_e = "abc
;
---
#pragma pack(push, 1)
struct P { char c; int a : 99; };
---
int q_e(void) { int v[q_n]; }
---
#define F(a,b) a b
int q_e = F(1, 2;
---
#if (1 +
#endif
---
#if 1 / 0
#endif
---
#if 1
#if 0
#else
#error stop
---
#pragma pack(push, 1)
struct S { char c; int i; };
#pragma pack(push, 2)
int y = @;
---
#error stop
---
#include "nofile.h"
---
int q_e(void) { __label__ l; goto nolabel; }
---
int q_e(void) { int x __attribute__((cleanup(3))) = 1; return x; }
---
static int t[] = { [5] = 1, [2 ... 1] = 3 };
---
int a[-1];
---
typedef int T; T T x;
---
int q_e(void) { asm("bogus %0" : : "r"(1)); return 0; }
---
asm(".bogusdirective 12");
---
asm(".section .data\n .pushsection .text\n bogus");
---
int q_e(void) { return ({ int z = 3; z + w; }); }
---
int q_f(void); int q_e(void) { static int s = q_f(); return s; }
---
void q_e(int n) { { int v[n]; { int w[n]; in: ; } zz } }
---
#define LEAK 1
#define CH(x) ((x) + 100)
#pragma push_macro("LEAK")
#undef LEAK
foo bar baz;
---
#define LEAK 2
typedef char T; enum { E = 77, LE }; struct S { long a, b, c; };
int q_e(void) { T x = 1; x(; }
---
_Static_assert(0, "x");
---
int x = 1; int x = 2;
---
int q_f(int); double q_f(int);
---
void q_e(void) { break; }
---
"
---
int q_e(void) { int i = 0; return i ? (i + (i * (i - (undefined1)))) : sizeof(struct nowhere); }
---
int q_e(int n) { void *p = &&lab; int __attribute__((cleanup(q_c))) c; goto *p; lab: return (n, ; }
---
struct S { int a; struct { int b; } ; int a; };
---
int q_e(double d) { long double l = d; return l % 2; }
---
int q_e(void) { return sizeof(int[({ int k; k k; })]); }
---
static struct { int *p; } s = { &(int){ 3 }, .q = 4 };
---
#define R(x) R2(x
int q_e = R(R(1));
---
int q_e(void) { char *s = "a" "b" L"c" ; return u8; }
---
int q_e(void) { switch (1) { case 1: case 1: ; } return 0; }
---
void q_e(void) { int a; a.b = 1; }
---
void q_e(void) { const int a; a = 1; 3 = a; }
---
#line 777 "elsewhere.c"
#pragma once
int q_e = ;
---
int __attribute__((aligned(3))) q_e;
---
#undef __TINYC__
#define int long
#define return
int q_e(void) { ( }
---
__typeof__(nothing) q_e;
---
inline int q_i(void) { return 1; } int q_e(void) { return q_i() + nothing; }
---
int q_e(void) { _Generic(1, char: 2); }
'''


def bads():
    xs = [x.strip("\n") + "\n" for x in BAD.strip("\n").replace("---\n", "\x00").split("\x00")]
    first = xs[0].split("\n")
    return [first[0] + "\n", first[1] + "\n", "\n".join(first[2:])] + xs[1:]


# code that is 0 where nothing has leaked in: a little of everything
DETECT = r'''
  r += __COUNTER__ * 10 + __COUNTER__ - 1;
---
  { struct K { char c; int i; }; r += sizeof(struct K) - 8; }
---
#ifdef LEAK
  r += 1;
#endif
#ifdef CH
  r += 2;
#endif
---
  { int n = 3, v[n]; for (int i = 0; i < n; i++) v[i] = i; r += v[0] + v[1] + v[2] + sizeof v - 15; }
---
  { int k = 0; { void *p = &&l1; goto *p; k = 5; l1:; } r += k; }
---
  { int k; switch (r + 7) { case 7: k = 0; break; case 8 ... 12: k = 1; break; default: k = 0; } r += k; }
---
  r += ({ int z = 3; z - 3; });
---
  { static const int *t[] = { (int[]){ 4, 5 }, 0 }; r += 0 * (t[0] != 0); }
---
#if 3 > 2 && defined __TINYC__ && !defined elsewhere
#else
  r += 1;
#endif
---
  { double d = 1.5; long double l = d * 2; r += (int)(l - 3); }
---
  { const char s[] = "ab" "c"; r += sizeof s - 4 + s[2] - 'c'; }
---
  { int a = 4; asm("addl $3, %0" : "+r"(a)); r += a - 7; }
---
  { struct { unsigned a : 3; int b : 5; } x = { .b = -2, .a = 7 }; r += x.a + x.b - 5; }
---
#pragma push_macro("ZZ")
#define ZZ(x, ...) (x) + 0 ## __VA_ARGS__
  r += ZZ(-3, 3);
#pragma pop_macro("ZZ")
#ifdef ZZ
  r += 5;
#endif
---
  { typedef struct T { int q; } T; T x = { 0 }; r += x.q; }
---
  { enum { E, E2 }; r += E; }
---
  { int a[2][3] = { { 1 }, { [1] = 2 } }; r += a[0][0] + a[1][1] + a[1][2] - 3; }
---
  r += __LINE__ - __LINE__ + (sizeof(__FILE__) != sizeof UNIT) + (__FILE__[0] != 'u');
---
  { int i = 2; do { if (i == 1) continue; r += i - 2; } while (--i > 0); }
---
  { int f(void); extern int sprintf(char *, const char *, ...); char b[9]; sprintf(b, "%d%c", 12, 'x'); r += b[2] - 'x' + b[0] - '1'; }
'''


def render(rng, u, uid, s, app):
    """C text of a unit (spec units are sequences of functions)"""
    o = ["#line 1 \"unit%d.c\"" % uid, "#define UNIT \"unit%d.c\"" % uid]
    if u["bad"]:
        return "#line 1 \"unit%d.c\"\n" % uid + u["text"]
    if rng.random() < .3:
        o.append("#define LEAK%d 1" % uid)
    det = [x.strip("\n") for x in DETECT.strip("\n").split("\n---\n")]
    o.append("typedef long T%d; extern int write(int, const char *, unsigned long);" % uid)
    counter = False
    for f in u["f"]:
        ds = rng.sample(det, rng.randrange(0, 5))
        # __COUNTER__ counts in a whole unit
        if counter:
            ds = [d for d in ds if "__COUNTER__" not in d]
        counter = counter or any("__COUNTER__" in d for d in ds)
        k = f["k"]
        pre, e = "", None
        if k == "const":
            e = "%d" % f["v"]
        elif k == "mac":
            e = "%s + %d" % (f["x"], f["v"])
        elif k == "inc":
            pre, e = "#include \"hdr.h\"\n", "HDR + %d" % f["v"]
        elif k == "uch":
            e = "(char)200 > 0"
        elif k == "cnt":
            pre, e = "static int n_%s = %d;\n" % (f["n"], f["v"]), "++n_%s" % f["n"]
        elif k == "gdef":
            pre, e = "int %s = %d;\n" % (f["x"], f["v"]), "++%s" % f["x"]
        elif k == "gref":
            pre, e = "extern int %s;\n" % f["x"], "++%s" % f["x"]
        elif k == "host":
            pre, e = "extern int %s(void);\n" % f["x"], "%s() + %d" % (f["x"], f["v"])
        elif k == "ref":
            pre, e = "extern int %s(void);\n" % f["x"], "2 * %s() + 1" % f["x"]
        o.append(pre + "int %s(void) {\n  int r = 0;\n%s\n  return (%s) + r;\n}" % (f["n"], "\n".join(ds), e))
        if app and f["n"] == "q_main":
            o.append("int main(int argc, char **argv) { write(1, \"RUN\\n\", 4); return q_main() & 127; }")
    if rng.random() < .5:
        o.append(rng.choice(LEAVE))
    return "\n".join(o) + "\n"


# what a good unit may leave behind at its end: must not show in the next one either
LEAVE = ["#pragma pack(push, 1)", "#pragma pack(2)", "#pragma pack(push, 2)\n#pragma pack(push, 1)", "#undef __TINYC__", "#define int long\n#define sizeof 3 +",
         "#define return\n#define LEAK 3\n#define CH(x) x", "#line 900 \"elsewhere.c\"", "#pragma push_macro(\"UNIT\")\n#undef UNIT", "typedef short K, T; enum { E = 9, E2 };",
         "#define __LINE__ 7", "#undef UNIT", "#pragma once", "struct K { double d[9]; }; struct T { int z[3]; };", "static int r = 40, k = 41; static int z_leave(void) { return __COUNTER__ + __COUNTER__; }",
         "#define __COUNTER__ 99", "#define ZZ(x, ...) 77\n#pragma push_macro(\"ZZ\")", "#if 0\n#define X1\n#elif 1\n#define LEAK 9\n#else\n#endif"]

FN = ["q_a", "q_b", "q_c", "q_d", "q_e1", "q_e2", "q_e3", "q_main"]
ALL = ["q_A", "q_B", "q_C", "q_D"] + FN
MACS = ["MA", "MB", "NDEBUG", "LEAK"]


def gen(rng, n, length, mt):
    """a random history; what is not allowed is left out by the specification"""
    ops, uid = [], 0
    bad = bads()
    kinds = {}
    for s in range(1, n + 1):
        kinds[s] = rng.choice(["mem", "mem", "mem", "obj", "app"]) if not mt else rng.choice(["mem", "mem", "obj"])
    alive, comps, names, done = {}, {}, {}, {}

    def F(nm, k, v=0, x=""):
        return dict(n=nm, k=k, v=v, x=x)

    def unit(s):
        nonlocal uid
        uid += 1
        if rng.random() < .12:
            return dict(bad=True, f=[], text=rng.choice(bad), uid=uid)
        fs, used = [], set()
        for _ in range(rng.randrange(1, 4)):
            fn = FN if kinds[s] != "obj" or rng.random() < .1 else ["q_A", "q_B", "q_C", "q_D"]
            free = [f for f in fn if f not in names[s] and f not in used] or ([rng.choice(FN)] if rng.random() < .05 else [])
            if not free:
                break
            nm = "q_main" if kinds[s] == "app" and "q_main" in free and rng.random() < .7 else rng.choice(free)
            if nm in used:
                continue
            used.add(nm)
            k = rng.choice(["const", "mac", "mac", "inc", "uch", "cnt", "cnt", "gdef", "gref", "host", "ref", "ref"])
            v = rng.randrange(-40, 60)
            if k == "mac":
                ms = mac[s] if mac[s] and rng.random() < .97 else MACS[:3]
                if not mac[s] and rng.random() < .9:
                    fs.append(F(nm, "cnt", v))
                else:
                    fs.append(F(nm, k, v, rng.choice(sorted(ms))))
            elif k in ("gdef", "gref"):
                fs.append(F(nm, k, v, rng.choice(["v_g", "v_h"])))
            elif k == "host":
                fs.append(F(nm, k, v, "h_x" if kinds[s] != "app" else "h_x"))
            elif k == "ref":
                # no cycles: only to names before it in the list
                below = [x for x in ALL if x < nm and (x in FN) == (nm in FN) or x in got[s]]
                if not below:
                    fs.append(F(nm, "const", v))
                else:
                    fs.append(F(nm, k, 0, rng.choice([b for b in below if b in names[s] or b in used] or below)))
            elif k == "inc" and not incs[s] and rng.random() < .9:
                fs.append(F(nm, "const", v))
            else:
                fs.append(F(nm, k, v))
        if kinds[s] == "app":
            fs = [f if f["k"] != "host" else F(f["n"], "const", f["v"]) for f in fs]
        if not fs:
            fs.append(F("q_x%d" % uid, "const", 1))
        # what the rest of the session lacks, sometimes
        for f in list(fs):
            if f["k"] == "gref" and rng.random() < .8 and not any(g["k"] == "gdef" and g["x"] == f["x"] for g in fs) and f["x"] not in gl[s]:
                f["k"] = "gdef"
            if f["k"] == "gdef":
                if f["x"] in gl[s] and rng.random() < .95:
                    f["k"] = "gref"
                gl[s].add(f["x"])
        seen = set()
        for f in fs:
            if f["k"] == "gdef":
                if f["x"] in seen:
                    f["k"] = "gref"
                seen.add(f["x"])
        # a variable is defined before it is used in the text
        fs.sort(key=lambda f: f["k"] == "gref")
        for f in fs:
            names[s].add(f["n"])
            # and functions referred to exist, mostly
        return dict(bad=False, f=fs, uid=uid)

    mac, incs, gl, got, objs = {}, {}, {}, {}, {}

    def add(o, s, **kw):
        ops.append(dict(o=o, s=s, **kw))

    def fresh(s):
        add("new", s, k=kinds[s])
        alive[s], names[s], mac[s], incs[s], gl[s], got[s], done[s], comps[s] = True, set(), set(), 0, set(), set(), False, 0
        if kinds[s] == "mem" and rng.random() < .8:
            add("host", s, m="h_x", v=rng.randrange(8))

    left = length
    while left > 0:
        left -= 1
        s = rng.randrange(1, n + 1)
        if not alive.get(s):
            fresh(s)
            continue
        k = kinds[s]
        if done[s]:
            w = rng.choice(["call", "call", "call", "call", "get", "list", "del"]) if k == "mem" else rng.choice(["exec", "link", "del", "del"]) if k == "app" else "del"
        else:
            w = rng.choice(["def", "def", "undef", "inc", "uch", "comp", "comp", "comp", "comp", "addobj", "end", "end", "del0"] + (["exec", "link"] if k == "app" and rng.random() < .3 else []))
        if w == "call":
            add("call", s, m=rng.choice(sorted(names[s]) or FN))
        elif w == "get":
            add("get", s, m=rng.choice(FN))
        elif w in ("list", "link", "exec"):
            add(w, s)
        elif w == "del" or w == "del0" and rng.random() < .3:
            add("del", s)
            alive[s] = False
        elif w == "def":
            m = rng.choice(MACS[:3])
            mac[s].add(m)
            add("def", s, m=m, v=rng.randrange(1, 100))
        elif w == "undef":
            m = rng.choice(MACS[:3])
            if k != "app":
                mac[s].discard(m)
                add("undef", s, m=m)
        elif w == "inc":
            incs[s] += 1
            add("inc", s, v=rng.choice([11, 22, 33]))
        elif w == "uch" and rng.random() < .4:
            add("uch", s)
        elif w == "comp":
            u = unit(s)
            comps[s] += 1
            add("comp", s, u=u, file=rng.random() < .3)
            if not u["bad"] and rng.random() < .5:
                left += 1
        elif w == "addobj" and not mt:
            fs = [q["f"] for q in ops if q["o"] == "out"]
            if fs and rng.random() < .9 or rng.random() < .05:
                f = rng.choice(fs) if fs else "o9.o"
                add("addobj", s, f=f)
                got[s] |= objs.get(f, set())
                names[s] |= objs.get(f, set())
        elif w == "end" and comps[s]:
            # complete what it refers to
            if k == "mem":
                add("reloc", s)
            elif k == "obj":
                f = "o%d.o" % (rng.randrange(2) if not mt else s)
                add("out", s, f=f)
                objs[f] = set(names[s])
            else:
                add("exec", s)
            done[s] = True
    return ops


def check(ctx):
    ctx.model("MCSess", "CONSTANT Depth = %d\n" % (7 if ctx.thorough else 6), ["Alone", "Refused", "Dead"], extra_cfg="CHECK_DEADLOCK FALSE\n", mem="8g")
    r = ctx.rng
    cases = []
    for i in range(4000 if ctx.thorough else 1800):
        mt = i % 4 == 0
        n = r.choice([1, 2, 2, 3, 4]) if not mt else r.choice([2, 3, 4])
        cases.append(dict(n=n, mt=mt, ops=gen(r, n, r.choice([12, 20, 30, 45]), mt), salt=r.getrandbits(32)))

    def clean(o):
        o = {k: v for k, v in o.items() if k != "file"}
        if "u" in o:
            o["u"] = dict(bad=o["u"]["bad"], f=o["u"]["f"])
        return o
    exp = ctx.eval("Sess", [dict(n=c["n"], ops=[clean(o) for o in c["ops"]]) for c in cases], "History")
    ctx.log("%d histories" % len(cases))
    cjit = ctx.build()
    tree = ctx.tree()
    obj = [os.path.join(dp, f) for dp, _, fs in os.walk(tree + "/src") for f in fs if f.endswith(".o") and f not in ("main.o", "cjit-ar.o")]
    drv = ctx.cc(ctx.dir() + "/sessdrv", [os.path.join(vf.VERIF, "harness", "sessdrv.c")] + obj, flags=["-rdynamic"], libs=[tree + "/lib/tinycc/libtcc.a", "-lm", "-ldl", "-lpthread"], san=False)

    def one(ci):
        c, e = cases[ci], exp[ci]
        d = ctx.dir()
        for v in (11, 22, 33):
            os.makedirs("%s/i%d" % (d, v))
            with open("%s/i%d/hdr.h" % (d, v), "w") as f:
                f.write("#define HDR %d\n" % v)
        kinds, lines, did, unit_of = {}, [], [], {}
        for i, (o, x) in enumerate(zip(c["ops"], e)):
            if x["i"] == -1000009:
                continue
            s, a, b = o["s"], "", ""
            if o["o"] == "new":
                kinds[s] = a = o["k"]
            elif o["o"] in ("def",):
                a, b = o["m"], str(o["v"])
            elif o["o"] == "host":
                a, b = o["m"], str(o["v"])
            elif o["o"] in ("undef", "get", "call"):
                a = o["m"]
            elif o["o"] == "inc":
                a = "i%d" % o["v"]
            elif o["o"] == "comp":
                a = "unit%d.c" % o["u"]["uid"]
                unit_of.setdefault(s, set()).add(a)
                with open(d + "/" + a, "w") as f:
                    f.write(render(random.Random(c["salt"] + i), o["u"], o["u"]["uid"], s, kinds[s] == "app"))
                b = "file" if o["file"] else "str"
            elif o["o"] in ("addobj", "out"):
                a = o["f"]
            lines.append("%d %d %s %s %s" % (i, s, o["o"], a, b))
            did.append((i, o, x))
        with open(d + "/script", "w") as f:
            f.write("\n".join(lines) + "\n")
        p = ctx.run([drv, "script", str(c["n"])] + (["t"] if c["mt"] else []), cwd=d, timeout=120, env=dict(VF_TCCLIB=tree + "/lib/tinycc"))
        bad = None
        out = p.out.decode("latin-1").split("\n")
        if p.rc != 0 or "END" not in out:
            bad = "the process ended with %d after %r" % (p.rc, [l for l in out if l.startswith("R ")][-1:])
        got, errs, runs, err_at, running = {}, {}, {}, [], 0
        for l in out:
            if l.startswith("R "):
                w = l.split()
                k = int(w[1])
                got[k], errs[k], runs[k] = (int(w[2]), {q for q in w[3:] if "@" not in q}), err_at, running
                err_at, running = [], 0
            elif l.startswith("E "):
                if "error:" in l:
                    err_at.append(l.split(" ", 2)[1:])
            elif l == "RUN":
                running += 1
        return bad, d, p, did, got, errs, runs, lines

    def judge(ci):
        c = cases[ci]
        bad, d, p, did, got, errs, runs, lines = one(ci)
        for i, o, x in did:
            if bad:
                break
            if i not in got:
                bad = "call %d gave no result" % i
                break
            v, l = got[i]
            what = "call %d, %s of session %d (%s)" % (i, o["o"], o["s"], next(y for y in lines if y.startswith("%d " % i)))
            app = o["o"] == "exec"
            if o["o"] in ("exec", "link"):
                if x["i"] <= -1000001:
                    if v == 0 or runs[i]:
                        bad = "%s was to be refused: result %d, ran %d times" % (what, v, runs[i])
                elif (x["i"] & 127) != v or runs[i] != 1:
                    bad = "%s: result %d, ran %d times, specified: %d, once" % (what, v, runs[i], x["i"] & 127)
            elif v != x["i"]:
                bad = "%s: result %d, specified %d" % (what, v, x["i"])
            elif l != set(x["l"]):
                bad = "%s: %r, specified %r" % (what, sorted(l), sorted(x["l"]))
            if not bad:
                kind = next(q["k"] for q in reversed(c["ops"][:i + 1]) if q["o"] == "new" and q["s"] == o["s"])
                es = errs[i]
                if any(int(q[0]) != o["s"] for q in es):
                    bad = "%s: error message to another session: %r" % (what, es)
                elif kind != "app" and (x["i"] == -1 and o["o"] in ("comp", "reloc", "addobj")) != bool(es):
                    bad = "%s: error messages %r" % (what, es)
                elif o["o"] == "comp" and es and "elsewhere.c" not in es[0][1] and ("unit%d.c:" % o["u"]["uid"]) not in es[0][1]:
                    bad = "%s: error message %r" % (what, es)
        if not bad:
            shutil.rmtree(d, ignore_errors=True)
            return dict(what=None, n=len(did))
        texts = {f: open(d + "/" + f).read() for f in os.listdir(d) if f.startswith("unit")}
        return dict(what=bad + "\nhistory%s:\n  " % (" (a thread per session)" if c["mt"] else "") + "\n  ".join(lines) + "\n" + p.err.decode("latin-1")[-300:], n=len(did), texts=texts, lines=lines)

    res = ctx.pmap(judge, range(len(cases)))
    for ci, x in enumerate(res):
        ctx.traces(1)
        ctx.count("calls", x["n"])
        if x["what"]:
            tries = 10 if cases[ci]["mt"] else 1
            for _ in range(tries):
                y = judge(ci)
                if y["what"]:
                    ctx.violation("history", y["what"], y)
                    break
    kinds = {}
    for c, e in zip(cases, exp):
        for o, x in zip(c["ops"], e):
            if x["i"] != -1000009:
                kinds[o["o"]] = kinds.get(o["o"], 0) + 1
                if x["i"] in (-1, -1000001, -1000002) and o["o"] != "call":
                    kinds[o["o"] + " refused"] = kinds.get(o["o"] + " refused", 0) + 1
    ctx.log("calls: %r" % kinds)
    for c in cases[:3]:
        ctx.sample(dict(ops=[{k: v for k, v in o.items()} for o in c["ops"]][:12]))
