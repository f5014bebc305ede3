"""C21: floating-point comparisons, conversions and exact arithmetic (spec/Float.tla)."""
import os, shutil, struct, random
from props import c10

TECHNIQUE = "TLA+ model of IEEE 754 arithmetic and C's floating types, TLC-computed types and object representations compared with programs run by cjit"
LEVEL = "model_checking"
NOTE = ("TLC checks the operations of a small format against integer arithmetic for every pair of values; it then computes the exact results (or the two neighbours of an inexact one) "
        "of random expressions over float, double, long double and the integer types with special values and dyadic rationals; cjit runs them with constant and variable operands in every "
        "kind of storage, as values, conditions, arguments, results, conversions and static initialisers.")

FT = ["float", "double", "ldouble"]
ITYPES = [t for t in c10.TYPES]
RANK = dict(bool=0, char=1, schar=1, uchar=1, short=2, ushort=2, int=3, uint=3, long=4, ulong=4, llong=5, ullong=5)
MANT = dict(float=24, double=53, ldouble=53)
SPECIAL = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.0, 3.0, -2.5, float("inf"), float("-inf"), float("nan"), 255.0, 256.0, 127.5, -128.75, 65535.5, 2147483647.0, 2147483648.0, -2147483648.0,
           4294967295.0, 4294967296.0, 9223372036854775807.0, 9223372036854775808.0, -9223372036854775808.0, 18446744073709551616.0, 16777215.0, 16777216.0, 2.0 ** 53, 2.0 ** 53 - 1, 2.0 ** 62, 0.75,
           2.0 ** 63 + 2048, 2.0 ** 64 - 2048, 2.0 ** 63 - 1024]
DSPEC = [5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 2.0 ** -1023, 2.0 ** 1000]
FSPEC = [2.0 ** -149, 2.0 ** -126, (2 - 2.0 ** -23) * 2.0 ** 127, 2.0 ** -130]


def tofloat(v):
    try:
        return struct.unpack("<f", struct.pack("<f", v))[0]
    except OverflowError:
        return float("inf") if v > 0 else float("-inf")


def fvalue(rng, t):
    k = rng.random()
    if k < .4:
        v = rng.choice(SPECIAL)
    elif k < .5:
        v = rng.choice(FSPEC if t == "float" else DSPEC)
    elif k < .85:
        v = rng.randrange(-4096, 4096) / 2.0 ** rng.randrange(0, 12)
    elif k < .95:
        v = float(rng.choice([-1, 1]) * ((1 << rng.randrange(1, 64)) + rng.choice([-1, 0, 1])))
    else:
        v = rng.randrange(1, 1 << 24) * 2.0 ** rng.randrange(-100, 100)
    return tofloat(v) if t == "float" else v


def cval(v, t):
    """constant text of a value"""
    suf = dict(float="f", double="", ldouble="L")[t]
    if v != v:
        return "(0.0%s/0.0%s)" % (suf, suf)
    if v in (float("inf"), float("-inf")):
        return "(%s1.0%s/0.0%s)" % ("-" if v < 0 else "", suf, suf)
    h = v.hex()
    return "(%s%s)" % (h, suf) if h[0] == "-" else h + suf


def bits(v, t):
    return list(struct.pack("<f" if t == "float" else "<d", v))


def isf(t):
    return t in FT


class Gen(c10.Gen):
    def flit(self):
        r = self.rng
        k = r.random()
        if k < .5:
            v = r.choice([0, 1, 2, 3, 5, 10, 100, 255, 0.5, 0.25, 1.5, 2.75, 1024.125, 7.0, 65536.0, 2147483648.0, 1e10])
            s = repr(float(v)) if r.random() < .6 else float(v).hex()
            if s.endswith(".0") and r.random() < .4:
                s = s[:-1]
            if s.startswith("0.") and len(s) > 2 and r.random() < .4:
                s = s[1:]
        elif k < .8:
            s = abs(fvalue(r, "double"))
            s = (s if s == s and s < 1e308 else 1.0).hex()
        else:
            s = "%de%d" % (r.randrange(1, 100), r.randrange(0, 8)) if r.random() < .6 else "%d.%de%s%d" % (r.randrange(10), r.choice([5, 25, 75, 125, 0]), r.choice(["", "+", "-"]), r.randrange(3))
        suf = r.choice(["", "", "", "f", "F", "L", "l"])
        return dict(k="flit", s=list((s + suf).encode()), t=dict(f="float", l="ldouble").get(suf.lower(), "double"))

    def special(self):
        """constants there is no literal for: NaN, infinities, negative zero"""
        r = self.rng
        suf = r.choice(["", "", "f", "L"])
        lit = lambda x: dict(k="flit", s=list((x + suf).encode()), t=dict(f="float", L="ldouble").get(suf, "double"))
        z = lit("0.0")
        k = r.randrange(5)
        if k < 2:
            e = dict(k="bin", op="/", a=z, b=dict(z))
        elif k < 4:
            e = dict(k="bin", op="/", a=lit("1.0"), b=z)
        else:
            e = z
        return dict(k="un", op="-", a=e) if r.random() < .4 else e

    def lit(self):
        if self.rng.random() < .08:
            return self.special()
        return self.flit() if self.rng.random() < .6 else c10.Gen.lit(self)

    def newvar(self, rw):
        r = self.rng
        if r.random() < .35:
            t = r.choice(ITYPES)
            v = c10.corner(r, c10.W[t]) & c10.M64
            self.vars.append(dict(t=t, w=0, v=v, rw=rw))
        else:
            t = r.choice(["float", "double", "float", "double", "ldouble"])
            v = fvalue(r, t)
            self.vars.append(dict(t=t, w=0, v=0, rw=rw, val=cval(v, t), bits=bits(v, t)))
        return len(self.vars)

    def type(self, e):
        k = e["k"]
        if k in ("lit", "flit", "cast"):
            return e["t"]
        if k in ("var", "asg", "opasg", "pre", "post"):
            return self.vars[e["i"] - 1]["t"]
        if k == "un":
            return "int" if e["op"] == "!" else self.type(e["a"])
        if k == "logic" or k == "bin" and e["op"] in ("<", ">", "<=", ">=", "==", "!="):
            return "int"
        if k == "comma":
            return self.type(e["b"])
        a, b = self.type(e["a"]), self.type(e["b"])
        f = [t for t in (a, b) if isf(t)]
        return max(f, key=FT.index) if f else "int"     # which integer type does not matter here

    def toint(self, e):
        return dict(k="cast", t=self.rng.choice(["int", "long", "uint", "llong", "uchar"]), a=e) if isf(self.type(e)) else e

    def fix(self, x):
        """operators that take integers only get them"""
        e = x[0]
        if e["k"] == "un" and e["op"] == "~":
            e["a"] = self.toint(e["a"])
        if e["k"] == "bin" and e["op"] in ("%", "&", "|", "^", "<<", ">>"):
            if self.rng.random() < .7:
                e["op"] = self.rng.choice(["+", "-", "*", "/", "<", ">", "<=", ">=", "==", "!="])
            else:
                e["a"], e["b"] = self.toint(e["a"]), self.toint(e["b"])
        if e["k"] == "opasg" and e["op"] in ("%", "&", "|", "^", "<<", ">>"):
            if isf(self.vars[e["i"] - 1]["t"]):
                e["op"] = self.rng.choice("+-*/")
            else:
                e["a"] = self.toint(e["a"])
        if e["k"] == "cast" and self.rng.random() < .5:
            e["t"] = self.rng.choice(FT)
        if e["k"] == "sizeof":
            return e["a"], x[1], x[2]
        return x

    def expr(self, n):
        return self.fix(c10.Gen.expr(self, n))


PRE = """extern int printf(const char *, ...);
typedef unsigned long long U;
static void show(int n, const char *t, const void *p, int z, int k) { const unsigned char *q = p; int i; printf("%d %s ", n, t); for (i = z - 1; i >= 0; i--) printf("%02x", q[i]); printf(k ? "" : "\\n"); }
static int nanb(const void *p, int z) { const unsigned char *q = p; U m = 0; int i, e; for (i = z < 8 ? z - 1 : 7; i >= 0; i--) m = m << 8 | q[i];
 if (z == 4) return (m & 0x7f800000) == 0x7f800000 && (m & 0x7fffff); if (z == 8) return (m >> 52 & 0x7ff) == 0x7ff && (m & 0xfffffffffffffULL); return ((q[9] & 127) << 8 | q[8]) == 0x7fff && m << 1; }
static void out(const void *p, int z) { const unsigned char *q = p; int i; printf(" "); if (z != -8 && nanb(p, z)) { printf("nan"); return; } z = z < 0 ? -z : z; for (i = z - 1; i >= 0; i--) printf("%02x", q[i]); }
static void of(float x) { out(&x, 4); }
static void od(double x) { out(&x, 8); }
static void ol(long double x) { out(&x, 10); }
static void oi(U x) { out(&x, -8); }
static void va(int n, ...) { __builtin_va_list a; double d; __builtin_va_start(a, n); d = __builtin_va_arg(a, double); __builtin_va_end(a); od(d); }
#define TY(x) _Generic((x), _Bool: "bool", char: "char", signed char: "schar", unsigned char: "uchar", short: "short", unsigned short: "ushort", int: "int", \\
 unsigned: "uint", long: "long", unsigned long: "ulong", long long: "llong", unsigned long long: "ullong", float: "float", double: "double", long double: "ldouble", default: "?")
"""
OUT = dict(float="of(%s);", double="od(%s);", ldouble="ol(%s);")


def pr(t, x):
    return OUT.get(t, "oi((U)(%s));") % x


CONDS = ["int r; if (%s) r = 1; else r = 0;", "int r = 0; while (%s) { r = 1; break; }", "int r = 0; for (; %s;) { r = 1; break; }", "int r = (%s) ? 1 : 0;",
         "int r = 1; if (!(%s)) r = 0;", "int r = !!(%s);", "int r = 1 && (%s);", "int r = 0 || (%s);", "int r; if (1 && (%s)) r = 1; else r = 0;",
         "int r = 1; if (%s) goto y; r = 0; y: ;", "int r; r = (_Bool)(%s);", "int r = 0; do { if (r == 1) { r = 3; break; } r++; } while (%s); r = r == 3;",
         "int z = 0, r; if (z || (%s)) r = 1; else r = 0;", "int r = !(!(%s) || 0);"]


def emit(n, c, rng, style):
    g, decl, init, params, args, refs = c10.declare(n, c, rng, style)
    E = c10.text(c["e"], lambda i: refs[i], rng.random() < .4)
    use, t, rt = c["use"], c["x"]["t"], c["x"]["r"]
    T, RT = c10.CT[t], c10.CT[rt]
    pre = ""
    ty = "TY((%s))" % E
    if use == "value":
        k = rng.randrange(4)
        if k == 0:
            body = "%s r = (%s); %s" % (T, E, pr(t, "r"))
        elif k == 1:
            body = "%s r; r = (%s); %s" % (T, E, pr(t, "r"))
        elif k == 2:
            body = pr(t, "(%s)" % E)
        else:
            body = "va(1, (%s));" % E if t == "double" else "__typeof__((%s)) r = (%s); %s" % (E, E, pr(t, "r"))
    elif use == "cond":
        body = rng.choice(CONDS) % E + " oi(r);"
    elif use == "conv":
        k = rng.randrange(5)
        if k == 0:
            pre = "static void f%d(%s x) { %s }\n" % (n, RT, pr(rt, "x"))
            body = "f%d((%s));" % (n, E)
        elif k == 1:
            pre = "static void f%d(int a, double b, %s x, long c) { %s }\n" % (n, RT, pr(rt, "x"))
            body = "f%d(1, 2, (%s), 3);" % (n, E)
        elif k == 2:
            body = "%s x = (%s); %s" % (RT, E, pr(rt, "x"))
        elif k == 3:
            body = "%s x[2]; x[1] = (%s); %s" % (RT, E, pr(rt, "x[1]"))
        else:
            body = None
    else:
        k = rng.randrange(3)
        if k == 0:
            g += "static %s r%d = (%s);\n" % (RT, n, E)
            body = pr(rt, "r%d" % n)
        elif k == 1:
            g += "static struct { char a; %s x[2]; } r%d = { 1, { 0, %s } };\n" % (RT, n, "(%s)" % E if c["e"]["k"] == "comma" else E)
            body = pr(rt, "r%d.x[1]" % n)
        else:
            body = "static %s r0 = (%s); %s" % (RT, E, pr(rt, "r0"))
    post = "".join(" " + pr(v["t"], refs[i]) for i, v in enumerate(c["vars"], 1) if v["rw"])
    ps = ", ".join(params) or "void"
    if body is None:
        return (g + "static %s h%d(%s) {%s%s printf(\"%d %%s\", %s); return %s; }\n" % (RT, n, ps, decl, init, n, ty, E)
                + "static void t%d(void) { %s printf(\"\\n\"); }\n" % (n, pr(rt, "h%d(%s)" % (n, ", ".join(args)))))
    return pre + g + "static void u%d(%s) {%s%s printf(\"%d %%s\", %s); %s%s printf(\"\\n\"); }\nstatic void t%d(void) { u%d(%s); }\n" % (n, ps, decl, init, n, ty, body, post, n, n, ", ".join(args))


def enc(e):
    return c10.enc({k: v for k, v in e.items()}) if e["k"] != "flit" else dict(k="flit", s=e["s"])


def encode(e):
    r = {}
    for k, v in e.items():
        r[k] = encode(v) if isinstance(v, dict) else list((v & c10.M64).to_bytes(8, "little")) if k == "v" else v
    return r


def hexs(b):
    return "nan" if not b else bytes(b[::-1]).hex()


def comparison(rng):
    """special values against each other: constants, variables, one of each"""
    g = Gen(rng, False)

    def side():
        k = rng.random()
        if k < .35:
            return g.special()
        if k < .5:
            return g.flit()
        i = g.newvar(False)
        v = g.vars[-1]
        if "bits" in v and rng.random() < .7:
            x = rng.choice([float("nan"), float("nan"), float("inf"), float("-inf"), 0.0, -0.0, 1.0, -1.0])
            v.update(val=cval(x, v["t"]), bits=bits(x, v["t"]))
        return dict(k="var", i=i)
    e = dict(k="bin", op=rng.choice(["<", ">", "<=", ">=", "==", "!="]), a=side(), b=side())
    k = rng.random()
    if k < .15:
        e = dict(k="un", op="!", a=e)
    elif k < .3:
        e = dict(k="logic", op=rng.choice(["&&", "||"]), a=e, b=side())
    elif k < .4:
        e = dict(k="cond", c=e, a=dict(k="lit", t="int", v=3), b=dict(k="lit", t="int", v=5))
    return g, e


def make(ctx, rng, count):
    cases = []
    for _ in range(count // 4):
        g, e = comparison(rng)
        use = rng.choice(["value", "value", "cond", "conv"])
        if not g.vars and rng.random() < .5:
            use = "static"
        cases.append(dict(e=e, vars=g.vars, use=use, u=rng.choice(FT + ITYPES)))
    for _ in range(count):
        const = rng.random() < .25
        g = Gen(rng, const)
        e, _, mod = g.expr(rng.choice([0, 1, 1, 1, 1, 2, 2, 2, 3, 3, 4]))
        use = rng.choice(["value"] * 4 + ["cond"] * 3 + ["conv"] * 3)
        if const and rng.random() < .6 and not c10.has(e, ("comma",)):
            use = "static"
        u = rng.choice(FT * 3 + ITYPES)
        cases.append(dict(e=e, vars=g.vars, use=use, u=u))
    exp = ctx.eval("Float", [dict(e=encode(c["e"]), vars=[dict(t=v["t"], v=v["bits"] if "bits" in v else list(v["v"].to_bytes(8, "little"))) for v in c["vars"]],
                                  use="conv" if c["use"] == "static" else c["use"], u=c["u"]) for c in cases], "FOutcome")
    res = []
    for c, x in zip(cases, exp):
        if x["ub"]:
            continue
        c["x"] = x
        tail = [hexs(s) for s, v in zip(x["st"], c["vars"]) if v["rw"]]
        c["want"] = [[x["t"], hexs(b)] + tail for b in ([x["v"]] if x["v"] == x["h"] else [x["v"], x["h"]])]
        res.append(c)
    return res


def program(items):
    t, tail = PRE, ""
    for n, c, style, seed in items:
        c.pop("tail", None)
        t += emit(n, c, random.Random(seed), style)
        tail += c.get("tail", "")
    return t + "int main(void) {" + "".join(" t%d();" % n for n, _, _, _ in items) + " return 0; }\n" + tail


def literals(ctx, rng, count):
    from props import c22
    ts = set()
    while len(ts) < count:
        k = rng.random()
        if k < .3:
            t = c22.float_spelling(rng)
        elif k < .6:
            v = abs(fvalue(rng, rng.choice(["float", "double"])))
            if v != v or v == float("inf"):
                continue
            t = (rng.choice([v.hex(), repr(v), "%.20g" % v, "%.3e" % v]) + rng.choice(["", "f", "L"])).encode()
        elif k < .75:
            h = "".join(rng.choice("0123456789abcdef") for _ in range(rng.choice([1, 8, 13, 14, 15, 16, 17, 18, 20, 30])))
            i = rng.randrange(len(h) + 1)
            t = ("0x" + h[:i] + "." + h[i:] + "p%d" % rng.choice([0, 1, -3, 10, -60, 100, -140, -1060, 1020]) + rng.choice(["", "f", "L"])).encode()
        else:
            d = "".join(rng.choice("0123456789") for _ in range(rng.choice([1, 2, 5, 9, 17, 20, 25, 40])))
            i = rng.randrange(len(d) + 1)
            t = (d[:i] + "." + d[i:] + "e%d" % rng.choice([0, 1, -1, 5, -5, 20, -20, 37, 38, -44, -45, 300, -310, -320, 308]) + rng.choice(["", "f", "L"])).encode()
        if b"." in t or b"e" in t or b"p" in t or b"P" in t or b"E" in t:
            ts.add(t)
    ts = sorted(ts)
    rs = ctx.eval("Float", [dict(s=list(t)) for t in ts], "Literal")
    return [(t, r) for t, r in zip(ts, rs) if r["t"]]


def check(ctx):
    ctx.model("MCFloat", "CONSTANTS\nP = %d\nEM = %d\n" % ((4, 3) if ctx.thorough else (3, 2)), ["Ops", "Specials", "Codes"], extra_cfg="CHECK_DEADLOCK FALSE\n")
    cjit = ctx.build()
    rng = ctx.rng
    cases = make(ctx, rng, 40000 if ctx.thorough else 7000)
    ctx.log("%d defined expressions, %d not exact" % (len(cases), sum(len(c["want"]) > 1 for c in cases)))
    items = []
    for c in cases:
        for k in range(2 if c["vars"] else 1):
            items.append((len(items), c, "lit" if k and rng.random() < .6 else "mix", rng.random()))
    groups = [items[i:i + 50] for i in range(0, len(items), 50)]

    def run(group):
        d = ctx.dir()
        src = program(group)
        open(d + "/e.c", "w").write(src)
        r = ctx.run([cjit, "-q", "e.c"], cwd=d)
        shutil.rmtree(d, ignore_errors=True)
        got = {}
        for l in r.out.decode("latin-1").split("\n"):
            p = l.split()
            if p and p[0].isdigit():
                got[int(p[0])] = p[1:]
        return r, got, src

    def same(it, got):
        return got is not None and any(got == w or (len(got) == 2 and got == w[:2] and it[1]["use"] == "conv") for w in it[1]["want"])

    def go(group):
        r, got, src = run(group)
        bad = [it for it in group if not same(it, got.get(it[0]))]
        if r.rc != 0 and not bad:
            bad = group[:1]
        found = 0
        for it in bad:
            r1, g1, s1 = run([it])
            if r1.rc != 0 or not same(it, g1.get(it[0])):
                found += 1
                c = it[1]
                ctx.violation("expr", "%s\n  gives %s, expected %s (status %d %s)" % (s1[len(PRE):][:1500], g1.get(it[0]), c["want"], r1.rc, r1.err.decode("latin-1")[:200]),
                              dict(source=s1, expected=c["want"], got=g1.get(it[0])))
            if found == 3:
                break
        if bad and not found:
            it = bad[0]
            ctx.violation("expr", "expression right alone but wrong in a program: gives %s, expected %s" % (got.get(it[0]), it[1]["want"]), dict(source=src, number=it[0], expected=it[1]["want"]))
        ctx.traces(len(group))
    ctx.pmap(go, groups)

    lits = literals(ctx, rng, 3000 if ctx.thorough else 600)

    def lit(group):
        def src(g):
            return PRE + "int main(void) {\n" + "".join("{ static %s g = %s; %s x = %s; printf(\"%d %%s\", TY(%s)); %s %s %s printf(\"\\n\"); }\n"
                                                        % (c10.CT[r["t"]], t.decode(), c10.CT[r["t"]], t.decode(), n, t.decode(), pr(r["t"], "x"), pr(r["t"], "g"), pr(r["t"], t.decode()))
                                                        for n, (t, r) in g) + "return 0; }\n"

        def once(g):
            d = ctx.dir()
            open(d + "/e.c", "w").write(src(g))
            r = ctx.run([cjit, "-q", "e.c"], cwd=d)
            shutil.rmtree(d, ignore_errors=True)
            return r, {int(l.split()[0]): l.split()[1:] for l in r.out.decode().split("\n") if l}
        r, got = once(group)
        n0 = 0
        for it in group:
            n, (t, x) = it
            ok = [[x["t"]] + [hexs(b)] * 3 for b in (x["v"], x["h"])]
            if got.get(n) not in ok and n0 < 3:
                r1, g1 = once([it])
                if g1.get(n) not in ok:
                    n0 += 1
                    ctx.violation("literal", "%s is %s, expected %s (status %d %s)" % (t.decode(), g1.get(n), ok, r1.rc, r1.err.decode()[:200]), dict(source=src([it]), expected=ok))
        ctx.traces(len(group))
    lits = list(enumerate(lits))
    ctx.pmap(lit, [lits[i:i + 40] for i in range(0, len(lits), 40)])
    ctx.count("expressions", len(cases))
    ctx.count("literals", len(lits))
    for k in ("value", "cond", "conv", "static"):
        ctx.count("use_" + k, sum(c["use"] == k for c in cases))
    ctx.sample(dict(source=program(items[:2]), expected=[i[1]["want"] for i in items[:2]]))
