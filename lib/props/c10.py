"""C10: types and values of integer expressions (spec/CInt.tla, BigInt.tla)."""
import os, shutil

TECHNIQUE = "TLA+ semantics of C integer expressions, TLC-computed types, values and side effects compared with programs run by cjit"
LEVEL = "model_checking"
NOTE = ("Random expression trees over all integer types and bit-fields, every operator, operand corner values and every kind of operand storage; TLC computes type, value, final "
        "variables and whether the behaviour is defined; the same tree is compiled as constants, variables, conditions, arguments, return values, switch and static initialisers.")

TYPES = ["bool", "char", "schar", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "llong", "ullong"]
CT = dict(bool="_Bool", char="char", schar="signed char", uchar="unsigned char", short="short", ushort="unsigned short", int="int", uint="unsigned int",
          long="long", ulong="unsigned long", llong="long long", ullong="unsigned long long", float="float", double="double", ldouble="long double")
W = dict(bool=1, char=8, schar=8, uchar=8, short=16, ushort=16, int=32, uint=32, long=64, ulong=64, llong=64, ullong=64)
SG = {"char", "schar", "short", "int", "long", "llong"}
SUF = dict(int="", uint="U", long="L", ulong="UL", llong="LL", ullong="ULL")
STOR = ["local", "volatile", "static", "global", "param", "array", "index", "pointer", "member", "arrow", "register", "union", "ext", "nested", "ptrptr", "vla"]
FSTOR = ["member", "arrow", "global", "static", "array"]
M64 = (1 << 64) - 1


def corner(rng, w):
    k = rng.random()
    if k < .35:
        return rng.choice([0, 1, 1, 2, 3, 5, 7, 8, 10])
    if k < .5:
        return rng.randrange(100)
    if k < .6:
        return (1 << w) - rng.choice([1, 1, 2, 3, 10, rng.randrange(1, 100)])
    if k < .7:
        return (1 << (w - 1)) + rng.choice([0, 0, 1, -1, -1, 2])
    if k < .85:
        return (1 << rng.randrange(w + 1)) + rng.choice([0, 0, -1, 1])
    return rng.randrange(1 << w)


class Gen:
    def __init__(self, rng, const):
        self.rng, self.const, self.vars = rng, const, []

    def lit(self):
        r = self.rng
        t = r.choice(["int"] * 5 + ["uint", "long", "ulong", "llong", "ullong"])
        v = corner(r, W[t]) & ((1 << (W[t] - (t in SG))) - 1)
        return dict(k="lit", t=t, v=v)

    def newvar(self, rw):
        r = self.rng
        t = r.choice(TYPES)
        w = 0
        if r.random() < .15:
            t = r.choice(["int", "uint", "int", "uint", "bool", "short", "uchar", "ushort", "schar"])
            w = 1 if t == "bool" else r.choice([1, 2, 3, 5, 7, 8, W[t] - 1, W[t], r.randint(1, W[t])])
            w = min(w, W[t])
        if w == 0 and t in ("int", "uint", "long", "ulong", "llong", "ullong") and r.random() < .1 and not rw:
            pass
        self.vars.append(dict(t=t, w=w, v=corner(r, w or W[t]) & M64, rw=rw))
        return len(self.vars)

    def leaf(self):
        r = self.rng
        if self.const:
            if r.random() < .3:
                return dict(k="cast", t=r.choice(TYPES), a=self.lit()), set(), set()
            return self.lit(), set(), set()
        if r.random() < .2:
            return self.lit(), set(), set()
        if self.vars and r.random() < .3:
            i = r.randrange(len(self.vars)) + 1
        else:
            i = self.newvar(False)
        return dict(k="var", i=i), {i}, set()

    def ok(self, a, b):
        return not (a[2] & (b[1] | b[2])) and not (b[2] & (a[1] | a[2]))

    def expr(self, n):
        """(tree, variables read, variables modified) of about n operators"""
        r = self.rng
        if n <= 0:
            return self.leaf()
        k = r.random()
        if k < .5:
            op = r.choice(["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "+", "-", "<<", ">>", "/", "%"])
            for _ in range(20):
                m = r.randrange(n)
                a = self.expr(m)
                if op in ("<<", ">>") and r.random() < .8:
                    b = (dict(k="lit", t=r.choice(["int", "uint", "long", "llong", "ulong"]), v=r.choice([0, 1, 7, 8, 15, 16, 24, 30, 31, 31, 32, 33, 48, 62, 63, r.randrange(64)])), set(), set())
                    if r.random() < .5 and not self.const:
                        i = self.newvar(False)
                        self.vars[-1]["v"] = b[0]["v"]
                        b = (dict(k="var", i=i), {i}, set())
                elif op in ("/", "%", "*", "&") and r.random() < .4:
                    b = (dict(k="lit", t=r.choice(["int", "uint", "long", "ulong"]), v=r.choice([1, 2, 3, 4, 7, 8, 10, 16, 255, 256, 1024, 65535, 65536, 1 << 30, (1 << 31) - 1])), set(), set())
                else:
                    b = self.expr(n - 1 - m)
                if self.ok(a, b):
                    break
            else:
                return self.leaf()
            if r.random() < .05 and op not in ("<<", ">>", "/", "%"):
                a, b = b, a
            return dict(k="bin", op=op, a=a[0], b=b[0]), a[1] | b[1], a[2] | b[2]
        if k < .62:
            a = self.expr(n - 1)
            return dict(k="un", op=r.choice(["-", "~", "!", "+", "-", "~"]), a=a[0]), a[1], a[2]
        if k < .74:
            a = self.expr(n - 1)
            return dict(k="cast", t=r.choice(TYPES), a=a[0]), a[1], a[2]
        if k < .8:
            m = r.randrange(n)
            a, b = self.expr(m), self.expr(n - 1 - m)
            return dict(k="logic", op=r.choice(["&&", "||"]), a=a[0], b=b[0]), a[1] | b[1], a[2] | b[2]
        if k < .86:
            m = r.randrange(n)
            c, a, b = self.expr(m), self.expr((n - 1 - m) // 2), self.expr((n - 1 - m) // 2)
            return dict(k="cond", c=c[0], a=a[0], b=b[0]), a[1] | b[1] | c[1], a[2] | b[2] | c[2]
        if k < .88:
            a = self.expr(n - 1)
            if any(self.vars[i - 1]["w"] for i in a[1] | a[2]):
                return a
            return dict(k="sizeof", a=a[0]), set(), set()
        if self.const:
            return self.expr(n - 1)
        if k < .9:
            m = r.randrange(n)
            a, b = self.expr(m), self.expr(n - 1 - m)
            return dict(k="comma", a=a[0], b=b[0]), a[1] | b[1], a[2] | b[2]
        if k < .97:
            a = self.expr(n - 1)
            for _ in range(4):
                c = [i + 1 for i, v in enumerate(self.vars) if i + 1 not in a[2]]
                i = r.choice(c) if c and r.random() < .5 else self.newvar(True)
                self.vars[i - 1]["rw"] = True
                op = r.choice(["", "+", "-", "*", "&", "|", "^", "/", "%", "<<", ">>"])
                return (dict(k="opasg", op=op, i=i, a=a[0]) if op else dict(k="asg", i=i, a=a[0])), a[1] | {i}, a[2] | {i}
        i = self.newvar(True)
        return dict(k=r.choice(["pre", "post"]), op=r.choice(["++", "--"]), i=i), {i}, {i}


def text(e, ref, full):
    """C text; ref(i) is the text of variable i. full: parenthesise everything."""
    PREC = {"*": 10, "/": 10, "%": 10, "+": 9, "-": 9, "<<": 8, ">>": 8, "<": 7, ">": 7, "<=": 7, ">=": 7, "==": 6, "!=": 6, "&": 5, "^": 4, "|": 3, "&&": 2, "||": 1}

    def go(e):
        k = e["k"]
        if k == "lit":
            v = e["v"]
            return ("%d" % v if v < 1000 else "0x%x" % v if v % 2 and v < 1 << 31 or v.bit_length() > (31 if e["t"] == "int" else 63) else "%d" % v) + SUF[e["t"]], 20
        if k == "flit":
            return bytes(e["s"]).decode(), 20
        if k == "var":
            return ref(e["i"]), 20
        if k == "un":
            t, p = go(e["a"])
            if p < 12 or full:
                t = "(%s)" % t
            return e["op"] + (" " if t[0] in "+-~!&" else "") + t, 12
        if k == "cast":
            t, p = go(e["a"])
            if p < 12 or full:
                t = "(%s)" % t
            return "(%s)%s" % (CT[e["t"]], t), 12
        if k == "sizeof":
            return "sizeof(%s)" % go(e["a"])[0], 20
        if k in ("bin", "logic"):
            P = PREC[e["op"]]
            a, pa = go(e["a"])
            b, pb = go(e["b"])
            if pa < P or full and pa < 20:
                a = "(%s)" % a
            if pb <= P or full and pb < 20:
                b = "(%s)" % b
            return "%s %s %s" % (a, e["op"], b), P
        if k == "cond":
            c, pc = go(e["c"])
            a = go(e["a"])[0]
            b, pb = go(e["b"])
            if pc <= 0 or full:
                c = "(%s)" % c
            if pb < 0 or full:
                b = "(%s)" % b
            return "%s ? %s : %s" % (c, a, b), 0
        if k == "comma":
            a, pa = go(e["a"])
            b, pb = go(e["b"])
            if pb <= -2:
                b = "(%s)" % b
            return "%s, %s" % (a, b), -2
        if k in ("asg", "opasg"):
            a, pa = go(e["a"])
            if pa < -1 or full and pa < 20:
                a = "(%s)" % a
            return "%s %s= %s" % (ref(e["i"]), e.get("op", ""), a), -1
        r = ref(e["i"])
        if k == "pre":
            return e["op"] + r, 12
        return r + e["op"], 13 if r.isidentifier() else 12
    return go(e)[0]


PRE = """extern int printf(const char *, ...);
typedef unsigned long long U;
static char base[4];
#define TY(x) _Generic((x), _Bool: "bool", char: "char", signed char: "schar", unsigned char: "uchar", short: "short", unsigned short: "ushort", int: "int", \\
 unsigned: "uint", long: "long", unsigned long: "ulong", long long: "llong", unsigned long long: "ullong", default: "?")
"""


def declare(n, c, rng, style):
    """Where the variables of case c are in test function n. style: storages to use."""
    g, decl, init, params, args = "", "", "", [], []
    refs = {}
    for i, v in enumerate(c["vars"], 1):
        T = CT[v["t"]]
        val = v["val"] if "val" in v else "(%s)0x%xULL" % (T, v["v"])
        if v["w"]:
            f = "%s b%d:%d;" % (T, i, v["w"])
            lead = "".join(" unsigned q%d_%d:%d;" % (i, j, rng.randint(1, 12)) for j in range(rng.choice([0, 1, 2])))
            S = "struct {%s %s%s }" % (lead, f, rng.choice(["", " unsigned z%d:9;" % i, " char z%d;" % i]))
            s = rng.choice(FSTOR)
            if s == "member":
                decl += " %s s%d;" % (S, i)
                refs[i] = "s%d.b%d" % (i, i)
            elif s == "arrow":
                decl += " %s s%d, *p%d = &s%d;" % (S, i, i, i)
                refs[i] = "p%d->b%d" % (i, i)
            elif s == "global":
                g += "%s g%d_%d;\n" % (S, n, i)
                refs[i] = "g%d_%d.b%d" % (n, i, i)
            elif s == "static":
                decl += " static %s s%d;" % (S, i)
                refs[i] = "s%d.b%d" % (i, i)
            else:
                decl += " %s s%d[3]; int k%d = 1;" % (S, i, i)
                refs[i] = "s%d[k%d].b%d" % (i, i, i)
            init += " %s = %s;" % (refs[i], val)
            continue
        s = rng.choice(STOR) if style == "mix" else style
        if s == "lit" and v["rw"]:
            s = "local"
        if s == "lit":
            refs[i] = "(%s)" % val
            continue
        if s == "local":
            decl += " %s v%d = %s;" % (T, i, val)
            refs[i] = "v%d" % i
        elif s == "volatile":
            decl += " volatile %s v%d = %s;" % (T, i, val)
            refs[i] = "v%d" % i
        elif s == "register":
            decl += " register %s v%d = %s;" % (T, i, val)
            refs[i] = "v%d" % i
        elif s == "static":
            decl += " static %s v%d = %s;" % (T, i, val)
            refs[i] = "v%d" % i
        elif s == "global":
            g += "%s g%d_%d = %s;\n" % (T, n, i, val)
            refs[i] = "g%d_%d" % (n, i)
        elif s == "ext":
            g += "extern %s g%d_%d;\n" % (T, n, i)
            c["tail"] = c.get("tail", "") + "%s g%d_%d = %s;\n" % (T, n, i, val)
            refs[i] = "g%d_%d" % (n, i)
        elif s == "param":
            params.append("%s v%d" % (T, i))
            args.append(val)
            refs[i] = "v%d" % i
        elif s == "array":
            decl += " %s v%d[3] = {1, %s, 1};" % (T, i, val)
            refs[i] = "v%d[1]" % i
        elif s == "index":
            decl += " %s v%d[4] = {1, 1, %s}; %s k%d = 2;" % (T, i, val, rng.choice(["int", "unsigned char", "long", "short"]), i)
            refs[i] = "v%d[k%d]" % (i, i)
        elif s == "pointer":
            decl += " %s v%d = %s, *p%d = &v%d;" % (T, i, val, i, i)
            refs[i] = "(*p%d)" % i
        elif s == "ptrptr":
            decl += " %s v%d = %s, *p%d = &v%d, **r%d = &p%d;" % (T, i, val, i, i, i, i)
            refs[i] = "(**r%d)" % i
        elif s == "member":
            decl += " struct { char a; %s m; char b; } s%d = {1, %s, 1};" % (T, i, val)
            refs[i] = "s%d.m" % i
        elif s == "arrow":
            decl += " struct { char a; %s m; } s%d = {1, %s}, *p%d = &s%d;" % (T, i, val, i, i)
            refs[i] = "p%d->m" % i
        elif s == "nested":
            decl += " struct { int x; struct { char a[3]; %s m[2]; } y[2]; } s%d; s%d.y[1].m[1] = %s;" % (T, i, i, val)
            refs[i] = "s%d.y[1].m[1]" % i
        elif s == "union":
            decl += " union { %s m; char a[9]; } s%d; s%d.m = %s;" % (T, i, i, val)
            refs[i] = "s%d.m" % i
        elif s == "vla":
            decl += " int n%d = 2; %s v%d[n%d]; v%d[1] = %s;" % (i, T, i, i, i, val)
            refs[i] = "v%d[1]" % i
    return g, decl, init, params, args, refs


def emit(n, c, rng, style):
    """Test function n for case c; returns the text."""
    g, decl, init, params, args, refs = declare(n, c, rng, style)
    E = text(c["e"], lambda i: refs[i], rng.random() < .4)
    use = c["use"]
    pre = post = ""
    if use == "value":
        body = "U r = (U)(%s);" % E if rng.random() < .5 else "U r; r = %s;" % ("(%s)" % E if c["e"]["k"] == "comma" else E)
    elif use == "cond":
        body = rng.choice(["U r; if (%s) r = 1; else r = 0;", "U r = 0; while (%s) { r = 1; break; }", "U r = 0; for (; %s;) { r = 1; break; }", "U r = (%s) ? 1 : 0;",
                           "U r = 1; if (!(%s)) r = 0;", "U r = !!(%s);", "U r = 0; do { if (r) break; r = 2; } while (%s); r = r == 2 ? 0 : r; goto e; e: ;",
                           "U r = 1 && (%s);", "U r = 0 || (%s);", "U r; if (1 && (%s)) r = 1; else r = 0;"][:6 if rng.random() < .5 else 10])
        if "do {" in body:
            body = "U r = 1; if (%s) goto y; r = 0; y: ;"
        body = body % E
    elif use == "conv":
        T = CT[c["u"]]
        k = rng.randrange(5)
        if k == 0:
            pre = "static U f%d(%s x) { return (U)x; }\n" % (n, T)
            body = "U r = f%d((%s));" % (n, E)
        elif k == 1:
            pre = "static U f%d(int a, %s x, long b) { return (U)x; }\n" % (n, T)
            body = "U r = f%d(1, (%s), 2);" % (n, E)
        elif k == 2:
            body = "%s x = (%s); U r = (U)x;" % (T, E)
        elif c["u"] in ("long", "ulong", "llong", "ullong") and rng.random() < .5:
            body = "char *z = base; " + rng.choice(["U r = (U)(z + (%s)) - (U)base;", "U r = (U)&z[%s] - (U)base;", "z += (%s); U r = (U)z - (U)base;", "U r = (U)&((%s)[z]) - (U)base;",
                                                    "U r = (U)z - (U)(z - (%s));"]) % E
        elif k == 3:
            body = "%s x[2]; x[1] = (%s); U r = (U)x[1];" % (T, E)
        else:
            body = None
    elif use == "switch":
        body = "U r = 0; switch (%s) {%s default: break; }" % (E, "".join(" case %s: r = %d; break;" % (("-%dLL" if l["n"] else "%dULL") % l["v"], k) for k, l in enumerate(c["labels"], 1)))
    else:   # static initialiser, array size
        k = rng.randrange(3)
        if k == 0:
            g += "static U r%d = (U)(%s);\n" % (n, E)
            body = "U r = r%d;" % n
        elif k == 1:
            g += "static struct { char a; %s x[2]; } r%d = { 1, { 0, %s } };\n" % (CT["ullong"], n, E)
            body = "U r = r%d.x[1];" % n
        else:
            body = "static U r0 = (%s); U r = r0;" % E
    ty = 'TY((%s))' % E if not c["bits"] else '"bits"'
    dump = ""
    for i, v in enumerate(c["vars"], 1):
        if v["rw"]:
            post += ' printf(" %%llx", (U)%s);' % refs[i]
    # operand types only: the type name is computed without evaluating
    tail = ' printf("%d %%s %%llx", %s, r);%s printf("\\n");' % (n, ty, post)
    if body is None:    # the value is returned, converted to the type of the function
        out = g + "static void o%d_(U r) { printf(\"%d \"); printf(\"%%s %%llx\", T%d, r); }\n" % (n, n, n) if 0 else g
        ps = ", ".join(params) or "void"
        gl = "static const char *T%d; static U S%d[%d];\n" % (n, n, max(1, len(c["vars"])))
        return (gl + out + "static %s h%d(%s) {%s%s T%d = %s; return %s; }\n" % (CT[c["u"]], n, ps, decl, init, n, ty, E)
                + "static void t%d(void) { U r = (U)h%d(%s); printf(\"%d %%s %%llx\\n\", T%d, r); }\n" % (n, n, ", ".join(args), n, n))
    ps = ", ".join(params) or "void"
    return pre + g + "static void u%d(%s) {%s%s %s%s }\nstatic void t%d(void) { u%d(%s); }\n" % (n, ps, decl, init, body, tail, n, n, ", ".join(args))


def has(e, kinds):
    return e["k"] in kinds or any(isinstance(x, dict) and has(x, kinds) for x in e.values())


def enc(e):
    r = {}
    for k, v in e.items():
        r[k] = enc(v) if isinstance(v, dict) else list((v & M64).to_bytes(8, "little")) if k == "v" else v
    return r


CONSTS = [0, 1, 2, 3, 4, 8, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, (1 << 63) - 1, 1 << 63, M64]


BIN = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", ">", "<=", ">=", "==", "!="]


def matrix(rng):
    """every binary operator, every such constant, a variable of each width"""
    for op in BIN:
        for v in CONSTS:
            for ts in (("long", "ulong", "llong", "ullong"), ("int", "uint"), ("bool", "char", "schar", "uchar", "short", "ushort")):
                for flip in (False, True):
                    t = rng.choice(ts)
                    c = dict(k="lit", t=rng.choice([x for x in SUF if v < 1 << (W[x] - (x in SG))]), v=v)
                    x = rng.choice([corner(rng, W[t]), ~v ^ rng.getrandbits(64), v ^ (1 << rng.randrange(64)), rng.getrandbits(64)]) & ((1 << W[t]) - 1)
                    g = Gen(rng, False)
                    g.vars.append(dict(t=t, w=0, v=x, rw=False))
                    a = dict(k="var", i=1)
                    yield g, dict(k="bin", op=op, a=c, b=a) if flip else dict(k="bin", op=op, a=a, b=c)


def withconst(rng):
    """one operator, a variable and a constant compilers have special cases for"""
    g = Gen(rng, False)
    v = rng.choice(CONSTS)
    ts = [t for t in SUF if v < 1 << (W[t] - (t in SG))]
    c = dict(k="lit", t=rng.choice(ts), v=v)
    if rng.random() < .25:
        c = dict(k="un", op=rng.choice("--~"), a=c)
    if rng.random() < .2:
        c = dict(k="cast", t=rng.choice(TYPES), a=c)
    i = g.newvar(False)
    if rng.random() < .5:
        x = g.vars[-1]
        x["v"] = rng.choice([v, ~v & M64, v ^ (1 << rng.randrange(64)), (~v ^ (1 << rng.randrange(64))) & M64, (v + 1) & M64, 1 << 32, 1 << 63, M64 << 32 & M64]) & ((1 << (x["w"] or W[x["t"]])) - 1)
    a = dict(k="var", i=i)
    if rng.random() < .1:
        a = dict(k="cast", t=rng.choice(TYPES), a=a)
    k = rng.random()
    if k < .1:
        g.vars[-1]["rw"] = True
        return g, dict(k="opasg", op=rng.choice(["+", "-", "*", "&", "|", "^", "/", "%", "<<", ">>"]), i=i, a=c)
    if k < .2:
        e = dict(k="logic", op=rng.choice(["&&", "||"]), a=a, b=c)
    elif k < .25:
        return g, dict(k="cond", c=a, a=c, b=dict(k="lit", t="int", v=1)) if rng.random() < .5 else dict(k="cond", c=c, a=a, b=dict(k="lit", t="int", v=7))
    else:
        e = dict(k="bin", op=rng.choice(BIN), a=a, b=c)
    if rng.random() < .3:
        e["a"], e["b"] = e["b"], e["a"]
    return g, e


def make(ctx, rng, count):
    cases = []
    for g, e in [x for _ in range(6 if ctx.thorough else 1) for x in matrix(rng)] + [withconst(rng) for _ in range(count // 4)]:
        cases.append(dict(e=e, vars=g.vars, use=rng.choice(["value", "value", "cond", "conv"]), u=rng.choice(TYPES), labels=[]))
    for _ in range(count):
        const = rng.random() < .15
        g = Gen(rng, const)
        e, _, mod = g.expr(rng.choice([1, 1, 1, 2, 2, 2, 3, 3, 4, 5, 7]))
        use = rng.choice(["value"] * 4 + ["cond", "cond", "conv", "conv", "switch"])
        if const and rng.random() < .6 and not has(e, ("comma",)):
            use = "static"
        labels = []
        if use == "switch":
            vals = set()
            for _ in range(rng.randint(1, 6)):
                v = rng.choice([0, 1, 1, 2, 3, 7, 255, 256, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1])
                neg = rng.random() < .3 and 0 < v < 1 << 63
                vals.add((neg, v))
            labels = [dict(n=a, v=b) for a, b in sorted(vals)]
        cases.append(dict(e=e, vars=g.vars, use=use, u=rng.choice(TYPES), labels=labels))
    exp = ctx.eval("CInt", [dict(e=enc(c["e"]), vars=[dict(t=v["t"], w=v["w"], v=list(v["v"].to_bytes(8, "little"))) for v in c["vars"]],
                                 use=c["use"] if c["use"] != "static" else "value", u=c["u"],
                                 labels=[dict(n=l["n"], m=list(l["v"].to_bytes(8, "little"))) for l in c["labels"]]) for c in cases], "Outcome")
    res = []
    for c, x in zip(cases, exp):
        if x["ub"]:
            continue
        if c["use"] == "switch":    # labels distinct once converted
            t = x["t"] if x["t"] != "bits" else "int"
            w = max(W[t], 32)
            seen, ok = set(), True
            for l in c["labels"]:
                k = (-l["v"] if l["n"] else l["v"]) % (1 << w)
                ok &= k not in seen
                seen.add(k)
            if not ok:
                c["use"] = "value"
                continue
        c["bits"] = x["t"] == "bits"
        num = lambda b: int.from_bytes(bytes(b), "little")
        c["want"] = [x["t"], "%x" % num(x["v"])] + ["%x" % num(s) for s, v in zip(x["st"], c["vars"]) if v["rw"]]
        res.append(c)
    return res


def program(items):
    """items: (number, case, storage style, seed)"""
    import random
    t, tail = PRE, ""
    for n, c, style, seed in items:
        c.pop("tail", None)
        t += emit(n, c, random.Random(seed), style)
        tail += c.get("tail", "")
    return t + "int main(void) {" + "".join(" t%d();" % n for n, _, _, _ in items) + " return 0; }\n" + tail


def check(ctx):
    ctx.model("MCInt", "CONSTANTS Small = {0, 1, 2, 3, 7, 127, 128, 200, 255}\nLarge = {%s}\n" % ("8, 15, 16, 24, 31, 32, 33, 63, 64" if ctx.thorough else "8, 31, 32, 63, 64"),
              ["Native", "Laws", "Wraps", "Ring", "Comm"], extra_cfg="CHECK_DEADLOCK FALSE\n")
    cjit = ctx.build()
    rng = ctx.rng
    cases = make(ctx, rng, 60000 if ctx.thorough else 9000)
    ctx.log("%d defined expressions" % len(cases))
    items = []
    for n, c in enumerate(cases):
        for k in range(2):
            style = "lit" if k and not c["vars"] == [] and rng.random() < .4 else "mix"
            if not c["vars"] and k:
                continue
            items.append((len(items), c, style, rng.random()))
    groups = [items[i:i + 50] for i in range(0, len(items), 50)]

    def run(group):
        d = ctx.dir()
        src = program(group)
        open(d + "/e.c", "w").write(src)
        r = ctx.run([cjit, "-q", "e.c"], cwd=d)
        shutil.rmtree(d, ignore_errors=True)
        got = {}
        for l in r.out.decode("latin-1").split("\n"):
            p = l.split()
            if p and p[0].isdigit():
                got[int(p[0])] = p[1:]
        return r, got, src

    def want(c, body):
        return c["want"]

    def go(group):
        r, got, src = run(group)
        bad = [it for it in group if not same(it, got.get(it[0]))]
        if r.rc != 0 and not bad:
            bad = group[:1]
        found = 0
        for it in bad:
            if found == 3:
                break
            r1, g1, s1 = run([it])
            found += 1
            if r1.rc != 0 or not same(it, g1.get(it[0])):
                c = it[1]
                ctx.violation("expr", "%s\n  gives %s, expected %s (status %d %s)" % (s1[len(PRE):][:1500], g1.get(it[0]), c["want"], r1.rc, r1.err.decode("latin-1")[:200]),
                              dict(source=s1, expected=c["want"], got=g1.get(it[0])))
            else:
                found -= 1
        if bad and not found:
            it = bad[0]
            ctx.violation("expr", "expression right alone but wrong in a program: gives %s, expected %s" % (got.get(it[0]), it[1]["want"]),
                          dict(source=src, number=it[0], expected=it[1]["want"]))
        ctx.traces(len(group))

    def same(it, got):
        w = it[1]["want"]
        return got is not None and (got == w or len(got) == 2 and got == w[:2] and it[1]["use"] == "conv")

    ctx.pmap(go, groups)
    ctx.count("expressions", len(cases))
    for k in ("value", "cond", "conv", "switch", "static"):
        ctx.count("use_" + k, sum(c["use"] == k for c in cases))
    ctx.sample(dict(source=program(items[:2]), expected=[i[1]["want"] for i in items[:2]]))
