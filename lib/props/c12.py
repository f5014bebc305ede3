"""C12: the preprocessor (spec/Macro.tla, Cond.tla)."""
import os, re, shutil

TECHNIQUE = "TLA+ semantics of macro replacement (hide sets) and of conditional inclusion (line machine), TLC-computed outcomes compared with cjit and its preprocessor"
LEVEL = "model_checking"
NOTE = ("Macro replacement and conditional inclusion are specified in TLA+ and model checked against their laws; random macro sets and texts with nesting, recursion, stringizing, pasting, "
        "variadic and empty arguments, and random nests of conditionals with 64-bit arithmetic, skipped rubbish and changing macros are decided by TLC and compared with cjit runs and the token stream.")

RESERVED = set()


# ------------------------------------------------------------------ macros
def tok(t, k, sp=False):
    return dict(t=list(t), k=k, sp=sp)


IDS = ["a", "b", "cc", "d1", "_e", "if", "int", "x", "y", "E"]
NUMS = ["1", "0", "42", "2.5", "1e3", "0x1F", "7u", ".5", "10L"]
STRS = ['"s"', '""', '"a b"', '"q\\"q"', '"\\\\"', '"\\n"', "'c'", "'\"'", "'\\''", "'\\\\'", '"/*x*/"', '"//"', '","', '"("', "')'", '"a  b"']
PUNS = ["+", "-", "*", "/", "%", "=", "==", "<", ">", "<<", ">>", "->", "++", "--", "&", "&&", "|", "||", "!", "!=", "~", "^", "?", ":", ";", ".", "[", "]", "{", "}", "+=", "<=", ">>=", "...", "|="]
ONAMES = ["foo", "bar", "o", "OBJ", "E2"]
FNAMES = ["f", "g", "h2", "CAT", "APPLY"]
PN = ["x", "y", "z", "a"]


class MGen:
    def __init__(self, rng, extra):
        self.rng = rng
        r = rng
        self.ms = []
        self.names = {}
        for n in r.sample(ONAMES, r.randint(0, 3)):
            self.names[n] = None
        for n in r.sample(FNAMES, r.randint(1, 3)):
            k = r.choice([0, 1, 1, 1, 2, 2, 3])
            va = r.random() < .3
            gnu = va and r.random() < .3
            self.names[n] = dict(ps=r.sample(PN, k), va=va, rest="rest" if gnu else "__VA_ARGS__")
        self.extra = extra
        allnames = dict(self.names)
        for m in extra:
            allnames[m] = None
        self.all = allnames
        for n, f in self.names.items():
            self.ms.append(self.macro(n, f))

    def simple(self, sp=None):
        r = self.rng
        k = r.random()
        s = r.random() < .5 if sp is None else sp
        if k < .4:
            return tok(r.choice(IDS), "id", s)
        if k < .6:
            return tok(r.choice(NUMS), "num", s)
        if k < .7:
            return tok(r.choice(STRS), "str", s)
        return tok(r.choice(PUNS), "pun", s)

    def call(self, n, depth, inner):
        """invocation tokens of function-like n"""
        r = self.rng
        f = self.all[n]
        out = [tok(n, "id", r.random() < .5), tok("(", "pun", r.random() < .2)]
        k = len(f["ps"])
        args = [self.seq(r.choice([0, 1, 1, 1, 2, 3]), depth - 1, inner, True) for _ in range(k)]
        if f["va"]:
            if r.random() < .8 or k == 0:
                args += [self.seq(r.choice([0, 1, 1, 2]), depth - 1, inner, True) for _ in range(r.choice([1, 1, 2, 3]))]
        for i, a in enumerate(args):
            if i:
                out.append(tok(",", "pun", r.random() < .2))
            out += a
        out.append(tok(")", "pun", r.random() < .2))
        return out

    def seq(self, n, depth, inner=None, arg=False):
        r = self.rng
        out = []
        for _ in range(n):
            k = r.random()
            if inner and k < .35:
                out.append(tok(r.choice(inner), "id", r.random() < .5))
            elif k < .55 and depth > 0:
                n_ = r.choice(list(self.all))
                if self.all[n_] is None:
                    out.append(tok(n_, "id", r.random() < .5))
                elif r.random() < .85:
                    out += self.call(n_, depth, inner)
                else:
                    out.append(tok(n_, "id", r.random() < .5))
            elif k < .63 and depth > 0:
                out += [tok("(", "pun", r.random() < .5)] + self.seq(r.randint(0, 3), depth - 1, inner) + [tok(")", "pun", r.random() < .3)]
            elif k < .68 and not arg:
                out.append(tok(",", "pun", r.random() < .3))
            else:
                out.append(self.simple())
        return out

    def macro(self, n, f):
        r = self.rng
        if f is None:
            body = self.seq(r.choice([0, 1, 1, 2, 3, 4]), 2)
            ps = []
            if r.random() < .15:     # ## in an object-like macro
                body = [tok(r.choice(IDS[:5]), "id", True), tok("##", "op", True), tok(r.choice(IDS[:5] + NUMS[:3]), "id" if False else "id", True)]
                if body[2]["t"][0].isdigit():
                    body[2]["k"] = "num"
                body += self.seq(r.choice([0, 0, 1]), 1)
            if r.random() < .1:       # an open call
                fs = [x for x in self.all if self.all[x]]
                if fs:
                    body = body + [tok(r.choice(fs), "id", True)] + ([tok("(", "pun", False)] if r.random() < .5 else [])
            return dict(n=list(n), fn=False, ps=[], va=False, body=body)
        ps = list(f["ps"]) + ([f["rest"]] if f["va"] else [])
        body = []
        for _ in range(r.choice([0, 1, 2, 2, 3, 4])):
            k = r.random()
            if ps and k < .15:
                body += [tok("#", "op", r.random() < .5), tok(r.choice(ps), "id", r.random() < .3)]
            elif ps and k < .35:
                a = tok(r.choice(ps), "id", r.random() < .5) if r.random() < .7 else tok(r.choice(IDS[:5]), "id", True)
                b = tok(r.choice(ps), "id", r.random() < .5) if r.random() < .7 else (tok(r.choice(IDS[:5]), "id", True) if r.random() < .6 else tok(r.choice(["1", "0", "42"]), "num", True))
                body += [a, tok("##", "op", r.random() < .5), b]
                if r.random() < .2:
                    body += [tok("##", "op", r.random() < .5), tok(r.choice(ps + IDS[:3]), "id", False)]
            elif f["va"] and k < .45 and f["ps"]:
                body += [self.simple(), tok(",", "pun", r.random() < .5), tok("##", "op", r.random() < .5), tok(f["rest"], "id", r.random() < .5)]
            else:
                body += self.seq(1, 2, ps or None)
        return dict(n=list(n), fn=True, ps=[list(p) for p in ps], va=f["va"], body=body)


def glue(a, b):
    """must there be white space between the two tokens"""
    if a["k"] in ("id", "num") and b["k"] in ("id", "num"):
        return True
    if a["k"] == "id" and b["k"] == "str":
        return True
    if a["k"] == "num" and b["k"] == "pun" and b["t"][0] in "+-.":
        return True
    solid = set("()[]{},;")
    if a["k"] in ("pun", "op") and b["k"] in ("pun", "op"):
        return not (set(a["t"]) & solid or set(b["t"]) & solid)
    if a["k"] == "pun" and a["t"][-1] == "." and b["k"] == "num":
        return True
    if a["k"] == "num" and b["k"] == "str" or a["k"] == "str" and b["k"] in ("id", "num"):
        return True
    return False


def fixsp(ts, first=False):
    for i, x in enumerate(ts):
        if i and not x["sp"] and glue(ts[i - 1], x):
            x["sp"] = True
    if ts and not first:
        ts[0]["sp"] = False
    return ts


def blank(rng, line):
    k = rng.random()
    if k < .6:
        return " "
    if k < .8:
        return rng.choice(["  ", "\t", " \t ", "   "])
    if k < .9:
        return rng.choice(["/**/", " /* , ( */ ", "/*\"*/"])
    if k < .95:
        return "\\\n " if rng.random() < .5 else " \\\n"
    return "\n" if line else " "


def text(ts, rng, line):
    s = ""
    for i, x in enumerate(ts):
        if x["sp"] and i:
            b = blank(rng, line and x["t"][0] != "#")
            s += " " if s[-1] == "/" and b[0] == "/" else b
        elif i and rng.random() < .03:
            s += "\\\n"
        s += "".join(x["t"])
    return s


def define(m, rng):
    h = "".join(m["n"])
    if m["fn"]:
        ps = ["".join(p) for p in m["ps"]]
        if m["va"]:
            ps[-1] = "..." if ps[-1] == "__VA_ARGS__" else ps[-1] + rng.choice(["...", " ..."])
        h += "(" + rng.choice([",", ", ", " , "]).join(ps) + ")"
    b = text(m["body"], rng, False)
    return "#%sdefine %s%s\n" % (rng.choice(["", "", " ", "\t"]), h, " " + b if b or not m["fn"] else "")


def setup(c, rng, order):
    """lines that establish the macros of the case"""
    ms = list(c["own"])
    order.shuffle(ms)
    s = ""
    for m in ms:
        n = "".join(m["n"])
        k = rng.random()
        if k < .08:
            s += "#define %s %s\n#undef %s\n" % (n, rng.choice(["1", "(", "gone", n]), n)
        elif k < .12:
            s += "#define %s(q, ...) q\n# undef %s\n" % (n, n)
        elif k < .16:
            s += "#undef %s\n" % n
        d = define(m, rng)
        s += d
        if k > .95:
            s += d
    return s


def teardown(c):
    return "".join("#undef %s\n" % "".join(m["n"]) for m in c["own"])


STRM = dict(n=list("STR"), fn=True, ps=[list("__VA_ARGS__")], va=True, body=[tok("#", "op"), tok("__VA_ARGS__", "id")])
HEAD = "extern int printf(const char *, ...);\n#define STR(...) #__VA_ARGS__\n#define XSTR(...) STR(__VA_ARGS__)\n"


def lex(s):
    """preprocessing tokens of a text"""
    pat = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|\.?[0-9](?:[eEpP][+-]|[A-Za-z0-9_.])*|[A-Za-z_]\w*|\.\.\.|<<=|>>=|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|##|.', re.S)
    return [t for t in pat.findall(s) if not t.isspace()]


def squeeze(s):
    """without white space (where it stays between the tokens of an expansion is up to the implementation, and # shows it)"""
    return re.sub(r"\s+", "", s)


def unquote(lit):
    out, i = "", 1
    while i < len(lit) - 1:
        if lit[i] == "\\":
            i += 1
            out += {"n": "\n", "t": "\t"}.get(lit[i], lit[i])
        else:
            out += lit[i]
        i += 1
    return out


def macros(ctx, cjit, pp):
    rng = ctx.rng
    n = 16000 if ctx.thorough else 2600
    per = 25
    batches, cases = [], []
    for b in range((n + per - 1) // per):
        ds = []
        for i in range(rng.choice([0, 1, 2])):
            v = rng.choice([None, "1", "77", "foo", "f", "zz9", "D%d" % rng.randrange(2)])
            ds.append(("D%d" % i, v))
        dm = [dict(n=list(k), fn=False, ps=[], va=False, body=[] if v == "" else [tok(v or "1", "num" if (v or "1")[0].isdigit() else "id")]) for k, v in ds]
        for _ in range(per):
            g = MGen(rng, [k for k, _ in ds])
            for m in g.ms:
                fixsp(m["body"])
            t = fixsp(g.seq(rng.choice([1, 2, 3, 5, 7]), 3))
            if not t:
                continue
            cases.append(dict(own=g.ms, ms=g.ms + dm, text=t, batch=b, ds=ds))
    inv = lambda c: [tok("STR", "id"), tok("(", "pun")] + c["text"] + [tok(")", "pun")]
    res = ctx.eval("Macro", [dict(ms=c["ms"], text=c["text"]) for c in cases] + [dict(ms=c["ms"] + [STRM], text=inv(c)) for c in cases], op="Outcome")
    live = []
    for c, r, s in zip(cases, res, res[len(cases):]):
        if not r["ok"]:
            continue
        c["toks"] = ["".join(x["t"]) for x in r["out"]]
        c["flat"] = "".join(c["toks"])
        c["str"] = "".join(s["out"][0]["t"]) if s["ok"] and len(s["out"]) == 1 else None
        d, c["plain"] = 0, True        # the expansion is an argument again on the string route
        for x in c["toks"]:
            d += (x == "(") - (x == ")")
            c["plain"] &= d >= 0
        c["plain"] &= d == 0
        c["id"] = len(live)
        c["seed"] = rng.getrandbits(32)
        live.append(c)
    ctx.log("%d of %d macro cases are defined by the standard" % (len(live), len(cases)))
    import random

    def program(cs):
        src = HEAD
        for c in cs:
            r = random.Random(c["seed"])
            src += setup(c, r, r)
            t = text(c["text"], r, True)
            src += "const char *x%d = %s(%s);\nconst char *s%d = STR(%s);\n" % (c["id"], "XSTR" if c["plain"] else "STR", t, c["id"], t)
            src += teardown(c)
        src += "int main(void)\n{\n" + "".join('    printf("\\001%d\\002%%s\\003%%s", x%d, s%d);\n' % (c["id"], c["id"], c["id"]) for c in cs) + '    printf("\\001");\n    return 0;\n}\n'
        return src

    def flags(cs):
        return ["-D" + k + ("" if v is None else "=" + v) for k, v in cs[0]["ds"]]

    def run1(cs):
        d = ctx.dir()
        src = program(cs)
        open(d + "/p.c", "w").write(src)
        r = ctx.run([cjit, "-q"] + flags(cs) + ["p.c"], cwd=d)
        shutil.rmtree(d, ignore_errors=True)
        got = {}
        for p in r.out.decode("latin-1").split("\1"):
            m = re.match("([0-9]+)\2(.*)\3(.*)\\Z", p, re.S)
            if m:
                got[int(m.group(1))] = (m.group(2), m.group(3))
        return r, got, src

    def ok1(c, got):
        return c["id"] in got and (not c["plain"] or squeeze(got[c["id"]][0]) == squeeze(c["flat"])) and (c["str"] is None or got[c["id"]][1] == unquote(c["str"]))

    def run2(cs):
        d = ctx.dir()
        src = ""
        for c in cs:
            r = random.Random(c["seed"] + 1)
            src += setup(c, r, r) + "BEGIN__ %d\n%s\nEND__\n" % (c["id"], text(c["text"], r, True)) + teardown(c)
        open(d + "/p.c", "w").write(src)
        r = ctx.run([pp, "p.c"] + flags(cs), cwd=d)
        shutil.rmtree(d, ignore_errors=True)
        got, cur = {}, None
        ts = lex(r.out.decode("latin-1"))
        i = 0
        while i < len(ts):
            if ts[i] == "BEGIN__" and i + 1 < len(ts):
                cur = got[int(ts[i + 1])] = []
                i += 1
            elif ts[i] == "END__":
                cur = None
            elif cur is not None:
                cur.append(ts[i])
            i += 1
        return r, got, src

    def norm(ts):
        """white space only counts between words and numbers (the printed form need not keep other tokens apart)"""
        s = ""
        for t in ts:
            s += (" " if s and re.match(r"\w", t) and re.match(r"\w", s[-1]) else "") + squeeze(t)
        return s

    def ok2(c, got):
        return c["id"] in got and norm(got[c["id"]]) == norm(c["toks"])

    def go(cs):
        for run, ok, kind in ((run1, ok1, "string"), (run2, ok2, "tokens")):
            r, got, src = run(cs)
            bad = [c for c in cs if not ok(c, got)] or (cs if r.rc else [])
            hit = 0
            for c in bad:
                if hit >= 2:
                    break
                r1, g1, s1 = run([c])
                if r1.rc != 0 or not ok(c, g1):
                    hit += 1
                    w = (c["flat"], c["str"]) if kind == "string" else c["toks"]
                    ctx.violation("macro", "%s\n gives %r, expected %r (status %d %s)" % (s1[-1500:], g1.get(c["id"]), w, r1.rc, r1.err.decode("latin-1")[:300]),
                                  dict(source=s1, expected=w, got=g1.get(c["id"]), flags=flags([c]), route=kind))
            if bad and not hit:
                c = bad[0]
                ctx.violation("macro", "right alone, wrong after other macros: %r, expected %r (status %d %s)" % (got.get(c["id"]), c["flat"], r.rc, r.err.decode("latin-1")[:300]),
                              dict(source=src, number=c["id"], flags=flags(cs), route=kind))
        ctx.traces(2 * len(cs))
    by = {}
    for c in live:
        by.setdefault(c["batch"], []).append(c)
    ctx.pmap(go, list(by.values()))
    ctx.count("macro_cases", len(live))
    if live:
        ctx.sample(dict(source=program(live[:1]), tokens=live[0]["toks"]))


# ------------------------------------------------------------- conditionals
M64 = (1 << 64) - 1


def digits(v):
    out = []
    while v:
        out.append(v & 255)
        v >>= 8
    return out


class CGen:
    def __init__(self, rng, pre):
        self.rng, self.pre = rng, pre
        self.names = ["A", "B", "C", "DD"]
        self.nm = 0

    def lit(self):
        r = self.rng
        if r.random() < .1:
            ch, v = r.choice([("'a'", 97), ("'0'", 48), ("'\\0'", 0), ("'\\n'", 10), ("'\\''", 39), ("'\\x41'", 65), ("'\\101'", 65), ("'\\377'", M64), ("'('", 40), ("'\"'", 34), ("L'b'", 98)])
            return dict(k="lit", t="llong", v=digits(v) if v != M64 else [1], txt=ch) if v != M64 else dict(k="un", op="-", a=dict(k="lit", t="llong", v=[1]), txt=ch)
        k = r.random()
        v = r.randrange(4) if k < .4 else r.randrange(100) if k < .6 else (1 << r.choice([31, 32, 33, 62, 63])) + r.choice([-1, 0, 1]) if k < .85 else r.randrange(1 << r.choice([31, 32, 63, 64]))
        v &= M64
        u = r.random() < .2
        base = r.choice(["%d", "%d", "0x%x", "0X%X", "0%o"])
        if v >> 63 and not u and base == "%d":
            u = True
        suf = r.choice(["", "", "", "l", "L", "ll", "LL"])
        if u:
            suf = r.choice(["u" + suf, suf + "U"]) if suf else r.choice("uU")
        return dict(k="lit", t="ullong" if u or v >> 63 else "llong", v=digits(v), txt=base % v + suf)

    def expr(self, n):
        r = self.rng
        if n <= 0:
            k = r.random()
            if k < .3:
                return dict(k="mac", n=r.choice(self.names + self.pre), paren=r.random() < .5)
            if k < .5:
                return dict(k="def", n=r.choice(self.names + self.pre), paren=r.random() < .5)
            return self.lit()
        k = r.random()
        if k < .15:
            return dict(k="un", op=r.choice(["!", "!", "-", "~", "+"]), a=self.expr(n - 1))
        m = r.randrange(n)
        if k < .4:
            return dict(k="logic", op=r.choice(["&&", "||"]), a=self.expr(m), b=self.expr(n - 1 - m))
        if k < .5:
            return dict(k="cond", c=self.expr(m), a=self.expr((n - m) // 2), b=self.expr((n - m) // 2))
        op = r.choice(["==", "!=", "<", ">", "<=", ">=", "==", "<", ">", "+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"])
        b = self.expr(n - 1 - m)
        if op in ("<<", ">>") and r.random() < .7:
            v = r.choice([0, 1, 4, 31, 32, 40, 63])
            b = dict(k="lit", t="llong", v=digits(v), txt=str(v))
        if op in "/%" and r.random() < .7:
            v = r.choice([1, 2, 3, 10])
            b = dict(k="lit", t="llong", v=digits(v), txt=str(v))
        return dict(k="bin", op=op, a=self.expr(m), b=b)

    def value(self):
        r = self.rng
        k = r.random()
        if k < .65:
            x = self.lit()
            while x["k"] != "lit" or x["txt"][0] in "'L":
                x = self.lit()
            return dict(k="int", t=x["t"], v=x["v"], txt=x["txt"])
        if k < .75:
            return dict(k="empty")
        return dict(k="name", n=r.choice(self.names + ["Z"]))

    def mark(self):
        self.nm += 1
        return dict(k="mark", id="m%d" % self.nm)

    def items(self, n, depth, live=True):
        """lines; live: may be reached"""
        r = self.rng
        out = []
        for _ in range(n):
            k = r.random()
            if k < .35 and depth > 0:
                out += self.chain(depth - 1, live)
            elif k < .6:
                out.append(self.mark())
            elif k < .7:
                out.append(dict(k="def", n=r.choice(self.names), v=self.value()))
            elif k < .76:
                out.append(dict(k="undef", n=r.choice(self.names + ["Z"])))
            elif k < .82:
                out.append(dict(k="val", n=r.choice(self.names)))
            elif k < .88:
                out.append(dict(k=r.choice(["push", "pop"]), n=r.choice(self.names)))
            elif not live or k < .9:
                out.append(dict(k="junk", j=r.randrange(len(JUNK))) if r.random() < .7 else dict(k="error", id="e%d" % r.randrange(100)))
            else:
                out.append(self.mark())
        return out

    def chain(self, depth, live):
        r = self.rng
        dead = not live
        arms = []
        k = r.random()
        fixed = None
        if k < .2:
            fixed = r.random() < .5
            v = [1] if fixed else []
            out = [dict(k="if", e=dict(k="lit", t="llong", v=v, txt="1" if fixed else "0"))]
        elif k < .4:
            out = [dict(k=r.choice(["ifdef", "ifndef"]), n=r.choice(self.names + self.pre))]
        else:
            out = [dict(k="if", e=self.expr(r.choice([0, 1, 2, 3, 5])))]
        if dead and r.random() < .3:
            out = [dict(k="if", e=dict(k="lit", t="llong", v=[], txt="0"), raw=r.choice(["(", "1 +", "garbage here", "'", "1/0", "", "defined", "\"s\""]))]
        out += self.items(r.choice([0, 1, 1, 2, 3]), depth, live and fixed is not False)
        past = fixed is True
        for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
            l = dict(k="elif", e=self.expr(r.choice([0, 1, 2, 3])))
            if (dead or past) and r.random() < .4:
                l["raw"] = r.choice(["(", "1/0", "no such thing", "1 +", "defined(", "'x"])
            out += [l] + self.items(r.choice([0, 1, 1, 2]), depth, live and not past)
        if r.random() < .5:
            out += [dict(k="else")] + self.items(r.choice([0, 1, 1, 2]), depth, live and not past)
        return out + [dict(k="endif")]


JUNK = ["@ $ `", "#include <no/such/file.h>", "#include \"nowhere.h\"", "#no_such_directive 1 2", "it's", "\"open", "/* comment\n#endif\n#else\n*/ junk", "// #endif \\\n#endif", "#define", "#undef 1", "\"#endif\\\n#endif\"",
        "#define M(", "# 12 ( )", "#pragma GCC error", "'", "#line 0 x", "#if_not_this", "# endif_", "#elsewhere", "x #endif", "#", "##", "/**/ # warning w", "#define X 1 /* \n#endif */"]
PREC = {"||": 1, "&&": 2, "|": 3, "^": 4, "&": 5, "==": 6, "!=": 6, "<": 7, ">": 7, "<=": 7, ">=": 7, "<<": 8, ">>": 8, "+": 9, "-": 9, "*": 10, "/": 10, "%": 10}


def exprtext(e, rng, ren, p=0):
    k = e["k"]
    if "txt" in e:
        return e["txt"]
    if k == "mac":
        return ren(e["n"])
    if k == "def":
        return ("defined(%s)" if e["paren"] else "defined %s") % ren(e["n"])
    if k == "un":
        a = exprtext(e["a"], rng, ren, 11)
        s, q = e["op"] + (" " if a[0] == e["op"] else rng.choice(["", "", " "])) + a, 11
    elif k == "cond":
        s, q = "%s ? %s : %s" % (exprtext(e["c"], rng, ren, 1), exprtext(e["a"], rng, ren, 0), exprtext(e["b"], rng, ren, 0)), 0
    else:
        q = PREC[e["op"]]
        sp = rng.choice(["", " ", " ", "\t", "/* c */"])
        a, b = exprtext(e["a"], rng, ren, q), exprtext(e["b"], rng, ren, q + 1)
        if e["op"] == "/" and sp[:1] == "/" or not sp and (b[0] in "+-&|<>=!" or a[-1] in "eEpP" or a[-1] in "'"):
            sp = " "
        s = a + sp + e["op"] + (sp if b[0] != "'" else " ") + b
    return "(" + s + ")" if q < p or rng.random() < .1 else s


def condtext(c, rng, n):
    ren = lambda x: x if x in c["pre"] else "%s_%d" % (x, n)
    s = ""
    for l in c["lines"]:
        k = l["k"]
        h = rng.choice(["#", "#", "#", "  #", "# ", "/* # */ # ", "\t#\t", "#\\\n"])
        end = rng.choice(["", "", "", " ", " // c", " /* x */", "\t/* two\nlines */ "])
        if k in ("if", "elif"):
            e = l.get("raw")
            if e is None:
                e = exprtext(l["e"], rng, ren)
                e = ("(" + e + ")" if rng.random() < .2 else " " + e)
            else:
                e, end = " " + e, ""
            if k == "elif" and e[0] == "(":
                e = " " + e
            s += h + k + e + end + "\n"
        elif k in ("ifdef", "ifndef", "undef"):
            s += "%s%s %s%s\n" % (h, k, ren(l["n"]), end)
        elif k in ("else", "endif"):
            s += h + k + end + "\n"
        elif k == "def":
            v = l["v"]
            s += "#undef %s\n" % ren(l["n"])
            s += "%sdefine %s%s%s\n" % (h, ren(l["n"]), {"int": lambda: " " + v["txt"], "empty": lambda: "", "name": lambda: " " + ren(v["n"])}[v["k"]](), end)
        elif k in ("push", "pop"):
            s += "#pragma %s_macro(\"%s\")\n" % (k, ren(l["n"]))
        elif k == "mark":
            s += "XSTR(%s)%s,\n" % (l["id"], rng.choice(["", " ", "/* \n */"]))
        elif k == "val":
            s += "XSTR(%s),\n" % ren(l["n"])
        elif k == "error":
            s += "%serror %s\n" % (h, l["id"])
        else:
            s += JUNK[l["j"]] + "\n"
    return s


PRE = [("__STDC__", 1), ("__x86_64__", 1), ("__LP64__", 1), ("__SIZEOF_POINTER__", 8), ("__SIZEOF_INT__", 4), ("__SIZEOF_LONG__", 8), ("__CHAR_BIT__", 8), ("__INT_MAX__", 0x7fffffff), ("__LONG_MAX__", (1 << 63) - 1)]


def conds(ctx, cjit):
    rng = ctx.rng
    import random
    cases = []
    n = 20000 if ctx.thorough else 3200
    for i in range(n):
        ds = [] if i % 4 else [("CMD", rng.choice([None, "0", "5", "0x10", "18446744073709551615u", "A"]))]
        pre = [k for k, _ in rng.sample(PRE, 1)] + [k for k, _ in ds]
        env = [dict(n=k, v=dict(k="int", t="llong", v=digits(v), txt="")) for k, v in PRE if k in pre]
        for k, v in ds:
            if v == "A":
                env.append(dict(n=k, v=dict(k="name", n="A?")))     # names the A of no case
            else:
                v = v or "1"
                x = int(v.rstrip("u"), 0)
                env.append(dict(n=k, v=dict(k="int", t="ullong" if x >> 63 else "llong", v=digits(x), txt=v)))
        g = CGen(rng, pre)
        lines = g.items(rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 3, 4]))
        cases.append(dict(env=env, lines=lines, pre=pre, ds=ds))

    def strip(e):
        return {k: strip(v) if isinstance(v, dict) else v for k, v in e.items() if k not in ("paren", "txt")}
    res = ctx.eval("Cond", [dict(env=c["env"], lines=[dict(l, e=strip(l["e"])) if "e" in l else l for l in c["lines"]]) for c in cases], op="CondOutcome")
    live, errs = [], []
    for c, r in zip(cases, res):
        if r["st"] == "bad":
            continue
        c["want"], c["seed"] = r["out"], rng.getrandbits(32)
        (live if r["st"] == "run" else errs).append(c)
    for i, c in enumerate(live + errs):
        c["id"] = i
    ctx.log("%d conditional programs, %d stopped by #error" % (len(live), len(errs)))
    names = re.compile(r"^([A-Z]+)_\d+$")

    def program(cs):
        s = HEAD
        for c in cs:
            s += "const char *v%d[] = {\n%s0 };\n" % (c["id"], condtext(c, random.Random(c["seed"]), c["id"]))
        return s + "int main(void)\n{\n    int i;\n" + "".join('    for (i = 0; v%d[i]; i++) printf("%d %%s\\n", v%d[i]);\n    printf("%d .\\n");\n' % ((c["id"],) * 4) for c in cs) + "    return 0;\n}\n"

    def run(cs):
        d = ctx.dir()
        src = program(cs)
        open(d + "/p.c", "w").write(src)
        fl = ["-D" + k + ("" if v is None else "=" + v) for k, v in cs[0]["ds"]]
        r = ctx.run([cjit, "-q"] + fl + ["p.c"], cwd=d)
        shutil.rmtree(d, ignore_errors=True)
        got = {}
        for l in r.out.decode("latin-1").split("\n"):
            p = l.split(" ", 1)
            if len(p) == 2 and p[0].isdigit():
                got.setdefault(int(p[0]), []).append(names.sub(r"\1", p[1]))
        return r, got, src, fl

    def ok(c, got):
        return got.get(c["id"]) == c["want"] + ["."]

    def go(cs):
        r, got, src, fl = run(cs)
        bad = [c for c in cs if not ok(c, got)] or (cs if r.rc else [])
        hit = 0
        for c in bad:
            if hit >= 2:
                break
            r1, g1, s1, _ = run([c])
            if r1.rc != 0 or not ok(c, g1):
                hit += 1
                ctx.violation("cond", "%s\n lets through %r, expected %r (status %d %s)" % (s1[:1800], g1.get(c["id"]), c["want"], r1.rc, r1.err.decode("latin-1")[:300]),
                              dict(source=s1, expected=c["want"], got=g1.get(c["id"]), flags=fl))
        if bad and not hit:
            c = bad[0]
            ctx.violation("cond", "right alone, wrong in a longer file: %r, expected %r (status %d %s)" % (got.get(c["id"]), c["want"], r.rc, r.err.decode("latin-1")[:300]),
                          dict(source=src, number=c["id"], flags=fl))
        ctx.traces(len(cs))

    def stop(c):
        r, got, src, fl = run([c])
        if r.rc == 0 or r.out or b"#error " + c["want"][0].encode() not in r.err:
            r, got, src, fl = run([c])
            if r.rc == 0 or r.out or b"#error " + c["want"][0].encode() not in r.err:
                ctx.violation("cond", "%s\n must be stopped by #error %s (status %d, out %r, %s)" % (src[:1500], c["want"][0], r.rc, r.out[:100], r.err.decode("latin-1")[:300]),
                              dict(source=src, expected="error", flags=fl))
        ctx.traces(1)
    by = {}
    for c in live:
        by.setdefault(str(c["ds"]), []).append(c)
    groups = [g[i:i + 30] for g in by.values() for i in range(0, len(g), 30)]
    ctx.pmap(go, groups)
    ctx.pmap(stop, errs)
    ctx.count("conditional_programs", len(live))
    ctx.count("stopped_by_error", len(errs))
    if live:
        ctx.sample(dict(source=program(live[:1]), expected=live[0]["want"]))


def check(ctx):
    t = ctx.thorough
    ctx.model("MCMacro", "CONSTANTS BodyLen = 2\nTextLen = %d\n" % (3 if t else 2), ["Complete", "Inert", "Identity", "Empty", "NoOrder", "Known"], extra_cfg="CHECK_DEADLOCK FALSE\n")
    ctx.model("MCCond", "CONSTANT Full = %s\n" % ("TRUE" if t else "FALSE"), ["Agree", "One"], extra_cfg="CHECK_DEADLOCK FALSE\n")
    cjit = ctx.build()
    d = ctx.dir()
    drv = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..", "harness", "ppdrv.c")
    tree = ctx.tree()
    pp = ctx.cc(d + "/ppdrv", [drv], flags=["-I" + tree + "/lib/tinycc"], libs=[tree + "/lib/tinycc/libtcc.a", "-lm", "-ldl", "-lpthread"], san=False)
    macros(ctx, cjit, pp)
    conds(ctx, cjit)
