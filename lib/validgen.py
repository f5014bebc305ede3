"""Random translation units over the abstract syntax of spec/Valid.tla, their
C text, and random changes to them (which may or may not make them invalid)."""
import copy

ARITH = ["bool", "char", "uchar", "short", "int", "uint", "long", "ulong", "float", "double"]
WORD = dict(bool="_Bool", char="char", uchar="unsigned char", short="short", int="int", uint="unsigned", long="long", ulong="unsigned long",
            float="float", double="double", void="void")
T = lambda k: dict(k=k)
INT = T("int")
ptr = lambda t: dict(k="ptr", to=t)
arr = lambda t, n: dict(k="arr", to=t, n=n)
fun = lambda r, ps, va=False, old=False: dict(k="fun", ret=r, pars=ps, va=va, old=old)
num = lambda v: dict(k="num", v=v)
ident = lambda n: dict(k="id", n=n)
NOINIT = dict(k="none")
NOP = dict(k="nop")


# ---------------------------------------------------------------- C text
def base(t):
    k = t["k"]
    if k == "st":
        return ("union " if t["un"] else "struct ") + t["tag"]
    if k == "en":
        return "enum " + t["tag"]
    if k == "td":
        return t["n"]
    if k == "spec":
        return " ".join(t["w"])
    return WORD[k]


def declr(t, inner, names=None):
    k = t["k"]
    if k == "ptr":
        x = "*" + inner
        if t["to"]["k"] in ("arr", "fun"):
            x = "(" + x + ")"
        return declr(t["to"], x)
    if k == "arr":
        return declr(t["to"], inner + "[%s]" % ("" if t["n"] == -1 else t["n"]))
    if k == "fun":
        ps = [declr(p, names[i] if names else "") for i, p in enumerate(t["pars"])]
        if t["va"]:
            ps.append("...")
        if not ps:
            ps = [] if t["old"] else ["void"]
        return declr(t["ret"], inner + "(" + ", ".join(ps) + ")")
    return base(t) + (" " + inner if inner else "")


def ex(e):
    k = e["k"]
    if k == "num":
        return str(e["v"]) if e["v"] >= 0 else "(%d)" % e["v"]
    if k == "flt":
        return "2.5"
    if k == "str":
        return '"' + "abcdefghijklmnop"[:e["n"]] + '"'
    if k == "id":
        return e["n"]
    if k == "un":
        return "(%s%s)" % (e["o"], ex(e["a"]))
    if k == "bin":
        return "(%s %s %s)" % (ex(e["a"]), e["o"], ex(e["b"]))
    if k == "asg":
        return "(%s %s= %s)" % (ex(e["a"]), e["o"], ex(e["b"]))
    if k == "inc":
        return "(%s%s)" % (e["o"], ex(e["a"])) if e["pre"] else "(%s%s)" % (ex(e["a"]), e["o"])
    if k == "cond":
        return "(%s ? %s : %s)" % (ex(e["a"]), ex(e["b"]), ex(e["c"]))
    if k == "comma":
        return "(%s, %s)" % (ex(e["a"]), ex(e["b"]))
    if k == "call":
        return "%s(%s)" % (ex(e["f"]), ", ".join(ex(a) for a in e["x"]))
    if k == "mem":
        return "%s.%s" % (ex(e["a"]), e["n"])
    if k == "arrow":
        return "%s->%s" % (ex(e["a"]), e["n"])
    if k == "idx":
        return "%s[%s]" % (ex(e["a"]), ex(e["b"]))
    if k == "cast":
        return "((%s)%s)" % (declr(e["t"], ""), ex(e["a"]))
    if k == "szt":
        return "(sizeof(%s))" % declr(e["t"], "")
    if k == "sze":
        return "(sizeof(%s))" % ex(e["a"])
    if k == "clit":
        return "(%s)%s" % (declr(e["t"], ""), ini(e["i"]))
    raise Exception(k)


def ini(i):
    if i["k"] == "e":
        return ex(i["e"])
    r = []
    for x in i["x"]:
        d = "" if x["d"] == "" else (".%s = " % x["n"] if x["d"] == "." else "[%d] = " % x["v"])
        r.append(d + ini(x["i"]))
    return "{" + ", ".join(r) + "}"


def dc(d):
    k = d["k"]
    sto = d.get("sto", "")
    s = sto + " " if sto else ""
    if k == "var":
        return s + declr(d["t"], d["n"]) + ("" if d["i"]["k"] == "none" else " = " + ini(d["i"])) + ";"
    if k == "typedef":
        return "typedef " + declr(d["t"], d["n"]) + ";"
    if k == "stdef":
        return "%s %s { %s};" % ("union" if d["un"] else "struct", d["tag"],
                                 "".join(declr(m["t"], m["n"]) + (" : %d" % (m["bf"] if m["bf"] >= 0 else m["bf"] + 1) if m["bf"] != -1 else "") + "; "
                                         for m in d["mem"]))
    if k == "stdecl":
        return "%s %s;" % ("union" if d["un"] else "struct", d["tag"])
    if k == "enum":
        return "enum { %s };" % ", ".join(c["n"] + (" = " + ex(c["e"]) if c["has"] else "") for c in d["cs"])
    if k == "assert":
        return '_Static_assert(%s, "no");' % ex(d["e"])
    if k == "proto":
        return s + declr(d["t"], d["n"]) + ";"
    if k == "fun":
        return s + declr(dict(d["t"], k="fun"), d["n"], d["pn"]) + "\n{\n" + "".join(" " + st(x) + "\n" for x in d["body"]) + "}"
    raise Exception(k)


def st(s):
    k = s["k"]
    if k == "expr":
        return ex(s["e"]) + ";"
    if k == "nop":
        return ";"
    if k == "decl":
        return dc(s["d"])
    if k == "block":
        return "{ " + " ".join(st(x) for x in s["b"]) + " }"
    if k == "if":
        return "if (%s) %s" % (ex(s["c"]), blk(s["b"])) + (" else " + blk(s["e"][0]) if s["e"] else "")
    if k == "while":
        return "while (%s) %s" % (ex(s["c"]), blk(s["b"]))
    if k == "do":
        return "do %s while (%s);" % (blk(s["b"]), ex(s["c"]))
    if k == "for":
        return "for (%s %s; %s) %s" % (st(s["i"]), ex(s["c"]), ex(s["u"]), blk(s["b"]))
    if k == "switch":
        return "switch (%s) %s" % (ex(s["c"]), blk(s["b"]))
    if k == "case":
        return "case %s: %s" % (ex(s["e"]), st(s["b"]))
    if k == "default":
        return "default: " + st(s["b"])
    if k in ("break", "continue"):
        return k + ";"
    if k == "return":
        return "return %s;" % ex(s["e"][0]) if s["e"] else "return;"
    if k == "label":
        return "%s: %s" % (s["n"], st(s["b"]))
    if k == "goto":
        return "goto %s;" % s["n"]
    raise Exception(k)


def blk(s):
    return st(s) if s["k"] == "block" else "{ " + st(s) + " }"


def text(u):
    return "".join(dc(d) + "\n" for d in u)


# ---------------------------------------------------------------- units
class Gen:
    def __init__(self, rng):
        self.r = rng
        self.n = 0
        self.sc = [{}]        # name -> ("var"|"fun"|"ec", type)
        self.td = {}
        self.tags = {}        # tag -> (un, members)
        self.alltags = []

    def name(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def ch(self, x):
        return self.r.choice(x)

    def arith(self):
        return T(self.ch(ARITH + ["int", "int", "char", "long", "double"]))

    def objtype(self, depth=2):
        x = self.r.random()
        if x < .5 or depth == 0:
            return self.arith()
        if x < .7:
            y = self.r.random()
            if y < .1:
                return ptr(T("void"))
            if y < .2:
                return ptr(fun(self.arith(), [self.arith() for _ in range(self.r.randint(0, 2))]))
            return ptr(self.objtype(depth - 1))
        if x < .8:
            return arr(self.objtype(depth - 1), self.r.randint(1, 4))
        if x < .93 and self.tags:
            t = self.ch(sorted(self.tags))
            return dict(k="st", tag=t, un=self.tags[t][0])
        if self.td:
            return dict(k="td", n=self.ch(sorted(self.td)))
        return INT

    def rt(self, t):
        while t["k"] == "td":
            t = self.td[t["n"]]
        return t

    def names(self, pred):
        r = []
        seen = set()
        for s in reversed(self.sc):
            for n, (k, t) in s.items():
                if n not in seen and pred(k, t):
                    r.append(n)
                seen.add(n)
        return sorted(r)

    def typ(self, n):
        for s in reversed(self.sc):
            if n in s:
                return s[n][1]

    def lval(self, pred, depth):
        """an lvalue expression whose type satisfies pred, or None"""
        cand = []
        for n in self.names(lambda k, t: k == "var"):
            t = self.rt(self.typ(n))
            self.paths(ident(n), t, pred, cand, 3, depth)
        return self.ch(cand) if cand else None

    def paths(self, e, t, pred, out, d, depth):
        t = self.rt(t)
        if pred(t):
            out.append((e, t))
        if d == 0:
            return
        if t["k"] == "arr":
            self.paths(dict(k="idx", a=e, b=num(0) if depth <= 0 else self.expr(INT, 0)), t["to"], pred, out, d - 1, 0)
        elif t["k"] == "ptr" and t["to"]["k"] not in ("void", "fun"):
            x = self.rt(t["to"])
            if x["k"] == "st" and x["tag"] in self.tags:
                for m in self.tags[x["tag"]][1]:
                    if m["n"] and m["bf"] == -1:
                        self.paths(dict(k="arrow", a=e, n=m["n"]), m["t"], pred, out, d - 1, 0)
            self.paths(dict(k="un", o="*", a=e), x, pred, out, d - 1, 0)
        elif t["k"] == "st" and t["tag"] in self.tags:
            for m in self.tags[t["tag"]][1]:
                if m["n"] and m["bf"] == -1:
                    self.paths(dict(k="mem", a=e, n=m["n"]), m["t"], pred, out, d - 1, 0)

    def same(self, a, b):
        a, b = self.rt(a), self.rt(b)
        if a["k"] != b["k"]:
            return False
        if a["k"] in ("ptr", "arr"):
            return self.same(a["to"], b["to"]) and a.get("n") == b.get("n")
        if a["k"] == "st":
            return a["tag"] == b["tag"]
        if a["k"] == "fun":
            return self.same(a["ret"], b["ret"]) and len(a["pars"]) == len(b["pars"]) and all(map(self.same, a["pars"], b["pars"])) and a["va"] == b["va"]
        return True

    def isar(self, t):
        return t["k"] in WORD and t["k"] != "void"

    def isint(self, t):
        return self.isar(t) and t["k"] not in ("float", "double")

    def expr(self, t, depth):
        """an expression assignable to type t"""
        t = self.rt(t)
        x = self.r.random()
        if t["k"] == "st":
            l = self.lval(lambda u: self.same(u, t), depth)
            if l:
                return l[0]
            return dict(k="un", o="*", a=dict(k="cast", t=ptr(t), a=num(0)))
        if t["k"] == "ptr":
            l = self.lval(lambda u: u["k"] == "ptr" and self.same(u, t), depth)
            if l and x < .4:
                return l[0]
            if x < .5 and t["to"]["k"] not in ("void", "fun") and depth > 0:
                return dict(k="bin", o=self.ch("+-"), a=self.expr(t, depth - 1), b=self.expr(INT, depth - 1))
            if x < .75 and t["to"]["k"] not in ("void", "fun"):
                l = self.lval(lambda u: self.same(u, t["to"]), depth)
                if l:
                    return dict(k="un", o="&", a=l[0])
            if t["to"]["k"] == "fun":
                fs = self.names(lambda k, u: k == "fun" and self.same(u, t["to"]))
                if fs:
                    return ident(self.ch(fs))
            if t["to"]["k"] == "char" and x < .85:
                return dict(k="str", n=self.r.randint(0, 5))
            l = self.lval(lambda u: u["k"] == "arr" and self.same(u["to"], t["to"]), depth)
            if l:
                return l[0]
            return num(0) if x < .9 else dict(k="cast", t=t, a=num(self.r.randint(0, 9)))
        # arithmetic
        if depth <= 0 or x < .2:
            if x < .1:
                l = self.lval(lambda u: self.isar(u) and (u["k"] == t["k"]), 0)
                if l:
                    return l[0]
            ns = self.names(lambda k, u: (k == "var" and self.isar(self.rt(u)) and (self.isint(self.rt(u)) or not self.isint(t))) or k == "ec")
            if ns and x < .85:
                return ident(self.ch(ns))
            return num(self.r.randint(0, 99)) if self.isint(t) or x < .97 else dict(k="flt")
        d = depth - 1
        if x < .45:
            o = self.ch(["+", "-", "*", "/"] + (["%", "&", "|", "^", "<<", ">>"] if self.isint(t) else []) + ["<", ">", "<=", ">=", "==", "!=", "&&", "||"])
            b = self.expr(t, d)
            if o in "/%":
                b = num(self.r.randint(1, 9))
            return dict(k="bin", o=o, a=self.expr(t, d), b=b)
        if x < .55:
            return dict(k="un", o=self.ch("-+!" + ("~" if self.isint(t) else "")), a=self.expr(t, d))
        if x < .62:
            return dict(k="cond", a=self.expr(self.arith(), d), b=self.expr(t, d), c=self.expr(t, d))
        if x < .68:
            return dict(k="cast", t=self.arith() if not self.isint(t) else T(self.ch(["char", "int", "long", "uint"])), a=self.expr(self.arith(), d))
        if x < .72:
            return dict(k="szt", t=self.objtype())
        if x < .76:
            l = self.lval(lambda u: True, 0)
            return dict(k="sze", a=l[0]) if l else num(1)
        if x < .86:
            fs = self.names(lambda k, u: k == "fun" and self.isar(self.rt(u["ret"])) and (self.isint(self.rt(u["ret"])) or not self.isint(t)))
            if fs:
                return self.call(self.ch(fs), d)
        if x < .89:
            l = self.lval(lambda u: self.isint(u), 0)
            if l:
                return dict(k="inc", o=self.ch(["++", "--"]), pre=self.r.random() < .5, a=l[0])
        if x < .92:
            l = self.lval(lambda u: self.isint(u), 0)
            if l:
                return dict(k="asg", o=self.ch(["", "+", "-", "*", "|", "<<"]), a=l[0], b=self.expr(INT, d))
        if x < .94:
            return dict(k="comma", a=self.expr(self.arith(), d), b=self.expr(t, d))
        if x < .96:
            l = self.lval(lambda u: u["k"] == "ptr", 0)
            if l:
                return dict(k="bin", o=self.ch(["==", "!="]), a=l[0], b=num(0))
        l = self.lval(lambda u: self.isar(u) and (self.isint(u) or not self.isint(t)), d)
        return l[0] if l else num(3)

    def call(self, f, d):
        ft = self.typ(f)
        a = [self.expr(p, d) for p in ft["pars"]]
        if ft["va"] or ft["old"]:
            a += [self.expr(self.ch([INT, T("double"), ptr(T("char"))]), d) for _ in range(self.r.randint(0, 2))]
        return dict(k="call", f=ident(f), x=a)

    def cexpr(self, d=2):
        """an integer constant expression"""
        x = self.r.random()
        es = self.names(lambda k, t: k == "ec")
        if x < .2 and es:
            return ident(self.ch(es))
        if d == 0 or x < .5:
            return num(self.r.randint(0, 20))
        if x < .8:
            return dict(k="bin", o=self.ch(["+", "*", "-"]), a=self.cexpr(d - 1), b=self.cexpr(d - 1))
        if x < .9:
            return dict(k="un", o=self.ch("-!"), a=self.cexpr(d - 1))
        return dict(k="cast", t=INT, a=dict(k="szt", t=self.arith()))

    def init(self, t, static, depth=2):
        t = self.rt(t)
        E = lambda e: dict(k="e", e=e)
        if t["k"] == "arr":
            if self.rt(t["to"])["k"] == "char" and self.r.random() < .5:
                return E(dict(k="str", n=max(0, t["n"] - 1) if t["n"] != -1 else 3))
            n = t["n"] if t["n"] != -1 else 3
            xs = [dict(d="", n="", v=0, i=self.init(t["to"], static, depth)) for _ in range(self.r.randint(1, max(1, n)))]
            if self.r.random() < .3:
                xs.append(dict(d="[", n="", v=self.r.randrange(max(1, n)), i=self.init(t["to"], static, depth)))
            return dict(k="l", x=xs)
        if t["k"] == "st":
            ms = self.tags[t["tag"]][1] if t["tag"] in self.tags else []
            named = [m for m in ms if m["n"] and not (m["t"]["k"] == "arr" and m["t"]["n"] == -1)]
            if not named:
                return NOINIT
            if not static and self.r.random() < .2:
                return E(self.expr(t, 0))
            if self.tags[t["tag"]][0] or self.r.random() < .4 or any(not m["n"] for m in ms):
                m = self.ch(named)
                return dict(k="l", x=[dict(d=".", n=m["n"], v=0, i=self.init(m["t"], static, depth))])
            k = self.r.randint(1, len(named))
            return dict(k="l", x=[dict(d="", n="", v=0, i=self.init(m["t"], static, depth)) for m in named[:k]])
        if static:
            if t["k"] == "ptr":
                if t["to"]["k"] not in ("void", "fun") and self.r.random() < .5:
                    l = [n for n in self.names(lambda k, u: k == "var") if n in self.sc[0] and self.same(self.typ(n), t["to"])]
                    if l and not any(n in s for s in self.sc[1:] for n in l):
                        return E(dict(k="un", o="&", a=ident(self.ch(l))))
                return E(num(0))
            return E(self.cexpr() if self.isint(t) else dict(k="flt"))
        if self.r.random() < .1:
            return dict(k="l", x=[dict(d="", n="", v=0, i=E(self.expr(t, depth)))])
        return E(self.expr(t, depth))

    def put(self, n, k, t):
        self.sc[-1][n] = (k, t)

    def vardecl(self, file):
        t = self.objtype()
        n = self.name("g" if file else "v")
        if not file and self.r.random() < .15 and self.sc[0]:      # shadow something
            c = [x for x in self.sc[0] if x not in self.sc[-1]]
            if c:
                n = self.ch(sorted(c))
        sto = self.ch(["", "", "", "static"])
        i = NOINIT
        if self.r.random() < .5 and not self.incomplete(t):
            i = self.init(t, file or sto == "static", 1)
        self.put(n, "var", t)
        return dict(k="var", n=n, t=t, sto=sto, i=i)

    def incomplete(self, t):
        return False

    def stdef(self):
        tag = self.name("S")
        un = self.r.random() < .25
        ms = []
        for _ in range(self.r.randint(1, 4)):
            if self.r.random() < .2:
                ms.append(dict(n=self.name("b"), t=T(self.ch(["int", "uint", "char", "long", "bool"])), bf=1 if self.r.random() < .3 else -1))
                if ms[-1]["t"]["k"] != "bool" and ms[-1]["bf"] > 0:
                    ms[-1]["bf"] = self.r.randint(1, 8)
            elif self.r.random() < .15:
                ms.append(dict(n=self.name("m"), t=ptr(dict(k="st", tag=tag, un=un)), bf=-1))
            else:
                ms.append(dict(n=self.name("m"), t=self.objtype(), bf=-1))
        if not un and self.r.random() < .1:
            ms.append(dict(n=self.name("m"), t=arr(self.arith(), -1), bf=-1))
            # not used as a member or element
            return dict(k="stdef", tag=tag, un=un, mem=ms)
        if len(self.sc) == 1:
            self.tags[tag] = (un, ms)
        return dict(k="stdef", tag=tag, un=un, mem=ms)

    def enum(self):
        cs = []
        for _ in range(self.r.randint(1, 4)):
            has = self.r.random() < .4
            n = self.name("K")
            cs.append(dict(n=n, has=has, e=self.cexpr() if has else num(0)))
            self.put(n, "ec", INT)
        return dict(k="enum", cs=cs)

    def ftype(self):
        x = self.r.random()
        ret = T("void") if x < .2 else self.arith() if x < .8 else self.objtype()
        if self.rt(ret)["k"] == "arr":
            ret = INT
        return fun(ret, [self.objtype(1) for _ in range(self.r.randint(0, 3))], False, False)

    def sspec(self):
        w = ["signed", "unsigned", "long", "long", "short", "int", "char", "double", "float", "void", "_Bool"]
        s = [self.ch(w) for _ in range(self.r.randint(1, 4))]
        t = dict(k="spec", w=s)
        return dict(k="typedef", n=self.name("T"), t=t)

    def stmts(self, n, depth, fn):
        return [self.stmt(depth, fn) for _ in range(n)]

    def block(self, depth, fn, n=None):
        self.sc.append({})
        b = self.stmts(n or self.r.randint(1, 3), depth, fn)
        self.sc.pop()
        return dict(k="block", b=b)

    def stmt(self, depth, fn):
        x = self.r.random()
        if x < .22:
            if self.r.random() < .12:
                return dict(k="decl", d=self.ch([self.stdef, self.enum])())
            return dict(k="decl", d=self.vardecl(False))
        if x < .55 or depth == 0:
            y = self.r.random()
            if y < .5:
                l = self.lval(lambda u: u["k"] not in ("arr", "fun"), 1)
                if l:
                    o = "" if not self.isar(l[1]) or self.r.random() < .6 else self.ch("+-*")
                    return dict(k="expr", e=dict(k="asg", o=o, a=l[0], b=self.expr(l[1], 2)))
            if y < .65:
                fs = self.names(lambda k, u: k == "fun")
                if fs:
                    return dict(k="expr", e=self.call(self.ch(fs), 1))
            if fn["loop"] and y < .75:
                return dict(k=self.ch(["break", "continue"]))
            if fn["labels"] and y < .8:
                return dict(k="goto", n=self.ch(fn["labels"]))
            if y < .84:
                return dict(k="return", e=[] if fn["ret"]["k"] == "void" else [self.expr(fn["ret"], 1)])
            if y < .86:
                return dict(k="decl", d=dict(k="assert", e=dict(k="bin", o="<", a=num(1), b=num(2))))
            return dict(k="expr", e=self.expr(self.arith(), 2))
        d = depth - 1
        if x < .64:
            return dict(k="if", c=self.expr(self.cond(), 2), b=self.block(d, fn), e=[self.block(d, fn)] if self.r.random() < .4 else [])
        if x < .8:
            f2 = dict(fn, loop=True)
            k = self.ch(["while", "do", "for"])
            if k == "for":
                self.sc.append({})
                i = self.ch([lambda: NOP, lambda: dict(k="decl", d=self.forvar())])()
                c, u = self.expr(self.cond(), 1), self.expr(INT, 1)
                b = self.block(d, f2)
                self.sc.pop()
                return dict(k="for", i=i, c=c, u=u, b=b)
            return dict(k=k, c=self.expr(self.cond(), 1), b=self.block(d, f2))
        if x < .9:
            f2 = dict(fn, loop=True) if fn["loop"] else fn
            b = self.block(d, f2, self.r.randint(2, 4))["b"]
            r = []
            dv = self.r.random() < .5
            vs = self.r.sample(range(-3, 12), len(b))
            for i, s in enumerate(b):
                if s["k"] in ("decl",):
                    r.append(s)
                elif dv and i == len(b) - 1:
                    r.append(dict(k="default", b=s))
                else:
                    r.append(dict(k="case", e=num(vs[i]), b=s))
            return dict(k="switch", c=self.expr(T(self.ch(["int", "char", "long", "uint"])), 1), b=dict(k="block", b=r))
        if x < .95:
            return self.block(d, fn)
        n = self.name("L")
        fn["labels"].append(n)
        return dict(k="label", n=n, b=dict(k="expr", e=self.expr(INT, 1)))

    def cond(self):
        return self.arith() if self.r.random() < .8 else ptr(T("char"))

    def forvar(self):
        n = self.name("i")
        t = T(self.ch(["int", "long", "char"]))
        d = dict(k="var", n=n, t=t, sto="", i=dict(k="e", e=num(0)))
        self.put(n, "var", t)
        return d

    def function(self):
        t = self.ftype()
        n = self.name("f")
        pn = [self.name("p") for _ in t["pars"]]
        self.put(n, "fun", t)
        self.sc.append({p: ("var", self.dec(q)) for p, q in zip(pn, t["pars"])})
        fn = dict(ret=self.rt(t["ret"]), loop=False, labels=[])
        body = self.stmts(self.r.randint(2, 5), 2, fn)
        if fn["ret"]["k"] != "void":
            body.append(dict(k="return", e=[self.expr(fn["ret"], 1)]))
        self.sc.pop()
        return dict(k="fun", n=n, t=t, pn=pn, sto=self.ch(["", "", ""]), body=body)

    def dec(self, t):
        r = self.rt(t)
        return ptr(r["to"]) if r["k"] == "arr" else t

    def unit(self):
        u = []
        for _ in range(self.r.randint(3, 8)):
            x = self.r.random()
            if x < .3:
                u.append(self.vardecl(True))
            elif x < .45:
                u.append(self.stdef())
            elif x < .52:
                u.append(self.enum())
            elif x < .6:
                t = self.objtype()
                n = self.name("T")
                u.append(dict(k="typedef", n=n, t=t))
                self.td[n] = t
            elif x < .66:
                f = self.ftype()
                if self.r.random() < .3 and f["pars"]:
                    f["va"] = True
                n = self.name("h")
                self.put(n, "fun", f)
                u.append(dict(k="proto", n=n, t=f, sto=""))
            elif x < .665:
                u.append(self.sspec())
            elif x < .71:
                u.append(dict(k="assert", e=dict(k="bin", o="<", a=self.cexpr(1), b=num(900))))
            elif x < .74:
                u.append(dict(k="stdecl", un=False, tag=self.name("Z")))
            else:
                u.append(self.function())
        if not any(d["k"] == "fun" for d in u):
            u.append(self.function())
        # prototypes are given a definition so that everything links
        for d in [d for d in u if d["k"] == "proto"]:
            t = d["t"]
            body = []
            if t["ret"]["k"] != "void":
                body = [dict(k="return", e=[self.expr(t["ret"], 0)])]
            u.append(dict(k="fun", n=d["n"], t=t, pn=[self.name("q") for _ in t["pars"]], sto="", body=body))
        return u


# ---------------------------------------------------------------- changes
def nodes(x, path=()):
    """(path, node) of all dictionaries"""
    if isinstance(x, dict):
        yield path, x
        for k, v in x.items():
            if isinstance(v, (dict, list)):
                yield from nodes(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from nodes(v, path + (i,))


def at(u, path):
    for p in path:
        u = u[p]
    return u


EXPRS = {"num", "flt", "str", "id", "un", "bin", "asg", "inc", "cond", "comma", "call", "mem", "arrow", "idx", "cast", "szt", "sze", "clit"}
STMTS = {"expr", "decl", "block", "if", "while", "do", "for", "switch", "case", "default", "break", "continue", "return", "label", "goto", "nop"}


def mutate(u, r, g):
    """one random change; returns the name of what was done, or None"""
    ns = list(nodes(u))
    exprs = [p for p, n in ns if n.get("k") in EXPRS]
    stmts = [p for p, n in ns if n.get("k") in STMTS and isinstance(p[-1], int)]
    types = [p for p, n in ns if p and p[-1] in ("t", "to", "ret") or (len(p) > 1 and p[-2] == "pars")]
    decls = [p for p, n in ns if n.get("k") in ("var", "typedef", "stdef", "enum", "proto", "stdecl") or "body" in n]
    ids = sorted({n["n"] for p, n in ns if n.get("k") == "id"} | {n["n"] for p, n in ns if n.get("k") in ("var", "fun", "proto") and "n" in n})
    mems = sorted({n["n"] for p, n in ns if "bf" in n})
    tags = sorted({(n["tag"], n["un"]) for p, n in ns if n.get("k") in ("stdef", "stdecl")})
    k = r.choice(["rep", "rep", "rep", "op", "args", "type", "type", "dup", "del", "ren", "ren", "stmt", "stmt", "mem", "arr", "bf", "case", "label",
                  "tag", "swap", "lit", "init", "inc", "desig", "param", "enumdup", "wrap", "wrap"])
    pick = lambda l: r.choice(l) if l else None

    def put(path, v):
        at(u, path[:-1])[path[-1]] = v

    if k == "rep":
        p = pick(exprs)
        if p:
            c = r.random()
            if c < .5 and ids:
                put(p, ident(r.choice(ids)))
            elif c < .6:
                put(p, ident("undeclared" if p[-1] != "f" else r.choice(ids or ["x"])))
            elif c < .7:
                put(p, dict(k="flt"))
            elif c < .75:
                put(p, dict(k="str", n=2))
            else:
                q = pick(exprs)
                put(p, copy.deepcopy(at(u, q)))
    elif k == "op":
        c = [p for p, n in ns if n.get("k") in ("bin", "un", "asg")]
        p = pick(c)
        if p:
            n = at(u, p)
            n["o"] = r.choice({"bin": ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", "==", "&&"], "un": ["-", "~", "!", "*", "&", "+"],
                               "asg": ["", "+", "-", "*", "%", "<<", "&"]}[n["k"]])
    elif k == "args":
        p = pick([p for p, n in ns if n.get("k") == "call"])
        if p:
            x = at(u, p)["x"]
            if x and r.random() < .5:
                del x[r.randrange(len(x))]
            else:
                x.insert(r.randint(0, len(x)), num(1))
    elif k == "type":
        p = pick(types)
        if p and isinstance(at(u, p), dict) and at(u, p).get("k") not in EXPRS | {"fun"}:
            c = r.random()
            if c < .3:
                v = T(r.choice(["void", "int", "double", "char", "bool"]))
            elif c < .45:
                v = ptr(copy.deepcopy(at(u, p)))
            elif c < .6 and tags:
                t = r.choice(tags)
                v = dict(k="st", tag=t[0], un=t[1] if r.random() < .8 else not t[1])
            elif c < .7:
                v = arr(copy.deepcopy(at(u, p)), r.choice([-1, 2, 2, -4]))
            elif c < .8:
                v = dict(k="st", tag="Unknown", un=False)
            elif c < .87:
                v = fun(copy.deepcopy(at(u, p)), [])
            else:
                q = pick(types)
                v = copy.deepcopy(at(u, q)) if isinstance(at(u, q), dict) and at(u, q).get("k") not in EXPRS else INT
            put(p, v)
    elif k == "dup":
        p = pick(decls if r.random() < .6 else stmts)
        if p:
            x = copy.deepcopy(at(u, p))
            if isinstance(p[-1], int) and (len(p) == 1 or p[-2] != "e"):
                at(u, p[:-1]).insert(p[-1] + r.randint(0, 1), x)
            elif len(p) > 1 and isinstance(p[-2], int):
                at(u, p[:-2]).insert(p[-2], copy.deepcopy(at(u, p[:-1])))
            if r.random() < .4 and x.get("k") == "var":
                x["i"] = NOINIT
    elif k == "del":
        p = pick(decls if r.random() < .5 else stmts)
        if p and isinstance(p[-1], int):
            del at(u, p[:-1])[p[-1]]
        elif p and len(p) > 1 and isinstance(p[-2], int) and p[-1] == "d":
            put(p[:-1], dict(NOP))
    elif k == "ren":
        p = pick(decls)
        if p:
            n = at(u, p)
            if "n" in n and r.random() < .7:
                c = [at(u, q)["n"] for q in decls if "n" in at(u, q)]
                n["n"] = r.choice(c)
            elif "tag" in n and tags:
                n["tag"] = r.choice(tags)[0]
            elif n["k"] == "enum":
                n["cs"][0]["n"] = r.choice(ids or ["x"])
    elif k == "stmt":
        p = pick(stmts)
        if p:
            c = r.choice(["break", "continue", "case", "default", "goto", "return0", "return1"])
            o = at(u, p)
            if c == "case":
                v = dict(k="case", e=num(r.randint(-2, 9)), b=o if o["k"] != "decl" else NOP)
            elif c == "default":
                v = dict(k="default", b=o if o["k"] != "decl" else NOP)
            elif c == "goto":
                ls = [n["n"] for q, n in ns if n.get("k") == "label"]
                v = dict(k="goto", n=r.choice(ls + ["Lnone"]))
            elif c == "return0":
                v = dict(k="return", e=[])
            elif c == "return1":
                v = dict(k="return", e=[ident(r.choice(ids))] if ids else [])
            else:
                v = dict(k=c)
            put(p, copy.deepcopy(v))
    elif k == "mem":
        p = pick([p for p, n in ns if n.get("k") in ("mem", "arrow")])
        if p:
            n = at(u, p)
            if r.random() < .5:
                n["k"] = "mem" if n["k"] == "arrow" else "arrow"
            else:
                n["n"] = r.choice(mems + ["nomem"])
        else:
            p = pick(exprs)
            if p and mems:
                put(p, dict(k=r.choice(["mem", "arrow"]), a=copy.deepcopy(at(u, p)), n=r.choice(mems)))
    elif k == "arr":
        p = pick([p for p, n in ns if n.get("k") == "arr"])
        if p:
            at(u, p)["n"] = r.choice([-1, -2, 0, 1, 7])
    elif k == "bf":
        p = pick([p for p, n in ns if "bf" in n])
        if p:
            at(u, p)["bf"] = r.choice([-3, 0, 3, 8, 9, 31, 33, 65])
    elif k == "case":
        p = pick([p for p, n in ns if n.get("k") == "case"])
        if p:
            cs = [n["e"] for q, n in ns if n.get("k") == "case"]
            at(u, p)["e"] = copy.deepcopy(r.choice(cs)) if r.random() < .6 else ident(r.choice(ids)) if r.random() < .5 else dict(k="flt")
    elif k == "label":
        p = pick([p for p, n in ns if n.get("k") in ("label", "goto")])
        if p:
            ls = [n["n"] for q, n in ns if n.get("k") == "label"]
            at(u, p)["n"] = r.choice(ls + ["Lx"])
    elif k == "tag":
        p = pick([p for p, n in ns if n.get("k") in ("st", "stdef", "stdecl")])
        if p:
            n = at(u, p)
            if r.random() < .4:
                n["un"] = not n["un"]
            elif tags:
                n["tag"] = r.choice(tags)[0]
    elif k == "swap":
        p = pick([p for p, n in ns if isinstance(p[-1], int) and p[-1] > 0 and (n.get("k") in STMTS or len(p) == 1)])
        if p:
            l = at(u, p[:-1])
            i = p[-1]
            l[i], l[i - 1] = l[i - 1], l[i]
    elif k == "lit":
        p = pick([p for p, n in ns if n.get("k") == "num"])
        if p:
            at(u, p)["v"] = r.choice([-1, 0, 1, 5, 50])
    elif k == "init":
        p = pick([p for p, n in ns if n.get("k") == "var"])
        if p:
            n = at(u, p)
            c = r.random()
            if c < .4 and ids:
                n["i"] = dict(k="e", e=ident(r.choice(ids)))
            elif c < .6:
                n["i"] = dict(k="e", e=num(0))
            elif c < .8:
                n["sto"] = r.choice(["static", "extern", ""])
            else:
                n["i"] = dict(k="l", x=[dict(d="", n="", v=0, i=dict(k="e", e=num(1)))])
    elif k == "inc":
        p = pick(exprs)
        if p:
            put(p, dict(k="inc", o=r.choice(["++", "--"]), pre=r.random() < .5, a=copy.deepcopy(at(u, p))))
    elif k == "desig":
        p = pick([p for p, n in ns if n.get("k") == "l" and n["x"]])
        if p:
            x = r.choice(at(u, p)["x"])
            x["d"] = r.choice(["", ".", "["])
            x["n"] = r.choice(mems + ["nomem"])
            x["v"] = r.choice([0, 1, 2, 9, -1])
    elif k == "param":
        p = pick([p for p, n in ns if n.get("k") == "fun" and "pn" in n and n["pn"]])
        if p:
            n = at(u, p)
            c = r.random()
            if c < .4 and len(n["pn"]) > 1:
                n["pn"][1] = n["pn"][0]
            elif c < .7 and n["body"]:
                n["body"].insert(0, dict(k="decl", d=dict(k="var", n=n["pn"][0], t=INT, sto="", i=NOINIT)))
            else:
                n["t"]["pars"][0] = T("void")
    elif k == "enumdup":
        p = pick([p for p, n in ns if n.get("k") == "enum"])
        if p:
            cs = at(u, p)["cs"]
            cs.append(dict(n=r.choice(cs)["n"] if r.random() < .6 else r.choice(ids or ["x"]), has=False, e=num(0)))
    elif k == "wrap":
        p = pick(exprs)
        if p:
            x = copy.deepcopy(at(u, p))
            c = r.randrange(8)
            put(p, [dict(k="un", o="&", a=x), dict(k="un", o="*", a=x), dict(k="call", f=x, x=[]), dict(k="idx", a=x, b=num(1)),
                    dict(k="cast", t=T(r.choice(["void", "double", "int"])), a=x), dict(k="asg", o="", a=x, b=num(1)),
                    dict(k="un", o=r.choice("-~!"), a=x), dict(k="cond", a=x, b=num(1), c=num(2))][c])
    return k


def unit(rng):
    g = Gen(rng)
    u = g.unit()
    done = []
    if rng.random() < .75:
        for _ in range(rng.choice([1, 1, 1, 1, 2])):
            v = copy.deepcopy(u)
            try:
                done.append(mutate(v, rng, g))
                u = v
            except (KeyError, IndexError, TypeError, ValueError):
                pass
    return u, done


# ---------------------------------------------------------------- systematic units
SPECS = ["void", "char", "short", "int", "long", "float", "double", "signed", "unsigned", "_Bool"]
VOIDFN = fun(T("void"), [])
STA = dict(k="st", tag="A", un=False)
STB = dict(k="st", tag="B", un=False)
STI = dict(k="st", tag="I", un=False)


def var(n, t, sto="", i=NOINIT):
    return dict(k="var", n=n, t=t, sto=sto, i=i)


def func(n, t, pn, body):
    return dict(k="fun", n=n, t=t, pn=pn, sto="", body=body)


def es(e):
    return dict(k="expr", e=e)


def specifier_units():
    import itertools
    return [[dict(k="typedef", n="T", t=dict(k="spec", w=list(w)))] for n in (1, 2, 3, 4) for w in itertools.product(SPECS, repeat=n)]


def declaration_units():
    one = dict(k="e", e=num(1))
    f0 = fun(INT, [])
    D = [dict(k="typedef", n="X", t=INT), var("X", INT), var("X", INT, "extern"), var("X", INT, "static"), var("X", INT, "", one),
         dict(k="proto", n="X", t=f0, sto=""), func("X", f0, [], [dict(k="return", e=[num(1)])]),
         dict(k="enum", cs=[dict(n="X", has=False, e=num(0))]), dict(k="proto", n="X", t=f0, sto="static"),
         var("X", T("char")), dict(k="proto", n="X", t=fun(INT, [INT]), sto=""), var("X", arr(INT, 3)), var("X", arr(INT, -1), "extern"),
         dict(k="typedef", n="X", t=T("char"))]
    r = []
    dcl = lambda d: dict(k="decl", d=d)
    for a in D:
        for b in D:
            fn = "fun" in (a["k"], b["k"])
            r.append([a, b])
            if b["k"] != "fun":
                r.append([a, func("q", VOIDFN, [], [dcl(b)])])
                r.append([func("q", fun(T("void"), [INT]), ["X"], [dcl(b)])])
                r.append([func("q", fun(T("void"), [INT]), ["X"], [dict(k="block", b=[dcl(b)])])])
            if not fn:
                r.append([func("q", VOIDFN, [], [dcl(a), dcl(b)])])
                r.append([func("q", VOIDFN, [], [dcl(a), dict(k="block", b=[dcl(b)])])])
                r.append([func("q", VOIDFN, [], [dict(k="block", b=[dcl(a)]), dcl(b)])])
    return [copy.deepcopy(u) for u in r]


PROLOGUE = [dict(k="stdef", tag="A", un=False, mem=[dict(n="x", t=INT, bf=-1), dict(n="b", t=INT, bf=3)]),
            dict(k="stdef", tag="B", un=False, mem=[dict(n="y", t=T("double"), bf=-1)]),
            dict(k="stdecl", tag="I", un=False),
            dict(k="enum", cs=[dict(n="EC", has=False, e=num(0))])] + \
    [var("v" + k, T(k)) for k in ARITH] + \
    [var("sa", STA), var("sb", STB), var("pi", ptr(INT)), var("pc", ptr(T("char"))), var("pv", ptr(T("void"))), var("pa", ptr(STA)),
     var("pI", ptr(STI)), var("ppi", ptr(ptr(INT))), var("pf", ptr(fun(INT, [INT]))), var("pr", ptr(arr(INT, 3))), var("ar", arr(INT, 3)),
     func("vf", VOIDFN, [], []), func("fi", fun(INT, [INT]), ["p"], [dict(k="return", e=[ident("p")])]),
     func("fs", fun(STA, []), [], [dict(k="return", e=[ident("sa")])])]
ATYPES = [T(k) for k in ARITH] + [T("void"), STA, STB, STI, ptr(INT), ptr(T("char")), ptr(T("void")), ptr(STA), ptr(STI), ptr(ptr(INT)),
                                  ptr(fun(INT, [INT])), ptr(arr(INT, 3)), arr(INT, 3), fun(INT, [INT])]


def operands():
    c = lambda f: dict(k="call", f=ident(f), x=[])
    return [ident("v" + k) for k in ARITH] + [ident(n) for n in ("sa", "sb", "pi", "pc", "pv", "pa", "pI", "ppi", "pf", "pr", "ar", "fi", "EC")] + \
        [num(0), num(5), dict(k="flt"), dict(k="str", n=2), dict(k="mem", a=ident("sa"), n="b"), dict(k="mem", a=ident("sa"), n="x"),
         dict(k="un", o="*", a=ident("pI")), dict(k="un", o="*", a=ident("pv")), dict(k="cast", t=T("void"), a=num(1)),
         dict(k="cast", t=ptr(T("void")), a=num(0)), c("fs")]


BINOPS = ["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "<", ">", "<=", ">=", "==", "!=", "&&", "||"]


def operator_units(rng, n=None):
    """one statement applying one operator to operands of every type; n of them, or all"""
    O = operands()
    L = []
    import itertools
    for o in BINOPS:
        L += [("bin", o, a, b) for a in O for b in O]
    for o in ["", "+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^"]:
        L += [("asg", o, a, b) for a in O for b in O]
    L += [("cond", c, a, b) for c in (ident("vint"), ident("pi"), ident("sa"), num(1)) for a in O for b in O]
    L += [("comma", a, b) for a in O for b in O]
    L += [("idx", a, b) for a in O for b in O]
    L += [("un", o, a) for o in "-+~!*&" for a in O]
    L += [("inc", o, p, a) for o in ("++", "--") for p in (False, True) for a in O]
    L += [("cast", t, a) for t in ATYPES for a in O]
    L += [("sze", a) for a in O] + [("szt", t) for t in ATYPES]
    L += [("call", a, k) for a in O for k in range(3)]
    L += [("arg", t, a) for t in ATYPES for a in O]
    L += [("ret", t, a) for t in ATYPES for a in O]
    L += [("ini", t, a) for t in ATYPES for a in O]
    L += [("sini", t, a) for t in ATYPES for a in O]
    L += [("mem", a, m) for a in O for m in ("x", "b", "zz")]
    L += [("arrow", a, m) for a in O for m in ("x", "b", "zz")]
    L += [(s, a) for s in ("if", "while", "do", "for", "switch", "case", "assert", "dim", "ecv") for a in O]
    L += [("bf", t, w) for t in ATYPES for w in (1, 3, 8, 9, 33, 65)]
    if n is not None and n < len(L):
        # all the short lists, a sample of the long ones
        k = [x for x in L if x[0] in ("un", "inc", "sze", "szt", "call", "mem", "arrow", "if", "while", "do", "for", "switch", "case", "assert", "dim", "ecv")]
        L = rng.sample(k, min(len(k), n // 3)) + rng.sample([x for x in L if x[0] not in ("un", "inc")], n - n // 3)
    return [op_unit(x) for x in L]


def op_unit(x):
    k = x[0]
    pre = list(PROLOGUE)
    t, pn = VOIDFN, []
    none = dict(k="nop")
    if k in ("bin", "asg"):
        b = [es(dict(k=k, o=x[1], a=x[2], b=x[3]))]
    elif k == "cond":
        b = [es(dict(k="cond", a=x[1], b=x[2], c=x[3]))]
    elif k == "comma":
        b = [es(dict(k="comma", a=x[1], b=x[2]))]
    elif k == "idx":
        b = [es(dict(k="idx", a=x[1], b=x[2]))]
    elif k == "un":
        b = [es(dict(k="un", o=x[1], a=x[2]))]
    elif k == "inc":
        b = [es(dict(k="inc", o=x[1], pre=x[2], a=x[3]))]
    elif k == "cast":
        b = [es(dict(k="cast", t=x[1], a=x[2]))]
    elif k == "sze":
        b = [es(dict(k="sze", a=x[1]))]
    elif k == "szt":
        b = [es(dict(k="szt", t=x[1]))]
    elif k == "call":
        b = [es(dict(k="call", f=x[1], x=[num(1)] * x[2]))]
    elif k == "arg":
        pre.append(var("g", ptr(fun(INT, [x[1]]))))
        b = [es(dict(k="call", f=ident("g"), x=[x[2]]))]
    elif k == "ret":
        t, b = fun(x[1], []), [dict(k="return", e=[x[2]])]
    elif k in ("ini", "sini"):
        b = [dict(k="decl", d=var("z", x[1], "static" if k == "sini" else "", dict(k="e", e=x[2])))]
    elif k in ("mem", "arrow"):
        b = [es(dict(k=k, a=x[1], n=x[2]))]
    elif k == "if":
        b = [dict(k="if", c=x[1], b=none, e=[])]
    elif k in ("while", "do"):
        b = [dict(k=k, c=x[1], b=none)]
    elif k == "for":
        b = [dict(k="for", i=dict(k="expr", e=num(0)), c=x[1], u=num(0), b=none)]
    elif k == "switch":
        b = [dict(k="switch", c=x[1], b=dict(k="block", b=[dict(k="case", e=num(1), b=none)]))]
    elif k == "case":
        b = [dict(k="switch", c=num(1), b=dict(k="block", b=[dict(k="case", e=x[1], b=none)]))]
    elif k == "assert":
        b = [dict(k="decl", d=dict(k="assert", e=x[1]))]
    elif k == "dim":
        b = []
        pre.append(dict(k="enum", cs=[dict(n="EE", has=True, e=x[1])]))
    elif k == "ecv":
        b = [dict(k="decl", d=dict(k="enum", cs=[dict(n="EE", has=True, e=x[1])]))]
    elif k == "bf":
        b = []
        pre.append(dict(k="stdef", tag="W", un=False, mem=[dict(n="m", t=x[1], bf=x[2])]))
    return copy.deepcopy(pre + [func("q", t, pn, b)])


def lenient_units():
    """one unit for each thing tcc is known to accept"""
    c = dict(k="call", f=ident("fs"), x=[])
    noop = dict(k="cast", t=INT, a=ident("vint"))
    r = [op_unit(x) for x in (("asg", "", noop, num(1)), ("inc", "++", True, noop), ("un", "&", noop), ("asg", "", c, ident("sa")), ("un", "&", c),
                              ("cast", fun(INT, [INT]), num(5)), ("cast", arr(INT, 3), num(5)), ("sze", dict(k="mem", a=ident("sa"), n="b")))]
    d = [dict(k="decl", d=var("X", INT)), dict(k="decl", d=var("X", INT, "extern"))]
    r.append([func("q", VOIDFN, [], d)])
    r.append([var("X", arr(arr(T("char"), 3), -1), "", dict(k="e", e=dict(k="str", n=2)))])
    return copy.deepcopy(r)
