"""C11: control flow (spec/MiniC.tla)."""
import shutil, random

TECHNIQUE = "TLA+ abstract machine of C statements, TLC-computed traces compared with the programs compiled and run by cjit"
LEVEL = "model_checking"
NOTE = ("The abstract machine is model checked against the expansion laws of every statement; every small statement in every context and random programs with nested loops, switches, "
        "jumps, statement expressions, scopes, cleanups and calls are run through TLC and through cjit, comparing every observation, result and global.")


def num(v): return dict(k="num", v=v)
def var(n): return dict(k="var", n=n)
def bi(op, a, b): return dict(k="bin", op=op, a=a, b=b)
def blk(ss): return dict(k="blk", body=ss)
def ex(e): return dict(k="e", e=e)


NOEFF = (frozenset(), frozenset(), False)      # reads, writes, observes


class Fn:
    """generation state of one function"""
    def __init__(self):
        self.labels, self.nl, self.sealed = [], 0, False


class Gen:
    def __init__(self, rng):
        self.rng, self.id, self.ncase, self.se = rng, 0, 0, 0
        self.globals = ["g1", "g2"][:rng.randint(1, 2)]
        self.nf = rng.choice([1, 1, 2, 3])
        self.ps = []
        for f in range(self.nf):
            self.ps.append([("p%d" % i, "ref" if f and rng.random() < .3 else "int") for i in range(rng.randint(1, 3))])
        self.fs = []
        for f in range(self.nf):
            self.f, self.fn = f, Fn()
            self.scopes = [{g: dict(kind="shared", rw=True) for g in self.globals}]
            self.scopes.append({n: dict(kind="shared" if k == "ref" else "own", rw=True, ref=k == "ref") for n, k in self.ps[f]})
            self.fn.want = []
            body = self.block_items(rng.choice([6, 10, 14, 20]), 0, dict(loop=0, sw=None, lab=self.newdomain(), brk=False, cont=False), top=True)
            body.append(dict(k="ret", e=[self.expr(2, False)[0]]))
            self.fix(self.fn)
            self.fs.append(dict(ps=[n for n, _ in self.ps[f]], body=body))

    def oid(self):
        self.id += 1
        return self.id

    # ---- labels: gotos are generated first with an empty target; fix() gives them one of their domain
    def newdomain(self):
        return dict(labels=[], gotos=[])

    def fix(self, fn):
        pass

    def close(self, dom):
        for g in dom["gotos"]:
            ls = dom["labels"]
            if not ls:
                g.clear()
                g.update(dict(k="nop"))
            elif g["k"] == "goto":
                g["l"] = self.rng.choice(ls)
            else:
                g["ls"] = [self.rng.choice(ls) for _ in range(g.pop("n"))]

    # ---- expressions: (tree, (reads, writes, observes))
    def visible(self):
        v = {}
        for s in self.scopes:
            v.update(s)
        return v

    def merge(self, *xs):
        return frozenset().union(*(x[0] for x in xs)), frozenset().union(*(x[1] for x in xs)), any(x[2] for x in xs)

    def clash(self, a, b):
        if a[2] and b[2]:
            return True
        for p, q in ((a, b), (b, a)):
            if p[1] & (q[0] | q[1]) or "*" in p[1] and (q[0] or q[1]):
                return True
            if "shared" in p[1] and ("shared" in q[0] or "shared" in q[1]):
                return True
        return False

    def rd(self, n):
        v = self.visible()[n]
        return frozenset([n] + (["shared"] if v["kind"] == "shared" else []))

    def leaf(self):
        r = self.rng
        vs = list(self.visible())
        if r.random() < .35 or not vs:
            return num(r.choice([0, 0, 1, 1, 2, 3, 5, -1, 7])), NOEFF
        n = r.choice(vs)
        return var(n), (self.rd(n), frozenset(), False)

    def expr(self, n, eff=True):
        r = self.rng
        if n <= 0:
            return self.leaf()
        k = r.random()
        if k < .26:
            op = r.choice(["+", "-", "+", "-", "*", "%", "/", "==", "!=", "<", ">", "<=", ">="])
            for _ in range(10):
                m = r.randrange(n)
                a = self.expr(m, eff)
                b = (num(r.choice([1, 2, 3, 5, 7, -2])), NOEFF) if op in "%/" else self.expr(n - 1 - m, eff)
                if not self.clash(a[1], b[1]):
                    return bi(op, a[0], b[0]), self.merge(a[1], b[1])
            return self.leaf()
        if k < .34:
            a = self.expr(n - 1, eff)
            return dict(k="un", op=r.choice(["!", "!", "-", "~"]), a=a[0]), a[1]
        if k < .5:
            m = r.randrange(n)
            a, b = self.expr(m, eff), self.expr(n - 1 - m, eff)
            if r.random() < .15:
                a = (num(r.randrange(2)), NOEFF)
            if r.random() < .1:
                b = (num(r.randrange(2)), NOEFF)
            return dict(k=r.choice(["and", "or"]), a=a[0], b=b[0]), self.merge(a[1], b[1])
        if k < .58:
            m = r.randrange(n)
            c, a, b = self.expr(m, eff), self.expr((n - m) // 2, eff), self.expr((n - m) // 2, eff)
            if r.random() < .15:
                c = (num(r.randrange(2)), NOEFF)
            return dict(k="cond", c=c[0], a=a[0], b=b[0]), self.merge(a[1], b[1], c[1])
        if k < .61:
            a, b = self.expr(n // 2, eff), self.expr(n // 2, eff)
            return dict(k="elvis", a=a[0], b=b[0]), self.merge(a[1], b[1])
        if not eff:
            return self.expr(n - 1, eff)
        if k < .76:
            a = self.expr(n - 1, eff)
            return dict(k="tr", id=self.oid(), e=a[0]), (a[1][0], a[1][1], True)
        if k < .79:
            a, b = self.expr(n // 2, eff), self.expr(n // 2, eff)
            return dict(k="comma", a=a[0], b=b[0]), self.merge(a[1], b[1])
        if k < .88:
            vs = [x for x, v in self.visible().items() if v["rw"]]
            if not vs:
                return self.leaf()
            x = r.choice(vs)
            w = self.rd(x)
            if r.random() < .45:
                return dict(k="inc", n=x, by=r.choice([1, 1, -1]), post=r.random() < .5), (w, w, False)
            for _ in range(6):
                a = self.expr(n - 1, eff)
                if x in a[1][1] or "*" in a[1][1] or "shared" in w and "shared" in a[1][1]:
                    continue
                if r.random() < .5:
                    return dict(k="asg", n=x, e=a[0]), (a[1][0] | w, a[1][1] | w, a[1][2])
                return dict(k="opasg", op=r.choice(["+", "-", "*"]), n=x, e=a[0]), (a[1][0] | w, a[1][1] | w, a[1][2])
            return self.leaf()
        if k < .94 and self.nf > 1:
            c = self.call(n)
            if c:
                return c, (frozenset("*"), frozenset("*"), True)
        if self.se < 2 and r.random() < .5:
            self.se += 1
            self.scopes.append({})
            self.cur_dom = None
            body = self.items(r.randint(1, 3), 3, dict(loop=0, sw=None, lab=self.newdomain(), brk=False, cont=False), small=True)
            e = self.expr(min(n, 2), False)
            self.scopes.pop()
            self.se -= 1
            return dict(k="se", body=body, e=e[0]), (frozenset("*"), frozenset("*"), True)
        return self.expr(n - 1, eff)

    def call(self, n):
        r = self.rng
        f = r.randrange(self.f, self.nf) if r.random() < .8 else r.randrange(1, self.nf) if self.nf > 1 else 0
        if f == 0:
            return None
        args, used = [], False
        vis = self.visible()
        for _, kind in self.ps[f]:
            if kind == "ref":
                vs = [x for x, v in vis.items() if v["rw"] and not v.get("noref")]
                if not vs:
                    return None
                x = r.choice(vs)
                args.append(dict(k="ref", n=x))
                vis[x]["addr"] = True
            elif used:
                args.append(num(r.randint(0, 3)))
            else:
                a = self.expr(r.randrange(3))
                used = bool(a[1][1] or a[1][2])
                args.append(a[0] if not used or not any(x["k"] != "num" for x in args) else num(2))
        return dict(k="call", f=f + 1, **{"as": args})

    # ---- statements
    def cond(self, n=2):
        r = self.rng
        k = r.random()
        if k < .1:
            return num(r.randrange(2))
        if k < .16:
            return dict(k=r.choice(["and", "or"]), a=num(r.randrange(2)), b=self.expr(1)[0])
        return self.expr(r.randint(1, 3))[0]

    def decl(self, ctx, special, cleanup=False):
        r = self.rng
        n = r.choice("abcdef")
        e = self.expr(r.randint(0, 2), not special)
        txt = repr(e[0])
        if n in self.scopes[-1] or "'n': '%s'" % n in txt:
            return None
        cl = self.oid() if special and (cleanup or r.random() < .6) else 0
        d = dict(k="decl", n=n, e=[e[0]] if special or r.random() < .85 else [], cl=cl)
        d["sto"] = "vla" if special and (not cl) else "plain" if cl else r.choice(["plain"] * 4 + ["register", "volatile", "array", "member"])
        d["ty"] = "int"
        self.scopes[-1][n] = dict(kind="own", rw=True, d=d)
        return d

    def settle(self, d, v):
        """storage and type of a variable, once its uses are known"""
        r = self.rng
        if v.get("addr"):
            if d["sto"] in ("register", "volatile"):
                d["sto"] = "plain"
        elif d["cl"] == 0 and d["sto"] in ("plain", "volatile", "register"):
            d["ty"] = r.choice(["int", "int", "int", "long", "long long", "double", "float"])

    def open_block(self, n, depth, ctx):
        """a block with cleanup variables that gotos from outside may enter, at a label after which they get values"""
        r = self.rng
        self.scopes.append({})
        ss = []
        for _ in range(r.choice([1, 1, 2])):
            d = self.decl(ctx, True, True)
            if d:
                ss.append(d)
        c = dict(ctx, sw=None)
        names = [d["n"] for d in ss]
        for i, x in enumerate(names):
            s = ex(dict(k="asg", n=x, e=num(r.randint(0, 9))))
            ss.append(self.label(s, c) if i == 0 else s)
        ss += self.items(n, depth, c)
        for v in self.scopes[-1].values():
            if "d" in v and "done" not in v:
                self.settle(v["d"], v)
                v["done"] = True
        self.scopes.pop()
        return ss

    def block_items(self, n, depth, ctx, top=False, sealed=False):
        """statements of a block (a scope of its own unless top)"""
        if not top:
            self.scopes.append({})
        if sealed:
            ctx = dict(ctx, sw=None, lab=self.newdomain(), outer=ctx.get("outer", []) + [ctx["lab"]], nolab=True)
        ss = []
        if sealed:
            for _ in range(self.rng.randint(1, 2)):
                d = self.decl(ctx, True)
                if d:
                    ss.append(d)
        ss += self.items(n, depth, ctx)
        if top or sealed:
            self.close(ctx["lab"])
        for v in self.scopes[-1].values():
            if "d" in v and "done" not in v:
                self.settle(v["d"], v)
                v["done"] = True
        if not top:
            self.scopes.pop()
        return ss

    def items(self, n, depth, ctx, small=False):
        r = self.rng
        ss = []
        while n > 0:
            if not small and r.random() < .15 or small and r.random() < .3:
                d = self.decl(ctx, False)
                if d:
                    ss.append(d)
                    n -= 1
                    continue
            m = r.randint(1, max(1, min(n, 8)))
            s = self.stmt(m, depth, dict(ctx, nolab=ctx.get("nolab")))
            if not ctx.get("nolab") and r.random() < .12 and not small:
                s = self.label(s, ctx)
            if ctx.get("sw") is not None and r.random() < .3:
                s = self.case(s, ctx)
            ss.append(s)
            n -= m
        if small:
            for v in self.scopes[-1].values():
                if "d" in v and "done" not in v:
                    self.settle(v["d"], v)
                    v["done"] = True
        return ss

    def label(self, s, ctx):
        self.fn.nl += 1
        l = "L%d" % self.fn.nl
        ctx["lab"]["labels"].append(l)
        return dict(k="lab", l=l, s=s)

    def case(self, s, ctx):
        sw = ctx["sw"]
        r = self.rng
        self.ncase += 1
        l = "k%d" % self.ncase
        if not sw["def"] and r.random() < .2:
            sw["def"] = True
            return dict(k="def", l=l, s=s)
        v = r.choice(sw["free"]) if sw["free"] else None
        if v is None:
            return s
        hi = v
        sw["free"].remove(v)
        if r.random() < .2:
            while hi + 1 in sw["free"] and r.random() < .7:
                hi += 1
                sw["free"].remove(hi)
        return dict(k="case", l=l, lo=v, hi=hi, s=s)

    def jump(self, ctx):
        r = self.rng
        ch = ["ret"]
        if ctx["brk"]:
            ch += ["brk"] * 4
        if ctx["cont"]:
            ch += ["cont"] * 4
        if not self.se:
            ch += ["goto"] * 4 + (["cgoto"] if not self.fn.sealed else [])
        k = r.choice(ch)
        if k == "ret":
            return dict(k="ret", e=[self.expr(1, r.random() < .3)[0]])
        if k == "goto":
            g = dict(k="goto", l="")
            dom = r.choice([ctx["lab"]] + ctx.get("outer", [])) if r.random() < .7 else ctx["lab"]
            dom["gotos"].append(g)
            return g
        if k == "cgoto":
            n = r.randint(1, 3)
            e = num(r.randint(1, n)) if r.random() < .4 else dict(k="cond", c=self.expr(1)[0], a=num(1), b=num(n))
            g = dict(k="cgoto", n=n, e=e, ls=[])
            ctx["lab"]["gotos"].append(g)
            return g
        return dict(k=k)

    def loopctx(self, ctx):
        return dict(ctx, loop=ctx["loop"] + 1, brk=True, cont=True)

    def sub(self, n, depth, ctx):
        """a substatement"""
        r = self.rng
        if r.random() < .75:
            if r.random() < .09 and not self.se and depth < 5 and not ctx.get("nolab"):
                self.fn.sealed = True
                return blk(self.open_block(n, depth + 1, ctx))
            sealed = r.random() < .15 and not self.se and depth < 5
            if sealed:
                self.fn.sealed = True
            return blk(self.block_items(n, depth + 1, ctx, sealed=sealed))
        return self.stmt(n, depth + 1, ctx)

    def stmt(self, n, depth, ctx):
        r = self.rng
        if n <= 1 or depth > 5:
            k = r.random()
            if k < .5:
                return ex(dict(k="tr", id=self.oid(), e=self.expr(r.randrange(3))[0]))
            if k < .75:
                return ex(self.expr(r.randint(1, 3))[0])
            if k < .8:
                return dict(k="nop")
            if k < .92:
                j = self.jump(ctx)
                return dict(k="if", c=self.cond(), a=j, b=[]) if r.random() < .6 else j
            c = self.call(2)
            return ex(c) if c else dict(k="nop")
        k = r.random()
        if k < .33:
            if r.random() < .5:
                return dict(k="if", c=self.cond(), a=self.sub(n - 1, depth, ctx), b=[])
            m = r.randint(1, n - 1)
            return dict(k="if", c=self.cond(), a=self.sub(m, depth, ctx), b=[self.sub(max(1, n - 1 - m), depth, ctx)])
        if k < .45:
            return self.sub(n, depth, ctx)
        if k < .62:     # switch
            dense = r.random() < .5
            free = list(range(r.randint(-3, 1), r.randint(4, 9))) if dense else r.sample(range(-9, 40), r.randint(1, 12)) + r.sample([100, 127, 128, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, -100, -128, -129, -32768], 2)
            sw = {"free": sorted(free), "def": False}
            c2 = dict(ctx, sw=sw, brk=True, loop=ctx["loop"])
            c = self.expr(r.randint(0, 2))[0]
            if r.random() < .85:
                self.scopes.append({})
                body = []
                for _ in range(r.randint(1, 6)):
                    m = r.randint(1, max(1, n // 2))
                    s = self.stmt(m, depth + 1, c2)
                    for _ in range(r.choice([0, 1, 1, 1, 2])):
                        s = self.case(s, c2)
                    body.append(s)
                    if r.random() < .5:
                        body.append(dict(k="brk"))
                self.scopes.pop()
                b = blk(body)
            else:
                b = self.case(self.sub(n - 1, depth, c2), c2)
            return dict(k="sw", c=c, b=b)
        lim = r.randint(1, 4)
        if k < .8:
            kind = r.random()
            if kind < .6:
                i = r.choice("ijk")
                if i in self.visible():
                    i = "h%d" % depth
                self.scopes.append({i: dict(kind="own", rw=False, noref=True)})
                d = dict(k="decl", n=i, e=[num(0)], cl=0, sto="plain", ty=r.choice(["int", "int", "long", "short", "long long"]))
                s = dict(k="for", i=[d], c=[bi("<", var(i), num(lim))], s=[dict(k="inc", n=i, by=1, post=r.random() < .5)], b=self.sub(n - 1, depth, self.loopctx(ctx)))
                self.scopes.pop()
                return s
            i = [ex(self.expr(1)[0])] if r.random() < .4 else []
            c = [self.cond()] if r.random() < .5 else []
            s = [self.expr(1)[0]] if r.random() < .5 else []
            return dict(k="for", i=i, c=c, s=s, b=self.sub(n - 1, depth, self.loopctx(ctx)))
        b = self.sub(n - 1, depth, self.loopctx(ctx))
        c = self.cond()
        vs = [x for x, v in self.visible().items() if v["rw"]]
        if vs and r.random() < .7:
            x = r.choice(vs)
            c = bi("<", dict(k="inc", n=x, by=1, post=r.random() < .5), num(lim))
        return dict(k="while" if k < .91 else "do", c=c, b=b)


# ---------------------------------------------------------------- rendering
class Text:
    def __init__(self, P, rng, pre):
        self.P, self.rng, self.pre, self.top = P, rng, pre, ""
        self.nt, self.cases = 0, {}

    def program(self):
        P, r = self.P, self.rng
        t = "".join("%sint %s = %d;\n" % (r.choice(["", "static "]), self.g(n), v) for n, v in zip(P["names"], P["init"]))
        fs = []
        self.sig = []
        for f, d in enumerate(P["fs"]):
            ps = []
            for n, kind in zip(d["ps"], P["kinds"][f]):
                ps.append((n, "int *" if kind == "ref" else r.choice(["int", "int", "long", "short"] if f else ["int"])))
            self.sig.append(ps)
            t += "static int %sf%d(%s);\n" % (self.pre, f + 1, ", ".join("%s %s" % (b, a) for a, b in ps))
        for f, d in enumerate(P["fs"]):
            self.env = [{n: (self.g(n), "i") for n in P["names"]}, {n: ("(*%s)" % n if kind == "ref" else n, "i") for n, kind in zip(d["ps"], P["kinds"][f])}]
            self.tabs = ""
            body = self.block(d["body"], 1, scope=False)
            fs.append("static int %sf%d(%s)\n{\n%s%s}\n" % (self.pre, f + 1, ", ".join("%s %s" % (b, a) for a, b in self.sig[f]), self.tabs, body))
        args = ", ".join(self.e(a)[0] for a in P["args"])
        return t + self.top + "".join(fs) + "static void %srun(void) { int r = %sf1(%s); done(r%s); }\n" % (
            self.pre, self.pre, args, "".join(", " + self.g(n) for n in P["names"] + ["0"] * (2 - len(P["names"]))))

    def g(self, n):
        return n if n == "0" else self.pre + n

    def look(self, n):
        for s in reversed(self.env):
            if n in s:
                return s[n]
        raise KeyError(n)

    def i(self, e):
        t, p, ty = self.ex(e)
        return ("(int)(%s)" % t, 12) if ty == "d" else (t, p)

    def e(self, e):
        t, p, ty = self.ex(e)
        return t, p

    def op(self, e, need, int_=False):
        t, p = self.i(e) if int_ else self.e(e)
        return "(%s)" % t if p < need or self.rng.random() < .1 else t

    PREC = {"*": 10, "/": 10, "%": 10, "+": 9, "-": 9, "<": 7, ">": 7, "<=": 7, ">=": 7, "==": 6, "!=": 6}

    def ty(self, e):
        return self.ex(e)[2]

    def ex(self, e):
        """(text, precedence, type: i or d)"""
        k = e["k"]
        if k == "num":
            return ("%d" % e["v"] if e["v"] >= 0 else "(-%d)" % -e["v"]), 20, "i"
        if k == "var":
            t, ty = self.look(e["n"])
            return t, 20, ty
        if k == "ref":
            t, _ = self.look(e["n"])
            return "&" + t, 12, "i"
        if k in ("asg", "opasg"):
            t, ty = self.look(e["n"])
            return "%s %s= %s" % (t, e.get("op", ""), self.op(e["e"], -1)), -1, ty
        if k == "inc":
            t, ty = self.look(e["n"])
            o = "++" if e["by"] > 0 else "--"
            return (t + o, 13, ty) if e["post"] else (o + t, 12, ty)
        if k == "bin":
            p = self.PREC[e["op"]]
            i = e["op"] in "/%"
            a, b = self.op(e["a"], p, i), self.op(e["b"], p + 1, i)
            d = "d" if not i and p > 8 and "d" in (self.ty(e["a"]), self.ty(e["b"])) else "i"
            return "%s %s %s" % (a, e["op"], b), p, d
        if k == "un":
            a = self.op(e["a"], 12, e["op"] == "~")
            return e["op"] + (" " if a[0] in "+-~!&" else "") + a, 12, self.ty(e["a"]) if e["op"] == "-" else "i"
        if k in ("and", "or"):
            p = 2 if k == "and" else 1
            a, b = self.op(e["a"], p), self.op(e["b"], p + 1)
            return "%s %s %s" % (a, "&&" if k == "and" else "||", b), p, "i"
        if k == "cond":
            c, a, b = self.op(e["c"], 1), self.e(e["a"])[0], self.op(e["b"], 0)
            return "%s ? %s : %s" % (c, a, b), 0, "d" if "d" in (self.ty(e["a"]), self.ty(e["b"])) else "i"
        if k == "elvis":
            return "%s ?: %s" % (self.op(e["a"], 1), self.op(e["b"], 0)), 0, "d" if "d" in (self.ty(e["a"]), self.ty(e["b"])) else "i"
        if k == "comma":
            return "%s, %s" % (self.e(e["a"])[0], self.op(e["b"], -1)), -2, self.ty(e["b"])
        if k == "tr":
            return "T(%d, %s)" % (e["id"], self.op(e["e"], -1)), 20, "i"
        if k == "call":
            return "%sf%d(%s)" % (self.pre, e["f"], ", ".join(self.op(a, -1) for a in e["as"])), 20, "i"
        if k == "se":
            self.env.append({})
            t = "".join(self.s(s, 1).replace("\n", " ") for s in e["body"])
            v = self.e(e["e"])[0]
            ty = self.ty(e["e"])
            self.env.pop()
            return "({ %s %s; })" % (t, v), 20, ty
        raise KeyError(k)

    def block(self, ss, ind, scope=True):
        self.env.append({})
        t = ""
        for s in ss:
            t += self.s(s, ind)
        self.env.pop()
        return t

    def decl(self, s, ind):
        n, sto, ty = s["n"], s.get("sto", "plain"), s.get("ty", "int")
        init = self.op(s["e"][0], -1) if s["e"] else None
        I = "  " * ind
        d = "d" if ty in ("double", "float") else "i"
        eq = " = " + init if init is not None else ""
        at = ""
        if s["cl"]:
            self.nt += 1
            c = "%scl%d" % (self.pre, self.nt)
            self.top += "static void %s(%s *p) { T(%d, *p); }\n" % (c, ty, s["cl"])
            at = " __attribute__((cleanup(%s)))" % c
        if sto == "array":
            k = self.rng.randrange(3)
            name = "%s[%d]" % (n, k)
            t = "%s %s[3];%s" % (ty, n, " %s = %s;" % (name, init) if init is not None else "")
        elif sto == "member":
            name = n + ".m"
            t = "struct { char c; %s m; } %s;%s" % (ty, n, " %s = %s;" % (name, init) if init is not None else "")
        elif sto == "vla":
            self.nt += 1
            z = self.rng.randint(1, 40)
            name = "%s[%d]" % (n, self.rng.randrange(z))
            t = "int n%s = vlen(%d); %s %s[n%s]; fill(%s, n%s); %s = %s;" % (n, z, ty, n, n, n, n, name, init)
        else:
            q = {"register": "register ", "volatile": "volatile "}.get(sto, "")
            name = n
            t = "%s%s %s%s%s;" % (q, ty, n, at, eq)
        self.env[-1][n] = (name, d)
        return I + t + "\n"

    def body(self, s, ind, dangling=False):
        """a substatement, on lines of its own"""
        if s["k"] == "blk":
            return " {\n%s%s}\n" % (self.block(s["body"], ind + 1), "  " * ind)
        t = self.s(s, ind + 1)
        if dangling or self.rng.random() < .2 or s["k"] == "decl":
            return " {\n%s%s}\n" % (t, "  " * ind)
        return "\n" + t

    TYPES = [("signed char", 8, True), ("unsigned char", 8, False), ("short", 16, True), ("unsigned short", 16, False), ("int", 32, True), ("unsigned", 32, False),
             ("long", 64, True), ("unsigned long", 64, False), ("long long", 64, True), ("unsigned long long", 64, False)]

    def far(self, s, t):
        """the controlling expression and cases sent through an increasing map into another type: the same statements are selected"""
        r = self.rng
        own = own_cases(s["b"])
        k = sorted({x for c in own for x in list(range(c["lo"], c["hi"] + 2))})
        if not k:
            return None
        ty, bits, sg = r.choice(self.TYPES + self.TYPES[6:] * 2)
        lo, hi = (-1 << bits - 1, (1 << bits - 1) - 1) if sg else (0, (1 << bits) - 1)
        pool = {lo, lo + 1, hi, hi - 1} | {r.randint(lo, hi) for _ in range(len(k) + 2)} | {0, 1, 2, 3, 255, 256}
        for b in (7, 8, 15, 16, 31, 32, 33, 62, 63):
            pool |= {(1 << b) + d for d in (-1, 0, 1)} | {-(1 << b) + d for d in (-1, 0, 1)}
        pool = sorted(x for x in pool if lo <= x <= hi)
        if len(pool) < len(k) + 1:
            return None
        v = sorted(r.sample(pool, len(k) + 1))
        if r.random() < .3:     # runs of neighbours
            a = r.randint(lo, hi - len(k))
            v = list(range(a, a + len(k) + 1))

        def lit(x, neg):
            if x < 0:
                return "(-%dL-1)" % (-x - 1) if x == -1 << 63 else "(-%dL)" % -x
            if not sg and neg and bits >= 32 and x >= 1 << bits - 1:
                return lit(x - (1 << bits), False)
            return "%d%s" % (x, "UL" if x >> 63 else "L" if x >> 31 else r.choice(["", "", "L", "U"]) if x or not sg else "")
        for c in own:
            a, b = v[k.index(c["lo"]) + 1], v[k.index(c["hi"]) + 1]
            n = r.random() < .4
            self.cases[id(c)] = lit(a, n) if a == b else lit(a, False) + " ... " + lit(b, False)
        self.nt += 1
        self.tabs += "  static const %s zw%d[] = {%s}; static const int zk%d[] = {%s};\n" % (ty, self.nt, ", ".join(lit(x, False) for x in v), self.nt, ", ".join(map(str, k)))
        return "zw%d[cls((%s), zk%d, %d)]" % (self.nt, t, self.nt, len(k))

    def s(self, s, ind):
        I = "  " * ind
        k = s["k"]
        if k == "decl":
            return self.decl(s, ind)
        if k == "e":
            return "%s%s;\n" % (I, self.e(s["e"])[0])
        if k == "nop":
            return I + self.rng.choice([";", ";", "{}", "(void)0;"]) + "\n"
        if k == "blk":
            return I.rstrip() + I[:0] + " {\n%s%s}\n" % (self.block(s["body"], ind + 1), I)
        if k == "if":
            c = self.e(s["c"])[0]
            t = "%sif (%s)%s" % (I, c, self.body(s["a"], ind, bool(s["b"])))
            if s["b"]:
                t += I + "else" + self.body(s["b"][0], ind)
            return t
        if k == "while":
            return "%swhile (%s)%s" % (I, self.e(s["c"])[0], self.body(s["b"], ind))
        if k == "do":
            b = self.body(s["b"], ind)
            return "%sdo%s%swhile (%s);\n" % (I, b, I, self.e(s["c"])[0])
        if k == "for":
            self.env.append({})
            i = ";"
            if s["i"]:
                i = self.decl(s["i"][0], 0).strip() if s["i"][0]["k"] == "decl" else self.e(s["i"][0]["e"])[0] + ";"
            c = self.e(s["c"][0])[0] if s["c"] else ""
            st = self.e(s["s"][0])[0] if s["s"] else ""
            t = "%sfor (%s %s; %s)%s" % (I, i, c, st, self.body(s["b"], ind))
            self.env.pop()
            return t
        if k == "sw":
            t, p = self.i(s["c"])
            if self.rng.random() < .5:
                w = self.far(s, t)
                if w:
                    t = "%sswitch (%s)%s" % (I, w, self.body(s["b"], ind))
                    return t
            q = self.rng.choice(["", "", "", "(long)", "(long long)"])
            return "%sswitch (%s%s)%s" % (I, q, "(%s)" % t if q else t, self.body(s["b"], ind))
        if k in ("case", "def", "lab"):
            h = "default:" if k == "def" else s["l"] + ":" if k == "lab" else "case %s:" % self.cases.get(id(s), "%d" % s["lo"] if s["lo"] == s["hi"] else "%d ... %d" % (s["lo"], s["hi"]))
            return I[:-1] + h + "\n" + self.s(s["s"], ind)
        if k == "brk":
            return I + "break;\n"
        if k == "cont":
            return I + "continue;\n"
        if k == "ret":
            return I + ("return %s;\n" % self.e(s["e"][0])[0] if s["e"] else "return;\n")
        if k == "goto":
            return I + "goto %s;\n" % s["l"]
        if k == "cgoto":
            self.nt += 1
            t, _ = self.i(s["e"])
            if self.rng.random() < .6:
                self.tabs += "  static void *tab%d[] = {%s};\n" % (self.nt, ", ".join("&&" + l for l in s["ls"]))
                return I + "goto *tab%d[(%s) - 1];\n" % (self.nt, t)
            return I + "{ void *t[] = {0, %s}; goto *t[%s]; }\n" % (", ".join("&&" + l for l in s["ls"]), t)
        raise KeyError(k)


def own_cases(x):
    """the cases below, not those of switches inside"""
    if isinstance(x, list):
        return [c for y in x for c in own_cases(y)]
    if not isinstance(x, dict) or x.get("k") == "sw":
        return []
    return ([x] if x.get("k") == "case" else []) + [c for y in x.values() for c in own_cases(y)]


PRE = """extern int printf(const char *, ...);
extern void exit(int);
static int count;
static int T(int id, int v) { if (++count > 2000) { printf("endless\\n"); exit(3); } printf("%d:%d ", id, v); return v; }
static int cls(int x, const int *k, int n) { int i = 0; while (i < n && k[i] <= x) i++; return i; }
static int vlen(int n) { return n; }
static void fill(int *p, int n) { while (n > 0) p[--n] = 0x5a5a5a5a; }
static void done(int r, int a, int b) { printf("= %d %d %d\\n", r, a, b); count = 0; }
"""


def source(items):
    """items: (number, program, seed)"""
    t, m = PRE, ""
    for n, P, seed in items:
        t += Text(P, random.Random(seed), "c%d_" % n).program()
        m += " printf(\"#%d \"); c%d_run();" % (n, n)
    return t + "int main(void) {%s return 0; }\n" % m


# ------------------------------------------------- all small statements
def smalls():
    X = lambda: ex(dict(k="inc", n="x", by=1, post=True))
    tr = lambda i: ex(dict(k="tr", id=i, e=var("x")))
    conds = [lambda: bi("<", var("x"), num(2)), lambda: num(0), lambda: num(1), lambda: dict(k="and", a=dict(k="tr", id=2, e=var("x")), b=bi("<", var("y"), num(2))),
             lambda: dict(k="or", a=dict(k="tr", id=3, e=bi("==", var("x"), num(1))), b=num(0))]
    leaves = [X, lambda: tr(1), lambda: dict(k="brk"), lambda: dict(k="cont"), lambda: dict(k="goto", l="E"), lambda: dict(k="ret", e=[num(7)]), lambda: dict(k="nop"),
              lambda: dict(k="goto", l="M")]
    one = list(leaves)
    for c in conds:
        for a in leaves:
            one.append(lambda c=c, a=a: dict(k="if", c=c(), a=a(), b=[]))
            one.append(lambda c=c, a=a: dict(k="while", c=c(), b=blk([X(), a()])))
            one.append(lambda c=c, a=a: dict(k="do", c=c(), b=blk([a(), X()])))
            one.append(lambda c=c, a=a: dict(k="for", i=[], c=[c()], s=[X()["e"]], b=a()))
    for a in leaves:
        for b in leaves:
            for c in conds[:3]:
                one.append(lambda a=a, b=b, c=c: dict(k="if", c=c(), a=a(), b=[b()]))
            one.append(lambda a=a, b=b: dict(k="sw", c=var("x"), b=blk([dict(k="case", l="k1", lo=0, hi=1, s=a()), dict(k="def", l="k2", s=b()), tr(4)])))
            one.append(lambda a=a, b=b: dict(k="sw", c=num(1), b=blk([a(), dict(k="case", l="k1", lo=1, hi=1, s=b()), tr(4)])))
            one.append(lambda a=a, b=b: dict(k="sw", c=num(5), b=blk([dict(k="case", l="k1", lo=0, hi=1, s=a()), b()])))
            one.append(lambda a=a, b=b: blk([a(), dict(k="lab", l="N", s=b()), dict(k="if", c=bi("<", dict(k="inc", n="y", by=1, post=True), num(2)), a=dict(k="goto", l="N"), b=[])]))
    return one


def contexts(s, t=None):
    X = lambda n: ex(dict(k="inc", n=n, by=1, post=True))
    tr = lambda i: ex(dict(k="tr", id=i, e=var("x")))
    i = lambda: dict(k="decl", n="i", e=[num(0)], cl=0)
    yield "loop", [dict(k="for", i=[i()], c=[bi("<", var("i"), num(2))], s=[dict(k="inc", n="i", by=1, post=True)], b=blk([X("y"), s(), dict(k="lab", l="M", s=tr(9))])), tr(8), dict(k="lab", l="E", s=tr(7))]
    yield "while1", [dict(k="while", c=num(1), b=blk([dict(k="if", c=bi(">", dict(k="inc", n="y", by=1, post=False), num(3)), a=dict(k="brk"), b=[]), s(), dict(k="lab", l="M", s=dict(k="nop"))])), tr(8), dict(k="lab", l="E", s=tr(7))]
    yield "dead", [dict(k="goto", l="J"), dict(k="while", c=num(0), b=blk([tr(6), dict(k="lab", l="J", s=s()), tr(5), dict(k="lab", l="M", s=tr(4))])), dict(k="lab", l="E", s=tr(7))]
    yield "ifdead", [dict(k="do", c=bi("<", var("y"), num(2)), b=blk([X("y"), dict(k="if", c=num(0), a=blk([s(), tr(5)]), b=[dict(k="lab", l="M", s=s())] if s()["k"] not in ("blk", "sw") else []), tr(4)]
                     if s()["k"] not in ("blk", "sw") else [X("y"), s(), dict(k="lab", l="M", s=tr(4))])), dict(k="lab", l="E", s=tr(7))]


def prog(body, args):
    return dict(fs=[dict(ps=["y"], body=body + [dict(k="ret", e=[var("x")])])], kinds=[["int"]], globals=1, names=["x"], init=[args[0]], fuel=40, args=[num(args[1])])


def scope_jumps():
    """gotos between, into and out of blocks with cleanup variables, side by side and nested"""
    import itertools
    bump = lambda: dict(k="inc", n="y", by=1, post=True)

    def level(p, d, depth, nv, target, lim, at, ids):
        vs = ["%s%d%d" % (p, k, v) for k in range(d + 1) for v in range(nv)]
        own = vs[-nv:]
        ss = [dict(k="decl", n=v, e=[num(1)], cl=ids + 10 * d + i, sto="plain", ty="int") for i, v in enumerate(own)]
        asg = [ex(dict(k="asg", n=v, e=num(2 + i))) for i, v in enumerate(vs)]
        ss.append(dict(k="lab", l="%s%d" % (p, d), s=asg[0]))
        ss += asg[1:]
        ss.append(ex(dict(k="tr", id=ids + 10 * d + 5, e=var("y"))))
        if d + 1 < depth:
            ss.append(level(p, d + 1, depth, nv, target, lim, at, ids))
        if d == at:
            ss.append(dict(k="if", c=bi("<", bump(), num(lim)), a=dict(k="goto", l=target), b=[]))
        ss.append(ex(dict(k="tr", id=ids + 10 * d + 6, e=var("y"))))
        return blk(ss)
    for da, db, na, nb in itertools.product((1, 2, 3), (1, 2), (1, 2), (1, 2)):
        labs = ["A%d" % i for i in range(da)] + ["B%d" % i for i in range(db)] + ["M", "E"]
        for ta, tb in itertools.product(labs, labs):
            for aa, ab in itertools.product(range(da), range(db)):
                yield [level("A", 0, da, na, ta, 2, aa, 100), dict(k="lab", l="M", s=ex(dict(k="tr", id=8, e=var("y")))), level("B", 0, db, nb, tb, 4, ab, 200),
                       dict(k="lab", l="E", s=ex(dict(k="tr", id=9, e=var("y"))))]


def strip(x):
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items() if k not in ("sto", "ty", "kinds")}
    if isinstance(x, list):
        return [strip(v) for v in x]
    return x


def check(ctx):
    ctx.model("MCMiniC", "CONSTANT Full = %s\n" % ("TRUE" if ctx.thorough else "FALSE"), ["LoopLaws", "JumpLaws", "SwitchLaws", "DeadLaws", "Cleanups", "ExprLaws"], extra_cfg="CHECK_DEADLOCK FALSE\n")
    cjit = ctx.build()
    rng = ctx.rng
    progs = []
    for s in smalls():
        for name, body in contexts(s):
            for a in ((0, 0), (1, 1)) if ctx.thorough else (rng.choice([(0, 0), (1, 1), (2, 0), (0, 1)]),):
                progs.append(prog(body, a))
    js = list(scope_jumps())
    progs += [prog(b, (0, 0)) for b in (js if ctx.thorough else rng.sample(js, 300))]
    small = len(progs)
    for _ in range(40000 if ctx.thorough else 5000):
        g = Gen(rng)
        progs.append(dict(fs=g.fs, kinds=[[k for _, k in p] for p in g.ps], globals=len(g.globals), names=g.globals, init=[rng.randint(0, 3) for _ in g.globals], fuel=60,
                          args=[num(rng.randint(0, 4)) for _ in g.ps[0]]))
    exp = ctx.eval("MiniC", [strip(p) for p in progs], "Outcome")
    items, want = [], {}
    for n, (p, x) in enumerate(zip(progs, exp)):
        if x["ub"]:
            continue
        items.append((n, p, rng.random()))
        want[n] = "".join("%d:%d " % tuple(o) for o in x["out"]) + "= %d %d %d" % tuple([x["v"]] + (x["g"] + [0])[:2])
    ctx.log("%d programs, %d defined" % (len(progs), len(items)))

    def run(group):
        d = ctx.dir()
        src = source(group)
        open(d + "/p.c", "w").write(src)
        r = ctx.run([cjit, "-q", "p.c"], cwd=d, timeout=30)
        shutil.rmtree(d, ignore_errors=True)
        got = {}
        for part in r.out.decode("latin-1").split("#")[1:]:
            a, _, b = part.partition(" ")
            got[int(a)] = b.rstrip("\n")
        return r, got, src

    def go(group):
        r, got, src = run(group)
        bad = [it for it in group if got.get(it[0]) != want[it[0]]]
        if r.rc != 0 and not bad:
            bad = group[:1]
        for it in bad if r.rc or r.timeout else bad[:3]:
            r1, g1, s1 = run([it])
            if r1.rc != 0 or g1.get(it[0]) != want[it[0]]:
                ctx.violation("flow", "%s\n  prints %r\nexpected %r (status %s %s)" % (s1[len(PRE):][:2500], g1.get(it[0]), want[it[0]], r1.rc, r1.err.decode("latin-1")[:300]),
                              dict(source=s1, expected=want[it[0]], got=g1.get(it[0])))
                return
        if bad:
            ctx.violation("flow", "programs right alone but wrong in one file: %s" % r, dict(source=src))

    groups = [items[i:i + 40] for i in range(0, len(items), 40)]
    ctx.pmap(go, groups)
    ctx.traces(len(items))
    ctx.count("small_statements_in_contexts", small)
    ctx.count("defined_programs", len(items))
    ctx.count("observations", sum(len(exp[n]["out"]) for n, _, _ in items))
    ctx.sample(dict(source=source(items[-1:])[len(PRE):], expected=want[items[-1][0]]))
