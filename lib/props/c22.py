"""C22: tokens, integer constants, character constants and string literals (spec/Lex.tla)."""
import os, itertools

TECHNIQUE = "TLA+ model of translation phases 1-6 (tokens, literals) with TLC-computed values, types and bytes compared with programs run by cjit"
LEVEL = "model_checking"
NOTE = ("TLC checks the lexer of the specification against the grammar's productions for every short text; it then computes type, value, bytes or the refusal of literals (all short "
        "spellings, corner values with every suffix, random strings with escapes, splices, comments and wide parts) and the value of expressions whose operators touch; the texts are "
        "compiled by cjit at all kinds of places in the file, also across the boundaries of the input buffer.")

NL = 10
VARS = b"abcdefghij"
T_ = dict(int=1, uint=2, long=3, ulong=4, llong=5, ullong=6, float=7, double=8, ldouble=9)


# ---- generators: everything yields bytes
def int_spelling(rng):
    k = rng.random()
    base = rng.choice([10, 10, 8, 16, 16, 2])
    w = rng.choice([8, 16, 31, 31, 32, 32, 33, 63, 63, 64, 64])
    v = max(0, (1 << w) + rng.choice([-1, -1, 0, 0, 1, -2, rng.randrange(-200, 200)])) if k < .7 else rng.randrange(1 << rng.randrange(1, 65))
    v &= (1 << 64) - 1
    if base == 10:
        t = "%d" % v
    elif base == 8:
        t = "0" * rng.choice([1, 1, 1, 2, 5]) + "%o" % v
    elif base == 16:
        t = rng.choice(["0x", "0X"]) + "0" * rng.choice([0, 0, 0, 1, 4, 9]) + rng.choice(["%x", "%X"]) % v
    else:
        t = rng.choice(["0b", "0B"]) + "0" * rng.choice([0, 0, 0, 1, 9]) + bin(v)[2:]
    t += rng.choice(["", "", "", "u", "U", "l", "L", "ul", "uL", "Ul", "UL", "lu", "lU", "Lu", "LU", "ll", "LL", "ull", "uLL", "ULL", "llu", "LLU", "LLu", "llU"])
    if rng.random() < .12:      # spoil it
        i = rng.randrange(1, len(t) + 1)
        t = t[:i] + rng.choice(["l", "u", "L", "U", "x", "b", "8", "9", "g", "_", "a", ".", "lL", "e", "z"]) + t[i:]
    return t.encode()


def float_spelling(rng):
    d = lambda n: "".join(rng.choice("0123456789") for _ in range(n))
    h = lambda n: "".join(rng.choice("0123456789abcdefABCDEF") for _ in range(n))
    if rng.random() < .5:
        t = d(rng.randrange(0, 4)) + rng.choice([".", "", "."]) + d(rng.randrange(0, 4)) + rng.choice(["", "e%s%s" % (rng.choice(["", "+", "-"]), d(rng.choice([1, 1, 2, 0]))), "E5", "e", "p1"])
    else:
        t = rng.choice(["0x", "0X"]) + h(rng.randrange(0, 4)) + rng.choice([".", "", "."]) + h(rng.randrange(0, 4)) + rng.choice(["p%s%s" % (rng.choice(["", "+", "-"]), d(rng.choice([1, 1, 2, 0]))), "P3", "", "e1"])
    t += rng.choice(["", "", "f", "F", "l", "L", "fl", "ll", "u", "d"])
    if not t[0].isdigit() and not (t[0] == "." and t[1:2].isdigit()):
        t = "1" + t
    return t.encode()


ODD = ["\u00e9", "\u20ac", "\U0001f600", "\u00a0", "\u07ff", "\u0800", "\uffff", "\U0010ffff", "\ud7ff", "\ue000"]


def element(rng, q, wide):
    k = rng.random()
    if k < .3:
        c = rng.choice("abcxyz0123456789ABCDEFefunrt/*?%#@$` .,;'\"()[]")
        return b"\\" + c.encode() if c == q else c.encode()
    if k < .45:
        return b"\\" + rng.choice(b"abfnrtv'\"\\?e").to_bytes(1, "big")
    if k < .62:
        return ("\\" + "%o" % rng.choice([0, 0, 1, 7, 8, 10, 63, 64, 127, 128, 200, 255, rng.randrange(256)])).encode() if rng.random() < .5 else ("\\%03o" % rng.randrange(256)).encode()
    if k < .78:
        return ("\\x" + rng.choice(["%x", "%X", "%02x", "%04X", "%08x"]) % (rng.choice([0, 1, 15, 16, 127, 128, 255, rng.randrange(256)] + ([256, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff] if wide else [])))).encode()
    if k < .86:
        c = ord(rng.choice(ODD)) if rng.random() < .6 else rng.choice([0x24, 0x40, 0x60, rng.randrange(0xa0, 0xd800), rng.randrange(0xe000, 0x110000)])
        return (("\\u%04x" if rng.random() < .5 else "\\u%04X") % c if c < 65536 and rng.random() < .7 else "\\U%08x" % c).encode()
    if k < .93:
        return rng.choice(ODD).encode()
    return bytes([rng.choice(b"abcdef0123456789")])


def quoted(rng, q, n, wide):
    t = b"".join(element(rng, q, wide) for _ in range(n))
    if rng.random() < .06:
        t += rng.choice([b"\\x", b"\\xg", b"\\u12", b"\\U0001f6", b"\\u"])
    return (b"L" if wide else b"") + q.encode() + t + q.encode()


def gap(rng, need=False):
    k = rng.random()
    if k < .45 and not need:
        return b""
    if k < .7:
        return rng.choice([b" ", b"  ", b"\t", b"\n", b" \n ", b"\f", b"\v", b"\r\n", b" "])
    if k < .85:
        return rng.choice([b"/**/", b"/* */", b"/***/", b"/*/ */", b"/*\n*/", b"/* ' */", b'/* " */', b"/* // */", b"/* \\*/", b"/*\\\n*/", b"/*\xc3\xa9*/", b"/* *\\\n/"])
    return rng.choice([b"// x\n", b"//\n", b"// /*\n", b"// \\\n y\n", b"//'\n", b'//"\n', b"// \\ \n" if False else b"// z\n", b"/\\\n/ q\n", b"/\\\n* q *\\\n/"])


def splice(rng, t, p):
    """t with backslash-newlines thrown in"""
    out = bytearray()
    for i, c in enumerate(t):
        if rng.random() < p and i:
            out += b"\\\n" if rng.random() < .85 else b"\\\r\n" if rng.random() < .5 else b"\\\n\\\n"
        out.append(c)
    return bytes(out)


BIN = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&&", "||"]
ASG = ["=", "+=", "-=", "*=", "/=", "%=", "&=", "^=", "|=", "<<=", ">>="]


def expr_tokens(rng):
    names = list("abcdefghij")
    rng.shuffle(names)
    agg = ["p", "s"][rng.randrange(2)]
    left = dict(agg=1, v=1)

    def prim(d):
        k = rng.random()
        if k < .5 and names:
            return [names.pop()], True
        if k < .58 and left["agg"]:
            left["agg"] = 0
            return ([agg, "->" if agg == "p" else ".", rng.choice("xy")]), True
        if k < .64 and left["v"]:
            left["v"] = 0
            return (["v", "[", rng.choice("0123"), "]"] if rng.random() < .6 else ["*", "v"]), True
        if k < .8 or d <= 0:
            return [rng.choice(["0", "1", "2", "3", "7", "12", "010", "0x1e", "0xe", "0xE", "100", "0b11", "'a'", "' '", "'/'", "'\"'", "'\\''", "'\\\\'", "1"])], False
        return ["("] + ex(d - 1) + [")"], False

    def unary(d):
        t, lv = prim(d)
        k = rng.random()
        if lv and k < .2:
            return t + [rng.choice(["++", "--"])]
        if lv and k < .3:
            return [rng.choice(["++", "--"])] + t
        if k < .5:
            return [rng.choice(["-", "+", "~", "!", "-"])] + t if rng.random() < .8 or not lv else ["*", "&"] + t
        if k < .55:
            return [rng.choice("-+~!"), rng.choice("-+~!")] + t
        return t

    def ex(d):
        k = rng.random()
        if k < .12 and names:
            return [names.pop(), rng.choice(ASG)] + ex(d - 1) if d > 0 else unary(0)
        if k < .18 and d > 0:
            return unary(d - 1) + ["?"] + unary(d - 1) + [":"] + unary(d - 1)
        if k < .22 and d > 0:
            return ["("] + ex(d - 1) + [","] + ex(d - 1) + [")"]
        t = unary(d)
        for _ in range(rng.choice([0, 1, 1, 2])):
            t += [rng.choice(BIN)] + unary(d - 1)
        return t
    return ex(2)


def expression(rng):
    toks = expr_tokens(rng)
    dense = rng.random()
    out = b""
    for i, t in enumerate(toks):
        if i:
            k = rng.random()
            out += b"" if k < dense else b" " if k < dense + (1 - dense) * .6 else gap(rng, True)
        out += t.encode()
    if rng.random() < .3:
        out = splice(rng, out, .12)
    if rng.random() < .06:      # something else in it
        i = rng.randrange(len(out) + 1)
        out = out[:i] + bytes([rng.choice(b"+-*/%&|^<>=!~.?:'\"\\@`1aex#")]) + out[i:]
    return out


def short_numbers():
    al = "01789afxXbulLUe.+-p"
    for n in (1, 2, 3):
        for t in itertools.product(al, repeat=n):
            s = "".join(t)
            if s[0].isdigit() or (s[0] == "." and len(s) > 1 and s[1].isdigit()):
                yield s.encode()


def strings(rng):
    n = rng.choice([1, 1, 1, 2, 2, 3])
    ws = [rng.random() < .25] * n if rng.random() < .75 else [rng.random() < .4 for _ in range(n)]
    out = gap(rng) if rng.random() < .2 else b""
    for i in range(n):
        if i:
            out += gap(rng)
        q = quoted(rng, '"', rng.choice([0, 1, 2, 3, 5, 8]), any(ws) if rng.random() < .5 else ws[i])
        q = q if q[:1] != b"L" or ws[i] else q[1:]
        q = q if not ws[i] or q[:1] == b"L" else b"L" + q
        out += splice(rng, q, .15) if rng.random() < .2 else q
    return out


def long_strings(rng, ctx):
    for n in [998, 999, 1000, 1001, 1022, 1023, 1024, 1025] if not ctx.thorough else list(range(990, 1030)) + [2046, 2047, 2048, 4095, 4096, 8190, 8191, 8192]:
        t = b"".join(rng.choice([b"a", b"b", b"\\n", b"\\101", b"\\x42", b"z"]) for _ in range(n))[:n]
        while t.endswith(b"\\") or t[-2:-1] == b"\\" or t[-3:-2] == b"\\":
            t = t[:-3] + b"www"
        yield (b"L" if rng.random() < .2 else b"") + b'"' + t + b'"'


def cases(ctx):
    rng = ctx.rng
    f = 5 if ctx.thorough else 1
    sh = list(short_numbers())
    out = sh if ctx.thorough else rng.sample(sh, 700)
    out = [(t, "number") for t in out]
    out += [(int_spelling(rng), "number") for _ in range(500 * f)]
    out += [(float_spelling(rng), "number") for _ in range(100 * f)]
    for _ in range(60 * f):
        out.append((splice(rng, int_spelling(rng), .2), "number"))
    for _ in range(250 * f):
        w = rng.random() < .3
        c = quoted(rng, "'", 1 if rng.random() < .9 else rng.choice([0, 2]), w)
        out.append((splice(rng, c, .2) if rng.random() < .2 else c, "char"))
    out += [(strings(rng), "string") for _ in range(500 * f)]
    out += [(t, "string") for t in long_strings(rng, ctx)]
    out += [(expression(rng), "expression") for _ in range(900 * f)]
    seen, res = set(), []
    for t, k in out:
        # a backslash at the end would join the text to the next line, # may start a directive
        if t not in seen and 0 not in t and not t.endswith(b"\\") and not (k == "expression" and b"#" in t):
            seen.add(t)
            res.append(dict(s=list(t), kind=k, m=[rng.randrange(0, 12) for _ in range(16)]))
    return res


HEAD = b"""extern int printf(const char *, ...);
typedef unsigned long long Ull_;
struct S { int x, y; };
static void hex(const char *w, int n, const void *p, int z) { const unsigned char *q = p; int i; printf("%d %s", n, w); for (i = 0; i < z; i++) printf(" %02x", q[i]); printf("\\n"); }
"""
GEN = b"int: 1, unsigned: 2, long: 3, unsigned long: 4, long long: 5, unsigned long long: 6, float: 7, double: 8, long double: 9, default: 0"


def chunk(n, c, m):
    """C text for case c with meaning m; prints lines starting with n"""
    t = bytes(c["s"])
    if m["k"] == "int":
        return b"void f%d(void) { Ull_ v = (Ull_)(\n%b\n); printf(\"%d int %%d %%d %%llx\\n\", _Generic((\n%b\n), %b), (int)sizeof(\n%b\n), v); }\n" % (n, t, n, t, GEN, t)
    if m["k"] == "float":
        return b"void f%d(void) { printf(\"%d float %%d\\n\", _Generic((\n%b\n), %b)); }\n" % (n, n, t, GEN)
    if m["k"] == "str":
        ty = b"int" if m["w"] else b"char"
        k = len(m["us"])
        return (b"static %b a%d[] =\n%b\n;\n%b z%d[%d] =\n%b\n;\nvoid f%d(void) { const %b *p =\n%b\n; hex(\"arr\", %d, a%d, sizeof a%d); hex(\"ptr\", %d, p, sizeof(\n%b\n));"
                b" hex(\"cut\", %d, z%d, sizeof z%d); }\n" % (ty, n, t, ty, n, max(1, k - 1), t, n, ty, t, n, n, n, n, t, n, n, n))
    if m["k"] == "val":
        m0 = c["m"]
        decl = b"".join(b"int %c = %d; " % (VARS[i], m0[i]) for i in range(10))
        return (b"void f%d(void) { %bstruct S s = { %d, %d }, *p = &s; int v[4] = { %d, %d, %d, %d }; int r = (\n%b\n); printf(\"%d val %%d" % (n, decl, m0[10], m0[11], m0[12], m0[13], m0[14], m0[15], t, n)
                + b" %d" * 16 + b"\\n\", r, a, b, c, d, e, f, g, h, i, j, p->x, s.y, v[0], v[1], v[2], v[3]); }\n")
    return b"void f%d(void) { int a, b, c, d, e, f, g, h, i, j; struct S s, *p = &s; int v[4]; int r = (\n%b\n); }\n" % (n, t)


def expect(n, m):
    if m["k"] == "int":
        t = T_[m["t"]]
        return ["%d int %d %d %x" % (n, t, 4 if t < 3 else 8, sum(b << 8 * i for i, b in enumerate(m["v"])))]
    if m["k"] == "float":
        return ["%d float %d" % (n, T_[m["t"]])]
    if m["k"] == "str":
        h = ["".join(" %02x" % b for b in u) for u in m["us"]]
        return ["%d arr" % n + "".join(h), "%d ptr" % n + "".join(h), "%d cut" % n + ("".join(h[:-1]) if len(h) > 1 else h[0])]
    return ["%d val %d " % (n, m["v"]) + " ".join(str(x) for x in m["m"])]


def program(rng, items):
    """file contents and, if split, of the header with the cases in it; one case is put at the edge of the input buffer"""
    body, where = [], rng.randrange(len(items)) if rng.random() < .6 else -1
    inc = rng.random() < .5
    pre = HEAD
    size = 0 if inc else len(pre)
    for j, (n, c, m) in enumerate(items):
        x = chunk(n, c, m)
        if j == where:
            t = bytes(c["s"])
            k = size + x.index(t) + rng.randrange(len(t) + 1)      # this byte at a multiple of the buffer size
            pad = -k % 8192
            if pad < 6:
                pad += 8192
            x = b"/*" + b"-" * (pad - 5) + b"*/\n" + x
        size += len(x)
        body.append(x)
    main = b"int main(void) { %b return 0; }\n" % b" ".join(b"f%d();" % n for n, _, _ in items)
    if inc:
        return dict(m=pre + b'#include "cases.h"\n' + main, h=b"".join(body))
    return dict(m=pre + b"".join(body) + main, h=None)


def check(ctx):
    cjit = ctx.build()
    al = "97, 49, 46, 43, 45, 101, 39, 92, 47, 42, 10, 60, 61, 76"
    ctx.model("MCLex", "CONSTANTS\nAlphabet = {%s}\nN = %d\n" % (al, 5 if ctx.thorough else 4), ["Longest", "Kept", "Stable", "Numbers", "Bytes0"], extra_cfg="CHECK_DEADLOCK FALSE\n", timeout=900)
    cs = cases(ctx)
    ms = ctx.eval("Lex", [dict(s=c["s"], m=c["m"]) for c in cs], "Lexed")
    ctx.log("meanings of %d texts" % len(cs))
    good, bad = [], []
    stat = {}
    for n, (c, r) in enumerate(zip(cs, ms)):
        m = r["m"]
        key = (c["kind"], m["k"])
        stat[key] = stat.get(key, 0) + 1
        if m["k"] in ("int", "float", "str", "val"):
            good.append((n, c, m))
        elif m["k"] in ("bad", "syntax"):
            # texts that end in an open comment or quote or in a splice would take in what follows: they still cannot be right
            bad.append((n, c, m))
    ctx.log(", ".join("%s %s: %d" % (a, b, k) for (a, b), k in sorted(stat.items())))
    ctx.rng.shuffle(good)
    mixed = [g for g in good if ms[g[0]]["alt"] or (g[2]["k"] == "str" and g[2]["w"] and ms[g[0]]["first"])]
    rest = [g for g in good if g not in mixed]
    groups = [rest[i:i + 30] for i in range(0, len(rest), 30)] + [[g] for g in mixed]
    jobs = [(g, program(ctx.rng, g)) for g in groups]

    def run(p, d=None):
        d = d or ctx.dir()
        open(d + "/p.c", "wb").write(p["m"])
        if p["h"] is not None:
            open(d + "/cases.h", "wb").write(p["h"])
        r = ctx.run([cjit, "-q", "p.c"], cwd=d, timeout=60)
        return r

    def compare(items, r):
        lines = {}
        for l in r.out.decode("latin-1").split("\n"):
            if l:
                lines.setdefault(l.split(" ", 1)[0], []).append(l)
        return [it for it in items if lines.get(str(it[0])) != expect(it[0], it[2])]

    def known(it, r):
        """one of the known ways to treat narrow and wide literals next to each other"""
        n, c, m = it
        if m["k"] != "str" or not m["w"]:
            return None
        if ms[n]["first"] and b"unhandled string literal merging" in r.err and r.rc == 1 and not r.out:
            return "narrow-first"
        alt = dict(m, us=ms[n]["alt"])
        if ms[n]["alt"]:
            q = dict(m=HEAD + chunk(n, c, alt) + b"int main(void) { f%d(); return 0; }\n" % n, h=None)
            if not compare([(n, c, alt)], run(q)):
                return "narrow-after"
        return None

    def group(j):
        items, p = j
        r = run(p)
        return compare(items, r), r
    res = ctx.pmap(group, jobs)
    ctx.traces(len(good))
    for (items, p), (wrong, r) in zip(jobs, res):
        if not wrong:
            continue
        lone = []
        for it in wrong:
            q = dict(m=HEAD + chunk(*it) + b"int main(void) { f%d(); return 0; }\n" % it[0], h=None)
            r1 = run(q)
            if compare([it], r1) and compare([it], run(q)):
                lone.append(it)
                ctx.violation(known(it, r1) or it[1]["kind"], "%s %r: expected %s\nprogram gives %s" % (it[1]["kind"], bytes(it[1]["s"])[:200], expect(it[0], it[2])[0][:300], r1),
                              dict(text=bytes(it[1]["s"]).decode("latin-1"), meaning=it[2], program=q["m"].decode("latin-1")))
        if not lone:      # only where it was
            r = run(p)
            w2 = compare(items, r)
            if w2:
                it = w2[0]
                ctx.violation("place", "%r, right on its own, is wrong at its place in a file of many: expected %s, %s" % (bytes(it[1]["s"])[:100], expect(it[0], it[2])[0][:200], r),
                              dict(main=p["m"].decode("latin-1"), header=p["h"] and p["h"].decode("latin-1"), item=bytes(it[1]["s"]).decode("latin-1")))

    def refuse(it):
        q = dict(m=HEAD + chunk(*it) + b"int main(void) { printf(\"ran\\n\"); return 0; }\n", h=None)
        r = run(q)
        return r.rc != 0 and not r.out and not r.timeout and r.rc > 0, r, q
    for it, (ok, r, q) in zip(bad, ctx.pmap(refuse, bad)):
        if not ok and not refuse(it)[0]:
            ctx.violation("accepted-" + it[1]["kind"], "%s %r is not one (%s), yet: %s" % (it[1]["kind"], bytes(it[1]["s"])[:200], it[2]["k"], r), dict(text=bytes(it[1]["s"]).decode("latin-1"), program=q["m"].decode("latin-1")))
    ctx.traces(len(bad))
    ctx.count("literals_and_expressions", len(good))
    ctx.count("refused_texts", len(bad))
    for it in good[:4] + bad[:2]:
        ctx.sample(dict(text=bytes(it[1]["s"]).decode("latin-1"), meaning=it[2]))
