"""C20: calls between cjit code and native code follow the System V ABI (spec/Abi.tla)."""
import random, shutil, struct
import vf
from . import c18

TECHNIQUE = "TLA+ specification of System V argument passing, TLC-computed register and stack images compared with what probes see at calls made by, and results of calls made to, code compiled by cjit"
LEVEL = "model_checking"
NOTE = ("Argument and result placement is specified in TLA+ (classification, registers, stack) and its laws are model checked for all short signatures; random and systematic prototypes are decided by TLC: "
        "a probe in assembler records registers and stack of calls made by cjit code, and a driver enters cjit functions with exactly the specified registers and stack and checks result, callee-saved registers, stack pointer, direction flag and x87 stack.")

CT, SZ, FL = c18.CT, c18.SZ, c18.FL
SCAL = ["char", "schar", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "llong", "ullong", "ptr", "bool", "float", "double", "double", "ldouble", "int", "long"]


def S(t):
    return dict(k="s", t=t)


def rec(*ts, u=False, packed=False):
    return dict(k="r", u=u, packed=packed, al=0, pack=0, ms=[dict(n="m%d" % i, ty=t if isinstance(t, dict) else S(t), w=-1, al=0, pk=False) for i, t in enumerate(ts)])


def arr(t, n):
    return dict(k="a", n=n, of=S(t))


# types of the systematic part
ALPHA = [S("int"), S("long"), S("double"), S("float"), S("char"), S("ldouble"), S("ptr"), rec("long", "long"), rec("double", "double"), rec("float", "float"), rec("char", "short", "int"),
         rec("long", "long", "long"), rec("float", "float", "float"), rec("ldouble"), rec(arr("char", 3)), rec(arr("char", 7)), rec("int", "float"), rec("double", "float"), rec(arr("char", 16)), rec("char", packed=True),
         rec("char", "int", packed=True), rec("double", "long", u=True), rec(arr("short", 5)), rec("char", "double", "double"), rec("float"), rec(rec("int"), "char"), rec(arr("char", 9))]


def ld(v):
    """bytes of a long double with the value v"""
    if v == 0:
        return bytes(10)
    a = abs(v)
    e = a.bit_length() - 1
    return struct.pack("<QH", a << (63 - e), 16383 + e | (0x8000 if v < 0 else 0))


def value(ty, rng, size, lv):
    """an object's bytes: lv = leaves with offsets (from the specification's layout via c18.place)"""
    return [rng.randrange(256) for _ in range(size)]


def sbytes(t, rng):
    n = rng.choice([0, 1, -1, 2, 100, -100, rng.randrange(-1 << 20, 1 << 20)])
    if t == "float":
        return struct.pack("<f", float(n) / rng.choice([1, 2, 4])) if rng.random() < .7 else struct.pack("<I", rng.choice([0, 0x80000000, 0x7f800000, 0x7fc00001, 1, rng.getrandbits(32) & 0xff7fffff]))
    if t == "double":
        return struct.pack("<d", float(n) / rng.choice([1, 2, 4])) if rng.random() < .7 else struct.pack("<Q", rng.choice([0, 1 << 63, 0x7ff << 52, 0x7ff8 << 48 | 3, 1, rng.getrandbits(64) & 0xffefffffffffffff]))
    if t == "ldouble":
        return ld(n) + bytes(6)
    if t == "bool":
        return bytes([rng.randrange(2)])
    return bytes(rng.getrandbits(8) for _ in range(SZ[t])) if rng.random() < .7 else (n % (1 << 8 * SZ[t])).to_bytes(SZ[t], "little")


def build(ty, rng):
    """bytes of an object; only for types without bit-fields, where the layout is that of the machine (checked by C18)"""
    if ty["k"] == "s":
        return sbytes(ty["t"], rng), c18.natural(ty)
    if ty["k"] == "a":
        xs = [build(ty["of"], rng) for _ in range(ty["n"])]
        return b"".join(x[0] for x in xs), xs[0][1] if xs else 1
    out, al, mx = b"", ty["al"] or 1, 0
    for m in ty["ms"]:
        if m["w"] >= 0:
            return None, 0
        b, a = build(m["ty"], rng)
        if b is None:
            return None, 0
        a = c18.natural(m["ty"])
        a = max(m["al"], 1 if m["pk"] or ty["packed"] else min(a, ty["pack"]) if ty["pack"] else a)
        al = max(al, a)
        if ty["u"]:
            out = out if len(out) > len(b) else b
        else:
            out += bytes(rng.getrandbits(8) for _ in range(-len(out) % a)) + b
    out += bytes(rng.getrandbits(8) for _ in range(-len(out) % al))
    return out, al


def hasbf(ty):
    if ty["k"] == "s":
        return False
    if ty["k"] == "a":
        return hasbf(ty["of"])
    return any(m["w"] >= 0 or hasbf(m["ty"]) for m in ty["ms"])


class Gen:
    def __init__(self, rng):
        self.rng = rng

    def ty(self):
        r = self.rng
        k = r.random()
        if k < .55:
            return S(r.choice(SCAL))
        if k < .75:
            return r.choice(ALPHA)
        for _ in range(50):
            g = c18.TGen(r, 0)
            t = g.rec(r.choice([0, 0, 1, 1, 2]))
            if not hasbf(t) and c18.natural(t) <= 16:
                b, _ = build(t, random.Random(0))
                if b is not None and 0 < len(b) <= 64:
                    return t
        return S("long")

    def case(self, sig=None, ret=None):
        r = self.rng
        if sig is None:
            n = r.choice([0, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16])
            sig = [self.ty() for _ in range(n)]
        nfix = -1
        if sig and r.random() < .35:
            nfix = r.randint(1, len(sig))
            sig = sig[:nfix] + [t if t["k"] != "s" or t["t"] not in ("char", "schar", "uchar", "short", "ushort", "bool", "float") else S(r.choice(["int", "long", "double", "uint"])) for t in sig[nfix:]]
        if ret is None:
            ret = dict(k="v") if r.random() < .2 else self.ty()
        args = [dict(ty=t, b=list(build(t, r)[0])) for t in sig]
        return dict(args=args, ret=dict(ty=ret, b=[] if ret["k"] == "v" else list(build(ret, r)[0])), nfix=nfix)


def cbytes(b):
    return "{ %s }" % ", ".join(map(str, b or [0]))


PRE = r'''#include <stdarg.h>
extern void vp_dump(const char *, int, const void *, long), vp_result(const void *, const void *, const void *, int), vp_show(int, int);
extern void vp_enter(int, const void *, const void *, const void *, int, int, int), vp_leave(int, int), vp_list(int, const char *, va_list);
extern void vp_invoke(void *), vp_probe(void);
extern void *memcpy(void *, const void *, unsigned long);
extern int fflush(void *);
static long id(long x) { return x; }
static volatile int zero;
'''


def kindchar(ty):
    return {"int": "i", "uint": "i", "long": "l", "ulong": "l", "llong": "l", "ullong": "l", "double": "d", "ldouble": "x", "ptr": "p"}.get(ty.get("t"), "?") if ty["k"] == "s" else "?"


def program(cs):
    top, fns, main = "", "", ""
    for c in cs:
        n, rng, r = c["id"], random.Random(c["seed"]), c["res"]
        names = []
        for i, a in enumerate(c["args"] + [c["ret"]]):
            t = "A%d_%d" % (n, i) if i < len(c["args"]) else "R%d" % n
            if a["ty"]["k"] == "v":
                t = "void"
            elif a["ty"]["k"] == "s" and a["ty"]["t"] != "ptr" and rng.random() < .5:
                t = CT[a["ty"]["t"]]
            else:
                top += "typedef %s;\n" % c18.decl(a["ty"], t, rng)
            names.append(t)
        rt = names.pop()
        nf = c["nfix"] if c["nfix"] >= 0 else len(names)
        proto = ", ".join(names[:nf] + (["..."] if c["nfix"] >= 0 else [])) or "void"
        for i, a in enumerate(c["args"]):
            top += "static const unsigned char d%d_%d[] = %s;\n" % (n, i, cbytes(a["b"]))
        top += "static const unsigned char dr%d[] = %s, rr%d[] = %s;\n" % (n, cbytes(c["ret"]["b"]), n, cbytes(r["rv"]))
        mem = len(c["ret"]["b"]) if r["retmem"] else -1
        # the call made by cjit code
        f = "static void a%d(void)\n{\n" % n
        loc, ex, body = "", [], ""
        for i, (a, t) in enumerate(zip(c["args"], names)):
            k = rng.random()
            x = "l%d" % i
            if k < .15:
                top += "static %s g%d_%d;\n" % (t, n, i)
                x = "g%d_%d" % (n, i)
            elif k < .25:
                loc += "    static %s l%d;\n" % (t, i)
            elif k < .4:
                loc += "    %s l%d[3];\n" % (t, i)
                x = rng.choice(["l%d[1]", "l%d[zero + 1]", "*(l%d + 1)"]) % i
            elif k < .55:
                loc += "    %s l%d_, *l%d = &l%d_;\n" % (t, i, i, i)
                x = "*l%d" % i
            elif k < .65:
                loc += "    struct { char c; %s m; } l%d;\n" % (t, i)
                x = "l%d.m" % i
            else:
                loc += "    %s%s l%d;\n" % (rng.choice(["", "", "volatile "]), t, i)
            body += "    memcpy((void *)&%s, d%d_%d, sizeof(%s));\n" % (x if x[0] != "*" else "(%s)" % x, n, i, t)
            k = rng.random()
            if k < .15:
                fns += "static %s s%d_%d(%s x) { return x; }\n" % (t, n, i, t)
                x = "s%d_%d(%s)" % (n, i, x)
            elif k < .22:
                x = "(zero, %s)" % x
            elif k < .3:
                x = "(zero ? %s : %s)" % (x, x)
            elif k < .36 and a["ty"]["k"] == "s" and a["ty"]["t"] not in FL | {"bool"}:
                lit = int.from_bytes(bytes(a["b"]), "little")
                x = "(%s)0x%xULL" % (t, lit)
            ex.append(x)
        k = rng.random()
        if c["self"]:
            top += "%s b%d(%s);\n" % (rt, n, proto)
            call = "%s(%s)" % ("b%d" % n if k < .6 else "(*(%s (*volatile)(%s))b%d)" % (rt, proto, n), ", ".join(ex))
        elif k < .4:
            call = "((%s (*)(%s))vp_probe)(%s)" % (rt, proto, ", ".join(ex))
        elif k < .7:
            top += "extern %s q%d(%s) __asm__(\"vp_probe\");\n" % (rt, n, proto)
            call = "q%d(%s)" % (n, ", ".join(ex))
        else:
            loc += "    %s (*fp)(%s) = (void *)vp_probe;\n" % (rt, proto)
            call = "%s(%s)" % (rng.choice(["fp", "(*fp)"]), ", ".join(ex))
        if not c["self"]:
            body += "    vp_result(rr%d, %s, dr%d, %d);\n" % (n, "dr%d" % n if r["x87"] else "0", n, mem)
        live = rng.random() < .3
        if live:
            loc += "    long lv = id(%d), lw;\n" % (n + 7)
        if rt == "void":
            body += "    %s;\n" % call
        elif live and c["ret"]["ty"]["k"] == "s" and c["ret"]["ty"]["t"] in ("int", "long", "short", "uint"):
            loc += "    %s r;\n" % rt
            body += "    lw = lv * 3 - (long)(r = %s) + lv;\n    if (lw != (long)%d * 4 - (long)r) vp_dump(\"live\", %d, &lw, 8);\n" % (call, n + 7, n)
        else:
            loc += "    %s r;\n" % rt
            body += "    r = %s;\n" % call
        f += loc + body
        if not c["self"]:
            f += "    vp_show(%d, %d);\n" % (n, len(r["st"]))
        if rt != "void":
            f += "    vp_dump(\"r\", %d, (void *)&r, sizeof r);\n" % n
        fns += f + "}\n"
        main += "    a%d(); fflush(0);\n" % n
        # the function entered by the driver
        ps = ", ".join(["%s p%d" % (t, i) for i, t in enumerate(names[:nf])] + (["..."] if c["nfix"] >= 0 else [])) or "void"
        top += "static const unsigned char ig%d[] = %s, is%d[] = %s, it%d[] = %s;\n" % (n, cbytes(c["ing"]), n, cbytes(c["ins"]), n, cbytes(c["int"]))
        f = "%s b%d(%s)\n{\n" % (rt, n, ps)
        if rt != "void":
            f += "    %s r;\n" % rt
        pre = ""
        if rng.random() < .3:
            f += "    char pad[%d]; pad[zero] = 1;\n" % rng.choice([1, 7, 24, 100])
        if c["nfix"] >= 0:
            f += "    va_list ap%s;\n" % ", aq"
            pre += "    va_start(ap, p%d);\n" % (nf - 1)
        if rng.random() < .5:
            pre += "    id(zero);\n"
        dumps = ["    vp_dump(\"p%d\", %d, (void *)&p%d, sizeof p%d);\n" % (i, n, i, i) for i in range(nf)]
        rng.shuffle(dumps)
        f += pre + "".join(dumps)
        if c["nfix"] >= 0:
            cut = rng.randint(nf, len(names))
            for i in range(nf, len(names)):
                if i == cut:
                    f += "    va_copy(aq, ap);\n"
                k = rng.random()
                if k < .7:
                    f += "    { %s x = va_arg(ap, %s); vp_dump(\"p%d\", %d, &x, sizeof x); }\n" % (names[i], names[i], i, n)
                elif c["args"][i]["ty"]["k"] == "r":
                    fns += "static void w%d_%d(%s x) { vp_dump(\"p%d\", %d, &x, sizeof x); }\n" % (n, i, names[i], i, n)
                    f += "    w%d_%d(va_arg(ap, %s));\n" % (n, i, names[i])
                else:
                    f += "    { static %s x; x = va_arg(ap, %s); vp_dump(\"p%d\", %d, &x, sizeof x); }\n" % (names[i], names[i], i, n)
            if cut == len(names):
                f += "    va_copy(aq, ap);\n"
            for i in range(cut, len(names)):
                f += "    { %s x = va_arg(aq, %s); vp_dump(\"q%d\", %d, &x, sizeof x); }\n" % (names[i], names[i], i, n)
            c["again"] = list(range(cut, len(names)))
            f += "    va_end(ap);\n    va_end(aq);\n"
            kinds = "".join(kindchar(a["ty"]) for a in c["args"][nf:])
            c["list"] = "?" not in kinds
            if c["list"] and not c["self"]:
                f += "    va_start(ap, p%d);\n    vp_list(%d, \"%s\", ap);\n    va_end(ap);\n" % (nf - 1, n, kinds)
        if rt != "void":
            k = rng.random()
            f += "    memcpy(&r, dr%d, sizeof r);\n" % n
            if k < .3:
                fns += "static %s gr%d;\n" % (rt, n)
                f += "    gr%d = r;\n    return gr%d;\n" % (n, n)
            elif k < .5:
                f += "    { %s *q = &r; return *q; }\n" % rt
            elif k < .6:
                f += "    return zero ? r : r;\n"
            else:
                f += "    return r;\n"
        fns += f + "}\n"
        if not c["self"]:
            main += "    vp_enter(%d, ig%d, is%d, it%d, %d, %d, %d); vp_invoke((void *)b%d); vp_leave(%d, %d); fflush(0);\n" % (
            min(8, r["used"]["sse"]) if c["nfix"] >= 0 else 90, n, n, n, len(r["st"]), int(r["retmem"]), int(r["x87"]), n, n, mem if mem > 0 else 0)
    return PRE + top + fns + "int main(void)\n{\n" + main + "    return 0;\n}\n"


def masked(h, want, mask):
    try:
        b = bytes.fromhex(h)
    except (ValueError, TypeError):
        return False
    return len(b) >= len(want) and all((x ^ y) & m == 0 for x, y, m in zip(b, want, mask))


def wrong(c, got):
    r = c["res"]

    def eq(k, want, mask):
        if not masked(got.get(k), want, mask):
            return "%s is %s, expected %s (mask %s)" % (k, got.get(k), bytes(want).hex(), bytes(mask).hex())
    if c["self"]:
        for i, a in enumerate(c["args"]):
            for k in ["p%d" % i] + (["q%d" % i] if i in c.get("again", ()) else []):
                if w := eq(k, a["b"], r["masks"][i]):
                    return "argument: " + w
        return c["ret"]["b"] and eq("r", c["ret"]["b"], r["retm"]) or ("a value kept across the call was lost" if "live" in got else None)
    if got.get("calls") != "1":
        return "calls: %s" % got.get("calls")
    if got.get("entry") != "0 0":
        return "stack alignment and direction flag at the call: %s" % got.get("entry")
    if c["nfix"] >= 0 and not r["used"]["sse"] <= int(got.get("al", 0)) <= 8:
        return "al is %s with %d vector registers in use" % (got.get("al"), r["used"]["sse"])
    rb = c["ret"]["b"]
    w = eq("gp", r["gp"], r["gpm"]) or eq("sse", r["sse"], r["ssem"]) or eq("st", r["st"], r["stm"])
    if w:
        return "call made: " + w
    if rb and (w := eq("r", rb, r["retm"])):
        return "result received: " + w
    if "live" in got:
        return "a value kept across the call was lost: %s" % got["live"]
    for i, a in enumerate(c["args"]):
        for k in ["p%d" % i] + (["q%d" % i] if i in c.get("again", ()) else []) + (["l%d" % (i - c["nfix"])] if c.get("list") and c["nfix"] >= 0 and i >= c["nfix"] else []):
            if w := eq(k, a["b"][:10] if k[0] == "l" else a["b"], r["masks"][i][:10] if k[0] == "l" else r["masks"][i]):
                return "argument received: " + w
    if got.get("exit") != "1 1 0 1":
        return "callee-saved registers, stack pointer, direction flag, x87 stack after the call: %s" % got.get("exit")
    if r["retmem"]:
        if got.get("mem") != "1":
            return "the address of a result in memory was not returned"
        if w := eq("hid", rb + [0xab] * 8, r["retm"] + [255] * 8):
            return "result in memory: " + w
    elif r["x87"]:
        if w := eq("st0", rb[:10], [255] * 10):
            return "result: " + w
    elif w := eq("out", r["rv"], r["rvm"]):
        return "result (rax rdx xmm0 xmm1): " + w
    return None


# deviations that are findings of their own: a structure in one general and one vector register, and one with an eightbyte of padding only
PROBES = [("split-arg", [rec("long", "double")], S("long")), ("split-arg", [S("int"), rec("float", "int", "ptr")], S("int")), ("split-result", [], rec("double", "long")),
          ("padding", [dict(rec("long"), al=16), S("long")], S("int"))]


def check(ctx):
    t = ctx.thorough
    ctx.model("MCAbi", "CONSTANTS Most = %d\nRich = %s\n" % ((3, "TRUE") if t else (2, "TRUE")), ["Laws", "Complete"], extra_cfg="CHECK_DEADLOCK FALSE\n")
    cjit = ctx.build()
    rng = ctx.rng
    hd = ctx.dir()
    ctx.cc(hd + "/libvp.so", [vf.VERIF + "/harness/abiprobe.S", vf.VERIF + "/harness/abiprobe.c"], ["-shared", "-fPIC", "-O1"], san=False)
    g = Gen(rng)
    cases = [g.case() for _ in range(9000 if t else 1500)]
    # every single type and pair of types, as arguments and as result
    for a in ALPHA:
        cases.append(g.case([a], a))
        for b in ALPHA if t else rng.sample(ALPHA, 6):
            cases.append(g.case([a, b], b))
            cases.append(g.case([S("int")] * rng.randrange(7) + [S("double")] * rng.randrange(9) + [a, b], a))
    probes = [g.case(a, b) for _, a, b in PROBES]
    for c in probes:
        c["nfix"] = -1
    cases += probes
    res = ctx.eval("Abi", [dict(args=[dict(ty=c18.clean(a["ty"]), b=a["b"]) for a in c["args"]], ret=dict(ty=c["ret"]["ty"] if c["ret"]["ty"]["k"] == "v" else c18.clean(c["ret"]["ty"]), b=c["ret"]["b"])) for c in cases], op="Args")
    mixed = 0
    todo = []
    for c, r in zip(cases, res):
        c["res"] = r
        if r["retsize"] != len(c["ret"]["b"]) or r["sizes"] != [len(a["b"]) for a in c["args"]]:
            raise RuntimeError("sizes disagree: %r" % (c,))
        # known finding (see probes): these follow the ABI only among themselves
        c["self"] = r["split"] and c not in probes
        mixed += c["self"]
        if len(r["st"]) > 900:
            continue
        c["id"], c["seed"] = len(todo), rng.getrandbits(32)
        for k, v, m in (("ing", "gp", "gpm"), ("ins", "sse", "ssem"), ("int", "st", "stm")):
            # bits without a value are filled with noise
            c[k] = [(x & y) | (rng.getrandbits(8) & ~y & 255) for x, y in zip(r[v], r[m])]
        todo.append(c)
    cases = todo[:-len(probes)]
    ctx.log("%d prototypes (%d of them with structures split over both kinds of registers, called from cjit only)" % (len(cases), mixed))

    def run(cs):
        d = ctx.dir()
        src = program(cs)
        open(d + "/p.c", "w").write(src)
        r = ctx.run([cjit, "-q", "p.c", hd + "/libvp.so"], cwd=d)
        shutil.rmtree(d, ignore_errors=True)
        got = {}
        for l in r.out.decode("latin-1").split("\n"):
            p = l.split(" ", 2)
            if len(p) >= 2 and p[0].isdigit():
                got.setdefault(int(p[0]), {})[p[1]] = p[2] if len(p) > 2 else ""
        return r, got, src

    def go(cs):
        r, got, src = run(cs)
        bad = [c for c in cs if wrong(c, got.get(c["id"], {}))] or (cs if r.rc else [])
        hit = 0
        for c in bad:
            if hit >= 2:
                break
            r1, g1, s1 = run([c])
            w = wrong(c, g1.get(c["id"], {})) or (r1.rc and "status %d" % r1.rc)
            if w:
                hit += 1
                ctx.violation("abi", "%s\n  %s (status %d %s)" % (s1[len(PRE):][:2500], w, r1.rc, r1.err.decode("latin-1")[:300]), dict(source=s1, wrong=w))
        if bad and not hit:
            w = wrong(bad[0], got.get(bad[0]["id"], {}))
            ctx.violation("abi", "right alone, wrong in a larger program: case %d %s (status %d %s)" % (bad[0]["id"], w, r.rc, r.err.decode("latin-1")[:300]), dict(source=src, wrong=w))
        ctx.traces(len(cs))
    for (key, a, b), c in zip(PROBES, todo[-len(probes):]):
        r1, g1, s1 = run([c])
        w = wrong(c, g1.get(c["id"], {})) or (r1.rc and "status %d" % r1.rc)
        if w:
            ctx.violation(key, "%s\n  %s" % (s1[len(PRE):][:1500], w), dict(source=s1, wrong=w))
    ctx.pmap(go, [cases[i:i + 12] for i in range(0, len(cases), 12)])
    ctx.count("prototypes", len(cases))
    ctx.count("arguments", sum(len(c["args"]) for c in cases))
    ctx.sample(dict(source=program(cases[:1])[len(PRE):]))
