"""C13: archives made by cjit -ar (spec/Ar.tla)."""
import os, shutil, struct, resource, signal

TECHNIQUE = "TLA+ spec of the archive layout, index and extraction, TLC-computed outcomes compared with archives made by cjit"
LEVEL = "model_checking"
NOTE = ("Objects of gcc and cjit with random definitions (including index growth at 249..501 names, odd sizes, one-letter to 15-letter names, empty and duplicate ones) are "
        "archived; the bytes, index, listing and extraction are compared with TLC's result, the archive is linked with cjit and GNU ld; inputs and writes are made to fail.")

KINDS = ["func", "data", "weakf", "weakd", "common", "bss", "static", "undef", "tls", "const"]


def csrc(syms):
    t = ""
    for n, k, v in syms:
        t += {"func": "int %s(void){return %d;}", "weakf": "__attribute__((weak)) int %s(void){return %d;}", "data": "int %s = %d;", "weakd": "__attribute__((weak)) int %s = %d;",
              "common": "int %s; /*%d*/", "bss": "int %s = 0*%d;", "static": "static int %s = %d;", "tls": "__thread int %s = %d;", "const": "const int %s = %d;",
              "undef": "extern int %s; /*%d*/"}[k] % (n, v) + "\n"
        if k == "static":
            t += "static int *const p_%s __attribute__((used)) = &%s;\n" % (n, n)
        if k == "undef":
            t += "static int *u_%s __attribute__((used)) = &%s;\n" % (n, n)
    return t


def parse(b):
    """the archive as a reader following the format sees it"""
    if b[:8] != b"!<arch>\n":
        raise ValueError("magic")
    p, members, index = 8, [], None
    while p < len(b):
        h = b[p:p + 60]
        if len(h) < 60 or h[58:60] != b"`\n":
            raise ValueError("header at %d: %r" % (p, h))
        n = int(h[48:58])
        data = b[p + 60:p + 60 + n]
        if len(data) != n:
            raise ValueError("member at %d is cut" % p)
        name = h[:16].rstrip()
        if name == b"/":
            if p != 8:
                raise ValueError("index at %d" % p)
            k = struct.unpack(">I", data[:4])[0]
            offs = struct.unpack(">%dI" % k, data[4:4 + 4 * k])
            names = data[4 + 4 * k:].split(b"\0")[:k]
            if len(names) != k:
                raise ValueError("index of %d names holds %d" % (k, len(names)))
            index = list(zip([x.decode() for x in names], offs))
        else:
            if not name.endswith(b"/"):
                raise ValueError("name %r" % name)
            members.append((name[:-1].decode(), p, data))
        p += 60 + n + (n & 1)
    if p != len(b):
        raise ValueError("last member not padded")
    return members, index


def check(ctx):
    ctx.model("MCAr", "CONSTANT MAX = %d\n" % (4 if ctx.thorough else 3), ["Aligned", "Room", "Behind", "OneEach", "Index"], extra_cfg="CHECK_DEADLOCK FALSE\n")
    cjit = ctx.build()
    rng = ctx.rng
    AL = "abcdefghijklmnopqrstuvwxyz_ABCXYZ"
    cases = []

    def oname(k):
        n = rng.choice([1, 2, 5, 12, 13, 13, 14, 15, 15, k % 15 + 1])
        if n <= 2:
            return "".join(rng.choice("abcxyz") for _ in range(n))
        return "".join(rng.choice("abcdefgh_-+0") for _ in range(n - 2)).replace("-", "q", 1) + ".o"

    def case(nobj, nsym, **kw):
        used, objs = set(), []
        n = 0
        for k in range(nobj):
            syms = []
            for _ in range(rng.randint(0, nsym) if kw.get("vary", True) else nsym):
                while True:
                    s = "".join(rng.choice(AL) for _ in range(rng.choice([2, 3, 4, 8, 20, 60])))
                    if s not in used and s not in ("do", "if", "asm", "int", "for"):
                        break
                n += 1
                used.add(s)
                syms.append((s, kw.get("kind") or rng.choice(KINDS[:9] if rng.random() < .2 else KINDS[:8] + ["const"]), n))
            objs.append(dict(name=oname(k), syms=syms, cc=rng.choice(["gcc", "cjit"]), pad=rng.choice([0, 0, 1, 1, 2, 3]), dir=rng.choice(["", "", "sub/", "./", "a.b/c/"])))
        # names of static and undefined symbols of one object may be definitions of another one
        alld = [s for o in objs for s in o["syms"] if s[1] in ("data", "bss", "common")]
        for o in objs:
            have = {s[0] for s in o["syms"]}
            o["syms"] = [((lambda d: (d[0], "undef", 0) if d[0] not in have else None)(rng.choice(alld)) if alld else None) if s[1] == "undef" else s for s in o["syms"]]
            o["syms"] = [s for s in o["syms"] if s]
            seen = set()
            o["syms"] = [s for s in o["syms"] if not (s[0] in seen or seen.add(s[0]))]
            if any(s[1] == "tls" for s in o["syms"]):
                o["cc"] = "gcc"
        if len(objs) > 1 and rng.random() < .15:
            objs[-1]["name"] = objs[0]["name"]
            objs[-1]["dir"], objs[0]["dir"] = "p1/", "p2/"
        seen = set()
        for i, o in enumerate(objs):
            if os.path.normpath(o["dir"] + o["name"]) in seen or o["name"].startswith("-") or (o["dir"], o["name"]) == ("", "m.c"):
                o["name"] = "%do.o" % i
                o["dir"] = "u%d/" % i
            seen.add(os.path.normpath(o["dir"] + o["name"]))
        c = dict(objs=objs, missing=None, fail=None, opts=rng.choice(["rcs", "crs", "-rcs", "cr", "r", "s", "rcsv", "c"]))
        c.update({k: v for k, v in kw.items() if k in ("missing", "fail", "opts", "lib")})
        cases.append(c)

    case(0, 0)
    for n in (1, 2, 3, 5, 9):
        case(n, 0, vary=False)
    for n in (248, 249, 250, 251, 252, 499, 500, 501, 750) if ctx.thorough else (249, 250, 251, 500):
        case(1, n, vary=False, kind="data")
        case(rng.randint(2, 4), n // 2, vary=False, kind="bss")
    for _ in range(1500 if ctx.thorough else 160):
        case(rng.randint(1, 6), rng.choice([0, 1, 2, 3, 6, 20]))
    for _ in range(200 if ctx.thorough else 30):
        case(rng.randint(1, 5), 3, missing=rng.randrange(5))
    for _ in range(200 if ctx.thorough else 40):
        case(rng.randint(1, 4), 3, fail=rng.choice([0, 1, 7, 8, 60, 100, 500, -1, -2, -300]))
    # offsets that use every byte of their big-endian form
    for pads in ([70001, 9000000, 17000001, 33000], [0x7fff, 0x10000, 0x80, 0x8000, 0x800000]) if ctx.thorough else ([70001, 9000000, 17000001, 33000],):
        case(len(pads), 1, vary=False, kind="func")
        for o, x in zip(cases[-1]["objs"], pads):
            o["pad"] = x
    case(2, 2, lib="d" * 100 + "/" + "e" * 120 + "/" + "n" * 50 + ".a")
    case(2, 2, lib="x" * 240 + ".a")

    def prepare(c):
        d = c["d"] = ctx.dir()
        ins = []
        for i, o in enumerate(c["objs"]):
            os.makedirs(d + "/" + o["dir"], exist_ok=True)
            src = d + "/src%d.c" % i
            open(src, "w").write(csrc(o["syms"]))
            out = d + "/" + o["dir"] + o["name"]
            if o["cc"] == "gcc":
                ctx.cc(out, ["-x", "c", "-c", src], flags=[rng.choice(["-fcommon", "-fno-common"]), "-fPIC"], san=False)
            else:
                r = ctx.run([cjit, "-q", "-c", "-o", out, src], cwd=d)
                if r.rc != 0 or not os.path.exists(out):
                    c["err"] = "cjit -c: %r" % r
                    return
            with open(out, "ab") as f:
                f.write(b"\0" * o["pad"])
            o["size"] = os.path.getsize(out)
            o["bytes"] = open(out, "rb").read()
            ins.append(out[len(d) + 1:])
        c["ins"] = ins
        c["files"] = [dict(name=o["name"], size=o["size"], ok=True, defs=[dict(name=s, len=len(s)) for s, k, v in o["syms"] if k not in ("static", "undef")]) for o in c["objs"]]
        if c["missing"] is not None:
            c["ins"].insert(min(c["missing"], len(ins)), "not-there.o")
            c["files"].insert(min(c["missing"], len(ins)), dict(name="", size=0, ok=False, defs=[]))

    ctx.pmap(prepare, cases)
    for c in cases:
        if "err" in c:
            ctx.violation("object", c["err"])
    cases = [c for c in cases if "err" not in c]
    exp = ctx.eval("Ar", [dict(ins=c["files"]) for c in cases], "Outcome")

    def ar(d, args, limit=None):
        def pre():
            if limit is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        return ctx.run([cjit, "-ar"] + args, cwd=d, preexec_fn=pre)

    def one(n):
        c, e = cases[n], exp[n]
        d = c["d"]
        bad = []
        lib = c.get("lib") or "lib.a"
        os.makedirs(os.path.dirname(d + "/" + lib) or d, exist_ok=True)
        before = set(os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs)
        limit = None
        if c["fail"] is not None and e["ok"]:
            limit = c["fail"] if c["fail"] >= 0 else max(e["total"] + c["fail"], 0)
            if limit >= e["total"]:
                limit = max(e["total"] - 1, 0)
        r = ar(d, [c["opts"], lib] + c["ins"], limit)
        new = set(os.path.join(x, f) for x, _, fs in os.walk(d) for f in fs) - before
        if not e["ok"] or limit is not None:
            why = "an input is missing" if not e["ok"] else "only %d of %d bytes can be written" % (limit, e["total"])
            if r.rc == 0:
                bad.append("%s, but the status is 0" % why)
            if new:
                bad.append("%s, but %s is left" % (why, sorted(os.path.basename(x) for x in new)))
            return bad, r
        if r.rc != 0:
            return ["creating fails"], r
        if new != {d + "/" + lib}:
            bad.append("files made: %s" % sorted(x[len(d):] for x in new))
        b = open(d + "/" + lib, "rb").read()
        if len(b) != e["total"]:
            bad.append("the archive has %d bytes, expected %d" % (len(b), e["total"]))
        try:
            members, index = parse(b)
        except (ValueError, struct.error) as x:
            return bad + ["the archive is not well formed: %s" % x], r
        if [m[0] for m in members] != e["listing"]:
            bad.append("members %s, expected %s" % ([m[0] for m in members], e["listing"]))
        elif [m[2] for m in members] != [o["bytes"] for o in c["objs"]]:
            bad.append("members differ from the objects")
        if members and [m[1] for m in members] != e["offsets"]:
            bad.append("members at %s, expected %s" % ([m[1] for m in members], e["offsets"]))
        want = sorted((s, e["offsets"][k - 1]) for s, k in e["has"])
        if members and sorted(index or []) != want:
            diff = set(index or []) ^ set(want)
            bad.append("index has %d names, expected %d; differs in %s" % (len(index or []), len(want), sorted(diff)[:5]))
        t = ar(d, ["t", lib])
        if t.rc != 0 or t.out.decode("latin-1").split("\n")[:-1] != e["listing"]:
            bad.append("listing: %r" % t)
        x = d + "/ex"
        os.makedirs(x)
        t = ar(x, [rnd_x(n), "../" + lib if len(lib) < 200 else d + "/" + lib])
        got = {f: open(x + "/" + f, "rb").read() for f in os.listdir(x)}
        if t.rc != 0 or got != {m["name"]: c["objs"][m["from"] - 1]["bytes"] for m in e["extracted"]}:
            bad.append("extraction gives %s: %r" % ({k: len(v) for k, v in got.items()}, t))
        if members:
            big = max(len(m[2]) for m in members)
            y = d + "/ey"
            os.makedirs(y)
            t = ar(y, ["x", d + "/" + lib], big - 1)
            if t.rc == 0:
                bad.append("extraction with a limit of %d bytes succeeds" % (big - 1))
            cut = 68 + (n * 37) % (len(b) - 68)
            if cut not in e["offsets"] and any(o + 60 <= cut < o + 60 + ob["size"] for o, ob in zip(e["offsets"], c["objs"])):
                open(d + "/cut.a", "wb").write(b[:cut])
                for op in ("t", "x"):
                    t = ar(y, [op, d + "/cut.a"])
                    if t.rc == 0:
                        bad.append("%s of the archive cut at %d succeeds" % (op, cut))
        # every definition is found when linking
        defs = [(s, k, v) for o in c["objs"] for s, k, v in o["syms"] if k not in ("static", "undef", "tls")]
        if any(k == "tls" for o in c["objs"] for s, k, v in o["syms"]):
            defs = []
        if defs and not bad:
            pick = defs if len(defs) < 400 else defs[::7]
            m = "extern int printf(const char*,...);\n"
            for s, k, v in pick:
                m += ("int %s(void);\n" if k in ("func", "weakf") else "extern %sint %%s;\n" % ("const " if k == "const" else "")) % s
            m += "int main(void){\n" + "".join(' printf("%%d\\n", %s%s);\n' % (s, "()" if k in ("func", "weakf") else "") for s, k, v in pick) + " return 0; }\n"
            open(d + "/m.c", "w").write(m)
            want = "".join("%d\n" % (0 if k in ("common", "bss") else v) for s, k, v in pick).encode()
            t = ctx.run([cjit, "-q", "m.c", lib], cwd=d)
            if t.rc != 0 or t.out != want:
                bad.append("linked with cjit: %r" % t)
            if n % 3 == 0:
                t = ctx.run(["gcc", "-w", "-no-pie", "-Wl,-z,noexecstack", "-o", "m.exe", "m.c", lib], cwd=d)
                t2 = ctx.run(["./m.exe"], cwd=d)
                if t2.rc != 0 or t2.out != want:
                    bad.append("linked with GNU ld: %r %r" % (t, t2))
        return bad, r

    def rnd_x(n):
        return ["x", "xv", "-x"][n % 3]

    def go(n):
        bad, r = one(n)
        if bad:
            c = cases[n]
            ctx.violation("ar", "; ".join(bad)[:1500] + "\ncjit -ar %s %s %s\n%r" % (c["opts"], c.get("lib", "lib.a"), c["ins"], r),
                          dict(objects=[(o["dir"] + o["name"], o["cc"], o["size"], o["syms"][:20]) for o in c["objs"]], opts=c["opts"], ins=c["ins"], fail=c["fail"]))
        shutil.rmtree(cases[n]["d"], ignore_errors=True)

    ctx.pmap(go, range(len(cases)))
    # what is not an archive
    d = ctx.dir()
    junk = [b"", b"!", b"!<arch>", b"!<arch>\r", b"x" * 8, b"x" * 500, b"!<arcH>\n" + b" " * 60, b"\x7fELF" + b"\0" * 200, b"!<thin>\n" + b"a" * 60, b"!<arch>\n" + b"a" * 60,
            b"!<arch>\n" + b"a.o/".ljust(48) + b"-5        `\n", b"!<arch>\n" + b"a.o/".ljust(48) + b"100       `\nshort"]
    for k, j in enumerate(junk):
        open(d + "/j", "wb").write(j)
        for op in ("t", "x"):
            r = ar(d, [op, "j"])
            if r.rc == 0 or r.rc < 0 or r.rc > 128:
                ctx.violation("junk", "%s of %r: %r" % (op, j[:80], r), dict(data=j[:80].hex()))
    for op in ("t", "x"):
        if ar(d, [op, "nothere.a"]).rc == 0:
            ctx.violation("junk", "%s of a missing archive succeeds" % op)
    if sorted(os.listdir(d)) != ["j"]:
        ctx.violation("junk", "files made from junk: %s" % os.listdir(d))
    ctx.traces(len(cases) + 2 * len(junk))
    ctx.sample(dict(case=dict(opts=cases[40]["opts"], ins=cases[40]["files"]), expected=exp[40]))
