"""C15: path arithmetic agrees with the path algebra (spec/Path.tla)."""
import itertools
import vf

TECHNIQUE = "TLA+ path algebra with its laws model checked by TLC, TLC-computed results compared with the real functions"
LEVEL = "model_checking"
NOTE = ("The laws are checked for all pairs of short paths; every path of up to 7 (9) characters over { / . x } and all pairs of up to 4 characters, plus random long "
        "ones, go through all functions with every buffer size from 0 to beyond the result, in place where documented, under ASan/UBSan.")


def chars(s):
    return list(s)


def check(ctx):
    ctx.model("MCPath", "CONSTANT LA = %d\nCONSTANT LB = %d\n" % ((7, 6) if ctx.thorough else (5, 5)),
              ["Idempotent", "NormalClean", "BelowRoot", "Parts", "RoundTrip", "JoinNormal", "Common", "ChangedBase"], extra_cfg="CHECK_DEADLOCK FALSE\n")
    rng = ctx.rng
    al = "/.x"
    un = ["".join(t) for n in range((9 if ctx.thorough else 7) + 1) for t in itertools.product(al, repeat=n)]
    words = ["a", "b", "ab", ".", "..", ".", "..", "...", ".a", "a.b", "a.", "..a", "a..b", "dir", "file.c", "x.tar.gz", " ", "é", "-", "a b"]

    def rnd():
        k = rng.choice([1, 2, 3, 5, 8, 14])
        return rng.choice(["", "", "/", "//"]) + rng.choice(["/", "/", "/", "//", "///"]).join(rng.choice(words) for _ in range(k)) + rng.choice(["", "", "", "/", "//"])

    un += [rnd() for _ in range(4000 if ctx.thorough else 1200)]
    un += ["/" + "/".join("d%d" % i for i in range(60)) + "/.." * 58, "a" * 300 + "/" + "b." * 100, "../" * 50 + "x"]
    small = ["".join(t) for n in range(5 if ctx.thorough else 4) for t in itertools.product(al, repeat=n)]
    bi = list(itertools.product(small, small))
    small4 = ["".join(t) for n in range(7) for t in itertools.product(al, repeat=n)]
    for _ in range(20000 if ctx.thorough else 4000):
        r = rng.random()
        if r < .4:
            a, b = rng.choice(small4), rng.choice(small4)
        elif r < .6:
            a, b = rnd(), rnd()
        elif r < .8:     # with a common beginning
            p = rnd()
            a, b = p + "/" + rnd(), p + "/" + rnd()
        elif r < .9:
            p = rnd()
            a, b = p, p + rng.choice(["", "/", "/x", "x", "/..", "/../y"])
        else:
            a, b = rnd(), rng.choice(["c", ".c", "", "..", "tar.gz", "/x", "x/", "//x.y//", "."])
        bi.append((a, b))
    exu = ctx.eval("Path", [chars(p) for p in un], "Unary")
    exb = ctx.eval("Path", [dict(a=chars(a), b=chars(b)) for a, b in bi], "Binary")
    S = lambda x: "".join(x)
    drv = ctx.cc(ctx.scratch + "/pathdrv", [vf.VERIF + "/harness/pathdrv.c", ctx.tree() + "/src/cwalk.c"])
    jobs = [("U" + p, e) for p, e in zip(un, exu)] + [("B" + a + "\t" + b, e) for (a, b), e in zip(bi, exb)]

    def call_ok(f, want):
        """fields of a call line against the full result"""
        # lengths are bytes, and so are buffer sizes
        w = S(want).encode() if not isinstance(want, bytes) else want
        bad = []
        if f[1] != str(len(w)).encode() or f[2] != w:
            return ["result %r (length %s), expected %r" % (f[2], f[1].decode(), w)]
        for n, x in enumerate(f[3:3 + len(w) + 3]):
            t = w[:max(n - 1, 0)]
            if x != b"%d:%s" % (len(w), t):
                bad.append("with a buffer of %d: %r, expected %r" % (n, x, b"%d:%s" % (len(w), t)))
        for x in f[3 + len(w) + 3:]:
            if x != b"in%d:%s" % (len(w), w):
                bad.append("in place: %r, expected %r" % (x, w))
        return bad

    def judge(job, lines):
        e = job[1]
        bad = []
        if job[0][0] == "U":
            p = job[0][1:]
            off = lambda i: len(p[:i].encode()) if i >= 0 else i     # the model counts characters, the code bytes
            span = lambda b, n: (off(b), len(p[b:b + n].encode()) if b >= 0 else 0)
            got = {l.split(b"\t")[0]: l.split(b"\t")[1:] for l in lines}
            want = {b"root": [e["root"], int(e["root"] == 1), int(e["root"] == 0)], b"dir": [off(e["dir"])],
                    b"base": list(span(*e["base"])), b"ext": list(span(*e["ext"])) + [int(e["ext"][0] >= 0)]}
            for k, v in want.items():
                if got.get(k) != [str(x).encode() for x in v]:
                    bad.append("%s: %s, expected %s" % (k.decode(), got.get(k), v))
            segs = [("%d,%d,%d" % (span(b, n) + (k,))).encode() for b, n, k in e["segs"]]
            if got.get(b"fwd") != segs:
                bad.append("segments %s, expected %s" % (got.get(b"fwd"), segs))
            if got.get(b"bwd") != segs[::-1]:
                bad.append("segments backwards %s, expected %s" % (got.get(b"bwd"), segs[::-1]))
            bad += ["normalize " + x for x in call_ok([b"norm"] + got.get(b"norm", [b"", b""]), e["norm"])]
        else:
            a = job[0][1:].split("\t")[0]
            k = 0
            seen = set()
            for l in lines:
                f = l.split(b"\t")
                nm = f[0].decode()
                seen.add(nm)
                if nm == "inter":
                    if int(f[1]) != len(a[:e["inter"]].encode()):
                        bad.append("intersection %s, expected %d" % (f[1].decode(), len(a[:e["inter"]].encode())))
                elif nm == "cseg":
                    k += 1
                    bad += ["change_segment %d " % k + x for x in call_ok(f, e["cseg"][k - 1])] if k <= len(e["cseg"]) else ["a segment too many"]
                elif nm == "rel" and not e["hasrel"]:
                    bad += ["relative " + x for x in call_ok(f, f[2])]
                else:
                    bad += [nm + " " + x for x in call_ok(f, e[nm])]
            if k != len(e["cseg"]) or len(seen) < 8:
                bad.append("results are missing: %s" % sorted(seen))
        return bad

    def run(ix):
        r = ctx.run([drv], stdin="".join(jobs[i][0] + "\n" for i in ix).encode(), timeout=120)
        parts = r.out.split(b"end\n")
        done = parts[:-1]
        for i, t in zip(ix, done):
            bad = judge(jobs[i], t.split(b"\n")[:-1])
            if bad:
                ctx.violation("path", "%r\n  %s" % (jobs[i][0], "\n  ".join(bad[:6])), dict(input=jobs[i][0], expected=jobs[i][1]))
        if len(done) < len(ix):
            i = ix[len(done)]
            ctx.violation("crash", "%r makes the functions fail (rc %d): %s" % (jobs[i][0], r.rc, r.err.decode("latin-1")[-1200:]), dict(input=jobs[i][0]))
            if len(ctx.violations) < 10:
                run(ix[len(done) + 1:])

    ctx.pmap(run, [list(range(i, min(i + 400, len(jobs)))) for i in range(0, len(jobs), 400)])
    ctx.traces(len(jobs))
    ctx.count("paths", len(un))
    ctx.count("pairs", len(bi))
    ctx.sample(dict(pair=bi[-1], expected={k: S(v) if k in ("join", "abs", "rel", "croot", "cbase", "cext") else v for k, v in exb[-1].items()}))
