"""C14: the list container behaves as a sequence (spec/List.tla)."""
import json
import vf

TECHNIQUE = "TLA+ spec of the abstract sequence, TLC-generated and random histories on the real container, recorded traces validated by TLC"
LEVEL = "model_checking"
NOTE = ("Every history of 4 (5) operations over small lists, enumerated by TLC, and random histories of up to 120 operations run on the real "
        "container under ASan/UBSan; TLC decides for every recorded step (result, full contents, cleared items, capacity) whether the sequence allows it.")

KEYS = [0, 1, 2, 3, 5, 7, 100, 0x3fffffff, 0x40000000, 0x7ffffffe, 0x7fffffff]


def rand_history(rng, long):
    fixed = rng.random() < .35
    cap = rng.choice([1, 2, 3, 4, 5, 7, 8, 16, 33, 64]) if fixed else rng.choice([0, 1, 1, 2, 3, 4, 5, 8, 8, 13, 16, 32, 64, 100])
    c = dict(cap=cap, fixed=int(fixed), cb=rng.randint(0, 1), own=rng.randint(0, 1))
    n, ops = 0, []
    keys = rng.choice([KEYS, [1, 2], list(range(20)), [4]])
    grow = rng.random()
    ident = 0
    for _ in range(rng.randint(1, 120 if long else 40)):
        if rng.random() < .04:
            grow = rng.random()
        ident = ident % 250 + 1
        size = rng.choice([0, 0, 1, 1, 2, 3, 4, 17, 1000]) if rng.random() < .3 else rng.randint(1, 6)
        key = rng.choice(keys)
        r = rng.random()
        idx = rng.randrange(n) if n else 0
        bad = rng.choice([n, n + 1, n + 37, 100000])
        if r < .1 + .45 * grow:
            op = rng.choice(["addk", "addk", "addk", "item", "add", "push"])
            a = [ident, size] + ([key] if op in ("addk", "item") else [])
            if not (fixed and n >= cap):
                n += 1
        elif r < .2 + .5 * grow and n:
            op = rng.choice(["ins", "insk", "insk"])
            a = [rng.choice([0, n - 1, idx]), ident, size] + ([key] if op == "insk" else [])
            if not (fixed and n >= cap):
                n += 1
        elif r < .28 + .5 * grow and n:
            op = rng.choice(["set", "setk", "setk"])
            a = [idx, ident, size] + ([key] if op == "setk" else [])
        elif r < .36 + .5 * grow:
            op, a = "find", [rng.choice([0, 1, 2, 3, 3]), rng.choice(keys + [key ^ 1, 6])]
        elif r < .41 + .5 * grow:
            op, a = "sort", [rng.randrange(8)]
            if rng.random() < .5:
                ops.append(dict(op=op, a=[rng.choice([0, 2, 4])]))
                for _ in range(3):
                    ops.append(dict(op="find", a=[rng.choice([1, 3, 3, 3]), rng.choice(keys + [key ^ 1])]))
                continue
        elif r < .46 + .5 * grow:
            op, a = "swap", [idx, rng.randrange(n) if n and rng.random() < .9 else bad]
        elif r < .47 + .48 * grow:
            op, a, n = "clear", [], 0
        else:
            op = rng.choice(["rem", "rem", "del"])
            i = rng.choice([0, n - 1, idx, idx]) if n and rng.random() < .93 else bad
            a = [i]
            if i < n:
                n -= 1
        ops.append(dict(op=op, a=a))
    ops.append(dict(op="end", a=[]))
    return dict(c=c, ops=ops)


def check(ctx):
    depth = 5 if ctx.thorough else 4
    cases, r = ctx.behaviours("MCList", "SPECIFICATION Spec\nCONSTANT DEPTH = %d\nCONSTANT CAPS = {0, 1, 2, 3}\nINVARIANT Bounded\nINVARIANT NoTwins\nPROPERTY Agrees\nCHECK_DEADLOCK FALSE\n" % depth)
    ctx.count("histories_enumerated", len(cases))
    for c in cases:
        c["c"]["own"] = len(cases) % 2
        c["ops"] = c["ops"] + [dict(op="end", a=[])]
    cases += [rand_history(ctx.rng, True) for _ in range(20000 if ctx.thorough else 2500)]
    drv = ctx.cc(ctx.scratch + "/arraydrv", [vf.VERIF + "/harness/arraydrv.c", ctx.tree() + "/src/array.c"])

    def text(c):
        # keys travel doubled, so that they fill 32 bits while the model's integers stay in range
        t = "new %d %d %d %d\n" % (c["c"]["cap"], c["c"]["fixed"], c["c"]["cb"], c["c"]["own"])
        for o in c["ops"]:
            a = list(o["a"])
            if o["op"] in ("addk", "item") or o["op"] == "find":
                a[-1] = a[-1] * 2
            if o["op"] in ("setk", "insk"):
                a[3] = a[3] * 2
            t += o["op"] + "".join(" %d" % x for x in a) + "\n"
        return t

    chunks = [list(range(i, min(i + 200, len(cases)))) for i in range(0, len(cases), 200)]
    recs = [None] * len(cases)

    def runc(ix):
        r = ctx.run([drv], stdin="".join(text(cases[i]) for i in ix).encode(), timeout=60)
        ls = r.out.decode("latin-1").split("\n")
        for i, l in zip(ix, ls):
            try:
                recs[i] = json.loads(l)[1:]
            except ValueError:
                break
        if r.rc != 0 or any(recs[i] is None for i in ix):
            if len(ix) > 1:
                for i in ix:
                    if recs[i] is None:
                        runc([i])
                        if len([k for k in ix if recs[k] is None]) > 3 and len(ctx.violations) > 3:
                            return
            else:
                ctx.violation("crash", "the container fails (rc %d) on the history\n%s%s" % (r.rc, text(cases[ix[0]]), r.err.decode("latin-1")[-1500:]), cases[ix[0]])

    ctx.pmap(runc, chunks)
    done = [i for i in range(len(cases)) if recs[i] is not None]
    bad = ctx.eval("List", [dict(c=cases[i]["c"], ops=cases[i]["ops"], steps=recs[i]) for i in done], "Verdict")
    for i, b in zip(done, bad):
        if len(recs[i]) != len(cases[i]["ops"]):
            b = b or len(recs[i])
        if b:
            st = recs[i]
            ctx.violation("step", "step %d (%s) is not what a sequence does\n%s\nbefore %s\nafter %s" % (
                b, cases[i]["ops"][b - 1], cases[i]["c"], st[b - 2]["l"] if b > 1 else [], st[b - 1]), dict(case=cases[i], steps=st[:b], text=text(cases[i])))
    ctx.traces(len(done))
    ctx.count("operations", sum(len(cases[i]["ops"]) for i in done))
    ctx.sample(dict(history=cases[-1], recorded=recs[-1]))
