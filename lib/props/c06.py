"""C06: tar.gz extraction is exact, contained, and fails loudly (spec/Tar.tla)."""
import os, gzip, zlib, shutil, struct, random, io, stat

TECHNIQUE = "TLA+ spec of the ustar reader, TLC model checking, replay of TLC-predicted extractions into cjit"
LEVEL = "model_checking"
NOTE = ("The block-level reader is model checked for all archives of up to 4 blocks cut anywhere; thousands of generated archives (all name lengths, sizes, member "
        "types, nested and damaged ones, every truncation class, escaping names, failing writes) are extracted by the real cjit and by muntar under ASan, as an "
        "unprivileged user in a scratch directory, and the resulting tree and status are compared with what TLC computes.")

HARNESS = r"""
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <string.h>
#include <muntar.h>
/* extract <archive> <destination>: prints the result */
int main(int c, char **v) {
  FILE *f = fopen(v[1], "rb"); fseek(f, 0, SEEK_END); long n = ftell(f); rewind(f);
  unsigned char *b = malloc(n ? n : 1);          /* exact size: overreads are seen */
  if (fread(b, 1, n, f) != n) return 97;
  int r = muntar_to_path(v[2], b, n);
  printf("R%d\n", r); free(b); return 0; }
"""
NOBODY = 65534


def field(s, n, full=False):
    assert len(s) <= n
    return s + b"\0" * (n - len(s))


def header(b):
    """512 bytes of a member header; b: dict(name, prefix, size, type, ...)"""
    h = field(b["rawname"], 100) + b"0000644\0" + b"0000000\0" + b"0000000\0" + b.get("sizefield", b"%011o\0" % max(b["size"], 0))
    h += b"00000000000\0" + b" " * 8 + b["typeflag"] + field(b.get("link", b""), 100)
    h += b.get("magicfield", b"ustar\0") + b"00" + field(b.get("uname", b"root"), 32) + field(b"root", 32) + b"0000000\0" * 2 + field(b["rawprefix"], 155) + b"\0" * 12
    assert len(h) == 512, len(h)
    s = sum(h)
    style = b.get("sumstyle", 0)
    txt = [b"%06o\0 ", b"%07o\0", b"%06o \0"][style] % s
    h = h[:148] + txt + h[156:]
    if not b["sum"]:
        k = b.get("flip", 5)
        h = h[:k] + bytes([h[k] ^ b.get("flipbit", 1)]) + h[k + 1:]
    return h


class Arch:
    """An archive as blocks, for TLC, and as bytes."""

    def __init__(self):
        self.blocks, self.bytes = [], b""

    def head(self, typ, size, prefix, name, typeflag=None, **kw):
        tf = typeflag if typeflag is not None else {"reg": b"0", "dir": b"5", "other": b"2"}[typ]
        b = dict(rawname=name, rawprefix=prefix, size=size, typeflag=tf, sum=kw.pop("sum", True), **kw)
        segs = (prefix.split(b"/") if prefix else []) + name.split(b"/")
        if not prefix:
            segs = name.split(b"/")
        self.blocks.append(dict(k="head", sum=b["sum"], magic="magicfield" not in kw, type=typ, size=size, name=[s.decode("latin-1") for s in segs]))
        self.bytes += header(b)

    def data(self, content, nested=None):
        n = (len(content) + 511) // 512
        padded = content + b"\0" * (n * 512 - len(content))
        if nested:   # the content is itself an archive (of whole blocks)
            self.blocks += nested.blocks
        else:
            for i in range(n):
                z = padded[i * 512:(i + 1) * 512].count(0) == 512
                self.blocks.append(dict(k="zero" if z else "data", sum=False, magic=False, type="", size=0, name=[]))
        self.bytes += padded

    def zero(self, n=2):
        for _ in range(n):
            self.blocks.append(dict(k="zero", sum=False, magic=False, type="", size=0, name=[]))
        self.bytes += b"\0" * 512 * n

    def case(self, cut=None):
        n = len(self.bytes) if cut is None else cut
        return dict(blocks=self.blocks, whole=n // 512, tail=n % 512)


def content(rng, n):
    r = rng.random()
    if r < .3:
        return rng.randbytes(n)
    if r < .5:
        return b"\0" * n
    return (b"line %d of text\n" % rng.randrange(1000) * (n // 8 + 1))[:n]


SEGS = [b"a", b"b", b"file.txt", b"lib", b"x y", b"\xc3\xa9", b".hidden", b"...", b"..a", b"b..", b"-n", b"%s%n", b"'q'", b"~"]


def valid(rng, big=False):
    """A well-formed archive; returns Arch."""
    a = Arch()
    dirs, used = [()], set()
    for _ in range(rng.choice([1, 2, 3, 5, 8])):
        d = rng.choice(dirs)
        seg = rng.choice(SEGS) if rng.random() < .75 else bytes(rng.choice(b"abcdefghijk_0123") for _ in range(rng.choice([5, 30, 62, 99, 100])))
        if rng.random() < .3:
            seg += b"%d" % rng.randrange(100)
        path = d + (seg,)
        full = b"/".join(path)
        isdir = rng.random() < .4
        if rng.random() < .1:
            full = b"./" + full
        elif rng.random() < .05:
            full = b"/" + full
        if isdir and rng.random() < .6 and len(full) < 100:
            full += b"/"
        key = path
        if key in used and (key in dirs) != isdir:
            continue
        # split in prefix and name
        prefix, name = b"", full
        cuts = [i for i in range(1, len(full) - 1) if full[i:i + 1] == b"/" and i <= 155 and len(full) - i - 1 <= 100 and full[:i] != b"."]
        if len(full) > 100 or (cuts and rng.random() < .4):
            if not cuts:
                continue
            i = rng.choice(cuts)
            prefix, name = full[:i], full[i + 1:]
        if not name or len(name) > 100:
            continue
        if isdir and len(path) < 6:
            if rng.random() < .1:
                a.head("other", 0, b"", b"skipped", typeflag=rng.choice([b"1", b"2", b"3", b"4", b"6"]), link=rng.choice([b"/etc/passwd", b"a", b"../x"]))
            a.head("dir", 0, prefix, name)
            dirs.append(path)
            used.add(key)
        elif not isdir:
            n = rng.choice([0, 1, 511, 512, 513, 1024, 1535, 1536, 4096, rng.randrange(3000)] + ([100000, 300001] if big else []))
            c = content(rng, n)
            kw = dict(sumstyle=rng.randrange(3))
            if rng.random() < .1:
                kw["sizefield"] = b"%011o " % n
            if rng.random() < .1:
                kw["sizefield"] = b"%07o \0\0\0\0" % n
            a.head("reg", n, prefix, name, typeflag=rng.choice([b"0", b"0", b"0", b"\0"]), **kw)
            a.data(c)
            used.add(key)
        if rng.random() < .06:   # extension headers carry data that is not a member
            c = b"30 mtime=1.0 comment=%d\n" % rng.randrange(100)
            a.head("other", len(c), b"", b"PaxHeaders/x", typeflag=rng.choice([b"x", b"g"]))
            a.data(c)
    if not a.blocks:
        a.head("reg", 3, b"", b"f")
        a.data(b"abc")
    return a


def check(ctx):
    ctx.model("MCTar", "CONSTANT N = %d\n" % (5 if ctx.thorough else 4), ["Inside", "Complete", "Contained"], ["Ends"] if ctx.thorough else [], extra_cfg="CHECK_DEADLOCK FALSE\n")
    cjit = ctx.build()
    base = ctx.dir("base")
    open(base + "/h.c", "w").write(HARNESS)
    t = ctx.tree()
    ctx.cc(base + "/h", [base + "/h.c", t + "/src/muntar.c", t + "/src/tinfgzip.c", t + "/src/tinflate.c"])
    os.chmod(base, 0o755)
    shutil.copy(cjit, base + "/cjit")
    rng = ctx.rng
    cases = []

    def add(a, cut=None, gz=None, env="", via=None):
        cases.append(dict(arch=a, cut=cut, gz=gz, env=env, via=via or rng.choice(["cli", "lib"])))

    def end(a, n=2):
        a.zero(n)
        return a

    # every name length
    for n in list(range(1, 101)):
        a = Arch()
        a.head("reg", n, b"", b"n" * n)
        a.data(b"c" * n)
        add(end(a))
    for n in list(range(1, 156)):
        a = Arch()
        p = b""
        segs = []
        left = n
        while left > 0:      # prefix of n characters made of directories
            k = min(left, rng.choice([1, 7, 30, 60]))
            if left - k == 1:
                k = left
            segs.append(b"p" * k)
            left -= k + 1
        for i in range(len(segs)):
            d = b"/".join(segs[:i + 1])
            if len(d) <= 100:
                a.head("dir", 0, b"", d)
            else:
                a.head("dir", 0, b"/".join(segs[:i]), segs[i])
        pre = b"/".join(segs)
        a.head("reg", 4, pre, b"n" * rng.choice([1, 50, 99, 100]))
        a.data(b"data")
        add(end(a))
    # sizes around block limits
    for n in list(range(0, 20)) + list(range(500, 530)) + list(range(1020, 1030)) + [4095, 4096, 65535, 65536, 100000] + ([2000000] if ctx.thorough else []):
        a = Arch()
        a.head("reg", n, b"", b"f%d" % n)
        a.data(content(rng, n))
        a.head("reg", 1, b"", b"after")
        a.data(b"x")
        add(end(a, rng.choice([1, 2, 18])))
    for _ in range(3000 if ctx.thorough else 700):
        add(end(valid(rng, True), rng.choice([1, 2, 2, 2, 20])))
    # a file that holds an archive; damaged sizes land in it
    for _ in range(60):
        inner = end(valid(rng))
        a = Arch()
        a.head("reg", len(inner.bytes), b"", b"inner.tar")
        a.data(inner.bytes, nested=inner)
        a.head("reg", 2, b"", b"g")
        a.data(b"ok")
        add(end(a))
        b = Arch()
        b.head("reg", rng.choice([0, 1, 512, 513, len(inner.bytes) + 512]), b"", b"inner.tar")
        b.data(inner.bytes, nested=inner)
        b.head("reg", 2, b"", b"g")
        b.data(b"ok")
        add(end(b))
    # truncation: at every block boundary and inside, of several archives
    for _ in range(60 if ctx.thorough else 14):
        a = end(valid(rng), 2)
        cuts = set(range(0, len(a.bytes), 512)) | {rng.randrange(len(a.bytes)) for _ in range(12)}
        for c in cuts:
            add(a, cut=c)
    # damaged headers
    for _ in range(1500 if ctx.thorough else 400):
        a = Arch()
        good = rng.randint(0, 2)
        for i in range(good):
            a.head("reg", 600 * i, b"", b"good%d" % i)
            a.data(content(rng, 600 * i))
        r = rng.random()
        n = rng.choice([0, 5, 512, 700])
        if r < .3:
            a.head("reg", n, b"", b"bad", sum=False, flip=rng.choice([0, 1, 99, 105, 125, 135, 156, 257, 262, 300, 345, 499, rng.randrange(0, 148), rng.randrange(157, 500)]),
                   flipbit=1 << rng.randrange(7))
        elif r < .45:
            a.head("reg", n, b"", b"bad", magicfield=rng.choice([b"ustaX\0", b"Ustar\0", b"\0\0\0\0\0\0", b"ustar!", b"ust\0r\0"]))
        elif r < .75:
            a.head(*rng.choice([("reg", -1), ("reg", -1), ("other", -1)]), b"", b"bad",
                   sizefield=rng.choice([b"zzzzzzzzzzz\0", b"0000000000/\0", b"-0000000100\0", b"0000000/000\0", b"00000000.00\0", b"0000000:000\0", b"\xff" * 11 + b"\0",
                                         b"0000000x001\0", b"0000000-000\0", b"77777777777\0"]))
        elif r < .85:
            a.head("reg", 77777 + n, b"", b"bad")
        else:
            a.data(rng.randbytes(512) if rng.random() < .7 else b"ustar" * 102 + b"xx")
        a.data(b"d" * n)
        a.head("reg", 1, b"", b"after")
        a.data(b"x")
        add(end(a))
    # names that lead outside; scratch layout keeps every escape inside the scratch directory
    ups = [b"..", b"../x", b"../../x", b"a/../../x", b"./../x", b"a/../../../x", b"../dest2/x", b"/../x", b"//../x", b"a/..", b"../", b"a/./../../y", b"../dest/z"]
    for u in ups:
        for tf, typ in ((b"0", "reg"), (b"5", "dir")):
            for split in (False, True):
                for first in (True, False):
                    a = Arch()
                    if first:
                        a.head("dir", 0, b"", b"a")
                    pre, nm = b"", u
                    if split and b"/" in u[1:-1]:
                        i = u.rindex(b"/", 1, len(u) - 1)
                        pre, nm = u[:i], u[i + 1:]
                    a.head(typ, 3 if typ == "reg" else 0, pre, nm, typeflag=tf)
                    if typ == "reg":
                        a.data(b"out")
                    a.head("reg", 1, b"", b"after")
                    a.data(b"x")
                    add(end(a))
    # absolute names and links: nothing outside, and a link is not followed
    for nm in (b"@OUT@/x", b"@OUT@"):
        for tf in (b"0", b"5"):
            a = Arch()
            a.abs = (nm, tf)
            cases.append(dict(arch=a, cut=None, gz=None, env="abs", via="lib"))
            cases.append(dict(arch=a, cut=None, gz=None, env="abs", via="cli"))
    for tf in (b"1", b"2"):
        for target in (b"../outside", b".."):
            a = Arch()
            a.head("other", 0, b"", b"ln", typeflag=tf, link=target)
            a.head("reg", 3, b"", b"ln/escaped")
            a.data(b"out")
            add(end(a), env="link")
    # writes that fail
    for n in (600, 5000, 100000):
        a = Arch()
        a.head("reg", 10, b"", b"small")
        a.data(b"0123456789")
        a.head("reg", n, b"", b"big")
        a.data(content(rng, n))
        for via in ("cli", "lib"):
            for pos in (0, 1):
                if pos:
                    a2 = Arch()
                    a2.head("reg", n, b"", b"big")
                    a2.data(content(rng, n))
                    a2.head("reg", 10, b"", b"small")
                    a2.data(b"0123456789")
                    add(end(a2), env="full", via=via)
                else:
                    b2 = Arch()
                    b2.blocks, b2.bytes = list(a.blocks), a.bytes
                    add(end(b2), env="full", via=via)
    for typ in ("reg", "dir"):
        for env in ("rofs", "dirinway", "fileinway"):
            if (typ, env) in (("dir", "dirinway"),):
                continue
            for via in ("cli", "lib"):
                a = Arch()
                a.head(typ, 5 if typ == "reg" else 0, b"", b"thing")
                if typ == "reg":
                    a.data(b"hello")
                if env == "fileinway":
                    if typ == "reg":
                        continue
                add(end(a), env=env, via=via)
    # gzip level damage
    for _ in range(20 if ctx.thorough else 5):
        a = end(valid(rng))
        z = gzip.compress(a.bytes, rng.choice([1, 6, 9]), mtime=0)
        cuts = set(rng.randrange(len(z)) for _ in range(25)) | set(range(0, min(20, len(z)))) | {len(z) - i for i in range(1, 13)}
        for c in cuts:
            cases.append(dict(arch=a, cut=None, gz=z[:c], env="badgz", via="cli"))
        for _ in range(40):
            k = rng.choice([0, 1, 2, 3] + list(range(10, len(z))))
            y = z[:k] + bytes([z[k] ^ (1 << rng.randrange(8))]) + z[k + 1:]
            try:
                if zlib.decompress(y, 31) == a.bytes:
                    continue
            except zlib.error:
                pass
            if k == 3:
                continue
            cases.append(dict(arch=a, cut=None, gz=y, env="badgz", via="cli"))
    # gzip of other makers: name, comment, extra field, several flush blocks
    for _ in range(20):
        a = end(valid(rng))
        co = zlib.compressobj(rng.choice([0, 1, 9]), zlib.DEFLATED, -15)
        body = b"".join(co.compress(a.bytes[i:i + 700]) + co.flush(rng.choice([zlib.Z_NO_FLUSH, zlib.Z_FULL_FLUSH, zlib.Z_SYNC_FLUSH])) for i in range(0, len(a.bytes), 700)) + co.flush()
        z = b"\x1f\x8b\x08\x08" + b"\0" * 6 + b"some.tar\0" + body + struct.pack("<II", zlib.crc32(a.bytes), len(a.bytes))
        cases.append(dict(arch=a, cut=None, gz=z, env="", via="cli"))

    for c in cases:
        if hasattr(c["arch"], "abs") and not c["arch"].blocks:
            # resolved when run, the name is a plain one to the reader
            nm, tf = c["arch"].abs
            out = (os.path.realpath(ctx.scratch) + "/o").encode()
            os.makedirs(out.decode(), exist_ok=True)
            os.chmod(out.decode(), 0o777)
            name = nm.replace(b"@OUT@", out)
            typ = "reg" if tf == b"0" else "dir"
            c["arch"].head(typ, 3 if typ == "reg" else 0, b"", name, typeflag=tf)
            if typ == "reg":
                c["arch"].data(b"out")
            c["arch"].zero(2)
    exp = ctx.eval("Tar", [c["arch"].case(c["cut"]) for c in cases], "Outcome")

    def tree(d):
        ds, fs = set(), {}
        for root, dd, ff in os.walk(os.fsencode(d)):
            rel = os.path.relpath(root, os.fsencode(d))
            for x in dd + ff:
                p = os.path.join(root, x)
                key = x if rel == b"." else rel + b"/" + x
                if os.path.islink(p) or not (os.path.isdir(p) or os.path.isfile(p)):
                    fs[key] = "special"
                elif os.path.isdir(p):
                    ds.add(key)
                else:
                    fs[key] = open(p, "rb").read()
        return ds, fs

    def one(i):
        c, e = cases[i], exp[i]
        root = ctx.dir()
        try:
            w = root + "/l1/l2/l3"
            dest = w + "/dest"
            os.makedirs(dest)
            os.makedirs(w + "/outside")
            for p in (root, root + "/l1", root + "/l1/l2", w, dest, w + "/outside"):
                os.chown(p, NOBODY, NOBODY)
            raw = c["arch"].bytes if c["cut"] is None else c["arch"].bytes[:c["cut"]]
            env = c["env"]
            pre = set()
            if env == "rofs":
                os.chmod(dest, 0o555)
            elif env == "dirinway":
                os.mkdir(dest + "/thing")
                pre = {b"thing"}
            elif env == "fileinway":
                open(dest + "/thing", "w").write("old")
            if c["via"] == "cli":
                z = c["gz"] if c["gz"] is not None else gzip.compress(raw, 1, mtime=0)
                open(root + "/a.tgz", "wb").write(z)
                argv = [base + "/cjit", "--xtgz", root + "/a.tgz"]
            else:
                open(root + "/a.tar", "wb").write(raw)
                argv = [base + "/h", root + "/a.tar", dest]
            if env == "full":
                argv = ["bash", "-c", "ulimit -f 0; trap '' XFSZ; exec \"$@\"", "x"] + argv if c["via"] == "cli" else \
                       ["bash", "-c", "ulimit -f 0; trap '' XFSZ; exec \"$@\"", "x"] + argv
            os.chmod(root, 0o755)
            r = ctx.run(argv, cwd=dest, user=NOBODY, group=NOBODY, extra_groups=[], timeout=20)
            bad = []
            if r.timeout:
                bad.append("does not end")
            elif c["via"] == "lib":
                if not r.out.startswith(b"R"):
                    bad.append("the reader crashed: %r" % r)
                ok = r.out.strip() == b"R0"
            else:
                ok = r.rc == 0
                if r.rc < 0:
                    bad.append("killed by signal %d" % -r.rc)
            if not bad:
                if env in ("full", "rofs", "dirinway", "fileinway"):
                    if ok:
                        bad.append("a failing write (%s) is reported as success" % env)
                elif env == "badgz":
                    if ok:
                        bad.append("a damaged gzip file is reported as success")
                elif e["kind"] == "failure":
                    if ok:
                        bad.append("a truncated or corrupt archive is reported as success")
                elif e["kind"] == "notsuccess":
                    have = tree(dest)[1]
                    for f in e["files"]:
                        if ok and b"/".join(s.encode("latin-1") for s in f["path"]) not in have:
                            bad.append("a member that cannot be written is reported as success")
                elif e["kind"] == "tree":
                    if not ok:
                        bad.append("a well-formed archive is refused")
                    else:
                        ds, fs = tree(dest)
                        wd = set(b"/".join(s.encode("latin-1") for s in p) for p in e["dirs"])
                        if env == "abs":   # directories between were not members
                            wd = ds if not e["files"] else wd
                        wf = {}
                        for f in e["files"]:
                            at = (f["at"] - 1) * 512
                            wf[b"/".join(s.encode("latin-1") for s in f["path"])] = raw[at:at + f["size"]]
                        if ds != wd:
                            bad.append("directories %s, expected %s" % (sorted(ds)[:6], sorted(wd)[:6]))
                        if fs.keys() != wf.keys():
                            bad.append("files %s, expected %s" % (sorted(fs)[:6], sorted(wf)[:6]))
                        else:
                            for k in wf:
                                if fs[k] != wf[k]:
                                    bad.append("contents of %r differ (%d bytes, expected %d)" % (k, len(fs[k]), len(wf[k])))
                # nothing outside of the destination, ever
            os.chmod(dest, 0o755)
            got = set()
            for a, b, f in os.walk(root):
                if a.startswith(dest):
                    continue
                for x in b + f:
                    got.add(os.path.relpath(os.path.join(a, x), root))
            got -= {"a.tgz", "a.tar", "l1", "l1/l2", "l1/l2/l3", "l1/l2/l3/dest", "l1/l2/l3/outside"}
            if got:
                bad.append("created outside of the destination: %s" % sorted(got))
            if env == "abs" and os.listdir(ctx.scratch + "/o"):
                bad.append("created outside of the destination: %s" % os.listdir(ctx.scratch + "/o"))
                for x in os.listdir(ctx.scratch + "/o"):
                    p = os.path.join(ctx.scratch, "o", x)
                    shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
            return (bad, r) if bad else None
        finally:
            shutil.rmtree(root, ignore_errors=True)

    plain = [i for i, c in enumerate(cases) if c["env"] != "abs"]
    res = dict(zip(plain, ctx.pmap(one, plain)))
    for i, c in enumerate(cases):
        if c["env"] == "abs":
            res[i] = one(i)
    for i, c in enumerate(cases):
        x = res[i]
        if x and one(i):
            bad, r = x
            ctx.violation("extract", "; ".join(bad) + "\nvia %s %s cut %s\nmembers %s\n%r" % (
                c["via"], c["env"], c["cut"], [(b["k"], b["type"], b["size"], "/".join(b["name"])) for b in c["arch"].blocks if b["k"] == "head"][:12], r),
                dict(via=c["via"], env=c["env"], blocks=c["arch"].blocks[:60], cut=c["cut"], archive=c["arch"].bytes[:4096].hex(), expected=str(exp[i])[:2000]))
    ctx.traces(len(cases))
    kinds = {}
    for i, c in enumerate(cases):
        k = c["env"] or exp[i]["kind"]
        kinds[k] = kinds.get(k, 0) + 1
    for k, v in kinds.items():
        ctx.count("archives_" + k, v)
    ctx.sample(dict(blocks=cases[300]["arch"].blocks, expected=exp[300]))

