"""C07: gunzip returns exactly the original bytes or an error (spec/Inflate.tla)."""
import os, zlib, struct, itertools

TECHNIQUE = "executable TLA+ definition of RFC 1951/1952, TLC model checking, replay of TLC-decoded members into the decompressor"
LEVEL = "model_checking"
NOTE = ("The bit-level decoder is model checked over all short streams over a byte alphabet; generated members (random block structures, arbitrary Huffman "
        "codes, every length and distance code, header fields, and damaged, truncated and forged ones) are decompressed by the real code under ASan into buffers of "
        "exact, larger and too small size, and compared with TLC's decoding.")

HARNESS = r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <tinf.h>
static unsigned rd(void) { unsigned v = 0; if (fread(&v, 4, 1, stdin) != 1) exit(0); return v; }
/* per case on stdin: source length, bytes, number of buffers, their sizes */
int main(void) {
  for (;;) {
    unsigned n = rd();
    unsigned char *s = malloc(n ? n : 1);
    if (n && fread(s, 1, n, stdin) != n) return 3;
    unsigned char *exact = malloc(n); memcpy(exact, s, n); free(s);
    for (unsigned k = rd(); k; k--) {
      unsigned d = rd(), l = d;
      unsigned char *o = malloc(d);
      int r = tinf_gzip_uncompress(o, &l, exact, n);
      printf("%d ", r);
      if (r == 0) { printf("%u ", l); if (l <= d) for (unsigned i = 0; i < l; i++) printf("%02x", o[i]); }
      printf("\n"); fflush(stdout);
      free(o);
    }
    free(exact);
  } }
"""

# what the decompressor itself makes of deflate data that is not valid
RAW = r"""
#include <stdio.h>
#include <stdlib.h>
int tinf_uncompress(void *dest, unsigned int *destLen, const void *source, unsigned int sourceLen);
static unsigned char s[1 << 20], o[1 << 20];
static unsigned rd(void) { unsigned v = 0; if (fread(&v, 4, 1, stdin) != 1) exit(0); return v; }
int main(void) {
  for (;;) {
    unsigned n = rd(), l = 100000;
    if (n > sizeof s || n && fread(s, 1, n, stdin) != n) return 3;
    int r = tinf_uncompress(o, &l, s, n);
    printf("%d ", r);
    if (r == 0) for (unsigned i = 0; i < l && i < 100000; i++) printf("%02x", o[i]);
    printf("\n"); fflush(stdout);
  } }
"""


class Bits:
    def __init__(self):
        self.v, self.n, self.out = 0, 0, bytearray()

    def put(self, v, n):
        self.v |= v << self.n
        self.n += n
        while self.n >= 8:
            self.out.append(self.v & 255)
            self.v >>= 8
            self.n -= 8

    def huff(self, code, n):
        self.put(int(bin(code)[2:].zfill(n)[::-1], 2) if n else 0, n)

    def align(self):
        if self.n:
            self.put(0, 8 - self.n)

    def done(self, fill=0):
        if self.n:
            self.put(fill & ((1 << (8 - self.n)) - 1), 8 - self.n)
        return bytes(self.out)


LB = [3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258]
LX = [0] * 8 + [1] * 4 + [2] * 4 + [3] * 4 + [4] * 4 + [5] * 4 + [0]
DB = [1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577]
DX = [0, 0, 0, 0] + [i // 2 for i in range(2, 28)]


def codes(lens):
    code, res = 0, {}
    for l in range(1, 16):
        for s, x in enumerate(lens):
            if x == l:
                res[s] = (code, l)
                code += 1
        code <<= 1
    return res


def random_lengths(rng, syms, n, maxlen):
    """Lengths of a complete code over the given symbols (random shape)."""
    leaves = [0]
    while len(leaves) < len(syms):
        cand = [i for i, l in enumerate(leaves) if l < maxlen]
        i = rng.choice(cand) if rng.random() < .5 else max(cand, key=lambda i: leaves[i] if rng.random() < .6 else -leaves[i])
        l = leaves.pop(i)
        leaves += [l + 1, l + 1]
    rng.shuffle(leaves)
    L = [0] * n
    for s, l in zip(syms, leaves):
        L[s] = max(l, 1)
    return L


def encode(rng, size, wild=False):
    """A random deflate stream and the number of bytes it stands for (by construction)."""
    w = Bits()
    n = 0
    nb = rng.choice([1, 1, 2, 3])
    # one mistake a decoder must notice, everything else being right
    bad = rng.choice(["fixlen", "fixdist", "far", "unused", "unused", "over", "under", "hlit", "hdist", "rep0", "repover", "noend", "type3", "nlen", "single",
                      "maxsym", "dist30"]) if wild else None
    if bad in ("unused", "single"):
        nb = 1
    alphabet = [rng.randrange(256) for _ in range(rng.choice([1, 2, 5, 20]))]
    for k in range(nb):
        w.put(1 if k == nb - 1 else 0, 1)
        t = rng.choice([0, 1, 2, 2, 2])
        if bad in ("unused", "over", "under", "hlit", "hdist", "rep0", "repover", "noend", "single", "maxsym", "dist30"):
            t = 2
        elif bad in ("fixlen", "fixdist"):
            t = 1
        elif bad == "nlen":
            t = 0
        elif bad == "type3" and k == nb - 1:
            w.put(3, 2)
            return w.done(0) + rng.randbytes(5)
        w.put(t, 2)
        if t == 0:
            w.align() if rng.random() < .7 else w.put(rng.randrange(1 << ((8 - w.n) % 8)), (8 - w.n) % 8)
            m = rng.choice([0, 1, 2, rng.randrange(size + 1)])
            w.put(m, 16)
            w.put(m ^ 0xffff ^ (1 << rng.randrange(16) if bad == "nlen" and k == nb - 1 else 0), 16)
            for _ in range(m):
                w.put(rng.choice(alphabet), 8)
            n += m
            continue
        # the symbols first
        syms = []
        want = rng.randrange(size + 1)
        while want > 0:
            if n == 0 or rng.random() < .5:
                syms.append((rng.choice(alphabet),))
                n += 1
                want -= 1
            else:
                ds = [i for i in range(30) if DB[i] <= n]
                if bad in ("unused", "single"):
                    ds = [0]
                d = ds[-1] if rng.random() < .3 else rng.choice(ds)
                dx = rng.randrange(min(1 << DX[d], n - DB[d] + 1))
                if rng.random() < .2:
                    dx = min((1 << DX[d]) - 1, n - DB[d])
                lc = rng.randrange(29) if rng.random() < .3 else rng.randrange(8)
                lx = rng.choice([0, (1 << LX[lc]) - 1, rng.randrange(1 << LX[lc])])
                syms.append((257 + lc, lx, d, dx))
                n += LB[lc] + lx
                want -= LB[lc] + lx
        if bad in ("unused", "single") and all(len(x) == 1 for x in syms):
            syms += [(rng.choice(alphabet),), (257, 0, 0, 0)]
            n += 4
        if bad == "far" and k == nb - 1:
            d = max([i for i in range(30) if DB[i] <= n + 1] + [0])
            d = rng.choice([i for i in range(d, 30)])
            dx = max(0, n + 1 - DB[d])
            syms.append((257, 0, d, dx))
            n += 3
        if bad == "dist30" and k == nb - 1 and rng.random() < .5:
            syms.append((rng.choice([257 + 28, 257]), 0, 0, 0))
            n += 258
        syms.append((256,))
        if t == 1:
            lit = codes([8] * 144 + [9] * 112 + [7] * 24 + [8] * 8)
            dist = {i: (i, 5) for i in range(32)}
        else:
            last = bad if k == nb - 1 else None
            used = sorted(set(s[0] for s in syms) | set(rng.sample(range(286), rng.choice([0, 1, 5, 40]))))
            if len(used) == 1 and rng.random() < .5:
                used.append(rng.randrange(0, 256))
            ud = sorted(set(s[2] for s in syms if len(s) > 1) | set(rng.sample(range(30), rng.choice([0, 0, 1, 3, 10]))))
            if last in ("unused", "single"):
                ud = [0]
            L = random_lengths(rng, sorted(set(used)), 286, 15)
            D = random_lengths(rng, ud, 30, 15) if ud else [0] * 30
            lit, dist = codes(L), codes(D)
            if last == "noend":
                lit[256] = (0, 0)
                syms = syms[:-1]
                L[256] = 0
                x = [i for i in range(286) if L[i] == 0 and i != 256]
                if x:
                    L[x[0]] = 1 if not any(L) else max(L)
                lit = codes(L)
                syms = [x for x in syms if x[0] in lit]
            elif last in ("over", "under"):
                T = rng.choice([L, L, D])
                q = [i for i, l in enumerate(T) if (l > 1 if last == "over" else 0 < l < 15)]
                if q:
                    T[rng.choice(q)] += -1 if last == "over" else 1
            elif last == "single":
                D[0] = rng.choice([2, 3, 15])
                dist = {0: (0, D[0])}
            elif last == "unused":
                dist = {0: (1, 1)}
            hl = max(257, max(i for i in range(286) if L[i]) + 1 + rng.choice([0, 0, 3]))
            hl = min(hl, 286)
            if last == "hlit":
                hl = rng.choice([287, 288])
                L += [0] * (hl - 286)
            if last == "maxsym" and not L[285]:   # stop before the last symbol used
                hl = max(257, max(i for i in range(286) if L[i]))
            hd = min(30, max([i for i in range(30) if D[i]], default=0) + 1 + rng.choice([0, 0, 2]))
            if last == "hdist" or last == "dist30":
                hd = rng.choice([31, 32])
                D += [0] * (hd - 30)
                if last == "dist30":
                    D[30] = D[hd - 1] = max(max(D), 1)
            seq = L[:hl] + D[:hd]
            items, i = [], 0
            while i < len(seq):
                run = 1
                while i + run < len(seq) and seq[i + run] == seq[i]:
                    run += 1
                if seq[i] == 0 and run >= 11 and rng.random() < .8:
                    m = rng.choice([min(run, 138), rng.randint(11, min(run, 138))])
                    items.append((18, m - 11, 7))
                elif seq[i] == 0 and run >= 3 and rng.random() < .8:
                    m = rng.choice([min(run, 10), rng.randint(3, min(run, 10))])
                    items.append((17, m - 3, 3))
                elif i and seq[i] == seq[i - 1] and run >= 3 and rng.random() < .8:
                    m = rng.choice([min(run, 6), rng.randint(3, min(run, 6))])
                    items.append((16, m - 3, 2))
                else:
                    m = 1
                    items.append((seq[i],))
                i += m
            if last == "rep0":
                items.insert(0, (16, rng.randrange(4), 2))
                if rng.random() < .5:
                    items.pop(1)
            elif last == "repover":
                items[-1:] = [rng.choice([(17, 7, 3), (18, 127, 7), (16, 3, 2)])]
            cu = sorted(set(x[0] for x in items) | set(rng.sample(range(19), rng.choice([0, 2]))))
            if len(cu) == 1:
                cu.append((cu[0] + 1) % 19)
            C = random_lengths(rng, sorted(set(cu)), 19, 7)
            order = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15]
            hc = max(4, max(i for i in range(19) if C[order[i]]) + 1)
            hc = min(19, hc + rng.choice([0, 0, 1]))
            w.put(hl - 257, 5)
            w.put(hd - 1, 5)
            w.put(hc - 4, 4)
            for i in range(hc):
                w.put(C[order[i]], 3)
            cc = codes(C)
            for x in items:
                w.huff(*cc[x[0]])
                if len(x) > 1:
                    w.put(x[1], x[2])
        if bad == "fixlen" and k == nb - 1:
            syms.insert(rng.randrange(len(syms)), (rng.choice([286, 287]), 0, 0, 0))
        for j, s in enumerate(syms):
            if bad == "fixdist" and k == nb - 1 and len(s) > 1 and j >= len(syms) // 2:
                s = s[:2] + (rng.choice([30, 31]), 0)
                bad = None
            w.huff(*lit[s[0]])
            if len(s) > 1:
                w.put(s[1], LX[s[0] - 257] if s[0] < 286 else 0)
                if s[2] not in dist:
                    continue
                w.huff(*dist[s[2]])
                w.put(s[3], DX[s[2]] if s[2] < 30 else 0)
    return w.done(rng.choice([0, 255]))


def header(rng, full=False):
    flg = rng.choice([0, 0, 1, 2, 4, 8, 16, 31, rng.randrange(32)])
    h = b"\x1f\x8b\x08" + bytes([flg]) + rng.randbytes(6)
    if flg & 4:
        x = rng.randbytes(rng.choice([0, 1, 7, 300 if full else 9]))
        h += struct.pack("<H", len(x)) + x
    if flg & 8:
        h += rng.choice([b"", b"name.txt", bytes(rng.randint(1, 255) for _ in range(9))]) + b"\0"
    if flg & 16:
        h += rng.choice([b"", b"a comment", bytes(rng.randint(1, 255) for _ in range(5))]) + b"\0"
    if flg & 2:
        h += struct.pack("<H", zlib.crc32(h) & 0xffff)
    return h


def check(ctx):
    ctx.model("MCInflate", "CONSTANTS N = %d\nBytes = {0, 1, 2, 3, 4, 5, 75, 99, 254, 255}\n" % (4 if ctx.thorough else 3),
              ["Bounded", "Prefix", "Cut"], ["Progress"], extra_cfg="CHECK_DEADLOCK FALSE\n")
    base = ctx.dir("base")
    open(base + "/h.c", "w").write(HARNESS)
    t = ctx.tree()
    h = ctx.cc(base + "/h", [base + "/h.c", t + "/src/tinfgzip.c", t + "/src/tinflate.c"])
    rng = ctx.rng
    # ---- deflate bodies
    bodies = [bytes([a]) for a in range(256)]
    bodies += [bytes([rng.choice([3, 1, 75, 5, 0, 4, 99, 101, rng.randrange(256)]), rng.randrange(256), rng.choice([0, rng.randrange(256)])][:rng.choice([2, 3])]) for _ in range(800)]
    enc = [encode(rng, rng.choice([3, 10, 40, 80])) for _ in range(12000 if ctx.thorough else 1300)]
    bodies += enc
    bodies += [encode(rng, rng.choice([3, 10, 40]), True) for _ in range(12000 if ctx.thorough else 1200)]
    for _ in range(12000 if ctx.thorough else 1500):   # damaged streams
        b = bytearray(rng.choice(enc))
        r = rng.random()
        if r < .6:
            k = rng.randrange(min(len(b), 12) if rng.random() < .6 else len(b))
            b[k] ^= 1 << rng.randrange(8)
        elif r < .8:
            b = b[:rng.randrange(len(b))]
        else:
            b += rng.randbytes(rng.choice([1, 2, 9]))
        bodies.append(bytes(b))
    for _ in range(150):
        d = bytes(rng.choice(b"abcde\0") for _ in range(rng.randrange(150)))
        c = zlib.compressobj(rng.choice([0, 1, 6, 9]), zlib.DEFLATED, -rng.choice([9, 15]), rng.choice([1, 8, 9]), rng.choice([0, 1, 2, 3, 4]))
        bodies.append(c.compress(d) + c.flush())
    # far distances, long matches, large stored blocks
    big = []
    for d in ([1, 2, 3, 258, 32506, 32767, 32768] + [x for i in DB for x in (i, i - 1) if x > 2000]) if ctx.thorough else (1, 2, 24577, 32768):
        w = Bits()
        w.put(0, 3)
        w.align()
        m = min(max(d, 40), 65535)
        w.put(m, 16)
        w.put(m ^ 0xffff, 16)
        for i in range(m):
            w.put((i * 7 + (i >> 8)) & 255, 8)
        w.put(3, 3)
        fixed = codes([8] * 144 + [9] * 112 + [7] * 24 + [8] * 8)
        di = max(i for i in range(30) if DB[i] <= d)
        for L in (258, 3, 257, 10, 131):
            li = max(i for i in range(29) if LB[i] <= L)
            w.huff(*fixed[257 + li])
            w.put(L - LB[li], LX[li])
            w.huff(di, 5)
            w.put(d - DB[di], DX[di])
        w.huff(*fixed[256])
        big.append(w.done())
    bodies += big
    raw = ctx.eval("Inflate", [list(b) for b in bodies], "Raw")
    # ---- members around them
    cases = []   # (member, sizes)

    def member(head, body, out, crc=None, isize=None):
        return head + body + struct.pack("<II", zlib.crc32(out) if crc is None else crc, (len(out) if isize is None else isize) & 0xffffffff)

    for b, r in zip(bodies, raw):
        out = bytes(r["out"])
        hd = header(rng)
        m = member(hd, b, out)
        n = len(out)
        sizes = {n, n + rng.choice([1, 7, 100])}
        if n:
            sizes |= {n - 1, rng.randrange(n)}
        cases.append((m, sorted(sizes)))
        k = rng.random()
        if r["st"] == "done":
            if k < .12:
                cases.append((member(hd, b, out, crc=zlib.crc32(out) ^ (1 << rng.randrange(32))), [n, n + 5]))
            elif k < .24:
                x = rng.choice([n + 1, max(n - 1, 0), 0, n ^ (1 << rng.randrange(31)), n + 256, n + 65536])
                if x != n:
                    cases.append((member(hd, b, out, isize=x), sorted({n, n + 5, min(x, 1 << 17), min(x + 1, 1 << 17)})))
            elif k < .34:    # bytes between data and trailer
                cases.append((member(hd, b + rng.randbytes(rng.choice([1, 2, 8])), out), [n]))
            elif k < .44:
                cases.append((m[:rng.randrange(len(m))], [n, n + 20]))
            elif k < .5:
                cases.append((m + rng.randbytes(rng.choice([1, 4, 8])), [n, n + 20]))
            elif k < .6:
                y = bytearray(m)
                y[rng.choice([0, 1, 2, 3, 3, 3, 10, 11, 12] if len(m) > 12 else [0])] ^= 1 << rng.randrange(8)
                cases.append((bytes(y), [n, n + 20]))
            elif k < .75:
                y = bytearray(m)
                y[rng.randrange(len(m))] ^= 1 << rng.randrange(8)
                cases.append((bytes(y), [n, n + 20]))
    # invalid data dressed up with the trailer of whatever the decompressor would make of it
    wrong = [b for b, r in zip(bodies, raw) if r["st"] not in ("done", "any")]
    try:
        open(base + "/r.c", "w").write(RAW)
        hr = ctx.cc(base + "/r", [base + "/r.c", t + "/src/tinfgzip.c", t + "/src/tinflate.c"], san=False, flags=["-O1"])
    except Exception as e:
        hr = None
        ctx.log("no raw decompressor: %s" % str(e)[-200:])
    if hr:
        rest = wrong
        while rest:
            r = ctx.run([hr], stdin=b"".join(struct.pack("<I", len(b)) + b for b in rest), timeout=120)
            ls = r.out.decode("latin-1").split("\n")[:-1]
            for b, l in zip(rest, ls):
                f = l.split(" ")
                if f[0] == "0" and len(cases) < 60000:
                    o = bytes.fromhex(f[1])
                    cases.append((member(header(rng), b, o), [len(o), len(o) + 9]))
                    ctx.count("invalid_data_the_inflater_takes")
            rest = rest[len(ls) + 1:]
    # header damage, all flag combinations, cut anywhere
    small = b"\x4b\x4c\x04\x00"
    for flg in range(256):
        hd = b"\x1f\x8b\x08" + bytes([flg]) + b"\0\0\0\0\0\3"
        if flg & 4:
            hd += b"\2\0xy"
        if flg & 8:
            hd += b"n\0"
        if flg & 16:
            hd += b"c\0"
        if flg & 2:
            hd += struct.pack("<H", zlib.crc32(hd) & 0xffff)
        m = member(hd, small, b"ab")
        cases.append((m, [2, 10]))
        if flg in (0, 2, 4, 8, 16, 6, 10, 18, 30, 31, 255):
            for k in range(len(m)):
                cases.append((m[:k], [2, 10]))
            for k in range(len(m)):
                for bit in (0, 7):
                    y = bytearray(m)
                    y[k] ^= 1 << bit
                    cases.append((bytes(y), [2, 10]))
    # extra fields and names that end exactly at, or beyond, the end
    for xl in range(0, 30):
        for flg in (4, 6, 12, 20):
            for fill in (b"\1", b"\0"):
                m = b"\x1f\x8b\x08" + bytes([flg]) + b"\0" * 6 + struct.pack("<H", xl) + fill * 12
                cases.append((m, [0, 4]))
    for flg in (8, 16, 24, 10, 26):
        for n in range(8, 24):
            for z in range(0, 3):
                m = b"\x1f\x8b\x08" + bytes([flg]) + b"\0" * 6 + b"n" * (n - z) + b"\0" * z
                cases.append((m, [0, 4]))
    exp = ctx.eval("Inflate", [list(m) for m, _ in cases], "Gunzip")

    def feed(idx):
        inp = b""
        for i in idx:
            m, s = cases[i]
            inp += struct.pack("<I", len(m)) + m + struct.pack("<I", len(s)) + b"".join(struct.pack("<I", x) for x in s)
        return ctx.run([h], stdin=inp, timeout=120)

    def judge(i, lines):
        m, sizes = cases[i]
        e = exp[i]
        bad = []
        if len(lines) < len(sizes):
            return ["the decompressor crashed or hung"]
        for s, l in zip(sizes, lines):
            f = l.split()
            ok = f[0] == "0"
            if e["st"] == "any":
                continue
            if e["st"] != "done":
                if ok:
                    bad.append("accepts an input that is not a valid member (buffer of %d)" % s)
                continue
            out = bytes(e["out"])
            if len(out) > s:
                if ok:
                    bad.append("success with a buffer of %d for %d bytes" % (s, len(out)))
            elif not ok:
                bad.append("result %s for a valid member of %d bytes, buffer of %d" % (f[0], len(out), s))
            elif int(f[1]) != len(out) or bytes.fromhex(f[2] if len(f) > 2 else "") != out:
                bad.append("wrong output (%s bytes, expected %d)" % (f[1], len(out)))
        return bad

    def chunk(idx):
        r = feed(idx)
        lines = r.out.decode("latin-1").split("\n")[:-1]
        k, res = 0, []
        for n, i in enumerate(idx):
            part = lines[k:k + len(cases[i][1])]
            k += len(part)
            bad = judge(i, part)
            if bad:
                res.append((i, bad, r.err[-1500:] if len(part) < len(cases[i][1]) else b""))
            if len(part) < len(cases[i][1]):
                if n + 1 < len(idx):
                    res += chunk(idx[n + 1:]) if len(res) < 10 else []
                break
        return res

    idx = list(range(len(cases)))
    parts = [idx[i::64] for i in range(64)]
    for res in ctx.pmap(chunk, parts):
        for i, bad, err in res:
            again = chunk([i])
            if again:
                m, s = cases[i]
                ctx.violation("gunzip", "; ".join(bad) + "\nmember %s buffers %s expected %s\n%s" % (m[:200].hex(), s, exp[i]["st"], err.decode("latin-1")),
                              dict(member=m.hex(), buffers=s, expected=exp[i]["st"], out=bytes(exp[i]["out"]).hex()[:4000]))
    ctx.traces(sum(len(s) for _, s in cases))
    for st in ("done", "error", "any"):
        ctx.count("members_" + st, sum(e["st"] == st for e in exp))
    i = next(i for i, e in enumerate(exp) if e["st"] == "done" and 20 < len(e["out"]) < 60)
    ctx.sample(dict(member=cases[i][0].hex(), out=bytes(exp[i]["out"]).hex()))
