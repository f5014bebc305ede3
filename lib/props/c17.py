"""C17: what goes to standard output and error, and where messages point (spec/Msgs.tla, spec/Lines.tla)."""
import os, re, pty, tty, subprocess, threading

TECHNIQUE = "TLA+ models of verbosity/messages and of presumed source positions, TLC model checking, replay of TLC-computed outcomes into cjit"
LEVEL = "model_checking"
NOTE = ("TLC checks the machine that turns an option sequence into messages for all sequences up to 3-4 options and the machine that tracks files and lines for all texts of up to 4-5 items "
        "(marks, #line, conditionals, includes, multi-line constructs, warnings, errors); generated command lines (with arguments of all lengths around the message buffer's and format "
        "characters) and sources are run and standard output, standard error, __FILE__, __LINE__ compared with what TLC computes.")

LONG = 1000         # messages up to this length must be whole
OUT = b"out%s\x00\xff line\npart"
ERR = b"app err %n"


# ------------------------------------------------------------------ messages
def body(case):
    """text of the source"""
    w = case["what"]
    if w == "err":
        return b"\n#error " + case["args"]["text"] + b"\n"
    e = case["args"][case["entry"]] if w != "noentry" and case["entry"] else b"main"
    esc = lambda b: b"".join(b"\\%03o" % c for c in b)
    t = b"extern long write(int, const void *, unsigned long); extern int kill(int, int), getpid(void); %b\n" % (b"extern int " + case["args"]["sym"] + b"(void);" if w == "undef" else b"")
    t += b"int %b(void) { write(1, \"%b\", %d); write(2, \"%b\", %d); %b return 0; }\n" % (
        e, esc(OUT), len(OUT), esc(ERR), len(ERR),
        b"kill(getpid(), 9);" if w == "signal" else b"return " + case["args"]["sym"] + b"();" if w == "undef" else b"")
    if e != b"main" and case["exe"]:
        t += b"int main(void) { return 0; }\n"
    return t


WEIRD = [b"%s", b"%n%n%n%s", b"%d%x%p", b"100%", b"%%", b"a b", b"\xc3\xa9\xff", b"\x01\x7f\x1b[31m", b"'\"\\", b"%*d", b"%99999s", b"$(x)", b"\t"]


def text(rng, n=None, alpha=None, long=True):
    n = n if n is not None else rng.choice([1, 3, 8, 40, 200, 900] + ([1000, 1900, 1980, 2000, 2010, 2020, 2030, 2035, 2036, 2037, 2038, 2039, 2040, 2041, 2042, 2043, 2044, 2045, 2050, 2100, 3000, 4095, 4096, 8000, 20000,
                                                                       2040 - rng.randrange(80)] if long else []))
    if alpha:
        return bytes(rng.choice(alpha) for _ in range(n))
    out = b""
    while len(out) < n:
        out += rng.choice(WEIRD) if rng.random() < .3 else bytes([rng.choice(b"abcdefghijklmnopqrstuvwxyz0123456789%/._-")])
    return out[:n].rstrip(b"\n") or b"x"


ID = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"


def here(rng, n=None):
    """a long name of the current directory"""
    n = n if n is not None else rng.choice([1, 5, 50, 450, 498, 500, 1000, 1005, 1015, 1018, 1019, 1020, 1021, 1022, 1900])
    return b"./" * n


def msg_case(rng):
    what = rng.choice(["ok"] * 6 + ["err", "err", "undef", "noentry", "noentry", "missing", "signal"])
    inp = "file" if what == "missing" else rng.choice(["file"] * 5 + ["stdin", "dash"])
    args, opts, n = {}, [], 0
    entry = 0
    kinds = rng.choices(["q", "v", "verb", "h", "badD", "z", "c", "o", "e", "p", "L", "I", "C", "D"], [4, 1, 4, .3, .5, .8, 1, 1.2, 4, 2, 2, 2, 2, 1], k=rng.choice([0, 1, 1, 2, 2, 3, 4, 5]))
    if inp != "file":
        kinds = [k for k in kinds if k != "c"]
    if "c" in kinds:
        kinds = [k for i, k in enumerate(kinds) if k != "c" or i == kinds.index("c")]
    if what in ("ok", "signal", "undef") and kinds.count("e") > 1:
        kinds = [k for i, k in enumerate(kinds) if k != "e" or i == kinds.index("e")]
    if what == "noentry":
        kinds = [k for k in kinds if k not in "co"] + (["e"] if "e" not in kinds else [])
    rng.shuffle(kinds)
    for k in kinds:
        n += 1
        if k == "e":
            args[n] = text(rng, None, ID) if what != "noentry" else text(rng)
            if args[n][:1] == b"-" or not args[n]:
                args[n] = b"x" + args[n]
            entry = n
        elif k == "p":
            args[n] = here(rng) + b"pid%s"
        elif k in "LI":
            args[n] = here(rng)
        elif k == "C":
            args[n] = b"-DZ%d=" % n + text(rng, None, b"%snd123")
        elif k == "badD":
            args[n] = text(rng).replace(b"=", b"x") + b"%"
        elif k == "D":
            args[n] = b"Y=1"
        elif k == "z":
            args[n] = rng.choice([b"k", b"n", b"Z", b"7"])
        elif k == "o":
            args[n] = here(rng) + b"out%d"
        else:
            args[n] = b""
        opts.append(dict(k=k, a=n))
    name = rng.choice([b"m.c", b"m.c", b"m%s.c", b"m %d.c", b"m\xc3\xa9.C", b"%n%n.cxx"])
    args[0] = here(rng, rng.choice([1, 5, 50, 450, 490])) + name if rng.random() < .4 else name
    if what == "missing":
        args[0] = (here(rng) + b"no%s.c") if rng.random() < .6 else b"no/" + text(rng).replace(b"/", b"x") + b".c"
    # the directory of the source is part of the message, twice in one of them
    args["text"] = text(rng).strip().rstrip(b"\\ \t") or b"x"
    args["sym"] = b"u_" + text(rng, None, ID)
    env = 0
    if rng.random() < .12:
        env = 99
        args[99] = b"-DE=" + text(rng, None, b"%snd123")
    return dict(tty=rng.random() < .3, opts=opts, input=inp, what=what, env=env, args=args, entry=entry, exe="o" in kinds)


def text_of(case, version, m, a):
    g = lambda i: case["args"][i]
    a = [g(i) if i or m != "no entry" else b"main" for i in a]
    src = b"<string>" if case["input"] in ("stdin", "dash") else g(0)
    import errno
    no = None
    if case["what"] == "missing":
        p = g(0)
        no = os.strerror(errno.ENAMETOOLONG if len(p) >= 4096 or max(map(len, p.split(b"/"))) > 255 and not p.startswith(b"no/") else errno.ENOENT).encode()
    return {
        "entry": lambda: b"entry function: " + a[0], "pid": lambda: b"pid file: " + a[0], "libdir": lambda: b"arg lib path: " + a[0], "incdir": lambda: b"arg inc: " + a[0],
        "cflags": lambda: b"arg cflags: " + a[0], "badD": lambda: b"Invalid char used in -D define symbol: " + a[0], "unknown": lambda: b"unknown opt: -" + a[0] + b"\n",
        "banner": lambda: b"cjit version %b (c) 2024-2025 Dyne.org foundation" % version[1:].encode(), "sources": lambda: b"Source code:", "+": lambda: b"+ " + a[0], "| standard input": lambda: b"| standard input",
        "stdin": lambda: b"No files specified on commandline, reading code from stdin", "env": lambda: b"CFLAGS: " + a[0],
        "source": lambda: src + b":2: error: #error " + case["args"]["text"][:1023] , "in stdin": lambda: b"Code runtime error in stdin",
        "file error": lambda: b"cjit_add_file: error: " + g(0), "compile error": lambda: b"cjit_compile_file: error: " + g(0),
        "not found": lambda: b"tcc: error: file '%b' not found" % g(0),
        "bom": lambda: b"detect_bom: %b: %b" % (g(0), no), "add": lambda: b"cjit_add_source: %b: %b" % (g(0), no),
        "create": lambda: b"Create executable: " + a[0], "link error": lambda: b"Error in linker compiling to file: " + a[0], "undefined": lambda: b"tcc: error: undefined symbol '%b'" % case["args"]["sym"],
        "exec error": lambda: b"cjit_exec: TCC linker error", "missing": lambda: b"Library functions missing.", "no entry": lambda: b"Symbol not found in source: " + a[0],
        "killed": lambda: b"Process terminated with signal 9", "compiling": lambda: None, "status": lambda: None, "help": lambda: None,
    }[m]()


def take(buf, pos, t):
    """position after message t in buf at pos, None when it is not there: whole, or a long enough prefix of it"""
    if buf.startswith(t + b"\n", pos):
        return pos + len(t) + 1
    n = 0
    while n < len(t) and pos + n < len(buf) and buf[pos + n] == t[n]:
        n += 1
    # the prefix ends at the first difference, or earlier where the text has a newline of its own
    if LONG <= n < len(t) and buf[pos + n:pos + n + 1] == b"\n":
        return pos + n + 1
    return None


def match(case, version, w, err, out=b""):
    """None or what is wrong with standard error"""
    pos = 0
    for i, m in enumerate(w["err"]):
        if m["m"] == "app":
            want = ERR
            nxt = pos + len(ERR) if err.startswith(ERR, pos) else None
            if nxt is None and not w["exact"]:
                p = err.find(ERR, pos)
                nxt = p + len(ERR) if p >= 0 else None
        elif m["m"] == "help":
            want = b"CJIT %b by Dyne.org\n" % version.encode()
            nxt = len(err) if want in err[pos:] and (not w["exact"] or err.startswith(want, pos)) and err.endswith(b"\n") and b"--xtgz" in err else None
        elif m["m"] == "status":
            want = b"Build system: "
            p = err.find(want, pos)
            nxt = err.find(b"\n", p) + 1 if p >= 0 else None
        elif m["m"] == "compiling":
            base = os.path.basename(case["args"][0])
            dst = case["args"][m["a"][1]] if m["a"][1] else base[:base.rindex(b".")] + b".o"
            want = b"Compiling: %b -> %b" % (case["args"][0], dst)
            p = pos
            nxt = take(err, p, want)
            while nxt is None and not w["exact"] and p < len(err):
                p = err.find(b"\n", p) + 1 or len(err)
                nxt = take(err, p, want)
        else:
            want = text_of(case, version, m["m"], m["a"])
            p = pos
            nxt = take(err, p, want)
            while nxt is None and not w["exact"] and p < len(err):
                p = err.find(b"\n", p) + 1 or len(err)
                nxt = take(err, p, want)
        if nxt is None:
            return "message %d (%s) %r is not there: %r" % (i + 1, m["m"], want[:300] + (b"...(%d bytes)" % len(want) if len(want) > 300 else b""), err[pos:pos + 300])
        pos = nxt
    if w["exact"] and pos != len(err):
        return "more on standard error: %r" % err[pos:pos + 300]
    return None


def words(case):
    ws = []
    for o in case["opts"]:
        a = case["args"][o["a"]]
        ws += {"q": [b"-q"], "v": [b"-v"], "verb": [b"--verb"], "h": [b"-h"], "c": [b"-c"], "z": [b"-" + a], "D": [b"-D", a], "badD": [b"-D", a]}.get(o["k"]) or [b"-" + o["k"].encode(), a]
    if case["input"] == "file":
        ws.append(case["args"][0])
    elif case["input"] == "dash":
        ws.append(b"-")
    return ws


def spawn(cmd, d, inp, env, is_tty):
    """rc, stdout, stderr; standard output a raw terminal or a pipe"""
    e = {k: v for k, v in os.environ.items() if k != "CFLAGS"}
    if env is not None:
        e = {os.fsencode(k): os.fsencode(v) for k, v in e.items()}
        e[b"CFLAGS"] = env
    out = []
    if is_tty:
        m, s = pty.openpty()
        tty.setraw(s)

        def pump():
            while True:
                try:
                    x = os.read(m, 65536)
                except OSError:
                    return
                if not x:
                    return
                out.append(x)
    else:
        s = subprocess.PIPE
    p = subprocess.Popen(cmd, cwd=d, stdin=subprocess.PIPE, stdout=s, stderr=subprocess.PIPE, env=e)
    if is_tty:
        th = threading.Thread(target=pump)
        th.start()
        os.close(s)
    try:
        o, err = p.communicate(inp, timeout=60)
    except subprocess.TimeoutExpired:
        p.kill()
        o, err = p.communicate()
        err += b"(timeout)"
    if is_tty:
        th.join(5)
        os.close(m)
        o = b"".join(out)
    return p.returncode, o, err


def messages(ctx, cjit):
    rng = ctx.rng
    cs = [msg_case(rng) for _ in range(5000 if ctx.thorough else 1100)]
    ws = ctx.eval("Msgs", [dict((k, c[k]) for k in ("tty", "opts", "input", "what", "env")) for c in cs], "Written")

    def one(j):
        c, w = j
        d = ctx.dir()
        src = body(c)
        if c["input"] == "file" and c["what"] != "missing":
            open(os.path.join(d.encode(), os.path.basename(c["args"][0])), "wb").write(src)
        rc, out, err = spawn([cjit.encode()] + words(c), d, src if c["input"] != "file" else b"", c["args"][99] if c["env"] else None, c["tty"])
        bad = None
        if out != (OUT if w["app"] else b""):
            bad = "standard output is %r, the application wrote %r" % (out[:300], OUT if w["app"] else b"")
        return bad or match(c, ctx.version, w, err)
    js = list(zip(cs, ws))
    for j, bad in zip(js, ctx.pmap(one, js)):
        if bad and one(j):
            c, w = j
            ctx.violation("messages", "cjit %s (%s, stdout %s, input %s): %s" % (b" ".join(x[:120] for x in words(c)).decode("latin-1"), c["what"], "a terminal" if c["tty"] else "a pipe", c["input"], one(j)),
                          dict(argv=[x.decode("latin-1") for x in words(c)], source=body(c).decode("latin-1"), expected=w, case={k: c[k] for k in ("tty", "input", "what")}))
    ctx.traces(len(js))
    ctx.count("command_lines", len(js))
    for c, w in js[:3]:
        ctx.sample(dict(argv=[x.decode("latin-1")[:200] for x in words(c)], expected=w))


def together(ctx, cjit):
    """several at once on the same standard error: messages are not mixed into each other"""
    rng = ctx.rng
    n = 8

    def one(k):
        d = ctx.dir()
        sizes = [rng.choice([20, 300, 900, 1500, 1990]) for _ in range(n)]
        want = []
        for i, z in enumerate(sizes):
            t = "".join("#warning %d.%d %s\n" % (i, j, chr(97 + i) * z) for j in range(60))
            open("%s/m%d.c" % (d, i), "w").write(t + "int main(void) { return 0; }\n")
            want += [b"m%d.c:%d: warning: #warning %d.%d %s" % (i, j + 1, i, j, bytes([97 + i]) * z) for j in range(60)]
        r, w = os.pipe() if k % 2 else (None, os.open(d + "/err", os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644))
        got = []
        if r is not None:
            def pump():
                while True:
                    x = os.read(r, 65536)
                    if not x:
                        return
                    got.append(x)
            th = threading.Thread(target=pump)
            th.start()
        ps = [subprocess.Popen([cjit, "-q", "m%d.c" % i], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=w) for i in range(n)]
        os.close(w)
        outs = [p.communicate()[0] for p in ps]
        if r is not None:
            th.join(30)
            os.close(r)
        else:
            got = [open(d + "/err", "rb").read()]
        lines = b"".join(got).split(b"\n")
        cut = {x[:LONG]: x for x in want}
        for l in lines[:-1]:
            x = cut.pop(l[:LONG], None)
            if x is None or not (x == l or (len(l) >= LONG and x.startswith(l))):
                return "line %r" % l[:400]
        if cut or lines[-1] or any(outs):
            return "%d messages missing, %r, standard output %r" % (len(cut), lines[-1][:200], [o for o in outs if o][:1])
        return None
    ks = list(range(12 if ctx.thorough else 4))
    for k in ks:
        bad = one(k)
        if bad:
            ctx.violation("together", "8 processes with one standard error (%s): %s" % ("pipe" if k % 2 else "file", bad), dict(bad=bad))
    ctx.traces(len(ks) * n)
    ctx.count("concurrent_processes", len(ks) * n)


# ------------------------------------------------------------------ positions
class Gen:
    def __init__(self, rng, place):
        self.rng, self.place, self.n = rng, place, 0

    def item(self, k, text, n=None, b=0, **kw):
        d = dict(k=k, n=text.count("\n") + 1 if n is None else n, b=b, v=0, c="const", fs=False, f="", i=0, t="")
        d.update(kw)
        return dict(d, text=text)

    def mark(self):
        r = self.rng
        if self.place in ("init", "loc"):
            t, b = r.choice([("{__LINE__,__FILE__},", 0), ("MK,", 0), ("MKF(1),", 0), ("MKF( 1 ) ,", 0), ("ID(MK),", 0), ("{__LINE__,__FILE__}\n,", 0), ("{\n__LINE__ ,\n __FILE__},", 1), ("{__LINE__ /*\n*/, __FILE__},", 0),
                             ("  /* x */ {__LINE__,__FILE__}, // y", 0), ("{__LI\\\nNE__,__FILE__},", None), ("{\\\n__LINE__,__FILE__},", 1), ("{__LINE__,\\\n__FILE__},", 0)])
        else:
            t, b = r.choice([("o(__LINE__,__FILE__);", 0), ("MK;", 0), ("MKF(1);", 0), ("ID(MK);", 0), ("o(__LINE__,__FILE__)\n;", 0), ("o(\n__LINE__ ,\n __FILE__);", 1), ("o(__LINE__ /*\n*/, __FILE__);", 0),
                             ("  /* x */ o(__LINE__,__FILE__); // y", 0), ("if (1) o(__LINE__,__FILE__);", 0), ("o(__LINE__,\\\n__FILE__);", 0), ("\\\no(__LINE__,__FILE__);", 1)])
        if b is None:
            return self.mark()
        pre = ""
        if r.random() < .3:
            pre = r.choice(["/*\n*/ ", "\\\n", "/* #line 9\n \" \n ' */", "NOTHING(\n) ", "/\\\n* *\\\n/ ", "NOTHING(\n x \n , \n) ", "NOTHING(\"a\\\nb\") "])
        return self.item("mark", pre + t, b=b + pre.count("\n"))

    def none(self):
        r = self.rng
        self.n += 1
        c = ["", "/* c */", "// c", "  \t", "\f", "#define D%d 1" % self.n, "#undef Q", "#", "# /* */", "#pragma foo", "NOTHING(x)", "/*\n\n*/", "/* \\\n */", "// a \\\n b", "#define D%d \\\n 1" % self.n, "#define D%d /* \n */ 2" % self.n,
             "NOTHING(\n1\n)", "NOTHING(\n/* \n */ ,\\\n// x\n)", "\\\n\\\n", "/*\n#line 77\n#error x\n\"\n'*/", "\n\n", "/\\\n/ x", "//\\\n\\\n\\\ny", "/* ** / \n * \n **/", "#define F%d(a, \\\n b) \\\n a \\\n b\nNOTHING(F%d(\n1\n,\n2))" % (self.n, self.n),
             "#pragma \\\n foo", "#undef \\\nQ", "#\\\n", "NOTHING(\"a\\\nb\", 'c')", "#define D%d \"a\\\nb\"" % self.n, "#define D%d D%d(\n" % (self.n, self.n), "_Pragma(\"foo\")" if False else ""]
        if self.place in ("fn", "inl"):
            c += [";", "{ int q = 1; }", "{ const char *q = \"a\\\nb\"; }", "{ const char *q = \"a\"\n\"b\"\n; }", "if (0)\n{\n}\nelse\n;", "sizeof(int\n*);", "for (\n;0\n;\n) {\n}"]
        k = r.random()
        if k < .2:
            t = self.soup(False)
            t = "NOTHING(" + t.replace("# x", "x") + ")"
            if t.replace("\\\n", "").count("\n#") == 0:
                return self.item("none", t)
        if k < .4:
            return self.item("none", r.choice(["#if 0", "#ifdef NOPE", "#ifndef NOTHING", "#if 1\n#else", "#if 1\n#elif 1"]) + "\n" + self.soup(True) + r.choice(["\n", "\n", "/*\n\n*/\n", "\n\n"]) + "#endif")
        return self.item("none", r.choice(c))

    def soup(self, junk):
        """tokens, comments and splices over any number of lines; junk: not even tokens"""
        r, out = self.rng, []
        for _ in range(r.randrange(1, 9)):
            k = r.randrange(9 if junk else 7)
            if k == 0:
                out.append("/*" + r.choice(["", " ", "*", "/", "\"", "'", "#"]) + "".join(r.choice(["\n", "\n", "\\\n", " x", "*", "'", "\n#else", "\n#endif", "\n#line 3", " //"]) for _ in range(r.randrange(7))) + " */")
            elif k == 1:
                out.append("//" + r.choice(["", " x", " /*", " \"", " '"]) + "\\\n" * r.choice([0, 0, 1, 2]) + "\n")
            elif k == 2:
                out.append("\\\n" * r.randrange(1, 4))
            elif k == 3:
                out.append("\n" * r.randrange(1, 4))
            elif k == 4:
                out.append(r.choice(['"a"', "'b'", '"/*"', "'\\''", '"\\""', '"//"', '"\\\nx"', "'\\\\'", "\"'\"", "'\"'"]))
            elif k < 7:
                out.append(r.choice(["x", "12", ",", "+", "/ 2", "a.b", "1e+5", "x ", " ", "# x" if not junk else "x # y", "\t"]))
            elif k == 7:
                out.append(r.choice([")", "(", "@", "$", "`", "\\ ", "\n#if foo(\n#endif\n", "\n#if 1\nx\n#else y\n#endif\n", "\n#foo\n", "\n#include <no.h>\n", "\n# 12\n", "\n#ifdef\n#elif\n# endif\n"]))
            else:
                out.append("\n#error it's \"not\" /* x */\n")
        return " ".join(out) if r.random() < .5 else "".join(t if t.startswith((" ", "\n")) else " " + t for t in out)

    def line(self):
        r = self.rng
        v = r.choice([1, 2, 7, 8, 9, 10, 100, 255, 256, 32767, 65535, 65536, 1000000, 0])
        v = v or r.randrange(1, 50)
        f = r.choice(["x.c", "x.c", "other.h", "sp ace.c", "/v/y.c", "a.b.c", "x", "%s.c"])
        if r.random() < .5:
            t = r.choice(["#line %d", "# line %d", "#line %d // x", "#line \\\n %d", "#line /* \n */ %d", "#line 00%d", "  #line %d  ", "#line %d /* \n */", "#\\\nline %d"]) % v
            if r.random() < .15:
                self.n += 1
                t = "#define L%d %d\n#line L%d" % (self.n, v, self.n)
            return self.item("line", t, v=v)
        t = r.choice(['#line %d "%s"', '# %d "%s"', '# line %d "%s" // x', '#line \\\n%d \\\n"%s"', '#line %d "%s" /*\n*/', '# %d "%s" 3', '#line %d "%s" 3 4 // x', '# %d "%s" 3 /* */', '#line 0%d "%s"']).replace("%s", "@") % v
        if r.random() < .1:
            self.n += 1
            t = '#define L%d %d "@"\n#line L%d' % (self.n, v, self.n)
        return self.item("line", t.replace("@", f), v=v, fs=True, f=f)

    def warn(self):
        r = self.rng
        self.n += 1
        n = self.n
        k = r.random()
        if k < .6:
            pre = r.choice(["", "", "/* x */ ", "/*\n*/", "\\\n"])
            t = r.choice(["w%d", "w%d 'x", "w%d \"x", "w%d //", "w%d ?"]) % n
            return self.item("warn", pre + r.choice(["#warning %s", "# warning %s", "#warning   %s"]) % t, b=pre.count("\n"), t="#warning " + t)
        if k < .8 or self.place in ("init", "loc"):
            return self.item("warn", "#define R%d 1\n#define R%d 2\n#undef R%d" % (n, n, n), b=1, t="R%d redefined" % n)
        return self.item("warn", "{ char *w%d = 5; }" % n, t="")

    def err(self):
        r = self.rng
        pre = r.choice(["", "", "", "/*\n*/ ", "\\\n", "/*\n\n*/\\\n", "NOTHING(\n) "])
        k = r.randrange(8)
        if k < 2:
            if pre.startswith("NO"):
                pre = ""
            t = r.choice(["#error e1", "# error a \"b", "#error it's"])
            return self.item("err", pre + t, b=pre.count("\n"), t="#error" + t.split("error")[1])
        if k == 2 and not pre.startswith("NO"):
            return self.item("err", pre + '#include "nofile.h"', b=pre.count("\n"), t="include file 'nofile.h' not found")
        if k == 3 and not pre.startswith("NO"):
            return self.item("err", pre + r.choice(["#if 1 +", "#if (", "#if 1 / 0", "#if", "#ifdef", "#ifndef 1"]) + "\n#endif", b=pre.count("\n"), t="")
        if k == 4:
            return self.item("err", pre + "TWO(1)", b=pre.count("\n"), t="")
        if k == 5 and not pre.startswith("NO"):
            return self.item("err", pre + r.choice(["#line foo", "#define 1", "#define", "#line 0x1", "#line"]), b=pre.count("\n"), t="")
        if self.place in ("init", "loc"):
            return self.item("err", pre + r.choice(["{bad_1 + 0, 0},", "{1 = 2, 0},", "{ID(bad_1), 0},", "{0, bad_1 },"]), b=pre.count("\n"), t="", late=True)
        return self.item("err", pre + r.choice(["o(bad_1 + 0, 0);", "bad_1;", "1 = 2;", "o(ID(bad_1), 0);", "{ int x; int x; }", "break;", "{ struct U u; }", "goto 1;", "*5;"] + ["o(1, 0;"] * (self.place == "fn")), b=pre.count("\n"), t="", late=True)

    def items(self, n, files, depth=0):
        """a sequence of items with well nested conditionals"""
        r, out = self.rng, []
        while n > 0:
            k = r.random()
            if k < .32:
                out.append(self.mark())
            elif k < .58:
                out.append(self.none())
            elif k < .7:
                out.append(self.line())
            elif k < .8 and files:
                i = r.choice(files)
                t = r.choice(['#include "i%d.h"', '#include "i%d.h"', '# include "i%d.h" // x', '#include \\\n"i%d.h"', '#include "i%d.h" /* \n */', '#include I%d', '#include /* \n */ "i%d.h"']) % i
                out.append(self.item("inc", t, i=i))
            elif k < .85:
                out.append(self.warn())
            elif k < .9 and self.errors:
                out.append(self.err())
            elif depth < 3:
                m = r.randrange(1, 4)
                c, v, t = self.cond()
                out.append(self.item("if", "#%s%s" % ("if " if c is not None else "", t), c=c or "const", v=v))
                out += self.items(m, files, depth + 1)
                while r.random() < .35:
                    c, v, t = self.cond(False)
                    out.append(self.item("elif", "#elif " + t, c=c or "const", v=v))
                    out += self.items(r.randrange(0, 3), files, depth + 1)
                if r.random() < .5:
                    out.append(self.item("else", r.choice(["#else", "# else // x", "#else /*\n*/", "#\\\nelse"])))
                    out += self.items(r.randrange(0, 3), files, depth + 1)
                out.append(self.item("endif", r.choice(["#endif", "# endif", "#endif /* x\n */", "#en\\\ndif", "  #endif // y"])))
            n -= 1
        return out

    def cond(self, first=True):
        r = self.rng
        k = r.random()
        if k < .3:
            v = r.choice([1, 2, 3, 5, 8, 9, 10, 11, 12, 20, 101])
            return "line", v, "__LINE__ == %d" % v
        v = r.randrange(2)
        if first and k < .5:
            return None, 1 - v, "ifdef " + ["NOTHING", "NOPE"][v]
        if first and k < .6:
            return None, v, "ifndef " + ["NOTHING", "NOPE"][v]
        return "const", v, r.choice(["%d", "(%d)", "%d // x", "%d /*\n*/", "\\\n%d", "(%d ||\\\n0)"]) % v


def src_case(rng):
    place = rng.choice(["init", "init", "fn", "fn", "inl", "loc"])
    g = Gen(rng, place)
    g.errors = rng.random() < .55
    where = rng.choice(["m.c", "m.c", "m.c", "d/m.c", "./m.c", "<string>"])
    dirn = where[:where.rindex("/") + 1] if "/" in where else ""
    h3 = g.items(rng.randrange(1, 5), [])
    h2 = g.items(rng.randrange(1, 5), [3])
    head = ("extern int printf(const char *, ...);\nstruct M { int l; const char *f; };\nstatic void o(int l, const char *f) { printf(\"%d %s\\n\", l, f); }\n"
            "#define NOTHING(...)\n#define ID(x) x\n#define TWO(a, b)\n#define I2 \"i2.h\"\n#define I3 \"i3.h\"\n")
    mk = {"init": "#define MK {__LINE__,__FILE__}\n#define MKF(x) {__LINE__,__FILE__}\nstatic struct M m[] = {", "loc": "#define MK {__LINE__,__FILE__}\n#define MKF(x) {__LINE__,__FILE__}\nint main(void) { int i; struct M m[] = {",
          "fn": "#define MK o(__LINE__,__FILE__)\n#define MKF(x) o(__LINE__,__FILE__)\nint main(void) {", "inl": "#define MK o(__LINE__,__FILE__)\n#define MKF(x) o(__LINE__,__FILE__)\nstatic inline int all(void) {"}[place]
    tail = {"init": "{0,0}}; int main(void) { int i; for (i = 0; m[i].f; i++) o(m[i].l, m[i].f); return 0; }", "loc": "{0,0}}; for (i = 0; m[i].f; i++) o(m[i].l, m[i].f); return 0; }",
            "fn": "return 0; }", "inl": "return 0; }\nint main(void) { return all(); }"}[place]
    n = rng.choice([1, 2, 3, 4, 6, 9])
    its = [g.item("none", head + mk)] + g.items(n, [] if where == "<string>" else [2, 3]) + [g.item("none", tail)]
    files = [dict(name=where, items=its), dict(name=dirn + "i2.h", items=h2), dict(name=dirn + "i3.h", items=h3)]
    if place != "fn":
        # the compiler looks at these again when the whole is read, and the preprocessor goes on: one error at most
        e = [it for f in files for it in f["items"] if it["k"] == "err"]
        for it in e[1:]:
            it.update(k="none", n=1, b=0, t="", text="")
    eol = "\r\n" if rng.random() < .12 else "\n"
    return dict(files=files, place=place, where=where, eol=eol, cut=[False] + [rng.random() < .3 for _ in range(2)], mode=rng.choice(["run"] * 3 + ["obj", "exe"]))


def chain(o):
    """pattern for the lines that say how a file was reached"""
    return "".join("In file included from %s:(?:%s):\n" % (re.escape(x["f"]), "|".join(str(l) for l in range(x["l"], x["to"] + 1))) for x in o["from"])


def sources(ctx, cjit):
    rng = ctx.rng
    cs = [src_case(rng) for _ in range(9000 if ctx.thorough else 1800)]
    pure = lambda it: {k: it[k] for k in ("k", "n", "b", "v", "c", "fs", "f", "i", "t")}
    for c in cs:
        for f in c["files"]:
            for it in f["items"]:
                if it.get("late"):
                    it["t"] = "late"

    def dirs(c, it):
        """the known finding: a relative name given with #line gets the directory of the file"""
        it, w = pure(it), c["where"]
        if it["fs"] and not it["f"].startswith("/") and "/" in w:
            it["f"] = w[:w.rindex("/") + 1] + it["f"]
        return it
    said = ctx.eval("Lines", [[dict(name=f["name"], items=[pure(i) for i in f["items"]]) for f in c["files"]] for c in cs], "Said")
    other = ctx.eval("Lines", [[dict(name=f["name"], items=[dirs(c, i) for i in f["items"]]) for f in c["files"]] for c in cs], "Said")

    def write(c, d):
        os.makedirs(d + "/d", exist_ok=True)
        for j, f in enumerate(c["files"]):
            t = c["eol"].join(("\n".join(i["text"] for i in f["items"]) + "\n").split("\n"))
            if c["cut"][j] and f["items"][-1]["n"] == 1 and len(t) > 1 and "\\\n" not in f["items"][-1]["text"]:
                t = t[:-len(c["eol"])]
            if f["name"] == "<string>":
                c["stdin"] = t
            else:
                open(os.path.join(d, f["name"]), "w", newline="").write(t)

    def one(j, anyfile=False):
        c, s = j
        d = ctx.dir()
        write(c, d)
        cmd = [cjit, "-q"] + {"run": [], "obj": ["-c", "-o", "x.o"], "exe": ["-o", "x"]}[c["mode"] if c["where"] != "<string>" else "run"]
        isrun = c["mode"] == "run" or c["where"] == "<string>"
        if c["where"] == "<string>":
            r = ctx.run(cmd, cwd=d, stdin=c["stdin"].encode(), timeout=60)
        else:
            r = ctx.run(cmd + [c["where"]], cwd=d, timeout=60)
        if c["mode"] == "exe" and not isrun and r.rc == 0:
            r2 = ctx.run([d + "/x"], cwd=d, timeout=60)
            r.out = r2.out
            isrun = True
        want = "".join("%d %s\n" % (o["l"], o["f"]) for o in s["out"] if o["k"] == "mark") if s["end"] == "ok" and isrun else ""
        if r.out.decode("latin-1") != want:
            return "marks: expected %r, got %r (%r)" % (want[-600:], r.out[-600:].decode("latin-1"), r.err[-300:])
        e = r.err.decode("latin-1")
        msgs = [o for o in s["out"] if o["k"] in ("warn", "err")]
        saved = c["place"] != "fn"
        if saved:      # what the compiler looks at again later is said after what the preprocessor says
            msgs = [o for o in msgs if o["k"] == "err" or o["t"]]
        for o in msgs:
            word = "warning" if o["k"] == "warn" else "error"
            head = chain(o) if not (saved and o["t"] == "late") else ""
            want = "(?m)^" + head + (".*" if anyfile and o["t"] == "late" else re.escape(o["f"])) + re.escape(":%d: %s: " % (o["l"], word))
            x = re.search(want, e) if saved else re.match(want, e)
            if not x:
                return "expected %r, standard error has %r" % (want, e[:500])
            e = e[x.end():]
            i = e.find("\n")
            if o["t"] not in ("", "late") and e[:i].rstrip("\r") != o["t"]:
                return "expected %r after %r, standard error has %r" % (o["t"], want, e[:i])
            e = e[i + 1:]
        ok = s["end"] == "ok"
        if (r.rc == 0) != ok:
            return "exit status %r: %r" % (r.rc, r.err[-300:])
        if ok and "error:" in e:
            return "error without one: %r" % e[:300]
        return None
    js = list(zip(cs, said))
    n = 0
    for (c, s), s2, bad in zip(js, other, ctx.pmap(one, js)):
        if bad:
            bad = one((c, s))
        if bad:
            kind = "line-dir" if s2 != s and not one((c, s2)) else "saved-file" if c["place"] != "fn" and (not one((c, s), True) or not one((c, s2), True)) else "position"
            ctx.violation(kind, "%s: %s" % (c["where"], bad), dict(files={f["name"]: "\n".join(i["text"] for i in f["items"]) for f in c["files"]}, expected=s, mode=c["mode"], place=c["place"], eol=c["eol"], cut=c["cut"]))
        n += 1
    ctx.traces(n)
    ctx.count("sources", n)
    ctx.count("marks", sum(1 for s in said for o in s["out"] if o["k"] == "mark"))
    ctx.count("warnings", sum(1 for s in said for o in s["out"] if o["k"] == "warn"))
    ctx.count("errors", sum(1 for s in said if s["end"] == "err"))
    for c, s in js[:2]:
        ctx.sample(dict(text="\n".join(i["text"] for i in c["files"][0]["items"])[-600:], said=s))


def check(ctx):
    cjit = ctx.build()
    ctx.model("MCMsgs", "CONSTANT N = %d\n" % (4 if ctx.thorough else 2), ["Redirected", "QuietAsked", "Talks", "Terminal", "More", "Errors", "Runs", "NotRun"], extra_cfg="CHECK_DEADLOCK FALSE\n", timeout=900)
    ctx.model("MCLines", "CONSTANT N = %d\n" % (5 if ctx.thorough else 3), ["Counted", "NoLine", "All", "OneGroup", "Back", "From", "End", "Same"], extra_cfg="CHECK_DEADLOCK FALSE\n", timeout=900)
    messages(ctx, cjit)
    ctx.log("messages")
    together(ctx, cjit)
    sources(ctx, cjit)
