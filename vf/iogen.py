"""Generators of histories of input and output operations, run by vf.iomodel and by the interpreter."""
import os, re, shutil, zlib
from . import core, gen, layout
from .iomodel import FS, IOModel
from .model import *

ROOT = "<R>"
DIRS = ["", "/w", "/w/sub", "/w/sub/deep", "/home", "/lib"]
NAMES = ["f1", "f2", "g.txt", "a b", "x-y_z", "f12"]
PAD = re.compile(r"<P(\d+)>")


def stretch(t, p):
    """The path, to be padded to a length around the longest the system takes."""
    m = 4096 - t.choice([0, 1, 1, 1, 2, 3, -1, -2, -60, t.range(0, 120), t.range(0, 60)])
    i = p.rindex("/") if "/" in p else -1
    return p[:i] + "<P%d>" % m + p[i:] if i >= 0 else "<P%d>/" % m + p


def place(text, root):
    """Puts the scratch directory and the paddings into a text."""
    text = text.replace(ROOT, root)

    def pad(m):
        s = m.group()
        n = int(PAD.search(s).group(1))
        a, b = PAD.split(s[1:-1])[::2]
        full = a + b if a.startswith("/") else root + "/home" + a[1:] + b if a.startswith("~") else root + "/lib" + a[4:] + b if a.startswith("@lib") else root + "/w/" + a + b
        k = n - len(full)
        if not a:
            a, k = ".", k - 1
        return '"' + a + "/" * (k % 2) + "/." * (k // 2) + b + '"'
    return re.sub(r'"[^"\n]*<P\d+>[^"\n]*"', pad, text)

EXTRA_FUNS = """
(def cpl () (let ((l . (readline))) (if (= l 'EOF) 'done (prog (prinl l) (cpl)))))
(def cpv (n) (if (> n 0) (prog (printl (read)) (cpv (- n 1))) 'done))
(def tee (p x) (out p (printl x)) x)
(def nest (p n) (if (> n 0) (out p (prinl n) (nest p (- n 1))) 'bottom))
(def tail (p n) (out p (print n)) (if (> n 0) (tail p (- n 1)) n))
(def say (x) (prinl "say " x) x)
"""


def body(t):
    """Text of a data file: lines of text, values, or both."""
    k = t.draw(6)
    if k == 0:
        return ""
    lines = []
    n = t.size(10)
    if t.chance(1, 25):
        n = t.range(20, 120)
    for _ in range(n):
        k = t.draw(8)
        if k < 3:
            vs = [gen.value(t, t.draw(3), 4) for _ in range(t.size(4))]
            lines.append(" ".join(src(v) for v in vs) if t.chance(1, 2) else layout.text(t, vs, t.chance(1, 2), False).rstrip("\n") if vs else "")
        elif k == 3:
            lines.append("")
        elif k == 4:
            lines.append("# " + gen.ALPHA[:t.draw(20)])
        elif k == 5:
            lines.append("".join(chr(t.range(32, 126)) for _ in range(t.size(40))))
        elif k == 6:
            m = t.choice([1, 5, 63, 127, 128, 129, 1023, 1024, 1025, 4096, 5000])
            lines.append("".join(gen.ALPHA[(i * 7 + m) % 26] for i in range(m)))
        else:
            lines.append(t.choice(["EOF", "NIL", "  indented", "trailing  ", "\ttab", "T", "\u00e9\u00ff", "\x01\x7f", "cr\r", "nul\0in it", "\0"]))
    s = "\n".join(lines)
    if t.chance(2, 3):
        s += "\n"
    return s


class Gen:
    def __init__(self, t, ins, outs, budget=30):
        self.t = t
        self.ins, self.outs = ins, outs
        self.budget = budget
        self.scripts = []

    def path(self, out):
        t = self.t
        p = self.short_path()
        if t.chance(1, 40):
            p = stretch(t, p)
        return p

    def short_path(self):
        t = self.t
        n = t.choice(NAMES)
        k = t.draw(16)
        if k < 8:
            return n
        return ["./" + n, "sub/" + n, "../w/" + n, "sub/../" + n, ROOT + "/w/" + n, "~/" + n, "@lib/" + n, t.choice(["nodir/" + n, "../" + n, "sub", "q" * 300])][k - 8]

    def chan(self, out):
        t = self.t
        k = t.draw(24)
        if not out and t.chance(1, 6):
            return t.choice([NIL, 0])
        if k < 20:
            p = string(self.path(out))
            return p if t.chance(4, 5) else lst("conc", p, quote(NIL))
        if k == 20:
            return NIL
        if k == 21:
            return t.choice([1, 2]) if out else 0
        return t.choice([-1, 999, 12345, quote("sym"), T, Ch(97), quote(lst(1, 2)), quote(lst(Ch(97), 2))])

    def value(self):
        t = self.t
        if t.chance(1, 12):
            m = t.choice([100, 127, 128, 129, 255, 256, 1023, 1024, 1025, 4095, 4096, 4097, 9000])
            if t.chance(1, 2):
                return string("".join(gen.ALPHA[(i * 5) % 26] for i in range(m)))
            return lst(*[(i * 37) % 1000 for i in range(m // 4)])
        return gen.value(t, 2, 4)

    def datum(self):
        v = self.value()
        return quote(v)

    def print_(self, d):
        t = self.t
        n = t.size(4)
        return lst(t.choice(["prin", "prinl", "print", "printl"]), *[self.arg(d) for _ in range(n)])

    def arg(self, d):
        t = self.t
        k = t.draw(8)
        if k < 4 or d <= 0:
            return self.datum() if t.chance(3, 4) else string("".join(t.choice("abc \n\t\"\\") for _ in range(t.size(8))))
        if k < 6 and self.ins:
            return lst(t.choice(["read", "readline"]))
        return self.stmt(d - 1)

    def block(self, d, hi=4):
        return [self.stmt(d) for _ in range(self.t.size(hi) + (1 if self.t.chance(5, 6) else 0))]

    def stmt(self, d):
        t = self.t
        self.budget -= 1
        if d <= 0 or self.budget < 0:
            return self.leaf(d)
        opts = [(6, "leaf"), (6 * self.outs, "out"), (6 * self.ins, "in"), (2, "prog"), (2, "while"), (3, "call"), (1, "if"), (1, "let"), (1, "partial")]
        k = t.weighted([o for o in opts if o[0]])
        if k == "leaf":
            return self.leaf(d)
        if k == "out":
            return lst("out", self.chan(True), *self.block(d - 1))
        if k == "in":
            return lst("in", self.chan(False), *self.block(d - 1))
        if k == "prog":
            return lst("prog", *self.block(d - 1))
        if k == "while":
            n = t.range(1, 4)
            b = self.block(d - 1, 2)
            if t.chance(1, 40):
                # more rounds than there are descriptors
                n = 450
                b = [t.choice([lst("in", string(self.path(False)), lst("readline")), lst("tee", string(self.path(True)), "n"), lst("in", string("f1"), lst("read"))])]
            return lst("let", lst(Pair("n", n)), lst("while", lst(">", "n", 0), *b, lst("<-", quote("n"), lst("-", "n", 1))))
        if k == "if":
            return lst("if", self.stmt(d - 1), self.stmt(d - 1), self.stmt(d - 1))
        if k == "let":
            return lst("let", lst(Pair("p", self.stmt(d - 1))), *self.block(d - 1, 2), "p")
        if k == "partial":
            f = t.choice((["in"] if self.ins else []) + (["out"] if self.outs else []))
            return lst(lst(f, self.chan(f == "out")), *self.block(d - 1, 2))
        return self.call(d - 1)

    def call(self, d):
        t = self.t
        opts = []
        if self.ins:
            opts += ["cpl", "cpv"]
        if self.outs:
            opts += ["tee", "nest", "tail"]
        opts.append("say")
        f = t.choice(opts)
        n = t.range(0, 6)
        if f == "cpl":
            return lst("cpl")
        if f == "cpv":
            return lst("cpv", n)
        if f == "tee":
            return lst("tee", string(self.path(True)), self.arg(d))
        if f in ("nest", "tail"):
            return lst(f, string(t.choice(NAMES)), n if not t.chance(1, 20) else 60)
        return lst("say", self.arg(d))

    def leaf(self, d):
        t = self.t
        if self.ins and t.chance(1, 2):
            return lst(t.choice(["printl", "prinl", "prin"]), *[lst(t.choice(["read", "readline"])) for _ in range(t.range(1, 3))])
        return self.print_(min(d, 1))


def item(t, ins, outs):
    files = {}
    for n in NAMES:
        for d in ("/w", "/w/sub", "/home", "/lib"):
            if t.chance(1, 2 if d == "/w" else 6) and (ins or t.chance(1, 4)):
                files[d + "/" + n] = body(t)
    sdir = t.choice(["/w", "/w", "/w/sub", "/home"])
    g = Gen(t, ins, outs)
    forms = []
    for _ in range(t.range(1, 6)):
        s = g.stmt(4)
        forms.append(lst("printl", s) if t.chance(1, 2) else s)
    lines = []
    for f in forms:
        lines.append(src(f))
        if ins and t.chance(1, 6):
            # the script is an input channel too
            lines.append(t.choice(["(printl (readline))\nplain text", "(printl (read))\n(1 2 3)", "(printl (read)) foo 5", "(prinl (readline) (readline))\nx\n\n"]))
    # the last line tells which descriptors are free in the end
    text = "(load 'std 'io 'logic 'math '(unix pipe))" + EXTRA_FUNS + "\n".join(lines) + "\n(printl (pipe))\nT\n"
    return dict(files=files, script=sdir + "/t.l", text=text, stdin=body(t) if ins and t.chance(3, 4) else "", pipe=t.chance(2, 3))


def expected(it, root, fuel=20000):
    """The model's run; raises Discard."""
    base = root
    dirs = {"/"}
    d = root
    while d != "/":
        dirs.add(d)
        d = os.path.dirname(d)
    dirs |= {root + x for x in DIRS}
    files = {root + p: place(s, root) for p, s in it["files"].items()}
    files[root + it["script"]] = place(it["text"], root)
    m = IOModel(FS(dirs, files), base + "/w", base + "/home", base + "/lib", it["stdin"], fuel)
    m.load_module = lambda n, s: T
    m.result = m.load_file(root + it["script"])
    for p in m.fs.files:
        if not p.startswith(root + "/") or ROOT in p:
            raise Discard("outside of the scratch directory")
    return m


def where(it, root, moves=True):
    """PWD and the working directory of a run: relative names start at PWD, and at the working directory when PWD tells nothing."""
    k = zlib.crc32(it["text"].encode("latin-1")) % 12
    pwd = None if k == 0 else "/" + "x" * 4999 if k == 1 else root + "/w"
    return pwd, root if k == 2 and moves else root + "/w"


def opts(it):
    """Every other run is made with the leak check, which ends it with another status when a cell is not given back."""
    return ["-d"] if zlib.crc32(it["text"].encode("latin-1")) & 64 else []


def run(it, variant="dbg", keep=(), extra=None, **kw):
    """(result, files after) of the interpreter's run."""
    root = core.scratch() + "/io"
    shutil.rmtree(root, ignore_errors=True)
    for d in DIRS:
        os.makedirs(root + d, exist_ok=True)
    os.makedirs(root + "/home/.mnml")
    for p, s in list(it["files"].items()) + [(it["script"], it["text"])]:
        with open(root + p, "wb") as f:
            f.write(place(s, root).encode("latin-1"))
    pwd, cwd = where(it, root)
    env = core.base_env({"PWD": pwd, "HOME": root + "/home", "MNML_SCRIPT_PATH": root + "/lib", **(extra or {})})
    res = core.run_cmd([core.mnml(variant), *opts(it), root + it["script"]], stdin=it["stdin"].encode("latin-1"), pipe=it["pipe"] and len(it["stdin"]) < 50000, env=env, cwd=cwd, **kw)
    got = {}
    for dp, dn, fn in os.walk(root):
        for f in fn:
            p = os.path.join(dp, f)
            with open(p, "rb") as h:
                got[p] = h.read().decode("latin-1")
    return res, got


class IOCheck(core.Check):
    variants = ("dbg", "asan")
    ins = outs = 1

    def gen(self, t):
        return item(t, self.ins, self.outs)

    def show(self, it):
        return {"script": it["text"].split(EXTRA_FUNS)[-1], "at": it["script"], "files": {k: v[:200] for k, v in it["files"].items()}, "stdin": it["stdin"][:200]}

    def run(self, items):
        n = {"executed": 0, "left_out_of_domain": 0}
        for j, it in enumerate(items):
            root = core.scratch() + "/io"
            try:
                m = expected(it, root)
            except (Discard, RecursionError) as e:
                n["left_out_of_domain"] += 1
                continue
            n["executed"] += 1
            for k, v in m.stats.items():
                if not k.startswith("deepest"):
                    n[k] = n.get(k, 0) + v
                elif v > 2:
                    n[k + " over 2"] = n.get(k + " over 2", 0) + 1
            res, files = run(it, "asan" if j == 0 else "dbg")
            self.compare(it, m, res, files, root)
        return n

    def compare(self, it, m, res, files, root):
        def bad(what, want, got):
            i = 0
            while i < min(len(want or ""), len(got or "")) and want[i] == got[i]:
                i += 1
            raise core.Fail("%s (%s)" % (what, res.status()), script=it["text"].split(EXTRA_FUNS)[-1], at=it["script"], files=it["files"], stdin=it["stdin"],
                            first_difference=i, expected=(want or "")[max(0, i - 200):i + 300] if want is not None else None,
                            got=(got or "")[max(0, i - 200):i + 300] if got is not None else None)
        out = "".join(m.std[1])
        if res.out.decode("latin-1") != out:
            bad("standard output differs from the model", out, res.out.decode("latin-1"))
        if res.hang or res.rc != (255 if m.result is NIL else 0):
            bad("did not reach its end", "", "")
        if res.err[:60000].decode("latin-1") != "".join(m.std[2])[:60000]:
            bad("standard error differs from the model", "".join(m.std[2]), res.err.decode("latin-1"))
        want = m.fs.files
        for p in sorted(set(want) | set(files)):
            if want.get(p) != files.get(p):
                bad("the file %s differs from the model" % p[len(root):], want.get(p), files.get(p))
