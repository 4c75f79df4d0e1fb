"""The reference model with a file system, channels and scripts."""
import os
from . import reader
from .model import *
from .model import _div  # noqa: F401

CHAN = Pair("CHAN", "REM")
PATH_MAX = 4096


class FS:
    """Directories and files by absolute path."""

    def __init__(self, dirs=(), files=None):
        self.dirs = set(dirs)
        self.files = dict(files or {})

    def resolve(self, path, last_may_miss=True):
        """Canonical path, or None. The last component may be missing."""
        if len(path) >= PATH_MAX:
            return None
        parts = [p for p in path.split("/") if p not in ("", ".")]
        if path.endswith("/") or path.endswith("/."):
            raise Discard("trailing slash")
        cur = []
        for i, p in enumerate(parts):
            here = "/" + "/".join(cur)
            if here != "/" and here not in self.dirs:
                if self.real(here):
                    raise Discard("outside of the model")
                return None
            if p == "..":
                cur = cur[:-1]
            else:
                cur.append(p)
        full = "/" + "/".join(cur)
        d = os.path.dirname(full)
        if d not in self.dirs:
            if self.real(d):
                raise Discard("outside of the model")
            return None
        if len(parts[-1]) > 255 if parts else False:
            return None
        return full

    @staticmethod
    def real(p):
        """Directories above the scratch directory are not in the model."""
        return p.count("/") < 2


class Chan:
    def __init__(self, text, cwd):
        self.text, self.cwd = text, cwd
        self.pos = 0
        self.queue = []


class StdinChan(Chan):
    """Takes no more than what is read, every time it is opened."""

    def __init__(self, m, cwd):
        self.m, self.cwd, self.queue = m, cwd, []

    text = property(lambda self: self.m.stdin)
    pos = property(lambda self: self.m.stdin_pos, lambda self, v: setattr(self.m, "stdin_pos", v))


class IOModel(Model):
    """env: dict with HOME, PWD, LIB; stdin text."""

    def __init__(self, fs, pwd, home=None, lib=None, stdin="", fuel=20000, depth=900):
        super().__init__(fuel, depth)
        self.fs, self.pwd, self.home, self.lib = fs, pwd, home, lib
        self.std = {1: [], 2: []}
        self.ostack = [("fd", 1)]
        self.istack = []
        self.stdin = stdin
        self.stdin_used = False
        self.stdin_pos = 0
        self.stats = {}
        for n, (args, fn) in IO.items():
            self.globals[n] = Pair(args, Pair(NIL, Native(n, fn)))

    def note(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def emit(self, s):
        k, w = self.ostack[-1]
        if k == "fd":
            self.std[w].append(s)
        else:
            self.fs.files[w] = self.fs.files.get(w, "") + s

    def path(self, base, p):
        if len(p) >= PATH_MAX:
            self.note("path too long")
            return None
        if len(p) >= PATH_MAX - 2:
            self.note("path of the greatest length")
        if p.startswith("@lib"):
            if self.lib is None:
                raise Discard("no library path")
            # a list of directories: the first that has the file
            for l in self.lib.split(":"):
                q = l + p[4:]
                f = self.fs.resolve(q) if q.startswith("/") else None
                if f in self.fs.files or f in self.fs.dirs:
                    break
            p = q
        elif p.startswith("~"):
            if self.home is None:
                raise Discard("no home")
            p = self.home + p[1:]
        if not p.startswith("/"):
            p = base + "/" + p
        return self.fs.resolve(p)

    # input

    def line(self):
        c = self.istack[-1]
        if c.pos >= len(c.text):
            return None
        j = c.text.find("\n", c.pos)
        j = len(c.text) if j < 0 else j + 1
        s = c.text[c.pos:j]
        c.pos = j
        return s

    def read_value(self):
        c = self.istack[-1]
        if c.queue:
            return c.queue.pop(0)
        buf = ""
        while True:
            l = self.line()
            if l is None:
                if buf.strip(" \t\n"):
                    vs, ok = reader.parse(buf)
                    if vs or not ok:
                        raise Discard("ends inside an expression")
                return None
            buf += l
            vs, ok = reader.parse(buf)
            if ok and vs:
                c.queue = vs[1:]
                return vs[0]

    def load_file(self, p):
        base = self.istack[-1].cwd if self.istack else self.pwd
        full = self.path(base, p)
        if full is None or full not in self.fs.files:
            if full in self.fs.dirs:
                raise Discard("a directory")
            return NIL
        if len(self.istack) > 40:
            raise Discard("nested loads")
        self.note("load")
        self.istack.append(Chan(self.fs.files[full], os.path.dirname(full)))
        r = NIL
        try:
            while True:
                x = self.read_value()
                if x is None:
                    break
                r = self.eval(NIL, x)
        finally:
            self.istack.pop()
        return r


IO = {}


def io(name, args):
    def deco(fn):
        IO[name] = (args, fn)
        return fn
    return deco


def text_of(x):
    s = "".join(chr(c.c) for c in to_py(x))
    if "\0" in s:
        raise Discard("NUL in a path")
    return s


@io("out", CHAN)
def _out(m, e, a):
    c = a["CHAN"]
    if c is NIL:
        ch = ("fd", 1)
    elif is_num(c):
        if not 0 <= c < 2**31:
            if -2**31 <= c:
                return NIL
            raise Discard("large descriptor")
        if c not in (1, 2):
            if c > 900:
                return NIL
            raise Discard("descriptor")
        ch = ("fd", c)
    elif is_pair(c) and is_string(c):
        p = m.path(m.pwd, text_of(c))
        if p is None or p in m.fs.dirs:
            return NIL
        if any(getattr(x, "path", None) == p for x in m.istack):
            raise Discard("writes a file that is open for input")
        ch = ("file", p)
        m.fs.files.setdefault(p, "")
        m.note("out to a file")
        if any(x == ch for x in m.ostack):
            m.note("out to a file that is open already")
    elif isinstance(c, Pair) or not isinstance(c, Native):
        return NIL
    else:
        raise Discard("channel")
    m.ostack.append(ch)
    m.stats["deepest out"] = max(m.stats.get("deepest out", 0), len(m.ostack) - 1)
    try:
        return m.prog(e, a["REM"])
    finally:
        m.ostack.pop()


@io("in", CHAN)
def _in(m, e, a):
    c = a["CHAN"]
    cwd = m.istack[-1].cwd
    if c is NIL or c == 0 and is_num(c):
        if m.stdin_used:
            raise Discard("standard input is the script")
        ch = StdinChan(m, cwd)
        m.note("in from standard input")
    elif is_num(c):
        if -2**31 <= c < 0 or 900 < c < 2**31:
            return NIL
        raise Discard("descriptor")
    elif is_pair(c) and is_string(c):
        p = m.path(cwd, text_of(c))
        if p is None:
            return NIL
        if p in m.fs.dirs:
            raise Discard("a directory")
        if p not in m.fs.files:
            return NIL
        if any(k == "file" and w == p for k, w in m.ostack):
            raise Discard("reads a file that is open for output")
        ch = Chan(m.fs.files[p], cwd)
        ch.path = p
        m.note("in from a file")
    elif isinstance(c, Pair) or not isinstance(c, Native):
        return NIL
    else:
        raise Discard("channel")
    m.istack.append(ch)
    m.stats["deepest in"] = max(m.stats.get("deepest in", 0), len(m.istack))
    try:
        return m.prog(e, a["REM"])
    finally:
        m.istack.pop()


@io("pipe", NIL)
def _pipe(m, e, a):
    # the script has descriptor 3; every other one is closed
    return Pair(4, 5)


@io("read", NIL)
def _read(m, e, a):
    m.note("read")
    x = m.read_value()
    return NIL if x is None else x


@io("readline", NIL)
def _readline(m, e, a):
    m.note("readline")
    l = m.line()
    if l is None:
        return "EOF"
    return string(l[:-1] if l.endswith("\n") else l)


@io("load", "ANY")
def _load(m, e, a):
    x = a["ANY"]
    r = NIL
    while isinstance(x, Pair):
        v = m.eval(e, x.car)
        if is_pair(v) and is_string(v):
            r = m.load_file(text_of(v))
        elif is_sym(v):
            r = m.load_module(v, T)
        elif isinstance(v, Pair) and is_sym(v.car):
            r = m.load_module(v.car, v.cdr)
        else:
            r = NIL
        x = x.cdr
    return r
