"""Specifications of the library functions, written from their documentation, and a generator of calls. A node is a pair
(form, ev): the expression and a function that computes its value with a Model (which holds the side effects)."""
from . import gen
from .model import *

LIB = {}     # name -> entry


class Entry:
    def __init__(self, name, ret, args, spec, file, module=None, curry=True, weight=2, pre=None):
        self.name, self.ret, self.args, self.spec, self.file, self.module = name, ret, args, spec, file, module
        self.curry, self.weight, self.pre = curry, weight, pre


def entry(name, ret, args, file, module=None, curry=True, weight=2, key=None, pre=None):
    def deco(fn):
        LIB[key or name] = Entry(name, ret, args, fn, file, module, curry, weight, pre)
        return fn
    return deco


def ap(m, f, *vals):
    """Calls the function value f."""
    return m.eval(NIL, Pair(f, lst(*[Pair("quote", v) for v in vals]))) if isinstance(f, str) else m.apply(NIL, f, lst(*[Pair("quote", v) for v in vals]))


def proper(x):
    while isinstance(x, Pair):
        x = x.cdr
    return x is NIL


def truthy(x):
    return x is not NIL


# types: n number, ln list of numbers, v value, lv list of values, s string, ls list of non-empty strings, al association list,
# f1n: number -> number, f1v: value -> value, p1n: number -> truth, p1v, f2n: number number -> number, f2v, ...

@entry("map", "lv", ["f1v", "lv"], "iterators", "iterators")
def _map(m, f, l):
    return from_py([ap(m, f, e) for e in to_py(l)])


@entry("map", "ln", ["f1n", "ln"], "iterators", "iterators", key="map/n")
def _mapn(m, f, l):
    return _map(m, f, l)


@entry("map2", "lv", ["f2v", "lv", "lv"], "iterators", "iterators")
def _map2(m, f, a, b):
    return from_py([ap(m, f, x, y) for x, y in zip(to_py(a), to_py(b))])


@entry("map2", "ln", ["f2n", "ln", "ln"], "iterators", "iterators", key="map2/n")
def _map2n(m, f, a, b):
    return _map2(m, f, a, b)


@entry("zip", "al", ["lk", "lv"], "iterators", "iterators")
def _zip(m, a, b):
    return from_py([Pair(x, y) for x, y in zip(to_py(a), to_py(b))])


@entry("foldl", "n", ["f2n", "n", "ln"], "iterators", "iterators", key="foldl/n")
def _foldln(m, f, acc, l):
    for e in to_py(l):
        acc = ap(m, f, acc, e)
    return acc


@entry("foldr", "n", ["f2n", "ln", "n"], "iterators", "iterators", key="foldr/n")
def _foldrn(m, f, l, acc):
    for e in reversed(to_py(l)):
        acc = ap(m, f, e, acc)
    return acc


@entry("foldl", "v", ["f2v", "v", "lv"], "iterators", "iterators")
def _foldl(m, f, acc, l):
    return _foldln(m, f, acc, l)


@entry("foldr", "v", ["f2v", "lv", "v"], "iterators", "iterators")
def _foldr(m, f, l, acc):
    return _foldrn(m, f, l, acc)


@entry("iter", "v", ["f1v", "lv"], "iter")
def _iter(m, f, l):
    r = NIL
    for e in to_py(l):
        r = ap(m, f, e)
    return r


@entry("iter2", "v", ["f2v", "lv", "lv"], "iter2")
def _iter2(m, f, a, b):
    r = NIL
    for x, y in zip(to_py(a), to_py(b)):
        r = ap(m, f, x, y)
    return r


@entry("filter", "lv", ["p1v", "lv"], "filter")
def _filter(m, f, l):
    return from_py([e for e in to_py(l) if not truthy(ap(m, f, e))])


@entry("filter", "ln", ["p1n", "ln"], "filter", key="filter/n")
def _filtern(m, f, l):
    return _filter(m, f, l)


@entry("flatten", "lv", ["tree"], "flatten")
def _flatten(m, l):
    def go(x):
        if isinstance(x, Pair):
            return [y for e in to_py(x) for y in go(e)]
        return [x]
    return from_py(go(l))


@entry("append", "lv", ["lv", "lv*"], "append", curry=False)
def _append(m, *ls):
    return from_py([e for l in ls for e in to_py(l)])


@entry("$+", "lv", ["lv", "lv"], "append")
def _dplus(m, a, b):
    return from_py(to_py(a) + to_py(b))


@entry("rev", "lv", ["lv"], "rev")
def _rev(m, l):
    return from_py(to_py(l)[::-1])


@entry("rev", "ln", ["ln"], "rev", key="rev/n")
def _revn(m, l):
    return _rev(m, l)


@entry("last", "v", ["lv"], "last")
def _last(m, l):
    return (to_py(l) or [NIL])[-1]


@entry("has", "b", ["lv", "v"], "has")
def _has(m, l, x):
    return T if any(equ(e, x) for e in to_py(l)) else NIL


@entry("rep", "lv", ["small", "v"], "manips", "manips")
def _rep(m, n, v):
    return from_py([v] * max(0, n))


@entry("truncl", "lv", ["upto", "lv"], "manips", "manips")
def _truncl(m, n, l):
    return from_py(to_py(l)[:max(0, n)])


@entry("truncr", "lv", ["upto", "lv"], "truncr")
def _truncr(m, n, l):
    xs = to_py(l)
    return from_py(xs[len(xs) - max(0, n):])


@entry("<|>", "v", ["v", "v"], "orelse", weight=1)
def _orelse(m, a, b):
    return a if truthy(a) else b


for _n, _p in [("caar", "aa"), ("cadr", "ad"), ("cdar", "da"), ("cddr", "dd"), ("cadar", "ada"), ("caddr", "add"), ("cadddr", "addd")]:
    def _mk(p):
        def spec(m, x):
            for c in reversed(p):
                x = car(x) if c == "a" else cdr(x)
            return x
        return spec
    LIB[_n] = Entry(_n, "v", ["deep"], _mk(_p), "manips", "manips", weight=1)


@entry("insert", "ln", ["cmpn", "n", "sorted"], "insert")
def _insert(m, f, a, l):
    xs = to_py(l)
    i = 0
    while i < len(xs) and not truthy(ap(m, f, a, xs[i])):
        i += 1
    return from_py(xs[:i] + [a] + xs[i:])


def _less(m, f, x, y):
    return truthy(ap(m, f, x, y))


@entry("isort", "ln", ["ltn", "ln"], "isort", weight=3)
def _isort(m, f, l):
    r = []
    for e in to_py(l):
        i = len(r)
        while i > 0 and _less(m, f, e, r[i - 1]):
            i -= 1
        r.insert(i, e)
    return from_py(r)


@entry("isort", "lv", ["ltk", "lkey"], "isort", key="isort/key")
def _isortk(m, f, l):
    """Stable: elements with equal keys keep their order."""
    return _isort(m, f, l)


@entry("dedup", "lv", ["dcmp", "lk"], "dedup", weight=3)
def _dedup(m, f, l):
    acc = []
    for e in reversed(to_py(l)):
        if not acc:
            acc = [e]
            continue
        r = ap(m, f, e, acc[0])
        c, v = car(r), cdr(r)
        acc = {"APPEND": [v] + acc, "REPLACE": [v] + acc[1:], "SKIP": acc}[c]
    return from_py(acc)


@entry("merge", "ln", ["dedn", "insn", "ln", "sorted"], "merge")
def _merge(m, ded, ins, a, b):
    acc = b
    for e in to_py(a):
        acc = ap(m, ins, e, acc)
    return ap(m, ded, acc)


# strings and association lists

@entry("split", "ls", ["sfields", "sep"], "split", weight=4)
def _split(m, s, c):
    out, cur = [], []
    for x in to_py(s) + [None]:
        if x is None or equ(x, c):
            if cur:
                out.append(from_py(cur))
            cur = []
        else:
            cur.append(x)
    return from_py(out)


@entry("join", "s", ["ls1", "sep"], "join", weight=3)
def _join(m, l, c):
    r = []
    for i, s in enumerate(to_py(l)):
        r += ([c] if i else []) + to_py(s)
    return from_py(r)


WS = (32, 9, 10, 13)


def _ws(x):
    return isinstance(x, Ch) and x.c in WS


@entry("triml", "s", ["spaced"], "trim")
def _triml(m, s):
    xs = to_py(s)
    while xs and _ws(xs[0]):
        xs = xs[1:]
    return from_py(xs)


@entry("trimr", "s", ["spaced"], "trim")
def _trimr(m, s):
    xs = to_py(s)
    while xs and _ws(xs[-1]):
        xs = xs[:-1]
    return from_py(xs)


@entry("trim", "s", ["spaced"], "trim")
def _trim(m, s):
    return _trimr(m, _triml(m, s))


@entry("whitespace?", "b", ["char"], "trim", weight=1)
def _wsp(m, c):
    return T if _ws(c) else NIL


@entry("ntoa", "s", ["bign"], "ntoa")
def _ntoa(m, n):
    return string(str(n))


@entry("aton", "n", ["digits"], "aton")
def _aton(m, s):
    return int("".join(chr(c.c) for c in to_py(s)) or "0")


@entry("strlt", "b", ["s", "s2"], "strlt", weight=4)
def _strlt(m, a, b):
    return T if [c.c for c in to_py(a)] < [c.c for c in to_py(b)] else NIL


@entry("assoc", "v", ["key", "al"], "manips", "manips", weight=3)
def _assoc(m, k, l):
    for e in to_py(l):
        if equ(car(e), k):
            return cdr(e)
    return NIL


@entry("erase", "al", ["key", "al"], "erase", weight=3)
def _erase(m, k, l):
    return from_py([e for e in to_py(l) if not equ(car(e), k)])


@entry("replc", "al", ["key", "v", "al"], "replc", weight=3)
def _replc(m, k, v, l):
    return from_py([Pair(k, v) if equ(car(e), k) else e for e in to_py(l)])


@entry("$+", "s", ["s", "s"], "append", key="$+/s")
def _splus(m, a, b):
    return from_py(to_py(a) + to_py(b))


def esc(code, s):
    return from_py([Ch(27)] + to_py(string("[" + code + "m")) + to_py(s) + [Ch(27)] + to_py(string("[0m")))


@entry("term:esc", "s", ["code", "s"], "term")
def _esc(m, c, s):
    return esc("".join(chr(x.c) for x in to_py(c)), s)


for _n, _c in [("bold", "1"), ("italic", "3"), ("underlined", "4"), ("black", "0;30"), ("red", "0;31"), ("green", "0;32"), ("blue", "0;34"),
               ("purple", "0;35"), ("cyan", "0;36"), ("normal", "0"), ("white", "1;37"), ("red+", "1;31"), ("gray-", "1;30"), ("yellow", "1;33")]:
    LIB["term:" + _n] = Entry("term:" + _n, "s", ["s"], (lambda c: lambda m, s: esc(c, s))(_c), "term", weight=1)


@entry("term:left", "s", ["width", "s"], "term")
def _tleft(m, n, s):
    xs = to_py(s)
    return from_py(xs[:n] + [Ch(32)] * (n - len(xs)))


@entry("term:right", "s", ["width", "s"], "term")
def _tright(m, n, s):
    xs = to_py(s)
    return from_py([Ch(32)] * (n - len(xs)) + xs[max(0, len(xs) - n):])


LISTS = ["map", "map/n", "map2", "map2/n", "zip", "foldl", "foldl/n", "foldr", "foldr/n", "iter", "iter2", "filter", "filter/n", "flatten", "append",
         "$+", "rev", "rev/n", "last", "has", "rep", "truncl", "truncr", "<|>", "caar", "cadr", "cdar", "cddr", "cadar", "caddr", "cadddr", "insert",
         "isort", "isort/key", "dedup", "merge"]
STRINGS = ["split", "join", "triml", "trimr", "trim", "whitespace?", "ntoa", "aton", "strlt", "assoc", "erase", "replc", "$+/s", "zip"] + \
          [k for k in LIB if k.startswith("term:")]

JUNK = ["lst", "fun", "acc", "e", "cur", "nxt", "LST", "E", "elt", "val", "cmd", "k", "v", "hd", "tl", "rslt", "tail", "chr1", "end", "beg", "LESS"]


class Gen:
    """Generates one call (with nested calls as arguments)."""

    def __init__(self, t, names, effects=True, big=False):
        self.t = t
        self.names = names
        self.pre = []           # (form) run first
        self.vars = []          # (name, value)
        self.files = set()
        self.used = []
        self.effects = effects
        self.big = big
        self.budget = 4

    def bind(self, v):
        """A value, inline or in a global variable."""
        t = self.t
        if len(self.vars) < 6 and t.chance(1, 2) and v is not NIL:
            n = "g%d" % len(self.vars)
            self.vars.append((n, v))
            self.pre.append(lst("setq", n, gen.build(t, v, 2) if not self.big else quote(v)))
            return n, (lambda m: v)
        return quote(v), (lambda m: v)

    def fun(self, form):
        t = self.t
        if isinstance(form, Pair) and form.car == "\\" and t.chance(1, 3):
            n = "gf%d" % len(self.pre)
            self.pre.append(Pair("def", Pair(n, form.cdr)) if t.chance(1, 2) else lst("setq", n, form))
            return n, (lambda m, n=n: m.eval(NIL, n))
        return form, (lambda m: m.eval(NIL, form))

    def lam(self, tys, ret, pure):
        w = dict(trace=0, upd=0) if pure or not self.effects else dict(upd=0)
        p = gen.Prog(self.t, 14, evl=0, **w)
        return p.lam(tys, ret, {}, 2)

    def call(self, key):
        t = self.t
        e = LIB[key]
        self.files.add(e.file)
        self.used.append(e.name)
        self.budget -= 1
        args = []
        self.last = {}
        if key in ("foldl", "foldr"):
            f, l, a = self.folder(key)
            args = [f, a, l] if key == "foldl" else [f, l, a]
        elif e.args[0] in ("upto",):
            l = self.arg(e.args[1])
            n = t.draw(self.length(l) + 1) if not t.chance(1, 8) else -t.draw(3)
            args = [self.bind(n), l]
        elif key == "merge":
            args = self.merger()
        elif key == "insert":
            c = self.t.choice(["<", ">", "<=", ">="])
            xs = sorted([gen.num(t, False) for _ in range(t.size(8))], reverse=c[0] == ">")
            args = [self.fun(self.rel(c)), self.arg("n"), self.bind(lst(*xs))]
        elif e.name in ("assoc", "erase", "replc"):
            al = self.arg("al")
            keys = [car(x) for x in to_py(al[1](Model(20000)))] if not self.has_calls(al) else []
            k = t.choice(keys) if keys and t.chance(3, 4) else self.keyv()
            args = [self.bind(k)] + ([self.arg("v")] if key == "replc" else []) + [al]
        else:
            for a in e.args:
                if a.endswith("*"):
                    args += [self.arg(a[:-1]) for _ in range(t.size(3))]
                else:
                    args.append(self.arg(a))
        forms = [a[0] for a in args]
        evs = [a[1] for a in args]
        style = t.draw(6) if e.curry and len(args) > 1 else 0
        if style == 4:
            k = t.range(1, len(args) - 1)
            return Pair(Pair(e.name, lst(*forms[:k])), lst(*forms[k:])), (lambda m: e.spec(m, *[v(m) for v in evs]))
        if style == 5:
            def ev(m):
                x = evs[-1](m)
                return e.spec(m, *[v(m) for v in evs[:-1]], x)
            return lst("|>", forms[-1], Pair(e.name, lst(*forms[:-1]))), ev
        return Pair(e.name, lst(*forms)), (lambda m: e.spec(m, *[v(m) for v in evs]))

    @staticmethod
    def has_calls(a):
        return isinstance(a[0], Pair) and a[0].car != "quote"

    def length(self, a):
        try:
            m = Model(20000)
            for f in self.pre:
                m.top(f)
            return len(to_py(a[1](m)))
        except Discard:
            return 0

    def nested(self, ty):
        """A library call giving this type."""
        if self.budget <= 0 or self.big or not self.t.chance(1, 4):
            return None
        want = {"ln": ("ln",), "lv": ("lv", "ln", "al", "ls", "s"), "s": ("s",), "v": ("v", "n", "lv", "b"), "n": ("n",), "al": ("al",), "ls": ("ls",)}.get(ty)
        if not want:
            return None
        c = [k for k in self.names if LIB[k].ret in want]
        return self.call(self.t.choice(c)) if c else None

    def keyv(self):
        t = self.t
        k = t.draw(6)
        return [t.draw(6), t.choice("abcxyz"), string(t.choice(["a", "b", "ab", "key"])), Ch("k"), lst(1, "a"), t.choice([NIL, T])][k]

    def rel(self, c):
        t = self.t
        if t.chance(1, 2):
            return c
        return Pair("\\", lst(lst("x", "lst"), lst(c, "x", "lst")))

    def n(self, hi):
        return self.t.size(hi) if not self.big else self.t.range(500, 2500)

    def arg(self, ty):
        t = self.t
        x = self.nested(ty)
        if x:
            return x
        if ty == "n":
            return self.bind(gen.num(t, t.chance(1, 4)))
        if ty == "bign":
            return self.bind(t.choice(gen.I64) if t.chance(1, 3) else gen.num(t))
        if ty == "small":
            return self.bind(t.size(12) if not self.big else t.range(500, 2500))
        if ty == "width":
            return self.bind(t.size(20))
        if ty == "ln":
            return self.bind(lst(*[gen.num(t, False) if not self.big else t.draw(100) for _ in range(self.n(12))]))
        if ty == "sorted":
            return self.bind(lst(*sorted(gen.num(t, False) for _ in range(t.size(10)))))
        if ty == "lv":
            return self.bind(lst(*[gen.value(t, 2, 3, False) if not self.big else t.draw(100) for _ in range(self.n(12))]))
        if ty == "lk":
            return self.bind(lst(*[self.keyv() for _ in range(self.n(8) if not self.big else t.range(50, 300))]))
        if ty == "v":
            return self.bind(gen.value(t, 2, 3, False))
        if ty == "key":
            return self.bind(self.keyv())
        if ty == "al":
            return self.bind(lst(*[Pair(self.keyv(), gen.value(t, 1, 3, False)) for _ in range(t.size(8))]))
        if ty == "tree":
            def tree(d):
                xs = []
                for _ in range(t.range(1, 5)):
                    xs.append(tree(d - 1) if d and t.chance(1, 3) else gen.atom(t))
                return lst(*[T if x is WILD else x for x in xs])
            return self.bind(tree(4) if not t.chance(1, 8) else t.choice([5, "sym", T, Ch("c")]))
        if ty == "deep":
            return self.bind(gen.value(t, 4, 4, False))
        if ty == "lkey":
            return self.bind(lst(*[Pair(t.draw(4), i) for i in range(t.size(12))]))
        if ty == "s":
            return self.bind(gen.strval(t, 16))
        if ty == "s2":
            # often related to the previous string
            vs = [v for _, v in self.vars if is_string(v)]
            if vs and t.chance(2, 3):
                xs = to_py(t.choice(vs))
                k = t.draw(4)
                xs = xs or [Ch("q")]
                xs = [xs, xs[:t.draw(len(xs) + 1)], xs + [Ch(t.choice("am z"))], xs[:-1] + [Ch(33 + (xs[-1].c - 32) % 94)]][k]
                return self.bind(from_py(xs))
            return self.bind(gen.strval(t, 8))
        if ty == "sfields":
            sep = t.choice([44, 32, 47, 10, 46])
            self.last["sep"] = sep
            return self.bind(lst(*[Ch(sep) if t.chance(1, 3) else Ch(t.choice("abc,/. x")) for _ in range(t.size(16))]))
        if ty == "sep":
            if "sep" in self.last:
                return self.bind(Ch(self.last["sep"]))
            return self.bind(Ch(t.choice([44, 32, 47, 10, 46])))
        if ty == "ls1":
            # join: at least one string; empty ones are allowed
            return self.bind(lst(*[gen.strval(t, 5) for _ in range(t.range(1, 5))]))
        if ty == "ls":
            return self.bind(lst(*[gen.strval(t, 5) for _ in range(t.range(1, 5))]))
        if ty == "spaced":
            def sp():
                return [Ch(t.choice([32, 9, 10, 13])) for _ in range(t.size(4))]
            return self.bind(from_py(sp() + to_py(gen.strval(t, 6)) + sp()))
        if ty == "char":
            return self.bind(Ch(t.choice([32, 9, 10, 13, 27, 48, 65, 95, 33, 126, 46, 110])))
        if ty == "digits":
            return self.bind(string("".join(t.choice("0123456789") for _ in range(t.range(0, 18)))))
        if ty == "code":
            return self.bind(string(t.choice(["1", "0;31", "38;5;200", "", "7"])))
        # functions
        if ty == "f1n":
            k = t.draw(6)
            return self.fun([lst("+", t.draw(9)), lst("-", t.draw(9)), lst("*", t.draw(5))][k] if k < 3 else self.lam("n", "n", False))
        if ty == "f1v":
            k = t.draw(9)
            fs = [lst("cons", quote(t.choice("abk"))), "list", "car", "nil?", "lst?", "num?", lst("cons", 1)]
            return self.fun(fs[k]) if k < 7 else self.fun(self.lam("v", t.choice("vnlb"), False))
        if ty == "p1n":
            k = t.draw(6)
            fs = [lst("<", t.draw(5)), lst(">", t.draw(5)), lst("=", t.draw(4))]
            return self.fun(fs[k]) if k < 3 else self.fun(self.lam("n", "b", True))
        if ty == "p1v":
            k = t.draw(9)
            fs = ["nil?", "lst?", "num?", "sym?", "chr?", lst("=", quote(self.keyv()))]
            return self.fun(fs[k]) if k < 6 else self.fun(self.lam("v", "b", True))
        if ty == "f2n":
            k = t.draw(8)
            fs = ["+", "-", "*", Pair("\\", lst(lst("acc", "lst"), lst("+", lst("*", 3, "acc"), "lst")))]
            return self.fun(fs[k]) if k < 4 else self.fun(self.lam("nn", "n", False))
        if ty == "f2v":
            k = t.draw(6)
            fs = ["cons", "list", "=", Pair("\\", lst(lst("fun", "e"), lst("list", "e", "fun")))]
            return self.fun(fs[k]) if k < 4 else self.fun(self.lam("vv", t.choice("vnlb"), False))
        if ty == "cmpn":
            return self.fun(self.rel(t.choice(["<", ">", "<=", ">="])))
        if ty == "ltn":
            return self.fun(self.rel(t.choice(["<", ">"])))
        if ty == "ltk":
            return self.fun(Pair("\\", lst(lst("x", "E"), lst(t.choice(["<", ">"]), lst("car", "x"), lst("car", "E")))))
        if ty == "dcmp":
            # (cmp element head) gives (COMMAND . value)
            cmds = [t.choice(["APPEND", "REPLACE", "SKIP"]) for _ in range(2)]
            vals = [t.choice(["elt", "acc", lst("cons", "elt", "acc")]) for _ in range(2)]
            c = lambda i: lst("cons", quote(cmds[i]), vals[i])
            return self.fun(Pair("\\", lst(lst("elt", "acc"), lst("if", lst("=", "elt", "acc"), c(0), c(1)))))
        raise KeyError(ty)

    def folder(self, key):
        """Function, list and start value for the folds over any values."""
        t = self.t
        k = t.draw(5)
        l = self.arg("lv")
        swap = key == "foldr"
        if k == 0:
            f = Pair("\\", lst(lst("acc", "e"), lst("cons", "e", "acc"))) if not swap else "cons"
        elif k == 1:
            f = "list"
        elif k == 2:
            f = "cons"
        elif k == 3:
            f = Pair("\\", lst(lst("x", "lst"), lst("prinl", "x", "lst"), lst("list", "lst", "x")))
        else:
            f = self.lam("vv", "v", False)
        return self.fun(f), l, self.arg("v")

    def merger(self):
        t = self.t
        c = t.choice(["<", "<="])
        rule = t.draw(3)
        cmp = Pair("\\", lst(lst("x", "y"), lst("if", lst("=", "x", "y"), quote(Pair("SKIP", NIL)) if rule == 0 else lst("cons", quote("REPLACE"), "x"),
                                                lst("cons", quote("APPEND"), "x"))))
        self.files |= {"dedup", "insert"}
        dspec = lambda m, l: _dedup(m, m.eval(NIL, cmp), l)
        a, b = self.arg("ln"), self.bind(lst(*sorted(gen.num(t, False) for _ in range(t.size(8)))))
        if t.chance(1, 3):
            ident = Pair("\\", lst(lst("x"), "x"))
            ded = (ident, lambda m: None)
            dspec = lambda m, l: l
        elif t.chance(1, 2):
            ded = (lst("dedup", cmp), None)
        else:
            ded = (Pair("\\", lst(lst("lst"), lst("dedup", cmp, "lst"))), None)
        ins = (lst("insert", c), None) if t.chance(1, 2) else (Pair("\\", lst(lst("x", "l"), lst("insert", c, "x", "l"))), None)

        class Fn:
            pass
        # the spec calls Python functions here
        dfn, ifn = Fn(), Fn()
        dfn.call = lambda m, l: dspec(m, l)
        ifn.call = lambda m, x, l: _insert(m, m.eval(NIL, c), x, l)
        return [(ded[0], lambda m: dfn), (ins[0], lambda m: ifn), a, b]


_ap = ap


def ap(m, f, *vals):   # noqa: F811
    if hasattr(f, "call"):
        return f.call(m, *vals)
    return _ap(m, f, *vals)


def make(t, names, effects=True, big=False):
    """One case: dict(pre, call, vars, expect, files, used) or None if it leaves the domain."""
    weights = [(LIB[k].weight, k) for k in names]
    key = t.weighted(weights)
    # the sorting functions are quadratic
    g = Gen(t, names, effects, big and key not in ("merge", "isort", "isort/key", "insert"))
    try:
        form, ev = g.call(key)
        m = Model(60000 if not big else 10**7, 900)
        for f in g.pre:
            m.top(f)
        m.out = []
        v = ev(m)
        m.emit(show(v) + "\n")
        for n, x in g.vars:
            m.emit(show(x) + "\n")
        expect = m.text()
    except (Discard, RecursionError):
        return dict(key=key, pre=[], call=lst("prinl", "key"), vars=[], expect=None, files=[], used=[])
    return dict(key=key, pre=[src(f) for f in g.pre], call=src(form), vars=[n for n, _ in g.vars], expect=expect, files=sorted(g.files), used=g.used)
