"""Generators of values and programs, all driven by a choice tape."""
from .model import *

ALPHA = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
MARKS = "!@$%&*_+-={}[]:;|\\<>?,./"
DIGITS = "0123456789"
I64 = [0, 1, -1, 2, -2, 7, 10, -10, 99, 255, 256, 1000, 65535, 65536, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32,
       2**53, 10**18, -10**18, 2**62, -2**62, 2**63 - 1, -2**63, 2**63 - 2, -2**63 + 1]


def num(t, big=True):
    k = t.draw(8)
    if k < 4 or not big:
        return t.draw(21) - 5 if not big else t.draw(11)
    if k < 6:
        return -t.draw(1000)
    if k == 6:
        return t.choice(I64)
    n = t.draw(1 << t.range(1, 63))
    return n if t.chance(1, 2) else -n


# every native name, also the ones the model does not have
TAKEN = set(NATIVES) | set("in out prin prinl print printl read readline slabinfo time accept close connect dup exec fork listen pipe select unlink wait "
                           "foldl foldr map map2 zip assoc caar cddr cadar caddr cadr cdar last rep truncl load quit quote def run ENV CONFIG ARGV".split())


def symbol_ok(s):
    """Whether the reader takes s as one symbol."""
    if s in ("NIL", "T", "_", "."):
        return False
    if s[0] == "-" and len(s) > 1 and s[1] in DIGITS:
        return False
    if s[0] in DIGITS:
        return False
    return True


def symbol(t, maxlen=16):
    """Symbols of every length up to 16, with marks."""
    while True:
        n = t.weighted([(6, 1), (6, 3), (3, 8), (1, 15), (2, 16)])
        n = min(n if n != 8 else t.range(4, 14), maxlen)
        first = ALPHA + MARKS
        rest = ALPHA + DIGITS + MARKS if t.chance(1, 2) else ALPHA[:26]
        s = (t.choice(first) if t.chance(1, 3) else t.choice(ALPHA[:26])) + "".join(t.choice(rest) for _ in range(n - 1))
        if symbol_ok(s):
            return s
        # a mark that made it something else: fall back to letters
        s = "s" + s[1:]
        if symbol_ok(s):
            return s[:maxlen]


PRINTABLE = [c for c in range(33, 127)]
CHARS = PRINTABLE + [27, 10, 13, 9]


def char(t):
    if t.chance(1, 6):
        return Ch(t.choice([27, 10, 13, 9, 92, 94, 34, 40, 41, 39, 96, 126, 35, 46]))
    return Ch(t.choice(PRINTABLE))


def strval(t, hi=12, plain=False):
    n = t.size(hi)
    if plain:
        return string("".join(t.choice(ALPHA[:26]) for _ in range(n)))
    r = []
    for _ in range(n):
        k = t.draw(10)
        if k < 6:
            r.append(ord(t.choice(ALPHA[:26])))
        elif k < 9:
            r.append(t.choice(list(range(32, 127))))
        else:
            r.append(t.choice([10, 9, 92, 34, 32, 35, 39, 96, 126, 40, 41, 94]))
    return lst(*[Ch(c) for c in r])


def atom(t):
    k = t.draw(9)
    if k == 0:
        return NIL
    if k in (1, 2, 3):
        return num(t)
    if k in (4, 5):
        return symbol(t)
    if k == 6:
        return char(t)
    if k == 7:
        return T
    return t.choice([WILD, T, NIL, 0])


def value(t, depth=3, width=5, wild=True):
    """Any value that can be written in source."""
    k = t.draw(10)
    if depth == 0 or k < 4:
        v = atom(t)
        return v if wild or v is not WILD else T
    if k == 4:
        return strval(t)
    n = t.size(width)
    xs = [value(t, depth - 1, width, wild) for _ in range(n)]
    tail = NIL
    if n and t.chance(1, 6):
        tail = atom(t)
        if not wild and tail is WILD:
            tail = T
    return lst(*xs, tail=tail)


def numlist(t, hi=8, big=False):
    return lst(*[num(t, big) for _ in range(t.size(hi))])


def plain_list(t, hi=8, depth=1):
    return lst(*[value(t, depth, 3, False) for _ in range(t.size(hi))])


def has_quote(x):
    """Whether the value contains the symbol quote at the head of a list (printed as is)."""
    while isinstance(x, Pair):
        if x.car == "quote" or has_quote(x.car):
            return True
        x = x.cdr
    return x == "quote"


# typed programs ------------------------------------------------------------------------------------------------

NN = ["a", "b", "n", "X", "COND", "nn"]       # numbers
LN = ["l", "xs", "REM", "ANY"]                # proper lists
VN = ["v", "w", "C", "Y", "zz"]               # any value
TYPES = {**{x: "n" for x in NN}, **{x: "l" for x in LN}, **{x: "v" for x in VN}}
POOL = {"n": NN, "l": LN, "v": VN}


class Prog:
    """Generates one well-typed program (a list of top-level expressions) whose names carry their type."""
    base = dict(lit=4, var=6, arith=4, trace=3, ife=2, prog=2, let=3, lam=2, call=4, cond=1, match=1, pipe=1, whl=1, andor=1,
                lists=3, upd=1, partial=1, hof=1, evl=1, destr=2)

    def __init__(self, t, budget=40, **weights):
        self.t = t
        self.w = dict(self.base)
        self.w.update(weights)
        self.budget = budget
        self.tag = 0
        self.funs = []        # (name, [types], ret)
        self.used = set()
        self.nfun = 0
        self.globals = {}

    # scopes: dict name -> True
    def names(self, sc, ty):
        return [x for x in POOL[ty] if x in sc]

    def expr(self, ty, sc, d):
        t = self.t
        self.budget -= 1
        if d <= 0 or self.budget <= 0:
            return self.leaf(ty, sc)
        w = self.w
        opts = [(w["lit"], "lit"), (w["var"], "var")]
        if ty == "n":
            opts.append((w["arith"], "arith"))
        if ty == "b":
            opts.append((w["arith"], "cmp"))
        if ty in ("l", "v"):
            opts.append((w["lists"], "lists"))
        opts += [(w[k], k) for k in ("trace", "ife", "prog", "let", "lam", "cond", "match", "pipe", "partial", "hof", "evl", "destr", "upd")]
        if ty in ("b", "v"):
            opts.append((w["andor"], "andor"))
        if ty in ("n", "v"):
            opts.append((w["whl"], "whl"))
        if any(f[2] == ty for f in self.funs):
            opts.append((w["call"], "call"))
        k = t.weighted([o for o in opts if o[0] > 0])
        self.used.add(k)
        return getattr(self, "x_" + k)(ty, sc, d - 1)

    def leaf(self, ty, sc):
        t = self.t
        ns = self.names(sc, ty) if ty != "b" else []
        if ns and t.chance(2, 3):
            return t.choice(ns)
        return self.x_lit(ty, sc, 0)

    def x_lit(self, ty, sc, d):
        t = self.t
        if ty == "n":
            return num(t, t.chance(1, 8)) if t.chance(1, 4) else t.draw(10)
        if ty == "b":
            return t.choice([NIL, T])
        if ty == "l":
            return quote(plain_list(t, 5)) if t.chance(4, 5) else NIL
        k = t.draw(6)
        if k == 0:
            return t.draw(10)
        if k == 1:
            return quote(t.choice(["foo", "bar", "a", "zz", "if"]))
        if k == 2:
            return strval(t, 4, plain=True)
        if k == 3:
            return char(t)
        if k == 4:
            return t.choice([T, NIL])
        return quote(lst(*[value(t, 1, 3) for _ in range(t.range(0, 3))]))

    def x_var(self, ty, sc, d):
        return self.leaf(ty, sc)

    def x_arith(self, ty, sc, d):
        op = self.t.choice(["+", "-", "*", "+", "-"])
        return lst(op, self.expr("n", sc, d), self.expr("n", sc, d))

    def x_cmp(self, ty, sc, d):
        t = self.t
        k = t.draw(3)
        if k < 2:
            return lst(t.choice(["<", "<=", ">", ">=", "=", "<>"]), self.expr("n", sc, d), self.expr("n", sc, d))
        return lst(t.choice(["nil?", "num?", "lst?", "sym?", "str?", "tru?", "chr?", "atm?", "not"]), self.expr("v", sc, d))

    def x_lists(self, ty, sc, d):
        t = self.t
        k = t.draw(6)
        if k == 0:
            return lst("cons", self.expr("v", sc, d), self.expr("l", sc, d))
        if k == 1:
            return Pair("list", lst(*[self.expr(t.choice("nvl"), sc, d) for _ in range(t.range(0, 4))]))
        if k == 2:
            return lst("cdr", self.expr("l", sc, d))
        if k == 3:
            # conc changes its first argument: give it a fresh list
            return lst("conc", Pair("list", lst(*[self.expr("v", sc, d) for _ in range(t.range(1, 3))])), self.expr("l", sc, d))
        if ty == "v":
            return lst("car", self.expr("l", sc, d))
        return lst("cons", self.expr("n", sc, d), self.expr("l", sc, d))

    def mark(self):
        self.tag += 1
        return lst("prin", Pair("quote", "t%d" % self.tag) if self.t.chance(1, 2) else string("<%d>" % self.tag))

    def x_trace(self, ty, sc, d):
        m = self.mark()
        return lst("prog", m, self.expr(ty, sc, d))

    def x_ife(self, ty, sc, d):
        t = self.t
        c = self.expr("b", sc, d)
        k = t.draw(4)
        if k == 3 and ty in ("v", "l"):
            return Pair(t.choice(["when", "unless"]), Pair(c, lst(*([self.mark()] * t.draw(2)), self.expr(ty, sc, d))))
        if k == 2 and ty in ("v", "l"):
            return lst("if", c, self.expr(ty, sc, d))
        return lst("if", c, self.expr(ty, sc, d), self.expr(ty, sc, d))

    def x_prog(self, ty, sc, d):
        t = self.t
        return Pair("prog", lst(*[self.stmt(sc, d) for _ in range(t.draw(3))], self.expr(ty, sc, d)))

    def stmt(self, sc, d):
        t = self.t
        k = t.draw(3)
        if not self.w["upd"] and (k == 2 or not self.w["trace"]):
            return self.expr(t.choice("nvl"), sc, d)
        if k == 0:
            return self.mark()
        if k == 1:
            return lst("print", self.expr(t.choice("nvl"), sc, d))
        return self.x_upd("v", sc, d)

    def x_upd(self, ty, sc, d):
        """An update of a visible name, then the value."""
        t = self.t
        ns = sorted(sc)
        if not ns:
            return self.leaf(ty, sc)
        x = t.choice(ns)
        u = lst("<-", quote(x), self.expr(TYPES[x], sc, d))
        if ty == "v" and TYPES[x] == "v" and t.chance(1, 2):
            return u
        return lst("prog", u, self.expr(ty, sc, d))

    def fresh(self, k, ty=None):
        """k distinct names."""
        t = self.t
        out = []
        for _ in range(k):
            y = ty or t.choice("nnlv")
            c = [x for x in POOL[y] if x not in out]
            if c:
                out.append(t.choice(c))
        return out

    def x_let(self, ty, sc, d):
        t = self.t
        names = self.fresh(t.range(1, 3))
        sc2 = dict(sc)
        bs = []
        for x in names:
            bs.append(Pair(x, self.expr(TYPES[x], sc2, d)))
            sc2[x] = True
        body = [self.stmt(sc2, d) for _ in range(t.draw(2))]
        return Pair("let", Pair(lst(*bs), lst(*body, self.expr(ty, sc2, d))))

    def pattern(self, names):
        """Patterns over names, with a value expression builder: returns (pattern, shape)."""
        t = self.t
        if len(names) == 1 and t.chance(1, 2):
            return names[0], ("leaf", names[0])
        cut = t.range(1, max(1, len(names)))
        heads, rest = names[:cut], names[cut:]
        items, shapes = [], []
        for x in heads:
            if t.chance(1, 6):
                items.append(t.choice([WILD, WILD, 7]))
                shapes.append(("junk",))
            if t.chance(1, 5):
                p, s = self.pattern([x])
                items.append(lst(p))
                shapes.append(("list", [s], None))
            else:
                items.append(x)
                shapes.append(("leaf", x))
        if rest:
            if TYPES[rest[0]] in "lv" and t.chance(1, 2) and len(rest) == 1:
                return lst(*items, tail=rest[0]), ("list", shapes, rest[0])
            p, s = self.pattern(rest)
            if not isinstance(p, Pair):
                p, s = lst(p), ("list", [s], None)
            return lst(*items, p), ("list", shapes + [s], None)
        return lst(*items), ("list", shapes, None)

    def fit(self, shape, sc, d):
        """An expression whose value has the shape."""
        t = self.t
        if shape[0] == "leaf":
            return self.expr(TYPES[shape[1]], sc, d)
        if shape[0] == "junk":
            return self.expr("v", sc, 0)
        xs = [self.fit(s, sc, d) for s in shape[1]]
        if shape[2]:
            rest = [self.expr("v", sc, 0) for _ in range(t.draw(3))]
            xs += rest
        elif t.chance(1, 6):
            xs.append(self.expr("v", sc, 0))
        return Pair("list", lst(*xs))

    def x_destr(self, ty, sc, d):
        t = self.t
        names = self.fresh(t.range(1, 4))
        p, s = self.pattern(names)
        v = self.fit(s, sc, d)
        sc2 = dict(sc)
        for x in names:
            sc2[x] = True
        if t.chance(1, 2):
            return Pair("let", Pair(lst(Pair(p, v)), lst(self.expr(ty, sc2, d))))
        return lst(lst("\\", lst(p), self.expr(ty, sc2, d)), v)

    def lam(self, argtys, ret, sc, d):
        names = []
        for y in argtys:
            c = [x for x in POOL[y] if x not in names]
            names.append(self.t.choice(c))
        sc2 = dict(sc)
        for x in names:
            sc2[x] = True
        body = [self.stmt(sc2, d) for _ in range(self.t.draw(2))]
        return Pair("\\", Pair(lst(*names), lst(*body, self.expr(ret, sc2, d))))

    def argtys(self, lo=0):
        return [self.t.choice("nnlv") for _ in range(self.t.range(lo, 3))]

    def x_lam(self, ty, sc, d):
        tys = self.argtys()
        return Pair(self.lam(tys, ty, sc, d), lst(*[self.expr(y, sc, d) for y in tys]))

    def x_partial(self, ty, sc, d):
        """((f a) b): the arguments in groups."""
        t = self.t
        cands = [f for f in self.funs if f[2] == ty and f[1]]
        if cands and t.chance(1, 2):
            f = t.choice(cands)
            head, tys = f[0], f[1]
        else:
            tys = self.argtys(1)
            head = self.lam(tys, ty, sc, d)
        args = [self.expr(y, sc, d) for y in tys]
        e = head
        i = 0
        while i < len(args):
            k = t.range(1, len(args) - i)
            e = Pair(e, lst(*args[i:i + k]))
            i += k
        return e

    def x_hof(self, ty, sc, d):
        """A function passed to, or returned from, another one."""
        t = self.t
        tys = self.argtys(1)
        f = self.lam(tys, ty, sc, d)
        args = [self.expr(y, sc, d) for y in tys]
        fn = "fn%d" % t.draw(3)
        if t.chance(1, 2):
            return Pair("let", Pair(lst(Pair(fn, f)), lst(Pair(fn, lst(*args)))))
        return lst(lst("\\", lst(fn), Pair(fn, lst(*args))), f)

    def x_evl(self, ty, sc, d):
        return lst("eval", quote(self.expr(ty, sc, d))) if True else None

    def x_pipe(self, ty, sc, d):
        t = self.t
        fs = []
        for _ in range(t.draw(3)):
            fs.append(self.lam([ty if ty != "b" else "v"], ty, sc, d))
        return Pair("|>", Pair(self.expr(ty, sc, d), lst(*fs)))

    def x_andor(self, ty, sc, d):
        t = self.t
        op = t.choice(["and", "or", "not"])
        if op == "not":
            return lst("not", self.expr("b", sc, d))
        return lst(op, self.expr(t.choice("bv"), sc, d), self.expr(t.choice("bv"), sc, d))

    def x_whl(self, ty, sc, d):
        t = self.t
        i = t.choice(NN)
        lim = t.draw(4)
        sc2 = dict(sc)
        sc2[i] = True
        # the body must not touch the counter
        inner = {k: v for k, v in sc.items() if k != i}
        body = [self.stmt(inner, d) for _ in range(t.draw(2))]
        step = lst("<-", quote(i), lst("+", i, 1))
        if t.chance(1, 2):
            body.append(step)
        else:
            # the last value of the body counts, whatever it is
            body[t.draw(len(body) + 1):0] = [step]
            body.append(self.expr("v", sc, 1) if t.chance(1, 2) else lst("if", lst("<", i, t.draw(4)), i, t.choice([NIL, t.draw(9)])))
        loop = Pair("while", Pair(lst("<", i, lim), lst(*body)))
        if ty == "v" and t.chance(1, 3):
            return Pair("let", Pair(lst(Pair(i, 0)), lst(loop)))
        return Pair("let", Pair(lst(Pair(i, 0)), lst(loop, self.expr(ty, sc2, d))))

    def x_cond(self, ty, sc, d):
        t = self.t
        sy = t.choice("nlv")
        clauses = []
        for _ in range(t.draw(4)):
            if sy == "n" and t.chance(1, 2):
                p = lst(t.choice(["=", "<", ">", "<>"]), self.expr("n", sc, 0))
            elif t.chance(1, 4):
                p = self.lam([sy], "b", sc, min(d, 1))
            elif t.chance(1, 3):
                # a predicate whose result is neither T nor NIL selects nothing
                p = self.lam([sy], t.choice("nl"), sc, min(d, 1)) if sy != "n" or t.chance(1, 2) else lst(t.choice("+-"), self.expr("n", sc, 0))
            else:
                p = t.choice(["num?", "lst?", "nil?", "sym?", "str?", "tru?"])
            clauses.append(Pair(p, self.expr(ty, sc, d)))
        if ty in ("n", "b") or t.chance(2, 3):
            clauses.append(Pair(WILD, self.expr(ty, sc, d)))
        return Pair("cond", Pair(self.expr(sy, sc, d), lst(*clauses)))

    def template(self, v, d=3):
        """A template near the value v."""
        t = self.t
        if t.chance(1, 5):
            return WILD
        if isinstance(v, Pair) and d:
            return Pair(self.template(v.car, d - 1), self.template(v.cdr, d))
        if t.chance(1, 6):
            return atom(t)
        return v

    def x_match(self, ty, sc, d):
        t = self.t
        known = t.chance(1, 2)
        if known:
            v = value(t, 2, 3)
            subj = quote(v)
        else:
            subj = self.expr(t.choice("nlv"), sc, d)
            v = value(t, 1, 3)
        clauses = []
        for _ in range(t.draw(4)):
            tpl = self.template(v) if t.chance(3, 4) else value(t, 1, 2)
            clauses.append(Pair(tpl, self.expr(ty, sc, d)))
        if ty in ("n", "b") or t.chance(2, 3):
            clauses.append(Pair(WILD, self.expr(ty, sc, d)))
        return Pair("match", Pair(subj, lst(*clauses)))

    def x_call(self, ty, sc, d):
        f = self.t.choice([f for f in self.funs if f[2] == ty])
        return Pair(f[0], lst(*[self.expr(y, sc, d) for y in f[1]]))

    def define(self, prefix="f", d=3):
        """A top-level definition, by def, setq of a lambda, or quoted."""
        t = self.t
        tys = self.argtys()
        ret = t.choice("nlvb")
        name = "%s%d" % (prefix, self.nfun)
        self.nfun += 1
        l = self.lam(tys, ret, {}, d)
        args, body = l.cdr.car, l.cdr.cdr
        k = t.draw(4)
        if k < 2:
            doc = [strval(t, 5, True)] if t.chance(1, 4) else []
            if doc and doc[0] is NIL:
                doc = []
            e = Pair("def", Pair(name, Pair(args, from_py(doc, tail=body))))
        elif k == 2:
            e = lst("setq", name, l)
        else:
            e = lst("setq", name, quote(Pair(args, Pair(NIL, body))))
        self.funs.append((name, tys, ret))
        return e

    def program(self, ndef=2, nexpr=3, depth=4):
        t = self.t
        forms = []
        for _ in range(t.draw(ndef + 1)):
            self.budget += 12
            forms.append(self.define(d=3))
        for _ in range(t.range(1, nexpr)):
            self.budget += 15
            forms.append(lst("printl", self.expr(t.choice("nlvb"), {}, depth)))
        return forms


def build(t, v, d=6):
    """An expression whose value is v, put together in some way or other."""
    k = t.draw(6)
    if isinstance(v, Pair):
        if d == 0 or k == 0:
            return quote(v)
        xs = to_py(v)
        p = v
        while isinstance(p, Pair):
            p = p.cdr
        if is_string(v) and k == 1 and all(32 <= c.c < 127 for c in xs):
            return v
        if k in (1, 2) and p is NIL and len(xs) <= 12:
            return Pair("list", lst(*[build(t, x, d - 1) for x in xs]))
        if k == 3 and len(xs) > 1 and p is NIL:
            j = t.range(1, len(xs) - 1)
            return lst("conc", Pair("list", lst(*[build(t, x, d - 1) for x in xs[:j]])), build(t, lst(*xs[j:]), d - 1))
        if k == 4:
            return lst("cdr", lst("cons", t.draw(5), build(t, v, d - 1)))
        return lst("cons", build(t, v.car, d - 1), build(t, v.cdr, d - 1))
    if isinstance(v, str):
        if k == 0 and all(32 < ord(c) < 127 for c in v):
            return lst("sym", string(v))
        return quote(v)
    if isinstance(v, Ch):
        return lst("chr", v.c) if k < 2 else v
    if isinstance(v, int):
        if k == 0:
            a = t.draw(1000)
            return lst("+", wrap(v - a), a)
        if k == 1:
            return lst("car", quote(lst(v)))
        return v
    if v is T:
        return lst("=", 1, 1) if k == 0 else T
    if v is NIL:
        return t.choice([NIL, lst("=", 1, 2), lst("cdr", quote(lst(1))), Pair("list", NIL), lst("car", 5)]) if k == 0 else NIL
    return v


def mutate(t, v):
    """The value with one place changed (it may come out equal)."""
    if isinstance(v, Pair):
        k = t.draw(8)
        if k < 3:
            return Pair(mutate(t, v.car), v.cdr)
        if k < 6:
            return Pair(v.car, mutate(t, v.cdr))
        if k == 6:
            return v.cdr
        return Pair(atom(t), v)
    k = t.draw(6)
    if isinstance(v, int) and k < 4:
        return wrap(v + t.choice([1, -1, 1 << 32, 256, 1 << 63, 1 << 8, 1 << 16]))
    if isinstance(v, int) and k == 4 and 33 <= v < 127:
        return Ch(v)
    if isinstance(v, Ch):
        return v.c if k < 3 else Ch(33 + (v.c - 32) % 94)
    if isinstance(v, str) and k < 5:
        i = t.draw(len(v))
        w = v[:i] + ("a" if v[i] != "a" else "b") + v[i + 1:]
        if k == 0 and len(v) < 16:
            w = v + "a"
        if k == 1 and len(v) > 1:
            w = v[:-1]
        return w if symbol_ok(w) else v
    return atom(t)
