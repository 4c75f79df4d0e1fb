"""Programs that need not make sense: any function with any number of arguments of any kind. They stay within what has a defined
outcome: no cyclic structure, no data called as machine code, no endless loop."""
from .model import *
from . import gen

N1 = ["car", "cdr", "len", "nil?", "tru?", "num?", "chr?", "sym?", "str?", "lst?", "atm?", "not", "str", "sym", "chr", "eval-q"]
N2 = ["+", "-", "*", "%", "/", "<", "<=", ">", ">=", "=", "<>", "and", "cons", "or"]
NV = ["list", "prog", "prin", "prinl", "print", "printl", "quote", "if", "when", "unless", "cond", "match", "let", "\\", "|>", "while-n", "conc", "def", "setq",
      "<-", "in", "out", "read", "slabinfo", "load"]
NAMES = ["a", "b", "X", "Y", "ANY", "COND", "REM", "zz", "NAME", "C"]


INPUT = b"(1 2 . c) \"string\" ^c\n\n'(a (b)) # comment\n(x\n y) 12 ) bad\n(unfinished \"list"


def prepare(d):
    """The file that programs read."""
    with open(d + "/input.txt", "wb") as f:
        f.write(INPUT)


class Wild:
    def __init__(self, t, budget=30, globs=("ga", "gb", "gc"), io=True, strict=False):
        self.t, self.budget, self.globs, self.io = t, budget, list(globs), io
        self.strict = strict      # arithmetic on numbers only: on other values it yields something derived from addresses
        self.noload = False

    def lit(self):
        t = self.t
        k = t.draw(8)
        if k == 0:
            return NIL
        if k == 1:
            return gen.num(t)
        if k == 2:
            return gen.char(t)
        if k == 3:
            return gen.strval(t, 4, True)
        if k == 4:
            return T
        if k == 5:
            return quote(gen.symbol(t))
        return quote(gen.value(t, 2, 3))

    def expr(self, sc, d, lam=True):
        """lam: whether the value may be a function made here (an update with one could make a cycle)."""
        t = self.t
        self.budget -= 1
        if d <= 0 or self.budget <= 0 or t.chance(1, 4):
            k = t.draw(8)
            if k < 4:
                return self.lit()
            if k < 6 and sc:
                return t.choice(sc)
            if k == 6:
                return t.choice(self.globs)
            return t.choice(["car", "if", "prog", "+", "cons", "undefined-name", "list"])
        k = t.draw(10)
        if k < 3:
            return self.call(t.choice(N1), t.weighted([(8, 1), (1, 0), (1, 2)]), sc, d, lam)
        if k < 6:
            return self.call(t.choice(N2), t.weighted([(8, 2), (2, 1), (1, 0), (1, 3)]), sc, d, lam)
        return self.form(sc, d, lam)

    def args(self, n, sc, d, lam):
        return lst(*[self.expr(sc, d - 1, lam) for _ in range(n)])

    def divisor(self, e):
        return e

    def call(self, f, n, sc, d, lam):
        t = self.t
        if f == "eval-q":
            return lst("eval", quote(self.expr(sc, d - 1, lam)))
        if f == "chr" and self.strict:
            return lst(f, t.range(32, 126))
        if f == "str" and self.strict:
            return lst(f, quote(gen.symbol(t)))
        if self.strict and f in ("+", "-", "*", "/", "%", "<", "<=", ">", ">="):
            a = [gen.num(t), t.choice([1, -1, 2, 7, -13, 1 << 40])][:n]
            return Pair(f, lst(*a))
        if f in ("/", "%"):
            # a literal divisor: division by zero is not defined
            a = [self.expr(sc, d - 1, lam), t.choice([1, -1, 2, 7, -13, 1 << 40])][:n if n < 2 else 2]
            return Pair(f, lst(*a))
        e = Pair(f, self.args(n, sc, d, lam))
        if n == 1 and f in N2 and t.chance(1, 2):
            return Pair(e, lst(self.expr(sc, d - 1, lam)))
        if f == "cons" and t.chance(1, 30):
            return Pair(f, lst(1, tail=2))
        return e

    def fun(self, sc, d, lam):
        t = self.t
        if not lam or t.chance(1, 2):
            return t.choice(["car", "cdr", "not", "list", "num?", "lst?", "nil?", "len", "cons", "prin", "quote"])
        return self.lam(sc, d, lam)

    def pattern(self, names, d=2):
        t = self.t
        k = t.draw(6)
        if d == 0 or k < 4:
            c = [x for x in NAMES if x not in names]
            if c and t.chance(7, 8):
                x = t.choice(c)
                names.append(x)
                return x
            return t.choice([WILD, NIL, 4])
        n = t.range(1, 3)
        return lst(*[self.pattern(names, d - 1) for _ in range(n)], tail=self.pattern(names, 0) if t.chance(1, 4) else NIL)

    def lam(self, sc, d, lam):
        t = self.t
        names = []
        k = t.draw(8)
        if k == 0:
            names = ["ANY"]
            args = "ANY"
        elif k == 1:
            args = lst(self.pattern(names), tail=self.pattern(names, 0))
            if not isinstance(args.cdr, str):
                args = lst(args.car)
        else:
            args = lst(*[self.pattern(names) for _ in range(t.draw(4))])
        sc2 = sc + names
        return Pair("\\", Pair(args, lst(*[self.expr(sc2, d - 1, lam) for _ in range(t.range(1, 2))])))

    def form(self, sc, d, lam):
        t = self.t
        f = t.choice(NV)
        E = lambda: self.expr(sc, d - 1, lam)
        if f == "cond":
            cl = [Pair(t.choice([WILD, "num?", "lst?", lst("=", E()), "not", self.fun(sc, d - 1, lam)]), E()) for _ in range(t.draw(4))]
            if t.chance(1, 10):
                cl.append(5)
            return Pair(f, Pair(E(), lst(*cl)))
        if f == "match":
            cl = [Pair(gen.value(t, 2, 2), E()) for _ in range(t.draw(4))]
            if t.chance(1, 10):
                cl.append(5)
            return Pair(f, Pair(E(), lst(*cl)))
        if f == "let":
            names, bs = [], []
            sc2 = list(sc)
            for _ in range(t.draw(4)):
                n0 = list(names)
                p = self.pattern(names)
                bs.append(Pair(p, self.expr(sc2, d - 1, lam)))
                sc2 = sc2 + [x for x in names if x not in n0]
            return Pair(f, Pair(lst(*bs), lst(*[self.expr(sc2, d - 1, lam) for _ in range(t.draw(3))])))
        if f == "\\":
            l = self.lam(sc, d, lam)
            if lam and t.chance(1, 3):
                return l
            return Pair(l, lst(*[E() for _ in range(t.draw(4))]))
        if f == "|>":
            return Pair(f, Pair(E(), lst(*[self.fun(sc, d - 1, lam) for _ in range(t.draw(3))])))
        if f == "while-n":
            c = [x for x in NAMES if x not in sc]
            if not c:
                return E()
            i = c[0]
            body = [E() for _ in range(t.draw(2))]
            return lst("let", lst(Pair(i, t.range(1, 3))), Pair("while", Pair(lst(">", i, 0), lst(*body, lst("<-", quote(i), lst("-", i, 1))))))
        if f == "conc":
            return lst(f, t.choice([Pair("list", self.args(t.draw(3), sc, d, lam)), 5, NIL, lst("cons", E(), NIL)]), E())
        if f == "def":
            k = t.draw(6)
            if k == 0:
                return lst(f, t.choice([5, NIL, lst("x"), T]), lst("a"), "a")
            if k == 1:
                return lst(f, "wf%d" % t.draw(3), t.choice([4, NIL]), 1)
            names = []
            a = lst(*[self.pattern(names, 1) for _ in range(t.draw(3))])
            body = [self.expr(names, d - 1, lam) for _ in range(t.draw(3))]
            if t.chance(1, 4):
                body = [string("doc")] + body
            return Pair(f, Pair("wf%d" % t.draw(3), Pair(a, lst(*body))))
        if f == "setq":
            return Pair(f, t.choice([lst("wv%d" % t.draw(3), E()), lst("wv%d" % t.draw(3)), lst(5, E()), NIL, lst(quote("x"), E())]))
        if f == "<-":
            tgt = [x for x in sc] or ["nowhere"]
            v = self.expr(sc, d - 1, False)
            return Pair(f, t.choice([lst(quote(t.choice(tgt)), v), lst(quote(t.choice(tgt)), v), lst(quote("nowhere"), v), lst(5, v), lst(quote(t.choice(tgt)))]))
        if f in ("in", "out"):
            if not self.io:
                return E()
            ch = t.choice([string("wild.txt"), string("wild.txt"), string("nofile/x"), lst("sym", string("x")), quote(lst(1)), lst("list", 1, quote("a")), 77,
                           string("")])
            return Pair(f, Pair(ch, lst(*[E() for _ in range(t.draw(3))])))
        if f == "read":
            return Pair("in", Pair(string("input.txt"), lst(*[lst(t.choice(["read", "readline"])) for _ in range(t.draw(5))]))) if self.io else E()
        if f == "slabinfo":
            return lst("cdr", quote(lst(1)))
        if f == "load":
            if self.noload:
                return E()
            return Pair("load", lst(t.choice([quote("std"), quote(lst("std", "car")), quote("nomodule"), quote(lst("std", "nosymbol")), 5, string("nofile.l"), NIL,
                                              quote(lst("nomodule", "x")), string("@lib/rev.l"), quote(lst("math", "+", "-"))])))
        if f == "quote":
            return quote(gen.value(t, 2, 3))
        n = t.draw(4)
        return Pair(f, self.args(n, sc, d, lam))
