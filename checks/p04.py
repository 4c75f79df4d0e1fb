from vf import core, gen, progcheck
from vf.model import *

VARS = ["gn", "gl", "gs", "gd", "ge", "gnil", "gstr"]


class P04(progcheck.ProgCheck):
    id = "P04"
    rule = "a prefix occurs inside a list, next to other elements or nested in another prefix's expression"
    quick = (8000, 20)
    thorough = (338000, 20)
    assumptions = ["the names used by ` and ~ were set on earlier lines", "an atom is spliced only at the end of a list"]
    setup_forms = None

    def datum(self, t, d):
        """Something that may follow a prefix: a parenthesised list, a symbol, a number or a constant."""
        k = t.draw(7)
        if k == 0:
            return gen.num(t)
        if k == 1:
            return t.choice([NIL, T, WILD])
        if k < 4:
            return gen.symbol(t)
        return self.lst(t, d)

    def elem(self, t, d):
        k = t.draw(10)
        if k < 4 or d == 0:
            return gen.value(t, 1, 3)
        if k < 6:
            return self.lst(t, d - 1)
        if k < 7:
            return quote(self.datum(t, d - 1))
        if k < 8:
            return Back(self.code(t, d - 1))
        return Tilde(self.code(t, d - 1, True))

    def code(self, t, d, islist=False):
        """An expression to evaluate at read time."""
        k = t.draw(7)
        ls = ["gl", "ge", "gnil", "gstr"]
        if k == 0:
            return t.choice(ls) if islist else t.choice(VARS)
        if k == 1:
            return lst("cons", t.draw(9), "gl")
        if k == 2:
            return Pair("list", lst(*[t.choice([gen.num(t), t.choice(VARS), quote(self.datum(t, 0))]) for _ in range(t.draw(4))]))
        if k == 3:
            return lst("cdr", "gl") if islist else lst("+", "gn", t.draw(9))
        if k == 4:
            return lst("if", t.choice(["gnil", "gl"]), t.choice(ls), quote(lst("x", "y")))
        if k == 5 and d > 0:
            # a prefix inside the expression of another one
            return Pair("list", lst(t.draw(5), Tilde(t.choice(ls)), Back("gn")))
        return t.choice(ls) if islist else gen.num(t)

    def lst(self, t, d):
        n = t.range(0, 5)
        xs = [self.elem(t, d) for _ in range(n)]
        tail = NIL
        if xs and t.chance(1, 8) and not isinstance(xs[-1], Tilde):
            tail = gen.atom(t)
            if tail is NIL:
                tail = T
        elif xs and t.chance(1, 12):
            xs.append(Tilde(t.choice(["gn", "gd", 5, -5, T])))
        return lst(*xs, tail=tail)

    def gen(self, t):
        forms = [
            lst("setq", "gn", gen.num(t)),
            lst("setq", "gl", quote(gen.plain_list(t, 4) if t.chance(3, 4) else gen.value(t, 2, 4, False))),
            lst("setq", "gs", quote(gen.symbol(t))),
            lst("setq", "gd", quote(lst(1, 2, tail=3))),
            lst("setq", "ge", quote(lst(lst("a", "b"), NIL, lst(NIL)))),
            lst("setq", "gstr", string("str")),
        ]
        forms = [f for f in forms if t.chance(4, 5)]
        for _ in range(t.range(1, 4)):
            k = t.draw(5)
            if k == 0:
                e = quote(self.datum(t, 3))
            elif k == 1:
                e = Back(self.code(t, 2))
                if t.chance(1, 2):
                    e = lst("list", t.draw(9), e, t.draw(9))
            elif k == 2:
                e = lst("list", *[t.choice([t.draw(9), Tilde(t.choice(["gl", "gnil", quote(lst(1, 2)), lst("list", 3, "gn")]))])
                                  for _ in range(t.range(1, 4))]) if False else Pair("list", lst(*[self.safe(t) for _ in range(t.range(1, 5))]))
            else:
                e = quote(self.lst(t, 3))
            if k == 4:
                forms.append(lst("def", "gf", lst("x"), e))
                e = lst("gf", 1)
                forms.append(lst("printl", e))
            forms.append(lst("printl", e))
            # the variable spliced is as it was
            if t.chance(1, 2):
                forms.append(lst("printl", "gl", "ge", "gstr"))
        return forms

    def safe(self, t):
        k = t.draw(4)
        if k == 0:
            return t.draw(9)
        if k == 1:
            return quote(self.datum(t, 1))
        if k == 2:
            return Back(t.choice(["gn", lst("+", 1, 2), "gnil"]))
        return Tilde(t.choice(["gnil", lst("list", 1, 2), lst("list", "gn"), quote(lst(quote("a"), T))]))

    def nontrivial(self, item):
        s = self.show(item)
        return "`" in s or "~" in s or s.count("'") > 6


CHECK = P04()
