from vf import gen, progcheck
from vf.model import *


class P10(progcheck.ProgCheck):
    id = "P10"
    rule = "the match has at least two clauses, and a template that contains a list or _"
    quick = (12000, 20)
    thorough = (400000, 20)

    def gen(self, t):
        p = gen.Prog(t, budget=12, match=4, trace=4, lam=1, hof=0, partial=0, whl=0, evl=0, upd=1)
        v = gen.value(t, 3, 4)
        subj = quote(v)
        k = t.draw(5)
        sc = {}
        wrapv = None
        if k == 1:
            nm = t.choice(gen.VN + ["ANY", "C", "X"])
            wrapv = nm
            subj = nm
        elif k == 2:
            subj = lst("prog", p.mark(), quote(v))
        elif k == 3:
            subj = p.expr(t.choice("nlv"), {}, 2)
        clauses = []
        for i in range(t.range(0, 5)):
            if t.chance(1, 12):
                tpl = WILD
            elif t.chance(1, 3):
                tpl = v if t.chance(1, 2) else self.mutate(t, v)
            else:
                tpl = p.template(v, 4)
            pr = lst("prog", p.mark(), p.expr(t.choice("nlv"), {}, 2)) if t.chance(2, 3) else (wrapv or p.expr("v", {}, 1))
            clauses.append(Pair(tpl, pr))
        e = Pair("match", Pair(subj, lst(*clauses)))
        if wrapv:
            if t.chance(1, 2):
                e = Pair("let", Pair(lst(Pair(wrapv, quote(v))), lst(e)))
            else:
                e = lst(lst("\\", lst(wrapv), e), quote(v))
        forms = []
        if t.chance(1, 4):
            forms.append(lst("def", "g", lst("q"), e))
            forms.append(lst("printl", lst("g", 1)))
            forms.append(lst("printl", lst("g", 2)))
        else:
            forms.append(lst("printl", e))
        return forms

    def mutate(self, t, v):
        """The value with one place changed."""
        if isinstance(v, Pair):
            if t.chance(1, 3):
                return Pair(self.mutate(t, v.car), v.cdr)
            if t.chance(3, 4):
                return Pair(v.car, self.mutate(t, v.cdr))
            return v.cdr
        k = t.draw(4)
        if k == 0:
            return WILD
        if k == 1 and isinstance(v, int):
            return wrap(v + t.choice([1, -1, 1 << 32, 256]))
        if k == 2 and isinstance(v, Ch):
            return v.c
        if k == 2 and is_sym(v):
            return v[:-1] + ("a" if v[-1] != "a" else "b")
        return gen.atom(t)

    def nontrivial(self, item):
        s = self.show(item)
        return s.count(" . ") + s.count("(prog") >= 2


CHECK = P10()
