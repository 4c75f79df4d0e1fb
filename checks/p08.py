from vf import gen, progcheck
from vf.model import *


class Scoped(gen.Prog):
    """Functions whose bodies use names bound globally, by their callers or not at all."""

    def define(self, prefix="f", d=3):
        t = self.t
        tys = self.argtys()
        ret = t.choice("nlvb")
        name = "%s%d" % (prefix, self.nfun)
        self.nfun += 1
        l = self.lam(tys, ret, dict(self.genv), d)
        args, body = l.cdr.car, l.cdr.cdr
        e = Pair("def", Pair(name, Pair(args, body))) if t.chance(2, 3) else lst("setq", name, l)
        self.funs.append((name, tys, ret))
        return e


class P08(progcheck.ProgCheck):
    id = "P08"
    rule = "a name is bound in at least two nested places, or updated, or captured by a lambda that is called elsewhere"
    quick = (5000, 20)
    thorough = (400000, 20)
    assumptions = ["the names of one let or one argument list are distinct",
                   "no function rebinds its own name (documented as undefined)"]

    def gen(self, t):
        p = Scoped(t, budget=30, let=6, lam=4, hof=3, upd=5, var=9, destr=2, lit=2, call=6, match=0, cond=0, lists=2, arith=3, andor=0, evl=1)
        forms = []
        p.genv = {x: True for x in gen.VN + gen.LN if t.chance(1, 2)}
        for x in gen.NN:
            if t.chance(1, 2):
                forms.append(lst("setq", x, t.draw(50)))
                p.genv[x] = True
        for x in sorted(p.genv):
            if gen.TYPES[x] != "n" and t.chance(1, 2):
                forms.append(lst("setq", x, p.x_lit(gen.TYPES[x], {}, 0)))
        for _ in range(t.draw(3)):
            p.budget += 10
            forms.append(p.define(d=3))
        # closures kept and called elsewhere
        for i in range(t.draw(3)):
            p.budget += 10
            tys = p.argtys()
            ret = t.choice("nlv")
            names = p.fresh(t.range(1, 2))
            sc = dict(p.genv)
            bs = []
            for x in names:
                bs.append(Pair(x, p.expr(gen.TYPES[x], sc, 1)))
                sc[x] = True
            l = p.lam(tys, ret, sc, 3)
            forms.append(lst("setq", "k%d" % i, Pair("let", Pair(lst(*bs), lst(l)))))
            p.funs.append(("k%d" % i, tys, ret))
        for _ in range(t.range(1, 4)):
            p.budget += 15
            forms.append(lst("printl", p.expr(t.choice("nlvb"), dict(p.genv), 4)))
        if t.chance(1, 2):
            names = sorted(p.genv)
            forms.append(Pair("printl", lst(*names)))
        return forms

    def nontrivial(self, item):
        s = self.show(item)
        return s.count("(let ") + s.count("(\\ ") + s.count("(<- ") >= 2


CHECK = P08()
