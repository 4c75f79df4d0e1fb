from vf import gen, progcheck
from vf.model import *


class P06(progcheck.ProgCheck):
    id = "P06"
    rule = "the program calls a generated function with at least one argument, a rest argument, an unevaluated argument list or too many arguments"
    quick = (8000, 20)
    thorough = (400000, 20)
    assumptions = ["argument names of one function are distinct", "the model evaluates arguments left to right in the caller's environment"]

    def gen(self, t):
        if t.chance(1, 2):
            p = gen.Prog(t, call=8, lam=6, trace=6, partial=0, match=0, cond=0, whl=0)
            return p.program(ndef=3)
        return self.special(t)

    def special(self, t):
        """Every kind of argument list, called every way, with traced arguments."""
        p = gen.Prog(t, trace=6, call=0, match=0, cond=0, whl=0, upd=0)
        k = t.draw(4)
        names = p.fresh(t.range(0, 4))
        rest = None
        if k == 1:
            args = rest = t.choice(["ANY", "@", "v", "REM", "args"])
            names = []
        elif k == 2 and names:
            rest = t.choice([x for x in ("REM", "rest", "@", "zz") if x not in names])
            args = lst(*names, tail=rest)
        else:
            args = lst(*names)
        shown = [lst("print", x) for x in names] + ([lst("print", rest)] if rest else [])
        body = [p.mark()] + shown + [Pair("list", lst(*names, *([rest] if rest else [])))]
        if rest and t.chance(1, 2):
            # the rest is made of expressions: they evaluate in the callee's world
            body.append(lst("eval", lst("car", rest)))
        outer = p.fresh(t.range(0, 3))
        scope = {x: True for x in outer}
        vals = []
        for x in names:
            p.budget = max(p.budget, 6)
            vals.append(lst("prog", p.mark(), p.expr(gen.TYPES[x], scope, 2)))
        if t.chance(1, 4):
            # a string that begins the body is its documentation, if more follows
            body.insert(0, string(t.choice(["", "d", "doc", "\n", "some text"])))
            if t.chance(1, 6):
                del body[1:]
        nfixed = len(vals)
        extra = 0
        if rest:
            extra = t.draw(4)
            for _ in range(extra):
                vals.append(p.expr(t.choice("nlv"), scope, 2))
        elif t.chance(1, 4):
            extra = t.range(1, 3)
            for _ in range(extra):
                vals.append(lst("prog", p.mark(), t.draw(5)))
        how = t.draw(5)
        # an argument list that ends in something else than NIL is not one
        tail = t.choice([t.draw(9), "sy", True]) if vals and t.chance(1, 12) else NIL
        forms = []
        lam = Pair("\\", Pair(args, lst(*body)))
        if how == 0:
            forms.append(Pair("def", Pair("g", Pair(args, lst(*body)))))
            head = "g"
        elif how == 1:
            forms.append(lst("setq", "g", lam))
            head = "g"
        elif how == 2:
            forms.append(lst("setq", "g", quote(Pair(args, Pair(NIL, lst(*body))))))
            head = "g"
        elif how == 3:
            head = lam
        else:
            head = quote(Pair(args, Pair(NIL, lst(*body))))
        call = Pair(head, lst(*vals, tail=tail))
        e = call
        if outer:
            e = Pair("let", Pair(lst(*[Pair(x, p.expr(gen.TYPES[x], {}, 1)) for x in outer]), lst(call)))
        forms.append(lst("printl", e))
        if t.chance(1, 3):
            forms.append(lst("printl", e))
        return forms

    def nontrivial(self, item):
        s = self.show(item)
        return "\\ (" in s or "(def " in s or "(g " in s or "\\ " in s


CHECK = P06()
