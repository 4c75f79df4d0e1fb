from vf import core, gen, progcheck
from vf.model import *

PREDS = ["nil?", "tru?", "num?", "chr?", "sym?", "str?", "lst?", "atm?"]


class P18(progcheck.ProgCheck):
    id = "P18"
    rule = "two values are compared that are lists or differ in one place only"
    quick = (8000, 20)
    thorough = (400000, 20)

    def gen(self, t):
        k = t.draw(10)
        if k == 0:
            v = lst(*[gen.value(t, 1, 3) for _ in range(t.size(60))])
        elif k == 1:
            v = gen.strval(t, 40)
        elif k == 2:
            v = gen.symbol(t)
        else:
            v = gen.value(t, 4, 4)
        k = t.draw(4)
        if k == 0:
            w = v
        elif k < 3:
            w = gen.mutate(t, v)
        else:
            w = gen.value(t, 2, 3)
        a, b = gen.build(t, v), gen.build(t, w)
        forms = []
        how = t.draw(3)
        if how == 0:
            forms += [lst("setq", "a", a), lst("setq", "b", b)]
            if v is NIL or w is NIL:
                a, b = quote(v), quote(w)
            else:
                a, b = "a", "b"
        elif how == 1:
            forms.append(lst("def", "cmp", lst("a", "b"), lst("list", lst("=", "a", "b"), lst("<>", "a", "b"))))
            forms.append(lst("printl", lst("cmp", a, b)))
        forms.append(lst("printl", lst("=", a, b), lst("<>", a, b), lst("=", b, a), lst("<>", b, a), lst("=", a, a), lst("<>", b, b)))
        forms.append(Pair("printl", lst(*[lst(p, a) for p in PREDS])))
        if t.chance(1, 2):
            x = t.choice([a, b, NIL, T, lst("=", a, b), 0])
            y = t.choice([a, b, NIL, T, lst("<>", a, b)])
            forms.append(lst("printl", lst("and", x, y), lst("or", x, y), lst("not", x), lst("not", lst("or", x, y))))
        if how == 2 and isinstance(v, Pair):
            forms.append(lst("printl", lst("=", lst("car", a), lst("car", b)), lst("=", lst("cdr", a), lst("cdr", b))))
        return forms

    def nontrivial(self, item):
        return len(self.show(item)) > 120


CHECK = P18()
