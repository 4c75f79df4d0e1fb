from vf import core, gen, progcheck
from vf.model import *


class P19(progcheck.ProgCheck):
    id = "P19"
    rule = "a primitive is applied to a list, a string or a value of another kind than it expects"
    quick = (20000, 20)
    thorough = (400000, 20)
    assumptions = ["str is given symbols, chr codes from 1 to 255 (other kinds are not documented)", "conc never gets a list that shares its last cell"]

    def gen(self, t):
        v = gen.value(t, 3, 4, t.chance(1, 2)) if t.chance(3, 4) else gen.plain_list(t, 30, 1)
        w = gen.value(t, 2, 3)
        if v is NIL:
            v = lst(1, 2)
        forms = [lst("setq", "a", gen.build(t, v)), lst("setq", "b", gen.build(t, w) if w is not NIL else quote(lst(NIL)))]
        n = t.range(1, 4)
        for _ in range(n):
            k = t.draw(13)
            x = t.choice(["a", "b", "a"])
            y = t.choice(["b", "a", NIL, 4, quote(lst(1, 2, tail=3))])
            if k == 0:
                e = lst("cons", x, y)
            elif k == 1:
                e = lst(t.choice(["car", "cdr"]), x)
            elif k == 2:
                e = lst("car", lst("cdr", lst(t.choice(["car", "cdr"]), x)))
            elif k == 3:
                e = lst("len", t.choice([x, lst("cdr", x), lst("car", x), gen.atom(t) if t.chance(1, 2) else NIL]))
                if is_sym(e.cdr.car) and e.cdr.car not in ("a", "b"):
                    e = lst("len", quote(e.cdr.car))
            elif k == 4:
                # on a fresh copy: the original stays
                dotted = lst("cons", t.draw(9), t.choice([7, T, quote("s"), Ch("c"), x, "b"]))
                if t.chance(1, 2):
                    dotted = lst("cons", x, dotted)
                e = lst("conc", t.choice([Pair("list", lst(1, x)), lst("cons", x, NIL), NIL, 5, lst("list", x, y), lst("cons", 1, t.choice([2, T, Ch("c"), quote("s")])),
                                          lst("cons", x, lst("cons", y, t.choice([2, T, Ch("c"), quote("s")])))]), t.choice([y, y, dotted, NIL]))
            elif k == 5:
                # on a variable: it changes, and whoever shares it sees that
                forms.append(lst("setq", "c", t.choice([lst("list", 1, x, 3), lst("list", x), lst("cons", x, NIL), lst("list", x, y), lst("cons", x, 2)])))
                forms.append(lst("setq", "s", t.choice([lst("cons", 0, "c"), "c"])))
                more = ["c%d" % j for j in range(t.choice([0, 0, 1, 3, 6]))]
                forms.extend(lst("setq", m, "c") for m in more)
                forms.append(lst("setq", "d", lst("conc", "c", t.choice([quote(lst(7, 8)), quote(9), NIL, lst("list", y)]))))
                forms.append(lst("printl", "c", "s", "d", *more))
                e = "c"
            elif k == 6:
                s = gen.symbol(t)
                e = lst("list", lst("str", quote(s)), lst("sym", lst("str", quote(s))), lst("len", lst("str", quote(s))))
            elif k == 7:
                st = gen.strval(t, 24)
                e = lst("sym", lst("quote", st).cdr.car if False else Pair("quote", st)) if all(c.c > 32 for c in to_py(st)) else lst("len", Pair("quote", st))
            elif k == 8:
                c = t.range(1, 127)
                e = lst("list", lst("chr", c), lst("chr?", lst("chr", c)), lst("=", lst("chr", c), gen.char(t)))
            elif k == 9:
                e = Pair("list", lst(*[t.choice([x, y, t.draw(9), lst("car", x), quote(gen.symbol(t))]) for _ in range(t.size(20))]))
            elif k == 10:
                e = lst("eval", t.choice([quote(x), quote(lst("cons", x, NIL)), 5, quote(lst("list", x, y)), quote(quote(x))]))
            elif k == 11:
                e = Pair("quote", gen.value(t, 2, 3))
            else:
                e = lst("sym", t.choice([x, 5, NIL, quote("foo"), Pair("list", lst(Ch("a"), 3))]))
                if is_string(v) or is_string(w):
                    e = lst("len", x)
            forms.append(lst("printl", e))
        forms.append(lst("printl", "a", "b"))
        return forms

    def nontrivial(self, item):
        return len(item) > 3


CHECK = P19()
