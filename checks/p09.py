from vf import gen, progcheck
from vf.model import *

NAMES = ["a", "b", "c", "d", "e", "f", "X", "Y", "ANY", "COND", "REM", "C", "k1", "longest-name-16c", "@"]


def pattern(t, names, depth, width=4):
    """A pattern over fresh names; names is consumed."""
    k = t.draw(8)
    if depth == 0 or k < 3:
        if names and t.chance(5, 6):
            return names.pop(t.draw(len(names)))
        return t.choice([WILD, WILD, 3, T, Ch("x"), NIL])
    n = t.range(1, width)
    xs = [pattern(t, names, depth - 1, width) for _ in range(n)]
    tail = NIL
    if t.chance(1, 3):
        tail = pattern(t, names, 0)
        if isinstance(tail, Pair):
            tail = NIL
    return lst(*xs, tail=tail)


def near(t, p, depth=4):
    """A value shaped more or less like the pattern."""
    if t.chance(1, 8):
        return gen.value(t, 1, 3)
    if isinstance(p, Pair) and depth:
        if t.chance(1, 10):
            return NIL
        return Pair(near(t, p.car, depth - 1), near(t, p.cdr, depth))
    if p is NIL:
        return NIL if t.chance(3, 4) else gen.plain_list(t, 2, 0)
    return gen.value(t, 2, 3)


def names_of(p):
    if isinstance(p, Pair):
        return names_of(p.car) + names_of(p.cdr)
    return [p] if is_sym(p) else []


class P09(progcheck.ProgCheck):
    id = "P09"
    rule = "the pattern is a list of at least two names, or nested, or dotted"
    quick = (12000, 20)
    thorough = (400000, 20)
    assumptions = ["the names of one pattern are distinct"]

    def gen(self, t):
        names = list(NAMES)
        how = t.draw(4)
        forms = []
        # outer values, to see that what a pattern does not bind is left alone
        before = [x for x in NAMES if t.chance(1, 4)]
        shadow = lst(*[Pair(x, t.range(100, 130)) for x in before])

        def show_names(used):
            xs = used + [x for x in before if x not in used][:2]
            return Pair("list", lst(*[t.choice([x, x]) for x in xs]))
        if how == 0:
            pats = [pattern(t, names, t.draw(4)) for _ in range(t.range(1, 3))]
            bs, used = [], []
            for p in pats:
                v = near(t, p)
                bs.append(Pair(p, quote(v)))
                used += names_of(p)
            e = Pair("let", Pair(lst(*bs), lst(show_names(used))))
        else:
            pats = [pattern(t, names, t.draw(4)) for _ in range(t.range(1, 3))]
            rest = names.pop() if t.chance(1, 4) and names else NIL
            args = lst(*pats, tail=rest)
            used = [x for p in pats for x in names_of(p)] + ([rest] if rest is not NIL else [])
            vals = [quote(near(t, p)) for p in pats]
            if rest is not NIL:
                vals += [quote(gen.value(t, 1, 2)) for _ in range(t.draw(3))]
            body = show_names(used)
            if how == 1:
                forms.append(lst("def", "g", args, body))
                e = Pair("g", lst(*vals))
            elif how == 2:
                e = Pair(lst("\\", args, body), lst(*vals))
            else:
                forms.append(lst("setq", "g", lst("\\", args, body)))
                e = Pair("g", lst(*vals))
        if before and t.chance(1, 2):
            e = Pair("let", Pair(shadow, lst(e)))
        forms.append(lst("printl", e))
        return forms

    def nontrivial(self, item):
        s = self.show(item)
        return "((" in s or " . " in s


CHECK = P09()
