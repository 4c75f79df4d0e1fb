import os
from vf import build, gen, progcheck
from vf.model import *

NATIVE2 = {"+": "nn", "-": "nn", "*": "nn", "<": "nn", "<=": "nn", ">": "nn", ">=": "nn", "=": "vv", "<>": "vv", "cons": "vl", "and": "vv"}
NATIVE1 = {"car": "l", "cdr": "l", "len": "l", "not": "v", "nil?": "v", "num?": "v", "lst?": "v", "eval": "n"}
NATIVEN = {"n3": "vvn", "n4": "vnlv"}


class P07(progcheck.ProgCheck):
    id = "P07"
    rule = "some function of two or more arguments gets them in at least two groups, or a stored partial application is used twice"
    quick = (3000, 20)
    thorough = (125000, 20)
    assumptions = ["functions have a fixed number of arguments (a rest argument takes whatever is left at once)"]

    prelude = progcheck.PRELUDE + "(load '(vnat n3 n4))\n"

    def setup(self):
        so = build.compile_so("vnat", "vnat.c")
        d = so + ".dir"
        os.makedirs(d, exist_ok=True)
        try:
            os.symlink(so, d + "/libvnat.so")
        except FileExistsError:
            pass
        self.env = {"MNML_MODULE_PATH": d}

    def prep(self, m):
        for n, k in (("n3", "XYZ"), ("n4", "WXYZ")):
            m.globals[n] = Pair(lst(*k), Pair(NIL, Native(n, lambda m, env, a, k=k: lst(*[a[x] for x in k]))))

    def gen(self, t):
        p = gen.Prog(t, upd=0, whl=0, match=0, cond=0, partial=2, hof=0, evl=0, budget=15)
        k = t.draw(4)
        forms = []
        if k == 0:
            op = t.choice(sorted(NATIVE2) + sorted(NATIVE1) + sorted(NATIVEN) * 6)
            head, tys = op, list(NATIVE2.get(op) or NATIVE1.get(op) or NATIVEN[op])
        else:
            n = t.range(1, 5)
            tys = [t.choice("nnlv") for _ in range(n)]
            names, pats, shapes = [], [], []
            for y in tys:
                c = [x for x in gen.POOL[y] if x not in names] or ["q%d" % len(names)]
                names.append(t.choice(c))
            sc = {x: True for x in names if x in gen.TYPES}
            body = [p.mark()] * t.draw(2) + [Pair("list", lst(*names, p.expr("v", sc, 2)))]
            args = lst(*names)
            if k == 1:
                forms.append(Pair("def", Pair("g", Pair(args, lst(*body)))))
                head = "g"
            elif k == 2:
                l = Pair("\\", Pair(args, lst(*body)))
                if t.chance(2, 3):
                    # made where names like its own arguments are visible
                    outer = [x for x in names + ["b", "zz"] if t.chance(1, 2)]
                    outer = list(dict.fromkeys(outer))
                    vs = [t.range(50, 60) if gen.TYPES.get(x) == "n" else quote(lst(t.range(50, 60))) for x in outer]
                    if t.chance(1, 2):
                        l = lst("let", lst(*[Pair(x, v) for x, v in zip(outer, vs)]), l)
                    else:
                        l = Pair(lst("\\", lst(*outer), l), lst(*vs))
                forms.append(lst("setq", "g", l))
                head = "g"
            else:
                forms.append(lst("setq", "g", quote(Pair(args, Pair(NIL, lst(*body))))))
                head = "g"

        def arg(i):
            p.budget = max(p.budget, 4)
            e = p.expr(tys[i], {}, 1)
            return lst("prog", p.mark(), e) if t.chance(1, 4) else e

        def groups(h, i, vals):
            """A call expression giving vals[i:] to h in groups."""
            while i < len(vals):
                if t.chance(1, 8):
                    h = Pair(h, NIL)
                j = i + t.range(1, len(vals) - i)
                h = Pair(h, lst(*vals[i:j]))
                i = j
            return h
        vals = [arg(i) for i in range(len(tys))]
        if k == 0 or t.chance(3, 4):
            around = lambda e: e
        else:
            # called where such names are visible
            bs = lst(*[Pair(x, 70 + i if gen.TYPES.get(x) == "n" else quote(lst(70 + i))) for i, x in enumerate(names)])
            around = lambda e: lst("let", bs, e)
        forms.append(lst("printl", around(Pair(head, lst(*vals)))))
        forms.append(lst("printl", around(groups(head, 0, vals))))
        # stored partial applications, reused in any order
        stored = [(head, 0)]
        for i in range(t.draw(4)):
            h, n = t.choice(stored)
            room = len(tys) - n
            if room < 1:
                continue
            m = t.draw(room)       # keep at least one argument missing
            nm = "p%d" % i
            part = Pair(h, lst(*[arg(n + j) for j in range(m)]))
            forms.append(lst("setq", nm, part))
            stored.append((nm, n + m))
        for _ in range(t.draw(5)):
            h, n = t.choice(stored)
            rest = [arg(n + j) for j in range(len(tys) - n)]
            how = t.draw(4)
            if how == 0:
                e = groups(h, 0, rest)
            elif how == 1:
                e = lst(lst("\\", lst("fn"), Pair("fn", lst(*rest))), h)
            elif how == 2:
                e = Pair("let", Pair(lst(Pair("fn", h)), lst(Pair("fn", lst(*rest)))))
            else:
                e = Pair(h, lst(*rest))
            forms.append(lst("printl", around(e)))
        forms.append(lst("printl", Pair(head, lst(*vals))))
        return forms

    def nontrivial(self, item):
        s = self.show(item)
        return "((" in s or "(setq p" in s


CHECK = P07()
