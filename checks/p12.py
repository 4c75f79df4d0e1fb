import os
from vf import core, gen, progcheck
from vf.model import *


class P12(progcheck.ProgCheck):
    id = "P12"
    rule = "the history has at least four operations that set a global, one of them on a name that was read before"
    quick = (9000, 4)
    thorough = (330000, 6)
    assumptions = ["setq of NIL leaves the name as it was", "no function is redefined while it runs (documented as undefined)"]

    def names(self, t):
        n = t.choice([3, 6, 12, 30, 80])
        base = []
        style = t.draw(3)
        for i in range(n):
            if style == 0:
                x = "g%d" % i
            elif style == 1:
                x = ("variable-name-%02d" % i)[:16]
            else:
                x = gen.symbol(t)
            base.append("G" + x[:14] if x in gen.TAKEN or x in base or x == "x" else x)
        return list(dict.fromkeys(base)) or ["g0"]

    def op(self, t, names, st):
        """One operation of the history, as forms."""
        x = t.choice(names)
        k = t.draw(12)
        v = quote(gen.value(t, 2, 3, False)) if t.chance(2, 3) else t.draw(100)
        if k in (0, 1):
            return [lst("setq", x, v)]
        if k == 2:
            return [lst("printl", lst("<-", quote(x), v))]
        if k == 3:
            # through a function that already ran, or will
            return [lst("printl", lst("set-" + x[:12], v))] if x in st["setters"] else self.setter(x, st)
        if k in (4, 5):
            return [lst("printl", lst("get-" + x[:12]))] if x in st["getters"] else self.getter(x, st)
        if k == 6:
            ys = [t.choice(names) for _ in range(t.range(1, 4))]
            return [Pair("printl", lst(*ys))]
        if k == 7:
            # local bindings of the same name leave the global alone
            return [lst("printl", lst("let", lst(Pair(x, v)), lst("<-", quote(x), t.draw(9)), x), x)]
        if k == 8:
            return [lst("printl", lst(lst("\\", lst(x), lst("prog", lst("<-", quote(x), 5), x)), v), x)]
        if k == 9:
            # a global function, redefined at will between calls
            f = "fun" + x[:12]
            body = t.choice([x, lst("cons", "y", x), lst("list", x, "y"), t.draw(9)])
            return [lst("printl", lst("def", f, lst("y"), body)), lst("printl", lst(f, t.draw(5)))]
        if k == 10:
            return [lst("setq", x, lst("list", x, t.draw(9)))] if t.chance(1, 2) else [lst("setq", x, t.choice(names))]
        # a file that sets several of them
        forms = []
        for _ in range(t.range(1, 4)):
            y = t.choice(names)
            forms.append(t.choice([lst("setq", y, t.draw(99)), lst("def", "fun" + y[:12], lst("y"), lst("list", "y", y)),
                                   lst("prin", y)]))
        return [("load", forms)]

    def setter(self, x, st):
        st["setters"].add(x)
        return [lst("def", "set-" + x[:12], lst("nv"), lst("<-", quote(x), "nv")), lst("printl", lst("set-" + x[:12], 1))]

    def getter(self, x, st):
        st["getters"].add(x)
        return [lst("def", "get-" + x[:12], NIL, x), lst("printl", lst("get-" + x[:12]))]

    def gen(self, t):
        names = self.names(t)
        st = {"setters": set(), "getters": set()}
        short = {x[:12] for x in names}
        ops = []
        for _ in range(t.range(4, 60)):
            ops += self.op(t, names, st)
        ops.append(Pair("printl", lst(*names)))
        return ops

    def show(self, item):
        return "\n".join("# load: " + " ".join(src(f) for f in x[1]) if isinstance(x, tuple) else src(x) for x in item)

    def nontrivial(self, item):
        s = self.show(item)
        return s.count("(setq ") + s.count("(<- ") + s.count("(set-") + s.count("(def ") >= 4

    def run(self, items):
        d = core.scratch() + "/cwd"
        nload = 0
        fs = []
        for it in items:
            out = []
            for x in it:
                if isinstance(x, tuple):
                    path = "%s/load%d.l" % (d, nload)
                    with open(path, "w") as f:
                        f.write("\n".join(src(y) for y in x[1]) + "\n")
                    out.append(("load", "load%d.l" % nload, x[1]))
                    nload += 1
                else:
                    out.append(x)
            fs.append(out)

        class M(Model):
            def top(self, x):
                if isinstance(x, tuple):
                    r = NIL
                    for y in x[2]:
                        r = Model.top(self, y)
                    self.emit(show(r) + "\n")
                    return r
                return Model.top(self, x)
        exp = progcheck.expected(fs, 60000, prep=None, cls=M)

        def one(f):
            return '(printl (load "%s"))' % f[1] if isinstance(f, tuple) else src(f)
        script = self.prelude + progcheck.sources(fs, exp, one)
        res = core.run_mnml(script.encode("latin-1"))
        progcheck.compare(fs, exp, res, script, "the history", show_item=lambda it: "\n".join(one(f) for f in it))
        return {"executed": len(exp), "operations": sum(len(f) for f in fs)}


CHECK = P12()
