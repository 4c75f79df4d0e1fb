from vf import core, gen, progcheck, wild
from vf.model import *

PRE = "(load 'std 'io 'logic 'math 'sys)\n"


class P13(core.Check):
    id = "P13"
    rule = "the program calls a function, makes a closure or a binding, or gives a built-in arguments it does not expect"
    quick = (25000, 6)
    thorough = (500000, 6)
    assumptions = ["no structure that contains itself is made: cells are counted references",
                   "division by zero, data used as machine code and endless recursion are outside the language's defined behaviour"]

    def gen(self, t):
        k = t.draw(5)
        if k < 2:
            return dict(kind="typed", forms=gen.Prog(t, 30, upd=1).program(2, 2, 4))
        if k < 4:
            w = wild.Wild(t, 40)
            return dict(kind="wild", forms=[w.expr([], t.range(2, 5)) for _ in range(t.range(1, 4))])
        if t.chance(1, 2):
            e = gen.Prog(t, 30).expr(t.choice("nlvb"), {}, 4)
        else:
            w = wild.Wild(t, 30)
            w.noload = True
            e = w.expr([], t.range(2, 4))
        if t.chance(1, 3):
            # a stored function that waits for more arguments, finished again and again from inside a function
            op = t.choice(["+", "-", "*", "=", "<", "cons", "and", "<>", ">="])
            part = t.choice([lst(op, t.draw(9)), lst(op, t.draw(9)), lst("\\", lst("x", "y"), lst("list", "x", "y", e)),
                             lst(lst("\\", lst("x", "y", "z"), lst("cons", "x", lst("cons", "y", "z"))), t.draw(9)), "list", "car"])
            use = t.choice([lst("part", "ca"), lst("part", lst("+", "ca", "cb")), lst(lst("part", "ca"), "cb"), lst("list", lst("part", "cb"), lst("part", "ca"))])
            return dict(kind="loop", pre=[lst("setq", "part", part)], forms=[use], n=t.range(2, 6))
        return dict(kind="loop", forms=[e], n=t.range(2, 6))

    def show(self, item):
        return item["kind"] + ": " + " ".join(src(f) for f in item.get("pre", []) + item["forms"])

    def classify(self, item):
        return [item["kind"]]

    def fixed(self):
        return [[dict(kind="told", forms=[f], rc=rc)] for f, rc in
                [(lst("setq", "cy", lst("quote", lst(1))), 0), (lst("let", lst(Pair("cy", lst("list", 1))), lst("conc", "cy", "cy"), 1), 254)]]

    def told(self, it):
        """The status of -d tells of cells that are really left, here by a list made its own tail."""
        script = PRE + src(it["forms"][0]) + "\nT\n"
        res = core.run_mnml(script.encode("latin-1"), opts=["-d"])
        if res.rc != it["rc"]:
            raise core.Fail("%s where exit %d was expected" % (res.status(), it["rc"]), script=script)
        res = core.run_mnml(script.encode("latin-1"))
        if res.rc != 0:
            raise core.Fail("%s without -d" % res.status(), script=script)
        return {"leaks told": 1}

    def text(self, i, it):
        if it["kind"] != "loop":
            return [src(f) for f in it["forms"]]
        call = "(lp%d %d)" % (i, it["n"])
        return [src(f) for f in it.get("pre", [])] + ["(def bd%d (ca cb) %s)" % (i, src(it["forms"][0])),
                "(def lp%d (n) (if (= n 0) T (prog (bd%d 4 5) (lp%d (- n 1)))))" % (i, i, i),
                call, call, '(prinl "%sA%d " (- (car (slabinfo)) (cdr (slabinfo))))' % (progcheck.MARK, i), call, '(prinl "%sA%d " (- (car (slabinfo)) (cdr (slabinfo))))' % (progcheck.MARK, i),
                call, '(prinl "%sA%d " (- (car (slabinfo)) (cdr (slabinfo))))' % (progcheck.MARK, i)]

    def run(self, items):
        if items[0]["kind"] == "told":
            return self.told(items[0])
        parts = [PRE.strip(), "(setq ga '(1 (2 x) \"s\"))", "(setq gb 'sym)", "(setq gc 12)"]
        for i, it in enumerate(items):
            parts += self.text(i, it)
        parts.append('(prinl "%sE")' % progcheck.MARK)
        script = "\n".join(parts) + "\n"
        wild.prepare(core.scratch() + "/cwd")
        res = core.run_mnml(script.encode("latin-1"), opts=["-d"])
        what = dict(script=script, stderr=res.err[-1500:].decode("latin-1"), output=res.out[-1500:].decode("latin-1"))
        if res.rc == 254:
            raise core.Fail("cells are left behind", **what)
        out = res.out.decode("latin-1")
        if res.hang or res.rc < 0 or progcheck.MARK + "E" not in out:
            raise core.Fail("did not reach its end (%s)" % res.status(), **what)
        loops = 0
        for i, it in enumerate(items):
            if it["kind"] == "loop":
                live = []
                for l in out.split(progcheck.MARK)[1:]:
                    k, _, r = l.partition("\n")[0].partition(" ")
                    if k == "A%d" % i:
                        live.append(r)
                loops += 1
                vals = [self.live(x) for x in live]
                if len(vals) != 3 or len(set(vals)) != 1:
                    raise core.Fail("evaluating the same expression again changes the number of live cells", item=self.show(it), counters=live, **what)
        return {"loops": loops}

    @staticmethod
    def live(x):
        return x


CHECK = P13()
