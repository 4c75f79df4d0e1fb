import importlib, re
from vf import core, gen, progcheck, reader, wild
from vf.model import *

PRE = "(load 'std 'io 'logic 'math 'sys)\n"
BORROW = ["p04", "p05", "p06", "p07", "p08", "p09", "p10", "p18", "p19"]
ADDR = re.compile(r"-?\d{11,}")


def other(name):
    return importlib.import_module("checks." + name).CHECK


class P14(core.Check):
    """The cells are separate heap blocks here, so any use of a released one is reported."""
    id = "P14"
    rule = "the program calls a function, makes a closure or a binding, or gives a built-in arguments it does not expect"
    quick = (2600, 8)
    thorough = (98000, 8)
    variants = ("asan", "dbg")
    assumptions = ["no structure that contains itself is made", "division by zero, data used as machine code and endless recursion are outside the "
                   "language's defined behaviour", "addresses that functions print as are not compared"]

    def fixed(self):
        """A value referred to from very many places at once, which are then given up."""
        def many(v):
            fs = reader.parse("""(def mk (n acc) (if (> n 0) (mk (- n 1) (cons ga acc)) acc))
                (def mm (n acc) (if (> n 0) (mm (- n 1) (cons (mk 1000 NIL) acc)) acc))
                (setq big (mm 66 NIL)) (printl (len big) (= ga (car (car big)))) (<- 'big NIL) (setq junk '(1 2 (3 4) 5 6 7 8)) (printl junk)""")[0]
            return [dict(kind="many references", forms=fs, keep=[v, lst(1), lst(2)])]
        return [many(v) for v in (lst("a", Pair("b", "c")), "sym", 12345)]

    def gen(self, t):
        k = t.draw(6)
        keep = [gen.value(t, 3, 4, False) for _ in range(3)]
        keep = [v if v is not NIL else lst(1, lst(2)) for v in keep]
        if k < 2:
            c = t.choice(BORROW)
            it = other(c).forms(other(c).gen(t))
            return dict(kind=c, forms=it, keep=None)
        if k == 2:
            return dict(kind="typed", forms=gen.Prog(t, 40, upd=2).program(2, 3, 5), keep=keep)
        strict = t.chance(3, 4)
        w = wild.Wild(t, 50, strict=strict)
        return dict(kind="wild" if strict else "wild, not compared", forms=[w.expr([], t.range(2, 5)) for _ in range(t.range(1, 5))], keep=keep)

    def show(self, item):
        return item["kind"] + ": " + " ".join(src(f) for f in item["forms"])

    def classify(self, item):
        return [item["kind"]]

    def run(self, items):
        own = [i for i in items if i["keep"]]
        left = 0
        borrowed = [i["forms"] for i in items if not i["keep"]]
        if borrowed:
            exp = progcheck.expected(borrowed)
            left = len(borrowed) - len(exp)
            script = PRE + progcheck.sources(borrowed, exp)
            res = core.run_mnml(script.encode("latin-1"), variant="asan")
            if res.rc == 99:
                raise core.Fail("memory error (asan)", script=script, stderr=res.err[:4000].decode("latin-1"))
            progcheck.compare(borrowed, exp, res, script)
        if own:
            self.own(own)
        return {"left_out_of_domain": left}

    def own(self, items):
        parts = [PRE.strip()]
        for i, it in enumerate(items):
            if it["keep"]:
                # values that must come out as they went in
                for n, v in zip(("ga", "gb", "gc"), it["keep"]):
                    parts.append("(setq %s %s)" % (n, src(quote(v))))
            parts.append('(prinl "%s%d")' % (progcheck.MARK, i))
            parts += [src(f) for f in it["forms"]]
            if it["keep"]:
                parts.append('(prinl "%sK%d")' % (progcheck.MARK, i))
                parts += ["(printl %s)" % n for n in ("ga", "gb", "gc")]
        parts.append('(prinl "%sE")' % progcheck.MARK)
        script = "\n".join(parts) + "\n"
        outs = []
        for v in self.variants:
            d = core.scratch() + "/cwd"
            wild.prepare(d)
            with open(d + "/wild.txt", "w") as f:
                f.write("(first line) 2\nsecond\n")
            res = core.run_mnml(script.encode("latin-1"), variant=v)
            out = res.out.decode("latin-1")
            if res.rc == 99 or res.hang or res.rc < 0 or progcheck.MARK + "E" not in out:
                raise core.Fail("%s (%s)" % ("memory error" if res.rc == 99 else "did not reach its end, " + res.status(), v), script=script,
                                stderr=res.err[:4000].decode("latin-1"), output=out[-800:])
            got = progcheck.split_output(out)
            for i, it in enumerate(items):
                if it["keep"]:
                    want = "".join(show(v2) + "\n" for v2 in it["keep"])
                    if got.get("K%d" % i) != want:
                        raise core.Fail("a value changed while it was in use (%s)" % v, item=self.show(it), expected=want, got=got.get("K%d" % i), script=script)
            outs.append({k: ADDR.sub("N", x) for k, x in got.items() if k[-1] == "E" or "not" not in items[int(k.strip("K"))]["kind"]})
        if outs[0] != outs[1]:
            a, b = outs
            bad = [k for k in a if a.get(k) != b.get(k)][:1]
            raise core.Fail("the output depends on whether released cells are reused", script=script, part=bad, separate=[a.get(k) for k in bad],
                            reused=[b.get(k) for k in bad])


CHECK = P14()
