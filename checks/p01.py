import os
from vf import core, gen, progcheck
from vf.model import *


def big(t):
    """Values whose printed form is larger than any buffer, or deeper than any stack."""
    k = t.draw(6)
    if k == 0:
        n = t.range(1, 700)
        v = gen.atom(t)
        for _ in range(n):
            v = lst(v) if t.chance(3, 4) else lst(t.draw(9), v)
        return v
    if k == 1:
        n = t.choice([1020, 1023, 1024, 1025, 4095, 4096, 4097]) + t.draw(5)
        c = t.choice([97, 92, 10, 32, 40, 34])
        return lst(*[Ch(c if t.chance(1, 40) else 97) for _ in range(n // t.choice([1, 3]))])
    if k == 2:
        return lst(*[gen.num(t) for _ in range(t.range(50, 700))])
    if k == 3:
        return lst(*[gen.value(t, 2, 3) for _ in range(t.range(20, 120))])
    if k == 4:
        # right-nested pairs and a dotted tail far away
        return lst(*[gen.atom(t) for _ in range(t.range(100, 600))], tail=gen.atom(t))
    v = gen.value(t, 2, 3)
    for _ in range(t.range(10, 60)):
        v = lst(gen.symbol(t), v, gen.strval(t, 20), tail=gen.atom(t) if t.chance(1, 3) else NIL)
    return v


class P01(core.Check):
    id = "P01"
    rule = "one of the values is a list or a string, or an atom that needs an escape or more than one word"
    quick = (18000, 8)
    thorough = (800000, 8)
    assumptions = ["symbols of at most 16 characters, as the manual defines them",
                   "characters from space to ~, and escape, newline, return and tab: what the reader accepts in a character"]

    def gen(self, t):
        vs = []
        for _ in range(t.range(1, 3)):
            vs.append(big(t) if t.chance(1, 14) else gen.value(t, t.choice([2, 3, 5]), t.choice([3, 6])))
        how = t.draw(3)
        es = [quote(v) if how == 0 else gen.build(t, v) for v in vs]
        return dict(vals=vs, exprs=es, out=t.choice(["printl", "print"]), each=t.chance(1, 3))

    def show(self, item):
        return "%s %s" % (item["out"], " ".join(show(v) for v in item["vals"]))

    def nontrivial(self, item):
        return any(isinstance(v, Pair) or (isinstance(v, Ch) and v.c in (27, 10, 13, 9, 92)) or (isinstance(v, int) and abs(v) > 2**31)
                   for v in item["vals"])

    def classify(self, item):
        n = len(self.show(item))
        return ["text over 1024 bytes" if n > 1024 else "text over 128 bytes" if n > 128 else "short"]

    def run(self, items):
        parts = [progcheck.PRELUDE.strip()]
        exp = []
        for i, it in enumerate(items):
            n = len(it["vals"])
            args = ["v%d" % j for j in range(n)]
            w = '(out "f%d" (%s %s))' % (i, it["out"], " ".join(args))
            if it["each"]:
                # one at a time, with a separator of ours
                w = '(out "f%d" (prog %s))' % (i, " ".join('(print %s) (prin "\\n")' % a for a in args))
            rd = " ".join("(printl (= %s (read)))" % a for a in args)
            body = '(prog %s (prinl "%s%d") (printl %s) (in "f%d" %s))' % (w, progcheck.MARK, i, " ".join(args), i, rd)
            parts.append("((\\ (%s) %s) %s)" % (" ".join(args), body, " ".join(src(e) for e in it["exprs"])))
            exp.append((i, " ".join(show(v) for v in it["vals"]) + "\n" + "T\n" * n, 0))
        parts.append('(prinl "%sE")' % progcheck.MARK)
        script = "\n".join(parts) + "\n"
        d = core.scratch() + "/cwd"
        for i in range(len(items)):
            try:

                os.unlink("%s/f%d" % (d, i))
            except OSError:
                pass
        res = core.run_mnml(script.encode("latin-1"))
        progcheck.compare(items, exp, res, script, "print and read", show_item=self.show)
        for i, it in enumerate(items):
            with open("%s/f%d" % (d, i), "rb") as f:
                text = f.read().decode("latin-1")
            sep = "\n" if it["each"] else " "
            want = sep.join(show(v) for v in it["vals"]) + ("\n" if it["each"] or it["out"] == "printl" else "")
            if text != want:
                raise core.Fail("the printed text is not the documented one", item=self.show(it), expected=want, got=text, script=script)
        return {"values": sum(len(it["vals"]) for it in items)}


CHECK = P01()
