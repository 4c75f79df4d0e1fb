import re, time
from vf import core, gen, progcheck
from vf.model import *


class P05(progcheck.ProgCheck):
    id = "P05"
    rule = "the program contains at least two control forms nested in one another or in a function, with a trace of evaluations"
    quick = (8000, 20)
    thorough = (400000, 20)

    def gen(self, t):
        p = gen.Prog(t, trace=6, ife=5, prog=4, cond=5, pipe=3, whl=3, andor=5, lists=2, match=0, upd=1, partial=0, destr=0)
        if t.chance(1, 25):
            # time evaluates its argument once, and what it says passed fits between two readings of the clock
            return dict(time=[p.expr(t.choice("nlvb"), {}, 3) for _ in range(t.range(1, 4))])
        return p.program()

    def forms(self, item):
        if isinstance(item, dict):
            return [lst("prog", e, lst("prinl", string(""))) for e in item["time"]]
        return item

    def run(self, items):
        n = super().run([i for i in items if isinstance(i, list)])
        for it in items:
            if isinstance(it, dict):
                n["timed expressions"] = n.get("timed expressions", 0) + self.run_time(it)
        return n

    def run_time(self, it):
        exp = progcheck.expected([[e] for e in it["time"]], self.fuel)
        parts = ["(load '(sys time))", "(prinl \"%sB \" (time))" % progcheck.MARK]
        for i, _, _ in exp:
            parts += ["(prinl \"%s%d\")" % (progcheck.MARK, i), "(let ((spent . (time %s))) (prinl \"%sD \" spent))" % (src(it["time"][i]), progcheck.MARK), "(prinl \"%sB \" (time))" % progcheck.MARK]
        script = self.prelude + "\n".join(parts) + "\n"
        t0 = time.clock_gettime_ns(time.CLOCK_MONOTONIC_RAW)
        res = core.run_mnml(script.encode("latin-1"))
        t1 = time.clock_gettime_ns(time.CLOCK_MONOTONIC_RAW)
        out = res.out.decode("latin-1")
        what = dict(script=script, got=out[-2000:], status=res.status())
        want = "".join(["%sB #\n" % progcheck.MARK] + ["%s%d\n%s%sD #\n%sB #\n" % (progcheck.MARK, i, x, progcheck.MARK, progcheck.MARK) for i, x, _ in exp])
        clock = re.compile(re.escape(progcheck.MARK) + r"([BD]) (-?\d+)\n")
        if res.rc != 0:
            raise core.Fail("time: %s" % res.status(), **what)
        norm = clock.sub(lambda m: progcheck.MARK + m[1] + " #\n", out)
        if norm != want:
            raise core.Fail("an expression that is timed does not do what it does alone, once", expected=want, **what)
        last, spent = t0, 0
        for m in clock.finditer(out):
            v = int(m[2])
            if m[1] == "D":
                spent = v
                if v < 0:
                    raise core.Fail("less than no time passed", **what)
            else:
                if not last + spent <= v <= t1:
                    raise core.Fail("the clock does not fit: %d after %d and a duration of %d, at most %d" % (v, last, spent, t1), **what)
                last, spent = v, 0
        return len(exp)

    def nontrivial(self, item):
        if isinstance(item, dict):
            return True
        s = self.show(item)
        return sum(s.count("(" + k + " ") for k in ("if", "cond", "prog", "when", "unless", "while", "and", "or", "not", "|>", "list")) >= 2


CHECK = P05()
