from vf import core, gen, libspec, progcheck
from vf.model import *
from checks.p20 import LibCheck


class P21(LibCheck):
    id = "P21"
    rule = "the call is inside the documented domain and the specification gives a value for it"
    quick = (6000, 20)
    thorough = (400000, 20)
    names = libspec.STRINGS
    assumptions = ["aton gets digits only (as documented) and fewer than 19 of them", "terminal widths are not negative"]

    def special(self, t):
        k = t.draw(12)
        if k == 11:
            return self.args(t)
        if k == 10:
            return self.law(t)
        return None

    def law(self, t):
        """Round trips."""
        k = t.draw(3)
        if k == 0:
            n = abs(gen.num(t))
            n = min(n, 2**63 - 1)
            return dict(key="aton/ntoa", pre=["(setq g0 %d)" % n], call="(aton (ntoa g0))", vars=["g0"], expect="%d\n%d\n" % (n, n), files=["aton", "ntoa"], used=["aton", "ntoa"])
        if k == 1:
            sep = Ch(t.choice([44, 32, 47, 58]))
            ls = []
            for _ in range(t.range(1, 6)):
                s = [c for c in to_py(gen.strval(t, 6)) if not equ(c, sep)] or [Ch("x")]
                ls.append(from_py(s))
            v = from_py(ls)
            return dict(key="split/join", pre=["(setq g0 %s)" % src(quote(v)), "(setq g1 %s)" % src(sep)], call="(split (join g0 g1) g1)", vars=["g0", "g1"],
                        expect="%s\n%s\n%s\n" % (show(v), show(v), show(sep)), files=["split", "join"], used=["split", "join"])
        a, b = gen.strval(t, 6), gen.strval(t, 6)
        a, b = (a if a is not NIL else string("a")), (b if b is not NIL else string("ab"))
        x, y = [c.c for c in to_py(a)], [c.c for c in to_py(b)]
        return dict(key="strlt/total", pre=["(setq g0 %s)" % src(quote(a)), "(setq g1 %s)" % src(quote(b))],
                    call="(list (strlt g0 g1) (strlt g1 g0) (strlt g0 g0))", vars=[],
                    expect="(%s %s NIL)\n" % (("T" if x < y else "NIL"), ("T" if y < x else "NIL")), files=["strlt"], used=["strlt"])

    def args(self, t):
        """Option parsing: a schema of flags with handlers of 0 to 3 values, and a vector."""
        flags = []
        for _ in range(t.range(1, 4)):
            f = t.choice(["-a", "-b", "--long", "-x", "-", "-9"])
            if f not in [x for x, _ in flags]:
                flags.append((f, t.draw(4)))
        schema, pre = [], []
        for i, (f, n) in enumerate(flags):
            names = ["P", "Q", "R"][:n]
            body = '(prinl "h%d" %s)' % (i, " ".join('" " %s' % x for x in names)) if n else '(prinl "h%d")' % i
            lam = "(\\ (%s) %s)" % (" ".join(names), body)
            if t.chance(1, 4):
                pre.append("(def hf%d (%s) %s)" % (i, " ".join(names), body))
                lam = "hf%d" % i
            schema.append('("%s" . %s)' % (f, lam))
        argv = ["prog"]
        out, res, ok = "", [], True
        for _ in range(t.range(0, 4)):
            f, n = t.choice(flags)
            if t.chance(1, 8):
                f, n = t.choice(["-z", "word", "--long2", "-ab"]), 0
            vals = [t.choice(["v", "12", "-a", "a b", "x=y", "-"]) for _ in range(n)]
            if n and t.chance(1, 10):
                vals = vals[:-1]
            argv += [f] + vals
        xs = argv[1:]
        d = {}
        for i, (f, n) in enumerate(flags):
            d[f] = (i, n)
        while xs:
            f, xs = xs[0], xs[1:]
            if f not in d:
                out += "Unknown flag: %s\n" % f
                ok = False
                break
            i, n = d[f]
            if n > len(xs):
                out += "Not enough values for flag: %s\n" % f
                ok = False
                break
            out += "h%d%s\n" % (i, "".join(" " + v for v in xs[:n]))
            res.insert(0, f)
            xs = xs[n:]
        pre.append("(setq sch '(%s))" % " ".join(schema))
        pre.append("(setq ARGV '(%s))" % " ".join('"%s"' % a for a in argv))
        expect = out + show(from_py([string(f) for f in res]) if ok else NIL) + "\n" + show(from_py([string(a) for a in argv])) + "\n"
        return dict(key="args:parse", pre=pre, call="(args:parse sch)", vars=["ARGV"], expect=expect, files=["args"], used=["args:parse"])


CHECK = P21()
