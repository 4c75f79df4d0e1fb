import re
from vf import core, gen
from vf.model import *


def esc(code, s):
    return "\x1b[%sm%s\x1b[0m" % (code, s)


RED, GREEN, BOLD, UNDER = "0;31", "0;32", "1", "4"
TICK = "✓".encode().decode("latin-1")
ANYLINE = "\0any line\0"


class P31(core.Check):
    id = "P31"
    rule = "the suite has at least two tests, one that fails, or there are flags on the command line"
    quick = (3000, 6)
    thorough = (269000, 6)
    assumptions = ["names of tests are distinct and hold no comma", "flags are valid", "tests use no name of the runner's own (the language has dynamic scope)"]

    def value(self, t):
        v = gen.value(t, 2, 3, False)
        return v

    def test(self, t, i):
        k = t.draw(10)
        if k < 2:
            e, out, v = "T", "", True
        elif k == 2:
            e = src(t.choice([5, quote("sym"), string("str"), quote(lst(1, 2)), Ch(97), lst("not", T), lst("car", quote(lst(NIL))), lst("=", 1, 2)]))
            out, v = "", False
        elif k == 3:
            e, out, v = t.choice(["(= 3 (+ 1 2))", "(not NIL)", "(not (= 1 2))", "(num? 5)", "(and T T)"]), "", True
        elif k < 8:
            a = self.value(t)
            same = t.chance(3, 4)
            b = a if same else (gen.mutate(t, a) if t.chance(1, 2) else self.value(t))
            same = show(a) == show(b)
            want, got = src(quote(a)), src(gen.build(t, b) if t.chance(1, 2) else quote(b))
            e = "(assert:equal %s %s)" % (want, got)
            v = same
            out = "" if same else esc(RED, "> FAILED ") + "\n! " + esc(UNDER, "Expect") + ": " + show(a) + "\n! " + esc(UNDER, "Actual") + ": " + show(b) + "\n"
        else:
            p, ok, ko = t.choice([("num?", 5, quote("x")), ("str?", string("ab"), 7), ("lst?", quote(lst(1)), 7), ("nil?", NIL, T), ("(\\ (zv) (= zv 3))", 3, 4), ("(< 3)", 9, 1), ("(\\ (zv) zv)", T, NIL)])
            v = t.chance(1, 2)
            e = "(assert:predicate %s %s)" % (p, src(ok if v else ko))
            x = NIL if ko is NIL else ko
            shown = show(x.cdr if isinstance(x, Pair) and x.car == "quote" else x)
            out = "" if v else esc(RED, "> FAILED ") + "\n! " + esc(UNDER, "Predicate") + ": " + ANYLINE + "\n! " + esc(UNDER, "Value") + ": " + shown + "\n"
        if t.chance(1, 3):
            e = "(prog (prin \"<%d>\") (<- 'zcount (+ zcount 1)) %s)" % (i, e)
            out = "<%d>" % i + out
        return [e, out, v]

    def flags(self, t):
        """A schema of flags, and a command line for it."""
        names = []
        for _ in range(t.range(1, 4)):
            x = "-" * t.range(1, 2) + "".join(t.choice("abcdlt-=9") for _ in range(1 + t.size(5)))
            if x not in names:
                names.append(x)
        schema = [[x, t.choice([0, 1, 1, 2, 3]), t.draw(3)] for x in names]
        word = lambda: t.choice([t.choice(names), "".join(t.choice("abc 019-/=.") for _ in range(t.size(6))), "NIL", "T", "a" * 200])
        args = []
        for _ in range(t.size(8)):
            x, n, _ = t.choice(schema)
            args.append(x)
            args += [word() for _ in range(n)]
        k = t.draw(6)
        if k == 0 and args:
            args.pop()
        elif k == 1:
            args.insert(t.draw(len(args) + 1), word())
        elif k == 2:
            args = args[:t.draw(len(args) + 1)]
        elif k == 3:
            args.insert(t.draw(len(args) + 1), t.choice(names) + t.choice("xy-"))
        # the interpreter keeps what follows the script for the script, whatever it looks like
        return dict(schema=schema, args=args)

    def parse(self, it):
        schema = {x: n for x, n, _ in it["schema"]}
        out, res, i, a = "", [], 0, it["args"]
        while i < len(a):
            if a[i] not in schema:
                return out + "Unknown flag: " + a[i] + "\nNIL\n"
            n = schema[a[i]]
            if n > len(a) - i - 1:
                return out + "Not enough values for flag: " + a[i] + "\nNIL\n"
            out += " ".join([show(string(a[i]))] + [show(string(x)) for x in a[i + 1:i + 1 + n]]) + "\n"
            res.insert(0, string(a[i]))
            i += n + 1
        return out + show(lst(*res)) + "\n"

    def run_flags(self, it):
        defs, alist = "", []
        for j, (x, n, how) in enumerate(it["schema"]):
            ps = " ".join("v%d" % k for k in range(n))
            body = "(%s) (printl %s %s)" % (ps, src(string(x)), ps)
            if how == 2:
                defs += "(def flag-%d %s)\n" % (j, body)
            alist.append("(%s . %s)" % (src(string(x)), "flag-%d" % j if how == 2 else "(\\ %s)" % body))
        script = "(load \"@lib/args.l\" 'std 'io)\n" + defs + "(printl (args:parse '(%s)))\n" % " ".join(alist)
        r = core.run_mnml(script.encode("latin-1"), args=it["args"], opts=["-d"])
        want, got = self.parse(it), r.out.decode("latin-1")
        if got != want or r.hang or r.rc < 0 or r.err:
            raise core.Fail("the flags are parsed otherwise (%s)" % r.status(), script=script, args=it["args"], expected=want, got=got, stderr=r.err[-500:].decode("latin-1"))

    def gen(self, t):
        if t.chance(1, 4):
            return self.flags(t)
        n = t.choice([1, 2, 3, 5, 8]) if t.chance(19, 20) else 40
        names = []
        for i in range(n):
            s = "".join(t.choice("abcdefgh -_./0123:") for _ in range(1 + t.size(14)))
            names.append(s if s not in names and s[0] != "-" else "t%d" % i)
        tests = [[x] + self.test(t, i) for i, x in enumerate(names)]
        args, sel = [], None
        k = t.draw(6)
        if k < 2:
            for _ in range(1 if t.chance(5, 6) else 2):
                sel = [t.choice(names) if t.chance(7, 8) else t.choice(["none", "a" * 20, "x y"]) for _ in range(t.range(1, 5))]
                args += ["-t", t.choice([",", ",", ",,"]).join(sel) + t.choice(["", "", ","])]
        elif k == 2:
            args.append("-l")
        if t.chance(1, 12):
            args.insert(t.draw(2) * len(args), "-h")
        return dict(suite="".join(t.choice("abc XYZ/") for _ in range(t.size(12))), tests=tests, args=args, sel=sel, opt=["-d"] if t.chance(1, 4) else [])

    def show(self, it):
        return it

    def nontrivial(self, it):
        return bool(it["args"]) or "tests" in it and len(it["tests"]) > 1 and any(not v for _, _, _, v in it["tests"])

    def classify(self, it):
        if "schema" in it:
            return ["command line for a schema"]
        return ["flags " + " ".join(a for a in it["args"] if a[:1] == "-")]

    def expected(self, it):
        out, res = "", True
        tests = {x[0]: x for x in it["tests"]}
        if "-h" in it["args"]:
            out += "Usage: t.l [-l|-t test1,test2,...|-h] \n\n  -l  List available tests\n  -t  Comma-separated list of tests\n  -h  Print this help\n"
        hdr = esc(BOLD, "[") + esc(BOLD, it["suite"]) + esc(BOLD, "]") + "\n"
        if it["sel"] is not None or not it["args"]:
            names = it["sel"] if it["sel"] is not None else [x[0] for x in it["tests"]]
            w = max(map(len, names))
            out += hdr
            for n in names:
                if n in tests:
                    _, _, o, v = tests[n]
                    out += o + (TICK + " " + n.ljust(w) + ": " + esc(GREEN, "passed") if v else "! " + n.ljust(w) + ": " + esc(RED, "failed")) + "\n"
                    res = res and v
                else:
                    out += "! " + n.ljust(w) + ": " + esc(RED, "not found") + "\n"
                    res = False
        elif "-l" in it["args"]:
            w = max(len(x[0]) for x in it["tests"])
            out += hdr + "".join("- " + x[0].ljust(w) + "\n" for x in it["tests"])
            res = None
        else:
            res = None
        return out, res

    def run(self, items):
        n = {"tests run": 0}
        for it in items:
            if "schema" in it:
                self.run_flags(it)
                continue
            script = "(load \"@lib/test.l\" 'std 'io 'logic 'math)\n(setq zcount 0)\n(test:run %s\n%s)\n" % (
                src(string(it["suite"])), "\n".join("(%s . %s)" % (src(string(x)), e) for x, e, _, _ in it["tests"]))
            out, res = self.expected(it)
            r = core.run_mnml(script.encode("latin-1"), args=it["args"], opts=it["opt"])
            got = r.out.decode("latin-1")
            if not re.fullmatch(re.escape(out).replace(re.escape(ANYLINE), "[^\n]*"), got):
                i = 0
                while i < min(len(out), len(got)) and out[i] == got[i]:
                    i += 1
                raise core.Fail("the report differs (%s)" % r.status(), script=script, args=it["args"], at=i, expected=out[max(0, i - 100):i + 300], got=got[max(0, i - 100):i + 300])
            if r.hang or r.rc < 0 or (res is not None and r.rc != (0 if res else 255)) or r.err:
                raise core.Fail("%s where the result is %s" % (r.status(), res), script=script, args=it["args"], stderr=r.err[-500:].decode("latin-1"))
            n["tests run"] += len(it["tests"])
        return n


CHECK = P31()
