import collections
from vf import core, gen, reader
from vf.model import *

MARK = "\x1d@@\x1e"
HEAD = "(load \"@lib/cps.l\" 'std 'io 'logic 'math)\n"
OPS = ("+", "-", "*", "/", "<", ">", "<=", ">=", "and", "or", "not", "car", "cdr", "cons", "nil?", "lst?")
CTL = ("if", "unless", "when")


class Expr:
    """Expressions in direct style. Types: n number, a value, c truth value. `flow` allows control forms as arguments."""

    def __init__(self, t, params, flow):
        self.t, self.P, self.flow = t, params, flow
        self.labels = set()

    def names(self, y):
        return [p for p, q in self.P if q == y]

    def ite(self, y, d):
        self.labels.add("control form as an argument")
        return "(if %s %s %s)" % (self.make("c", d - 1), self.make(y, d - 1), self.make(y, d - 1))

    def make(self, y, d):
        t = self.t
        if self.flow and d > 0 and t.chance(1, 6):
            return self.ite(y, d)
        return getattr(self, y)(d)

    def n(self, d):
        t = self.t
        if d <= 0 or t.chance(1, 5):
            return t.choice(self.names("n") + [str(t.draw(20) - 4)])
        if t.chance(1, 8):
            return "(%s %s %d)" % (t.choice("/%" if self.flow else "/"), self.make("n", d - 1), t.range(1, 7))
        return "(%s %s %s)" % (t.choice("++--*"), self.make("n", d - 1), self.make("n", d - 1))

    def a(self, d):
        t = self.t
        if d <= 0 or t.chance(1, 6):
            if self.flow:
                return t.choice(self.names("a") * 3 + self.names("n") + ["T", "^c", str(t.draw(9))])
            return t.choice(self.names("a"))
        k = t.draw(10)
        fs = self.names("p1") + self.names("p2")
        if k >= 8 and fs:
            f = t.choice(fs)
            self.labels.add("calls its argument")
            return "(%s %s)" % (f, " ".join(self.make("a", d - 1) for _ in range(1 if f in self.names("p1") else 2)))
        if k == 7 and self.flow:
            return "(list %s)" % " ".join(self.make("a", d - 1) for _ in range(t.range(1, 4)))
        if k < 4:
            return "(%s %s)" % (t.choice(["car", "cdr"]), self.make("a", d - 1))
        return "(cons %s %s)" % (self.make("a", d - 1), self.make("a", d - 1))

    def c(self, d):
        t = self.t
        k = t.draw(9)
        if d > 0 and k >= 6:
            return t.choice(["(not %s)", "(and %s %s)", "(or %s %s)"]).replace("%s", "\0").replace("\0", "{}").format(self.make("c", d - 1), self.make("c", d - 1))
        if k < 3:
            return "(%s %s)" % (t.choice(["nil?", "lst?"]), self.make("a", d - 1))
        return "(%s %s %s)" % (t.choice(["<", ">", "<=", ">="]), self.make("n", d - 1), self.make("n", d - 1))

    def body(self, y, d):
        t = self.t
        k = t.draw(10)
        if d > 0 and k >= 5:
            return "(if %s %s %s)" % (self.make("c", 2), self.body(y, d - 1), self.body(y, d - 1))
        if d > 0 and y == "a" and k == 4 and self.flow:
            self.labels.add("one branch")
            return "(%s %s %s)" % (t.choice(CTL), self.make("c", 2), self.body(y, d - 1))
        if self.flow:
            return self.make(y, 3)
        e = self.make(y, 3)
        return e if e.startswith("(") else "(+ %s 1)" % e if y == "n" else "(cons %s %s)" % (e, e)


def elems(v):
    r = []
    while isinstance(v, Pair):
        r.append(v.car)
        v = v.cdr
    return r


class Bad(Exception):
    pass


def is_lambda(v):
    return isinstance(v, Pair) and v.car == "\\"


def back(v, scope, k):
    """A converted form back in direct style; raises Bad when it is not in continuation-passing style."""
    xs = elems(v)
    if not xs:
        raise Bad("not a call: " + show(v))
    op = xs[0]

    def triv(x):
        if isinstance(x, Pair):
            raise Bad("an argument is not an atom: " + show(x))
        if isinstance(x, str) and x not in scope:
            raise Bad("the name %s is not bound" % x)
        return x

    def cont(c, value):
        if c == k:
            return value
        if not is_lambda(c):
            raise Bad("not a continuation: " + show(c))
        ys = elems(c)
        if len(ys) != 3 or len(elems(ys[1])) != 1 or not isinstance(ys[1].car, str):
            raise Bad("a continuation of another shape: " + show(c))
        p = ys[1].car
        return lst(lst("\\", lst(p), back(ys[2], scope | {p}, k)), value)
    if op in CTL:
        return lst(op, triv(xs[1]), *[back(b, scope, k) for b in xs[2:]])
    if isinstance(op, Pair) or op == k:
        if len(xs) != 2:
            raise Bad("a continuation gets %d values" % (len(xs) - 1))
        return cont(op, triv(xs[1]))
    if len(xs) < 2:
        raise Bad("a call without a continuation: " + show(v))
    return cont(xs[-1], lst(op, *[triv(x) for x in xs[1:-1]]))


def count(v, args, kvar, n):
    """Number of references to each name from outside the continuation that binds it."""
    xs = elems(v)
    if is_lambda(xs[0]):
        raise Discard("applied continuation")
    if xs[0] in CTL:
        for b in xs[2:]:
            count(b, args, kvar, n)
        refs = xs[1:]
    else:
        if is_lambda(xs[-1]):
            ys = elems(xs[-1])
            count(ys[2], args, ys[1].car, n)
        refs = xs if xs[0] in args else xs[1:]
    for x in refs:
        if isinstance(x, str):
            n[x] += 0 if x == kvar else 1


class P32(core.Check):
    id = "P32"
    rule = "the body has a call among the arguments of another or a control form"
    quick = (800, 12)
    thorough = (26000, 12)
    assumptions = ["bodies are made of calls by name, control forms, names, numbers, characters and T (lists, quoted values and other control forms are not supported)",
                   "a control form with one branch is in the last position", "types are compared for the operations the inference knows, when the results of the branches are operations"]

    def gen(self, t):
        P = []
        for i in range(t.range(0, 4)):
            P.append(("pqrs"[i], t.choice("nnaaa")))
        y = t.choice("na")
        if not any(q == "a" for _, q in P):
            P.append(("x", "a"))
        if t.chance(1, 3):
            P.append(("g", t.choice(["p1", "p2"])))
        flow = t.chance(2, 3)
        e = Expr(t, P, flow)
        body = e.body(y, 2)
        kind = "type clash" if not flow and t.chance(1, 4) else "typed" if not flow else "control"
        if kind == "type clash":
            # one number where a value is expected or the other way round
            body = t.choice(["(cons (car (+ 1 %s)) %s)" % (e.n(1), e.a(0)), "(+ 1 (car %s))" % e.a(2), "(cdr (- %s 1))" % e.n(2), "(if (< 1 2) (+ 1 (cons 1 2)) %s)" % e.n(2)])
        calls = []
        for _ in range(t.range(2, 5)):
            a = []
            for p, q in P:
                a.append(str(t.draw(60) - 20) if q == "n" else "'" + src(gen.value(t, 2, 4, False)) if q == "a" else t.choice(
                    ["car", "cdr", "list", "(\\ (x) (cons x x))"] if q == "p1" else ["cons", "list", "(\\ (x y) (cons y x))"]))
            calls.append(" ".join(a))
        return dict(P=P, y=y, body=body, kind=kind, calls=calls, labels=sorted(e.labels))

    def show(self, it):
        return "(def f (%s) %s) called with %s" % (" ".join(p for p, _ in it["P"]), it["body"], " | ".join(it["calls"]))

    def classify(self, it):
        return [it["kind"]] + it["labels"]

    def nontrivial(self, it):
        return "(" in it["body"][1:]

    def parts(self, script, what):
        res = core.run_mnml(script.encode("latin-1"), opts=("-d",), cpu=30)
        d = {}
        for seg in res.out.decode("latin-1").split(MARK)[1:]:
            k, _, rest = seg.partition("\n")
            d[k] = rest.split("\n")[:-1]
        if "E" not in d or res.hang or res.rc not in (0, 255):
            raise core.Fail("%s did not end well (%s)" % (what, res.status()), script=script, output=res.out[-800:].decode("latin-1"), stderr=res.err[-500:].decode("latin-1"))
        return d

    def run(self, items):
        s = [HEAD]
        for i, it in enumerate(items):
            s.append("(def f%d (%s) %s)" % (i, " ".join(p for p, _ in it["P"]), it["body"]))
            s.append('(prinl "%s%d")\n(setq c (>& \'f%d))\n(printl c)' % (MARK, i, i))
            s.append("(printl (cps:refcount c))")
            if it["kind"] != "control":
                s.append("(printl (cps:infer 'f%d c))" % i)
        s.append('(prinl "%sE")' % MARK)
        got = self.parts("\n".join(s) + "\n", "the conversion")
        s2 = ["(load 'std 'io 'logic 'math)"]
        stats = collections.Counter()
        for i, it in enumerate(items):
            lines = got.get(str(i), [])

            def fail(msg, **k):
                raise core.Fail(msg, item=self.show(it), converted=lines, **k)
            if len(lines) != (2 if it["kind"] == "control" else 3):
                fail("the conversion printed something else")
            vals = [reader.parse(l)[0][0] for l in lines]
            form = elems(vals[0])
            ps = [p for p, _ in it["P"]]
            if len(form) != 3 or elems(form[0]) != ps + ["_%d" % len(ps)]:
                fail("the converted function does not take the arguments and a continuation")
            k = "_%d" % len(ps)
            try:
                direct = back(form[2], frozenset(ps), k)
            except Bad as e:
                fail("not in continuation-passing style: %s" % e)
            try:
                n = collections.Counter()
                count(form[2], ps + [k], k, n)
                have = [(e.car, e.cdr) for e in elems(vals[1])]
                if len(dict(have)) != len(have) or dict(have) != dict(n):
                    fail("wrong reference counts", expected=sorted(n.items()))
                stats["reference counts compared"] += 1
            except Discard:
                pass
            if it["kind"] != "control":
                ty = {e.car: e.cdr for e in elems(vals[2])}
                if it["kind"] == "type clash":
                    if "ERROR" not in ty.values():
                        fail("the type clash is not found")
                else:
                    want = {p: "NUMBER" if q == "n" else "ATOM" for p, q in it["P"]}
                    want[k] = "NUMBER" if it["y"] == "n" else "ATOM"
                    bad = {p: ty[p] for p in want if p in ty and ty[p] != want[p]}
                    if bad:
                        fail("wrong types", expected=want)
                    if any(p not in ty for p, q in it["P"] if p in operands(form[2])):
                        fail("a name has no type", expected=want)
                    stats["types compared"] += 1
            stats["converted"] += 1
            s2.append('(prinl "%s%d")' % (MARK, i))
            s2.append("(def f%d (%s) %s)" % (i, " ".join(ps), it["body"]))
            s2.append("(def g%d (%s) %s)" % (i, " ".join(ps), src(direct)))
            if it["kind"] != "type clash":
                for c in it["calls"]:
                    s2.append("(printl (f%d %s))\n(printl (g%d %s))" % (i, c, i, c))
        s2.append('(prinl "%sE")' % MARK)
        got2 = self.parts("\n".join(s2) + "\n", "the calls")
        for i, it in enumerate(items):
            l = got2.get(str(i), [])
            for j, c in enumerate(it["calls"] if it["kind"] != "type clash" else []):
                if l[2 * j:2 * j + 1] != l[2 * j + 1:2 * j + 2]:
                    raise core.Fail("the converted function has another value", item=self.show(it), args=c, converted=got[str(i)][0], direct=l[2 * j:2 * j + 1], value=l[2 * j + 1:2 * j + 2])
                stats["calls"] += 1
        return dict(stats)


def operands(v):
    """The names among the operands of the operations of a converted form."""
    xs = elems(v)
    r = set()
    if not xs or is_lambda(xs[0]):
        return r
    if xs[0] in CTL:
        for b in xs[2:]:
            r |= operands(b)
        return r
    if len(xs) > 2 and xs[0] in OPS:
        r |= {x for x in xs[1:-1] if isinstance(x, str)}
    if is_lambda(xs[-1]):
        r |= operands(elems(xs[-1])[2])
    return r


CHECK = P32()
