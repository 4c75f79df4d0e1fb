import os, resource
from vf import core, gen, progcheck
from vf.model import *

# A function of STATE names; the recursion ends when k reaches 0 (or a sentinel list runs out).
STATE = ["k", "p", "q", "r"]
HOLD = "hold"


class Rec:
    """One self-recursive function: states, step expressions, base expression, and the context around the call."""


def simple(t, names, d=2):
    """An arithmetic expression over the state."""
    if d == 0 or t.chance(1, 3):
        return t.choice(names) if t.chance(3, 4) else t.draw(9)
    return lst(t.choice(["+", "-", "*", "+"]), simple(t, names, d - 1), simple(t, names, d - 1))


def wrap_tail(t, call, base, depth, effects, names):
    """An expression that ends the recursion with base when k is 0 and otherwise reaches call, in tail position of
    the documented control forms."""

    def eff():
        return [lst("prin", t.choice(names + [string("."), string("-")]))] if effects and t.chance(1, 2) else []

    def always(d):
        """Reaches call whatever happens."""
        if d == 0:
            return call
        k = t.draw(7)
        e = always(d - 1)
        if k == 0:
            return Pair("prog", lst(*eff(), *eff(), e))
        if k == 1:
            return lst("if", T, e, 0) if t.chance(1, 2) else lst("if", NIL, 0, e)
        if k == 2:
            return Pair("when", Pair(lst(">", "k", 0), lst(*eff(), e)))
        if k == 3:
            return Pair("unless", Pair(lst("=", "k", 0), lst(*eff(), e)))
        if k == 4:
            cl = [Pair("num?", e)] if t.chance(1, 2) else [Pair("nil?", 1), Pair(lst(">", -1), 2), Pair(WILD, e)]
            return Pair("cond", Pair("k", lst(*cl)))
        if k == 5:
            cl = [Pair(WILD, e)] if t.chance(1, 2) else [Pair(-7, 1), Pair(lst(WILD, WILD), 2), Pair(WILD, e)]
            return Pair("match", Pair("k", lst(*cl)))
        return lst("if", lst("=", lst("-", "k", "k"), 0), e, base)
    inner = always(depth)
    k = t.draw(7)
    stop = lst(t.choice(["<=", "="]), "k", 0) if k != 6 else None
    if k in (0, 5):
        return lst("if", stop, base, inner)
    if k == 1:
        return lst("if", lst(">", "k", 0), inner, base)
    if k == 2:
        return Pair("cond", Pair("k", lst(Pair(lst("=", 0), base), Pair(WILD, inner))))
    if k == 3:
        return Pair("match", Pair("k", lst(Pair(0, base), Pair(WILD, inner))))
    if k == 4:
        # both branches call when k is odd or even
        return lst("if", stop, base, lst("if", lst("=", 0, lst("%", "k", 2)), inner, call))
    return Pair("when", Pair(lst(">=", "k", 0), lst(lst("if", lst("=", "k", 0), base, inner))))


def non_tail(t, call):
    """The call in a place that is not a tail."""
    k = t.draw(4)
    if k == 0:
        return lst("car", lst("cons", call, NIL))
    if k == 1:
        return Pair("let", Pair(lst(Pair("res", call)), lst("res")))
    if k == 2:
        return lst("|>", call, lst("\\", lst("res"), "res"))
    return lst("prog", lst("setq", "res", call), "res")


def anywhere(t, fname, names, effects):
    """A body that calls the function from any place of any form, tail or not."""
    left = [2]

    def call():
        left[0] -= 1
        return Pair(fname, lst(lst("-", "k", t.range(1, 2)), *[simple(t, names, 1) for _ in names[1:]]))

    def leaf():
        if left[0] > 0 and t.chance(2, 3):
            return call()
        return t.choice([t.choice(names), t.draw(9), NIL, T, quote("sy"), simple(t, names, 1), lst("list", *names)])

    def mark():
        return [lst("prin", t.choice(names + [string("."), string("-")]))] if effects and t.chance(1, 2) else []

    def test(d):
        if t.chance(1, 2):
            return lst(t.choice(["<", "=", ">="]), t.choice(names), t.draw(5))
        return body(d)

    def body(d):
        if d == 0:
            return leaf()
        k = t.draw(16)
        b = lambda: body(d - 1)
        if k == 0:
            return lst("if", test(d - 1), b())
        if k == 1:
            return lst("if", test(d - 1), b(), b())
        if k == 2:
            return Pair("prog", lst(*mark(), *[b() for _ in range(t.range(1, 3))]))
        if k == 3:
            return Pair(t.choice(["when", "unless"]), Pair(test(d - 1), lst(*mark(), *[b() for _ in range(t.range(1, 2))])))
        if k == 4:
            return Pair("cond", Pair(b(), lst(*[Pair(t.choice(["num?", "nil?", "lst?", "sym?", "tru?"]), b()) for _ in range(t.range(1, 2))], *([Pair(WILD, b())] * t.draw(2)))))
        if k == 5:
            return Pair("match", Pair(b(), lst(*[Pair(t.choice([NIL, T, 1, lst(WILD), lst(WILD, WILD)]), b()) for _ in range(t.range(1, 2))], *([Pair(WILD, b())] * t.draw(2)))))
        if k == 6:
            return lst(t.choice(["and", "or"]), b(), b())
        if k == 7:
            return lst("not", b())
        if k == 8:
            v = t.choice(["va", "vb"])
            return Pair("let", Pair(lst(Pair(v, b())), lst(*mark(), t.choice([v, lst("cons", v, b())]))))
        if k == 9:
            return lst("|>", b(), t.choice([lst("\\", lst("x"), lst("list", "x", b())), "not", "nil?"]))
        if k == 10:
            return Pair("list", lst(*[b() for _ in range(t.range(1, 2))]))
        if k == 11:
            return lst("cons", b(), b())
        if k == 12:
            return lst(lst("\\", lst("x"), b()), b())
        if k == 13:
            return lst("car", lst("cons", b(), NIL))
        if k == 14:
            return lst("eval", quote(leaf()))
        return lst("=", b(), b())
    return body(t.range(1, 4))


class P11(progcheck.ProgCheck):
    id = "P11"
    rule = "the recursion goes at least three deep; the deep cases run 50000 to 100000 calls"
    quick = (2400, 12)
    thorough = (225000, 12)
    assumptions = ["functions do not rebind or redefine their own name (documented as undefined)",
                   "tail positions are those of if, cond, match, prog, when, unless and the body itself",
                   "constant memory is judged by the peak resident set: at most 1.5 MB more than a shallow run, on the same function"]
    fuel = 60000

    def rec(self, t, tail=True):
        """(definition parts, state names, args expression builder, call name)."""
        n = t.range(1, 4)
        names = STATE[:n]
        effects = t.chance(1, 3)
        steps = [lst("-", "k", 1)] + [simple(t, names) for _ in names[1:]]
        base = t.choice([simple(t, names), Pair("list", lst(*names)), quote("done"), t.choice(names)])
        fname = t.choice(["loop", "walk", "f", "a-long-name-0016"])
        # the last position of the arguments may be a pattern
        pat = t.chance(1, 5) and n > 1
        call_args = list(steps)
        params = list(names)
        if pat:
            params = [names[0], lst(*names[1:])]
            call_args = [steps[0], Pair("list", lst(*steps[1:]))]
        call = Pair(fname, lst(*call_args))
        if not tail:
            call = non_tail(t, call)
        pre = [lst("prin", t.choice(names))] if effects and t.chance(1, 3) else []
        body = pre + [wrap_tail(t, call, base, t.draw(4), effects, names)]
        return fname, names, params, body, steps, base, pat, effects or pre

    def calls(self, t, fname, params, names, pat, depth, let):
        init = [depth] + [t.draw(20) for _ in names[1:]]
        args = init if not pat else [depth, Pair("list", lst(*init[1:]))]
        k = t.draw(5)
        if k == 1 and not let:
            return init, [lst("setq", "other", fname)], Pair("other", lst(*args))
        if k == 2:
            return init, [], lst(lst("\\", lst("fn"), Pair("fn", lst(*args))), fname)
        if k == 3 and len(args) > 1:
            return init, [], Pair(Pair(fname, lst(*args[:1])), lst(*args[1:]))
        if k == 4:
            return init, [], lst("let", lst(Pair("alias", fname)), Pair("alias", lst(*args)))
        return init, [], Pair(fname, lst(*args))

    def gen(self, t):
        deep = t.chance(1, 60)
        tail = deep or t.chance(2, 3)
        fname, names, params, body, steps, base, pat, eff = self.rec(t, tail)
        depth = t.range(3, 30)
        if not deep and t.chance(1, 2):
            n = t.range(1, 2)
            names = STATE[:n]
            params, pat, depth, eff = list(names), False, t.range(2, 6), True
            base = t.choice([simple(t, names), Pair("list", lst(*names)), quote("done"), NIL, T])
            inner = anywhere(t, fname, names, t.chance(1, 2))
            stop = lst("<=", "k", 0)
            body = [t.choice([lst("if", stop, base, inner), Pair("cond", Pair("k", lst(Pair(lst(">=", 0), base), Pair(WILD, inner)))),
                              lst("if", lst(">", "k", 0), inner, base), lst("when", lst(">", "k", 0), inner), lst("unless", stop, inner)])]
        lets = t.chance(1, 3)
        forms = []
        init, pre, call = self.calls(t, fname, params, names, pat, depth, lets)
        if lets:
            forms.append(lst("printl", Pair("let", Pair(lst(Pair(fname, Pair("\\", Pair(lst(*params), lst(*body))))), lst(*pre, call)))))
        else:
            forms.append(Pair("def", Pair(fname, Pair(lst(*params), lst(*body)))))
            forms += pre
            forms.append(lst("printl", call))
            if t.chance(1, 3):
                forms.append(lst("printl", Pair("list", lst(call, call))))
        item = {"forms": forms, "deep": 0}
        if deep and not eff:
            item["deep"] = t.choice([50000, 50000, 100000])
            item["calls"] = (init, steps, base, names)
            item["depth"] = depth
        return item

    def forms(self, item):
        return item["forms"]

    def show(self, item):
        return progcheck.show_forms(item["forms"]) + ("\n# depth %d" % item["deep"] if item["deep"] else "")

    def nontrivial(self, item):
        return True

    def classify(self, item):
        return ["deep" if item["deep"] else "shallow"]

    def run(self, items):
        r = super().run(items)
        for it in items:
            if it["deep"]:
                self.deep(it)
        return r

    def deep(self, it):
        """The same function, much deeper, within the usual stack and with no more memory."""
        init, steps, base, names = it["calls"]
        env = dict(zip(names, init))
        env["k"] = it["deep"]

        def ev(x):
            if isinstance(x, int):
                return x
            if isinstance(x, str):
                return env[x]
            a, b = ev(x.cdr.car), ev(x.cdr.cdr.car)
            return wrap(a + b if x.car == "+" else a - b if x.car == "-" else a * b)
        fs = [(n, s) for n, s in zip(names, steps)]
        for _ in range(it["deep"]):
            vals = [ev(s) for _, s in fs]
            for (n, _), v in zip(fs, vals):
                env[n] = v
        if isinstance(base, Pair) and base.car == "list":
            want = show(lst(*[env[x] for x in names]))
        elif isinstance(base, Pair) and base.car == "quote":
            want = "done"
        else:
            want = str(ev(base))
        old, new = it["depth"], it["deep"]

        forms = it["forms"]
        text = progcheck.PRELUDE + "\n".join(src(f) for f in forms[:-1] if f.car != "printl") + "\n"
        # the call is the last printl; replace its depth argument, which is the only occurrence used as such
        callform = [f for f in forms if f.car == "printl"][0]
        shallow = text + src(callform) + "\n"
        deep = text + src(self.deepen(callform, old, new)) + "\n"
        core.run_mnml(shallow, cpu=20, env=core.maxrss_env())
        m0 = core.maxrss()
        r1 = core.run_mnml(deep, cpu=40, stack=8, env=core.maxrss_env())
        m1 = core.maxrss()
        if r1.rc != 0 or r1.out.decode("latin-1").strip() != want:
            raise core.Fail("a tail recursion of depth %d: %s instead of %s" % (new, r1.status(), want), script=deep,
                            got=r1.out[-300:].decode("latin-1"), stderr=r1.err[-800:].decode("latin-1"))
        if m1 - m0 > 1500:
            raise core.Fail("a tail recursion of depth %d needs %d kB more than one of depth %d" % (new, m1 - m0, old), script=deep)

    def deepen(self, f, old, new):
        """Replaces the initial value of k in the call (the call expression comes last)."""
        done = [False]

        def call(x):
            # finds the innermost list that holds the depth as its first argument
            if not isinstance(x, Pair):
                return x
            d = call(x.cdr)
            if done[0]:
                return Pair(x.car, d)
            if isinstance(x.car, Pair):
                a = call(x.car)
                if done[0]:
                    return Pair(a, d)
            if is_sym(x.car) and isinstance(x.cdr, Pair) and isinstance(x.cdr.car, int) and x.cdr.car == old and x.car not in "+-*%<=>=k" \
                    and x.car not in ("<=", ">=", "="):
                done[0] = True
                return Pair(x.car, Pair(new, x.cdr.cdr))
            return Pair(x.car, d)
        return call(f)


CHECK = P11()
