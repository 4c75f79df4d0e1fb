import os, re, shutil
from vf import build, core, gen, libspec
from vf.model import *

PRE = "(load '(std if when unless car cdr cons nil? lst? def conc) '(math + - * / < > <= >=) '(logic = <> and or not))\n"
MARK = "\x1d@@\x1e"


class Body:
    """Function bodies in the compiler's subset. Types: n number, a any value, and functions (p1, p2) from values to value."""

    def __init__(self, t, params, muls=True):
        self.t, self.P, self.muls = t, params, muls
        self.core = True
        self.labels = set()
        self.helper = None

    def names(self, ty):
        return [p for p, y in self.P if y == ty]

    def num(self, d):
        t = self.t
        ns = self.names("n")
        if d <= 0 or not t.chance(4, 5):
            return t.choice(ns) if ns and t.chance(3, 4) else str(t.draw(10))
        if self.helper and self.helper[1] == "n" and t.chance(1, 4):
            self.labels.add("calls another function")
            return "(@h %s)" % " ".join(self.operand(y, d - 1) for y in self.helper[0])
        k = t.draw(8)
        if k == 7:
            return "(/ %s %d)" % (self.num(d - 1), t.range(1, 5))
        if k == 6 and self.muls:
            return "(* %s %s)" % (self.num(d - 1), self.num(d - 1))
        return "(%s %s %s)" % (t.choice("+-"), self.num(d - 1), self.num(d - 1))

    def operand(self, ty, d):
        """An argument of a call to another function: an operation (literals are not supported there)."""
        if self.names(ty) and self.t.chance(1, 4):
            return self.t.choice(self.names(ty))
        return "(%s %s %s)" % (self.t.choice("+-"), self.num(d - 1), self.num(0)) if ty == "n" else self.op(d)

    def atm(self, d):
        t = self.t
        if d <= 0:
            return t.choice(self.names("a"))
        k = t.draw(9)
        fs = self.names("p1") + self.names("p2")
        if fs and k in (6, 7):
            f = t.choice(fs)
            self.labels.add("calls its argument")
            n = 1 if f in self.names("p1") else 2
            # an argument of the call that is nothing but a parameter has no type of its own
            return "(%s %s)" % (f, " ".join(self.op(d - 1) for _ in range(n)))
        if self.helper and self.helper[1] == "a" and k == 8:
            self.labels.add("calls another function")
            return "(@h %s)" % " ".join(self.operand(y, d - 1) for y in self.helper[0])
        if k < 4:
            return "(%s %s)" % (t.choice(["car", "cdr"]), self.atm(d - 1))
        if k in (4, 5) and self.names("z"):
            # onto a fresh cell: z is always NIL
            self.labels.add("conc")
            return "(conc (cons %s z) %s)" % (self.atm(d - 2), self.atm(d - 1))
        return "(cons %s %s)" % (self.atm(d - 1), self.atm(d - 1))

    def op(self, d):
        """A value that is the result of an operation."""
        t = self.t
        if t.chance(1, 2) or d <= 0:
            return "(%s %s)" % (t.choice(["car", "cdr"]), self.atm(d - 1))
        return "(cons %s %s)" % (self.atm(d - 1), self.atm(d - 1))

    def cond(self, d):
        t = self.t
        k = t.draw(10)
        if d > 0 and k >= 8:
            return t.choice(["(not %s)" % self.cond(d - 1), "(and %s %s)" % (self.cond(d - 1), self.cond(d - 1)), "(or %s %s)" % (self.cond(d - 1), self.cond(d - 1))])
        if self.names("a") and k in (1, 2, 3):
            return "(%s %s)" % (t.choice(["nil?", "lst?"]), self.atm(d))
        if self.names("a") and k == 4:
            self.labels.add("compares values")
            return "(%s %s %s)" % (t.choice(["=", "<>"]), self.op(d), self.op(d))
        if k == 5 and len(self.names("n")) > 0:
            self.labels.add("equality of numbers")
            return "(%s (+ %s %s) (- %s %s))" % (t.choice(["=", "<>"]), self.num(d - 1), self.num(0), self.num(d - 1), self.num(0))
        return "(%s %s %s)" % (t.choice(["<", ">", "<=", ">="]), self.num(d), self.num(d))

    def result(self, ty, d):
        """The value of a branch."""
        t = self.t
        if t.chance(1, 8) and self.names(ty):
            self.core = False
            return t.choice(self.names(ty))
        if ty == "n":
            return "(%s %s %s)" % (t.choice("+-"), self.num(d), self.num(d))
        return self.op(d) if t.chance(1, 2) else self.wrap(d)

    def wrap(self, d):
        e = self.atm(d)
        return e if e.startswith("(") else "(cdr (cons %s %s))" % (e, e)

    def body(self, ty, d):
        t = self.t
        k = t.draw(10)
        if d > 0 and k >= 5:
            return "(if %s %s %s)" % (self.cond(2), self.body(ty, d - 1), self.body(ty, d - 1))
        if d > 0 and ty == "a" and k == 4:
            self.labels.add("one branch")
            return "(%s %s %s)" % (t.choice(["if", "when", "unless"]), self.cond(2), self.body(ty, d - 1))
        return self.result(ty, 2)

    def recursive(self, ty):
        """Recursion over a number or a list, in the last position or not."""
        t = self.t
        ns, ls = self.names("n"), self.names("a")
        over = t.choice(ns + ls)
        self.labels.add("recursive")

        def call():
            args = []
            for p, y in self.P:
                if p == over:
                    args.append("(- %s 1)" % p if y == "n" else "(cdr %s)" % p)
                elif y in ("p1", "p2", "z") or t.chance(1, 3):
                    args.append(p)
                else:
                    args.append(self.num(1) if y == "n" else self.atm(1))
            return "(@f %s)" % " ".join(args)
        base = self.result(ty, 1)
        k = t.draw(4)
        if k == 0:
            rec = call()
            self.labels.add("tail call")
        elif ty == "n":
            rec = "(%s %s %s)" % (t.choice("+-"), *([call(), self.num(1)] if t.chance(1, 2) else [self.num(1), call()]))
        else:
            rec = "(cons %s %s)" % tuple([call(), self.atm(1)] if t.chance(1, 3) else [self.atm(1), call()])
            if t.chance(1, 4):
                rec = "(%s %s)" % (t.choice(["car", "cdr"]), rec)
        if t.chance(1, 4):
            rec = "(if %s %s %s)" % (self.cond(1), rec, self.result(ty, 1))
        if over in ns:
            return "(if (> %s 0) %s %s)" % (over, rec, base)
        if t.chance(1, 2):
            return "(if (nil? %s) %s %s)" % (over, base, rec)
        return "(if (not (nil? %s)) %s %s)" % (over, rec, base)


def used(p, body):
    return re.search(r"(?<![\w-])%s(?![\w-])" % p, body)


def function(t, helper=None):
    """(params, ret, body, core, labels)"""
    P = []
    for i in range(t.range(1, 3)):
        P.append(("pqr"[i], t.choice("nnaaa")))
    ret = t.choice("na")
    if "a" in [y for _, y in P] and t.chance(1, 3) and not helper:
        P.append(("g", t.choice(["p1", "p2"])))
    if "a" in [y for _, y in P] and len(P) < 4 and t.chance(1, 3) and not helper:
        P.append(("z", "z"))
    if ret == "a" and "a" not in [y for _, y in P]:
        P[0] = (P[0][0], "a")
    rec = t.chance(1, 3)
    if not [1 for _, y in P if y in "na"]:
        rec = False
    b = Body(t, P, muls=not rec)
    if helper and ("a" in [y for _, y in P] or "a" not in helper[0]):
        b.helper = helper
    body = b.recursive(ret) if rec else b.body(ret, 3)
    # parameters that are not used have no type
    if all(used(p, body) for p, _ in P) or rec:
        keep = P
        if not all(used(p, body.replace("@f", "")) for p, _ in P):
            b.core = False
    else:
        keep = [x for x in P if used(x[0], body)]
    if rec:
        # a parameter that only goes round has no type
        inner = body
        for p, _ in P:
            if len(re.findall(r"(?<![\w-])%s(?![\w-])" % p, inner)) < 2:
                b.core = False
    if not keep:
        keep = [("p", "n")]
        body = "(+ p 1)"
        ret = "n"
    return keep, ret, body, b.core, b.labels


FUNS = {"p1": ["car", "cdr", "list", "nil?", "(cons 1)", "(\\ (x) (cons x x))", "(\\ (q) (car (cdr q)))"],
        "p2": ["cons", "list", "=", "(\\ (x y) (cons y x))", "(\\ (p r) (list r p r))", "(\\ (acc e) (cons e acc))"]}


class P22(core.Check):
    id = "P22"
    rule = "the compiler accepts the function and it is called with arguments of the inferred types"
    quick = (100, 8)
    thorough = (2000, 8)
    variants = ("dbg", "asanfull")
    assumptions = ["conditions are comparisons or predicates, and comparisons and predicates are used only as conditions (documented subset: their compiled value is a number)",
                   "no literal but numbers", "functions marked unsupported in the generated code are outside the subset", "no overflow in arithmetic", "at most four parameters"]

    def gen(self, t):
        if t.chance(1, 5):
            return self.bundled(t)
        helper = None
        defs = []
        if t.chance(1, 4):
            hp, hr, hb, hc, _ = function(t)
            if all(y in "na" for _, y in hp) and "@f" not in hb and hc:
                defs.append(("@h", hp, hb))
                helper = ([y for _, y in hp], hr)
        P, ret, body, core_, labels = function(t, helper)
        if helper and "@h" not in body:
            defs, helper = [], None
        defs.append(("@f", P, body))
        calls = []
        for _ in range(t.range(2, 5)):
            args = []
            for p, y in P:
                if y == "n":
                    args.append(str(t.draw(9) if t.chance(2, 3) else t.draw(15) - 5))
                elif y == "a":
                    args.append("'" + src(gen.value(t, 2, 5, False)))
                elif y == "z":
                    args.append("NIL")
                else:
                    args.append(t.choice(FUNS[y]))
            calls.append(self.grouped(t, "@f", args))
        # a helper in the way of argument types is outside
        labels = set(labels)
        return dict(kind="made", defs=defs, calls=calls, core=core_ and not (helper and "calls another function" in labels), labels=sorted(labels))

    @staticmethod
    def grouped(t, f, args):
        """A call, with its arguments all at once or in groups."""
        h, i, some = f, 0, t.chance(1, 5)
        while True:
            n = t.range(1, max(1, len(args) - i)) if some else len(args)
            h, i = "(%s)" % " ".join([h] + args[i:i + n]), i + n
            if i >= len(args):
                return h

    def bundled(self, t):
        f = t.choice(["foldl", "foldr", "map", "map2", "zip", "assoc", "caar", "cddr", "cadar", "caddr", "cadr", "cdar", "last", "rep", "truncl"])
        calls = []
        for _ in range(t.range(1, 4)):
            v = lambda: "'" + src(gen.value(t, 3, 5, False))
            l = lambda: "'" + src(gen.plain_list(t, 12)) if t.chance(4, 5) else v()
            f1, f2 = t.choice(FUNS["p1"]), t.choice(FUNS["p2"])
            a = {"foldl": [f2, v(), l()], "foldr": [f2, l(), v()], "map": [f1, l()], "map2": [f2, l(), l()], "zip": [l(), l()],
                 "assoc": [v(), "'" + src(lst(*[Pair(gen.value(t, 1, 2, False), gen.value(t, 1, 2, False)) for _ in range(t.size(6))]))],
                 "rep": [str(t.draw(14) - 2), v()], "truncl": [str(t.draw(14) - 2), l()]}.get(f, [v()])
            calls.append(self.grouped(t, f, a))
        return dict(kind="bundled", defs=[], calls=calls, core=False, labels=["bundled"])

    def show(self, item):
        return " ".join("(def %s (%s) %s)" % (n, " ".join(p for p, _ in P), b) for n, P, b in item["defs"]) + " " + " ".join(item["calls"])

    def classify(self, item):
        return item["labels"] + [item["kind"]]

    def run(self, items):
        d = core.scratch() + "/p22"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        try:
            return self.go(items, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def go(self, items, d):
        defs, names, owner = [], [], {}
        for i, it in enumerate(items):
            for n, P, b in it["defs"]:
                nm = lambda s: s.replace("@f", "f%d" % i).replace("@h", "h%d" % i)
                defs.append("(def %s (%s) %s)" % (nm(n), " ".join(p for p, _ in P), nm(b)))
                names.append(nm(n))
                owner[nm(n)] = i
        ok = set()
        flagged = set()
        made = bool(defs)
        if made:
            text = PRE + "\n".join(defs) + "\n"
            with open(d + "/t.l", "w", encoding="latin-1") as f:
                f.write(text)
            r = core.run_cmd([core.mnml("dbg"), build.REPO + "/bin/mnmlc", "-c", d + "/t.l", "-o", d + "/gm.c", "-m", "gm", "-s", ",".join(names)],
                             env=core.base_env({"PWD": d}), cpu=30)
            if not os.path.exists(d + "/gm.c") or r.hang or r.rc < 0:
                raise core.Fail("the compiler did not end well (%s)" % r.status(), source=text, output=r.out[-500:].decode("latin-1"))
            code = open(d + "/gm.c", encoding="latin-1").read()
            for blk in code.split("/*\n * FUNCTION   : ")[1:]:
                n = blk.split()[0]
                if n not in owner:
                    continue
                if re.search(r"Unsupported|abort\(", blk):
                    flagged.add(n)
                else:
                    ok.add(n)
            for i, it in enumerate(items):
                if it["core"] and "f%d" % i not in ok:
                    raise core.Fail("a function in the subset is not compiled", source="\n".join(defs[j] for j, n in enumerate(names) if owner[n] == i),
                                    flagged="f%d" % i in flagged)
            for v in self.variants:
                cc, pre, post, _ = build.VARIANTS[v]
                out = d + "/" + v
                os.makedirs(out)
                cmd = [shutil.which(cc), "-shared", "-fPIC", "-w", "-std=gnu99", "-DLISP_ENABLE_DEBUG", "-DLISP_ENABLE_SSE", "-msse4.2", "-I" + build.REPO + "/include"] + pre.split() + \
                      ["-O1" if v == "dbg" else "-O0", "-o", out + "/libgm.so", d + "/gm.c"]
                r = core.run_cmd(cmd, env=core.base_env({"PWD": d}), cpu=60, stack=512)
                if r.rc:
                    raise core.Fail("the generated code does not compile", source=text, cc=r.err[:1500].decode("latin-1"))
        run = [(i, it) for i, it in enumerate(items) if it["kind"] == "bundled" or ("f%d" % i in ok and not (len(it["defs"]) > 1 and "h%d" % i not in ok))]
        left = len(items) - len(run)
        body = []
        for i, it in run:
            nm = lambda s: s.replace("@f", "f%d" % i).replace("@h", "h%d" % i)
            cs = [nm(c) for c in it["calls"]]
            body.append('(prinl "%s%d")' % (MARK, i))
            body += ["(printl %s)" % c for c in cs]
            # cells: the second round must leave what the interpreted version leaves
            body.append("(prog %s)" % " ".join(cs))
            body.append("(setq delta0 (delta))")
            body.append("(prog %s)" % " ".join(cs))
            body.append("(setq delta1 (- (delta) delta0))")
            body.append("(prog %s)" % " ".join(cs))
            body.append("(prinl (- (- (delta) delta0) delta1))")
        body.append('(prinl "%sE")' % MARK)
        head = "(load 'std 'io 'logic 'math 'sys)\n(def delta () ((\\ ((a . f)) (- a f)) (slabinfo)))\n"
        slow = ("(load \"%s/t.l\")\n" % d if made else "") + '(load "@lib/iterators.l" "@lib/manips.l")\n'
        fast = ("(load 'gm)\n" if made else "") + "(load 'iterators 'manips)\n"
        a = core.run_mnml(head + slow + "\n".join(body) + "\n", variant="dbg", stack=512)
        want = self.split(a)
        if "E" not in want:
            return {"left_out_interpreted_run_fails": len(items)}
        for v in self.variants:
            res = core.run_mnml(head + fast + "\n".join(body) + "\n", variant=v, stack=512, env=core.base_env({"MNML_MODULE_PATH": d + "/" + v}))
            got = self.split(res)
            for i, it in run:
                w, g = want.get(str(i)), got.get(str(i))
                if v != "dbg":
                    # the count of cells differs there for other reasons
                    w, g = [x and x.rsplit("\n", 2)[0] for x in (w, g)]
                if w != g:
                    raise core.Fail("compiled and interpreted versions differ (%s, %s)" % (v, res.status()), item=self.show(it), interpreted=w, compiled=g,
                                    stderr=res.err[:2500].decode("latin-1"))
            if "E" not in got or res.rc == 99:
                raise core.Fail("the compiled run did not reach its end (%s, %s)" % (v, res.status()), stderr=res.err[:2500].decode("latin-1"))
        return {"compiled": len(ok), "rejected_or_unsupported": left, "calls": sum(len(it["calls"]) for _, it in run)}

    @staticmethod
    def split(res):
        d = {}
        for seg in res.out.decode("latin-1").split(MARK)[1:]:
            k, _, rest = seg.partition("\n")
            d[k] = rest
        return d


CHECK = P22()
