import importlib, os, re
from vf import build, core, gen, iogen, libspec, progcheck, wild
from vf.model import *
from vf.iomodel import *  # noqa: F401

CATS = ["BIND", "CHAN", "CLOS", "CONS", "EVAL", "MAKE", "MODL", "REFC", "SLOT", "SLAB"]
SOURCES = ["p04", "p05", "p06", "p07", "p08", "p09", "p10", "p12", "p17", "p18", "p19"]
BIG = re.compile(r"\d{9,}")


class P29(core.Check):
    id = "P29"
    rule = "the program prints, and its build or trace setting is not the reference's"
    variants = ("dbg", "rel", "nosse", "clang")
    quick = (1800, 4)
    thorough = (28000, 4)
    assumptions = ["addresses that a program prints (built-in functions shown as data) may differ",
                   "stack limits are not reached and a trace is shorter than 40 MB",
                   "arithmetic on values that are not numbers is not compared: it yields something derived from addresses"]

    def setup(self):
        super().setup()
        self.src = [importlib.import_module("checks." + s).CHECK for s in SOURCES]
        self.lib = importlib.import_module("checks.p20").CHECK

    def config(self, t):
        v = t.choice(["rel", "nosse", "clang", "dbg", "dbg"])
        dbg = None
        if v == "dbg" or t.chance(1, 3):
            k = t.draw(8)
            dbg = "" if k == 0 else ",".join(CATS) if k == 1 else t.choice(CATS) if k < 5 else ",".join(c for c in CATS if t.chance(1, 3))
            if t.chance(1, 10):
                dbg += t.choice([",", ",TAIL", ",UNKNOWN", "NOTHING", ",,BIND", "bind", "," + "X" * 300])
        return v, dbg

    def gen(self, t):
        v, dbg = self.config(t)
        it = dict(variant=v, debug=dbg, mode=t.choice(["file", "file", "expr", "repl"]), opt=["-d"] if t.chance(1, 4) else [])
        k = t.draw(12)
        if k < 5:
            n = t.draw(len(self.src))
            c = self.src[n]
            it.update(kind=SOURCES[n], text=[src(f) for _ in range(t.range(1, 3)) for g in c.forms(c.gen(t)) for f in (g[1] if isinstance(g, tuple) else [g])])
        elif k < 7:
            w = wild.Wild(t, 40, strict=True)
            it.update(kind="wild", text=["(setq ga '(1 (2 x) \"s\"))", "(setq gb 'sym)", "(setq gc 12)"] + [src(lst("printl", w.expr([], t.range(2, 5)))) for _ in range(t.range(1, 4))])
        elif k < 9:
            it.update(kind="symbols", text=self.symbols(t))
        elif k < 11:
            it.update(kind="library", item=dict(libspec.make(t, self.lib.names), mode=t.choice(["scripts", "modules"])))
            i = it["item"]
            it["mode"] = "file"
            it["text"] = ['(load "@lib/%s.l")' % f for f in i["files"]] + (["(load 'iterators 'manips)"] if i["mode"] == "modules" else []) + [self.lib.text(i)]
        else:
            it.update(kind="io", item=iogen.item(t, 1, 1), mode="file")
            it["text"] = [it["item"]["text"].split(iogen.EXTRA_FUNS)[-1]]
        return it

    def symbols(self, t):
        """Names that differ in one place only, in every position."""
        n = t.range(1, 16)
        base = "".join(t.choice("abcdefghijklmnopqrstuvwxyz") for _ in range(n))
        names = [base]
        for _ in range(t.range(1, 6)):
            b = t.choice(names)
            k = t.draw(3)
            p = t.draw(len(b))
            x = b[:p] + t.choice("abcxyz-+9") + b[p + 1:] if k == 0 else b[:p + 1] if k == 1 else (b + t.choice("abc"))[:16]
            if gen.symbol_ok(x) and x not in gen.TAKEN:
                names.append(x)
        names = [x for x in dict.fromkeys(names) if gen.symbol_ok(x) and x not in gen.TAKEN]
        out = []
        for i, x in enumerate(names):
            out.append("(setq %s %d)" % (x, i) if t.chance(2, 3) else "(def %s (%s) (list %s %s))" % (x, t.choice(names), t.choice(names), t.choice(names)))
        al = " ".join("('%s . %d)" % (x, i) for i, x in enumerate(names))
        for _ in range(t.range(2, 8)):
            a, b = t.choice(names), t.choice(names)
            out.append("(printl %s)" % t.choice(["%s %s" % (a, b), "(= '%s '%s)" % (a, b), "(match '%s %s (_ . 'none))" % (a, " ".join("(%s . %d)" % (x, i) for i, x in enumerate(names) if t.chance(1, 2))),
                       "(let ((%s . 5) (%s . 6)) (list %s))" % (a, b if b != a else "q", " ".join(names)), "((\\ (%s) (list %s)) 7)" % (a, " ".join(names)),
                       "(str '%s)" % a, "(sym (str '%s))" % a, "(sym \"%s\")" % b, "(= (sym \"%s\") '%s)" % (a, b), "(<> '%s '%s)" % (a, b), "(let ((%s . '%s)) (<- '%s 9) (list %s))" % (a, b, a, " ".join(names))]))
        return out

    def show(self, it):
        return {"kind": it["kind"], "build": it["variant"], "debug": it["debug"], "mode": it["mode"], "program": "\n".join(it["text"])}

    def nontrivial(self, it):
        return any("prin" in x for x in it["text"])

    def classify(self, it):
        return [it["kind"], it["variant"] + (" traced" if it["debug"] is not None else "")]

    def run(self, items):
        n = {"compared": 0, "left_out_of_domain": 0}
        for it in items:
            a = self.one(it, "dbg", None)
            if a is None:
                n["left_out_of_domain"] += 1
                continue
            if it["debug"] and sum(map(len, it["text"])) > 3000:
                n["left_out_of_domain"] += 1
                continue
            b = self.one(it, it["variant"], it["debug"])
            if b is None:
                n["trace_too_long"] = n.get("trace_too_long", 0) + 1
                continue
            n["compared"] += 1
            det = dict(self.show(it), reference=a[1][-600:], got=b[1][-600:])
            if b[3] or b[0] != a[0]:
                raise core.Fail("ends differently (exit %s instead of %s)" % (b[0], a[0]), stderr=b[2][-800:], **det)
            if b[1] != a[1]:
                raise core.Fail("prints something else", **det)
            if b[4] != a[4]:
                raise core.Fail("leaves other files behind", **det)
            if it["debug"] is None or it["variant"] == "rel":
                if b[2] != a[2]:
                    raise core.Fail("standard error differs", expected=a[2][-400:], stderr=b[2][-400:], **det)
        return n

    def one(self, it, variant, debug):
        if it["kind"] == "io":
            root = core.scratch() + "/io"
            try:
                iogen.expected(it["item"], root, 3000)
            except (Discard, RecursionError):
                return None
            extra = {} if debug is None else {"MNML_DEBUG": debug}
            res, files = iogen.run(it["item"], variant, extra=extra, fsize=128, stack=512)
        else:
            files = None
            env = core.base_env()
            if debug is not None:
                env["MNML_DEBUG"] = debug
            wild.prepare(core.scratch() + "/cwd")
            text = progcheck.PRELUDE + "\n".join(it["text"]) + "\n"
            res = core.run_mnml(text.encode("latin-1"), variant=variant, env=env, mode=it["mode"], opts=it["opt"], fsize=128, stack=512)
        out = BIG.sub("#", res.out.decode("latin-1"))
        if variant == "dbg" and debug is None and (res.hang or res.rc < 0 or len(res.err) > 50000):
            return None
        if debug and os.path.getsize(core.scratch() + "/.err") > 40 << 20:
            return None
        return res.rc, out, res.err.decode("latin-1"), res.hang, files


CHECK = P29()
