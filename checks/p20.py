import re
from vf import core, gen, libspec, progcheck
from vf.model import *

MODULES = {"io": ["prin", "prinl", "print", "printl", "in", "out", "read", "readline"], "logic": ["<>", "and", "or", "not", "="],
           "math": ["+", "-", "*", "/", "%", "<", ">", "<=", ">="]}
WORD = re.compile(r"[^\s()'`~^\"]+")


def natives(text):
    """Load expression for the built-ins a program names."""
    words = set(WORD.findall(text)) & set(NATIVES)
    by = {}
    for w in sorted(words - {"def", "load", "quote"}):
        mod = next((m for m, ns in MODULES.items() if w in ns), "std")
        by.setdefault(mod, []).append(w)
    return "(load %s)" % " ".join("'(%s %s)" % (m, " ".join(ns)) for m, ns in sorted(by.items())) if by else ""


class LibCheck(core.Check):
    """Items are calls of library functions; the process loads the library in one of three ways."""
    names = ()
    extra = ""

    def gen(self, t):
        mode = t.weighted([(5, "scripts"), (3, "modules"), (2, "alone")])
        big = t.chance(1, 40)
        it = self.special(t)
        if it is None:
            it = libspec.make(t, self.names, big=big)
        it["mode"] = mode
        it["junk"] = t.draw(4) if t.chance(1, 2) else 0
        return it

    def special(self, t):
        return None

    def show(self, item):
        return "[%s] %s %s" % (item["mode"], " ".join(item["pre"]), item["call"])

    def nontrivial(self, item):
        return item["expect"] is not None

    def classify(self, item):
        return [u for u in sorted(set(item["used"]))] + ["mode " + item["mode"]]

    def text(self, it):
        vs = "".join("\n(printl %s)" % v for v in it["vars"])
        return "\n".join(it["pre"]) + "\n(printl " + it["call"] + ")" + vs + "\n"

    def junk(self, n):
        return "".join("(setq %s %s)\n" % (x, ["5", "'(1 2)", "NIL", "(\\ (a) a)"][(i + n) % 4]) for i, x in enumerate(libspec.JUNK)) if n else ""

    def run(self, items):
        items = [i for i in items if i["expect"] is not None]
        if not items:
            return {}
        groups = {}
        for i in items:
            if i["mode"] == "alone":
                # nothing but the file of the function and what the call itself names
                text = self.text(i)
                script = natives(text + "(prinl)") + "\n" + "".join('(load "@lib/%s.l")\n' % f for f in i["files"])
                self.go([i], script)
            else:
                groups.setdefault(i["mode"], []).append(i)
        for mode, its in groups.items():
            files = sorted({f for i in its for f in i["files"]})
            pre = "(load 'std 'io 'logic 'math)\n" + "".join('(load "@lib/%s.l")\n' % f for f in files)
            if mode == "modules":
                pre += "(load 'iterators 'manips)\n"
            self.go(its, pre)
        return {"calls": len(items)}

    def go(self, items, prelude):
        parts = [prelude.rstrip()]
        for k, i in enumerate(items):
            parts.append(self.junk(i["junk"]) + '(prinl "%s%d")' % (progcheck.MARK, k))
            parts.append(self.text(i))
        parts.append('(prinl "%sE")' % progcheck.MARK)
        script = "\n".join(parts) + "\n"
        res = core.run_mnml(script.encode("latin-1"))
        got = progcheck.split_output(res.out.decode("latin-1"))
        for k, i in enumerate(items):
            g = got.get(str(k))
            if g != i["expect"]:
                raise core.Fail("%s: result differs from the specification (%s)" % (i["key"], res.status() if "E" not in got else i["mode"]), call=self.show(i),
                                expected=i["expect"], got=g, script=script, stderr=res.err[-800:].decode("latin-1"))
        if "E" not in got or res.hang or res.rc < 0:
            raise core.Fail("did not reach its end (%s)" % res.status(), script=script)


class P20(LibCheck):
    id = "P20"
    rule = "the call is inside the documented domain and the specification gives a value for it"
    quick = (5000, 20)
    thorough = (400000, 20)
    names = libspec.LISTS
    assumptions = ["function arguments do not use free variables whose names occur in the library (the language has dynamic scope)",
                   "the list given to insert is ordered by the comparator", "truncr is given at most the length of the list, truncl too"]


CHECK = P20()
