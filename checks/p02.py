from vf import core, gen, layout, progcheck
from vf.model import *


class P02(core.Check):
    id = "P02"
    rule = "at least two expressions, laid out over several lines or with a comment, a tab, a long gap or no space between tokens"
    quick = (18000, 4)
    thorough = (800000, 4)
    assumptions = ["tokens other than parentheses are separated by at least one space", "no read-time prefix (` and ~ are in P04)",
                   "the text of -e is at most 100 kB and holds no NUL"]

    def gen(self, t):
        mode = t.choice(["channel", "file", "repl", "expr"])
        n = t.size(12) + 1
        vs = []
        for _ in range(n):
            v = gen.value(t, t.choice([0, 1, 2, 3]), 4)
            if t.chance(1, 40):
                v = lst(*[gen.atom(t) for _ in range(t.range(50, 400))])
            if t.chance(1, 60):
                for _ in range(t.range(20, 300)):
                    v = lst(v)
            if t.chance(1, 30):
                v = gen.strval(t, t.choice([100, 1100, 3000]))
            vs.append(v)
        wide = t.chance(1, 5)
        multi = t.chance(4, 5)
        if mode == "channel":
            es = [quote(v) if t.chance(1, 5) else v for v in vs]
            want = [show(e) for e in es]
        elif mode == "repl":
            es = [v if not isinstance(v, (Pair, str)) or (is_string(v) and t.chance(1, 2)) else quote(v) for v in vs]
            want = [show(v) for v in vs]
        else:
            es = [lst("printl", quote(v)) for v in vs]
            want = [show(v) for v in vs]
        return dict(mode=mode, text=layout.text(t, es, multi, wide), want=want, nl=t.chance(1, 2))

    def show(self, item):
        return "%s: %s" % (item["mode"], item["text"])

    def nontrivial(self, item):
        x = item["text"]
        return len(item["want"]) > 1 and ("\n" in x or "\t" in x or "#" in x or "   " in x or ")(" in x)

    def classify(self, item):
        ls = [len(l) for l in item["text"].split("\n")]
        return [item["mode"], "longest line over 1024" if max(ls) > 1024 else "longest line over 128" if max(ls) > 128 else "short lines"]

    def run(self, items):
        for it in items:
            self.one(it)
        return {"expressions": sum(len(i["want"]) for i in items)}

    def one(self, it):
        d = core.scratch() + "/cwd"
        text = it["text"].encode("latin-1")
        want = it["want"]
        if it["mode"] == "channel":
            with open(d + "/data", "wb") as f:
                f.write(text)
            script = "(load 'std 'io)\n(in \"data\" %s)\nT\n" % " ".join(["(printl (read))"] * (len(want) + 2))
            res = core.run_mnml(script)
            got = res.out.decode("latin-1")
            exp = "".join(w + "\n" for w in want + ["NIL", "NIL"])
        elif it["mode"] == "repl":
            res = core.run_mnml(text, mode="repl")
            got = ""
            for l in res.out.decode("latin-1").split("\n"):
                while l.startswith(": "):
                    l = l[2:]
                got += l + "\n"
            got = got[:-1] if got.endswith("\n\n") else got
            exp = "".join("> " + w + "\n" for w in want)
        elif it["mode"] == "expr":
            if len(text) > 100000:
                return
            res = core.run_mnml(b"(load '(io printl)) " + text, mode="expr")
            got = res.out.decode("latin-1")
            exp = "".join(w + "\n" for w in want)
        else:
            res = core.run_mnml(b"(load '(io printl))\n" + text)
            got = res.out.decode("latin-1")
            exp = "".join(w + "\n" for w in want)
        if got != exp or res.hang or res.rc < 0:
            a, b = got.split("\n"), exp.split("\n")
            i = 0
            while i < min(len(a), len(b)) and a[i] == b[i]:
                i += 1
            raise core.Fail("%s: the values read are not the ones written, at value %d (%s)" % (it["mode"], i + 1, res.status()),
                            text=it["text"], expected=exp, got=got, status=res.status(), stderr=res.err[-800:].decode("latin-1"))


CHECK = P02()
