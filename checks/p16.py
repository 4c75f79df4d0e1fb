from vf import build, core, gen


class P16(core.Check):
    id = "P16"
    rule = "the history adds at least four names and removes or replaces one"
    quick = (6000, 10)
    thorough = (221000, 10)
    variants = ("dbg", "asan")
    assumptions = ["names of at most 16 characters without NUL", "the height is at most twice the logarithm of the size, as for any red-black tree"]

    def setup(self):
        self.exe = {v: build.compile_c("treeh", ["treeh.c"], v) for v in self.variants}

    def keys(self, t):
        n = t.choice([2, 4, 8, 16, 40, 120, 300])
        style = t.draw(5)
        if style == 0:
            ks = ["k%03d" % i for i in range(n)]
        elif style == 1:
            ks = [gen.symbol(t) for _ in range(n)]
        elif style == 2:
            ks = [("common-prefix-%02x" % i)[:16] for i in range(min(n, 250))]
        elif style == 3:
            ks = ["a" * (1 + i % 16) + ("b" if i >= 16 else "") for i in range(min(n, 30))]
            ks = [k[:16] for k in ks]
        else:
            ks = ["%c%c" % (97 + i % 26, 97 + i // 26 % 26) for i in range(n)]
        return list(dict.fromkeys(ks))

    def gen(self, t):
        ks = self.keys(t)
        order = t.draw(4)
        cmds = []
        # a bulk of insertions in some order
        m = t.draw(len(ks) + 1)
        seq = list(range(m))
        if order == 1:
            seq.reverse()
        elif order == 2:
            seq = sorted(seq, key=lambda i: (i * 7919) % 997)
        elif order == 3:
            seq = [x for p in zip(seq, reversed(seq)) for x in p][:m]
        cmds += ["a %s %d" % (ks[i], t.draw(1000)) for i in seq]
        for _ in range(t.range(1, 80)):
            k = ks[t.draw(len(ks))]
            op = t.draw(10)
            if op < 3:
                cmds.append("a %s %d" % (k, t.draw(1000)))
            elif op < 7:
                cmds.append("r %s" % k)
            elif op == 7:
                cmds.append("u %s %d" % (k, t.draw(1000)))
            elif op == 8:
                cmds.append("g %s" % k)
            else:
                cmds.append("s %s" % k)
        # take it all down, in one direction or the other
        if t.chance(1, 3):
            rest = sorted(ks, reverse=t.chance(1, 2))
            if t.chance(1, 2):
                rest = rest[:len(rest) // 2]
            cmds += ["r %s" % k for k in rest]
        cmds.append("d")
        return cmds

    def show(self, item):
        return "; ".join(item)

    def nontrivial(self, item):
        return sum(c[0] == "a" for c in item) >= 4 and any(c[0] in "ru" for c in item)

    def classify(self, item):
        n = len({c.split()[1] for c in item if c[0] == "a"})
        return ["over 100 names" if n > 100 else "over 10 names" if n > 10 else "few names"]

    def run(self, items):
        text = "".join("\n".join(i) + "\nq\n" for i in items)
        for v in self.variants:
            res = core.run_cmd([self.exe[v]], stdin=text.encode("latin-1"), cpu=60, wall=200, stack=512)
            out = res.out.decode("latin-1")
            if res.rc != 0 or not out.startswith("OK"):
                raise core.Fail("%s (%s, %s)" % (out.strip() or "the tree stopped", res.status(), v), history=text, stderr=res.err[-1500:].decode("latin-1"))
        return {"operations": sum(len(i) for i in items)}


CHECK = P16()
