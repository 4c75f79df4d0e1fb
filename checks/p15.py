from vf import build, core


class P15(core.Check):
    id = "P15"
    rule = "the history releases cells and allocates again, or makes the pool grow"
    quick = (700, 12)
    thorough = (19000, 12)
    assumptions = ["at most 2^21 cells are live at once in one pool, its documented capacity (64 MB)", "the pool starts with 2048 cells and doubles"]

    def setup(self):
        self.exe = build.compile_c("slabh", ["slabh.c"], "dbg")

    def gen(self, t):
        ns = t.choice([1, 1, 2, 3])
        live = [0] * ns
        room = 40000
        style = t.draw(40)
        if style == 0:
            room = 300000
        if style == 1 and t.chance(1, 6):
            room = 1 << 21
        cmds = []
        for _ in range(t.range(2, 40)):
            s = t.draw(ns)
            k = t.draw(8)
            edge = t.choice([2048, 4096, 8192, 16384, 32768])
            if k < 4:
                n = t.choice([1, 2, 3, t.range(1, 60), t.range(1, 3000), edge, max(1, edge - live[s]), max(1, edge - live[s] - 1), max(1, edge - live[s] + 1)])
                if style < 2:
                    n = t.choice([n, t.range(1, room // 2), room - live[s]])
                n = min(n, room - live[s])
                if n > 0:
                    cmds.append("a %d %d" % (s, n))
                    live[s] += n
            elif k < 7:
                n = t.choice([1, 2, t.range(1, 60), t.range(1, 3000), live[s], max(0, live[s] - 1), live[s] // 2])
                how = t.choice([0, 1, 2, 1000 + t.draw(100000)])
                if how == 2:
                    n = min(n, (live[s] + 1) // 2)
                n = min(n, live[s])
                if n > 0:
                    cmds.append("f %d %d %d" % (s, how, n))
                    live[s] -= n
            else:
                cmds.append("v %d" % s)
            if live[s] == 1 << 21:
                cmds.append("x %d" % s)
        return cmds

    def fixed(self):
        n = 1 << 21
        return [[["a 0 %d" % n, "x 0", "v 0", "f 0 2 %d" % (n // 2), "a 0 %d" % (n // 2 - 1), "a 0 1", "x 0", "f 0 0 1", "a 0 1", "x 0"]],
                [["a 1 5", "a 0 %d" % (n // 2), "f 0 1 %d" % (n // 2 - 1), "a 0 %d" % (n - 1), "x 0", "a 1 5000"]]]

    def show(self, item):
        return "; ".join(item)

    def nontrivial(self, item):
        f = [i for i, c in enumerate(item) if c[0] == "f"]
        return bool(f) and any(c[0] == "a" for c in item[f[0]:]) or sum(int(c.split()[2]) for c in item if c[0] == "a") > 2048

    def classify(self, item):
        n = sum(int(c.split()[2]) for c in item if c[0] == "a")
        return ["over 100000 allocations" if n > 100000 else "over 2048 allocations" if n > 2048 else "small"]

    def run(self, items):
        text = "".join("\n".join(i) + "\nq\n" for i in items)
        res = core.run_cmd([self.exe], stdin=text.encode(), cpu=60, wall=200)
        out = res.out.decode("latin-1")
        if res.rc != 0 or not out.startswith("OK"):
            raise core.Fail("%s (%s)" % (out.strip() or "the allocator stopped", res.status()), history=text, stderr=res.err[-800:].decode("latin-1"))
        return {"allocations": sum(int(c.split()[2]) for i in items for c in i if c[0] == "a")}


CHECK = P15()
