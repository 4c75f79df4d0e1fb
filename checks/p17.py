from vf import core, gen, progcheck
from vf.model import *

OPS = ["+", "-", "*", "/", "%", "<", "<=", ">", ">=", "=", "<>"]


class P17(progcheck.ProgCheck):
    id = "P17"
    rule = "an operand is outside the 32-bit range, or the result wraps, or a division has a negative operand"
    quick = (12000, 30)
    thorough = (400000, 30)
    assumptions = ["divisors are not zero", "literals are within the 64-bit range"]

    def operand(self, t):
        k = t.draw(6)
        if k == 0:
            return t.draw(20) - 5
        if k < 3:
            return wrap(t.choice(gen.I64) + t.range(-2, 2))
        if k == 3:
            b = t.range(0, 63)
            v = wrap((1 << b) + t.range(-2, 2))
            return v if t.chance(1, 2) else wrap(-v)
        if k == 4:
            v = t.draw(1 << 32) - (1 << 31)
            return v
        return wrap(t.draw(1 << 63) * 2 + t.draw(2))

    def lit(self, t, n):
        """Ways to write or compute n."""
        k = t.draw(8)
        if k == 0 and n >= 0:
            return ("raw", "0" * t.range(1, 3) + str(n))
        if k == 1:
            a = self.operand(t)
            return lst("+", wrap(n - a), a)
        return n

    def tree(self, t, d):
        if d == 0 or t.chance(1, 3):
            return self.operand(t)
        op = t.choice(["+", "-", "*", "/", "%"])
        a, b = self.tree(t, d - 1), self.tree(t, d - 1)
        if op in "/%" and b == 0:
            b = 1
        return lst(op, a, b)

    def gen(self, t):
        k = t.draw(6)
        x, y = self.operand(t), self.operand(t)
        if t.chance(1, 6):
            y = wrap(x + t.range(-1, 1))
        op = t.choice(OPS)
        if op in "/%" and y == 0:
            y = t.choice([1, -1, 3])
        if k == 0:
            return [lst("printl", self.tree(t, 3))]
        if k == 1:
            return [lst("setq", "a", x), lst("setq", "b", y), lst("printl", lst(op, "a", "b"), "a", "b")]
        if k == 2:
            return [lst("def", "h", lst("a", "b"), lst(op, "a", "b")), lst("printl", lst("h", x, y))]
        if k == 3:
            # the order is total and agrees with itself
            return [Pair("printl", lst(*[lst(o, a, b) for o in OPS[5:] for a, b in ((x, y), (y, x), (x, x))]))]
        if k == 4:
            return [lst("printl", lst("+", lst("*", lst("/", x, y), y), lst("%", x, y)), lst("/", x, y), lst("%", x, y))] if y != 0 else \
                [lst("printl", x)]
        return [lst("printl", lst(op, x, y), x, y, quote(lst(x, y)))]

    def nontrivial(self, item):
        s = self.show(item)
        import re
        return any(abs(int(n)) > 2**31 for n in re.findall(r"-?\d+", s)) or ("/" in s or "%" in s) and "-" in s

    def fixed(self):
        b = [0, 1, -1, 2, -2, 3, -3, 7, -7, 2**31 - 1, 2**31, -2**31, 2**32, 2**63 - 1, -2**63, 2**63 - 2, -2**63 + 1, 2**62, -2**62]
        out = []
        for op in OPS:
            row = []
            for x in b:
                for y in b:
                    if op in "/%" and y == 0:
                        continue
                    row.append(lst(op, x, y))
            for i in range(0, len(row), 20):
                out.append([[Pair("printl", lst(*row[i:i + 20]))]])
        # one process per operator
        res = {}
        for it in out:
            res.setdefault(it[0][0].cdr.car.car, []).append(it[0])
        return list(res.values())


CHECK = P17()
