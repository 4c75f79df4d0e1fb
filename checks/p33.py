import collections
from vf import build, core, gen
from vf.model import *

NR = 8
MARK = "\x1d@@\x1e"


def hx(s):
    return "".join("%02x" % (ord(c) & 255) for c in s) + "-"


def own(v):
    """A copy that shares no cell with the original."""
    return Pair(own(v.car), own(v.cdr)) if isinstance(v, Pair) else v


def last(v):
    while isinstance(v.cdr, Pair):
        v = v.cdr
    return v


def reaches(v, p):
    seen, st = set(), [v]
    while st:
        x = st.pop()
        while isinstance(x, Pair) and id(x) not in seen:
            if x is p:
                return True
            seen.add(id(x))
            st.append(x.car)
            x = x.cdr
    return False


def size(v):
    n, st = 0, [v]
    while st and n < 3000:
        x = st.pop()
        while isinstance(x, Pair):
            n += 1
            st.append(x.car)
            x = x.cdr
            if n > 3000:
                break
    return n


def alist(v):
    while isinstance(v, Pair):
        if not (isinstance(v.car, Pair) and isinstance(v.car.car, str)):
            return False
        v = v.cdr
    return v is NIL


def ordered(v):
    ks = [e.car.encode("latin-1") for e in to_py(v)]
    return ks == sorted(set(ks))


def holds_native(v, n=0):
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, Native):
            return True
        if isinstance(x, Pair):
            n += 1
            if n > 4000:
                return True
            st += [x.car, x.cdr]
    return False


def isseq(v):
    return isinstance(v, Pair) or v is NIL


def isstr(v):
    return v is NIL or is_string(v)


class Skip(Exception):
    pass


class One:
    """The model of one interpreter."""

    def __init__(self, mods, out):
        self.m = Model(3000, 300)
        self.mods = mods
        if not mods:
            self.m.globals = {}
        self.m.out = out
        self.r = [None] * NR


class P33(core.Check):
    id = "P33"
    rule = "the history uses two interpreters or more, or changes a list in place"
    quick = (700, 20)
    thorough = (19000, 20)
    assumptions = ["the ownership rules of the headers are kept: cons, conc, append, bind, setq, merge (its first argument, a fresh list), eval and prog consume, the others borrow",
                   "no structure contains itself", "interpreters are used one after another, not from several threads"]

    def gen(self, t):
        ops = []
        for j in range(t.range(4, 60)):
            k = t.choice(["val", "alist", "str", "sym", "val", "new"] if j < 6 and t.chance(2, 3) else ["num", "sym", "str", "val", "cons", "cons", "cons", "conc", "conc", "app", "app", "car", "cdr", "cdr", "dup", "equ", "equ", "equ", "cmp", "len", "iss", "cst", "esc", "mrg", "mrg",
                          "alist", "bind", "lkp", "may", "prog", "eval", "ev", "ev", "glo", "glo", "get", "drop", "new", "del", "chr", "fget", "fget", "fget", "fput", "fput", "fclr", "nil", "tru", "wld", "quo", "sye"])
            i = t.choice([0, 0, 0, 0, 0, 1, 1, 2])
            o = [k, i, t.draw(NR), t.draw(NR), t.draw(NR), t.draw(NR)]
            if k == "num":
                o.append(gen.num(t))
            elif k == "chr":
                o.append(gen.char(t).c)
            elif k in ("sym", "sye"):
                s = gen.symbol(t)
                if t.chance(1, 4):
                    s = t.choice(["a", "ab", "abcdefghijklmnop", "abcdefghijklmnoq", "abcdefghijklmnopqrst", "abcdefghijklmnopz", "v1", "v2", "x"])
                o += [s, t.draw(3)]
            elif k == "str":
                o.append("".join(chr(c.c) for c in to_py(gen.strval(t, 30))))
                if t.chance(1, 3):
                    o[-1] = "".join(t.choice(["\\n", "\\", "t", "n", "\\\\", "a", "\\t"]) for _ in range(t.draw(6)))
            elif k == "val":
                o.append(gen.value(t, 3, 4, True))
            elif k == "alist":
                names = ["a", "b", "ab", "x", "v1", "abcdefghijklmnop", "abcdefghijklmno", "B", "_a", "zz"]
                o.append(lst(*[Pair(t.choice(names), gen.value(t, 1, 2, False)) for _ in range(t.size(6))]))
            elif k == "cst":
                o.append(t.choice([1, 2, 3, 5, 8, 16, 31, 200]))
            elif k == "ev":
                if t.chance(1, 2):
                    o.append([lst("setq", t.choice(["ga", "gb"]), gen.build(t, gen.value(t, 2, 3, False))), lst("cons", "ga", "gb")])
                elif t.chance(1, 2):
                    o.append([t.choice(["ga", "gb", lst("list", "ga", "gb"), lst("conc", lst("list", "ga"), "gb")])])
                else:
                    o.append(gen.Prog(t, 25, upd=1).program(2, 2, 3))
            elif k == "fget":
                o.append(t.choice([0, 1, 1, 2, 3, 4, 7, 40]))
            elif k == "new":
                o.append(t.choice([0, 1, 1]))
            ops.append(o)
        return ops

    def show(self, item):
        return "; ".join(" ".join(" ".join(src(f) for f in x) if isinstance(x, list) else show(x) if isinstance(x, (Pair, Const, Ch)) else str(x) for x in o) for o in item)

    def classify(self, item):
        n = len({o[1] for o in item})
        return ["%d interpreter%s" % (n, "s" if n > 1 else "")] + (["over 30 steps"] if len(item) > 30 else [])

    def nontrivial(self, item):
        return len({o[1] for o in item}) > 1 or any(o[0] in ("conc", "app") for o in item)

    def setup(self):
        self.exes = {}
        for v in ("dbg", "asan"):
            self.exes[v] = build.compile_c("capih", ["capih.c"], v, dyn=True)

    def world(self, item, cmds, out, stats):
        """Runs the history on the model and makes the commands."""
        W = {}

        def pick(i, x, ok=None):
            """The first register from x on that holds something suitable."""
            if i in W:
                for y in range(x, x + NR):
                    v = W[i].r[y % NR]
                    if v is not None and (ok is None or ok(v)):
                        return y % NR
            raise Skip()
        for o in item:
            k, i, d, a, b, c = o[:6]
            try:
                if k in ("fget", "fput", "fclr"):
                    # the frames of compiled functions belong to no interpreter
                    f = (d * 8 + a) % 12
                    cmds.append("fclr 0 0" if k == "fclr" else "fput 0 %d" % f if k == "fput" else "fget 0 %d %d %d" % (f, o[6], b * 2))
                    stats["frame operations"] += 1
                    continue
                if i not in W and k not in ("new", "del"):
                    W[i] = One(1, out)
                    cmds.append("new %d 1" % i)
                w = W.get(i)
                if k == "new":
                    if i in W:
                        raise Skip()
                    W[i] = One(o[6], out)
                    cmds.append("new %d %d" % (i, o[6]))
                elif k == "del":
                    if i not in W:
                        raise Skip()
                    del W[i]
                    cmds.append("del %d" % i)
                    out.append("gone\n")
                elif k == "num":
                    w.r[d] = o[6]
                    cmds.append("num %d %d %d" % (i, d, o[6]))
                elif k == "chr":
                    w.r[d] = Ch(o[6])
                    cmds.append("chr %d %d %d" % (i, d, o[6]))
                elif k in ("nil", "tru", "wld", "quo"):
                    w.r[d] = {"nil": NIL, "tru": T, "wld": WILD, "quo": "quote"}[k]
                    cmds.append("%s %d %d" % (k, i, d))
                elif k == "sym":
                    w.r[d] = o[6][:16]
                    cmds.append("%s %d %d %s" % (("sym", "sy2", "sy3")[o[7]], i, d, hx(o[6])))
                elif k == "str":
                    w.r[d] = string(o[6]) if o[6] else NIL
                    cmds.append("str %d %d %s" % (i, d, hx(o[6])))
                elif k == "val":
                    v = own(o[6])
                    w.r[d] = v
                    # built by the interpreter's reader
                    cmds.append("ev %d %d %s" % (i, d, hx(src(quote(v)))) if w.mods and a & 1 else "rd %d %d %s" % (i, d, hx(src(v))))
                elif k == "alist":
                    w.r[d] = own(o[6])
                    cmds.append("rd %d %d %s" % (i, d, hx(src(o[6]))))
                elif k == "cons":
                    a, b = pick(i, a), pick(i, b, isseq if c < 6 else None)
                    v = Pair(w.r[a], w.r[b])
                    if size(v) > 400:
                        raise Skip()
                    w.r[d] = v
                    cmds.append("cons %d %d %d %d" % (i, d, a, b))
                elif k in ("conc", "app"):
                    a, b = pick(i, a, lambda v: isinstance(v, Pair) if c < 7 else isseq(v)), pick(i, b)
                    x, y = w.r[a], w.r[b]
                    if holds_native(x) or holds_native(y) or size(x) + size(y) > 400:
                        raise Skip()
                    if isinstance(x, Pair) and reaches(y, last(x)):
                        raise Skip()
                    if k == "app":
                        y = Pair(y, NIL)
                    if isinstance(x, Pair):
                        last(x).cdr = y
                        w.r[d] = x
                        stats["changes in place"] += 1
                    else:
                        w.r[d] = y
                    cmds.append("%s %d %d %d %d" % (k, i, d, a, b))
                elif k in ("car", "cdr"):
                    a = pick(i, a, isseq)
                    v = car(w.r[a]) if k == "car" else cdr(w.r[a])
                    if isinstance(v, Native):
                        raise Skip()
                    w.r[d] = v
                    cmds.append("%s %d %d %d" % (k, i, d, a))
                elif k == "dup":
                    a = pick(i, a)
                    xs, p = [], w.r[a]
                    while isinstance(p, Pair):
                        xs.append(p.car)
                        p = p.cdr
                    w.r[d] = lst(*xs, tail=p)
                    cmds.append("dup %d %d %d" % (i, d, a))
                elif k == "equ":
                    d, a = pick(i, d), pick(i, a)
                    if holds_native(w.r[d]) or holds_native(w.r[a]):
                        raise Skip()
                    e = equ(w.r[d], w.r[a])
                    out.append("%d %d\n" % (e, not e))
                    cmds.append("equ %d %d %d" % (i, d, a))
                elif k == "cmp":
                    d, a = pick(i, d, is_sym), pick(i, a, is_sym)
                    x, y = w.r[d], w.r[a]
                    x, y = x.encode("latin-1"), y.encode("latin-1")
                    out.append("%d %d\n" % ((x > y) - (x < y), x == y))
                    cmds.append("cmp %d %d %d" % (i, d, a))
                elif k == "sye":
                    d = pick(i, d, is_sym)
                    out.append("%d\n" % (w.r[d] == o[6][:16]))
                    cmds.append("sye %d %d %s" % (i, d, hx(o[6])))
                elif k == "len":
                    d = pick(i, d, isseq)
                    n, p = 0, w.r[d]
                    while isinstance(p, Pair):
                        n, p = n + 1, p.cdr
                    out.append("%d\n" % n)
                    cmds.append("len %d %d" % (i, d))
                elif k == "iss":
                    d = pick(i, d, isseq if b else None)
                    out.append("%d\n" % (w.r[d] is NIL or is_string(w.r[d])))
                    cmds.append("iss %d %d" % (i, d))
                elif k == "cst":
                    d = pick(i, d, isstr)
                    s = [ch.c for ch in to_py(w.r[d])][:o[6]]
                    out.append("%d %s 1\n" % (len(s), "".join("%02x" % (x & 255) for x in s)))
                    cmds.append("cst %d %d %d" % (i, d, o[6]))
                elif k == "esc":
                    a = pick(i, a, isstr)
                    r, esc = [], False
                    for ch in to_py(w.r[a]):
                        if esc:
                            r.append({110: Ch(10), 116: Ch(9)}.get(ch.c, ch))
                            esc = False
                        elif ch.c == 92:
                            esc = True
                        else:
                            r.append(ch)
                    w.r[d] = lst(*r)
                    cmds.append("esc %d %d %d" % (i, d, a))
                elif k == "mrg":
                    a, b = pick(i, a, lambda v: alist(v) and ordered(v)), pick(i, b, alist)
                    x, y = w.r[a], w.r[b]
                    if size(x) + size(y) > 300:
                        raise Skip()
                    w.r[d] = w.m.merge(x, y)
                    cmds.append("mrg %d %d %d %d" % (i, d, a, b))
                elif k == "bind":
                    a, b, c = pick(i, a, alist), pick(i, b), pick(i, c)
                    if size(w.r[a]) > 100 or size(w.r[b]) > 100 or size(w.r[c]) > 200:
                        raise Skip()
                    w.r[d] = w.m.bind(w.r[a], w.r[b], w.r[c])
                    cmds.append("bind %d %d %d %d %d" % (i, d, a, b, c))
                elif k == "lkp":
                    a, b = pick(i, a, alist), pick(i, b, is_sym)
                    v = w.m.lookup(w.r[a], w.r[b])
                    if holds_native(v):
                        raise Skip()
                    w.r[d] = v
                    cmds.append("lkp %d %d %d %d" % (i, d, a, b))
                elif k == "may":
                    d, a = pick(i, d, isseq if b else None), pick(i, a)
                    out.append("%d\n" % w.m.may_apply(w.r[d], w.r[a]))
                    cmds.append("may %d %d %d" % (i, d, a))
                elif k in ("prog", "eval"):
                    # on lists of symbols and data that are not calls of functions
                    if k == "eval":
                        a, b = pick(i, a, is_sym), pick(i, b, alist)
                    else:
                        a = pick(i, a, lambda v: isinstance(v, Pair) and all(not isinstance(e, Pair) for e in self.spine(v)))
                    x = w.r[a]
                    v = w.m.eval(w.r[b], x) if k == "eval" else w.m.prog(NIL, x)
                    if holds_native(v):
                        raise Skip()
                    w.r[d] = v
                    cmds.append("eval %d %d %d %d" % (i, d, a, b) if k == "eval" else "prog %d %d %d" % (i, d, a))
                elif k == "ev":
                    if not w.mods:
                        raise Skip()
                    n = len(out)
                    w.m.refuel()
                    w.m.depth = 0
                    v = NIL
                    for f in o[6]:
                        v = w.m.top(f)
                    if holds_native(v) or size(v) > 400:
                        # keep the effects, not the value
                        cmds.append("ev %d %d %s" % (i, d, hx(" ".join(src(f) for f in o[6]) + " NIL")))
                        v = NIL
                    else:
                        cmds.append("ev %d %d %s" % (i, d, hx(" ".join(src(f) for f in o[6]))))
                    w.r[d] = v
                    stats["evaluations"] += 1
                elif k == "glo":
                    a = pick(i, a)
                    name = ("ga", "gb", "gc", "gd")[b % 4]
                    if w.r[a] is NIL:
                        pass
                    w.m.globals[name] = w.r[a]
                    w.r[d] = name
                    if d == a:
                        w.m.globals[name] = name
                    cmds.append("sym %d %d %s" % (i, d, hx(name)))
                    cmds.append("glo %d %d %d" % (i, d, a))
                elif k == "get":
                    d = pick(i, d)
                    v = w.r[d]
                    if holds_native(v):
                        raise Skip()
                    out.append("1\n" if v is NIL else "2\n" if v is T else "7\n" if v is WILD else "3 %d\n" % (v.c if v.c < 128 else v.c - 256) if isinstance(v, Ch) else "4 %d\n" % v if isinstance(v, int)
                               else "5\n" if isinstance(v, Pair) else "6 %s\n" % v)
                    cmds.append("get %d %d" % (i, d))
                elif k == "drop":
                    d = pick(i, d)
                    w.r[d] = None
                    cmds.append("drop %d %d" % (i, d))
                stats["steps"] += 1
                if i in W and W[i].r[d] is not None and k not in ("equ", "cmp", "len", "iss", "cst", "may", "get", "sye"):
                    v = W[i].r[d]
                    if not holds_native(v):
                        cmds.append("pr %d %d %d" % (i, d, b & 1))
                        out.append((show(v) if b & 1 else prin(v)) + "\n")
            except Skip:
                stats["steps left out"] += 1
        cmds.append("fclr 0 0")
        # what every register holds at the end
        for i in sorted(W):
            for d in range(NR):
                v = W[i].r[d]
                if v is not None and not holds_native(v):
                    cmds.append("pr %d %d 1" % (i, d))
                    out.append(show(v) + "\n")
            cmds.append("del %d" % i)
            out.append("gone\n")

    @staticmethod
    def spine(x):
        while isinstance(x, Pair):
            yield x.car
            x = x.cdr

    def run(self, items):
        stats = collections.Counter()
        parts, exp = [], {}
        for j, it in enumerate(items):
            cmds, out = ["mark 0 %d" % j], []
            try:
                self.world(it, cmds, out, stats)
            except (Discard, RecursionError):
                stats["left_out_of_domain"] += 1
                continue
            parts.append("\n".join(cmds) + "\n")
            exp[j] = "".join(out)
        text = "".join(parts)
        for v, exe in self.exes.items():
            res = core.run_cmd([exe], stdin=text.encode("latin-1"), cpu=60, wall=200, env=core.base_env())
            got = {}
            for seg in res.out.decode("latin-1").split(MARK)[1:]:
                k, _, rest = seg.partition("\n")
                got[k] = rest
            for j, e in exp.items():
                g = got.get(str(j))
                if g != e:
                    gl, el = (g or "").split("\n"), e.split("\n")
                    at = next((x for x in range(min(len(gl), len(el))) if gl[x] != el[x]), min(len(gl), len(el)))
                    raise core.Fail("the embedded interpreters do something else (%s, %s)" % (v, res.status()), history=self.show(items[j]), line=at, expected=el[max(0, at - 2):at + 1],
                                    got=gl[max(0, at - 2):at + 1], commands=[p for p in parts if p.startswith("mark 0 %d\n" % j)][0][-3000:], stderr=res.err[-2000:].decode("latin-1"))
            if "E" not in got or res.rc != 0:
                raise core.Fail("the embedding program did not end well (%s, %s)" % (v, res.status()), commands=text[-3000:], stderr=res.err[-2500:].decode("latin-1"))
        return dict(stats)


CHECK = P33()
