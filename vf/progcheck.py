"""Checks that compare programs run by the interpreter with the reference model."""
import sys
from . import core
from .model import *

PRELUDE = "(load 'std 'io 'logic 'math)\n"
MARK = "\x1d@@\x1e"


def expected(items, fuel=20000, depth=900, prep=None, cls=Model):
    """Runs the model over the items (lists of forms) in one world. Items that leave the domain are left out, and the
    others run without them. Returns [(index, text)]."""
    drop = set()
    while True:
        m = cls(fuel, depth)
        if prep:
            prep(m)
        res = []
        bad = None
        for i, forms in enumerate(items):
            if i in drop:
                continue
            m.out = []
            m.refuel()
            m.depth = 0
            try:
                for f in forms:
                    m.top(f)
            except (Discard, RecursionError):
                bad = i
                break
            res.append((i, m.text(), fuel - m.fuel))
        if bad is None:
            return res
        drop.add(bad)


def sources(items, exp, src_fn=src):
    parts = []
    for i, _, _ in exp:
        parts.append("(prinl \"%s%d\")" % (MARK, i))
        parts += [src_fn(f) for f in items[i]]
    parts.append("(prinl \"%sE\")" % MARK)
    return "\n".join(parts) + "\n"


def split_output(out):
    """Text of each item by index; the end mark as 'E'."""
    d = {}
    for seg in out.split(MARK)[1:]:
        k, _, rest = seg.partition("\n")
        d[k] = rest
    return d


def compare(items, exp, res, script, what="the program", show_item=None):
    out = res.out.decode("latin-1")
    got = split_output(out)
    for i, text, _ in exp:
        if got.get(str(i)) != text:
            nxt = [str(j) for j, _, _ in exp if j > i] + ["E"]
            ended = nxt[0] not in got
            g = got.get(str(i))
            raise core.Fail("%s: output differs from the model%s" % (what, " (%s)" % res.status() if ended else ""),
                            item=(show_item or show_forms)(items[i]), expected=text, got=g, status=res.status(), script=script,
                            stderr=res.err[-1500:].decode("latin-1"))
    if "E" not in got:
        raise core.Fail("%s: did not reach its end (%s)" % (what, res.status()), status=res.status(), script=script,
                        stderr=res.err[-1500:].decode("latin-1"))
    if res.hang or res.rc < 0 or res.rc == 99:
        raise core.Fail("%s: %s" % (what, res.status()), status=res.status(), script=script, stderr=res.err[-3000:].decode("latin-1"))


def show_forms(forms):
    return "\n".join(src(f) for f in forms)


class ProgCheck(core.Check):
    """Items are programs (lists of forms)."""
    variants = ("dbg",)
    prelude = PRELUDE
    fuel = 20000
    opts = ()
    rc_ok = (0,)
    env = None
    prep = None

    def forms(self, item):
        return item

    def show(self, item):
        return show_forms(self.forms(item))

    def run(self, items):
        fs = [self.forms(i) for i in items]
        exp = expected(fs, self.fuel, prep=self.prep)
        script = self.prelude + sources(fs, exp)
        for v in self.variants:
            res = core.run_mnml(script.encode("latin-1"), variant=v, opts=self.opts, env=self.env and core.base_env(self.env))
            compare(fs, exp, res, script)
            if res.rc not in self.rc_ok:
                raise core.Fail("exit status %d" % res.rc, script=script, stderr=res.err[-1500:].decode("latin-1"))
        return {"executed": len(exp), "left_out_of_domain": len(items) - len(exp), "evaluations_in_model": sum(e[2] for e in exp)}
