import os, re, socket
from checks.p28 import Rnd, free_port, listener
from vf import core
from vf.model import *

PRE = """(load 'io 'std 'unix)
(setq srv (listen PORT))
(printl srv)
"""
FILES = {"one.l": "(dup 99)\n'one\n", "two.l": "(load \"one.l\")\n", "three.l": "(load \"two.l\")\n", "empty.l": "", "note.l": "# nothing\n", "broken.l": "(1 2", "text": "some text\nmore\n"}
LOADS = {"one.l": 1, "two.l": 2, "three.l": 3}
MODS = ["(logic not)", "(math +)", "(logic and)", "(sys slabinfo)", "(nomodule x)", "(std nosuch)"]
TEXT = "(" + " ".join("^" + c if c != " " else "^ " for c in "some text") + ")"
EMFILE, EBADF = "24", "9"


class Table:
    """The descriptors of the process: the lowest free number is the one given."""

    def __init__(self, limit):
        self.limit = limit
        # the standard ones and the script; what each is, and is open for
        self.used = {0: ("other", 0, "r"), 1: ("std", 1, "w"), 2: ("std", 2, "w"), 3: ("other", 3, "r")}
        self.pipes = []         # lines written and not read
        self.ins = []           # what is being read from, written to
        self.outs = []
        self.base = 4
        self.held = []
        self.pending = 0
        self.lines = 0
        self.full = self.gone = self.heard = 0

    def free(self):
        return self.limit - len(self.used)

    def clone(self):
        t = Table(self.limit)
        t.__dict__.update(self.__dict__)
        t.used, t.held, t.pipes, t.ins, t.outs = dict(self.used), list(self.held), list(self.pipes), list(self.ins), list(self.outs)
        return t

    def ends(self, i, mode):
        return sum(1 for x in self.used.values() if x == ("pipe", i, mode))

    def take(self, mode=("other", 0, "rw")):
        for i in range(self.limit):
            if i not in self.used:
                self.used[i] = mode
                return i
        self.full += 1
        return None


class P34(core.Check):
    id = "P34"
    rule = "at least three operations other than closing"
    quick = (3000, 2)
    thorough = (40000, 2)
    assumptions = ["Linux: the lowest free descriptor is given", "descriptors the program did not open itself are not closed"]

    def op(self, t, deep, infile, outfile):
        k = t.weighted([(3, "dup"), (2, "dupto"), (4, "pipe"), (2, "listen"), (1, "busy"), (2, "connect"), (1, "refused"), (1, "badname"), (2, "accept"), (4, "close"), (1, "mod"),
                        (2, "load"), (5, "in"), (5, "out"), (3 if infile == "text" else 0, "line"), (3 if outfile == "made" else 0, "say"), (30 if infile == "fd" else 0, "hear"), (30 if outfile == "fd" else 0, "talk")])
        if deep > 3 and k in ("in", "out"):
            k = "dup"
        if k in ("dup", "dupto", "close"):
            return [k, t.draw(24), t.draw(24)]
        if k == "load":
            return [k, t.choice(sorted(LOADS) * 2 + ["none.l", "empty.l", "note.l", "broken.l"])]
        if k == "mod":
            return [k, t.choice(MODS)]
        if k == "in":
            f = t.choice(["text", "text", "none", "fd", "fd", "fd", "bad", "NIL"])
            return [k, f, t.draw(24), self.op(t, deep + 1, infile if f in ("none", "bad") else f, outfile)]
        if k == "out":
            f = t.choice(["made", "made", "nodir", "fd", "fd", "fd", "bad", "NIL"])
            return [k, f, t.draw(24), self.op(t, deep + 1, infile, f)]
        return [k]

    def gen(self, t):
        n = t.size(40) + 1
        ops = []
        burst = t.chance(1, 2)
        talk = t.chance(1, 2)
        for _ in range(n):
            if burst and t.chance(1, 12):
                # all there are
                ops += [[t.choice(["pipe", "listen", "dup"]), t.draw(24), 0] for _ in range(t.range(4, 14))]
            if talk and t.chance(1, 4):
                # lines into pipes and out of them, with something in between
                ops += t.choice([[["pipe"]], []])
                for _ in range(t.range(1, 3)):
                    ops.append(["out", "fd", t.draw(24), ["talk"]])
                ops.append(self.op(t, 0, False, False))
                for _ in range(t.range(1, 3)):
                    ops.append(["in", "fd", t.draw(24), t.choice([["hear"], ["hear"], ["out", "fd", t.draw(24), ["hear"]], ["out", "made", 0, ["hear"]]])])
            ops.append(self.op(t, 0, False, False))
        return dict(limit=t.range(9, 24), ops=ops)

    def show(self, it):
        return it

    def classify(self, it):
        return sorted({o[0] for o in it["ops"]})

    def nontrivial(self, it):
        return sum(1 for o in it["ops"] if o[0] not in ("close", "mod")) >= 3

    # The program is written as its descriptors are known: each depends on those before it.

    def text(self, o, tab):
        """The operation as text and what it may give; the table is what it is after it."""
        k = o[0]
        if k in ("dup", "dupto", "close", "in", "out"):
            own = [x for x in sorted(tab.used) if x >= tab.base and x != tab.srv and x not in tab.held]
            have = sorted(tab.used)

            def pick(n, of):
                return of[n % len(of)] if of else 77

            if k in ("in", "out"):
                # the end of a pipe, most often: for reading, of one with lines or with no one to write
                ends = [x for x in have if tab.used[x][0] == "pipe" and tab.used[x][2] == ("r" if k == "in" else "w")]
                if k == "in":
                    ends = [x for x in ends if tab.pipes[tab.used[x][1]] or not tab.ends(tab.used[x][1], "w")] or ends
                if ends and o[2] % 4:
                    have = ends
        if k == "dup":
            fd = 77 if o[1] == 23 else pick(o[1], have)
            if fd == 77:
                return "(dup 77)", {EBADF}
            r = tab.take(tab.used[fd])
            return "(dup %d)" % fd, {EMFILE if r is None else str(r)}
        if k == "dupto":
            fd = 77 if o[1] == 23 else pick(o[1], have)
            to = tab.base + o[2] % (tab.limit - tab.base + 2)
            if to == tab.srv or to in tab.held:
                to = 77
            if fd == 77 or to >= tab.limit:
                return "(dup %d %d)" % (fd, to), {EBADF}
            tab.used[to] = tab.used[fd]
            return "(dup %d %d)" % (fd, to), {str(to)}
        if k == "close":
            fd = pick(o[1], own) if o[1] < 22 else 77
            if fd == 77:
                return "(close 77)", {"NIL"}
            del tab.used[fd]
            return "(close %d)" % fd, {"T"}
        if k == "pipe":
            if tab.free() < 2:
                tab.full += 1
                return "(pipe)", {"NIL"}
            a, b = tab.take(("pipe", len(tab.pipes), "r")), tab.take(("pipe", len(tab.pipes), "w"))
            tab.pipes.append(0)
            return "(pipe)", {"(%d . %d)" % (a, b)}
        if k == "listen":
            r = tab.take()
            return "(listen 0)", {"NIL" if r is None else str(r)}
        if k == "busy":
            return "(listen %d)" % tab.taken, {"NIL"}
        if k == "refused":
            return '(connect "127.0.0.1" "1")', {"NIL"}
        if k == "badname":
            return '(connect "127.0.0.1" "nosuchservice")', {"NIL"}
        if k == "connect":
            if tab.pending > 3:
                return '(connect 5 6)', {"NIL"}
            r = tab.take()
            if r is not None:
                tab.pending += 1
            return '(connect "127.0.0.1" "%d")' % tab.port, {"NIL" if r is None else str(r)}
        if k == "accept":
            if tab.free() == 0:
                tab.full += 1
                return "(car (accept srv))", {"NIL"}
            if tab.pending == 0:
                return "(car (accept 77))", {"NIL"}
            tab.pending -= 1
            return "(car (accept srv))", {str(tab.take())}
        if k == "mod":
            if "no" in o[1].split()[0] or "nosuch" in o[1]:
                return "(load '%s)" % o[1], {"NIL"}
            return "(load '%s)" % o[1], {"(%s)" % o[1].split()[1][:-1]} | ({"NIL"} if tab.free() == 0 else set())
        if k == "load":
            return '(load "%s")' % o[1], {"one" if LOADS.get(o[1], 99) <= tab.free() else "NIL"}
        if k == "line":
            return "(readline)", {TEXT}
        if k == "say":
            tab.lines += 1
            return '(prinl "line")', {"(^l ^i ^n ^e)"}
        if k == "talk":
            kind, i, _ = tab.outs[-1]
            if kind == "pipe":
                if tab.ends(i, "r"):
                    tab.pipes[i] += 1
                else:
                    tab.gone += 1
                return '(prinl "line")', {"(^l ^i ^n ^e)"}
            return "(list 1)", {"(1)"}
        if k == "hear":
            kind, i, _ = tab.ins[-1]
            if kind == "pipe" and tab.pipes[i]:
                tab.pipes[i] -= 1
                tab.heard += 1
                return "(readline)", {"(^l ^i ^n ^e)"}
            if kind == "pipe" and not tab.ends(i, "w"):
                return "(readline)", {"EOF"}
            return "(list 1)", {"(1)"}
        # in, out
        name = {"text": '"text"', "none": '"none"', "made": '"made"', "nodir": '"nodir/made"', "bad": "77", "NIL": "NIL", "fd": str(pick(o[2], have))}[o[1]]
        mode = "r" if k == "in" else "w"
        tag = {"NIL": tab.used[0 if k == "in" else 1], "fd": tab.used.get(pick(o[2], have)), "text": ("other", 0, mode), "made": ("other", 0, mode)}.get(o[1])
        r = tab.take(tag) if tag and mode in tag[2] else None
        if r is None:
            # what would have been done is not
            tab = tab.clone()
            if not (tag or k == "in" and tab.ins or k == "out" and tab.outs):
                tag = ("other", 0, "rw")
            if tag:
                (tab.ins if k == "in" else tab.outs).append(tag)
            return "(%s %s %s)" % (k, name, self.text(o[3], tab)[0]), {"NIL"}
        (tab.ins if k == "in" else tab.outs).append(tag)
        if o[1] == "made":
            tab.made = True
        tab.held.append(r)
        body, want = self.text(o[3], tab)
        tab.held.pop()
        (tab.ins if k == "in" else tab.outs).pop()
        del tab.used[r]
        return "(%s %s %s)" % (k, name, body), want

    def run(self, items):
        n = {"operations": 0, "without a descriptor left": 0, "lines through a pipe": 0, "written to a pipe no one reads": 0}
        for it in items:
            self.one(it, n)
        return n

    def one(self, it, n):
        d = core.scratch()
        held = []
        try:
            for k, v in FILES.items():
                with open(d + "/cwd/" + k, "w") as f:
                    f.write(v)
            if os.path.exists(d + "/cwd/made"):
                os.unlink(d + "/cwd/made")
            def kinds(o):
                return {o[0]}.union(*[kinds(x) for x in o if isinstance(x, list)])
            port = free_port(Rnd(), held) if any("connect" in kinds(o) for o in it["ops"]) else 0
            taken = listener()
            tab = Table(it["limit"])
            tab.port, tab.taken, tab.made = port, taken.getsockname()[1], False
            tab.srv = tab.take()
            want, script = [{str(tab.srv)}], PRE.replace("PORT", str(port))
            for o in it["ops"]:
                x, w = self.text(o, tab)
                script += "(printl %s)\n" % x
                want.append(w)
            script += "(printl 'end)\nT\n"
            path = d + "/cwd/t.l"
            with open(path, "w") as f:
                f.write(script)
            res = core.run_cmd(["/bin/sh", "-c", 'ulimit -n %d; exec "$0" "$@"' % it["limit"], core.mnml("dbg"), "-d", path])
            got = res.out.decode("latin-1").split("\n")
            what = dict(script=script, output=res.out[-3000:].decode("latin-1"), stderr=res.err[-1500:].decode("latin-1"))
            want.append({"end"})
            for i, w in enumerate(want):
                if i >= len(got) or got[i] not in w:
                    raise core.Fail("line %d of the output is not what the descriptors allow" % (i + 1), expected=" or ".join(sorted(w)), got=got[i] if i < len(got) else res.status(), **what)
            if got[len(want):] != [""]:
                raise core.Fail("more output than the operations give", **what)
            if res.rc != 0:
                raise core.Fail("the program ended with %s" % res.status(), **what)
            made = ""
            if os.path.exists(d + "/cwd/made"):
                with open(d + "/cwd/made") as f:
                    made = f.read()
            elif tab.made:
                raise core.Fail("a file opened for output is not there", **what)
            if made != "line\n" * tab.lines:
                raise core.Fail("the output file holds %r for %d lines written" % (made[:200], tab.lines), **what)
            n["operations"] += len(it["ops"])
            n["without a descriptor left"] += tab.full
            n["lines through a pipe"] += tab.heard
            n["written to a pipe no one reads"] += tab.gone
        finally:
            for u in held:
                u.close()


CHECK = P34()
