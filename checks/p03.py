import re
from vf import core, gen, layout, progcheck
from vf.model import *

VOCAB = ["(", ")", "(", ")", "((", "))", "()", ".", " . ", "'", "`", "~", "'(", "`(", "~(", "''", "'`", "\"", "\"a", "a\"", "\"\\\"", "\\", "^", "^a",
         "^\\", "^\\n", "^\\x", "^ ", "NIL", "T", "_", "quote", "ARGV", "ENV", "CONFIG", "x", "abc", "symbolofsixteenc", "symbolofseventeen", "-", "-1", "0", "12",
         "99999999999999999999", "-9223372036854775808", "#", "# c", "\n", "\n", " ", " ", "\t", "\r", "\0", "\x01", "\x7f", "\x80", "\xff", "\xc3\xa9", "@", "{", "}",
         "'x", "`x", "~x", "`ARGV", "~CONFIG", "~'(1 2)", "`'(a . b)", "(quote", "(quote . ", "'NIL", "~NIL", "`T", "'_", "1x", "x1", "-x", "-1x", "..", ".5", "5.",
         "NILx", "Tx", "TT", "__", ":", ";", ",", "[", "]"]
BADTOK = [")", "'\"", "''x", "'^a", "'^", "')", "`)", "~\"a\"", "' x", "~ ", "'#", "^\x01", "^\\q", "^\xe9", "\x01", "\x7f", "\x80", "\xff", "\xe9", "'\x02"]
# well delimited, but not expressions
BADLIST = ["(a . b c)", "(. a)", "( . )", "(a . )", ".", "(a . b . c)", "((a . b c) d)", "(x (. y) z)", "'(a . )", "(() . . 1)", "(1 . 2 3 (4 5))"]

HEAD = re.compile(r"\((?=(?:\s|#[^\n]*\n)*['`~(])")


def tame(s, evaluated):
    """No list, quoted or not, at the head of a list: calling data as if it were a function is not about reading."""
    if evaluated:
        s = s.replace("`(", "'(")
    return HEAD.sub("(x ", s)


def soup(t, n):
    return "".join(t.choice(VOCAB) + ("" if t.chance(1, 2) else " ") for _ in range(n))


def raw(t, n):
    return "".join(chr(t.draw(256)) for _ in range(n))


def valid(t):
    es = [gen.value(t, 3, 4) for _ in range(t.range(1, 4))]
    es = [quote(e) if isinstance(e, (Pair, str)) and t.chance(1, 2) else e for e in es]
    return layout.text(t, es, t.chance(1, 2), False)


def mutated(t):
    s = valid(t)
    for _ in range(t.range(1, 4)):
        i = t.draw(len(s) + 1)
        k = t.draw(7)
        if k == 0:
            s = s[:i] + s[i + 1:]
        elif k == 1:
            s = s[:i] + t.choice(VOCAB) + s[i:]
        elif k == 2:
            s = s[:i] + chr(t.draw(256)) + s[i + 1:]
        elif k == 3:
            s = s[:i]
        elif k == 4:
            j = t.draw(len(s) + 1)
            s = s[:i] + s[min(i, j):max(i, j)] + s[i:]
        elif k == 5:
            s = s[i:] + s[:i]
        else:
            j = i + t.draw(10)
            s = s[:i] + s[j:]
    return s


def oneline(t):
    """A complete expression on one line and what the REPL prints for it."""
    v = gen.value(t, t.choice([0, 1, 2]), 3)
    e = quote(v) if isinstance(v, (Pair, str)) else v
    s = src(e)
    if "\n" in s:
        e, v = 7, 7
        s = "7"
    return s, show(v)


def badline(t):
    k = t.draw(4)
    if k == 0:
        return t.choice(BADLIST)
    # something unfinished, then a token that cannot be, then anything
    s = ""
    if t.chance(1, 2):
        s = "(" + " ".join(t.choice(["a", "1", "(b", "(c (d", "^x", "\"s\"", "NIL", "'y", "(z)"]) for _ in range(t.draw(4))) + " "
    bad = t.choice(BADTOK)
    if s and bad == ")":
        bad = "\x01"
    rest = soup(t, t.draw(6)) if t.chance(1, 2) else raw(t, t.draw(8))
    return s + bad + rest.replace("\n", " ").replace("\r", " ")


def long_line(t):
    k = t.draw(6)
    n = t.choice([255, 256, 1000, 1023, 1024, 1025, 2047, 4096, 9000]) + t.draw(4)
    if k == 0:
        return "9" * n
    if k == 1:
        return "a" * n
    if k == 2:
        return "\"" + "b" * n
    if k == 3:
        return "(" * min(n, 2000)
    if k == 4:
        return "(" * 300 + t.choice(["x", "\x01", ""]) + ")" * t.draw(301)
    return t.choice(["'", "^", ".", "#", "~", "`", "\\", "-", "\""]) * n


class P03(core.Check):
    id = "P03"
    rule = "the input holds a byte sequence that is not a well-formed expression"
    quick = (2600, 2)
    thorough = (88000, 2)
    variants = ("dbg", "asan")
    assumptions = ["inputs that name def or load are left out, and no list has a list as its head: what such programs do when evaluated is not about "
                   "reading", "nesting is limited by the machine stack; the inputs nest at most 2000 deep"]

    def gen(self, t):
        if t.chance(2, 5):
            lines = []
            n = t.range(2, 14)
            for _ in range(n):
                if t.chance(1, 2):
                    s, v = oneline(t)
                    lines.append((s, v))
                else:
                    lines.append((badline(t), None))
            s, v = oneline(t)
            lines.append((s, v))
            return dict(mode="recover", lines=lines, text="\n".join(l for l, _ in lines) + "\n")
        mode = t.choice(["repl", "file", "channel", "expr"])
        parts = []
        for _ in range(t.range(1, 12)):
            k = t.draw(8)
            if k < 3:
                parts.append(soup(t, t.range(1, 12)))
            elif k < 6:
                parts.append(mutated(t))
            elif k == 6:
                parts.append(raw(t, t.range(1, 30)))
            else:
                parts.append(long_line(t))
            parts.append(t.choice(["\n", "\n", " ", ""]))
        s = "".join(parts)
        s = tame(s, mode != "channel")
        if mode == "expr":
            s = s.replace("\0", "")
        return dict(mode=mode, text=s, lines=None)

    def show(self, item):
        return "%s: %r" % (item["mode"], item["text"])

    def classify(self, item):
        return [item["mode"]]

    def unsafe(self, b):
        return b"def" in b or b"load" in b

    def run(self, items):
        left = 0
        for it in items:
            b = it["text"].encode("latin-1")
            if self.unsafe(b):
                left += 1
                continue
            for v in self.variants:
                self.one(it, b, v)
        return {"left_out_of_domain": left}

    def one(self, it, b, variant):
        m = it["mode"]
        if m in ("repl", "recover"):
            res = core.run_mnml(b, mode="repl", variant=variant)
        elif m == "file":
            res = core.run_mnml(b, variant=variant)
        elif m == "expr":
            res = core.run_mnml(b, mode="expr", variant=variant)
        else:
            with open(core.scratch() + "/cwd/data", "wb") as f:
                f.write(b)
            # the reader gives up on a channel at its end only
            n = b.count(b"(") + b.count(b" ") + b.count(b"\n") + 40
            res = core.run_mnml("(load 'std 'io)\n(in \"data\" %s (prinl \"END\"))\nT\n" % ("(read)" * n), variant=variant)
            if not (res.hang or res.rc < 0 or res.rc == 99) and b"END" not in res.out:
                raise core.Fail("channel: the program around it did not go on (%s)" % res.status(), input=it["text"])
        if res.hang or res.rc < 0 or res.rc == 99:
            raise core.Fail("%s: %s (%s)" % (m, res.status() if res.rc != 99 else "memory error", variant), input=it["text"],
                            stderr=res.err[-3000:].decode("latin-1"))
        if m == "recover":
            got = []
            for l in res.out.decode("latin-1").replace("^ parse error\n", "").split("\n"):
                while l.startswith(": "):
                    l = l[2:]
                if l.startswith("> "):
                    got.append(l[2:])
            want = [v for _, v in it["lines"] if v is not None]
            if got != want:
                raise core.Fail("the lines around a rejected one are not evaluated as usual", lines=[l for l, _ in it["lines"]],
                                expected=want, got=got, output=res.out.decode("latin-1"))


CHECK = P03()
