"""Source text with a generated layout: the same tokens with every kind of space between them."""
from .model import *

# what may come between two tokens
def gap(t, need, wide):
    """Space between tokens; may be empty unless needed."""
    k = t.draw(16)
    if k < 6:
        return " " if need or k < 3 else ""
    if k < 8:
        return "\n"
    if k == 8:
        return "\t"
    if k == 9:
        return " " * t.range(1, 6)
    if k == 10:
        return "\n" * t.range(1, 3) + " " * t.draw(4)
    if k == 11:
        return " # " + comment(t) + "\n"
    if k == 12:
        return "\r\n"
    if k == 13:
        return "\n#" + comment(t) + "\n" + "  " * t.draw(3)
    if k == 14 and wide:
        return " " * t.choice([60, 250, 1000, 1010, 1023, 1024, 4090]) + " " * t.draw(30)
    return " \n "


def comment(t):
    n = t.draw(12)
    # a comment runs to the end of the line, a carriage return does not end it
    return "".join("\r" if t.chance(1, 16) else t.choice(list("abc ()\"'`~.^\\#0-7_T") + ["NIL", "(", ")", '"', "((", "'("]) for _ in range(n))


def flat(t, need, wide):
    """Space without line breaks."""
    k = t.draw(8)
    if k < 5:
        return " " if need or k < 2 else ""
    if k == 5:
        return "\t"
    if k == 6 and wide:
        return " " * t.choice([60, 1000, 4090])
    return "  "


def literal(t, v):
    """A string literal for v, with raw or escaped special characters."""
    r = []
    for c in to_py(v):
        c = c.c
        if c == 92:
            r.append("\\\\")
        elif c == 34:
            r.append('\\"')
        elif c == 10:
            r.append("\n" if t.chance(1, 3) else "\\n")
        elif c == 9:
            r.append("\t" if t.chance(1, 3) else "\\t")
        elif t.chance(1, 20) and chr(c) not in "nt":
            r.append("\\" + chr(c))
        else:
            r.append(chr(c))
    return '"' + "".join(r) + '"'


def tokens(t, x, out, datum=False):
    """Tokens of the expression; a prefix is kept with what follows it."""
    if isinstance(x, Pair):
        if not datum and x.car == "quote" and not isinstance(x.cdr, Ch) and t.chance(2, 3):
            n = len(out)
            tokens(t, x.cdr, out, True)
            out[n] = "'" + out[n]
            return
        if not datum and is_string(x) and all(32 <= c.c < 127 or c.c in (10, 9) for c in to_py(x)) and t.chance(3, 4):
            out.append(literal(t, x))
            return
        out.append("(")
        while isinstance(x, Pair):
            tokens(t, x.car, out)
            x = x.cdr
        if x is not NIL:
            out.append(".")
            tokens(t, x, out)
        elif t.chance(1, 30):
            out.append(".")
            out.append("NIL")
        out.append(")")
        return
    if isinstance(x, int) and not isinstance(x, bool) and t.chance(1, 8):
        # leading zeros do not change a number
        out.append("-" * (x < 0 or x == 0 and t.chance(1, 2)) + "0" * t.range(1, 3) + str(abs(x)))
        return
    out.append(show(x))


def text(t, exprs, multiline=True, wide=True):
    """One text for the sequence of expressions."""
    g = gap if multiline else flat
    r = [g(t, False, wide)] if t.chance(1, 3) else []
    prev = None
    for e in exprs:
        toks = []
        tokens(t, e, toks)
        for k in toks:
            if prev is not None:
                need = not (prev in ("(", "'(", ")") or k in ("(", "'(", ")")) or prev == "." or k == "."
                s = g(t, need, wide)
                if need and s == "":
                    s = " "
                r.append(s)
            r.append(k)
            prev = k
    if t.chance(2, 3):
        r.append(g(t, False, wide))
    return "".join(r)
