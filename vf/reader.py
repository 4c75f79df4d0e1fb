"""A small independent reader for the literal syntax, used by the models of input channels and scripts. Texts that are
not plainly well-formed raise Discard."""
import re
from .model import *

WORDCH = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!@$%&*_+-={}[]:;|\\<>?,./")
NUM = re.compile(r"-?[0-9]+$")
SYM = re.compile(r"[a-zA-Z!@$%&*_+\-={}\[\]:;|\\<>?,./][a-zA-Z0-9!@$%&*_+\-={}\[\]:;|\\<>?,./]*$")
CH_ESC = {"e": 27, "n": 10, "r": 13, "t": 9, "\\": 92}


class More(Exception):
    """The text ends inside an expression."""


class _R:
    def __init__(self, s):
        self.s = s
        self.i = 0

    def skip(self):
        s = self.s
        while self.i < len(s):
            c = s[self.i]
            if c in " \t\n":
                self.i += 1
            elif c == "#":
                if self.i and s[self.i - 1] in WORDCH:
                    raise Discard("comment next to a word")
                while self.i < len(s) and s[self.i] != "\n":
                    self.i += 1
            else:
                return True
        return False

    def gap(self):
        """After an atom other than a list."""
        if self.i < len(self.s) and self.s[self.i] not in " \t\n()":
            raise Discard("tokens without a space")

    def value(self, depth=0):
        if depth > 300:
            raise Discard("nesting")
        if not self.skip():
            raise More()
        s = self.s
        c = s[self.i]
        if c == "(":
            self.i += 1
            xs, tail = [], NIL
            while True:
                if not self.skip():
                    raise More()
                if s[self.i] == ")":
                    self.i += 1
                    break
                if s[self.i] == "." and self.i + 1 < len(s) and s[self.i + 1] not in WORDCH:
                    if not xs:
                        raise Discard("dot")
                    self.i += 1
                    tail = self.value(depth + 1)
                    if not self.skip():
                        raise More()
                    if s[self.i] != ")":
                        raise Discard("dot")
                    self.i += 1
                    break
                xs.append(self.value(depth + 1))
            return lst(*xs, tail=tail)
        if c == "'":
            self.i += 1
            n = s[self.i:self.i + 1]
            if n == "(" or n in WORDCH and n:
                return Pair("quote", self.value(depth + 1))
            raise Discard("prefix")
        if c == "^":
            n = s[self.i + 1:self.i + 2]
            if n == "\\":
                e = s[self.i + 2:self.i + 3]
                if e not in CH_ESC or not e:
                    raise Discard("character")
                self.i += 3
                self.gap()
                return Ch(CH_ESC[e])
            if not n or not 32 <= ord(n) < 127:
                raise Discard("character")
            self.i += 2
            self.gap()
            return Ch(ord(n))
        if c == '"':
            self.i += 1
            r = []
            while True:
                if self.i >= len(s):
                    raise More()
                c = s[self.i]
                if c == '"':
                    self.i += 1
                    break
                if c == "\\":
                    if self.i + 1 >= len(s):
                        raise More()
                    self.i += 1
                    c = {"n": "\n", "t": "\t"}.get(s[self.i], s[self.i])
                elif not (32 <= ord(c) < 127 or c in "\n\t"):
                    raise Discard("character in a string")
                r.append(Ch(ord(c)))
                self.i += 1
            self.gap()
            return lst(*r)
        j = self.i
        while j < len(s) and s[j] in WORDCH:
            j += 1
        w = s[self.i:j]
        self.i = j
        if not w:
            raise Discard("unknown token")
        self.gap()
        if NUM.match(w):
            n = int(w)
            if not -2**63 <= n < 2**63:
                raise Discard("number too large")
            return n
        if w in ("NIL", "T", "_"):
            return {"NIL": NIL, "T": T, "_": WILD}[w]
        if not SYM.match(w) or w == "." or len(w) > 16:
            raise Discard("odd word")
        return w


def parse(text):
    """(values, complete)"""
    r = _R(text)
    vs = []
    while True:
        if not r.skip():
            return vs, True
        try:
            vs.append(r.value())
        except More:
            return vs, False
