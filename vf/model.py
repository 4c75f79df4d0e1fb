"""Reference model of the language: a plain, unoptimised evaluator written from the manual. It has no reference
counts, no tail calls, no caches and no tree; environments are ordered association lists."""


class Const:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


NIL, T, WILD = Const("NIL"), Const("T"), Const("_")


class Ch:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c if isinstance(c, int) else ord(c)

    def __repr__(self):
        return "^%r" % chr(self.c)


class Pair:
    __slots__ = ("car", "cdr")

    def __init__(self, car, cdr):
        self.car, self.cdr = car, cdr

    def __repr__(self):
        return show(self)


class Native:
    """The body of a built-in function; counts as a number."""
    __slots__ = ("name", "fn")

    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class Back:
    """`x in source."""
    __slots__ = ("x",)

    def __init__(self, x):
        self.x = x


class Tilde:
    """~x in source."""
    __slots__ = ("x",)

    def __init__(self, x):
        self.x = x


class Discard(Exception):
    """The program leaves the documented domain (or the fuel): not a test case."""


def lst(*xs, tail=NIL):
    r = tail
    for x in reversed(xs):
        r = Pair(x, r)
    return r


def from_py(xs, tail=NIL):
    return lst(*xs, tail=tail)


def string(s):
    if isinstance(s, str):
        s = s.encode("latin-1")
    return lst(*[Ch(b) for b in s])


def quote(x):
    return Pair("quote", x)


def is_num(x):
    return isinstance(x, (int, Native)) and not isinstance(x, bool)


def is_sym(x):
    return isinstance(x, str)


def is_pair(x):
    return isinstance(x, Pair)


def is_list(x):
    return x is NIL or isinstance(x, Pair)


def is_string(x):
    while isinstance(x, Pair):
        if not isinstance(x.car, Ch):
            return False
        x = x.cdr
    return x is NIL


def to_py(x):
    r = []
    while isinstance(x, Pair):
        r.append(x.car)
        x = x.cdr
    return r


def car(x):
    return x.car if isinstance(x, Pair) else NIL


def cdr(x):
    return x.cdr if isinstance(x, Pair) else NIL


def wrap(n):
    return ((n + (1 << 63)) % (1 << 64)) - (1 << 63)


def equ(a, b):
    while True:
        if isinstance(a, Pair):
            if not isinstance(b, Pair) or not equ(a.car, b.car):
                return False
            a, b = a.cdr, b.cdr
            continue
        if isinstance(a, Ch):
            return isinstance(b, Ch) and a.c == b.c
        if isinstance(a, Native) or isinstance(b, Native):
            return isinstance(a, Native) and isinstance(b, Native) and a.name == b.name
        return type(a) is type(b) and a == b


def match(t, v):
    while True:
        if t is WILD:
            return True
        if isinstance(t, Pair):
            if not isinstance(v, Pair) or not match(t.car, v.car):
                return False
            t, v = t.cdr, v.cdr
            continue
        return equ(t, v)


def is_func(x):
    if not isinstance(x, Pair) or not (is_list(x.car) or is_sym(x.car)):
        return False
    d = x.cdr
    if not isinstance(d, Pair) or not is_list(d.car):
        return False
    return isinstance(d.cdr, Pair) or is_num(d.cdr)


# printing

_ESC = {27: "^\\e", 10: "^\\n", 13: "^\\r", 9: "^\\t", 92: "^\\\\"}


def show_ch(x):
    return _ESC.get(x.c) or "^" + chr(x.c)


LIMIT = 400000


def show(x, pretty=False, left=None):
    """Literal print. Works iteratively along the cdr. Values may share parts, so their text can be very much larger."""
    if isinstance(x, Pair):
        if left is None:
            left = [LIMIT]
        parts = []
        while isinstance(x, Pair):
            left[0] -= 1
            if left[0] < 0:
                raise Discard("the text is too large")
            parts.append(show(x.car, pretty, left))
            x = x.cdr
        s = "(" + " ".join(parts)
        if x is not NIL:
            s += " . " + show(x, pretty, left)
        return s + ")"
    if isinstance(x, Const):
        return x.name
    if isinstance(x, Ch):
        return show_ch(x)
    if isinstance(x, int):
        return str(x)
    if isinstance(x, str):
        return x
    if isinstance(x, Native):
        raise Discard("prints an address")
    if isinstance(x, Back):
        return "`" + show(x.x)
    if isinstance(x, Tilde):
        return "~" + show(x.x)
    raise AssertionError(type(x))


def prin(x, left=None):
    """Symbolic print, as prin does."""
    if isinstance(x, Pair):
        if left is None:
            left = [LIMIT]
        r = []
        while isinstance(x, Pair):
            left[0] -= 1
            if left[0] < 0:
                raise Discard("the text is too large")
            r.append(prin(x.car, left))
            x = x.cdr
        r.append(prin(x, left))
        return "".join(r)
    if x is NIL:
        return ""
    if isinstance(x, Ch):
        return chr(x.c)
    return show(x)


# source text

def src(x):
    """One way to write the expression: 'x for quotes, strings as literals."""
    if isinstance(x, Pair):
        if x.car == "quote" and isinstance(x.cdr, (Pair, str, int)):
            return "'" + src_datum(x.cdr)
        if x.car == "quote" and isinstance(x.cdr, Const):
            return "'" + x.cdr.name
        if x.car == "quote" and isinstance(x.cdr, Ch):
            return "(quote . " + src(x.cdr) + ")"
        if is_string(x) and all(32 <= c.c < 127 or c.c in (10, 9) for c in to_py(x)):
            return '"' + "".join({92: "\\\\", 34: '\\"', 10: "\\n", 9: "\\t"}.get(c.c, chr(c.c)) for c in to_py(x)) + '"'
        parts = []
        while isinstance(x, Pair):
            if x.car == "quote" and parts and not isinstance(x.cdr, Pair):
                break
            parts.append(src(x.car))
            x = x.cdr
        s = "(" + " ".join(parts)
        if x is not NIL:
            s += " . " + src(x)
        return s + ")"
    if isinstance(x, Back):
        return "`" + src_datum(x.x)
    if isinstance(x, Tilde):
        return "~" + src_datum(x.x)
    return show(x)


def src_datum(x):
    """After a prefix only lists written with parentheses, symbols and numbers are accepted."""
    if isinstance(x, Pair) and (is_string(x) or x.car == "quote"):
        return show_src_list(x)
    return src(x)


def show_src_list(x):
    parts = []
    while isinstance(x, Pair):
        parts.append(src(x.car))
        x = x.cdr
    s = "(" + " ".join(parts)
    if x is not NIL:
        s += " . " + src(x)
    return s + ")"


def fmt(x):
    """Alias kept short for messages."""
    try:
        return src(x)
    except Discard:
        return "<native>"


class Model:
    def __init__(self, fuel=20000, depth=1500):
        self.globals = {}
        self.out = []
        self.fuel0 = fuel
        self.fuel = fuel
        self.depth = 0
        self.maxdepth = depth
        self.calls = 0
        self.hooks = {}
        for n, (args, fn) in NATIVES.items():
            self.globals[n] = Pair(args, Pair(NIL, Native(n, fn)))

    def text(self):
        return "".join(self.out)

    def emit(self, s):
        self.out.append(s)

    def refuel(self):
        self.fuel = self.fuel0

    # environments are ordinary association lists, as in the language

    def lookup(self, env, name):
        while isinstance(env, Pair):
            if env.car.car == name:
                return env.car.cdr
            env = env.cdr
        return self.globals.get(name, NIL)

    def merge(self, env, cells):
        """env and cells are lists of (NAME . VALUE); cells win; ordered by name."""
        d = {}
        for c in to_py(env):
            d[c.car] = c
        for c in to_py(cells):
            if not isinstance(c, Pair) or not is_sym(c.car):
                raise Discard("data that only looks like a function")
            d[c.car] = c
        r = NIL
        for k in sorted(d, key=lambda n: n.encode("latin-1"), reverse=True):
            r = Pair(d[k], r)
        return r

    def bind(self, env, pat, val):
        if isinstance(pat, Pair):
            return self.bind(self.bind(env, pat.car, car(val)), pat.cdr, cdr(val))
        if is_sym(pat):
            return Pair(Pair(pat, val), env)
        return env

    def may_apply(self, args, vals):
        while True:
            if is_sym(args) or vals is NIL:
                return True
            if isinstance(args, Pair) and isinstance(vals, Pair):
                args, vals = args.cdr, vals.cdr
                continue
            return False

    def eval(self, env, x):
        if isinstance(x, str):
            return self.lookup(env, x)
        if not isinstance(x, Pair):
            return x
        self.fuel -= 1
        if self.fuel < 0:
            raise Discard("fuel")
        self.depth += 1
        if self.depth > self.maxdepth:
            self.depth = 0
            raise Discard("depth")
        try:
            return self.eval_pair(env, x)
        finally:
            self.depth -= 1

    def eval_pair(self, env, x):
        head, rest = x.car, x.cdr
        f = self.eval(env, head)
        if is_func(f):
            return self.apply(env, f, rest)
        if equ(head, f):
            return Pair(f, rest)
        if is_sym(f) or isinstance(f, Pair):
            return self.eval(env, Pair(f, rest))
        return Pair(f, rest)

    def apply(self, env, f, vals):
        args, dscl, body = f.car, f.cdr.car, f.cdr.cdr
        c = dscl
        while isinstance(c, Pair):
            if not isinstance(c.car, Pair) or not is_sym(c.car.car):
                raise Discard("data that only looks like a function")
            c = c.cdr
        if c is not NIL or isinstance(body, int):
            raise Discard("data that only looks like a function")
        if not self.may_apply(args, vals):
            return NIL
        bscl = NIL
        while True:
            if args is NIL:
                break
            if is_sym(args):
                bscl = self.bind(bscl, args, vals)
                args = NIL
                break
            if vals is NIL:
                break
            bscl = self.bind(bscl, args.car, self.eval(env, car(vals)))
            args, vals = args.cdr, cdr(vals)
        if args is not NIL:
            if not isinstance(args, (Pair, str)):
                raise Discard("odd argument list")
            # the arguments given so far hide what the function captured
            return Pair(args, Pair(self.conc(bscl, dscl) if isinstance(body, Native) else self.conc(dscl, bscl), body))
        self.calls += 1
        if isinstance(body, Native):
            a = {}
            for c in to_py(bscl) + to_py(dscl):
                if not isinstance(c, Pair):
                    raise Discard("data that only looks like a function")
                a.setdefault(c.car, c.cdr)
            return body.fn(self, env, a)
        if not isinstance(body, Pair):
            raise Discard("body is a number")
        return self.prog(self.merge(self.merge(env, dscl), bscl), body)

    @staticmethod
    def conc(a, b):
        return from_py(to_py(a), tail=b)

    def prog(self, env, body):
        r = NIL
        while isinstance(body, Pair):
            r = self.eval(env, body.car)
            body = body.cdr
        return r

    # reading: the prefixes are resolved when the expression is read

    def read(self, x):
        if isinstance(x, Back):
            return self.eval(NIL, self.read(x.x))
        if isinstance(x, Pair):
            items = []
            while isinstance(x, Pair):
                if isinstance(x.car, Tilde):
                    items.append(("s", self.eval(NIL, self.read(x.car.x))))
                else:
                    items.append(("e", self.read(x.car)))
                x = x.cdr
            r = self.read(x) if x is not NIL else NIL
            last = r is NIL
            for k, v in reversed(items):
                r = Pair(v, r) if k == "e" else self.spl(v, r, last)
                last = False
            return r
        return x

    @staticmethod
    def spl(v, r, last):
        if v is NIL:
            return r
        if isinstance(v, Pair):
            xs, p = [], v
            while isinstance(p, Pair):
                xs.append(p.car)
                p = p.cdr
            if not last and p is not NIL:
                raise Discard("splice of a dotted list before the end")
            return from_py(xs, tail=p if last else r)
        if last:
            return v
        raise Discard("splice of an atom before the end")

    def top(self, x):
        """Reads and evaluates one expression of a program."""
        return self.eval(NIL, self.read(x))


# built-in functions; fn(model, env, args)

NATIVES = {}


def native(name, args):
    def deco(fn):
        NATIVES[name] = (args, fn)
        return fn
    return deco


ANY = "ANY"
_X = lst("X")
_XY = lst("X", "Y")


def _num(x):
    if isinstance(x, int):
        return x
    raise Discard("number expected")


def _unary(name, f):
    NATIVES[name] = (_X, lambda m, e, a: f(a["X"]))


def _binary(name, f):
    NATIVES[name] = (_XY, lambda m, e, a: f(a["X"], a["Y"]))


def truth(b):
    return T if b else NIL


def _div(x, y):
    x, y = _num(x), _num(y)
    if y == 0:
        raise Discard("division by zero")
    q = abs(x) // abs(y)
    return wrap(q if (x < 0) == (y < 0) else -q)


def _mod(x, y):
    x, y = _num(x), _num(y)
    if y == 0:
        raise Discard("division by zero")
    r = abs(x) % abs(y)
    return -r if x < 0 else r


_binary("+", lambda x, y: wrap(_num(x) + _num(y)))
_binary("-", lambda x, y: wrap(_num(x) - _num(y)))
_binary("*", lambda x, y: wrap(_num(x) * _num(y)))
_binary("/", _div)
_binary("%", _mod)
_binary("<", lambda x, y: truth(_num(x) < _num(y)))
_binary("<=", lambda x, y: truth(_num(x) <= _num(y)))
_binary(">", lambda x, y: truth(_num(x) > _num(y)))
_binary(">=", lambda x, y: truth(_num(x) >= _num(y)))
_binary("=", lambda x, y: truth(equ(x, y)))
_binary("<>", lambda x, y: truth(not equ(x, y)))
_binary("and", lambda x, y: truth(x is not NIL and y is not NIL))
_unary("not", lambda x: truth(x is NIL))
_binary("cons", lambda x, y: Pair(x, y))
_unary("car", car)
_unary("cdr", cdr)
_unary("len", lambda x: len(to_py(x)) if is_list(x) else NIL)
_unary("nil?", lambda x: truth(x is NIL))
_unary("tru?", lambda x: truth(x is T))
_unary("num?", lambda x: truth(is_num(x)))
_unary("chr?", lambda x: truth(isinstance(x, Ch)))
_unary("sym?", lambda x: truth(is_sym(x)))
_unary("str?", lambda x: truth(is_string(x)))
_unary("lst?", lambda x: truth(is_list(x)))
_unary("atm?", lambda x: truth(not is_list(x)))


def _str(x):
    if not is_sym(x):
        raise Discard("symbol expected")
    return string(x)


def _sym(x):
    if not isinstance(x, Pair) or not is_string(x):
        return NIL
    s = "".join(chr(c.c) for c in to_py(x))[:16]
    if "\0" in s:
        raise Discard("NUL in a symbol")
    return s


def _chr(x):
    n = _num(x)
    if not 0 < n < 256:
        raise Discard("not a character code")
    return Ch(n)


_unary("str", _str)
_unary("sym", _sym)
_unary("chr", _chr)


@native("conc", _XY)
def _conc(m, e, a):
    x, y = a["X"], a["Y"]
    if not isinstance(x, Pair):
        return y
    p = x
    while isinstance(p.cdr, Pair):
        p = p.cdr
    q = y
    while isinstance(q, Pair):
        if q is p:
            raise Discard("cycle")
        q = q.cdr
    p.cdr = y
    return x


@native("quote", ANY)
def _quote(m, e, a):
    return a["ANY"]


@native("prog", ANY)
def _prog(m, e, a):
    return m.prog(e, a["ANY"])


@native("if", lst("COND", tail="REM"))
def _if(m, e, a):
    r = a["REM"]
    return m.eval(e, car(cdr(r))) if a["COND"] is NIL else m.eval(e, car(r))


@native("when", lst("COND", tail="REM"))
def _when(m, e, a):
    return m.prog(e, a["REM"]) if a["COND"] is not NIL else NIL


@native("unless", lst("COND", tail="REM"))
def _unless(m, e, a):
    return m.prog(e, a["REM"]) if a["COND"] is NIL else NIL


@native("while", ANY)
def _while(m, e, a):
    r = NIL
    while m.eval(e, car(a["ANY"])) is not NIL:
        m.fuel -= 1
        if m.fuel < 0:
            raise Discard("fuel")
        r = m.prog(e, cdr(a["ANY"]))
    return r


@native("or", ANY)
def _or(m, e, a):
    x = a["ANY"]
    if m.eval(e, car(x)) is not NIL:
        return T
    return truth(m.eval(e, car(cdr(x))) is not NIL)


@native("list", ANY)
def _list(m, e, a):
    xs = to_py(a["ANY"])
    vals = [m.eval(e, x) for x in reversed(xs)]
    return from_py(vals[::-1])


@native("|>", ANY)
def _stream(m, e, a):
    x = a["ANY"]
    r = m.eval(e, car(x))
    x = cdr(x)
    while x is not NIL:
        r = m.eval(e, lst(car(x), Pair("quote", r)))
        x = cdr(x)
    return r


@native("cond", ANY)
def _cond(m, e, a):
    x = a["ANY"]
    v = m.eval(e, car(x))
    x = cdr(x)
    while isinstance(x, Pair) and isinstance(x.car, Pair):
        p, prg = x.car.car, x.car.cdr
        if p is WILD or m.eval(e, lst(p, Pair("quote", v))) is T:
            return m.eval(e, prg)
        x = x.cdr
    return NIL


@native("match", ANY)
def _match(m, e, a):
    x = a["ANY"]
    v = m.eval(e, car(x))
    x = cdr(x)
    while isinstance(x, Pair) and isinstance(x.car, Pair):
        if match(x.car.car, v):
            return m.eval(e, x.car.cdr)
        x = x.cdr
    return NIL


@native("eval", _X)
def _eval(m, e, a):
    return m.eval(e, a["X"])


@native("\\", ANY)
def _lambda(m, e, a):
    x = a["ANY"]
    return Pair(car(x), Pair(from_py(to_py(e)), cdr(x)))


@native("let", ANY)
def _let(m, e, a):
    x = a["ANY"]
    env = NIL
    b = car(x)
    while isinstance(b, Pair) and isinstance(b.car, Pair):
        tmp = m.merge(e, env)
        env = m.bind(env, b.car.car, m.eval(tmp, b.car.cdr))
        b = b.cdr
    return m.prog(m.merge(e, env), cdr(x))


@native("def", ANY)
def _def(m, e, a):
    x = a["ANY"]
    name, args, body = car(x), car(cdr(x)), cdr(cdr(x))
    if not is_sym(name) or not (is_list(args) or is_sym(args)):
        return NIL
    if isinstance(car(body), Pair) and isinstance(car(body).car, Ch):
        body = cdr(body)
    m.globals[name] = Pair(args, Pair(NIL, body))
    return name


@native("setq", ANY)
def _setq(m, e, a):
    x = a["ANY"]
    v = m.eval(e, car(cdr(x)))
    if v is not NIL and is_sym(car(x)):
        m.globals[car(x)] = v
    return v


@native("<-", ANY)
def _set(m, e, a):
    x = a["ANY"]
    s = m.eval(e, car(x))
    v = m.eval(e, car(cdr(x)))
    if not is_sym(s):
        return NIL
    c = e
    while isinstance(c, Pair):
        if c.car.car == s:
            old = c.car.cdr
            c.car.cdr = v
            return old
        c = c.cdr
    if s in m.globals:
        old = m.globals[s]
        m.globals[s] = v
        return old
    return NIL


def _out(name, fn, sep, nl):
    @native(name, ANY)
    def f(m, e, a):
        x = a["ANY"]
        r = NIL
        while isinstance(x, Pair):
            r = m.eval(e, x.car)
            m.emit(fn(r))
            x = x.cdr
            if sep and x is not NIL:
                m.emit(sep)
        if nl:
            m.emit("\n")
        return r


_out("prin", prin, "", False)
_out("prinl", prin, "", True)
_out("print", show, " ", False)
_out("printl", show, " ", True)
