import os, re, select, signal, socket, subprocess
from vf import build, core, gen
from vf.model import *
from checks.p28 import Rnd, free_port, listener

SERVER = """(load "@lib/http.l")
(load '(io printl) '(std if car cdr) '(logic =))
(def handler (op path hdrs body) (prog (printl 'req op path hdrs body) (if (= (car (cdr path)) ^n) 'NOT_FOUND ANSWER)))
(printl 'up)
(http/serve PORT handler)
(printl 'down)
T
"""
WS = " \t\n\r"
ALNUM = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


def fields(s, sep):
    return [x for x in s.split(sep) if x]


def header(l):
    k, _, v = l.partition(":")
    return Pair(string(k.strip(WS)), string(v.strip(WS)))


def headers(lines):
    """What the header lines mean, up to the first blank one."""
    hs = []
    for l in lines:
        if not l.strip(WS):
            break
        hs.append(header(l.strip(WS)))
    return lst(*hs)


class P30(core.Check):
    id = "P30"
    rule = "a message with at least two headers, or cut into packets, or refused, or several clients"
    quick = (5000, 2)
    thorough = (85000, 2)
    assumptions = ["messages hold no NUL and no body", "a header has a name"]

    def word(self, t, hi=8, chars=ALNUM + "-_.~%/?&=+!$'(),;@"):
        return "".join(t.choice(chars) for _ in range(1 + t.size(hi)))

    def pad(self, t):
        return "".join(t.choice("  \t") for _ in range(t.size(3)))

    def header(self, t):
        k = self.word(t, 12, ALNUM + "-_") + (self.pad(t) if t.chance(1, 6) else "")
        n = t.draw(8)
        v = "" if n == 0 else "".join(t.choice(ALNUM + " :;,/=\"\\'()[]^#\t") for _ in range(t.size(30))) if n < 6 else "http://[::1]:80/::" if n == 6 else self.word(t, 3) * t.choice([1, 100, 300])
        return k + ":" + (t.choice(["", " ", "\t", "  "]) if t.chance(3, 4) else " ") + v + self.pad(t)

    def message(self, t, first):
        eol = t.choice(["\r\n", "\n"])
        ls = [first] + [self.header(t) for _ in range(t.size(6))]
        s = eol.join(ls) + eol + eol
        return dict(text=s, cuts=[t.draw(200) for _ in range(t.size(4))])

    def gen(self, t):
        if t.chance(2, 3):
            cl = []
            for _ in range(t.range(1, 4)):
                k = t.weighted([(8, "ok"), (2, "bad"), (1, "eof"), (1, "cut")])
                sp = lambda: " " * t.choice([1, 1, 1, 2, 3])
                path = t.choice(["/n", "/", "/x"]) + (self.word(t, 30) if t.chance(4, 5) else "") + ("x" * 1500 if t.chance(1, 30) else "")
                if k == "bad":
                    first = t.choice(["GET / HTTP/1.0", "GET /", "nonsense", "GET / HTTP/1.1 more", "GET / http/1.1", "", " ", "GET  HTTP/1.1", "GET / HTTP/1.10", "GET / HTTP/1.", ": :"])
                else:
                    first = self.pad(t) * t.chance(1, 8) + self.word(t, 6, ALNUM) + sp() + path + sp() + "HTTP/1.1" + self.pad(t)
                m = self.message(t, first)
                m["kind"] = k
                if k == "cut":
                    # the stream ends before the blank line
                    m["text"] = m["text"][:t.range(1, max(1, len(m["text"]) - 2))]
                m["late"] = t.chance(1, 3)
                cl.append(m)
            order = list(range(len(cl)))
            for i in range(len(order)):
                j = t.range(i, len(order) - 1)
                order[i], order[j] = order[j], order[i]
            return dict(kind="server", clients=cl, order=order, answer=t.choice(["T", "NIL", "5", "'OTHER", "'(NOT_FOUND)", "\"NOT_FOUND\""]))
        gets = []
        for _ in range(t.range(1, 4)):
            k = t.weighted([(8, "ok"), (2, "bad"), (1, "eof"), (1, "cut"), (1, "refused")])
            code = t.choice(["200", "404", "500", "301", self.word(t, 3)])
            mesg = [self.word(t, 6, ALNUM) for _ in range(t.size(4))]
            first = "HTTP/1.1" + " " * t.range(1, 2) + code + "".join(" " * t.choice([1, 1, 2]) + w for w in mesg) if k != "bad" else t.choice(["HTTP/1.0 200 OK", "", "nonsense", "HTTP/1.1", "http/1.1 200 OK", " ", "HTTP/1.1\t200"])
            m = self.message(t, first)
            m.update(kind=k, path="/" + self.word(t, 20) if t.chance(4, 5) else "/")
            if k == "cut":
                m["text"] = m["text"][:t.range(1, max(1, len(m["text"]) - 2))]
            gets.append(m)
        return dict(kind="client", gets=gets)

    def show(self, it):
        return it

    def nontrivial(self, it):
        ms = it.get("clients") or it["gets"]
        return len(ms) > 1 or any(m["cuts"] or m["kind"] != "ok" or m["text"].count(":") > 1 for m in ms)

    def classify(self, it):
        return [it["kind"]] + sorted({it["kind"] + " " + m["kind"] for m in it.get("clients") or it["gets"]})

    def run(self, items):
        n = {}
        for it in items:
            for k, v in Run(it).go().items():
                n[k] = n.get(k, 0) + v
        return n


class Run:
    def __init__(self, it):
        self.it, self.buf, self.log, self.n = it, b"", [], {"requests": 0, "responses": 0}

    def bad(self, what, **kw):
        with open(core.scratch() + "/.err30", "rb") as f:
            raise core.Fail(what, log=self.log[-20:], stderr=f.read(1000).decode("latin-1"), **kw)

    def get(self):
        while b"\n" not in self.buf:
            r, _, _ = select.select([self.p.stdout], [], [], 20)
            x = os.read(self.p.stdout.fileno(), 65536) if r else None
            if not x:
                self.bad("nothing more is printed" if x == b"" else "no answer within 20 s")
            self.buf += x
        l, self.buf = self.buf.split(b"\n", 1)
        self.log.append(l.decode("latin-1"))
        return self.log[-1]

    def want(self, s):
        l = self.get()
        if l != s:
            self.bad("unexpected line", expected=s, got=l)

    def start(self, script):
        d = core.scratch()
        with open(d + "/h.l", "wb") as f:
            f.write(script.encode("latin-1"))
        with open(d + "/.err30", "wb") as e:
            self.p = subprocess.Popen([core._launcher(), "20", "64", "64", core.mnml("dbg"), "-d", d + "/h.l"], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=e,
                                      env=core.base_env(), cwd=d + "/cwd", start_new_session=True)

    def go(self):
        held, self.socks, self.p = [], [], None
        try:
            getattr(self, self.it["kind"])(held)
            rc = core._wait(self.p, 20)
            if rc != 0:
                self.bad("exit status %s" % rc)
            with open(core.scratch() + "/.err30", "rb") as f:
                if f.read(1):
                    self.bad("something on standard error")
            return self.n
        finally:
            if self.p:
                try:
                    os.killpg(self.p.pid, signal.SIGKILL)
                except OSError:
                    pass
                self.p.wait()
                self.p.stdout.close()
            for s in self.socks:
                try:
                    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, b"\1\0\0\0\0\0\0\0")
                except OSError:
                    pass
                s.close()
            for u in held:
                u.close()

    def send(self, s, m):
        b = m["text"].encode("latin-1")
        i = 0
        for x in sorted({c for c in m["cuts"] if 0 < c < len(b)}) + [len(b)]:
            try:
                s.sendall(b[i:x])
            except (BrokenPipeError, ConnectionResetError):
                # refused already
                break
            i = x

    def rest(self, s):
        """Everything the other end sends; whether it closed without complaint."""
        b = b""
        while True:
            try:
                x = s.recv(65536)
            except ConnectionResetError:
                return b, False
            except socket.timeout:
                self.bad("the connection is not closed", got=repr(b))
            if not x:
                return b, True
            b += x

    def server(self, held):
        port = free_port(Rnd(), held)
        self.start(SERVER.replace("PORT", str(port)).replace("ANSWER", self.it["answer"]))
        self.want("up")
        cl = self.it["clients"]
        conns = {}

        def connect(i):
            for _ in range(400):
                s = socket.socket()
                self.socks.append(s)
                s.settimeout(20)
                try:
                    s.connect(("127.0.0.1", port))
                    break
                except ConnectionRefusedError:
                    # printed before it listens
                    s.close()
                    self.socks.pop()
                    if self.p.poll() is not None:
                        self.bad("the server ended")
                    select.select([], [], [], 0.01)
            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            conns[i] = s
            self.want("Accepting connection from 127.0.0.1:%d" % s.getsockname()[1])
        order = self.it["order"]
        for i in range(len(cl)):
            # the last one served must be there from the start, or the server ends
            if not cl[i]["late"] or i == order[-1]:
                connect(i)
        for i in order:
            if i not in conns:
                connect(i)
            s, m = conns[i], cl[i]
            if m["kind"] == "eof":
                s.shutdown(socket.SHUT_WR)
                want = b""
            else:
                self.send(s, m)
                if m["kind"] == "cut":
                    s.shutdown(socket.SHUT_WR)
                ls = re.split("\n", m["text"])
                toks = fields(ls[0].strip(WS), " ")
                if len(toks) == 3 and toks[2] == "HTTP/1.1":
                    self.n["requests"] += 1
                    self.want("req %s %s %s NIL" % (show(string(toks[0])), show(string(toks[1])), show(headers(ls[1:]))))
                    nf = toks[1][1:2] == "n" or self.it["answer"] == "'NOT_FOUND"
                    want = b"HTTP/1.1 404 Not Found\nConnection: close\n\n" if nf else b"HTTP/1.1 500 Internal Server Error\nConnection: close\n\n"
                else:
                    self.want("Invalid HTTP request")
                    want = b""
            got, clean = self.rest(s)
            if got != want:
                self.bad("the answer differs", request=m["text"], expected=repr(want), got=repr(got))
            if want and not clean:
                self.bad("the connection was reset", request=m["text"])
            s.close()
        self.want("down")

    def client(self, held):
        lst_ = listener()
        dead = free_port(Rnd(), held)
        port = lst_.getsockname()[1]
        parts = ["(load \"@lib/http.l\")\n(load '(io printl) '(std \\))\n"]
        for g in self.it["gets"]:
            parts.append("(printl (http/get \"127.0.0.1\" \"%d\" %s (\\ (c m h) (printl 'resp c m h))))\n" % (dead if g["kind"] == "refused" else port, src(string(g["path"]))))
        self.start("".join(parts) + "T\n")
        for g in self.it["gets"]:
            if g["kind"] == "refused":
                self.want("Connecting to 127.0.0.1 on port %d failed" % dead)
                self.get()
                continue
            s, _ = lst_.accept()
            self.socks.append(s)
            s.settimeout(20)
            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            b = b""
            while not b.endswith(b"\n\n"):
                try:
                    x = s.recv(65536)
                except socket.timeout:
                    x = b""
                if not x:
                    self.bad("the request is not complete", got=repr(b))
                b += x
            want = ("GET %s HTTP/1.1\nHost: 127.0.0.1\nConnection: close\n\n" % g["path"]).encode()
            if b != want:
                self.bad("the request differs", expected=repr(want), got=repr(b))
            if g["kind"] == "eof":
                s.close()
            else:
                self.send(s, g)
                if g["kind"] == "cut":
                    s.close()
                ls = g["text"].split("\n")
                toks = fields(ls[0].strip(WS), " ")
                if len(toks) >= 2 and toks[0] == "HTTP/1.1":
                    self.n["responses"] += 1
                    self.want("resp %s %s %s" % (show(string(toks[1])), show(string(" ".join(toks[2:]))), show(headers(ls[1:]))))
                else:
                    self.want("Invalid HTTP response")
            self.want("T")


CHECK = P30()
