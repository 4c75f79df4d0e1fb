import os, re, select, signal, socket, subprocess, time
from vf import build, core, gen
from vf.model import *

# A round: wait for the word to go, select, log what was handled. The handler does what the line it reads says.
PRE = """(load 'io 'std 'logic 'math 'unix)
(def failing ()
  (printl (listen -1) (listen 65536) (listen 'x) (listen "1") (accept -1) (accept 555) (accept 'x) (connect 5 6) (connect "127.0.0.1" "1") (connect "127.0.0.1" 'x) (connect NIL "1"))
  (printl (connect "127.0.0.1" "nosuchservice") (connect "127.0.0.1" "") (connect "127.0.0.1" "0") (connect "" "") (select (list 50) onread onerror)
    (select (list 50 60 'x) onread onerror) (select 5 onread onerror) (select 'x onread onerror)))
(def obey (fd l)
  (match l
    ((^q . _) . NIL)
    ((^e . _) . (prog (out fd (prinl l)) T))
    ((^p . _) . (prog (out (cdr rw) (prinl l)) T))
    ((^n . _) . fd)
    ((^d . _) . (let ((n . (connect "127.0.0.1" DIAL))) (if n (prog (out n (prinl "hello " n)) (printl 'dial n) n) (prog (printl 'refused) T))))
    ((^m . _) . (let ((k . (in fd (readline)))) (printl 'more fd k) T))
    ((^t . _) . (let (((a b) . (in fd (list2 (readline))))) (printl 'two fd a b) T))
    (_ . T)))
(def list2 (a) (let ((b . (readline))) (list a b)))
(def onread (fd)
  (if (= fd srv)
    (if (= mode "skip")
      (prog (printl 'skip fd) T)
      (let (((cl . (host . port)) . (accept fd))) (printl 'accept cl port) (prinl host) cl))
    (if (= mode "skip")
      (prog (printl 'skip fd) 'kept)
      (let ((l . (in fd (readline))))
        (printl 'read fd l)
        (if (= l 'EOF) NIL (if (= fd (car rw)) T (obey fd l)))))))
(def onerror (fd) (printl 'error fd) T)
(def step ()
  (setq mode (in 0 (readline)))
  (if (= mode 'EOF) (prog (printl 'bye) NIL)
    (let (((r e) . (select fds onread onerror)))
      (printl 'round r e)
      (setq fds r)
      T)))
(setq mode 'none)
(setq DIAL (car (cdr ARGV)))
(setq srv (listen PORT))
(setq rw (pipe))
(setq fds BEGIN)
(failing)
(setq out0 (connect "127.0.0.1" DIAL))
(out out0 (prinl "hello " out0))
(setq fds (cons out0 fds))
(printl 'up srv rw out0)
(while (step) NIL)
(printl 'end)
T
"""


# Standard input is a descriptor like the others: number 0.
ZERO = """(load 'io 'std 'logic 'unix)
(def result (fd l) (match l ((^n . _) . fd) ((^s . _) . "kept") ((^p . _) . '(1 2)) (_ . T)))
(def onread (fd) (let ((l . (in fd (readline)))) (printl 'read fd l) (if (= l 'EOF) NIL (result fd l))))
(def onerror (fd) (printl 'error fd) T)
(def step (fds) (if fds (let (((r e) . (select fds onread onerror))) (printl 'round r e) (step (keep r))) (printl 'end)))
(def keep (fds) (if (member 0 fds) fds NIL))
(def member (x l) (if l (if (= x (car l)) T (member x (cdr l))) NIL))
(setq rw (pipe))
(printl 'up rw)
(step BEGIN)
T
"""


class Conn:
    def __init__(self, sock):
        self.sock = sock
        self.lines = []          # [text, id of the send that completes it]
        self.eof = self.done = self.closed = False
        self.back = b""
        self.known = -1          # every send up to this one has arrived
        self.seen = False        # reported ready and not consumed since
        self.sends = 0


def free_port(t, held):
    """A port no other worker uses: the UDP port of the same number is the lock."""
    for _ in range(200):
        p = t.range(20000, 31999) if t else 0
        u = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        try:
            u.bind(("127.0.0.1", p))
            s.bind(("0.0.0.0", p))
        except OSError:
            u.close()
            continue
        finally:
            s.close()
        held.append(u)
        return p
    raise Discard("no free port")


_lst = {}


def listener():
    """One per process, emptied: the system runs out of ports otherwise."""
    if os.getpid() not in _lst:
        held = []
        p = free_port(Rnd(), held)
        s = socket.socket()
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        s.bind(("127.0.0.1", p))
        s.listen(50)
        _lst[os.getpid()] = s, held
    s = _lst[os.getpid()][0]
    s.settimeout(0)
    while True:
        try:
            s.accept()[0].close()
        except BlockingIOError:
            break
    s.settimeout(60)
    return s


class Rnd:
    """Ports are drawn apart from the case: a case replays on any port."""

    def range(self, lo, hi):
        return lo + int.from_bytes(os.urandom(4), "big") % (hi - lo + 1)


class P28(core.Check):
    id = "P28"
    rule = "at least two connections carry data"
    quick = (8000, 2)
    thorough = (196000, 2)
    assumptions = ["clients do not reset connections", "what one connection holds unread stays below the socket buffers"]

    def line(self, t):
        k = t.draw(12)
        if k < 2:
            return ""
        c = t.weighted([(5, "k"), (4, "e"), (2, "p"), (1, "n"), (1, "d"), (2, "m"), (1, "t"), (2, "")])
        n = t.choice([600, 1024, 1400, 3000]) if t.chance(1, 30) else t.size(30)
        if k < 5:
            s = "".join(chr(t.range(1, 255)) for _ in range(min(n, 40))).replace("\n", "\r")
        else:
            s = "".join(t.choice(gen.ALPHA + " ^\\\"'()") for _ in range(min(n, 40)))
        if n > 40:
            s = (s + "x") * n
            s = s[:n]
        if c == "" and s[:1] in ("q", "e", "p", "n", "d", "m", "t"):
            s = "_" + s
        return c + s

    def gen(self, t):
        if t.chance(1, 12):
            return dict(zero=t.draw(4), lines=[self.line(t) for _ in range(t.size(8))])
        rounds = []
        for _ in range(t.range(1, 12)):
            acts = []
            for _ in range(t.size(6)):
                k = t.weighted([(3, "open"), (8, "send"), (1, "quit"), (1, "eof"), (1, "part")])
                if k == "open":
                    acts.append([k, [self.line(t)] if t.chance(1, 2) else []])
                elif k == "send":
                    acts.append([k, t.draw(12), [self.line(t) for _ in range(t.range(1, 4))], [t.draw(60) for _ in range(t.size(3))]])
                elif k == "part":
                    acts.append([k, t.draw(12), self.line(t)])
                else:
                    acts.append([k, t.draw(12)])
            rounds.append([acts, t.choice(["go", "go", "go", "skip"])])
        return dict(rounds=rounds, begin=t.draw(4))

    def show(self, it):
        return it

    def nontrivial(self, it):
        if "zero" in it:
            return len(it["lines"]) > 1
        return sum(1 for r, _ in it["rounds"] for a in r if a[0] == "open") >= 2 and sum(1 for r, _ in it["rounds"] for a in r if a[0] == "send") >= 2

    def run(self, items):
        n = {}
        for it in items:
            for k, v in Run(it).go().items():
                n[k] = n.get(k, 0) + v
        return n


class Run:
    def __init__(self, it):
        self.it = it
        self.buf = b""
        self.n = {"rounds": 0, "lines read": 0, "connections": 0, "several descriptors ready": 0, "closed by the handler": 0, "end of stream": 0, "dialled": 0, "rounds on standard input": 0, "left_out_of_domain": 0}

    def bad(self, what, **kw):
        raise core.Fail(what, log=self.log[-40:], stderr=self.stderr(), **kw)

    def stderr(self):
        with open(core.scratch() + "/.err28", "rb") as f:
            return f.read(2000).decode("latin-1")

    def get(self):
        while b"\n" not in self.buf:
            r, _, _ = select.select([self.p.stdout], [], [], 20)
            x = os.read(self.p.stdout.fileno(), 65536) if r else None
            if not x:
                self.bad("nothing more is printed" if x == b"" else "no answer within 20 s")
            self.buf += x
        l, self.buf = self.buf.split(b"\n", 1)
        self.log.append(l.decode("latin-1"))
        return self.log[-1]

    def want(self, s):
        l = self.get()
        if l != s:
            self.bad("unexpected line", expected=s, got=l)

    def go(self):
        held, socks = [], []
        self.log, self.p = [], None
        if "zero" in self.it:
            return self.zero()
        try:
            port = free_port(Rnd(), held)
            self.srv_port = port
            self.lst = listener()
            d = core.scratch()
            with open(d + "/s.l", "w") as f:
                f.write(PRE.replace("PORT", str(port)).replace("BEGIN", ["(list srv (car rw))", "(list (car rw) srv)", "(list srv (car rw))", "(list NIL srv T 'x (car rw) NIL)"][self.it["begin"]]))
            with open(d + "/.err28", "wb") as e:
                self.p = subprocess.Popen([core._launcher(), "20", "64", "64", core.mnml("dbg"), "-d", d + "/s.l", str(self.lst.getsockname()[1])], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                          stderr=e, env=core.base_env(), cwd=d + "/cwd", start_new_session=True)
            self.socks = socks
            self.talk()
            return self.n
        finally:
            if self.p:
                try:
                    os.killpg(self.p.pid, signal.SIGKILL)
                except OSError:
                    pass
                self.p.wait()
                self.p.stdin.close()
                self.p.stdout.close()
            for s in socks:
                try:
                    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, b"\1\0\0\0\0\0\0\0")
                except OSError:
                    pass
                s.close()
            for u in held:
                u.close()

    def zero(self):
        d = core.scratch()
        with open(d + "/s.l", "w") as f:
            f.write(ZERO.replace("BEGIN", ["(list 0)", "(list (car rw) 0)", "(list 0 (car rw))", "(list 'x 0 NIL (car rw))"][self.it["zero"]]))
        with open(d + "/.err28", "wb") as e:
            self.p = subprocess.Popen([core._launcher(), "20", "64", "64", core.mnml("dbg"), "-d", d + "/s.l"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                      stderr=e, env=core.base_env(), cwd=d + "/cwd", start_new_session=True)
        try:
            m = re.fullmatch(r"up \((\d+) \. (\d+)\)", self.get())
            if not m:
                self.bad("the program did not start")
            keep = ["(0)", "(%s 0)" % m[1], "(0 %s)" % m[1], "(0 %s)" % m[1]][self.it["zero"]]
            gone = ["NIL", "(%s)" % m[1], "(%s)" % m[1], "(%s)" % m[1]][self.it["zero"]]
            for l in self.it["lines"]:
                self.p.stdin.write(l.encode("latin-1") + b"\n")
                self.p.stdin.flush()
                self.want("read 0 " + show(string(l)))
                self.want("round %s %s" % (keep, keep))
                self.n["lines read"] += 1
            self.p.stdin.close()
            self.want("read 0 EOF")
            self.want("round %s %s" % (gone, keep))
            self.want("end")
            rc = core._wait(self.p, 60)
            if rc != 0 or self.stderr():
                self.bad("exit status %s" % rc)
            self.n["rounds on standard input"] += 1
            return self.n
        finally:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.wait()
            try:
                self.p.stdin.close()
            except OSError:
                pass
            self.p.stdout.close()

    def incoming(self):
        """A connection the interpreter made: it says on which descriptor."""
        s, _ = self.lst.accept()
        self.socks.append(s)
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        s.settimeout(60)
        b = b""
        while not b.endswith(b"\n"):
            x = s.recv(1)
            if not x:
                self.bad("the connection closed early")
            b += x
        return Conn(s), b

    def talk(self):
        self.want("NIL " * 10 + "NIL")
        self.want("NIL " * 7 + "NIL")
        m = re.fullmatch(r"up (\d+) \((\d+) \. (\d+)\) (\d+)", self.get())
        if not m:
            self.bad("the server did not start")
        srv, rd, wr, o = map(int, m.groups())
        if len({srv, rd, wr, o, 0, 1, 2}) != 7:
            self.bad("descriptors are not distinct")
        c, h = self.incoming()
        if h != b"hello %d\n" % o:
            self.bad("the connection did not carry the greeting", got=repr(h))
        self.conns = {o: c}
        self.srv, self.rd = srv, rd
        self.all = [c]
        self.fds = [o] + ([rd, srv] if self.it["begin"] == 1 else [srv, rd])
        self.pipe, self.pipe_ready = [], False
        self.pending = {}
        self.srv_seen = False
        base = self.count()
        for acts, mode in self.it["rounds"]:
            for a in acts:
                self.act(a)
            if self.may():
                self.round(mode)
        for _ in range(2000):
            if not self.may():
                break
            self.round("go")
        else:
            self.bad("never done")
        # nothing is left over
        live = base - 1 + len([c for c in self.conns])
        got = self.count()
        if got != live:
            self.bad("%d descriptors are open instead of %d" % (got, live))
        for c in self.all:
            b = b""
            c.sock.settimeout(60)
            while len(b) < len(c.back) or c.closed:
                try:
                    x = c.sock.recv(65536)
                except socket.timeout:
                    x = None
                if x is None:
                    self.bad("a connection got too little", expected=repr(c.back), got=repr(b))
                if not x:
                    break
                b += x
            if b != c.back:
                self.bad("a connection did not get back what was sent", expected=repr(c.back), got=repr(b))
        self.p.stdin.close()
        self.want("bye")
        self.want("end")
        rc = core._wait(self.p, 60)
        if rc != 0:
            self.bad("exit status %s" % rc)
        if self.stderr():
            self.bad("something on standard error")
        for c in self.all:
            if not c.closed and c.sock.recv(10) != b"":
                self.bad("more data than was sent")

    def count(self):
        """Descriptors the server has open, apart from the copies of its standard input."""
        d = "/proc/%d/fd/" % self.p.pid
        ls = []
        for f in os.listdir(d):
            try:
                ls.append(os.readlink(d + f))
            except OSError:
                pass
        return sum(1 for x in ls if x != os.readlink(d + "0"))

    def usable(self, i, need=True):
        """A connection that can still send."""
        cs = [c for c in self.all if not (c.done or c.closed)]
        return cs[i % len(cs)] if cs else None

    def act(self, a):
        k = a[0]
        if k == "open":
            if len(self.pending) >= 3 or len(self.all) > 40:
                return
            s = socket.socket()
            self.socks.append(s)
            s.settimeout(60)
            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            s.connect(("127.0.0.1", self.srv_port))
            c = Conn(s)
            self.all.append(c)
            self.pending[s.getsockname()[1]] = c
            self.n["connections"] += 1
            if a[1]:
                self.send(c, a[1], [])
            return
        c = self.usable(a[1])
        if c is None or len(c.lines) > 60:
            return
        if k == "send":
            self.send(c, a[2], a[3])
        elif k == "quit":
            self.send(c, ["quit"], [])
            c.done = True
        else:
            if k == "part" and a[2]:
                # the stream ends within a line
                s = "k" + a[2]
                c.sock.sendall(s.encode("latin-1"))
                c.lines.append([s, -1])
            c.sock.shutdown(socket.SHUT_WR)
            c.eof = c.done = True

    def send(self, c, lines, cuts):
        ls = []
        for l in lines:
            ls.append(l)
            if l[:1] in ("m", "t"):
                ls.append("k after")
            if l[:1] == "t":
                ls.append("")
            if l[:1] == "d" and len(self.all) > 30:
                ls[-1] = "k" + l
        b = "".join(l + "\n" for l in ls).encode("latin-1")
        cuts = sorted({x % len(b) for x in cuts if 0 < x % len(b)}) + [len(b)]
        done, i = [], 0
        for x in cuts:
            c.sock.sendall(b[i:x])
            done.append((x, c.sends if x - i <= 1400 else -1))
            c.sends += 1
            i = x
        pos = 0
        for l in ls:
            pos += len(l) + 1
            c.lines.append([l, next(s for x, s in done if x >= pos)])

    def may(self):
        return bool(self.pending or self.pipe or any(c.lines or c.eof for c in self.conns.values()))

    def taken(self, c):
        """One line, as the server reads it."""
        if not c.lines:
            if not c.eof:
                self.bad("a descriptor without data was handled")
            return None
        l, s = c.lines.pop(0)
        if s >= 0:
            c.known = max(c.known, s)
        self.n["lines read"] += 1
        return l

    def round(self, mode):
        self.p.stdin.write(mode.encode() + b"\n")
        self.p.stdin.flush()
        self.n["rounds"] += 1
        res, handled = [], 0
        start = list(self.fds)
        pipe_ready = bool(self.pipe)
        l = self.get()
        fresh = set()
        for fd in start:
            mine = re.match(r"(skip|read|accept) (\d+)( |$)", l)
            here = mine and (int(mine[2]) == fd if mine[1] != "accept" else fd == self.srv)
            c = self.conns.get(fd)
            must = (self.srv_seen if fd == self.srv else pipe_ready if fd == self.rd else c.seen or (c.lines and 0 <= c.lines[0][1] <= c.known))
            may = (bool(self.pending) if fd == self.srv else pipe_ready if fd == self.rd else bool(c.lines or c.eof))
            if not here:
                if must:
                    self.bad("the handler was not called for a descriptor with data", descriptor=fd, line=l)
                res.append(fd)
                continue
            if not may:
                self.bad("the handler was called for a descriptor without data", descriptor=fd)
            handled += 1
            if mode == "skip":
                if l != "skip %d" % fd:
                    self.bad("unexpected line", expected="skip %d" % fd, got=l)
                if fd == self.srv:
                    self.srv_seen = True
                elif c:
                    c.seen = True
                res.append(fd)
                l = self.get()
                continue
            if fd == self.srv:
                m = re.fullmatch(r"accept (\d+) (-?\d+)", l)
                if not m:
                    self.bad("the connection could not be accepted", got=l)
                self.want("127.0.0.1")
                cl = int(m[1])
                k = self.pending.pop(int(m[2]), None)
                if k is None:
                    self.bad("accept names a client that did not connect")
                self.add(cl, k)
                self.srv_seen = False
                res += [cl, fd]
                fresh.add(cl)
                l = self.get()
                continue
            if fd == self.rd:
                x = self.pipe.pop(0)
            else:
                c.seen = False
                x = self.taken(c)
            exp = "read %d %s" % (fd, "EOF" if x is None else show(string(x)))
            if l != exp:
                self.bad("the data differs", expected=exp, got=l)
            l = self.get()
            k = "EOF" if x is None else x[:1]
            if fd == self.rd:
                res.append(fd)
                continue
            if k == "EOF" or k == "q":
                self.n["end of stream" if k == "EOF" else "closed by the handler"] += 1
                c.closed = True
                del self.conns[fd]
                continue
            if k == "e":
                c.back += x.encode("latin-1") + b"\n"
            elif k == "p":
                self.pipe.append(x)
            elif k == "d":
                m = re.fullmatch(r"dial (\d+)", l)
                if not m:
                    self.bad("could not connect", got=l)
                n = int(m[1])
                k2, h = self.incoming()
                if h != b"hello %d\n" % n:
                    self.bad("the connection did not carry the greeting", got=repr(h))
                self.all.append(k2)
                self.add(n, k2)
                fresh.add(n)
                self.n["dialled"] += 1
                res.append(n)
                l = self.get()
            elif k == "m":
                exp = "more %d %s" % (fd, show(string(self.taken(c))))
                if l != exp:
                    self.bad("the data differs", expected=exp, got=l)
                l = self.get()
            elif k == "t":
                a, b = self.taken(c), self.taken(c)
                exp = "two %d %s %s" % (fd, show(string(a)), show(string(b)))
                if l != exp:
                    self.bad("the data differs", expected=exp, got=l)
                l = self.get()
            res.append(fd)
        if handled > 1:
            self.n["several descriptors ready"] += 1
        if handled == 0:
            self.bad("no handler was called", line=l)
        exp = "round %s %s" % (show(lst(*res)), show(lst(*start)))
        if l != exp:
            self.bad("the descriptors to watch differ", expected=exp, got=l)
        self.fds = res

    def add(self, fd, c):
        if fd in self.conns or fd in (self.srv, self.rd):
            self.bad("a descriptor is open already", descriptor=fd)
        self.conns[fd] = c


CHECK = P28()
