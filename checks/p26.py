import os, re, shutil
from vf import build, core, gen, iogen, reader
from vf.iomodel import FS, IOModel, Chan
from vf.model import *

PRE = "(load 'std 'io 'logic 'math '(io prinl))"


class CmdModel(IOModel):
    """One program in any of the three modes."""

    def __init__(self, root, it, mode):
        dirs = {"/"}
        d = root
        while d != "/":
            dirs.add(d)
            d = os.path.dirname(d)
        dirs |= {root + x for x in iogen.DIRS}
        files = {root + p: iogen.place(s, root) for p, s in it["files"].items()}
        super().__init__(FS(dirs, files), root + "/w", root + "/home", root + "/lib", it["stdin"], 30000)
        self.quit_now = False
        self.loop = mode

        def quit_(m, e, a):
            m.quit_now = True
            return T
        self.globals["quit"] = Pair(NIL, Pair(NIL, Native("quit", quit_)))
        self.root = root

    def load_module(self, n, s):
        return T if not isinstance(s, Pair) else s

    def file(self, path, text):
        self.fs.files[path] = text
        return self.load_file(path)

    def expr(self, text, cwd):
        vs, ok = reader.parse(text)
        if not ok:
            raise Discard("ends inside an expression")
        self.stdin_used = True
        self.istack = [Chan(self.stdin, cwd)]
        r = NIL
        for v in vs:
            r = self.eval(NIL, v)
            if self.quit_now:
                break
        return r

    def repl(self, text, cwd):
        self.stdin_used = True
        self.istack = [Chan(text, cwd)]
        while True:
            if not self.istack[0].queue:
                self.std[1].append(": ")
            x = self.read_value()
            if x is None:
                return NIL
            r = self.eval(NIL, x)
            self.emit("> " + show(r) + "\n")
            if self.quit_now:
                return r


def argument(t):
    k = t.draw(9)
    if k == 0:
        return ""
    if k == 1:
        return t.choice(["-d", "-e", "--", "-x", "-h", "-", "--help", "-b"])
    if k == 2:
        return t.choice(["a b", "'quoted'", "\"", "(list)", "NIL", "^\\n", "\\", "#", "$HOME", "*", "\n", "\t", "line\nline", "\x1b[0m", "\u00e9\u00ff"])
    if k == 3:
        return "".join(chr(t.range(1, 255)) for _ in range(t.size(20)))
    if k == 4 and t.chance(1, 4):
        return "x" * t.choice([100, 4095, 4096, 20000])
    return "".join(t.choice(gen.ALPHA + gen.DIGITS + "-_./") for _ in range(t.range(1, 10)))


class P26(core.Check):
    id = "P26"
    rule = "the program is run as a file, with -e and at the prompt and prints something, or it prints its arguments or environment"
    quick = (1800, 6)
    thorough = (61000, 6)
    assumptions = ["functions are not printed (their text holds an address)", "variables of the environment without a value are left out, as the interpreter does"]

    def setup(self):
        super().setup()
        b = build.build("dbg")
        # a tree like an installed one
        self.inst = b + "/installed"
        os.makedirs(self.inst + "/bin", exist_ok=True)
        os.makedirs(self.inst + "/lib", exist_ok=True)
        os.makedirs(self.inst + "/share", exist_ok=True)
        for src_, dst in ((b + "/lib/mnml", "/lib/mnml"), (build.REPO + "/share/mnml", "/share/mnml")):
            if not os.path.islink(self.inst + dst):
                try:
                    os.symlink(src_, self.inst + dst)
                except FileExistsError:
                    pass
        if not os.path.exists(self.inst + "/bin/mnml"):
            shutil.copy(b + "/bin/mnml", self.inst + "/bin/mnml.tmp%d" % os.getpid())
            os.rename(self.inst + "/bin/mnml.tmp%d" % os.getpid(), self.inst + "/bin/mnml")
        r = core.run_cmd([core.mnml("dbg"), "-v"])
        self.version = r.out.decode().strip()

    # generation

    def gen(self, t):
        k = t.draw(10)
        return self.modes(t) if k < 6 else self.args(t)

    def fixed(self):
        return [[dict(kind="options", n=i)] for i in range(13)] + [[dict(kind="home", n=i)] for i in range(5)]

    def modes(self, t):
        files = {}
        for n in iogen.NAMES:
            if t.chance(1, 3):
                files["/w/" + n] = iogen.body(t)
        forms = []
        if t.chance(1, 2):
            p = gen.Prog(t)
            forms += [src(f) for f in p.program(2, 3, 3)]
        if t.chance(1, 2):
            g = iogen.Gen(t, 1, 1, 12)
            for _ in range(t.range(1, 4)):
                s = g.stmt(3)
                forms.append(src(lst("printl", s) if t.chance(1, 2) else s))
        if t.chance(1, 3):
            forms.append(src(gen.value(t, 2, 4)) if t.chance(1, 2) else src(quote(gen.value(t, 3, 4))))
        if t.chance(1, 10):
            forms.insert(t.draw(len(forms) + 1), t.choice(["(quit)", "(prog (quit) (prinl 5))", "(if T (quit))"]))
        if t.chance(1, 4):
            forms.append(t.choice(["NIL", "T", "0", "'()", "\"\"", "^a", "(prin)", "undefined", "(= 1 2)", "'NIL"]))
        text = ""
        for f in forms:
            text += f + t.choice(["\n", "\n", "\n", " ", "\n\n", "\n# comment\n", "\t\n"])
        if t.chance(1, 5):
            text = text.rstrip()
        return dict(kind="modes", files=files, text=PRE + "\n" + text, stdin=iogen.body(t) if t.chance(1, 2) else "", opt=t.choice([[], [], ["-d"]]), fresh=t.chance(1, 8))

    def args(self, t):
        args = [argument(t) for _ in range(t.size(6))]
        env = {}
        for _ in range(t.size(4)):
            k = "V" + "".join(t.choice(gen.ALPHA + gen.DIGITS + "_.") for _ in range(t.size(8)))
            v = t.choice(["", "=", "a=b=c", "x y", "(list)", "\u00e9", "two\nlines", "NIL", "x" * 5000])
            env[k] = v if t.chance(1, 2) else argument(t)
        body = ["(printl ARGV)", "(printl ENV)", "(prinl (car ARGV))", "(printl (len ARGV))", "(printl (cdr ARGV))", "(printl (nil? ARGV))", "(printl (car (car ENV)))"]
        forms = [t.choice(body) for _ in range(t.range(1, 3))]
        call = t.choice(["absolute", "absolute", "relative", "path", "installed", "shebang"])
        return dict(kind="args", args=args, env=env, text="\n".join(forms) + "\n", call=call, dd=t.chance(1, 6), opt=t.choice([[], ["-d"], []]), lib=t.chance(1, 2))

    def show(self, it):
        if it["kind"] == "modes":
            return {"text": it["text"], "files": it["files"], "stdin": it["stdin"][:300]}
        return it

    def nontrivial(self, it):
        return it["kind"] not in ("options", "home") and (it["kind"] == "args" or "print" in it["text"] or "prin" in it["text"])

    def classify(self, it):
        return [it["kind"]] + ([it["call"]] if it["kind"] == "args" else [])

    # running

    def run(self, items):
        n = {}
        for it in items:
            for k in getattr(self, "run_" + it["kind"])(it):
                n[k] = n.get(k, 0) + 1
        return n

    def fail(self, what, it, **kw):
        raise core.Fail(what, item=self.show(it), **kw)

    def run_modes(self, it):
        root = core.scratch() + "/io"
        done = []
        text = iogen.place(it["text"], root)
        for mode in ("file", "expr", "repl"):
            if mode == "expr" and len(text) > 100000:
                continue
            try:
                m = CmdModel(root, it, mode)
                if mode == "file":
                    r = m.file(root + "/w/t.l", text)
                elif mode == "expr":
                    r = m.expr(text, root + "/w")
                else:
                    r = m.repl(text, root + "/w")
                want, werr = "".join(m.std[1]), "".join(m.std[2])
            except (Discard, RecursionError):
                done.append("left out of domain")
                continue
            shutil.rmtree(root, ignore_errors=True)
            for d in iogen.DIRS:
                os.makedirs(root + d, exist_ok=True)
            if not it.get("fresh"):
                os.makedirs(root + "/home/.mnml")
            for p, s in it["files"].items():
                with open(root + p, "wb") as f:
                    f.write(iogen.place(s, root).encode("latin-1"))
            env = core.base_env({"PWD": root + "/w", "HOME": root + "/home", "MNML_SCRIPT_PATH": root + "/lib"})
            argv = [core.mnml("dbg")] + it["opt"]
            sin = it["stdin"]
            if mode == "file":
                with open(root + "/w/t.l", "wb") as f:
                    f.write(text.encode("latin-1"))
                argv += [root + "/w/t.l"]
            elif mode == "expr":
                argv += ["-e", text.encode("latin-1")]
            else:
                sin = text
            res = core.run_cmd(argv, stdin=sin.encode("latin-1"), env=env, cwd=root + "/w")
            got = res.out.decode("latin-1")
            rc = 255 if r is NIL else 0
            if got != want:
                i = 0
                while i < min(len(want), len(got)) and want[i] == got[i]:
                    i += 1
                self.fail("%s: output differs from the model (%s)" % (mode, res.status()), it, at=i, expected=want[max(0, i - 200):i + 200], got=got[max(0, i - 200):i + 200])
            if not os.path.isdir(root + "/home/.mnml"):
                self.fail("%s: the directory of the user's modules was not made" % mode, it, stderr=res.err[:800].decode("latin-1"))
            if res.hang or res.rc != rc:
                self.fail("%s: %s where exit %d was expected" % (mode, res.status(), rc), it, stderr=res.err[:800].decode("latin-1"))
            if res.err.decode("latin-1") != werr[:1 << 16]:
                self.fail("%s: standard error differs from the model" % mode, it, expected=werr[-500:], got=res.err[-500:].decode("latin-1"))
            done.append("run as " + mode)
        return done

    def run_args(self, it):
        d = core.scratch()
        # bytes of the locale do not matter: pass everything as bytes
        enc = lambda s: s.encode("latin-1")
        args = [a.replace("\0", "") for a in it["args"]]
        call = it["call"]
        env = dict(core.base_env())
        env.update({k: v.replace("\0", "") for k, v in it["env"].items()})
        binary = core.mnml("dbg")
        cwd = d + "/cwd"
        pre = "(load '(io printl prinl) '(std car cdr len nil?))\n"
        if it["lib"]:
            pre += "(load \"@lib/rev.l\")(printl (rev '(1 2 3)))\n"
        if call == "installed":
            binary = self.inst + "/bin/mnml"
            del env["MNML_SCRIPT_PATH"]
        if call == "shebang":
            pre = "#!%s\n%s" % (binary, pre)
        with open(cwd + "/a.l", "w") as f:
            f.write(pre + it["text"] + "T\n")
        argv0 = binary
        if call == "relative":
            argv0 = os.path.relpath(binary, cwd)
        elif call == "path":
            argv0 = "mnml"
            env["PATH"] = os.path.dirname(binary) + ":" + env["PATH"]
        if call == "path":
            cmd = ["/usr/bin/env", "mnml"]
            env["_dummy"] = "1"
        else:
            cmd = [argv0]
        if call == "shebang":
            os.chmod(cwd + "/a.l", 0o755)
            cmd = []
        else:
            cmd = cmd + it["opt"] + (["--"] if it["dd"] else [])
        cmd = cmd + [cwd + "/a.l"] + [enc(a) for a in args]
        benv = {enc(k) if isinstance(k, str) else k: enc(v) for k, v in env.items()}
        res = core.run_cmd(cmd, env=benv, cwd=cwd)
        alst = lst(*[Pair(string(k.decode("latin-1")), string(v.decode("latin-1"))) for k, v in benv.items() if v])
        m = Model()
        m.globals["ARGV"] = lst(*[string(a) for a in [cwd + "/a.l"] + args])
        m.globals["ENV"] = alst
        if it["lib"]:
            m.emit("(3 2 1)\n")
        for l in it["text"].strip().split("\n"):
            vs, ok = reader.parse(l)
            for v in vs:
                m.eval(NIL, v)
        want, got = m.text(), res.out.decode("latin-1")
        if got != want or res.rc != 0:
            i = 0
            while i < min(len(want), len(got)) and want[i] == got[i]:
                i += 1
            self.fail("arguments or environment are not what was passed (%s)" % res.status(), it, at=i, expected=want[max(0, i - 100):i + 300], got=got[max(0, i - 100):i + 300],
                      stderr=res.err[:500].decode("latin-1"))
        return ["called as " + call]

    def run_home(self, it):
        """A place for the user's modules that cannot be had: said so, and nothing is run."""
        d = core.scratch() + "/cwd"
        h = [d + "/nohome", d + "/fhome", d + "/file", d + "/" + "h" * 300, d + "/good"][it["n"]]
        os.makedirs(d + "/fhome", exist_ok=True)
        os.makedirs(d + "/good", exist_ok=True)
        for f in ("/fhome/.mnml", "/file"):
            with open(d + f, "w") as o:
                o.write("x")
        with open(d + "/o.l", "w") as f:
            f.write("(load '(io prinl))\n(prinl 5)\nT\n")
        for argv, sin in (([d + "/o.l"], b""), (["-d", "-e", "(load '(io prinl))(prinl 5)"], b""), ([], b"(load '(io prinl))(prinl 5)\n")):
            res = core.run_cmd([core.mnml("dbg")] + argv, stdin=sin, env=core.base_env({"HOME": h}), cwd=d)
            if it["n"] == 4:
                if res.rc not in (0, 255) or b"5" not in res.out or not os.path.isdir(h + "/.mnml"):
                    self.fail("does not run in a new home: %s" % res.status(), it, stderr=res.err[:500].decode("latin-1"))
                shutil.rmtree(h + "/.mnml")
            elif res.rc <= 0 or res.hang or res.out or not res.err:
                self.fail("runs without a place for modules: %s" % res.status(), it, got=res.out.decode("latin-1"), stderr=res.err[:500].decode("latin-1"))
        return ["home"]

    def run_options(self, it):
        d = core.scratch() + "/cwd"
        with open(d + "/o.l", "w") as f:
            f.write("(load '(io printl))\n(printl ARGV)\nT\n")
        with open(d + "/nil.l", "w") as f:
            f.write("5\nNIL\n")
        with open(d + "/quit.l", "w") as f:
            f.write("(load '(std quit) '(io printl))\n(quit)\n(printl 5)\nT\n")
        cases = [
            (["-v"], "", 0, self.version + "\n", None),
            (["-h"], "", 0, "", "Usage"),
            (["-z"], "", None, "", "Usage"),
            (["-e"], "", None, "", "Usage"),
            (["-b", "-e", "load"], "", 255, "", None),
            (["-b", "-d", "-e", "'(1 2 3)"], "", 0, "", None),
            (["-e", "(load '(io prin)) (prin (cdr 5)) NIL"], "", 255, None, None),
            (["-e", "(load '(io prinl) '(std cdr car)) (def at (k l) (|> l)) (prinl 5) ARGV"], "", 255, "5\n", None),
            ([d + "/nil.l"], "", 255, "", None),
            ([d + "/none.l"], "", 255, "", None),
            (["-d", d + "/o.l", "-d"], "", 0, show(lst(string(d + "/o.l"), string("-d"))) + "\n", None),
            (["-b"], "(def f (x) x)\nload\n5\nARGV\nENV\n", 255, ": > (NIL f (x) x)\n: > NIL\n: > 5\n: > NIL\n: > NIL\n: ", None),
            (["-e", "(load '(io prinl) '(std car |> conc))"
              "(def get (k l) (|> l)) (def val (((k . v) . r) x) v) (prinl CONFIG) T"], "", 0, None, None),
        ]
        argv, stdin, rc, out, err = cases[it["n"]]
        res = core.run_cmd([core.mnml("dbg")] + argv, stdin=stdin.encode())
        if rc is None and (res.rc <= 0 or res.hang) or rc is not None and res.rc != rc:
            self.fail("%s: %s" % (" ".join(argv), res.status()), it, stderr=res.err[:500].decode("latin-1"))
        if out is not None and res.out.decode("latin-1") != out:
            self.fail("%s: unexpected output" % " ".join(argv), it, expected=out, got=res.out.decode("latin-1"))
        if err and err not in res.err.decode("latin-1"):
            self.fail("%s: unexpected standard error" % " ".join(argv), it, got=res.err.decode("latin-1"))
        if it["n"] == 12:
            o = res.out.decode("latin-1")
            for need in ("VERSION" + self.version, "PREFIX" + os.path.dirname(os.path.dirname(core.mnml("dbg")))):
                if need not in o:
                    self.fail("CONFIG does not hold %s" % need, it, got=o)
        return ["options"]


CHECK = P26()
