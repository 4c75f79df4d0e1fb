import os, shutil
from vf import build, core, gen
from vf.model import *

PRE = """(load "@lib/run.l")
(load 'io 'std 'logic 'math)
(def kids (n p) (if (> n 0) (prog (setq pid (fork)) (if (= pid 0) (exec (car p) NIL NIL) (cons pid (kids (- n 1) (cdr p)))))))
(def stage (in0 out0 all p) (let ((pid . (fork))) (if (= pid 0) (prog (dup in0 0) (dup out0 1) (shut all) (exec p NIL NIL)) pid)))
(def shut (l) (if l (prog (close (car l)) (shut (cdr l)))))
(def copy () (let ((l . (readline))) (if (= l 'EOF) 'end (prog (printl l) (copy)))))
(def chain (rd ps all)
  (if (nil? ps) rd
    (let (((r . w) . (pipe)) (pid . (stage rd w (list rd r w) (car ps))))
      (close rd w)
      (setq pids (cons pid pids))
      (chain r (cdr ps) all))))
(def waits (l) (if l (cons (wait (car l)) (waits (cdr l)))))
"""


def text(t, nl=True, big=False):
    """Bytes without NUL; nl: whether line ends may occur."""
    n = t.size(30) if not big else t.choice([300, 1023, 1024, 1025, 4096, 5000])
    k = t.draw(4)
    if k == 0:
        s = "".join(chr(t.range(1, 255)) for _ in range(min(n, 60)))
    elif k == 1:
        s = "".join(t.choice(" \t\"'()\\^#$*;|&=-~`") for _ in range(min(n, 40)))
    else:
        s = "".join(t.choice(gen.ALPHA + " ") for _ in range(min(n, 40)))
    s = (s * (1 + n // max(1, len(s))))[:n] if big else s
    return s if nl else s.replace("\n", "_")


def lines_of(s):
    ls = s.split("\n")
    if ls[-1] == "":
        ls.pop()
    return ls


class P27(core.Check):
    id = "P27"
    rule = "a program is run with arguments, an environment or output, or several processes are connected or awaited"
    quick = (4000, 4)
    thorough = (486000, 4)
    assumptions = ["arguments and environment entries hold no NUL", "the output of a program that is run is at most 400 lines", "data in flight in a pipe is below its capacity"]

    def setup(self):
        super().setup()
        b = build.build("dbg")
        src_ = os.path.join(build.VERIF, "harness", "child.c")
        import hashlib
        self.child = b + "/child-" + hashlib.sha256(open(src_, "rb").read()).hexdigest()[:10]
        if not os.path.exists(self.child):
            r = core.run_cmd([shutil.which("gcc"), "-O1", "-w", "-o", self.child + ".tmp", src_], cpu=60)
            if r.rc:
                raise build.BuildError(r.err.decode())
            os.rename(self.child + ".tmp", self.child)

    def gen(self, t):
        data, ops = [], []

        def arg(s):
            data.append(s)
            return len(data) - 1
        for _ in range(t.range(1, 4)):
            k = t.weighted([(8, "run"), (2, "many"), (3, "pipeline"), (2, "dup"), (1, "close"), (1, "unlink"), (1, "missing"), (1, "echild")])
            if k == "run":
                out = text(t, big=t.chance(1, 10))
                if t.chance(1, 3):
                    out = "\n".join([out] + [text(t, False) for _ in range(t.size(12))])
                if t.chance(1, 25):
                    out = "".join("line %d\n" % i for i in range(t.choice([100, 300, 400])))
                if t.chance(1, 2):
                    out += "\n"
                ops.append(dict(k="run", args=[arg(text(t)) for _ in range(t.size(5))], env=[(arg("K%d" % i if t.chance(3, 4) else "k" + text(t).replace("=", "")), arg(text(t))) for i in range(t.size(4))],
                                out=out, err=text(t) if t.chance(1, 5) else "", end=("kill", t.choice([9, 15, 6])) if t.chance(1, 8) else ("exit", t.choice([0, 0, 1, 2, 7, 127, 128, 254, 255])),
                                sleep=t.choice([0, 0, 0, 3]), split=t.chance(1, 4)))
            elif k == "many":
                n = t.range(2, 6)
                perm = list(range(n))
                for i in range(n):
                    j = t.range(i, n - 1)
                    perm[i], perm[j] = perm[j], perm[i]
                ops.append(dict(k="many", codes=[t.choice([0, 1, 3, 100 + i]) for i in range(n)], perm=perm, sleeps=[t.draw(6) for _ in range(n)]))
            elif k == "pipeline":
                ops.append(dict(k="pipeline", n=t.range(0, 4), codes=[t.draw(4) for _ in range(4)], lines=[arg(text(t, False)) for _ in range(t.size(8))]))
            elif k == "dup":
                ops.append(dict(k="dup", lines=[(t.draw(3), arg(text(t, False))) for _ in range(t.range(1, 6))], target=t.range(40, 60), zero=t.draw(4)))
            elif k == "close":
                ops.append(dict(k="close", n=t.draw(5)))
            elif k == "unlink":
                ops.append(dict(k="unlink", there=t.chance(1, 2), name=t.choice(["u1", "u 2", "sub/u3", "nodir/u4"])))
            else:
                ops.append(dict(k=k))
        return dict(ops=ops, data=data, final=t.choice([None, None, 0, 3, 255]), pad=t.choice([0, 0, 60, 200]))

    def show(self, it):
        return it

    def classify(self, it):
        return sorted({o["k"] for o in it["ops"]})

    def run(self, items):
        n = {"programs run": 0}
        for it in items:
            n["programs run"] += self.one(it)
        return n

    def one(self, it):
        d = core.scratch() + "/p27"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + "/sub")
        nchild = [0]
        recs = []

        def child(spec):
            p = "%s/c%d" % (d, nchild[0])
            nchild[0] += 1
            os.symlink(self.child, p)
            with open(p + ".spec", "wb") as f:
                f.write(spec.encode("latin-1"))
            return p

        lit = lambda i: "(nth %d)" % i
        L, want, err = [], [], ""
        fds = child("fds\n")
        L.append("(setq fds (run \"%s\" NIL NIL))" % fds)
        pad = "# a line of no consequence, only here to make the script longer\n" * it["pad"]
        ran = 1
        for o in it["ops"]:
            L.append(pad)
            if o["k"] == "run":
                half = len(o["out"]) // 2 if o["split"] else len(o["out"])
                a, b = o["out"][:half], o["out"][half:]
                spec = "out %d\n%s" % (len(a), a) + ("sleep 2\nout %d\n%s" % (len(b), b) if b else "")
                if o["err"]:
                    spec += "err %d\n%s" % (len(o["err"]), o["err"])
                    err += o["err"]
                if o["sleep"]:
                    spec += "sleep %d\n" % o["sleep"]
                spec += "%s %d\n" % o["end"]
                p = child(spec)
                env = "(list %s)" % " ".join("(cons %s %s)" % (lit(k), lit(v)) for k, v in o["env"]) if o["env"] else "NIL"
                args = "(list %s)" % " ".join(lit(i) for i in o["args"]) if o["args"] else "NIL"
                L.append("(printl (run \"%s\" %s %s))" % (p, args, env))
                want.append(show(Pair(o["end"][1] if o["end"][0] == "exit" else NIL, lst(*[string(l) for l in lines_of(o["out"])]))))
                D = it["data"]
                recs.append((p, [D[i] for i in o["args"]], [D[k] + "=" + D[v] for k, v in o["env"]] if o["env"] else None))
                ran += 1
            elif o["k"] == "many":
                ps = [child("sleep %d\nexit %d\n" % (s, c)) for s, c in zip(o["sleeps"], o["codes"])]
                n = len(ps)
                L.append("(setq ks (kids %d '(%s)))" % (n, " ".join('"%s"' % p for p in ps)))
                # waits in the given order; the codes are distinct enough to tell them apart
                L.append("(let ((%s . ks)) (printl %s))" % ("(" + " ".join("k%d" % i for i in range(n)) + ")", " ".join("(wait k%d)" % i for i in o["perm"])))
                want.append(" ".join(str(o["codes"][i]) for i in o["perm"]))
                ran += n
            elif o["k"] == "pipeline":
                ps = [child("cat\nexit %d\n" % c) for c in o["codes"][:o["n"]]]
                L.append("(setq pids 0) (setq rw (pipe))")
                L.append("(out (cdr rw) (prin)%s)" % "".join(" (prinl %s)" % lit(i) for i in o["lines"]))
                L.append("(close (cdr rw)) (setq pids '(0))")
                L.append("(setq rd (chain (car rw) '(%s) NIL))" % " ".join('"%s"' % p for p in ps))
                L.append("(in rd (printl (copy)))")
                want += [show(string(it["data"][i])) for i in o["lines"]] + ["end"]
                L.append("(printl (close rd))")
                want.append("T")
                L.append("(let ((%s . pids)) (printl 'codes%s))" % ("(" + " ".join("k%d" % i for i in reversed(range(o["n"]))) + " . rest)" if o["n"] else "rest", "".join(" (wait k%d)" % i for i in range(o["n"]))))
                want.append(" ".join(["codes"] + [str(c) for c in o["codes"][:o["n"]]]))
                ran += o["n"]
            elif o["k"] == "dup":
                tg = o["target"]
                L.append("(setq rw (pipe)) (setq w1 (cdr rw)) (setq w2 (dup w1)) (printl (= w1 w2) (dup w1 %d))" % tg)
                want.append("NIL %d" % tg)
                for w, i in o["lines"]:
                    L.append("(out %s (prinl %s))" % (["w1", "w2", tg][w], lit(i)))
                if o.get("zero"):
                    # standard input's number is a target like the others, also after a call that failed
                    L.append("(setq s0 (dup 0)) (printl (dup 333)%s)" % (" (close 0)" if o["zero"] > 1 else ""))
                    want.append("9" + (" T" if o["zero"] > 1 else ""))
                    L.append("(printl (dup w1%s))" % ("" if o["zero"] == 2 else " 0"))
                    want.append("0")
                    L.append("(out 0 (prinl \"zero\")) (printl (dup s0 0) (close s0))")
                    want.append("0 T")
                L.append("(printl (close w2 w1) (close %d) (close %d))" % (tg, tg))
                want.append("T T NIL")
                L.append("(in (car rw) (printl (copy)))")
                want += [show(string(it["data"][i])) for _, i in o["lines"]] + (["(^z ^e ^r ^o)"] if o.get("zero") else []) + ["end"]
                L.append("(printl (close (car rw)))")
                want.append("T")
            elif o["k"] == "close":
                f, w = [("(close 333)", "NIL"), ("(close)", "T"), ("(close 333 334)", "NIL"), ("(let (((r . w) . (pipe))) (close r 333 w))", "NIL"),
                        ("(let (((r . w) . (pipe))) (close r w) (printl (close r)) (close w))", "NIL\nNIL")][o["n"]]
                L.append("(printl %s)" % f)
                want += w.split("\n")
            elif o["k"] == "unlink":
                p = "%s/%s%d" % (d, o["name"], len(L))
                if o["there"] and "nodir" not in p:
                    open(p, "w").close()
                L.append("(printl (unlink \"%s\"))" % p)
                want.append("T" if o["there"] and "nodir" not in p else "NIL")
            elif o["k"] == "missing":
                L.append("(printl (car (run \"%s/no such program\" NIL NIL)))" % d)
                want.append("2")
            elif o["k"] == "echild":
                L.append("(printl (wait 99999999))")
                want.append("10")
        L.append("(printl 'fds (= fds (run \"%s\" NIL NIL)))" % fds)
        want.append("fds T")
        L.append("(printl (run \"%s\" NIL NIL))" % child("kids\n"))
        want.append(show(lst(0, string("0"))))
        last = None
        if it["final"] is not None:
            last = child("out 6\nfinal\nexit %d\n" % it["final"])
            L.append("(exec \"%s\" NIL NIL)\n(printl 'not 'reached)" % last)
            want.append("final")
        script = PRE + "(def nth1 (n l) (if (> n 0) (nth1 (- n 1) (cdr l)) (car l)))\n(def nth (n) (nth1 (+ n 1) ARGV))\n" + "\n".join(L) + "\nT\n"
        env = core.base_env()
        res = core.run_mnml(script.encode("latin-1"), opts=["-d"], args=[s.encode("latin-1") for s in it["data"]], env=env, cpu=20)
        got = res.out.decode("latin-1")
        exp = "".join(w + "\n" for w in want)
        det = dict(item=it, script=script[len(PRE):], stderr=res.err[-600:].decode("latin-1"))
        if got != exp:
            i = 0
            while i < min(len(exp), len(got)) and exp[i] == got[i]:
                i += 1
            raise core.Fail("results differ from what the programs did (%s)" % res.status(), at=i, expected=exp[max(0, i - 200):i + 200], got=got[max(0, i - 200):i + 200], **det)
        if res.hang or res.rc != (it["final"] or 0):
            raise core.Fail("%s" % res.status(), **det)
        if res.err.decode("latin-1") != err:
            raise core.Fail("standard error differs", expected=err, **det)
        for p, args, envp in recs:
            try:
                with open(p + ".rec", "rb") as f:
                    parts = f.read().decode("latin-1").split("\0")
            except OSError:
                raise core.Fail("the program was not run", program=p, **det)
            if len(parts) < 3:
                raise core.Fail("the program was not run", program=p, **det)
            n = int(parts[0])
            a, rest = parts[1:n + 1], parts[n + 1:]
            m = int(rest[0])
            e = rest[1:m + 1]
            if len(rest) != m + 2:
                raise core.Fail("the program was run more than once", program=p, **det)
            if a != [p] + args:
                raise core.Fail("the program did not get its arguments", expected=args, got=a, **det)
            if envp is None:
                envp = ["%s=%s" % kv for kv in env.items()]
            if e != envp:
                raise core.Fail("the program did not get its environment", expected=envp, got=e, **det)
        return ran


CHECK = P27()
