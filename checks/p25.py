import os, re, shutil
from vf import build, core, gen, iogen
from vf.iomodel import FS, IO, IOModel
from vf.model import *

MODULES = {
    "std": "car cdr chr conc cond cons def eval if atm? chr? lst? nil? num? str? sym? tru? \\ len let list load match prog quit quote <- setq str |> sym unless when while".split(),
    "io": "in out prin prinl print printl read readline".split(),
    "math": "+ / >= > <= < % * -".split(),
    "logic": "and = <> not or".split(),
    "sys": "slabinfo time".split(),
    "unix": "accept close connect dup exec fork listen pipe select unlink wait".split(),
    "iterators": "foldl foldr map map2 zip".split(),
    "manips": "assoc caar cddr cadar caddr cadr cdar last rep truncl".split(),
}
PRE = "(load '(std if prog setq) '(math - >) '(io printl in readline out))\n(setq k 3)\n"
BASE = ["if", "prog", "setq", "-", ">", "printl", "in", "readline", "out", "load", "def", "quote"]
FREE = [n for ns in MODULES.values() for n in ns if n not in BASE] + ["va", "vb"]
CALLS = ["(car '(1 2))", "(cdr '(1 2))", "(+ 1 2)", "(* 2 3)", "(= 1 1)", "(<> 1 2)", "(va 1)", "(vb 1 2)", "(list 1 2)", "(cons 1 2)", "(not T)", "(and T NIL)",
         "(or NIL 3)", "(len '(1 2))", "(str 'a)", "(when T 1)", "(u0 1)", "(u1 2)", "v0", "v1", "(< 1 2)", "((\\ (x) x) 3)", "(let ((a . 1)) a)", "(cond ((T 1)))"]
SCRIPTS = ["s0.l", "s1.l", "s2.l", ".s3.l"]
SDIRS = ["/w", "/w/sub", "/w/sub/deep", "/home", "/lib"]


class LoadModel(IOModel):
    def __init__(self, vmods, *a):
        super().__init__(*a)
        full = dict(self.globals)
        self.full = full
        self.globals = {n: full[n] for n in ("def", "load", "quote")}
        self.globals["load"] = Pair(IO["load"][0], Pair(NIL, Native("load", IO["load"][1])))
        self.vmods = vmods

    def load_module(self, name, syms):
        names = MODULES.get(name)
        if name in self.vmods:
            names = ["va", "vb"] if self.vmods[name] else []
        if not names:
            return NIL
        if syms is T:
            want = names
        else:
            want, p = [], syms
            while isinstance(p, Pair):
                if is_sym(p.car) and p.car in names:
                    want.append(p.car)
                p = p.cdr
            if p is not NIL and want:
                raise Discard("a dotted list of names")
        for n in want:
            if n in self.full:
                self.globals[n] = self.full[n]
            elif n in ("va", "vb"):
                v = self.vmods[name]
                if n == "va":
                    f = lambda m, e, a, v=v: Pair(100 * v, a["X"])
                    self.globals[n] = Pair(lst("X"), Pair(NIL, Native(n, f)))
                else:
                    f = lambda m, e, a, v=v: Pair(100 * v + 1, Pair(a["Y"], a["X"]))
                    self.globals[n] = Pair(lst("X", "Y"), Pair(NIL, Native(n, f)))
            else:
                def g(m, e, a):
                    raise Discard("not modelled")
                self.globals[n] = Pair("ANY", Pair(NIL, Native(n, g)))
            self.note("names defined by modules")
        return lst(*want)


class P25(iogen.IOCheck):
    id = "P25"
    variants = ("dbg", "asanfull")
    rule = "at least two loads, one of them of a script or of part of a module"
    quick = (1500, 10)
    thorough = (24000, 10)
    assumptions = ["the first file found on the search path decides, as documented: system, user cache, MNML_MODULE_PATH"]

    def setup(self):
        super().setup()
        self.so = {v: build.compile_so("vmod%d" % v, "vmod.c", "dbg", ("-DVER=%d" % v,)) for v in (1, 2, 3)}
        # 4 and 5 are libraries, but no modules
        self.so[4] = build.compile_so("vmod4", "vmod.c", "dbg", ("-DVER=4", "-DNO_NAME"))
        self.so[5] = build.compile_so("vmod5", "vmod.c", "dbg", ("-DVER=5", "-DNO_ENTRIES"))

    # generation

    def path(self, t):
        p = self.short_path(t)
        return iogen.stretch(t, p) if t.chance(1, 40) else p

    def short_path(self, t):
        n = t.choice(SCRIPTS)
        k = t.draw(14)
        if k < 6:
            return n
        return ["./" + n, "sub/" + n, "deep/" + n, "../" + n, iogen.ROOT + "/w/" + n, "~/" + n, "@lib/" + n, t.choice(["nodir/" + n, "none.l", "../w/sub/" + n])][k - 6]

    def spec(self, t):
        """One argument of load, as text."""
        k = t.draw(12)
        if k < 4:
            return '"%s"' % self.path(t)
        mod = t.choice(["std", "io", "math", "logic", "iterators", "manips", "vmod", "vmod", "sys", "unix"])
        if t.chance(1, 8):
            mod = t.choice(["nomodule", "badsig", "garbage", "i", "iox", "stdstdstdstdstds", "vmo", "vmo", "vmodx", "vmodx"])
        if k < 9:
            own = MODULES.get(mod, ["va", "vb"])
            ns = [t.choice(own) if t.chance(4, 5) else t.choice(FREE + ["nosuch", "prinlx", "c", "5", "NIL", "T", "(car)", '"car"', "_"]) for _ in range(t.size(5))]
            return "'(%s)" % " ".join([mod] + ns)
        if k < 11:
            return "'" + mod if t.chance(2, 3) else "'(%s . T)" % mod
        return t.choice(["5", "NIL", "T", "^a", "'(5 car)", "'(NIL car)", "'(\"io\" prinl)", "'(T . T)", "'(io . 5)", "'(std . car)", "'(math . ^x)", "'(vmod . 0)"])

    def form(self, t, depth):
        k = t.draw(14)
        if k < 6:
            ss = [self.spec(t) for _ in range(t.size(2) + (1 if t.chance(9, 10) else 0))]
            f = "(load %s)" % " ".join(ss)
            last = ss[-1] if ss else ""
            if last.startswith("'") and (not last.startswith("'(") or ". T" in last):
                return "(printl 'ALL %s)" % f
            return t.choice(["(printl 'ALL %s)", "%s", "(out \"o.txt\" (printl 'ALL %s))", "(in \"data\" (printl (readline)) (printl 'ALL %s) (printl (readline)))"]) % f
        if k < 9:
            return "(printl 'DEF %s)" % " ".join("(if %s 1 0)" % t.choice(FREE + ["u0", "u1", "v0", "v1"]) for _ in range(t.range(4, 16)))
        if k < 11:
            return "(printl %s)" % t.choice(CALLS)
        if k == 11:
            return t.choice(["(def u%d (x) (printl x %d))", "(setq v%d %d)", "(def u%d (x) '(f %d))"]) % (t.draw(2), t.draw(100))
        if k == 12:
            return t.choice(["(def car (x) 'mine)", "(def + (x y) 'mine)", "(setq list 7)", "(def va (x) 'mine)", "(setq len '(1))", "(def not (x) x)", "(setq prinl 3)"])
        return "(if (> k 0) (prog (setq k (- k 1)) (load \"%s\")))" % self.path(t)

    def script(self, t, depth=0):
        fs = [self.form(t, depth) for _ in range(t.size(5))]
        sep = [t.choice(["\n", "\n", " ", "\n\n# comment\n"]) for _ in fs]
        return "".join(f + s for f, s in zip(fs, sep)) + t.choice(["", "\n", "'last\n", "42"])

    def gen(self, t):
        files = {}
        for d in SDIRS:
            for n in SCRIPTS:
                if t.chance(2 if d == "/w" else 1, 3):
                    files[d + "/" + n] = self.script(t)
            if t.chance(1, 2):
                files[d + "/data"] = "one of %s\ntwo\nthree\n" % d
        main = t.choice(["/w", "/w", "/w/sub", "/home"])
        text = PRE + "\n".join(self.form(t, 0) for _ in range(t.range(2, 8))) + "\n(load '(unix pipe))\n(printl 'FD (pipe))\n(printl 'DEF %s)\n" % " ".join("(if %s 1 0)" % n for n in FREE + ["u0", "u1", "v0", "v1"])
        mods = {}
        for d in ("/home/.mnml", "/m1", "/m2"):
            for n in ("vmod", "badsig", "garbage", "vmo", "vmodx"):
                if t.chance(1, 2):
                    mods[d + "/lib%s.so" % n] = t.range(1, 3) if t.chance(6, 7) else t.range(4, 5)
        mp = t.choice(["<R>/m1", "<R>/m1:<R>/m2", "<R>/m2:<R>/m1", "<R>/none:<R>/m2", ":<R>/m1:", "<R>/m1/:<R>/m2/", "../m2:<R>/m1", None])
        if mp and t.chance(1, 20):
            mp = "/nonexistent:" * t.choice([50, 320, 1000, 4000]) + mp
        sp = t.choice(["<R>/lib", "<R>/lib", "<R>/none:<R>/lib", "<R>/lib:<R>/w/sub", "<R>/w/sub:<R>/lib", "<R>/w/sub/deep:<R>/home:<R>/lib"])
        return dict(files=files, script=main + "/t.l", text=text, stdin="", pipe=False, mods=mods, mp=mp, sp=sp)

    def show(self, it):
        return {"script": it["text"], "at": it["script"], "files": it["files"], "modules": it["mods"], "MNML_MODULE_PATH": it["mp"], "MNML_SCRIPT_PATH": it["sp"]}

    def nontrivial(self, it):
        x = it["text"].replace(PRE, "")
        return x.count("(load ") > 1 and ("(load \"" in x or "(load '(" in x)

    # running

    def expected(self, it, root):
        found = {}
        dirs = ["/home/.mnml"] + [p.replace("<R>", "").replace("..", "").rstrip("/") for p in (it["mp"] or "").split(":") if p.startswith(("<R>", ".."))]
        for n in ("vmod", "badsig", "garbage", "vmo", "vmodx"):
            hit = [d for d in dirs if d + "/lib%s.so" % n in it["mods"]]
            v = it["mods"][hit[0] + "/libvmod.so"] if hit and n == "vmod" else 0
            found[n] = v if v < 4 else 0
        alld = {"/"}
        d = root
        while d != "/":
            alld.add(d)
            d = os.path.dirname(d)
        alld |= {root + x for x in iogen.DIRS}
        files = {root + p: iogen.place(s, root) for p, s in it["files"].items()}
        files[root + it["script"]] = iogen.place(it["text"], root)
        m = LoadModel(found, FS(alld, files), root + "/w", root + "/home", it["sp"].replace("<R>", root))
        m.result = m.load_file(root + it["script"])
        return m

    def run(self, items):
        n = {"executed": 0, "left_out_of_domain": 0}
        for j, it in enumerate(items):
            root = core.scratch() + "/io"
            try:
                m = self.expected(it, root)
            except (Discard, RecursionError):
                n["left_out_of_domain"] += 1
                continue
            n["executed"] += 1
            for k, v in m.stats.items():
                n[k] = n.get(k, 0) + v
            shutil.rmtree(root, ignore_errors=True)
            for d in iogen.DIRS + ["/home/.mnml", "/m1", "/m2"]:
                os.makedirs(root + d, exist_ok=True)
            for p, s in list(it["files"].items()) + [(it["script"], it["text"])]:
                with open(root + p, "wb") as f:
                    f.write(iogen.place(s, root).encode("latin-1"))
            for p, v in it["mods"].items():
                if "garbage" in p:
                    with open(root + p, "w") as f:
                        f.write("not a library")
                else:
                    os.symlink(self.so[v], root + p)
            env = core.base_env({"PWD": iogen.where(it, root, False)[0], "HOME": root + "/home", "MNML_SCRIPT_PATH": it["sp"].replace("<R>", root),
                                 "MNML_MODULE_PATH": it["mp"].replace("<R>", root) if it["mp"] else None})
            # with -d the status tells also that no cell was kept, whatever was loaded
            res = core.run_cmd([core.mnml("asanfull" if j == 0 else "dbg")] + ["-d"] * (j % 2) + [root + it["script"]], env=env, cwd=root + "/w")
            want, got = norm("".join(m.std[1])), norm(res.out.decode("latin-1"))
            if want != got or res.hang or res.rc != (255 if m.result is NIL else 0):
                a, b = want.split("\n"), got.split("\n")
                i = 0
                while i < min(len(a), len(b)) and a[i] == b[i]:
                    i += 1
                raise core.Fail("the outcome of the loads differs from the model (%s)" % res.status(), item=self.show(it), line=i + 1, expected=a[max(0, i - 3):i + 3],
                                got=b[max(0, i - 3):i + 3], stderr=res.err[:800].decode("latin-1"))
            w, g = norm(m.fs.files.get(root + "/w/o.txt", "")), ""
            if os.path.exists(root + "/w/o.txt"):
                with open(root + "/w/o.txt", encoding="latin-1") as f:
                    g = norm(f.read())
            if w != g:
                raise core.Fail("output redirected around a load differs from the model", item=self.show(it), expected=w, got=g)
        return n


def norm(s):
    """Results of loads as sets of names: the order within a module is not promised."""
    out = []
    for l in s.split("\n"):
        if l.startswith("ALL ("):
            l = "ALL " + " ".join(sorted(re.findall(r"[^\s()]+", l[4:])))
        elif l.startswith("DEF "):
            names = l.split(" ")
        out.append(l)
    return "\n".join(out)


CHECK = P25()
