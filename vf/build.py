"""Builds of /repo's current working tree, outside /repo, one directory per variant."""
import fcntl, hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

# variant -> (compiler, extra flags before, extra flags after, cmake options)
VARIANTS = {
    "dbg": ("gcc", "", "", ["-DCMAKE_BUILD_TYPE=Debug"]),
    "asan": ("gcc", "-fsanitize=address -fno-omit-frame-pointer -DMNML_VERIF_HEAP", "-O1",
             ["-DCMAKE_BUILD_TYPE=Debug", "-DMNML_WITH_TRANSFN=OFF"]),
    "asanfull": ("gcc", "-fsanitize=address -fno-omit-frame-pointer -DMNML_VERIF_HEAP", "-O1",
                 ["-DCMAKE_BUILD_TYPE=Debug"]),
    "slabasan": ("gcc", "-fsanitize=address -fno-omit-frame-pointer", "-O1",
                 ["-DCMAKE_BUILD_TYPE=Debug", "-DMNML_WITH_TRANSFN=OFF"]),
    "rel": ("gcc", "", "", ["-DCMAKE_BUILD_TYPE=Release", "-DMNML_ENABLE_DEBUG=OFF"]),
    "nosse": ("gcc", "", "-ULISP_ENABLE_SSE", ["-DCMAKE_BUILD_TYPE=Debug"]),
    "clang": ("clang", "", "", ["-DCMAKE_BUILD_TYPE=Debug"]),
}

SRC_DIRS = ["CMakeLists.txt", "cmake", "bin", "lib", "include", "share", "test"]


class BuildError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    for top in SRC_DIRS:
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            files = [p]
        else:
            files = []
            for d, ds, fs in os.walk(p):
                ds.sort()
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(os.path.relpath(f, REPO).encode() + b"\0")
            try:
                with open(f, "rb") as fh:
                    h.update(fh.read())
            except OSError:
                pass
            h.update(b"\0")
    return h.hexdigest()[:16]


def _env(bdir):
    env = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
           "LANG": "C.UTF-8", "HOME": os.path.join(bdir, "home"), "PWD": bdir,
           "ASAN_OPTIONS": "detect_leaks=0:detect_odr_violation=0"}
    return env


def build(variant="dbg"):
    """Returns the build directory of `variant` for the current tree."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock-" + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        hsh = tree_hash()
        bdir = os.path.join(BUILD, "%s-%s" % (variant, hsh))
        if os.path.exists(os.path.join(bdir, ".ok")):
            return bdir
        for old in os.listdir(BUILD):
            if old.startswith(variant + "-"):
                shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
        os.makedirs(os.path.join(bdir, "home", ".mnml"))
        cc, pre, post, opts = VARIANTS[variant]
        wrap = os.path.join(bdir, "cc")

        def wrapper(pre):
            with open(wrap, "w") as f:
                f.write("#!/bin/sh\nexec %s -Wno-error %s \"$@\" -Wno-error %s\n" % (cc, pre, post))
            os.chmod(wrap, 0o755)
        wrapper(pre)
        env = _env(bdir)
        env["CC"] = wrap
        log = open(os.path.join(bdir, "build.log"), "wb")

        def run(cmd, to):
            try:
                return subprocess.run(cmd, stdout=log, stderr=log, env=env, cwd=bdir,
                                      stdin=subprocess.DEVNULL, timeout=to).returncode
            except subprocess.TimeoutExpired:
                subprocess.run(["pkill", "-9", "-f", "^" + bdir + "/bin/mnml"])
                return 1
        if run(["cmake", "-S", REPO, "-B", bdir, "-G", "Ninja", "-Wno-dev",
                "-DMNML_ENABLE_TESTS=OFF"] + opts, 120):
            raise BuildError("cmake failed: " + bdir + "/build.log")
        if run(["ninja"], 240):
            # an interpreter too broken to transpile the bundled modules can still be examined
            parts = ["ninja", "mnml", "minimal_modules", "minimal", "minimal_dyn"]
            failed = run(parts, 240)
            if failed and "-DMNML_VERIF_HEAP" in pre:
                # a tree on which the hook no longer compiles: go on without one block per cell
                wrapper(pre.replace("-DMNML_VERIF_HEAP", ""))
                failed = run(["ninja"], 240) and run(parts, 240)
            if failed:
                tail = open(os.path.join(bdir, "build.log"), errors="replace").read()[-3000:]
                raise BuildError("build failed (%s):\n%s" % (variant, tail))
            open(os.path.join(bdir, ".partial"), "w").close()
        open(os.path.join(bdir, ".ok"), "w").close()
        return bdir


def mnml(variant="dbg"):
    return os.path.join(build(variant), "bin", "mnml")


def compile_c(name, sources, variant="dbg", flags=(), dyn=False):
    """Compiles a harness against the build's static library, or the shared one."""
    bdir = build(variant)
    out = os.path.join(bdir, "h-" + name)
    srcs = [os.path.join(VERIF, "harness", s) for s in sources]
    h = hashlib.sha256(b"".join(open(s, "rb").read() for s in srcs) + repr(flags).encode()).hexdigest()[:12]
    out += "-" + h
    if os.path.exists(out):
        return out
    cc, pre, post, _ = VARIANTS[variant]
    dbg = [] if variant == "rel" else ["-DLISP_ENABLE_DEBUG"]
    sse = [] if variant == "nosse" else ["-DLISP_ENABLE_SSE", "-msse4.2"]
    cmd = ([cc, "-g", "-std=gnu99", "-D_GNU_SOURCE", "-I", os.path.join(REPO, "include"), "-w"] + dbg + sse + pre.split()
           + list(flags) + srcs + (["-L" + bdir + "/lib", "-lminimal", "-Wl,-rpath," + bdir + "/lib"] if dyn else [os.path.join(bdir, "lib", "libminimal.a")]) + ["-rdynamic", "-ldl", "-o", out + ".tmp"] + post.split())
    # without the counters of the allocator, should they have another name
    for extra in ([], ["-DVERIF_NO_COUNTERS"]):
        r = subprocess.run(cmd + extra, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode == 0:
            break
    if r.returncode:
        raise BuildError("harness %s: %s" % (name, r.stdout.decode(errors="replace")[-3000:]))
    os.rename(out + ".tmp", out)
    return out


def compile_so(name, source, variant="dbg", flags=()):
    """Compiles a module of the interpreter."""
    bdir = build(variant)
    src = os.path.join(VERIF, "harness", source)
    h = hashlib.sha256(open(src, "rb").read() + repr(flags).encode()).hexdigest()[:12]
    out = os.path.join(bdir, "so-%s-%s" % (name, h))
    if os.path.exists(out):
        return out
    cc, pre, post, _ = VARIANTS[variant]
    dbg = [] if variant == "rel" else ["-DLISP_ENABLE_DEBUG"]
    sse = [] if variant == "nosse" else ["-DLISP_ENABLE_SSE", "-msse4.2"]
    cmd = [cc, "-shared", "-fPIC", "-O1", "-std=gnu99", "-D_GNU_SOURCE", "-I", os.path.join(REPO, "include"), "-w"] + dbg + sse + pre.split() + list(flags) + [src, "-o", out + ".tmp"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError("module %s: %s" % (name, r.stdout.decode(errors="replace")[-3000:]))
    os.rename(out + ".tmp", out)
    return out


def launcher():
    """The resource-limiting launcher used for every run."""
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "harness", "vrun.c")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:12]
    out = os.path.join(BUILD, "vrun-" + h)
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        r = subprocess.run(["gcc", "-O2", "-o", tmp, src], stderr=subprocess.PIPE)
        if r.returncode:
            raise BuildError(r.stderr.decode())
        os.rename(tmp, out)
    return out


if __name__ == "__main__":
    launcher()
    for v in sys.argv[1:] or ["dbg"]:
        print(build(v))
