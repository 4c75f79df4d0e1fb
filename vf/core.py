"""The engine: seeded generation in parallel, shrinking, replay, evidence."""
import argparse, hashlib, importlib, json, multiprocessing as mp, os, random, select, shutil, signal, subprocess, sys, tempfile, time, traceback
from . import build
from .tape import Tape, shrink_list

VERIF = build.VERIF
REPO = build.REPO
SCRATCH_ROOT = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()


class Res:
    """Outcome of one process."""
    __slots__ = ("rc", "out", "err", "hang", "wall")

    def __init__(self, rc, out, err, hang, wall):
        self.rc, self.out, self.err, self.hang, self.wall = rc, out, err, hang, wall

    def status(self):
        if self.hang:
            return "no termination"
        if self.rc < 0:
            return "killed by signal %d" % -self.rc
        return "exit %d" % self.rc


_scratch = None


def scratch():
    """A private directory of this process, removed at the end."""
    global _scratch
    if _scratch is None or _scratch[0] != os.getpid():
        root = os.environ.get("VERIF_SCRATCH") or SCRATCH_ROOT
        d = tempfile.mkdtemp(prefix="w%d-" % os.getpid(), dir=root)
        os.makedirs(os.path.join(d, "home", ".mnml"))
        os.makedirs(os.path.join(d, "cwd"))
        _scratch = (os.getpid(), d)
    return _scratch[1]


def base_env(extra=None):
    d = scratch()
    env = {"PATH": "/usr/local/bin:/usr/bin:/bin", "LANG": "C.UTF-8", "HOME": d + "/home", "PWD": d + "/cwd",
           "MNML_SCRIPT_PATH": REPO + "/share/mnml",
           "ASAN_OPTIONS": "detect_leaks=0:detect_odr_violation=0:exitcode=99:allocator_may_return_null=1:handle_abort=1"}
    if extra:
        env.update(extra)
        env = {k: v for k, v in env.items() if v is not None}
    return env


def _wait(p, seconds):
    """Exit status, or None after that many seconds (no polling)."""
    try:
        fd = os.pidfd_open(p.pid)
    except (OSError, AttributeError):
        fd = None
    if fd is not None:
        try:
            poll = select.poll()
            poll.register(fd, select.POLLIN)
            poll.poll(seconds * 1000)
        finally:
            os.close(fd)
        return p.poll()
    try:
        return p.wait(seconds)
    except subprocess.TimeoutExpired:
        return None


def maxrss_env(extra=None):
    """An environment that makes the next run record its peak resident set; read it with maxrss()."""
    return base_env(dict(extra or {}, VRUN_STAT=scratch() + "/.rss"))


def maxrss():
    with open(scratch() + "/.rss") as f:
        return int(f.read())


def run_cmd(argv, stdin=b"", env=None, cwd=None, cpu=10, wall=60, fsize=64, stack=64, pipe=False):
    """Runs argv under limits; the limits on CPU are what decides 'no termination'."""
    d = scratch()
    so, se, si = d + "/.out", d + "/.err", d + "/.in"
    with open(si, "wb") as f:
        f.write(stdin)
    t0 = time.time()
    hang = False
    if pipe:
        # all of it is in the pipe before the program starts
        assert len(stdin) <= 60000
        rd, wr = os.pipe()
        os.write(wr, stdin)
        os.close(wr)
    with (os.fdopen(rd, "rb") if pipe else open(si, "rb")) as fi, open(so, "wb") as fo, open(se, "wb") as fe:
        p = subprocess.Popen([_launcher(), str(cpu), str(fsize), str(stack)] + argv, stdin=fi, stdout=fo, stderr=fe,
                             env=env or base_env(), cwd=cwd or d + "/cwd", start_new_session=True)
        killed = False
        rc = _wait(p, wall)
        if rc is None:
            killed = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        if killed:
            rc = _wait(p, 60)
            hang = True
    if rc in (-signal.SIGXCPU, -signal.SIGKILL):
        hang = True
    with open(so, "rb") as f:
        out = f.read(fsize << 20)
    with open(se, "rb") as f:
        err = f.read(1 << 16)
    return Res(rc, out, err, hang, time.time() - t0)


_launch = None


def _launcher():
    global _launch
    if _launch is None:
        _launch = build.launcher()
    return _launch


_bins = {}


def mnml(variant="dbg"):
    if variant not in _bins:
        _bins[variant] = build.mnml(variant)
    return _bins[variant]


def run_mnml(script, args=(), variant="dbg", stdin=b"", env=None, opts=(), mode="file", cpu=None, wall=60, name="t.l", stack=None, cwd=None, **kw):
    """mode: file (script in a file), expr (-e), repl (script on standard input)."""
    if isinstance(script, str):
        script = script.encode("utf-8", "surrogateescape")
    d = scratch()
    asan = "asan" in variant
    argv = [mnml(variant)] + list(opts)
    if mode == "file":
        path = d + "/cwd/" + name
        with open(path, "wb") as f:
            f.write(script)
        argv += [path] + list(args)
    elif mode == "expr":
        argv += ["-e", script] + list(args)
    else:
        argv += list(args)
        stdin = script
    return run_cmd(argv, stdin=stdin, env=env or base_env(), cpu=cpu or (40 if asan else 10), wall=wall if not asan else 2 * wall,
                   stack=stack or (512 if asan else 64), cwd=cwd, **kw)


class Fail(Exception):
    """A violation: message and details for the replay file."""

    def __init__(self, msg, **details):
        super().__init__(msg)
        self.msg = msg
        self.details = details


class Check:
    """One property. Subclasses define gen(t) -> item and run(items), which raises Fail."""
    id = None
    rule = ""
    level = "exploration"
    variants = ("dbg",)
    quick = (200, 20)       # cases, items per case
    thorough = (2000, 20)
    assumptions = []
    shrink_s = 60

    def setup(self):
        for v in self.variants:
            mnml(v)

    def gen(self, t):
        raise NotImplementedError

    def run(self, items):
        raise NotImplementedError

    def nontrivial(self, item):
        return True

    def show(self, item):
        return item if isinstance(item, (str, int, list, dict)) else repr(item)

    def key(self, item):
        return repr(self.show(item))

    def describe(self, items):
        return [self.show(i) for i in items]

    def fixed(self):
        """Deterministic extra cases (lists of items), run first."""
        return []

    def classify(self, item):
        """Labels for the distribution report."""
        return ()

    def known(self):
        """Yields (description, callable) for recorded findings; callable returns True if it still fails."""
        return []


_chk = None


def _items(chk, blocks):
    return [chk.gen(Tape(data=b)) for b in blocks]


def _run(chk, items):
    """An outcome that makes no sense to the check is a failure of the code, not of the check."""
    try:
        return chk.run(items) or {}
    except (ValueError, LookupError, TypeError, AttributeError, ConnectionError, TimeoutError) as e:
        raise Fail("the outcome is not one the check can make sense of: %r" % e, trace=traceback.format_exc()[-3000:])


def _attempt(chk, blocks):
    """None if it holds, else Fail."""
    try:
        _run(chk, _items(chk, blocks))
    except Fail as f:
        return f
    return None


CASE_SECONDS = 150


class TooLong(BaseException):
    """A case takes longer than any sensible one; the limits on the processes under test come first."""


def _alarm(*_):
    raise TooLong()


def _work(job):
    seed, idx, nitems, deadline = job
    chk = _chk
    if time.time() > deadline:
        return ("skip", idx)
    rng = random.Random("%s/%s/%s" % (seed, chk.id, idx))
    blocks, items = [], []
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_SECONDS)
    try:
        for _ in range(nitems):
            t = Tape(rng=rng)
            items.append(chk.gen(t))
            blocks.append(t.out)
        return _work2(chk, idx, blocks, items)
    except TooLong:
        return ("skip", idx)
    except Exception:
        return ("error", idx, traceback.format_exc())
    finally:
        signal.alarm(0)


def _work2(chk, idx, blocks, items):
    keys, labels = [], {}
    for it in items:
        for l in chk.classify(it):
            labels[l] = labels.get(l, 0) + 1
        if chk.nontrivial(it):
            keys.append(hashlib.blake2b(chk.key(it).encode("utf-8", "surrogatepass"), digest_size=8).digest())
    extra = {}
    try:
        extra = _run(chk, items)
    except Fail as f:
        signal.alarm(0)
        # a verdict counts only if it comes again; one that does not is counted and reported as such
        for _ in range(4):
            try:
                _run(chk, _items(chk, blocks))
            except Fail as g:
                return ("fail", idx, blocks, g.msg, g.details)
            except Exception:
                return ("error", idx, traceback.format_exc())
        return ("flaky", idx, f.msg, clip(_jsonable(f.details)))
    except Exception:
        return ("error", idx, traceback.format_exc())
    sample = chk.show(items[0]) if idx < 40 else None
    return ("ok", idx, len(items), keys, labels, sample, extra)


def _shrink(chk, blocks, seconds):
    now = time.time
    deadline = now() + seconds

    signal.signal(signal.SIGALRM, _alarm)

    def fails(bs):
        signal.alarm(90)
        try:
            return _attempt(chk, bs) is not None
        except (Exception, TooLong):
            return False
        finally:
            signal.alarm(0)
    best = [list(b) for b in blocks]
    # whole items first
    k = max(1, len(best) // 2)
    while k >= 1:
        i = 0
        while i < len(best):
            if now() > deadline:
                return best
            cand = best[:i] + best[i + k:]
            if cand and fails(cand):
                best = cand
            else:
                i += k
        k //= 2
    for j in range(len(best)):
        best[j] = shrink_list(best[j], lambda d: fails(best[:j] + [d] + best[j + 1:]), deadline, now)
        if now() > deadline:
            break
    return best


def _jsonable(x):
    if isinstance(x, bytes):
        return x.decode("latin-1")
    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def clip(x, n=1500):
    if isinstance(x, str) and len(x) > n:
        return x[:n] + "...[%d more]" % (len(x) - n)
    if isinstance(x, list):
        return [clip(v, n) for v in x[:20]]
    if isinstance(x, dict):
        return {k: clip(v, n) for k, v in x.items()}
    return x


def _violation(chk, blocks, msg, details):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": chk.id, "message": msg, "tape": blocks, "items": _jsonable(chk.describe(_items(chk, blocks))) if blocks is not None else None,
            "details": _jsonable(details), "replay_cmd": "python3 /verif/check.py %s --replay <this file>" % chk.id}
    name = hashlib.sha256(json.dumps(body, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s.json" % (chk.id, name))
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    print("%s: %s" % (chk.id, msg))
    print("VIOLATION property=%s replay=%s" % (chk.id, path))
    return path


def main(chk, argv=None):
    global _chk
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4)))
    ap.add_argument("--max", type=float, default=None)
    ap.add_argument("--noshrink", action="store_true")
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    root = tempfile.mkdtemp(prefix="verif-%s-" % chk.id, dir=SCRATCH_ROOT)
    os.environ["VERIF_SCRATCH"] = root
    _chk = chk
    try:
        return _main(chk, a, tier, t0)
    except build.BuildError as e:
        print("BUILD ERROR: %s" % e)
        return 2
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _main(chk, a, tier, t0):
    chk.tier = tier
    chk.seed = a.seed
    chk.setup()
    if a.replay:
        body = json.load(open(a.replay))
        f = _attempt(chk, body["tape"]) if body.get("tape") is not None else None
        if body.get("tape") is None:
            for items in chk.fixed():
                try:
                    _run(chk, items)
                except Fail as e:
                    f = e
                    break
        print("FAILS: %s" % f.msg if f else "holds")
        if f:
            print(json.dumps(clip(_jsonable(f.details)), indent=1))
        return 1 if f else 0
    ncases, nitems = chk.thorough if tier == "thorough" else chk.quick
    if a.cases:
        ncases = a.cases
    # safety net for slow machines; the number of cases normally decides
    budget = a.max if a.max else (800 if tier == "thorough" else 420)
    deadline = t0 + budget
    ev = dict(evals=0, keys=set(), labels={}, samples=[], skipped=0, extra={})
    failure = None
    errors = []
    # fixed cases
    nfixed = 0
    for items in chk.fixed():
        nfixed += len(items)
        try:
            _run(chk, items)
        except Fail as f:
            again = 0
            for _ in range(3):
                try:
                    _run(chk, items)
                except Fail:
                    again += 1
            if again:
                f.details["fixed_items"] = chk.describe(items)
                failure = (None, f.msg, f.details)
                break
    ev["evals"] += nfixed
    failures = []
    flaky = 0
    if failure is None:
        with mp.get_context("fork").Pool(a.jobs) as pool:
            it = pool.imap_unordered(_work, [(a.seed, i, nitems, deadline) for i in range(ncases)], chunksize=1)
            for r in it:
                if r[0] == "skip":
                    ev["skipped"] += 1
                elif r[0] == "error":
                    errors.append(r[2])
                    if len(errors) > 3:
                        pool.terminate()
                        break
                elif r[0] == "flaky":
                    flaky += 1
                    print("note: case %d failed once and not when run again: %s" % (r[1], r[2]))
                elif r[0] == "fail":
                    ev["evals"] += len(r[2])
                    first = None
                    for _ in range(5):
                        first = _attempt(chk, r[2])
                        if first is not None:
                            break
                    if first is None:
                        # it does not come back here: noted, and the search goes on
                        flaky += 1
                        print("note: case %d failed and not when run again: %s" % (r[1], r[3]))
                        print(json.dumps(clip(_jsonable(r[4])), indent=1))
                        if flaky > 20:
                            pool.terminate()
                            break
                        continue
                    failures.append((r, first))
                    pool.terminate()
                    break
                else:
                    _, idx, n, keys, labels, sample, extra = r
                    ev["evals"] += n
                    ev["keys"].update(keys)
                    for k, v in labels.items():
                        ev["labels"][k] = ev["labels"].get(k, 0) + v
                    for k, v in extra.items():
                        ev["extra"][k] = ev["extra"].get(k, 0) + v
                    if sample is not None and len(ev["samples"]) < 8:
                        ev["samples"].append(clip(_jsonable(sample), 600))
    rc = 0
    if failures:
        (_, idx, blocks, msg, details), first = failures[0]
        best = blocks if a.noshrink else _shrink(chk, blocks, chk.shrink_s)
        last = None
        for _ in range(5):
            last = _attempt(chk, best)
            if last is not None:
                break
        if last is None:
            best, last = blocks, first
        failure = (best, last.msg, last.details)
    nviol = 0
    if failure:
        nviol = 1
        _violation(chk, failure[0], failure[1], failure[2])
        print(json.dumps(clip(_jsonable(failure[2])), indent=1))
        rc = 1
    for desc, still in chk.known():
        if still():
            print("KNOWN-FINDING: property=%s %s" % (chk.id, desc))
    if errors and rc == 0:
        print("ERROR in the check:\n" + errors[0])
        rc = 2
    cov = {"evaluations": ev["evals"], "distinct_nontrivial": len(ev["keys"]), "rule": chk.rule,
           "samples": ev["samples"] or [_jsonable(chk.describe(x)) for x in chk.fixed()[:2]]}
    if ev["labels"]:
        cov["distribution"] = dict(sorted(ev["labels"].items(), key=lambda kv: -kv[1]))
    if ev["extra"]:
        cov["measured"] = ev["extra"]
    cov["processes_or_cases"] = ncases
    if ev["skipped"]:
        cov["cases_not_run_or_cut_by_time"] = ev["skipped"]
    if flaky:
        cov["not_reproducible"] = flaky
    out = {"property": chk.id, "tier": tier, "seed": a.seed, "level": chk.level, "coverage": cov,
           "assumptions": list(chk.assumptions), "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", chk.id + ".json"), "w") as f:
        json.dump(out, f, indent=1)
    print("%s %s: %d evaluations, %d distinct non-trivial, %.1f s%s" % (
        chk.id, "VIOLATED" if nviol else "ok" if rc == 0 else "error", ev["evals"], len(ev["keys"]), time.time() - t0,
        ", %d cases not run (time cap)" % ev["skipped"] if ev["skipped"] else ""))
    return rc
