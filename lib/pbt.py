"""A small deterministic property-based testing engine.

Every random decision of a case is an integer drawn through `Data`, so a case
is exactly the list of integers drawn.  Replaying that list replays the case;
shrinking works on the list.  Case number i of property P under VERIF_SEED=s is
a pure function of (P, s, i), whatever number of worker processes runs it.
"""
import os, sys, json, time, random, hashlib, traceback, tempfile, shutil, signal
import subprocess, resource, collections, multiprocessing, errno, pickle

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NOBODY = 65534


class Fail(Exception):
    """the property is violated by this case"""


class Reject(Exception):
    """the case is outside of the domain"""


class Inconclusive(Exception):
    """the case could not be decided (time limit of the harness)"""


class Stop(Exception):
    pass


class Data:
    MAX = 20000

    def __init__(self, rng=None, prefix=None):
        self.rng = rng
        self.prefix = prefix
        self.choices = []
        self.labels = collections.Counter()
        self.notes = []
        self.nontrivial = False
        self.key = None
        self.sample = None
        self.executions = 0
        self.spans = []

    # -- primitive ---------------------------------------------------------
    def draw(self, n):
        """an integer in [0, n]; 0 is the simplest"""
        i = len(self.choices)
        if i >= self.MAX:
            raise Reject("too many choices")
        if self.prefix is not None:
            v = self.prefix[i] if i < len(self.prefix) else 0
            v = min(max(v, 0), n)
        else:
            v = self.rng.randint(0, n)
        self.choices.append(v)
        return v

    # -- derived -----------------------------------------------------------
    def int(self, lo, hi):
        return lo + self.draw(hi - lo)

    def bool(self, p=0.5):
        # 0 is False: the simple case
        if p <= 0:
            return False
        if p >= 1:
            return True
        return self.draw(999) >= int(round(1000 * (1 - p)))

    def choice(self, seq):
        return seq[self.draw(len(seq) - 1)]

    def weighted(self, pairs):
        """pairs: [(weight, value)]; the first one is the simplest"""
        total = sum(w for w, _ in pairs)
        r = self.draw(total - 1)
        for w, v in pairs:
            if r < w:
                return v
            r -= w
        raise AssertionError

    def many(self, lo, hi, p=None):
        """iterate between lo and hi times, in a way that shrinks well"""
        if p is None:
            avg = (lo + hi) / 2
            p = 1 - 1 / (1 + max(avg - lo, 0.01))
        i = 0
        while i < hi:
            start = len(self.choices)
            if i >= lo and not self.bool(p):
                return
            yield i
            self.spans.append((start, len(self.choices)))
            i += 1

    def list(self, f, lo, hi, p=None):
        return [f() for _ in self.many(lo, hi, p)]

    def sublist(self, seq, p=0.5):
        return [x for x in seq if self.bool(p)]

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.draw(len(seq) - 1 - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def text(self, alphabet, lo, hi, p=None):
        return "".join(self.list(lambda: self.choice(alphabet), lo, hi, p))

    # -- book keeping ------------------------------------------------------
    def label(self, *ls):
        for l in ls:
            self.labels[l] += 1

    def note(self, s):
        self.notes.append(s)


# ---------------------------------------------------------------------------


def clean_env(extra=None, home=None):
    env = {
        "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "HOME": home or "/nonexistent",
        "LANG": "C.UTF-8",
        "LC_ALL": "C.UTF-8",
        "CC": "gcc",
        "CXX": "g++",
        "TERM": "dumb",
        "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:handle_abort=0:symbolize=1:allocator_may_return_null=1:detect_stack_use_after_return=0",
        "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:abort_on_error=1",
    }
    if extra:
        env.update(extra)
    return env


class Result:
    __slots__ = ("rc", "out", "err")

    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err

    @property
    def crashed(self):
        # a signal, or a sanitizer report, or a failed internal assertion
        if self.rc < 0:
            return True
        e = self.err or b""
        return (
            b"ERROR: AddressSanitizer" in e
            or b"runtime error:" in e
            or b"unreachable" in e and b"UNREACHABLE" in e
        )

    def why(self):
        e = (self.err or b"").decode("utf8", "replace")
        i = e.find("ERROR: AddressSanitizer")
        if i >= 0:
            e = "\n".join(e[i:].splitlines()[:14])
        return "rc=%d\n--- stdout\n%s\n--- stderr\n%s" % (
            self.rc,
            (self.out or b"").decode("utf8", "replace")[-3000:],
            e[-3000:],
        )


class Ctx:
    """what a case gets to work with: built binaries and a scratch directory"""

    def __init__(self, prop, tier, seed, root, bins):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.root, self.bins = root, bins
        self.dir = None
        self.n = 0
        self.muon = bins.get("fast") or bins.get("asan")
        self.home = None
        self.cur = None
        self.cache = {}

    def fresh(self):
        """an empty directory for this case"""
        if self.dir:
            rmtree(self.dir)
        self.n += 1
        self.dir = os.path.join(self.wroot, "c%d" % self.n)
        os.mkdir(self.dir)
        return self.dir

    def run(self, argv, cwd=None, env=None, input=None, cpu=20, wall=240, full_env=None, merge=False):
        e = full_env if full_env is not None else clean_env(env, self.home)
        if self.cur is not None:
            self.cur.executions += 1
        p = subprocess.Popen(
            argv,
            cwd=cwd or self.dir,
            env=e,
            stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT if merge else subprocess.PIPE,
            close_fds=True,
        )
        try:
            resource.prlimit(p.pid, resource.RLIMIT_CPU, (cpu, cpu + 1))
            resource.prlimit(p.pid, resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
        except (ProcessLookupError, PermissionError):
            pass
        try:
            out, err = p.communicate(input, timeout=wall)
        except subprocess.TimeoutExpired:
            p.kill()
            try:
                out, err = p.communicate(timeout=10)
            except Exception:
                pass
            raise Inconclusive("timeout of %ds: %r" % (wall, argv))
        return Result(p.returncode, out, err)


def rmtree(d):
    shutil.rmtree(d, ignore_errors=True)
    if os.path.lexists(d):
        # directories a test left without permissions
        for r, ds, fs in os.walk(d):
            for x in ds:
                try:
                    os.chmod(os.path.join(r, x), 0o700)
                except OSError:
                    pass
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------------------


def build(kind, where):
    """Build muon from REPO's working tree.  Returns the path of the binary."""
    env = clean_env(home="/root")
    args = [
        "--wrap-mode=nodownload",
        "-Dwerror=false",
        "-Dlibcurl=disabled",
        "-Dlibarchive=enabled",
        "-Dlibpkgconf=enabled",
        "-Ddocs=disabled",
        "-Dtracy=disabled",
    ]
    if kind == "fast":
        args += ["--buildtype=debugoptimized"]
    elif kind == "asan":
        args += ["-Dbuildtype=debugoptimized", "-Doptimization=1", "-Db_sanitize=address,undefined", "-Db_lundef=false",
                 "-Dc_args=-fno-sanitize=alignment -fno-sanitize-recover=all"]
    else:
        raise ValueError(kind)
    d = os.path.join(where, "build-" + kind)
    for cmd in (["meson", "setup", d, REPO] + args, ["ninja", "-C", d, "muon"]):
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            sys.stdout.write(p.stdout.decode("utf8", "replace")[-4000:])
            print("build failed:", " ".join(cmd))
            sys.exit(2)
    out = os.path.join(where, "bin-" + kind)
    os.mkdir(out)
    shutil.copy(os.path.join(d, "muon"), os.path.join(out, "muon"))
    os.chmod(out, 0o755)
    rmtree(d)
    return os.path.join(out, "muon")


def case_rng(prop, seed, i):
    h = hashlib.sha256(("%s:%d:%d" % (prop, seed, i)).encode()).digest()
    return random.Random(int.from_bytes(h[:16], "big"))


def execute(case, ctx, data):
    """returns None or a failure message"""
    ctx.cur = data
    try:
        case(data, ctx)
        return None
    except Fail as e:
        return str(e) or "failed"
    except (LookupError, ValueError, TypeError, AttributeError, OSError):
        # what the program did cannot even be interpreted; a glitch of the
        # sandbox does not survive the replays that follow
        e = sys.exc_info()[1]
        if isinstance(e, OSError) and e.errno in (errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.ENFILE, errno.EAGAIN):
            raise
        return "what happened cannot be interpreted:\n" + traceback.format_exc()
    finally:
        ctx.cur = None


def shrink(case, ctx, choices, msg, budget, deadline):
    best, best_msg = list(choices), msg
    best_data = Data(prefix=best)
    used = 0
    try:
        execute(case, ctx, best_data)
    except (Reject, Inconclusive):
        pass

    def attempt(c):
        nonlocal best, best_msg, best_data, used
        if used >= budget or time.time() > deadline:
            raise Stop
        used += 1
        d = Data(prefix=c)
        try:
            m = execute(case, ctx, d)
        except (Reject, Inconclusive):
            return False
        if m is None:
            return False
        got = d.choices
        if (len(got), got) < (len(best), best):
            best, best_msg, best_data = got, m, d
            return True
        return False

    try:
        improved = True
        while improved:
            improved = False
            again = True
            while again:
                again = False
                for a, b in sorted(best_data.spans, key=lambda ab: (ab[0] - ab[1], -ab[0])):
                    if attempt(best[:a] + best[b:]) or attempt(best[:a] + best[b + 1:]):
                        again = improved = True
                        break
            size = max(1, len(best) // 2)
            while size >= 1:
                i = len(best) - size
                while i >= 0:
                    if i + size <= len(best) and attempt(best[:i] + best[i + size:]):
                        improved = True
                    i -= max(1, size if size > 4 else 1)
                size //= 2
            i = 0
            while i < len(best):
                if best[i]:
                    if attempt(best[:i] + [0] + best[i + 1:]):
                        improved = True
                    else:
                        lo, hi = 0, best[i]
                        while hi - lo > 1 and i < len(best):
                            mid = (lo + hi) // 2
                            if attempt(best[:i] + [mid] + best[i + 1:]):
                                hi = mid
                                improved = True
                            else:
                                lo = mid
                        # one fewer element: lower a count and drop what it counted
                i += 1
    except Stop:
        pass
    return best, best_msg, used


def worker(w, nw, spec, ctx, q, stop, total, deadline, start_index):
    try:
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        os.setpgid(0, 0)
        drop(ctx, w)
        st = dict(evals=0, rejects=0, inconclusive=0, keys=set(), labels=collections.Counter(), samples=[], nontrivial=0, execs=0)
        i = start_index + w
        while i < start_index + total and not stop.is_set() and time.time() < deadline:
            d = Data(rng=case_rng(spec.prop, ctx.seed, i))
            try:
                msg = execute(spec.case, ctx, d)
            except Reject:
                st["rejects"] += 1
                i += nw
                continue
            except Inconclusive as e:
                st["inconclusive"] += 1
                st["labels"]["inconclusive"] += 1
                sys.stderr.write("inconclusive: %s\n" % e)
                i += nw
                continue
            st["evals"] += 1
            st["execs"] += d.executions
            st["labels"].update(d.labels)
            if msg is not None:
                # replay before believing it
                ok = 0
                for _ in range(3):
                    try:
                        if execute(spec.case, ctx, Data(prefix=d.choices)) is not None:
                            ok += 1
                    except (Reject, Inconclusive):
                        pass
                if ok < 3:
                    st["labels"]["unreproducible"] += 1
                    sys.stderr.write("case %d failed but replayed %d/3: %s\n" % (i, ok, msg[:500]))
                    i += nw
                    continue
                if os.environ.get("VERIF_COLLECT"):
                    # for development: note every failure and go on
                    with open(os.environ["VERIF_COLLECT"], "a") as f:
                        f.write("#### case %d\n%s\n%s\n" % (i, "\n".join(d.notes)[:3000], msg[:3000]))
                    i += nw
                    continue
                if stop.is_set():
                    break
                stop.set()
                c, m, used = shrink(spec.case, ctx, d.choices, msg, spec.shrink_budget, time.time() + spec.shrink_wall)
                d2 = Data(prefix=c)
                try:
                    m2 = execute(spec.case, ctx, d2)
                except (Reject, Inconclusive):
                    m2 = None
                if m2 is None:
                    c, m2, d2 = d.choices, msg, d
                q.put(("violation", dict(index=i, choices=c, message=m2, notes=d2.notes, sample=d2.sample, shrink_steps=used)))
                break
            if d.nontrivial:
                st["nontrivial"] += 1
                k = hashlib.sha256(repr(d.key if d.key is not None else d.choices).encode()).digest()[:8]
                st["keys"].add(k)
                if len(st["samples"]) < 2 and d.sample is not None and (i // nw) % 7 == 3 or (not st["samples"] and d.sample is not None):
                    st["samples"].append(d.sample)
            i += nw
        q.put(("done", pickle.dumps(st)))
    except BaseException:
        q.put(("error", traceback.format_exc()))
    finally:
        q.close()
        q.join_thread()
        try:
            if ctx.dir:
                rmtree(ctx.dir)
        finally:
            os._exit(0)


def drop(ctx, w):
    """become an unprivileged user with a scratch directory of its own"""
    ctx.wroot = os.path.join(ctx.root, "w%d" % w)
    ctx.home = os.path.join(ctx.wroot, "home")
    os.mkdir(ctx.wroot)
    os.mkdir(ctx.home)
    if os.getuid() == 0:
        os.chown(ctx.wroot, NOBODY, NOBODY)
        os.chown(ctx.home, NOBODY, NOBODY)
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    os.umask(0o022)
    os.chdir(ctx.wroot)


class Spec:
    def __init__(self, prop, case, quick, thorough, rule, builds=("fast",), setup=None,
                 shrink_budget=600, shrink_wall=90, workers=8, assumptions=(), known=None, wall=None, min_cases=None):
        self.prop, self.case, self.quick, self.thorough, self.rule = prop, case, quick, thorough, rule
        self.builds, self.setup = builds, setup
        self.shrink_budget, self.shrink_wall, self.workers = shrink_budget, shrink_wall, workers
        self.assumptions = list(assumptions)
        self.known = known
        self.wall = wall or {"quick": 420, "thorough": 3000}
        self.min_cases = min_cases


def main(spec):
    """never returns: the result is the exit status"""
    sys.exit(_main(spec))


def _main(spec):
    t0 = time.time()
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    root = tempfile.mkdtemp(prefix="verif-%s-" % spec.prop)
    os.chmod(root, 0o755)
    rc = 2
    pids = []
    try:
        bins = {}
        for k in spec.builds:
            bins[k] = build(k, root)
        ctx = Ctx(spec.prop, a.tier, a.seed, root, bins)
        if spec.setup:
            spec.setup(ctx)
        if a.replay:
            return replay(spec, ctx, a.replay)
        tb = time.time()
        total = a.cases or (spec.quick if a.tier == "quick" else spec.thorough)
        q = multiprocessing.Queue()
        stop = multiprocessing.Event()
        nw = min(spec.workers, total)
        deadline = time.time() + spec.wall[a.tier]
        sys.stdout.flush()
        sys.stderr.flush()
        for w in range(nw):
            pid = os.fork()
            if pid == 0:
                worker(w, nw, spec, ctx, q, stop, total, deadline, a.start)
                os._exit(0)
            pids.append(pid)
        agg = dict(evals=0, rejects=0, inconclusive=0, keys=set(), labels=collections.Counter(), samples=[], nontrivial=0, execs=0)
        violations, errors, done = [], [], 0
        finished = 0
        hard = deadline + spec.shrink_wall + 600
        while finished < nw and time.time() < hard:
            try:
                kind, x = q.get(timeout=5)
            except Exception:
                alive = 0
                for p in pids:
                    try:
                        r, _ = os.waitpid(p, os.WNOHANG)
                        if r == 0:
                            alive += 1
                    except ChildProcessError:
                        pass
                if not alive and q.empty():
                    break
                continue
            if kind == "violation":
                violations.append(x)
            elif kind == "error":
                errors.append(x)
                finished += 1
                stop.set()
            else:
                st = pickle.loads(x)
                finished += 1
                for k in ("evals", "rejects", "inconclusive", "nontrivial", "execs"):
                    agg[k] += st[k]
                agg["keys"] |= st["keys"]
                agg["labels"].update(st["labels"])
                agg["samples"] += st["samples"]
        known_lines = []
        if spec.known and not violations:
            known_lines = run_known(spec, ctx)
        ev = dict(
            property=spec.prop, tier=a.tier, seed=a.seed, level="exploration",
            coverage=dict(
                evaluations=agg["evals"],
                distinct_nontrivial=len(agg["keys"]),
                rule=spec.rule,
                samples=agg["samples"][:6] or ["(none)"],
                cases_requested=total,
                rejected=agg["rejects"],
                inconclusive=agg["inconclusive"],
                process_executions=agg["execs"],
                classes=dict(sorted(agg["labels"].items())),
                known_findings_seen=known_lines,
            ),
            assumptions=spec.assumptions,
            wall_s=round(time.time() - t0, 2),
            violations=len(violations),
        )
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", spec.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        for l in known_lines:
            print(l)
        print("%s: %d cases (%d distinct non-trivial, %d rejected, %d inconclusive), %d executions, %.1fs" % (
            spec.prop, agg["evals"], len(agg["keys"]), agg["rejects"], agg["inconclusive"], agg["execs"], time.time() - t0))
        if os.environ.get("VERIF_LABELS"):
            for k, v in sorted(agg["labels"].items()):
                print("   %-40s %d" % (k, v))
        if violations:
            v = min(violations, key=lambda v: (len(v["choices"]), v["index"]))
            rd = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s-%d.json" % (spec.prop, a.seed))
            with open(path, "w") as f:
                json.dump(dict(property=spec.prop, seed=a.seed, **v), f, indent=1, default=repr)
            print("\n".join(v["notes"])[:6000])
            print(v["message"][:6000])
            print("VIOLATION property=%s replay=%s" % (spec.prop, path))
            rc = 1
            return rc
        if errors:
            print(errors[0])
            print("the harness failed")
            return 2
        if agg["evals"] == 0:
            print("nothing was explored")
            return 2
        rc = 0
        return 0
    finally:
        for p in pids:
            try:
                os.killpg(p, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
        for p in pids:
            try:
                os.waitpid(p, 0)
            except ChildProcessError:
                pass
        if not a.keep:
            rmtree(root)
        sys.stdout.flush()


def in_child(ctx, f):
    """run f() as the unprivileged user, return its (picklable) value"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setpgid(0, 0)
            ctx.kn = getattr(ctx, "kn", 0)
            drop(ctx, 1000 + os.getpid())
            try:
                v = ("ok", f())
            except BaseException:
                v = ("err", traceback.format_exc())
            with os.fdopen(w, "wb") as fh:
                fh.write(pickle.dumps(v))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        b = fh.read()
    os.waitpid(pid, 0)
    k, v = pickle.loads(b)
    if k == "err":
        sys.stdout.write(v)
        sys.exit(2)
    return v


def run_known(spec, ctx):
    def f():
        out = []
        for what, fn in spec.known:
            ctx.cur = Data(prefix=[])
            if fn(ctx):
                out.append("KNOWN-FINDING: property=%s %s" % (spec.prop, what))
        return out

    return in_child(ctx, f)


def replay(spec, ctx, path):
    r = json.load(open(path))

    def f():
        d = Data(prefix=r["choices"])
        m = execute(spec.case, ctx, d)
        return m, d.notes

    m, notes = in_child(ctx, f)
    print("\n".join(notes))
    if m is None:
        print("replay: the property holds for this case")
        return 0
    print(m)
    print("VIOLATION property=%s replay=%s" % (spec.prop, path))
    return 1


# -- helpers shared by the checks -------------------------------------------


def write(path, content, mode=None):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if isinstance(content, str):
        content = content.encode("utf8", "surrogateescape")
    with open(path, "wb") as f:
        f.write(content)
    if mode is not None:
        os.chmod(path, mode)


def mstr(s):
    """a meson string literal denoting exactly s"""
    out = []
    for c in s:
        if c == "\\":
            out.append("\\\\")
        elif c == "'":
            out.append("\\'")
        elif c == "\n":
            out.append("\\n")
        elif ord(c) < 32 or ord(c) == 127:
            out.append("\\x%02x" % ord(c))
        else:
            out.append(c)
    return "'" + "".join(out) + "'"
