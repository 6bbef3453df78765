"""projects with tests, and what muon test must do with them"""
import os, re, subprocess, fnmatch
from pbt import Fail, write, mstr

HERE = os.path.dirname(os.path.abspath(__file__))


def setup(ctx):
    d = ctx.root + "/ttool"
    os.mkdir(d)
    subprocess.check_call(["gcc", "-O1", "-o", d + "/ttool", HERE + "/c/ttool.c"])
    os.chmod(d, 0o755)
    ctx.ttool = d + "/ttool"


class Test:
    pass


class Proj:
    pass


def tap(d):
    """-> (text, verdict ok?, passed, total, all skipped)"""
    n = d.weighted([(1, 0), (4, None)])
    lines = []
    good = bad = skips = 0
    n = d.int(1, 5) if n is None else 0
    for i in range(n):
        k = d.weighted([(8, "ok"), (2, "bad"), (2, "skip"), (2, "todo"), (1, "xpass"), (1, "badskip")])
        w = "not ok" if k in ("bad", "todo", "badskip") else "ok"
        l = w
        if d.bool(0.7):
            l += " %d" % (i + 1)
        if d.bool(0.6):
            l += d.choice([" - a test", " name", " - not ok", " - 1..5", " - Bail out!", " - ok", " é", " - bug #12"])
        if k in ("skip", "badskip"):
            l += " # " + d.choice(["SKIP", "skip", "Skip because", "SKIP: why", "skipped"])
        elif k in ("todo", "xpass"):
            l += " # " + d.choice(["TODO", "todo later", "Todo"])
        lines.append(l)
        if k in ("bad", "xpass", "badskip"):
            bad += 1
        else:
            good += 1
            skips += k == "skip"
    plan = d.weighted([(3, "no"), (6, "yes"), (1, "more"), (1, "less")]) if n else "zero"
    total = n
    ok = bad == 0
    if plan != "no":
        total = n + {"yes": 0, "zero": 0, "more": d.int(1, 3), "less": -1}[plan]
        if plan == "less" and total == 0:
            total, plan = n, "yes"
        if total != n:
            ok = False
        p = "1..%d" % total
        if plan == "zero":
            p += d.choice(["", " # skip", " # SKIP all of it"])
        lines.insert(d.choice([0, len(lines)]), p)
    for _ in d.many(0, 3, 0.3):
        lines.insert(d.int(0, len(lines)), d.choice(["# ok 7", "    ok 1 - nested", "    not ok 2 - nested", "", "some text", "# not ok", "   1..9", " Bail out! not", "TAP version 13" if False else "# x"]))
    bail = d.bool(0.06)
    if bail:
        lines.insert(d.int(0, len(lines)), d.choice(["Bail out!", "Bail out! no more"]))
        ok = False
    if d.bool(0.2):
        lines.insert(0, "TAP version 13")
    text = "\n".join(lines) + ("" if d.bool(0.2) else "\n")
    return text, ok, bail or total != n, good, total, n and skips == n or n == 0


def outcome(d, t, ctx):
    """fill in what a test does and what its result is"""
    t.args = []
    t.kind, t.result = "pass", "ok"
    t.protocol = None
    t.timeout = None
    t.subtests = None
    t.maybe_skip = False
    t.slow = 0
    k = d.weighted([(1000, "pass"), (300, "tap"), (800, "exit"), (200, "sig"), (12, "timeout"), (50, "gone"), (100, "much")])
    if d.bool(0.15):
        t.slow = d.choice([5, 15, 30])
        t.args.append("sleep=%d" % t.slow)
    if k == "pass":
        t.args += d.choice([[], ["exit=0"], ["say=not ok"], ["say=hello"]])
    elif k == "much":
        t.args += d.choice([["out=200000"], ["err=200000"], ["out=100000", "err=100000", "out=70000"]])
        k = "pass"
    elif k == "exit":
        rc = d.choice([1, 2, 77, 77, 99, 99, 255, 76, 78, 98, 100, 126, 127, 128, 137])
        t.args.append("exit=%d" % rc)
        t.result = {77: "skip", 99: "error"}.get(rc, "fail")
    elif k == "sig":
        t.args.append("sig=%d" % d.choice([6, 9, 11, 15, 1, 8]))
        t.result = "fail"
    elif k == "timeout":
        t.timeout = 1
        t.args += d.choice([["sleep=4000"], ["trap", "sleep=4000"]])
        t.result = "timeout"
    elif k == "gone":
        t.result = "gone"
    elif k == "tap":
        t.protocol = "tap"
        text, ok, hard, good, total, maybe_skip = tap(d)
        t.args.append("raw=" + text)
        t.subtests = (good, total)
        # known finding: the exit status of a tap test is not looked at
        rc = d.weighted([(8, 0), (1, 1), (1, 77), (1, 2)]) if not ok else 0
        if rc:
            t.args.append("exit=%d" % rc)
        t.result = "ok" if ok and rc == 0 else "fail"
        t.maybe_skip = t.result == "ok" and maybe_skip
        t.undecided = hard or rc != 0
    if k == "pass" or k == "exit":
        t.protocol = d.weighted([(6, None), (1, "exitcode")])
    # known findings: a test that passes, is skipped, exits with 99 or crashes although it should fail
    t.should_fail = d.bool(0.25) if t.result == "fail" and k != "sig" else False
    if k == "gone" or (k == "tap" and (t.undecided or t.maybe_skip)):
        t.should_fail = False
    t.kind = k
    # how it is reported
    r = t.result
    if t.should_fail:
        r = {"ok": "unexpected", "fail": "expected"}.get(r, r)
    t.final = r
    t.bad = r in ("fail", "error", "unexpected", "timeout", "gone")
    t.label = {"ok": "ok", "skip": "skip", "fail": "fail", "error": "fail", "gone": "fail", "unexpected": "ok*", "expected": "fail*", "timeout": "timeout"}[r]


def small(ctx, tests, args, subs=(), wrap=""):
    """exit status and output of muon test in a project with these lines"""
    w = ctx.fresh()
    s, b = w + "/s", w + "/b"
    write(s + "/meson.build", "project('p')\n" + "".join("subproject('%s')\n" % q for q, _ in subs) + "sh = find_program('sh')\n" + tests + "\n")
    for q, text in subs:
        write(s + "/subprojects/" + q + "/meson.build", "project('%s')\nsh = find_program('sh')\n%s\n" % (q, text))
    r = ctx.run([ctx.muon, "setup", b], cwd=s)
    if r.rc != 0:
        raise Fail("setup failed: " + r.why())
    return ctx.run([ctx.muon, "test"] + args, cwd=b, wall=30, merge=True)


def test_line(W, t, d):
    kw = []
    if t.args:
        kw.append("args: [%s]" % ", ".join(map(mstr, t.args)))
    if t.should_fail:
        kw.append("should_fail: true")
    elif d.bool(0.1):
        kw.append("should_fail: false")
    if t.protocol:
        kw.append("protocol: %s" % mstr(t.protocol))
    if t.timeout is not None:
        kw.append("timeout: %d" % t.timeout)
    if t.priority is not None:
        kw.append("priority: %d" % t.priority)
    if t.parallel is not None and t.cat == "test":
        kw.append("is_parallel: " + ("true" if t.parallel else "false"))
    if t.suites is not None:
        kw.append("suite: " + (mstr(t.suites[0]) if len(t.suites) == 1 and d.bool() else "[%s]" % ", ".join(map(mstr, t.suites))))
    if t.env:
        kw.append("env: {%s}" % ", ".join("%s: %s" % (mstr(k), mstr(v)) for k, v in t.env.items()))
    if t.workdir:
        kw.append("workdir: %s" % mstr(t.workdir))
    if t.verbose:
        kw.append("verbose: true")
    d.shuffle(kw)
    return "%s(%s, %s%s)" % (t.cat, mstr(t.name), "gone" if t.kind == "gone" else t.prog, "".join(", " + x for x in kw))


class Ev:
    pass


def events(log):
    """-> list of (kind, id, time), id -> runs (args, cwd, env)"""
    ev = []
    p = log + "/ev"
    if os.path.exists(p):
        for l in open(p):
            k, i, t = l.split()
            ev.append((k, i, int(t)))
    runs = {}
    for f in os.listdir(log):
        if f.startswith("run."):
            i = f.split(".")[1]
            x = open(log + "/" + f, "rb").read().decode("utf8", "surrogateescape").split("\0")
            if not x[0]:
                continue        # just being written by a test that was left behind
            n = int(x[0])
            runs.setdefault(i, []).append((x[1:1 + n], x[1 + n], dict(e.split("=", 1) for e in x[2 + n:] if "=" in e)))
    return ev, runs


def clear(log):
    for f in os.listdir(log):
        os.unlink(log + "/" + f)


LINE = re.compile(r"^(ok\*  |ok   |fail\*|fail |skip |timeout) {1,}(\d+\.\d\d)s (?: *(\d+)/ *(\d+) subtests, )?(.*)$")


def report(text):
    """-> list of (label, subtests, rest of the line)"""
    out = []
    for l in text.split("\n"):
        l = l.split("\r")[-1].replace("\x1b[K", "")
        m = LINE.match(l)
        if m:
            out.append((m.group(1).strip(), (int(m.group(3)), int(m.group(4))) if m.group(3) else None, m.group(5)))
    return out


FIN = re.compile(r"finished (\d+) (test|benchmark)s, (\d+) expected fail, (\d+) fail, (\d+) skipped")


def glob(pat, name):
    return re.fullmatch(".*".join(re.escape(x) for x in pat.split("*")), name, re.S) is not None
