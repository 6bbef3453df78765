#!/usr/bin/env python3
"""C12: the verdicts of muon test against a model of each test's result."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt, mtest
from pbt import Fail, write, mstr


def case(d, ctx):
    w = ctx.fresh()
    s, b, log = w + "/s", w + "/b", w + "/log"
    os.makedirs(log)
    ctx_ttool = ctx.ttool
    projs = ["p"] + ["q%d" % i for i in range(d.weighted([(4, 0), (2, 1), (1, 2)]))]
    tests, src = [], {}
    n = 0
    for p in projs:
        lines = ["project(%s)" % mstr(p), "prog = find_program(%s)" % mstr(ctx_ttool), "gone = find_program('gone')" if p == "p" else ""]
        if p == "p":
            lines += ["subproject(%s)" % mstr(q) for q in projs[1:]]
        for _ in d.many(0, 9, 0.75):
            t = mtest.Test()
            n += 1
            t.id = "i%d" % n
            t.name = "t%d" % n + d.choice(["", "", " x", "%s", "_é"])
            t.proj = p
            t.cat = "test" if d.bool(0.9) else "benchmark"
            t.prog = "prog"
            mtest.outcome(d, t, ctx)
            if t.kind == "gone" and p != "p":
                t.kind = "pass"
                t.result = t.final = t.label = "ok"
                t.bad = False
            t.args = [t.id] + t.args
            t.priority = d.int(-3, 3) if d.bool(0.2) else None
            t.parallel = d.bool() if d.bool(0.2) else None
            t.suites = d.choice([["x"], ["x", "y"], []]) if d.bool(0.2) else None
            t.env, t.workdir = {}, None
            t.verbose = d.bool(0.05)
            tests.append(t)
            lines.append(mtest.test_line(None, t, d))
        src[p] = lines
        write((s if p == "p" else s + "/subprojects/" + p) + "/meson.build", "\n".join(lines) + "\n")
    write(s + "/gone", "#!/bin/sh\nexit 0\n", 0o755)
    os.chmod(s + "/gone", 0o755)
    cat = "test" if d.bool(0.92) else "benchmark"
    jobs = d.choice([1, 1, 2, 3, 4, 8, None])
    verbose = d.weighted([(3, 0), (3, 1), (1, 2)])
    summary = d.bool(0.5)
    fast = d.bool(0.08)
    disp = d.choice([None, None, "dots", "bar", "auto"])
    opts = (["-j%d" % jobs] if jobs else []) + ["-v"] * verbose + (["-S"] if summary else []) + (["-f"] if fast else []) \
        + (["-d", disp] if disp else []) + (["-R"] if d.bool(0.2) else [])
    d.shuffle(opts) if "-d" not in opts else None
    sel = [t for t in tests if t.cat == cat]
    if verbose == 2 and any(t.protocol == "tap" for t in sel):
        opts.remove("-v")       # known finding
        verbose = 1
    d.key = repr((src, opts, cat))
    d.note("\n".join("== %s\n%s" % (p, "\n".join(l[3 if p == "p" else 2:])) for p, l in src.items()))
    d.note("muon %s %r" % (cat, opts))
    bad = [t for t in sel if t.bad]
    d.nontrivial = len(sel) > 1 and len(set(t.final for t in sel)) > 1
    d.sample = dict(tests=len(sel), results=[t.final for t in sel], options=opts)
    for t in sel:
        d.label(t.final + (":tap" if t.protocol == "tap" else ""))
    E = {"RECLOG": log}
    r = ctx.run([ctx.muon, "setup", b], cwd=s, env=E)
    if r.rc != 0:
        raise Fail("setup failed: " + r.why())
    if os.listdir(log):
        raise Fail("a test ran during setup")
    os.unlink(s + "/gone")
    r = ctx.run([ctx.muon, cat] + opts, cwd=b, env=E, wall=60, merge=True)
    if r.crashed:
        raise Fail("crash: " + r.why())
    text = (r.out or b"").decode("utf8", "replace")
    want = 1 if bad else 0
    if (r.rc != 0) != bool(want):
        raise Fail("exit status %d although %s\n%s" % (r.rc, "these failed: %s" % [(t.name, t.final) for t in bad] if bad else "no test failed", text[-1500:]))
    ev, runs = mtest.events(log)
    started = [i for k, i, _ in ev if k == "S"]
    by = {t.id: t for t in tests}
    for i in started:
        if started.count(i) > 1:
            raise Fail("%s ran %d times" % (by[i].name, started.count(i)))
        if by[i] not in sel:
            raise Fail("%s ran, it is a %s" % (by[i].name, by[i].cat))
        if i not in runs and fast and bad:
            continue  # ended before it got so far
        a = runs[i][0][0]
        if a != by[i].args:
            raise Fail("%s got the arguments %r, declared were %r" % (by[i].name, a, by[i].args))
    stop = fast and bad
    if not stop:
        missing = [t.name for t in sel if t.kind != "gone" and t.id not in started]
        if missing:
            raise Fail("did not run: %r" % missing)
    # -- the report
    if verbose == 2 and any(t.kind == "much" for t in sel):
        return
    rep = mtest.report(text)
    names = {}
    for label, sub, rest in rep:
        rest = rest.split(" - passing test marked")[0]
        rest = rest.split(": command ")[0].split(": error ")[0]
        m = [t for t in sel if rest == t.name or rest.endswith(":" + t.name)]
        if not m and verbose == 2:
            continue
        if len(m) != 1:
            raise Fail("reported is something unknown: %r" % rest)
        t = m[0]
        if label != t.label and not (t.maybe_skip and label == "skip"):
            raise Fail("%s is reported as %r, it is %r\n%s" % (t.name, label, t.label, text[-1500:]))
        if t.subtests and sub != t.subtests and t.kind == "tap":
            raise Fail("%s is reported with %r subtests, there are %r" % (t.name, sub, t.subtests))
        names.setdefault(t.id, []).append(label)
    if stop:
        return
    for t in sel:
        if (t.bad or summary or verbose == 1 or cat == "benchmark") and t.id not in names:
            raise Fail("%s (%s) is not reported\n%s" % (t.name, t.final, text[-1500:]))
    m = mtest.FIN.findall(text)
    if not sel:
        if m:
            raise Fail("a summary of no tests: %r" % m)
        return
    if len(m) != 1:
        raise Fail("there is no summary\n" + text[-1500:])
    got = (int(m[0][0]), int(m[0][2]), int(m[0][3]), int(m[0][4]))
    ms = sum(t.maybe_skip for t in sel)
    skip = sum(t.final == "skip" for t in sel)
    exp = (len(sel), sum(t.final == "expected" for t in sel), len(bad), skip)
    if got[:3] != exp[:3] or not skip <= got[3] <= skip + ms:
        raise Fail("the summary says %d run, %d expected fail, %d fail, %d skipped; it is %d, %d, %d, %d" % (got + exp))


KNOWN = [
    ("a test with should_fail: true that passes is reported as ok and does not fail the run",
     lambda ctx: mtest.small(ctx, "test('t', sh, args: ['-c', 'exit 0'], should_fail: true)", []).rc == 0),
    ("a test with should_fail: true that is skipped is counted as an expected failure",
     lambda ctx: b"1 expected fail" in mtest.small(ctx, "test('t', sh, args: ['-c', 'exit 77'], should_fail: true)", []).out),
    ("a test with should_fail: true that exits with 99 does not fail the run",
     lambda ctx: mtest.small(ctx, "test('t', sh, args: ['-c', 'exit 99'], should_fail: true)", []).rc == 0),
    ("a test with should_fail: true that is killed by a signal fails the run",
     lambda ctx: mtest.small(ctx, "test('t', sh, args: ['-c', 'kill -9 $$'], should_fail: true)", []).rc != 0),
    ("a tap test that exits with 1 after a passing stream does not fail the run",
     lambda ctx: mtest.small(ctx, "test('t', sh, args: ['-c', 'echo 1..1; echo ok; exit 1'], protocol: 'tap')", []).rc == 0),
    ("with -vv a failing tap test does not fail the run",
     lambda ctx: mtest.small(ctx, "test('t', sh, args: ['-c', 'echo 1..1; echo not ok'], protocol: 'tap')", ["-vv"]).rc == 0),
]

if __name__ == "__main__":
    sys.exit(pbt.main(pbt.Spec(
        "C12", case, quick=1500, thorough=30000, setup=mtest.setup, known=KNOWN,
        rule="a case is a project with up to two subprojects and up to ten tests each, of any outcome (exit status, signal, timeout, large output, TAP streams, a missing program), priorities, protocols and should_fail, and one run of muon test or benchmark with random options; exit status, every report line and the summary are compared with a model; non-trivial: more than one test and more than one kind of result",
        assumptions=["TAP streams without ambiguous directives; TAP with should_fail only where the stream itself decides"],
    )))
