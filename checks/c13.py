#!/usr/bin/env python3
"""C13: which tests muon test selects, in which environment and order it runs them."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt, mtest
from pbt import Fail, write, mstr


def case(d, ctx):
    w = ctx.fresh()
    s, b, log = w + "/s", w + "/b", w + "/log"
    os.makedirs(log)
    subs = ["q%d" % i for i in range(d.weighted([(2, 0), (3, 1), (2, 2)]))]
    names = {"p": d.choice(["p", "p", "main prj", "a*b"])}
    for q in subs:
        names[q] = d.choice([q, q, "name of " + q, "x" + q])
    order = ["p"] + subs
    suites = ["s", "t", "long suite", "sx"]
    # known findings (src/cmd_test.c): with subprojects, project names are those of another project,
    # and excluding suites from tests that have none crashes
    multi = bool(subs)
    tests, src, setups = [], {}, []
    n = 0
    for p in order:
        lines = ["project(%s)" % mstr(names[p]), "prog = find_program(%s)" % mstr(ctx.ttool)]
        if p == "p":
            lines += ["subproject(%s)" % mstr(q) for q in subs]
        k = d.many(0, 8, 0.7)
        for _ in k:
            t = mtest.Test()
            n += 1
            t.id = "i%d" % n
            t.name = d.choice(["t", "test ", "foo", "foobar", "*", "ab"]) + d.choice(["", "x", "ab", "aab", "%d" % n, " y"])
            if any(u.name == t.name and u.proj == p for u in tests):
                t.name += "-%d" % n
            t.proj = p
            t.cat = "test" if d.bool(0.85) else "benchmark"
            t.prog = d.weighted([(8, "prog"), (1, "prog.full_path()")]) if False else "prog"
            t.kind = "pass"
            t.args = [t.id] + (["sleep=%d" % d.choice([3, 10, 25])] if d.bool(0.4) else []) + (["exit=%d" % d.choice([1, 77])] if d.bool(0.15) else []) \
                + d.choice([[], [], ["--", "a b", "$x"]])
            t.should_fail = False
            t.protocol = t.timeout = None
            t.priority = d.int(-3, 3) if d.bool(0.5) else None
            t.parallel = d.bool(0.4) if d.bool(0.5) else None
            t.suites = d.sublist(suites, 0.4) if d.bool(0.6) else None
            t.env = {"TE": t.id} if d.bool(0.4) else {}
            t.workdir = w + "/wd" if d.bool(0.15) else None
            t.verbose = False
            tests.append(t)
            lines.append(mtest.test_line(None, t, d))
        for _ in d.many(0, 2, 0.35):
            u = mtest.Test()
            u.proj, u.name = p, "setup%d" % len(setups)
            u.env = {"SE": u.name, "SF": "a b"} if d.bool(0.6) else {}
            u.excl = [x if d.bool(0.6) else names[d.choice(order)] + ":" + x for x in d.sublist(suites, 0.4)] if d.bool(0.5) and not multi else []
            u.wrap = d.bool(0.4)
            u.default = d.bool(0.25) and not any(v.default for v in setups)
            setups.append(u)
            kw = []
            if u.env:
                kw.append("env: " + d.choice(["{%s}" % ", ".join("%s: %s" % (mstr(k), mstr(v)) for k, v in u.env.items()), "[%s]" % ", ".join(mstr(k + "=" + v) for k, v in u.env.items())]))
            if u.excl:
                kw.append("exclude_suites: " + ("[%s]" % ", ".join(map(mstr, u.excl)) if len(u.excl) > 1 or d.bool() else mstr(u.excl[0])))
            if u.wrap:
                kw.append("exe_wrapper: [prog, 'wrap', %s]" % mstr("by " + u.name))
            if u.default or d.bool(0.1):
                kw.append("is_default: " + ("true" if u.default else "false"))
            if d.bool(0.1):
                kw.append("timeout_multiplier: %d" % d.int(1, 5))
            lines.append("add_test_setup(%s%s)" % (mstr(u.name), "".join(", " + x for x in kw)))
        if any(u.excl for u in setups):
            for t in tests:
                if t.suites is None:
                    t.suites = []
                    i = [i for i, l in enumerate(lines) if "args: [" + mstr(t.id) in l][0]
                    lines[i] = lines[i][:-1] + ", suite: [])"
        # setups and tests in any order
        head = [l for l in lines if not l.startswith(("test(", "benchmark(", "add_test_setup"))]
        rest = [l for l in lines if l not in head]
        d.shuffle(rest)
        # the declared order counts among equal priorities only for what is unordered anyway
        src[p] = head + rest
        write((s if p == "p" else s + "/subprojects/" + p) + "/meson.build", "\n".join(src[p]) + "\n")
    os.makedirs(w + "/wd")
    # -- the command line
    cat = "test" if d.bool(0.88) else "benchmark"
    jobs = d.choice([1, 1, 2, 3, 5, None])
    opts = ["-j%d" % jobs] if jobs else []
    asuites = []
    for _ in d.many(0, 3, 0.3) if not multi else ():
        x = d.choice(suites)
        if d.bool(0.6):
            x = names[d.choice(order)] + ":" + x
        if d.bool(0.05):
            x = "nosuch:" + d.choice(suites)
        asuites.append(x)
        opts += ["-s", x]
    setup = None
    if setups and d.bool(0.35):
        setup = d.choice([u for u in setups if not multi or u.proj == "p"] or [None])
    if setup:
        opts += ["-e", setup.name if setup.proj == "p" and (multi or d.bool()) else names[setup.proj] + ":" + setup.name]
    bad_setup = not setup and d.bool(0.03)
    if bad_setup:
        opts += ["-e", d.choice(["nosuch", "nosuch:setup0", names["p"] + ":nosuch"])]
    pats = []
    for _ in d.many(0, 3, 0.35):
        if tests and d.bool(0.9):
            x = d.choice(tests)
            pat = x.name
            if d.bool(0.6):
                i = d.int(0, len(pat))
                j = d.int(i, len(pat))
                pat = pat[:i] + "*" + pat[j:]
            if d.bool(0.2):
                i = d.int(0, len(pat))
                pat = pat[:i] + "*" + pat[i:]
        else:
            pat = d.choice(["*", "nosuch", "t*", "*ab", "a*ab", "*x", "**", "f*o*r", "*b*b", ""])
        pre = d.weighted([(5, None), (2, "")] + [(1, names[q]) for q in order] + [(0, "nosuch")])
        if multi:
            pre = None
        if pat == "" and pre is None:
            if multi:
                pat = "*"
            else:
                pre = names["p"]
        pats.append((pre, pat))
    args = [(pre + ":" if pre is not None else "") + pat for pre, pat in pats]
    if not setup and not bad_setup:
        dflt = [u for u in setups if u.default]
        setup = dflt[0] if dflt else None

    def suite_match(spec, t):
        pr, _, st = spec.rpartition(":")
        if (pr or names["p"]) != names[t.proj] or (not pr and t.proj != "p"):
            return False
        return st in (t.suites or [])

    def selected(t):
        if t.cat != cat:
            return False
        if asuites:
            if not any(suite_match(x, t) for x in asuites):
                return False
        elif setup and any(suite_match(x, t) for x in setup.excl):
            return False
        if pats:
            return any((not pre or pre == names[t.proj]) and (not pat or mtest.glob(pat, t.name)) for pre, pat in pats)
        return True
    sel = [t for t in tests if selected(t)]
    d.key = repr((src, opts, args))
    d.note("\n".join("== %s\n%s" % (p, "\n".join(l)) for p, l in src.items()))
    d.note("muon %s %r %r" % (cat, opts, args))
    d.nontrivial = bool(sel) and len(sel) < len(tests) and bool(asuites or pats or setup)
    d.sample = dict(tests=len(tests), selected=len(sel), options=opts, patterns=args)
    E = {"RECLOG": log}
    r = ctx.run([ctx.muon, "setup", b], cwd=s, env=E)
    if r.rc != 0:
        raise Fail("setup failed: " + r.why())
    # -- the list
    r = ctx.run([ctx.muon, cat] + opts + ["-l"] + args, cwd=b, env=E, wall=20)
    if bad_setup:
        if r.rc == 0:
            raise Fail("an unknown setup is accepted")
        return
    if r.rc != 0:
        raise Fail("listing failed: " + r.why())
    if os.listdir(log):
        raise Fail("a test ran for the list")
    got = r.out.decode("utf8", "replace").splitlines()
    exp = []
    for t in sel:
        exp.append("%s%s - %s" % (names[t.proj], ":[%s]" % ", ".join(mstr(x) for x in t.suites) if t.suites is not None else "", t.name))
    d.label("selected:%s" % ("some" if 0 < len(sel) < len(tests) else "all" if sel else "none"))
    if multi:
        got = [x.partition(":" if ":[" in x else " - ")[2] for x in got]
        exp = [x.partition(":" if ":[" in x else " - ")[2] for x in exp]
    if sorted(norm(x) for x in got) != sorted(norm(x) for x in exp):
        raise Fail("the list is\n%s\nexpected is\n%s" % ("\n".join(sorted(got)), "\n".join(sorted(exp))))
    # -- the run
    r = ctx.run([ctx.muon, cat] + opts + d.choice([["-v"], ["-S"], []]) + args, cwd=b, env=E, wall=60)
    if r.crashed:
        raise Fail("crash: " + r.why())
    bad = [t for t in sel if "exit=1" in t.args]
    if (r.rc != 0) != bool(bad):
        raise Fail("exit status %d, failing are %r\n%s" % (r.rc, [t.name for t in bad], r.why()))
    ev, runs = mtest.events(log)
    by = {t.id: t for t in tests}
    started = [by[i] for k, i, _ in ev if k == "S"]
    a, e = sorted(t.id for t in started), sorted(t.id for t in sel)
    if a != e:
        raise Fail("ran %r, selected are %r" % ([by[i].name for i in a], [by[i].name for i in e]))
    for t in sel:
        argv, cwd, env = runs[t.id][0]
        if argv != t.args:
            raise Fail("%s got the arguments %r, declared were %r" % (t.name, argv, t.args))
        if cwd != (t.workdir or b):
            raise Fail("%s ran in %s" % (t.name, cwd))
        want = dict(t.env)
        if setup:
            want.update(setup.env)
            if setup.wrap:
                want["WRAPPED"] = "by " + setup.name
        have = {k: env[k] for k in ("TE", "SE", "SF", "WRAPPED") if k in env}
        if have != want:
            raise Fail("%s ran with the environment %r, expected is %r" % (t.name, have, want))
    # -- order and overlap
    pos = {}
    spans = {}
    for k, i, tm in sorted(ev, key=lambda x: x[2]):
        if k == "S":
            pos[i] = len(pos)
            spans[i] = [tm, None]
        else:
            spans[i][1] = tm
    for t in sel:
        if order.index(t.proj) < 0:
            continue
        serial = t.cat == "benchmark" or t.parallel is False
        for u in sel:
            if u is t:
                continue
            over = spans[t.id][0] < spans[u.id][1] and spans[u.id][0] < spans[t.id][1]
            if over and (serial or jobs == 1):
                raise Fail("%s, which is not to run in parallel with others, overlaps %s" % (t.name, u.name))
            if t.proj == u.proj and (t.priority or 0) > (u.priority or 0):
                # starts are recorded by the tests themselves: only ones that cannot race are compared
                if (jobs == 1 or serial or u.cat == "benchmark" or u.parallel is False) and pos[t.id] > pos[u.id]:
                    raise Fail("%s (priority %s) started after %s (priority %s)" % (t.name, t.priority, u.name, u.priority))
            if spans[u.id][0] > spans[t.id][0] and spans[u.id][0] < spans[t.id][1]:
                d.label("overlap")
    if jobs:
        # never more than that many at once
        cur = mx = 0
        for _, k, _ in sorted((tm, k, i) for k, i, tm in ev):
            cur += 1 if k == "S" else -1
            mx = max(mx, cur)
        if mx > jobs:
            raise Fail("%d tests ran at once, allowed were %d" % (mx, jobs))


def listed(want, subs, args=()):
    """the list differs from this one"""
    def f(ctx):
        r = mtest.small(ctx, "test('a', sh)", ["-l"] + list(args), subs)
        return r.rc != 0 or sorted(r.out.decode().splitlines()) != sorted(want)
    return f


KNOWN = [
    ("the tests of the main project are listed under the name of a subproject", listed(["p - a", "q - b"], [("q", "test('b', sh)")])),
    ("p:a selects no test of the main project p if there is a subproject", listed(["p - a"], [("q", "test('b', sh)")], ["p:a"])),
    ("a setup that excludes suites crashes with tests that have none",
     lambda ctx: mtest.small(ctx, "test('a', sh)\nadd_test_setup('s', exclude_suites: 'x')", ["-l", "-e", "s"]).rc != 0),
]


def norm(l):
    return l.replace("'", "").replace(", ", ",").strip()


if __name__ == "__main__":
    sys.exit(pbt.main(pbt.Spec(
        "C13", case, quick=3000, thorough=60000, setup=mtest.setup, known=KNOWN,
        rule="a case is a project with up to two subprojects and up to eight tests each in suites, test setups, and one selection by suites, setup, patterns and kind, listed and run; the list, the set of tests that ran, their arguments, directory, environment, order and overlap are compared with a model; non-trivial: something is selected and something is not",
        assumptions=["names without a colon; a variable is set by the test or by the setup, not by both"],
    )))
