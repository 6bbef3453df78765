#!/usr/bin/env python3
"""C23: source sets with rules, nested sets and configurations against a direct evaluation of the rules."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Fail, write, mstr

KEYS = ["A", "B", "C", "CONFIG_X", "k y", "é", ""]


class Stop(Exception):
    pass


class Missing(Exception):
    pass


def truth(v):
    return v != 0 if isinstance(v, int) and not isinstance(v, bool) else bool(v)


def collect(rules, conf, strict, out, state):
    """conf None: everything reachable.  out = (sources, deps), both ordered"""
    for r in rules:
        ok = all(found for _, found in r["deps"])
        keys = r["keys"]
        if conf is not None:
            missing = [k for k in keys if k not in conf]
            false = [k for k in keys if k in conf and not truth(conf[k])]
            if strict and missing:
                if ok and not false:
                    raise Missing
                state["open"] = True
            ok = ok and not missing and not false
        if ok:
            for x in r["deps"]:
                add(out[1], x[0])
            for kind, x in r["if_true"]:
                if kind == "src":
                    add(out[0], x)
                elif kind == "dep":
                    add(out[1], x)
                else:
                    collect(x, conf, strict, out, state)
            if conf is not None:
                continue
        for _, x in r["if_false"]:
            add(out[0], x)
    return out


def add(l, x):
    if x not in l:
        l.append(x)


def case(d, ctx):
    w = ctx.fresh()
    s, b = w + "/s", w + "/b"
    dirs = ["", "sub/", "sub2/"]
    fn = {}
    lines = ["project('p')", "m = import('%s')" % "sourceset"]
    out = {"": lines}
    cur = ""
    nsub = 0
    files = ["%s%s" % (x, y) for x in dirs for y in ("a.c", "b.c", "c c.c")]
    for f in files:
        write(s + "/" + f, "")
    # the objects that may be in a set, by the expression that gives them
    srcs = {}
    ncts = d.int(0, 3)
    for i in range(ncts):
        lines.append("ct%d = custom_target('ct%d', output: 'o%d.c', command: ['sh', '-c', 'echo \"$0\" > \"$1\"', 'x', '@OUTPUT@'])" % (i, i, i))
        srcs["ct%d" % i] = "ct%d" % i
    if d.bool(0.2):
        lines.append("gen = generator(find_program('cp'), output: '@BASENAME@.g.c', arguments: ['@INPUT@', '@OUTPUT@'])")
        lines.append("gl = gen.process('a.c')")
        srcs["gl"] = "gl"
    deps = []
    for i in range(d.int(0, 3)):
        lines.append("dep%d = declare_dependency(version: '%d')" % (i, i))
        deps.append(("dep%d" % i, True))
    for i in range(d.int(0, 2)):
        lines.append("nodep%d = dependency('no-such-dep-%d', required: false)" % (i, i))
        deps.append(("nodep%d" % i, False))
    for f in files:
        srcs["files(%s)" % mstr(f)] = f
    keys = d.sublist(KEYS, 0.6) or ["A"]
    sets, frozen, soft, names = {}, set(), set(), []
    results = []
    depth = {}
    bad = None
    varn = [0]

    def emit(l):
        out[cur].append(l)

    def source():
        """(expression, identity)"""
        k = d.weighted([(3, "str"), (3, "file"), (2, "other")])
        if k == "other":
            o = [x for x in srcs if not x.startswith("files(")]
            if o:
                x = d.choice(o)
                return x, srcs[x]
            k = "file"
        f = d.choice([f for f in files if os.path.dirname(f) in ((cur.rstrip("/"),) if d.bool(0.8) else ("", "sub", "sub2"))])
        if cur:
            rel = os.path.relpath(f, cur)
        else:
            rel = f
        if d.bool(0.1):
            rel = os.path.join(s, f)
        if k == "str":
            d.label("string source")
            return mstr(rel), f
        e = "files(%s)" % mstr(rel)
        return (e if d.bool() else e + "[0]"), f

    def listing(items, always=False):
        """a list written in one of several ways"""
        if len(items) == 1 and not always and d.bool():
            return items[0]
        k = d.weighted([(5, "flat"), (1, "nested"), (2, "var")])
        e = "[%s]" % ", ".join(items)
        if k == "nested" and items:
            n = d.int(0, len(items))
            e = "[%s]" % ", ".join(["[%s]" % ", ".join(items[:n])] + items[n:])
        elif k == "var":
            varn[0] += 1
            emit("l%d = %s" % (varn[0], e))
            later.append("l%d += ['zzz']" % varn[0])
            e = "l%d" % varn[0]
        return e

    def when():
        ks = d.sublist(keys, 0.35)
        ds = d.sublist(deps, 0.25)
        if ks and d.bool(0.1):
            ks.append(ks[0])
        items = [mstr(k) for k in ks] + [x for x, _ in ds]
        items = d.shuffle(items)
        ds = [x for i in items for x in ds if x[0] == i]
        return ks, ds, items

    def new():
        n = "ss%d" % len(sets)
        emit("%s = m.source_set()" % n)
        sets[n] = []
        names.append(n)

    def rule():
        live = [n for n in names if n not in frozen and n not in soft]
        if not live:
            new()
            live = names[-1:]
        n = d.choice(live)
        expect_error = False
        if frozen and d.bool(0.02):
            n = d.choice([x for x in names if x in frozen])
            expect_error = True
            d.label("frozen")
        nested = [x for x in names if x != n]
        isall = bool(nested) and d.bool(0.3)
        r = dict(keys=[], deps=[], if_true=[], if_false=[])
        del later[:]

        def content():
            items, ids = [], []
            for _ in d.many(0, 4, 0.6):
                if deps and d.bool(0.2):
                    x = d.choice(deps)
                    items.append(x[0])
                    ids.append(("dep", x[0]))
                else:
                    e, i = source()
                    items.append(e)
                    ids.append(("src", i))
            return items, ids
        if isall:
            d.label("nested")
            xs = [d.choice(nested) for _ in range(d.int(1, 2))]
            if d.bool(0.4):
                emit("%s.add_all(%s)" % (n, ", ".join(xs) if d.bool(0.7) else "[%s]" % ", ".join(xs)))
            else:
                ks, ds, items = when()
                r["keys"], r["deps"] = ks, ds
                kw = ["if_true: " + listing(xs)]
                if items or d.bool(0.5):
                    kw.append("when: " + listing(items))
                emit("%s.add_all(%s)" % (n, ", ".join(d.shuffle(kw))))
            if not expect_error:
                for x in xs:
                    frozen.add(x)
            r["if_true"] = [("set", sets[x]) for x in xs]
        elif d.bool(0.3):
            items, ids = content()
            if not items:
                return
            r["if_true"] = ids
            emit("%s.add(%s)" % (n, ", ".join(items) if d.bool(0.7) else "[%s]" % ", ".join(items)))
        else:
            kw = []
            ks, ds, items = when()
            r["keys"], r["deps"] = ks, ds
            if items or d.bool(0.5):
                kw.append("when: " + listing(items))
            if d.bool(0.85):
                items, r["if_true"] = content()
                kw.append("if_true: " + listing(items, not items))
            if d.bool(0.5):
                items, ids = [], []
                for _ in d.many(0, 3, 0.6):
                    e, i = source()
                    items.append(e)
                    ids.append(("src", i))
                r["if_false"] = ids
                kw.append("if_false: " + listing(items, not items))
            emit("%s.add(%s)" % (n, ", ".join(d.shuffle(kw))))
        if expect_error:
            raise Stop("a frozen source set is changed")
        if later and d.bool(0.5):
            for l in later:
                emit(l)
        sets[n].append(r)
    later = []

    def check(expr, want):
        want = list(want)
        emit("r = %s\nmessage('GOT', r)\nassert(r.length() == %d, 'WRONG %d')" % (expr, len(want), len(results)))
        for i, x in enumerate(want):
            f = "r[%d]" % i
            if x in fn_names:
                emit("assert(%s.full_path() == %s, 'WRONG %d')" % (f, mstr(s + "/" + x), len(results)))
            else:
                emit("assert([%s].contains(%s), 'WRONG %d')" % (f, x, len(results)))
        results.append((expr, want))
    fn_names = set(files)

    def apply():
        n = d.choice(names)
        conf = {}
        for k in KEYS:
            if d.bool(0.9) if k in keys else d.bool(0.2):
                conf[k] = d.choice([True, False, True, False, 1, 0, -1, 5, "", "x", "false", "0"])
        strict = None
        if d.bool(0.4):
            strict = d.bool(0.4)
        st = {"open": False}
        asdict = "{%s}" % ", ".join("%s: %s" % (mstr(k), lit(v)) for k, v in conf.items())
        e = asdict
        iscd = d.bool(0.5)
        if iscd:
            varn[0] += 1
            emit("cd%d = configuration_data(%s)" % (varn[0], asdict))
            e = "cd%d" % varn[0]
        res = None
        try:
            res = collect(sets[n], conf, strict is not False, ([], []), st)
        except Missing:
            if d.bool(0.85):
                # not here: the program would end
                strict = False
                st = {"open": False}
                res = collect(sets[n], conf, False, ([], []), st)
        if st["open"]:
            strict = False
            res = collect(sets[n], conf, False, ([], []), {})
        varn[0] += 1
        v = "sc%d" % varn[0]
        emit("%s = %s.apply(%s%s)" % (v, n, e, "" if strict is None else ", strict: " + lit(strict)))
        frozen.add(n)
        if res is None:
            raise Stop("a key is missing")
        if iscd and d.bool(0.3):
            emit("%s.set(%s, %s)" % (e, mstr(d.choice(keys)), d.choice(["true", "false", "1"])))
        check("%s.sources()" % v, res[0])
        check("%s.dependencies()" % v, res[1])
        pending.append((v, res))
        if len(res[0]) > 1:
            d.nontrivial = True

    def everything():
        n = d.choice(names)
        # a rule whose dependency is not found contributes nothing of its own
        res = collect(sets[n], None, False, ([], []), {})
        check("%s.all_sources()" % n, res[0])
        check("%s.all_dependencies()" % n, res[1])
        soft.add(n)
    pending = []
    try:
        new()
        for _ in d.many(2, 14, 0.88):
            k = d.weighted([(8, "rule"), (2, "new"), (3, "apply"), (1, "all"), (1, "dir"), (1, "recheck")])
            if k == "rule":
                rule()
            elif k == "new":
                new()
            elif k == "apply":
                apply()
            elif k == "all":
                everything()
            elif k == "dir":
                if cur:
                    cur = ""
                elif nsub < 2:
                    nsub += 1
                    cur = dirs[nsub]
                    lines.append("subdir('%s')" % cur[:-1])
                    out[cur] = []
            elif pending:
                # results stay what they were
                v, res = d.choice(pending)
                emit("t = %s.sources()\nt += ['zzz']" % v)
                check("%s.sources()" % v, res[0])
                check("%s.dependencies()" % v, res[1])
        cur = ""
        for _ in range(d.int(1, 3)):
            apply()
    except Stop as e:
        bad = str(e)
        d.label("bad: " + bad)
    build = None
    cur = ""
    if not bad:
        if d.bool(0.15) and pending:
            v, res = d.choice(pending)
            if res[0] and "gl" not in res[0]:
                emit("custom_target('use', input: %s.sources(), output: 'use.txt', command: ['sh', '-c', 'printf \"%%s\\\\n\" \"$@\" > \"$0\"', '@OUTPUT@', '@INPUT@'], build_by_default: true)" % v)
                build = res
        emit("message('SEEN ALL')")
    prog = ""
    for k, v in out.items():
        write(s + "/" + k + "meson.build", "\n".join(v) + "\n")
        prog += "-- %smeson.build\n%s\n" % (k, "\n".join(v))

    def boom(msg, r=None):
        raise Fail("%s\n%s\n%s" % (msg, (r.out[-1500:] + r.err[-1500:]).decode("utf-8", "replace") if r else "", prog[:6000]))
    d.key = prog
    d.sample = {"program": prog[:1500], "results": [str(r)[:200] for r in results[-3:]]}
    r = ctx.run([ctx.muon, "setup", b], cwd=s)
    if r.crashed:
        boom("setup crashed: " + r.why())
    text = r.err + r.out
    if bad:
        if r.rc == 0 or b"SEEN ALL" in text:
            boom("no error although %s" % bad, r)
        if b"rror" not in text:
            boom("no diagnostic although %s" % bad, r)
        if b"WRONG" in text:
            boom("wrong result", r)
        return
    if r.rc != 0 or b"SEEN ALL" not in text:
        for i, (e, want) in enumerate(results):
            if b"WRONG %d\n" % i in text:
                boom("%s is not %s" % (e, want), r)
        boom("setup failed", r)
    if b"rror" in text:
        boom("an error is reported but setup succeeds", r)
    if build:
        r = ctx.run([ctx.muon, "samu"], cwd=b)
        if r.rc != 0:
            boom("samu failed", r)
        got = [os.path.realpath(os.path.join(b, x)) for x in open(b + "/use.txt").read().split("\n")[:-1]]
        want = [s + "/" + x if x in fn_names else b + "/o%s.c" % x[2:] for x in build[0]]
        if got != want:
            boom("used as an input the sources are %s, must be %s" % (got, want))
        d.label("built")


def lit(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, int):
        return str(v) if v >= 0 else "(%d)" % v
    return mstr(v)


if __name__ == "__main__":
    pbt.main(pbt.Spec(
        "C23", case, quick=7000, thorough=100000,
        rule="some configuration selects at least two sources",
        assumptions="a strict application in which a rule has a missing key and another condition that is false is left open; changes after all_sources() are not generated",
    ))
