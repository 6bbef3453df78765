#!/usr/bin/env python3
"""C20: environment objects, dictionaries and lists as environments: the variables each started program sees."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt, rec
from pbt import Fail, write, mstr

KEYS = ["VA", "VB", "_c", "V_LONG_NAME", "v.d", "é", "PATHX", "V 1", "VAR", "VA_", "B"]
VALS = ["", "x", "y z", "/usr/lib:/lib", ":", "a;b", "$VA", "${VB}", "=", "a=b", "'", '"', "\\", "new\nline", "日本", "  ", "%", "@0@", "@VA@", "\t", "~", "*", "-", "x" * 300]
SEPS = [":", ";", "", ", ", "--", " ", "=", "\\", "é"]
IGNORE = {b"PWD", b"OLDPWD", b"SHLVL", b"_"}
DEFAULTS = {b"MUON_PATH", b"MESON_BUILD_ROOT", b"MESON_SOURCE_ROOT", b"MESON_SUBDIR"}


def apply(ops, base):
    """the variables a sequence of operations gives on top of base"""
    env = {}
    for op, k, vals, sep in ops:
        if op == "set":
            env[k] = sep.join(vals)
            continue
        cur = env.get(k, base.get(k))
        l = list(vals)
        if cur is not None:
            l = [cur] + l if op == "append" else l + [cur]
        env[k] = sep.join(l)
    return env


def case(d, ctx):
    w = ctx.fresh()
    s, b, log = w + "/s", w + "/b", w + "/log"
    os.makedirs(log)
    keys = d.sublist(KEYS, 0.4) or KEYS[:2]

    def val():
        return d.choice(VALS) if d.bool(0.8) else "".join(d.choice(VALS[:-1]) for _ in range(3))

    def inherited():
        return {k: val() for k in d.sublist([k for k in keys if k.isascii() and k.isidentifier()], 0.5)}
    cenv, benv, tenv = inherited(), inherited(), inherited()
    if d.bool(0.5):
        benv = tenv = cenv
    out, envs, cons = [], {}, []
    n = [0]
    bad = None
    out.append("project('p')\nrec = find_program(%s)" % mstr(ctx.rec))

    def dictexpr():
        ks = d.sublist(keys, 0.5)
        kv = {k: val() for k in ks}
        return kv, "{%s}" % ", ".join("%s: %s" % (mstr(k), mstr(v)) for k, v in kv.items())

    def use():
        n[0] += 1
        i = n[0]
        f = "%s/r%d" % (log, i)
        k = d.weighted([(6, "obj"), (2, "dict"), (2, "list"), (1, "str"), (1, "none"), (1, "inline")])
        if k == "obj" and envs:
            v = d.choice(list(envs))
            ops, ex = list(envs[v]), v
        elif k in ("dict", "inline"):
            kv, ex = dictexpr()
            ops = [("set", a, [c], "") for a, c in kv.items()]
            if k == "inline":
                ex = "environment(%s)" % ex
        elif k == "list":
            l = [(d.choice(keys), val()) for _ in d.many(0, 4, 0.7)]
            ops = [("set", a, [c], "") for a, c in l]
            ex = "[%s]" % ", ".join(mstr(a + "=" + c) for a, c in l)
            if d.bool(0.2) and l:
                ex = "[%s]" % ex
        elif k == "str":
            a, c = d.choice(keys), val()
            ops, ex = [("set", a, [c], "")], mstr(a + "=" + c)
        else:
            ops, ex = [], None
        kw = "" if ex is None else ", env: " + ex
        c = d.weighted([(6, "run"), (3, "custom"), (2, "test"), (1, "target"), (1, "bench")])
        args = "%s, %s" % (mstr(f), mstr("arg%d" % i))
        if c == "run":
            out.append("run_command(rec, %s, check: true%s)" % (args, kw))
        elif c == "custom":
            out.append("custom_target('c%d', output: 'o%d', command: [rec, %s], capture: true, build_by_default: true%s)" % (i, i, args, kw))
        elif c == "target":
            out.append("run_target('t%d', command: [rec, %s]%s)" % (i, args, kw))
        else:
            out.append("%s('t%d', rec, args: [%s]%s)" % ("test" if c == "test" else "benchmark", i, args, kw))
        cons.append((c, i, f, ops))
        d.label(c, k)
        if [o for o in ops if o[0] != "set"]:
            d.nontrivial = True

    for _ in d.many(3, 24, 0.9):
        if d.bool(0.01):
            bad = d.choice(["'=x'", "['VA=1', 'noequals']", "{'': 'x'}", "{'a=b': 'x'}", "{'VA': 1}", "{'VA': ['x']}", "environment({'': 'x'})", "environment({'=': 'x'})", "environment('x')", "1", "environment({}, {})"])
            out.append("run_command(rec, '/dev/null', check: false, env: %s)" % bad)
            break
        k = d.weighted([(2, "new"), (8, "op"), (2, "copy"), (4, "use"), (1, "branch")])
        v = "e%d" % d.int(0, 3)
        if k == "new" or k in ("op", "copy") and not envs:
            if d.bool():
                kv, ex = dictexpr()
                out.append("%s = environment(%s)" % (v, ex))
                envs[v] = [("set", a, [c], "") for a, c in kv.items()]
            else:
                out.append("%s = environment()" % v)
                envs[v] = []
        elif k == "op":
            v = d.choice(list(envs))
            op = d.choice(["set", "append", "append", "prepend", "prepend"])
            key = d.choice(keys)
            vals = [val() for _ in d.many(1, 4, 0.5)]
            sep = d.choice(SEPS) if d.bool(0.6) else None
            if d.bool(0.015):
                bad = d.choice(["empty key", "equals in key", "no value"])
                key = {"empty key": "", "equals in key": "a=b"}.get(bad, key)
                vals = [] if bad == "no value" else vals
            a = [mstr(x) for x in vals]
            al = ", ".join(a)
            if len(a) > 1 and d.bool(0.3):
                al = "[%s]" % al
            out.append("%s.%s(%s%s%s)" % (v, op, mstr(key), ", " + al if al else "", "" if sep is None else ", separator: " + mstr(sep)))
            envs[v].append((op, key, vals, ":" if sep is None else sep))
            if bad:
                if bad != "no value":
                    out.append("run_command(rec, '/dev/null', check: false, env: %s)" % v)
                break
        elif k == "copy":
            f = d.choice(list(envs))
            out.append("%s = %s" % (v, d.choice([f, f, "true ? %s : 0" % f, "[%s][0]" % f, "{'k': %s}['k']" % f, "get_variable('%s')" % f])))
            envs[v] = list(envs[f])
            d.label("copy")
        elif k == "branch" and envs:
            v = d.choice(list(envs))
            key, x = d.choice(keys), val()
            ks = d.list(lambda: d.choice(["1", "2", "3"]), 1, 3)
            out.append("foreach i : [%s]\n  %s.append(%s, i + %s)\nendforeach" % (", ".join("'%s'" % x for x in ks), v, mstr(key), mstr(x)))
            for y in ks:
                envs[v].append(("append", key, [y + x], ":"))
        else:
            use()
    if not bad:
        for _ in range(d.int(1, 3)):
            use()
    prog = "\n".join(out)
    write(s + "/meson.build", prog + "\n")

    def boom(msg, r=None):
        raise Fail("%s\n%s\n-- meson.build\n%s" % (msg, (r.out[-1500:] + r.err[-1500:]).decode("utf-8", "replace") if r else "", prog[:6000]))
    r = ctx.run([ctx.muon, "setup", b], cwd=s, env=cenv)
    if r.crashed:
        boom("setup crashed: " + r.why())
    if bad:
        d.label("bad")
        if r.rc == 0:
            boom("an operation with %s is accepted" % bad)
        if b"rror" not in r.err + r.out:
            boom("an operation with %s fails without a diagnostic" % bad)
        return
    if r.rc != 0:
        boom("setup failed", r)
    base = {"run": cenv, "custom": benv, "target": benv, "test": tenv, "bench": tenv}
    kinds = {c[0] for c in cons}
    if "custom" in kinds:
        r = ctx.run([ctx.muon, "samu", "-j1"], cwd=b, env=benv)
        if r.rc != 0:
            boom("samu failed", r)
    if "target" in kinds:
        r = ctx.run([ctx.muon, "samu"] + ["t%d" % c[1] for c in cons if c[0] == "target"], cwd=b, env=benv)
        if r.rc != 0:
            boom("samu failed", r)
    for c, cmd in (("test", "test"), ("bench", "benchmark")):
        if c in kinds:
            r = ctx.run([ctx.muon, cmd], cwd=b, env=tenv)
            if r.rc != 0:
                boom("muon test failed", r)
    clean = pbt.clean_env(home=ctx.home)
    for c, i, f, ops in cons:
        got = rec.read(f)
        if len(got) != 1:
            boom("consumer %d (%s) ran %d times" % (i, c, len(got)))
        env = got[0][1]
        inh = dict(clean)
        inh.update(base[c])
        want = {k.encode(): v.encode() for k, v in inh.items()}
        want.update({k.encode(): v.encode() for k, v in apply(ops, inh).items()})
        for k in set(want) | set(env):
            if k in IGNORE or k in DEFAULTS:
                continue
            if want.get(k) != env.get(k):
                boom("consumer %d (%s): %r is %r, the operations %s on %r give %r" % (
                    i, c, k.decode(), env.get(k), [o for o in ops if o[1].encode() == k], inh.get(k.decode()), want.get(k)))
        if c in ("run", "test", "bench", "target", "custom"):
            if env.get(b"MESON_SOURCE_ROOT") != s.encode() and b"MESON_SOURCE_ROOT" in env:
                boom("consumer %d (%s): MESON_SOURCE_ROOT is %r" % (i, c, env.get(b"MESON_SOURCE_ROOT")))
            if env.get(b"MESON_BUILD_ROOT") != b.encode() and b"MESON_BUILD_ROOT" in env:
                boom("consumer %d (%s): MESON_BUILD_ROOT is %r" % (i, c, env.get(b"MESON_BUILD_ROOT")))
        if c == "run" and env.get(b"MESON_SOURCE_ROOT") is None:
            boom("MESON_SOURCE_ROOT is not set")


if __name__ == "__main__":
    pbt.main(pbt.Spec("C20", case, quick=2500, thorough=60000, setup=rec.setup,
                      rule="a consumed environment has at least one append or prepend operation",
                      assumptions=["the shell that runs build commands may set PWD, OLDPWD, SHLVL and _"]))
