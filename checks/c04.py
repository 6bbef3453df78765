#!/usr/bin/env python3
"""C04: version comparison against an independent implementation of the documented order."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Fail, write, mstr

OPS = ["", "==", "=", "!=", ">=", "<=", ">", "<"]
SEPS = [".", "-", "_", "+", "~", " ", "..", ".-", "^", ":", ";,"]
ALPHA = ["a", "b", "rc", "alpha", "beta", "A", "Z", "dev", "git", "ab", "abc", "x", "Rc"]


# -- the reference order: maximal runs of digits or letters are compared left to
# right, numbers by value, words byte-wise, a number is newer than a word, and
# the version with segments left over is newer; separators do not count.
def segs(v):
    return re.findall(r"[0-9]+|[A-Za-z]+", v)


def order(a, b):
    x, y = segs(a), segs(b)
    for p, q in zip(x, y):
        pd, qd = p.isdigit(), q.isdigit()
        if pd != qd:
            return 1 if pd else -1
        if pd:
            p, q = int(p), int(q)
        if p != q:
            return 1 if p > q else -1
    return (len(x) > len(y)) - (len(x) < len(y))


def holds(op, c):
    return {"": c == 0, "=": c == 0, "==": c == 0, "!=": c != 0, ">=": c >= 0, "<=": c <= 0, ">": c > 0, "<": c < 0}[op]


def number(d):
    return d.weighted([
        (6, lambda: str(d.int(0, 12))),
        (2, lambda: str(d.int(0, 300))),
        (2, lambda: "0" * d.int(1, 3) + str(d.int(0, 20))),
        (1, lambda: str(2 ** d.choice([31, 32, 63, 64]) + d.int(-2, 2))),
        (1, lambda: d.choice(["9", "1"]) + "0" * d.int(8, 30) + str(d.int(0, 9))),
        (1, lambda: "0" * d.int(1, 4)),
    ])()


def word(d):
    return d.choice(ALPHA) if d.bool(0.7) else d.text("abzAZ", 1, 4)


def version(d):
    out = []
    if d.bool(0.06):
        out.append(d.choice(SEPS))
    prev = None
    for i in d.many(0 if d.bool(0.1) else 1, 6, 0.7):
        k = "w" if d.bool(0.25) else "n"
        if prev and (prev == k or d.bool(0.6)):
            out.append("." if d.bool(0.7) else d.choice(SEPS))
        out.append(word(d) if k == "w" else number(d))
        prev = k
    if d.bool(0.06):
        out.append(d.choice(SEPS))
    return "".join(out)


def mutate(d, v):
    """something close to v"""
    parts = re.findall(r"[0-9]+|[A-Za-z]+|[^0-9A-Za-z]+", v)
    k = d.int(0, 7)
    if not parts or k == 0:
        return v
    i = d.draw(len(parts) - 1)
    if k == 1:
        return v + d.choice(SEPS) + number(d)
    if k == 2:
        return v + d.choice(ALPHA)
    if k == 3:
        del parts[i:]
        return "".join(parts)
    p = parts[i]
    if p.isdigit():
        p = d.choice([lambda: "0" + p, lambda: str(int(p) + 1), lambda: str(max(0, int(p) - 1)), lambda: p + "0", lambda: "a", lambda: str(int(p))])()
    elif p.isalpha():
        p = d.choice([lambda: p + "a", lambda: p.upper(), lambda: p[:-1] + "b", lambda: "1", lambda: p.lower()])()
    else:
        p = d.choice(SEPS)
    parts[i] = p
    return "".join(parts)


def pair(d):
    a = version(d)
    b = mutate(d, a) if d.bool(0.75) else version(d)
    if d.bool():
        a, b = b, a
    return a, b


def case_method(d, ctx):
    pairs = [pair(d) for _ in d.many(1, 14, 0.9)]
    src, exp = [], []
    for a, b in pairs:
        c = order(a, b)
        for op in OPS:
            sp = " " if op and d.bool(0.1) else ""
            if op == "" and re.match(r"[<>=!]", b):
                continue
            src.append("message('R', %s.version_compare(%s))" % (mstr(a), mstr(op + sp + b)))
            exp.append((a, op + sp + b, holds(op, c)))
        d.label("order:%d" % c)
        if c and segs(a)[:1] == segs(b)[:1] or (c == 0 and a != b):
            d.nontrivial = True
    w = ctx.fresh()
    write(w + "/t.meson", "\n".join(src) + "\n")
    r = ctx.run([ctx.muon, "internal", "eval", "t.meson"])
    got = re.findall(r"R (true|false)", r.err.decode())
    d.key = tuple(pairs)
    d.sample = dict(kind="version_compare", pairs=pairs[:4])
    d.note("\n".join(src))
    if r.rc != 0 or len(got) != len(exp):
        raise Fail("evaluation failed: " + r.why())
    for (a, b, e), g in zip(exp, got):
        if (g == "true") != e:
            raise Fail("%r.version_compare(%r) is %s, the documented order says %s" % (a, b, g, str(e).lower()))


def constraints(d, v, lo):
    out = []
    for _ in d.many(lo, 3, 0.5):
        out.append(d.choice(OPS) + (mutate(d, v) if d.bool(0.8) else version(d)))
    return out


def safe(v):
    # what a .pc file can carry: no white space or comment character
    return re.sub(r"[^0-9A-Za-z.+_~^:-]", ".", v) or "0"


def case_lookup(d, ctx):
    """the constraints of dependency(), subproject() and find_program()"""
    w = ctx.fresh()
    src, exp = ["project('p', version: '1')"], []
    n = 0
    for _ in d.many(1, 6, 0.8):
        n += 1
        kind = d.choice(["pkgconfig", "subproject", "program", "override"])
        v = safe(version(d))
        if kind == "program":
            # the version is read out of the program's output
            v = ".".join(str(d.int(0, 30)) for _ in range(d.int(2, 3)))
        cs = [c for c in constraints(d, v, 0 if kind in ("pkgconfig", "override") else 1)]
        cs = [c if re.match(r"[<>=!]", c) else "==" + c for c in cs]
        want = all(holds(re.match(r"[<>=!]*", c).group(), order(v, re.sub(r"^[<>=!]*", "", c))) for c in cs)
        arg = mstr(cs[0]) if len(cs) == 1 and d.bool() else "[" + ", ".join(map(mstr, cs)) + "]"
        if kind == "pkgconfig":
            write(w + "/pc/d%d.pc" % n, "Name: d\nDescription: d\nVersion: %s\n" % v)
            src.append("message('R', dependency('d%d', version: %s, required: false).found())" % (n, arg))
        elif kind == "override":
            src.append("meson.override_dependency('d%d', declare_dependency(version: %s))" % (n, mstr(v)))
            src.append("message('R', dependency('d%d', version: %s, required: false).found())" % (n, arg))
        elif kind == "subproject":
            write(w + "/subprojects/s%d/meson.build" % n, "project('s%d', version: %s)\n" % (n, mstr(v)))
            src.append("message('R', subproject('s%d', version: %s, required: false).found())" % (n, arg))
        else:
            write(w + "/prog%d.sh" % n, "#!/bin/sh\necho 'prog %s'\n" % v, 0o755)
            src.append("message('R', find_program('prog%d.sh', version: %s, required: false).found())" % (n, arg))
        exp.append((kind, v, cs, want))
        d.label("lookup:%s:%s" % (kind, want))
        if len(cs) > 1:
            d.label("lookup:many")
    d.nontrivial = True
    d.key = tuple((k, v, tuple(c)) for k, v, c, _ in exp)
    d.sample = dict(kind="lookup", constraints=[(k, v, c) for k, v, c, _ in exp][:3])
    write(w + "/meson.build", "\n".join(src) + "\n")
    d.note("\n".join(src))
    d.note(repr(exp))
    r = ctx.run([ctx.muon, "setup", "b"], env={"PKG_CONFIG_PATH": w + "/pc", "PKG_CONFIG_LIBDIR": w + "/pc"})
    got = re.findall(r"R (true|false)", (r.out + r.err).decode())
    if r.rc != 0 or len(got) != len(exp):
        raise Fail("setup failed: " + r.why())
    for (k, v, cs, e), g in zip(exp, got):
        if (g == "true") != e:
            raise Fail("%s with version %r and constraints %r: found=%s, the documented order says %s" % (k, v, cs, g, str(e).lower()))


def case(d, ctx):
    if d.bool(0.3):
        case_lookup(d, ctx)
    else:
        case_method(d, ctx)


if __name__ == "__main__":
    sys.exit(pbt.main(pbt.Spec(
        "C04", case, quick=40000, thorough=400000,
        rule="a case is a batch of version pairs (the second usually a small mutation of the first) put through all eight spellings of the operators, or a project whose dependency/subproject/program lookups carry 1..3 constraints; non-trivial: some pair shares its first segment yet differs in order, or is equal but spelled differently, or the case is a lookup",
        assumptions=["ASCII versions; '.pc' versions without white space"],
    )))
