#!/usr/bin/env python3
"""C22: dump values with serial_dump, load them back in the same and in another process, damage the files."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt, rec
from pbt import Fail, write, mstr

ATOMS = ["", "a", "b", "key", "hello world", "'", "\\", "\n", "é", "日本", "\0", "a\0b", "\0\0", "1", "true", "-", "muondump", "x" * 31, "x" * 32, "x" * 64, "x" * 65, "\x01", "\x7f", "\t"]
# around the sizes at which strings move out of the shared buckets
LENS = [60, 63, 64, 65, 127, 128, 255, 1000, 2047, 4093, 4094, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 65534, 65535, 65536, 70000]
NUMS = [0, 1, -1, 2, 42, 127, 128, 255, 256, 65535, 65536, 2**31 - 1, 2**31, -2**31, 2**32 - 1, 2**32, 2**40, 2**63 - 1, -(2**63 - 1)]


def lit(s):
    return mstr(s).replace("\0", "\\0")


class Gen:
    def __init__(self, d, w, files):
        self.d, self.w, self.files = d, w, files
        self.pre = []          # statements before the dump
        self.n = 0
        self.shared = []       # [(name, model)]
        self.size = 0

    def var(self, expr):
        self.n += 1
        self.pre.append("v%d = %s" % (self.n, expr))
        return "v%d" % self.n

    def string(self):
        d = self.d
        k = d.weighted([(8, "atom"), (4, "cat"), (2, "num"), (1, "long")])
        if k == "atom":
            return d.choice(ATOMS)
        if k == "cat":
            return "".join(d.choice(ATOMS) for _ in d.many(0, 6, 0.6))
        if k == "num":
            return "s%d" % d.int(0, 300)
        n = d.choice(LENS)
        self.d.label("long")
        c = d.choice(["x", "ab", "0123456789", "é\0'"])
        return (c * (n // len(c) + 1))[:n]

    def value(self, depth):
        d = self.d
        self.size += 1
        if depth >= 0 and self.shared and d.bool(0.08):
            d.label("shared")
            return d.choice(self.shared)
        kinds = [(8, "str"), (3, "num"), (2, "bool")] if depth < 3 else [(1, "str"), (1, "num"), (1, "bool")]
        if depth > 0 and self.size < 600:
            kinds += [(6, "list"), (6, "dict"), (1, "wide"), (1, "widedict"), (2, "conf"), (1, "env"), (1, "file"), (1, "rr"), (1, "deep"), (1, "tree")]
        k = d.weighted(kinds)
        d.label(k)
        if k == "str":
            s = self.string()
            r = (lit(s), ("str", s))
        elif k == "num":
            n = d.choice(NUMS) if d.bool() else d.int(-10**6, 10**6)
            r = (str(n) if n >= 0 else "(%d)" % n, ("num", n))
        elif k == "bool":
            b = d.bool()
            r = ("true" if b else "false", ("bool", b))
        elif k == "list":
            l = [self.value(depth - 1) for _ in d.many(0, 8, 0.75)]
            r = ("[%s]" % ", ".join(e for e, _ in l), ("list", [m for _, m in l]))
        elif k == "dict":
            r = self.dict(depth)
        elif k == "conf":
            e, m = self.dict(-1)
            r = ("configuration_data(%s)" % e, ("conf", m[1]))
            if d.bool(0.3):
                v = self.var(r[0])
                x, y = self.string() or "k", self.value(-1)
                self.pre.append("%s.set(%s, %s)" % (v, lit(x), y[0]))
                r = (v, ("conf", dict(m[1], **{x: y[1]})))
        elif k == "env":
            kv = {d.choice(["VA", "VB", "V C", "é"]): self.word() for _ in d.many(0, 4, 0.6)}
            v = self.var("environment({%s})" % ", ".join("%s: %s" % (lit(a), lit(b)) for a, b in kv.items()))
            ops = [("set", a, [b], ":") for a, b in kv.items()]
            for _ in d.many(0, 5, 0.6):
                o = (d.choice(["append", "prepend", "set"]), d.choice(["VA", "VB", "VD"]), [self.word() for _ in range(d.int(1, 3))], d.choice([":", ";", "", "--", "=", "x y"]))
                ops.append(o)
                self.pre.append("%s.%s(%s, %s, separator: %s)" % (v, o[0], lit(o[1]), ", ".join(map(lit, o[2])), lit(o[3])))
            r = (v, ("env", ops))
        elif k == "file":
            f = d.choice(self.files)
            r = ("files(%s)[0]" % lit(f), ("file", os.path.join(self.w, f)))
        elif k == "rr":
            o, e, rc = self.word(), self.word(), d.int(0, 255)
            v = self.var("run_command('sh', '-c', 'printf %%s \"$1\"; printf %%s \"$2\" >&2; exit %d', 'sh', %s, %s, check: false, capture: true)" % (rc, lit(o), lit(e)))
            r = (v, ("rr", (rc, o, e)))
        elif k == "wide":
            n = d.choice([10, 100, 255, 256, 257, 1000, 1023, 1024, 1025, 3000])
            v = self.var("[]")
            f = d.weighted([(2, "i"), (1, "'s' + i.to_string()"), (1, "'same'"), (1, "[i, 'x']")])
            self.pre.append("foreach i : range(%d)\n  %s += [%s]\nendforeach" % (n, v, f))
            m = {"i": lambda i: ("num", i), "'same'": lambda i: ("str", "same"), "[i, 'x']": lambda i: ("list", [("num", i), ("str", "x")])}.get(f, lambda i: ("str", "s%d" % i))
            r = (v, ("list", [m(i) for i in range(n)]))
        elif k == "widedict":
            n = d.choice([5, 14, 15, 16, 17, 63, 64, 65, 100, 255, 256, 257, 1000])
            v = self.var("{}")
            self.pre.append("foreach i : range(%d)\n  %s += {'k' + i.to_string(): i}\nendforeach" % (n, v))
            r = (v, ("dict", {"k%d" % i: ("num", i) for i in range(n)}))
        elif k == "tree":
            # more values than fit into a handful of buckets
            e, m = self.value(0)
            v = self.var(e)
            n = d.choice([4, 9, 13])
            self.pre.append("foreach i : range(%d)\n  %s = [%s, %s]\nendforeach" % (n, v, v, v))
            for i in range(n):
                m = ("list", [m, m])
            self.size += 1000
            r = (v, m)
        else:
            n = d.choice([3, 20, 50, 200])
            e, m = self.value(0)
            v = self.var(e)
            self.pre.append("foreach i : range(%d)\n  %s = [%s]\nendforeach" % (n, v, v))
            for i in range(n):
                m = ("list", [m])
            r = (v, m)
        if depth > 0 and d.bool(0.15):
            r = (self.var(r[0]), r[1])
            self.shared.append(r)
        return r

    def word(self):
        s = self.string().replace("\0", "")
        return s[:2000].rstrip("\n")

    def dict(self, depth):
        kv = {}
        for _ in self.d.many(0, 9, 0.75):
            s = self.string()
            kv[s] = self.value(max(depth - 1, min(depth, 0)))
        return "{%s}" % ", ".join("%s: %s" % (lit(a), b[0]) for a, b in kv.items()), ("dict", {a: b[1] for a, b in kv.items()})


TYPES = {"str": "str", "num": "int", "bool": "bool", "list": "list", "dict": "dict", "conf": "cfg_data", "env": "env", "file": "file", "rr": "runresult"}


class Checks:
    """statements that succeed exactly if the value of an expression is the model"""

    def __init__(self, logdir, recexe):
        self.out, self.n, self.envs = [], 0, []
        self.logdir, self.rec = logdir, recexe
        self.left = 900

    def eq(self, x, y):
        self.out.append("assert(%s == %s, 'E%d')" % (x, y, len(self.out)))

    def value(self, x, m):
        self.left -= 1
        t, v = m
        self.eq("typeof(%s)" % x, "'%s'" % TYPES[t])
        if t == "str":
            self.eq(x, lit(v))
        elif t == "num":
            self.eq(x, str(v) if v >= 0 else "(%d)" % v)
        elif t == "bool":
            self.eq(x, "true" if v else "false")
        elif t == "list":
            self.eq("%s.length()" % x, str(len(v)))
            idx = range(len(v)) if len(v) < 40 else sorted({0, 1, len(v) - 1, len(v) // 2, *[i for i in (255, 256, 1023, 1024) if i < len(v)]})
            for i in idx:
                if self.left > 0:
                    if len(x) > 60:
                        x = self.name(x)
                    self.value("%s[%d]" % (x, i), v[i])
        elif t in ("dict", "conf"):
            if t == "conf":
                self.eq("%s.keys().length()" % x, str(len(v)))
            else:
                self.eq("%s.keys()" % x, "[%s]" % ", ".join(map(lit, v)))
            ks = list(v) if len(v) < 40 else list(v)[::max(1, len(v) // 7)]
            for k in ks:
                if self.left > 0:
                    if len(x) > 60:
                        x = self.name(x)
                    self.value("%s.get(%s)" % (x, lit(k)), v[k])
        elif t == "file":
            self.eq("%s.full_path()" % x, lit(v))
        elif t == "rr":
            self.eq("%s.returncode()" % x, str(v[0]))
            self.eq("%s.stdout()" % x, lit(v[1]))
            self.eq("%s.stderr()" % x, lit(v[2]))
        elif t == "env":
            f = "%s/r%d" % (self.logdir, len(self.envs))
            self.envs.append((f, v))
            self.out.append("run_command(%s, %s, env: %s, check: true)" % (lit(self.rec), lit(f), x))

    def name(self, x):
        self.n += 1
        self.out.append("n%d = %s" % (self.n, x))
        return "n%d" % self.n


def envmodel(ops):
    env = {}
    for op, k, vals, sep in ops:
        cur = [env[k]] if op != "set" and k in env else []
        env[k] = sep.join(cur + vals if op != "prepend" else vals + cur)
    return env


def damage(d, data):
    for _ in range(20):
        k = d.weighted([(4, "bit"), (3, "truncate"), (2, "byte"), (2, "delete"), (2, "insert"), (2, "append"), (2, "zero"), (1, "swap"), (1, "empty"), (1, "dup")])
        n = len(data)
        at = d.int(0, max(0, n - 1))
        m = d.weighted([(2, 1), (1, 2), (1, 8), (1, 16), (1, 4096)])
        if k == "bit":
            r = data[:at] + bytes([data[at] ^ (1 << d.int(0, 7))]) + data[at + 1:]
        elif k == "truncate":
            r = data[:at] if d.bool(0.7) else data[:-m]
        elif k == "byte":
            r = data[:at] + bytes([d.int(0, 255)]) + data[at + 1:]
        elif k == "delete":
            r = data[:at] + data[at + m:]
        elif k == "insert":
            r = data[:at] + data[at:at + m] + data[at:]
        elif k == "append":
            r = data + bytes([d.int(0, 255)]) * m
        elif k == "zero":
            r = data[:at] + b"\0" * len(data[at:at + m]) + data[at + m:]
        elif k == "swap":
            r = data[:at] + data[at + m:at + 2 * m] + data[at:at + m] + data[at + 2 * m:]
        elif k == "empty":
            r = d.choice([b"", b"muondump", b"\n", b"muondump\x08\0\0\0", data[:8], data[:12]])
        else:
            r = data + data
        if r != data:
            return k, r
    return None, data


BAD = ["import('fs')", "find_program('sh')", "[1, import('fs')]", "{'a': find_program('sh')}", "[[[import('fs')]]]", "configuration_data({'a': 1}).set"]


def case(d, ctx):
    w = ctx.fresh()
    os.makedirs(w + "/log")
    files = ["f1", "dir/f 2", "é"]
    os.makedirs(w + "/dir")
    for f in files:
        write(w + "/" + f, "x")
    muon = ctx.bins["asan"] if d.bool(0.15) else ctx.bins["fast"]
    dump = w + "/d"
    g = Gen(d, w, files)
    if d.bool(0.2):
        # something is in the way
        write(dump, "y" * d.choice([0, 1, 100, 100000]))
    bad = d.bool(0.02)
    expr, model = g.value(4)
    if bad:
        expr = d.choice(BAD[:-1])
    pre = "\n".join(g.pre)

    def boom(msg, prog, r=None):
        raise Fail("%s\n%s\n-- script\n%s" % (msg, (r.out[-1000:] + r.err[-2000:]).decode("utf-8", "replace") if r else "", prog[:5000]))

    def run(name, prog, stdin=None):
        write(w + "/" + name, prog + "\n")
        if stdin == "file":
            return ctx.run(["sh", "-c", 'exec "$@" < "$0"', dump, muon, "internal", "eval", name], cwd=w, cpu=60)
        return ctx.run([muon, "internal", "eval", name], cwd=w, input=stdin, cpu=60)

    def program(load, where):
        c = Checks(w + "/log", ctx.rec)
        c.value("x", model)
        prog = "x = %s\n" % load
        return c, prog + "\n".join(c.out) + "\nmessage('SEEN ALL')"

    def verify(c, r, prog, what):
        if r.crashed:
            boom("%s crashed: %s" % (what, r.why()), prog, r)
        if r.rc != 0 or b"SEEN ALL" not in r.err + r.out:
            boom("the value loaded %s differs" % what, prog, r)
        for f, ops in c.envs:
            got = rec.read(f)
            if len(got) != 1:
                boom("the command ran %d times" % len(got), prog)
            os.unlink(f)
            for k, v in envmodel(ops).items():
                if got[0][1].get(k.encode()) != v.encode():
                    boom("%s: %r is %r in the loaded environment, must be %r (%s)" % (what, k, got[0][1].get(k.encode()), v, ops), prog)

    target = "'%s'" % dump if d.bool(0.7) else "'d'"
    src = pre + "\ny = %s\nserial_dump(%s, y)\n" % (expr, target)
    if bad:
        r = run("a.meson", src)
        if r.crashed or r.rc == 0 or b"rror" not in r.err + r.out:
            boom("dumping %s is not refused" % expr, src, r)
        d.label("refused")
        return
    c, prog = program("serial_load('%s')" % dump, "")
    extra = ""
    plain = all(t not in ("env", "conf", "rr") for t in kinds(model))
    if plain:
        # equality and printed form within one process
        extra = "\nassert(x == y, 'EQ')\nassert(y == x, 'EQ')"
    late = d.bool(0.3)
    if late:
        # loading replaces nothing that is already there
        c2, prog2 = program("y", "")
        prog += "\n" + prog2
    prog = src + prog + extra
    if d.bool(0.8):
        r = run("a.meson", prog)
        if late:
            c.envs = []
            for f in os.listdir(w + "/log"):
                os.unlink(w + "/log/" + f)
        verify(c, r, prog, "in the same process")
    else:
        r = run("a.meson", src)
        if r.crashed or r.rc != 0:
            boom("the value cannot be dumped: %s" % r.why(), src, r)
    data = open(dump, "rb").read()
    k = d.weighted([(4, "path"), (1, "file"), (1, "pipe"), (1, "copy"), (1, "again")])
    d.label("from " + k)
    stdin = None
    if k == "path":
        load = "serial_load(%s)" % target
    elif k == "file":
        load, stdin = "serial_load('-')", "file"
    elif k == "pipe":
        load, stdin = "serial_load('-')", data
    elif k == "copy":
        write(w + "/d2", data)
        load = "serial_load(files('d2')[0])"
    else:
        load = "serial_load('%s')\nserial_dump('d3', x)\nx = serial_load('d3')" % dump
    c, prog = program(load, "")
    # other values are around already
    junk = "\n".join("j%d = %s" % (i, lit(g.string())) for i in d.many(0, 4, 0.5)) if d.bool(0.4) else ""
    prog = junk + "\n" + prog
    verify(c, run("b.meson", prog, stdin), prog, "by another process (%s)" % k)
    if g.size > 8:
        d.nontrivial = True
    d.key = (expr, pre)
    d.sample = {"value": expr[:200], "statements": pre[:300], "bytes": len(data)}
    for _ in range(d.int(0, 3)):
        how, bytes2 = damage(d, data)
        if how is None:
            continue
        d.label("damage " + how)
        write(dump, bytes2)
        via = d.bool(0.2)
        prog = "x = serial_load('%s')\nmessage('LOADED')\np(x)" % ("-" if via else dump)
        r = run("c.meson", prog, bytes2 if via else None)
        if r.crashed:
            boom("loading a damaged file (%s) crashed: %s" % (how, r.why()), src + prog, r)
        if r.rc == 0 or b"LOADED" in r.err + r.out:
            boom("a damaged file (%s, %d bytes instead of %d) is loaded" % (how, len(bytes2), len(data)), src + prog, r)
        if b"rror" not in r.err + r.out:
            boom("a damaged file (%s) is refused without a diagnostic" % how, src + prog, r)


def kinds(m):
    t, v = m
    yield t
    if t == "list":
        for x in v:
            yield from kinds(x)
    elif t in ("dict", "conf"):
        for x in v.values():
            yield from kinds(x)


def setup(ctx):
    rec.setup(ctx)


if __name__ == "__main__":
    pbt.main(pbt.Spec(
        "C22", case, quick=4000, thorough=60000, builds=("fast", "asan"), setup=setup,
        rule="the dumped value contains more than 8 values",
        assumptions="files whose checksum was recomputed after the change are not generated",
    ))
