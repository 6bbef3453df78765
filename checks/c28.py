#!/usr/bin/env python3
"""C28: run_command: status, both streams, arguments and environment of the command, whatever it prints and however it ends."""
import os, sys, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Fail, write, mstr
import c09

HERE = os.path.dirname(os.path.abspath(__file__))


def setup(ctx):
    d = ctx.root + "/out"
    os.mkdir(d)
    subprocess.check_call(["gcc", "-O1", "-o", d + "/out-prog", HERE + "/../lib/c/out.c"])
    os.chmod(d, 0o755)
    os.makedirs(d + "/scripts")
    # all of them pass their arguments on
    for n, t, m in [("x.sh", "#!/bin/sh\nexec %s/out-prog \"$@\"\n", 0o755), ("nox.sh", "#!/bin/sh\nexec %s/out-prog \"$@\"\n", 0o644),
                    ("opt.sh", "#! /bin/sh -e\nfalse || exec %s/out-prog \"$@\"\n", 0o644), ("sp ace.sh", "#!\t/bin/sh \nexec %s/out-prog \"$@\"\n", 0o644),
                    ("env.sh", "#!/usr/bin/env sh\nexec %s/out-prog \"$@\"\n", 0o644)]:
        write(d + "/scripts/" + n, t % d, m)
    ctx.out = d


def gen(n, x):
    r = bytearray()
    for _ in range(n):
        x = (x * 1664525 + 1013904223) & 0xffffffff
        r.append(x >> 24)
    return bytes(r)


CACHE = {}


def gen_cached(n, x):
    if (n, x) not in CACHE:
        if len(CACHE) > 200:
            CACHE.clear()
        CACHE[n, x] = gen(n, x)
    return CACHE[n, x]


TEXTS = ["", "x", "line\n", "a\nb", "\n", "  ", "warning: \u00e9\n", "'", '"', "\\", "\\n", "@0@", "%s", "${x}", "\r\n", "\t", "\x1b[31m"]
PROGS = ["obj", "obj", "abs", "path", "pathobj", "x.sh", "nox.sh", "opt.sh", "sp ace.sh", "env.sh", "file"]


def actions(d, small):
    acts, out, err, bg = [], b"", b"", b""
    closed = set()
    for _ in d.many(0, 8, 0.7):
        k = d.weighted([(3, "o"), (3, "e"), (3, "O"), (3, "E"), (1, "s"), (1, "c")])
        if k in "oe" and not small:
            n = d.weighted([(3, d.int(0, 50)), (3, d.choice([4095, 4096, 4097, 65535, 65536, 65537])), (2, d.int(0, 9000)), (1, d.int(50000, 200000))])
            s = d.int(0, 3)
            if (1 if k == "o" else 2) in closed:
                continue
            acts.append("%s:%d:%d" % (k, n, s))
            if k == "o":
                out += gen_cached(n, s)
            else:
                err += gen_cached(n, s)
        elif k in "OE":
            t = d.choice(TEXTS)
            if (1 if k == "O" else 2) in closed:
                continue
            acts.append("%s:%s" % (k, t))
            if k == "O":
                out += t.encode()
            else:
                err += t.encode()
        elif k == "s":
            acts.append("s:%d" % d.choice([1, 3, 8]))
        elif k == "c":
            f = d.int(1, 2)
            if f not in closed and d.bool(0.4):
                closed.add(f)
                acts.append("c:%d" % f)
    if d.bool(0.06) and not closed and not small:
        n, s = d.choice([10, 5000, 70000]), d.int(0, 3)
        acts.append("b:%d:%d" % (n, s))
        bg = gen_cached(n, s)
    st = d.weighted([(6, 0), (3, d.int(1, 255)), (1, d.choice([1, 2, 77, 99, 126, 127, 128, 255])), (1, "sig")])
    if st == "sig":
        acts.append("k:%d" % d.choice([9, 15, 6, 11]))
    elif st or d.bool(0.3):
        acts.append("x:%d" % st)
    return acts, out + bg, err, st


def case(d, ctx):
    w = ctx.fresh()
    script = d.bool(0.6)
    s = w + "/s"
    os.makedirs(s)
    os.makedirs(w + "/o")
    rel = d.bool(0.5)
    for n in os.listdir(ctx.out + "/scripts"):
        t = open(ctx.out + "/scripts/" + n).read()
        write(s + "/" + n, t, os.stat(ctx.out + "/scripts/" + n).st_mode & 0o777)
    src = [] if script else ["project('p')"]
    if script:
        src.append("fs = import('fs')")
    src.append("prog = find_program(%s)" % mstr(ctx.out + "/out-prog"))
    src.append("pathprog = find_program('out-prog')")
    runs, stop = [], None
    e = {"PATH": ctx.out + ":" + os.environ["PATH"]}
    for i in d.many(1, 6, 0.75):
        acts, out, err, st = actions(d, not script)
        env = c09.env(d) if d.bool(0.4) else {}
        env = {k: v for k, v in env.items() if "\0" not in v}
        for k in env:
            if d.bool(0.3) and k not in e:
                e[k] = d.choice(["inherited", "", "x y"])
                d.label("replaces")
        shown = [k for k in env if k.isidentifier() and k.isascii()]  # (sh drops the others)
        if shown and d.bool(0.7):
            k = d.choice(shown)
            acts.insert(0, "v:" + k)
            out = env[k].encode() + out
        args = c09.args(d, nl=True, hi=d.choice([3, 3, 10, 60]))
        p = d.choice(PROGS)
        if p == "obj":
            pe = "prog"
        elif p == "abs":
            pe = mstr(ctx.out + "/out-prog")
        elif p == "path":
            pe = "'out-prog'"
        elif p == "pathobj":
            pe = "pathprog"
        elif p == "file":
            pe = "files(%s)" % mstr(d.choice(["x.sh", "nox.sh", "sp ace.sh"])) if not script else mstr(s + "/x.sh")
        else:
            pe = mstr(p if rel and not script else s + "/" + p)
        check = d.weighted([(3, None), (3, False), (2, True)])
        capture = d.weighted([(6, None), (2, True), (1, False)])
        a = [mstr(w + "/o/args%d" % i)] + [mstr(x) for x in acts] + ["'--'"] + [mstr(x) for x in args]
        k = d.int(0, len(a))
        al = ", ".join([pe] + a[:k] + (["[%s]" % ", ".join(a[k:])] if d.bool(0.4) and a[k:] else a[k:]))
        kw = ""
        if check is not None:
            kw += ", check: %s" % str(check).lower()
        if capture is not None:
            kw += ", capture: %s" % str(capture).lower()
        src2 = []
        kw += c09.envexpr(d, env, src2, i)
        src += src2
        src.append("r = run_command(%s%s)" % (al, kw))
        src.append("message('S%d @0@'.format(r.returncode()))" % i)
        if script:
            src.append("fs.write(%s, r.stdout())\nfs.write(%s, r.stderr())" % (mstr(w + "/o/out%d" % i), mstr(w + "/o/err%d" % i)))
        else:
            src.append("message('O%d', r.stdout() == %s)\nmessage('E%d', r.stderr() == %s)" % (
                i, mstr(out.decode()) if capture is not False else "''", i, mstr(err.decode())))
        runs.append((i, acts, out, err, st, check, capture, args, env, p))
        d.label(p, "check-%s" % check, "capture-%s" % capture, "sig" if st == "sig" else "rc0" if st == 0 else "rc!=0")
        if len(out) > 65536 or len(err) > 65536:
            d.label("beyond-pipe-buffer")
            d.nontrivial = True
        if st and st != "sig" and err and out:
            d.nontrivial = True
        if st and check or st == "sig":
            stop = i
            break
    if stop is None and d.bool(0.05):
        src.append("r = run_command(%s, check: false)\nmessage('S99 @0@'.format(r.returncode()))" % d.choice(["'no-such-program-x'", "'/nonexistent/x'", "''", "[]", "prog, 1", "prog, [['a', true]]"]))
        stop = 99
    src.append("message('END')")
    prog = "\n".join(src) + "\n"
    write(s + "/meson.build", prog)
    if script:
        r = ctx.run([ctx.muon, "internal", "eval", s + "/meson.build"], cwd=s, env=e)
    else:
        r = ctx.run([ctx.muon, "setup", w + "/b"], cwd=s, env=e)
    err_ = r.err.decode("utf-8", "replace")

    def bad(msg):
        raise Fail("%s\nexit %d\n%s\n-- program\n%s" % (msg, r.rc, err_[-1500:], prog[:5000]))
    if r.crashed:
        bad("crashed: " + r.why())
    msgs = {}
    for l in (err_ + r.out.decode("utf-8", "replace")).split("\n"):
        l = l.replace("message: ", "").strip()
        if l[:1] in "SOE" and l[1:2].isdigit() and " " in l:
            msgs[l.split(" ")[0]] = l.split(" ", 1)[1]
        if l == "END":
            msgs["END"] = True
    for i, acts, out, err, st, check, capture, args, env, p in runs:
        f = w + "/o/args%d" % i
        if not os.path.exists(f):
            bad("command %d did not run" % i)
        got = open(f, "rb").read().split(b"\0")[:-1]
        want = [b"%d" % len(args)] + [a.encode() for a in args]
        if got != want:
            bad("command %d got the arguments %r, not %r" % (i, got, want))
        if i == stop:
            break
        if msgs.get("S%d" % i) != str(st):
            bad("command %d (%s): returncode() is %s, the command's status is %s" % (i, acts, msgs.get("S%d" % i), st))
        for k, want in (("out", out), ("err", err)):
            if capture is False and k == "out":
                want = b""
            if capture is False and k == "err":
                continue  # the manual speaks of standard output only
            if script:
                got = open(w + "/o/%s%d" % (k, i), "rb").read()
                if got != want:
                    j = next((j for j in range(min(len(got), len(want))) if got[j] != want[j]), min(len(got), len(want)))
                    bad("command %d (%s): std%s() has %d bytes, the command wrote %d; they differ at %d: %r, %r" % (
                        i, acts, k, len(got), len(want), j, got[j:j + 20], want[j:j + 20]))
            elif msgs.get(k[0].upper() + str(i)) != "true":
                bad("command %d (%s): std%s() is not %r" % (i, acts, k, want))
    if stop is None:
        if r.rc != 0 or "END" not in msgs:
            bad("failed although no checked command failed")
    else:
        last = [x for x in runs if x[0] == stop]
        if last and last[0][4] == "sig" and not last[0][5]:
            return  # a command killed by a signal: an error or a status
        if r.rc == 0 or "END" in msgs or "S%d" % stop in msgs:
            bad("continued after a command that failed")
        if "rror" not in err_:
            bad("failed without a diagnostic")


if __name__ == "__main__":
    pbt.main(pbt.Spec("C28", case, quick=5000, thorough=60000, setup=setup,
                      rule="a command writes more than a pipe holds, or fails after writing to both streams",
                      assumptions=["without check, a command that is killed by a signal may be an error or give a status", "with capture: false only stdout() is specified"]))
