#!/usr/bin/env python3
"""C15: muon samu on generated ninja files and histories of edits, deletions, partial builds, failures and kills,
against a model of which commands must run, may run and must not, and of what every output contains."""
import os, sys, time, shlex, subprocess, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Fail, Inconclusive, write

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = ["s1", "s2.c", "d/s3", "a b.txt", "x$y", "é", "s+=,", "h1.h", "h2.h", "d/h 3.h", "it's", "c:d"]
OUT = ["o%d", "d/o%d", "out %d/x", "deep/er/o%d.o", "o$%d", "o'%d", "ö%d", "o:%d", "lib%d.a", "p+%d~"]
M64 = (1 << 64) - 1


def h64(parts):
    h = 14695981039346656037
    for p in parts:
        for b in p:
            h = ((h ^ b) * 1099511628211) & M64
        h = ((h ^ 256) * 1099511628211) & M64
    return h


def setup(ctx):
    d = ctx.root + "/nt"
    os.mkdir(d)
    subprocess.check_call(["gcc", "-O1", "-o", d + "/nt", HERE + "/../lib/c/nt.c"])
    os.chmod(d, 0o755)
    ctx.nt = d + "/nt"


def nesc(s):
    return s.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


def vesc(s):
    return s.replace("$", "$$")


def ninja_quote(s):
    """how $in shows a path"""
    if all(c.isascii() and (c.isalnum() or c in "_+-./") for c in s):
        return s
    return "'" + s.replace("'", "'\\''") + "'"


class Edge:
    phony = False

    def key(self, w):
        k = (self.name, self.salt, self.restat, self.wait, tuple(self.ins), tuple(w.xin(self)), self.depmode, self.df, tuple(self.outs), tuple(self.iouts), self.rsp and (self.rspf, self.rsalt, self.nl))
        return k


class World:
    def __init__(self, d, ctx, root):
        self.d, self.ctx, self.root = d, ctx, root
        self.edges, self.src, self.n = [], {}, 0
        self.pools = {}
        self.defaults = None
        self.regen = False
        self.listed = set()
        self.started = False
        self.builddir = None
        self.log_lost = self.deps_lost = False
        self.swapped = None

    # -- declarations ------------------------------------------------------------
    def p(self, f):
        return os.path.join(self.root, f)

    def producer(self, f):
        for e in self.edges:
            if f in e.outs or f in e.iouts:
                return e
        return None

    def leaves(self, f, seen=None):
        """files behind a name that may be a phony; None in the list: always out of date"""
        e = self.producer(f)
        if e is None or not e.phony:
            return [f]
        r = []
        if not e.ins:
            return [None]
        for i in e.ins:
            r += self.leaves(i)
        return r

    def xin(self, e):
        r = []
        for f in e.imp:
            r += [x for x in self.leaves(f) if x is not None]
        return r

    def new_edge(self, d, final=False):
        self.n += 1
        e = Edge()
        e.name = "e%d" % self.n
        e.rec, e.maybe, e.ran_cfg = None, False, None
        avail = list(self.src) + [o for x in self.edges for o in x.outs + x.iouts]
        gen = [o for x in self.edges for o in x.outs + x.iouts]
        phon = [o for x in self.edges if x.phony for o in x.outs]
        nonph = [a for a in avail if a not in phon]
        if self.edges and d.bool(0.15):
            e.phony = True
            e.outs, e.iouts, e.imp, e.order = [d.choice(["all", "alias", "grp x", "force"]) + "-%d" % self.n], [], [], []
            e.ins = d.sublist(avail, 0.25) if d.bool(0.85) else []
            e.depmode = "none"
            e.restat = e.generator = e.rsp = e.nl = False
            e.rsalt = ''
            e.pool = None
            return e

        def pick(c, lo, hi):
            r = d.list(lambda: d.choice(c[-8:] if d.bool(0.6) else c), lo, hi) if c else []
            return list(dict.fromkeys(r))
        e.ins = pick(nonph, 0 if d.bool(0.1) else 1, 3)
        e.imp = pick(avail, 0, 2) if d.bool(0.4) else []
        e.order = pick(gen + phon, 0, 2) if d.bool(0.4) else []
        e.imp = [x for x in e.imp if x not in e.ins]
        e.order = [x for x in e.order if x not in e.ins and x not in e.imp]
        k = d.weighted([(6, 1), (2, 2), (1, 3)])
        e.outs = [d.choice(OUT) % (self.n * 10 + i) for i in range(k)]
        e.iouts = [d.choice(OUT) % (self.n * 10 + 5)] if d.bool(0.15) else []
        e.depmode = d.weighted([(5, "none"), (4, "gcc"), (1, "file")])
        if e.depmode != "none":
            e.outs = [o.replace(":", "_") for o in e.outs]
        e.df = e.outs[0] + ".d"
        e.restat = d.bool(0.25)
        e.generator = d.bool(0.07)
        e.rsp = d.bool(0.12)
        e.rspf = "r%d.rsp" % self.n
        e.nl = e.rsp and d.bool(0.4)
        e.rsalt = d.choice(['k', 'a  b', "'", '$', '']) if e.rsp else ''
        e.salt = d.choice(["s", "t u", "q'", "$x", "&&", "#"])
        e.wait = d.choice([0, 0, 0, 2, 5])
        e.pool = d.weighted([(6, None), (2, "p1"), (1, "p2"), (1, "console")])
        e.incfrom = 0
        return e

    def text(self, d):
        r = []
        r.append("nt = %s\n" % vesc(self.ctx.nt))
        if self.builddir:
            r.append("builddir = %s\n" % self.builddir)
        for n, k in self.pools.items():
            r.append("pool %s\n  depth = %d\n" % (n, k))
        rules = {}
        body = []
        for e in self.edges:
            if e.phony:
                body.append("build %s: phony%s\n" % (nesc(e.outs[0]), "".join(" " + self.ref(d, i) for i in e.ins)))
                continue
            rk = (e.depmode, e.restat, e.generator, e.rsp, e.nl)
            if rk not in rules:
                rn = rules[rk] = "r%d" % len(rules)
                c = "$nt $name -s $salt -w $w"
                if e.restat:
                    c += " -r"
                if e.rsp:
                    c += " -R $rsp"
                c += d.choice([" -i $in", " -i ${in}", " $\n    -i $in"]) + " $xin"
                if e.depmode != "none":
                    c += " -d $qdf"
                c += " -o $out $iouts"
                x = "rule %s\n  command = %s\n" % (rn, c)
                if e.depmode != "none":
                    x += "  depfile = $df\n"
                if e.depmode == "gcc":
                    x += "  deps = gcc\n"
                if e.restat:
                    x += "  restat = 1\n"
                if e.generator:
                    x += "  generator = 1\n"
                if e.rsp:
                    x += "  rspfile = $rsp\n  rspfile_content = %s:$rsalt.\n" % ('$in_newline' if e.nl else '$in')
                if d.bool(0.3):
                    x += "  description = making $out\n"
                r.append(x)
            b = "build %s" % " ".join(nesc(o) for o in e.outs)
            if e.iouts:
                b += " | " + " ".join(nesc(o) for o in e.iouts)
            b += ": " + rules[rk]
            sep = lambda: d.choice([" ", " ", "  ", " $\n    "])
            for i in e.ins:
                b += sep() + self.ref(d, i)
            if e.imp:
                b += " |" + "".join(sep() + self.ref(d, i) for i in e.imp)
            if e.order:
                b += " ||" + "".join(sep() + self.ref(d, i) for i in e.order)
            b += "\n  name = %s\n  salt = %s\n  w = %d\n" % (e.name, vesc(shlex.quote(e.salt)), e.wait)
            b += "  xin = %s\n" % vesc(" ".join(shlex.quote(x) for x in self.xin(e)))
            b += "  iouts = %s\n" % vesc(" ".join(shlex.quote(x) for x in e.iouts))
            if e.depmode != "none":
                b += "  df = %s\n  qdf = %s\n" % (vesc(e.df), vesc(shlex.quote(e.df)))
            if e.rsp:
                b += "  rsp = %s\n  rsalt = %s\n" % (e.rspf, vesc(e.rsalt))
            if e.pool:
                b += "  pool = %s\n" % e.pool
            if d.bool(0.1):
                b = "# comment\n\n" + b
            body.append(b)
        if self.regen:
            body.append("rule regen\n  command = $nt regen -c build.ninja.in build.ninja\n  generator = 1\nbuild build.ninja: regen build.ninja.in\n")
        out = "".join(r)
        if d.bool(0.25) and body and not self.regen:
            k = d.int(0, len(body))
            inc = "".join(body[:k])
            write(self.p("part.ninja"), inc)
            out += d.choice(["include", "subninja"]) + " part.ninja\n"
            body = body[k:]
        out += "".join(body)
        if self.defaults is not None:
            for x in self.defaults:
                out += "default %s\n" % nesc(x)
        return out

    def ref(self, d, f):
        x = nesc(f)
        return d.weighted([(12, x), (1, "./" + x), (1, "q/../" + x), (1, ".//" + x)]) if "/" not in f or True else x

    def write_manifest(self, d):
        t = self.text(d)
        if self.regen:
            write(self.p("build.ninja.in"), t)
            if not os.path.exists(self.p("build.ninja")):
                write(self.p("build.ninja"), t)
        else:
            write(self.p("build.ninja"), t)

    def write_src(self, f):
        s = self.src[f]
        back = self.started and not os.path.exists(self.p(f))
        write(self.p(f), "v%d\n%s%s" % (s["v"], "".join("INC %s\n" % i for i in s["inc"]), "FAIL\n" if s["fail"] else ""))
        # a header that comes back: whoever includes it is edited too
        for g in self.src if back else []:
            if f in self.src[g]["inc"] and os.path.exists(self.p(g)):
                self.src[g]["v"] += 1
                self.write_src(g)

    # -- what things contain ------------------------------------------------------------
    def content(self, f, memo):
        if f in memo:
            return memo[f]
        e = self.producer(f)
        if e is None:
            r = open(self.p(f), "rb").read() if os.path.exists(self.p(f)) else None
        else:
            parts, _, _ = self.parts(e, e.ran_cfg, memo)
            h = h64(parts)
            k = (e.outs + e.iouts).index(f)
            r = b"%s:%d:%016x\n" % (e.name.encode(), k, (h >> 63) if e.restat else h)
        memo[f] = r
        return r

    def parts(self, e, cfg, memo):
        """(hashed strings, included files, would it fail)"""
        name, salt, ins, xin, rsp, incs = cfg
        parts = [name.encode(), salt.encode()]
        if rsp:
            parts.append(rsp)
        deps, failing = [], [False]

        def mix(f, depth):
            c = self.content(f, memo)
            if c is None:
                parts.append(b"MISSING")
                if not depth:
                    failing[0] = True
                return
            parts.append(c)
            for l in c.decode().split("\n"):
                if l == "FAIL":
                    failing[0] = True
                if incs and l.startswith("INC ") and depth < 4:
                    if self.content(l[4:], memo) is not None:
                        deps.append(l[4:])
                    mix(l[4:], depth + 1)
        for f in list(ins) + list(xin):
            mix(f, 0)
        return parts, deps, failing[0]

    def cfg(self, e):
        rsp = (("\n" if e.nl else " ").join(ninja_quote(i) for i in e.ins) + ":" + e.rsalt + ".").encode() if e.rsp else None
        return (e.name, e.salt, tuple(e.ins), tuple(self.xin(e)), rsp, e.depmode != "none")

    def mtime(self, f):
        try:
            return os.stat(self.p(f)).st_mtime_ns
        except FileNotFoundError:
            return None

    def inputs(self, e):
        """files (or None: always out of date) whose change makes the command run"""
        r = list(e.ins)
        for f in e.imp:
            r += self.leaves(f)
        return r

    def all_producers(self, e):
        r = []
        for f in e.ins + e.imp + e.order + (list(e.rec["deps"]) if e.rec and not e.phony else []):
            p = self.producer(f)
            if p is None:
                continue
            if p.phony:
                r += self.all_producers(p)
            elif p not in r:
                r.append(p)
        return r


def targets_closure(w, names):
    seen, out = set(), []

    def go(e):
        if id(e) in seen:
            return
        seen.add(id(e))
        for f in e.ins + e.imp + e.order + (list(e.rec["deps"]) if not e.phony and e.rec else []):
            p = w.producer(f)
            if p:
                go(p)
        out.append(e)
    for n in names:
        p = w.producer(n)
        if p:
            go(p)
    return [e for e in w.edges if id(e) in seen]


def read_log(w):
    f = w.p("nt.log")
    ev = []
    if os.path.exists(f):
        for l in open(f):
            k, n, rc = l.split()
            ev.append((k, n, int(rc)))
    return ev


def snapshot(w):
    r = {}
    for dp, dn, fn in os.walk(w.root):
        for f in fn:
            if f.startswith(".ninja_") or f == "nt.log":
                continue
            q = os.path.join(dp, f)
            st = os.stat(q)
            r[q] = (st.st_mtime_ns, st.st_size)
    return r


def build(w, d, ctx, step, force=None):
    time.sleep(0.013)
    argv = [ctx.muon, "samu"]
    jobs = d.choice([1, 2, 3, 8])
    if d.bool(0.85):
        argv += ["-j", str(jobs)] if d.bool() else ["-j%d" % jobs]
    else:
        jobs = 1000
    keep = d.weighted([(3, 1), (1, 2), (3, 0)])
    if keep != 1:
        argv += ["-k", str(keep)]
    for fl in ("-v", "-d explain"):
        if d.bool(0.1):
            argv += fl.split()
    gen = [o for e in w.edges for o in e.outs + e.iouts]
    targets = []
    if d.bool(0.35):
        targets = d.list(lambda: d.choice(gen + ([f for f in w.src if any(f in e.ins + e.imp for e in w.edges)][:1] if d.bool(0.1) else [])), 1, 3)
    kill = None
    dry = not force and d.bool(0.08)
    if not force and not dry and d.bool(0.08):
        e = d.choice([e for e in w.edges if not e.phony])
        kill = (e.name, d.choice(["before", "after"]), d.choice([9, 15, 2]))
        write(w.p("nt.kill"), "%s %s %d" % kill)
        d.label("kill-armed")
    if dry:
        argv.append("-n")
    if os.path.exists(w.p("nt.log")):
        os.unlink(w.p("nt.log"))
    names = targets or (w.defaults if w.defaults is not None else None)
    if not names:
        used = {f for e in w.edges for f in e.ins + e.imp + e.order + (list(e.rec["deps"]) if e.rec and not e.phony else [])}
        names = [o for o in gen if o not in used]
        if w.regen:
            names = names + []
    before = snapshot(w)
    regen_due = w.regen and (w.regen_rec != w.mtime("build.ninja.in"))
    r = ctx.run(argv + targets, cwd=w.root, merge=True)
    out = r.out.decode("utf-8", "replace")
    ev = read_log(w)
    for _ in range(300):
        if sum(k == "S" for k, _, _ in ev) == sum(k == "E" for k, _, _ in ev) or (kill and kill[1] == "before" and _ > 60):
            break
        time.sleep(0.01)
        ev = read_log(w)
    killed = kill is not None and not os.path.exists(w.p("nt.kill"))
    if os.path.exists(w.p("nt.kill")):
        os.unlink(w.p("nt.kill"))
    d.note("step %d: samu %s%s -> %s\nlog %s\n%s" % (step, argv[2:] + targets, " KILL %s" % (kill,) if killed else "", r.rc, ev, out[-600:]))

    def bad(msg):
        raise Fail("step %d, samu %s%s: %s\nran: %s\n%s\n-- build.ninja\n%s" % (
            step, argv[2:] + targets, " (killed %s)" % (kill,) if killed else "", msg, ev, out[-1500:], open(w.p("build.ninja")).read()[-5000:]))
    if r.crashed and not killed:
        bad("crashed: " + r.why())
    if dry:
        if [x for x in ev]:
            bad("a dry run ran commands")
        if snapshot(w) != before:
            bad("a dry run changed files: %s" % [k for k in set(before) | set(snapshot(w)) if before.get(k) != snapshot(w).get(k)])
        missing = [f for e in targets_closure(w, names) for f in e.ins + e.imp if w.producer(f) is None and w.mtime(f) is None]
        if r.rc != 0 and not missing and not regen_due:
            bad("dry run failed")
        return False
    ran = {}
    for i, (k, n, rc) in enumerate(ev):
        x = ran.setdefault(n, {"S": [], "E": [], "rc": None})
        x[k].append(i)
        if k == "E":
            x["rc"] = rc
    for n, x in ran.items():
        if len(x["S"]) > 1:
            bad("%s ran %d times" % (n, len(x["S"])))
    # the build file itself first
    if w.regen:
        if regen_due != ("regen" in ran):
            if not w.regen_maybe:
                bad("build.ninja %s regenerated" % ("was not" if regen_due else "was"))
        if "regen" in ran:
            if ev[0][1] != "regen" or ev[1][1] != "regen":
                bad("commands ran before build.ninja was regenerated")
            w.regen_rec = w.mtime("build.ninja.in")
            w.regen_maybe = killed
            ran.pop("regen")
    wanted = targets_closure(w, names)
    missing = [f for e in wanted for f in e.ins + e.imp if w.producer(f) is None and w.mtime(f) is None]
    missing += [t for t in targets if w.producer(t) is None and w.mtime(t) is None]
    if missing:
        d.label("missing-source")
        if r.rc == 0 and [f for f in missing if f not in w.listed or any(f in e.ins + e.imp for e in wanted if not e.phony)]:
            bad("succeeded although %r is missing" % missing[0])
        if not ran:
            return False
        # a missing file that some depfile lists is not refused beforehand: its command fails instead
        if [f for f in missing if f not in w.listed]:
            bad("ran commands although %r is missing" % [f for f in missing if f not in w.listed][0])
        d.label("missing-recorded")
    for n in ran:
        if n not in [e.name for e in wanted]:
            bad("%s ran, but is not needed for %s" % (n, names))
    # concurrency
    running, pool, most = [], {}, 0
    byname = {e.name: e for e in w.edges}
    for k, n, rc in ev:
        if n == "regen":
            continue
        if k == "S":
            running.append(n)
        else:
            running.remove(n)
        if len(running) > jobs:
            bad("%d commands at once with -j%d" % (len(running), jobs))
        for pn in list(w.pools) + ["console"]:
            c = [x for x in running if byname[x].pool == pn]
            if len(c) > w.pools.get(pn, 1):
                bad("%s run at once in pool %s of depth %d" % (c, pn, w.pools.get(pn, 1)))
        most = max(most, len(running))
    if most > 1:
        d.label("parallel")
    failed, blocked = set(), set()
    stopped = False
    for e in wanted:
        if e.phony:
            continue
        prods = w.all_producers(e)
        e.blocked = any(p in failed or p in blocked for p in prods)
        why = None
        lost_log, lost_deps = w.log_lost, w.deps_lost
        if e.rec is None:
            why = "it has never run" if not e.generator or any(w.p(o) not in before for o in e.outs + e.iouts) else "maybe"
        elif not e.generator and e.rec["key"] != e.key(w):
            why = "its command line changed"
        elif [o for o in e.outs + e.iouts if w.p(o) not in before]:
            why = "an output was missing"
        elif e.depmode == "file" and w.p(e.df) not in before:
            why = "its depfile was missing"
        elif e.lost_log:
            why = "the log was lost" if not e.generator else "maybe" 
        elif e.lost_deps and e.depmode == "gcc":
            why = "the deps log was lost"
        else:
            for f in w.inputs(e):
                if f is None:
                    why = "an input is always out of date"
                elif f not in e.rec["vers"]:
                    why = why or ("maybe" if e.generator else "it has the new input %r" % f)
                elif w.mtime(f) != e.rec["vers"][f]:
                    why = "its input %r changed" % f
            for f in e.rec["deps"]:
                if w.mtime(f) != e.rec["vers"].get(f):
                    why = "its depfile input %r changed" % f
        did = e.name in ran
        if did:
            if e.blocked:
                bad("%s ran although what it depends on failed" % e.name)
            if why is None and not e.maybe:
                bad("%s ran although it was up to date" % e.name)
            for p in prods:
                if p.name in ran and (not ran[p.name]["E"] or ran[p.name]["E"][0] > ran[e.name]["S"][0]):
                    bad("%s started before %s, which it depends on, was finished" % (e.name, p.name))
            cfg = w.cfg(e)
            memo = {}
            rc = ran[e.name]["rc"]
            deps = w.parts(e, cfg, memo)[1]
            would_fail = w.parts(e, cfg, memo)[2]
            if rc == 0:
                if would_fail:
                    raise Inconclusive()
                e.ran_cfg = cfg
                e.rec = {"key": e.key(w), "deps": deps, "vers": {f: w.mtime(f) for f in [x for x in w.inputs(e) if x] + deps}}
                e.maybe = killed
                if e.depmode != "none":
                    w.listed |= set(cfg[2]) | set(cfg[3]) | set(deps)
                e.lost_log = e.lost_deps = False
            else:
                if rc is not None and not would_fail:
                    raise Inconclusive()
                if rc is not None:
                    if not killed and ("%s fails" % e.name) not in out:
                        bad("what the failing %s printed is not shown" % e.name)
                failed.add(e)
                if killed:
                    e.maybe = True
        elif why and why != "maybe":
            if e.blocked:
                blocked.add(e)
            elif killed or (failed and keep != 0) or e.maybe and why is None:
                blocked.add(e)
                stopped = True
            elif r.rc != 0 and keep != 0:
                blocked.add(e)
                stopped = True
            elif e.pool == "console" or True:
                bad("%s did not run although %s" % (e.name, why))
        elif e.blocked:
            blocked.add(e)
    if killed:
        d.label("killed")
        # what the log still says about what ran in the killed build is open
        for e in wanted:
            if not e.phony and e.name in ran:
                e.maybe = True
        return False
    if failed and r.rc == 0:
        bad("succeeded although %s failed" % [e.name for e in failed])
    if r.rc != 0 and not failed:
        if stopped:
            bad("stopped and failed although no command failed")
        bad("failed although no command failed")
    if failed:
        d.label("failed")
        return False
    # every wanted output has what its command makes of the current inputs
    memo = {}
    for e in wanted:
        if e.phony:
            continue
        for o in e.outs + e.iouts:
            want = w.content(o, memo)
            got = open(w.p(o), "rb").read() if os.path.exists(w.p(o)) else None
            if got != want:
                bad("%r contains %r, its command makes %r of the current inputs" % (o, got, want))
    for e in w.edges:
        if e.rsp and e.name in ran and os.path.exists(w.p(e.rspf)):
            bad("response file %s left behind" % e.rspf)
    return True


def case(d, ctx):
    root = ctx.fresh()
    w = World(d, ctx, root)
    for f in d.sublist(SRC, 0.6) or ["s1"]:
        w.src[f] = {"v": 0, "inc": [], "fail": False}
    w.pools = {"p1": d.int(1, 2), "p2": d.int(1, 3)}
    heads = [f for f in w.src if f.endswith(".h")]
    for f in w.src:
        if heads and d.bool(0.4) and not f.startswith("d/h"):
            w.src[f]["inc"] = [h for h in d.sublist(heads, 0.5) if h > f or not f.endswith(".h")]
    for i in d.many(1, 10, 0.8):
        e = w.new_edge(d)
        e.lost_log = e.lost_deps = False
        w.edges.append(e)
    if all(e.phony for e in w.edges):
        w.edges = [e for e in w.edges if not e.phony]
        while not w.edges:
            e = w.new_edge(d)
            e.lost_log = e.lost_deps = False
            if not e.phony:
                w.edges.append(e)
    # sources that include generated headers: every user of them then waits for the generator
    geninc = [o for e in w.edges[:2] if not e.phony for o in e.outs if ":" not in o or True]
    srcs = [f for f in w.src if not f.endswith(".h")]
    if geninc and srcs and d.bool(0.4):
        s, g = d.choice(srcs), d.choice(geninc)
        ge = w.producer(g)

        def uses(e, f):
            return f in e.ins or f in w.xin(e)
        users = [e for e in w.edges if not e.phony and uses(e, s)]
        if not any(w.edges.index(u) <= w.edges.index(ge) for u in users) and users:
            w.src[s]["inc"].append(g)
            for u in users:
                if g not in u.ins + u.imp + u.order:
                    u.order.append(g)
            d.label("generated-include")
    if d.bool(0.3):
        w.defaults = d.sublist([o for e in w.edges for o in e.outs], 0.4) or None
    w.builddir = d.weighted([(4, None), (1, "bd")])
    w.regen = d.bool(0.25)
    w.regen_rec, w.regen_maybe = None, False
    for f in w.src:
        w.write_src(f)
    os.mkdir(w.p("q"))
    if w.builddir:
        os.mkdir(w.p(w.builddir))
    w.write_manifest(d)
    if w.regen:
        w.regen_rec = w.mtime("build.ninja.in")
    d.nontrivial = False
    built = False
    w.started = True
    for step in d.many(2, 9, 0.85):
        w.step = step
        if step and d.bool(0.85):
            for _ in range(d.weighted([(5, 1), (2, 2), (1, 3)])):
                edit(w, d)
        ok = build(w, d, ctx, step)
        built = built or ok
        if ok and step:
            d.nontrivial = True
        d.label("build-ok" if ok else "build-other")


def edit(w, d):
    time.sleep(0.013)
    cmds = [e for e in w.edges if not e.phony]
    k = d.weighted([(5, "edit"), (2, "touch"), (2, "inc"), (2, "swapinc"), (2, "fail"), (3, "rmout"), (1, "rmdep"), (3, "salt"), (2, "addin"), (2, "newedge"), (1, "rmsrc"),
                    (1, "clean"), (1, "logs"), (2, "rewrite"), (1, "rmedge")])
    src = list(w.src)
    follow = w.swapped and w.swapped[1] < w.step and d.bool(0.6)
    if follow:
        k = "edit"
    if k == "edit":
        f = d.choice(src)
        if follow:
            f, w.swapped = w.swapped[0], None
        w.src[f]["v"] += 1
        w.src[f]["fail"] = False
        w.write_src(f)
    elif k == "touch":
        f = d.choice(src)
        if os.path.exists(w.p(f)):
            os.utime(w.p(f))
    elif k == "inc":
        heads = [f for f in src if f.endswith(".h")]
        c = [f for f in src if not f.endswith(".h")]
        if heads and c:
            f = d.choice(c)
            w.src[f]["inc"] = [i for i in w.src[f]["inc"] if i not in src] + d.sublist(heads, 0.5)
            w.src[f]["v"] += 1
            w.write_src(f)
    elif k == "swapinc":
        # as many includes as before, but other ones
        heads = [f for f in src if f.endswith(".h")]
        c = [f for f in src if not f.endswith(".h") and set(w.src[f]["inc"]) & set(heads) and set(heads) - set(w.src[f]["inc"])]
        c = [f for f in c if any(e.restat and e.depmode == "gcc" and f in e.ins + e.imp for e in cmds)] or c
        if c:
            f = d.choice(c)
            i = d.choice([i for i, x in enumerate(w.src[f]["inc"]) if x in heads])
            w.src[f]["inc"][i] = d.choice([x for x in heads if x not in w.src[f]["inc"]])
            w.swapped = w.src[f]["inc"][i], w.step
            w.src[f]["v"] += 1
            w.write_src(f)
            d.label("swapinc")
    elif k == "fail":
        f = d.choice(src)
        w.src[f]["fail"] = not w.src[f]["fail"]
        w.write_src(f)
    elif k == "rmout":
        e = d.choice(cmds)
        for o in d.sublist(e.outs + e.iouts, 0.6) or e.outs[:1]:
            if os.path.exists(w.p(o)):
                os.unlink(w.p(o))
    elif k == "rmdep":
        e = d.choice(cmds)
        if e.depmode == "file" and os.path.exists(w.p(e.df)):
            os.unlink(w.p(e.df))
    elif k == "salt":
        e = d.choice(cmds)
        if e.rsp and d.bool(0.7):
            e.rsalt += "y"
        else:
            e.salt += "x"
        w.write_manifest(d)
    elif k == "addin":
        e = d.choice(cmds)
        c = [f for f in src if f not in e.ins + e.imp + e.order and not w.src[f]["inc"]]
        c += [o for x in w.edges[:w.edges.index(e)] if not x.phony for o in x.outs if o not in e.ins + e.imp + e.order]
        if c:
            f = d.choice(c)
            if w.producer(f) or True:
                d.choice([e.ins, e.imp, e.order] if w.producer(f) else [e.ins, e.imp]).append(f)
            w.write_manifest(d)
    elif k == "newedge":
        e = w.new_edge(d)
        e.lost_log = e.lost_deps = False
        w.edges.append(e)
        w.write_manifest(d)
    elif k == "rmedge":
        used = {f for e in w.edges for f in e.ins + e.imp + e.order} | {i for s in w.src.values() for i in s["inc"]} | set(w.defaults or [])
        used |= {f for e in w.edges if not e.phony and e.rec for f in e.rec["deps"]}
        c = [e for e in cmds if not any(o in used for o in e.outs + e.iouts)]
        if len(c) and len(cmds) > 1:
            w.edges.remove(d.choice(c))
            w.write_manifest(d)
    elif k == "rmsrc":
        f = d.choice(src)
        if os.path.exists(w.p(f)):
            os.unlink(w.p(f))
            d.label("rmsrc")
        else:
            w.write_src(f)
    elif k == "clean":
        r = w.ctx.run([w.ctx.muon, "samu", "-t", "clean"], cwd=w.root, merge=True)
        if r.rc != 0 or r.crashed:
            raise Fail("samu -t clean failed: %s" % r.out[-500:])
        left = [o for e in cmds for o in e.outs + e.iouts if os.path.exists(w.p(o)) and not e.generator]
        if w.regen and w.mtime("build.ninja.in") > w.mtime("build.ninja"):
            left = []  # cleans what the old build file says
        gone = [o for e in cmds for o in e.outs + e.iouts if e.generator and e.rec and w.mtime(o) is None]
        if left:
            raise Fail("samu -t clean left %s" % left)
        d.label("clean")
    elif k == "logs":
        b = w.builddir or "."
        x = d.choice([".ninja_log", ".ninja_deps"])
        if os.path.exists(w.p(b + "/" + x)):
            os.unlink(w.p(b + "/" + x))
            for e in w.edges:
                if x == ".ninja_log":
                    e.lost_log = True
                else:
                    e.lost_deps = True
            d.label("lost" + x)
    elif k == "rewrite":
        w.write_manifest(d)


if __name__ == "__main__":
    pbt.main(pbt.Spec(
        "C15", case, quick=2000, thorough=20000, setup=setup,
        rule="at least one build after an edit succeeded and was compared file by file",
        assumptions=["commands are deterministic functions of their inputs and write nothing when they fail",
                     "an output changed behind the tool's back is outside: ninja compares modification times of inputs only"]))
