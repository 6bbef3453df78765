#!/usr/bin/env python3
"""C10: graphs of custom targets and generators against a model of what each must have run with and produced."""
import os, sys, re, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt, rec
from pbt import Fail, write, mstr


class T:
    pass


class World:
    """the generated project"""

    def __init__(self, d, ctx):
        self.d = d
        self.w = ctx.fresh()
        self.s = self.w + "/" + ("s" if d.bool(0.8) else d.choice(["a b", "d$x", "p:q"]))
        self.top, self.b = self.s, self.s + "/b"
        self.bb = self.b
        self.subproj = d.bool(0.2)
        if self.subproj:
            # the targets are those of a subproject
            self.s += "/subprojects/sp"
            self.bb += "/subprojects/sp"
            d.label("subproject")
        os.makedirs(self.w + "/log")
        self.files = {}         # path relative to the source root -> bytes
        self.targets = []
        self.src = {"": ["project('p')", "tool = find_program(%s)" % mstr(ctx.tool)]}
        self.nfile = 0
        self.ngen = 0
        self.ver = 0

    def newfile(self, sub, quote=True):
        self.nfile += 1
        n = self.d.choice(["f%d", "f%d", "f%d", "f%d", ".f%d", "f%d.x"] + (["f%d'q"] if quote else [])) % self.nfile + self.d.choice([".txt", ".txt", ".c.in", "", ".x y" if self.d.bool(0.3) else ".y"])
        p = (sub + "/" if sub else "") + n
        self.files[p] = b"content %d\n" % self.nfile
        return p

    def emit(self, sub, line):
        self.src[sub].append(line)


def basename(p):
    return os.path.basename(p)


def strip(p):
    b = os.path.basename(p)
    i = b.rfind(".")
    return b[:i] if i > 0 else b


def gen(d, W):
    subs = [""] + (["sub"] if d.bool(0.5) else []) + (["sub/deep"] if d.bool(0.2) else [])
    for q in subs[1:]:
        W.src[q] = []
    # a script of the source tree as the program
    W.script = None
    order = []
    n = d.int(1, 7)
    # definitions appear per directory: root first part, sub, rest of root
    placement = [d.choice(subs) for _ in range(n)]
    placement.sort(key=lambda q: -len(q))      # deeper directories first: what is defined there is visible afterwards
    for i, sub in enumerate(placement):
        mk_target(d, W, "t%d" % i, sub)
    W.subs = subs


def pathof(W, ref):
    """absolute paths a reference stands for"""
    k = ref[0]
    if k == "file":
        return [W.s + "/" + ref[1]]
    if k == "all":
        return list(ref[1].outs)
    if k == "out":
        return [ref[1].outs[ref[2]]]
    if k == "gen":
        return [o for g in ref[1] for o in g.outs]


def refexpr(d, W, ref, sub):
    k = ref[0]
    if k == "file":
        p = os.path.relpath(ref[1], sub) if sub else ref[1]
        return ("files(%s)" if d.bool() else "%s") % mstr(p)
    t = ref[1]
    if k == "all":
        return t.name
    if k == "out":
        return "%s[%d]" % (t.name, ref[2])


def pick_ref(d, W, sub, deps=True):
    if W.targets and d.bool(0.55):
        t = d.choice(W.targets)
        if len(t.outs) > 1 and d.bool(0.6) or d.bool(0.2):
            return ("out", t, d.int(0, len(t.outs) - 1))
        return ("all", t)
    fs = [f for f in W.files if os.path.dirname(f) == sub]
    if fs and d.bool(0.5):
        return ("file", d.choice(fs))
    return ("file", W.newfile(sub))


def mk_target(d, W, name, sub):
    t = T()
    t.name, t.sub = name, sub
    t.bdir = W.bb + ("/" + sub if sub else "")
    t.refs, t.cmdrefs, t.depends, t.depend_files, t.extra_deps = [], [], [], [], []
    t.gens = []
    genexpr = None
    for _ in d.many(0, 3, 0.7) if not d.bool(0.06) else range(d.int(10, 14)):
        t.refs.append(pick_ref(d, W, sub))
    ins = [p for r in t.refs for p in pathof(W, r)]
    # a file may be named only once
    seen, refs = set(), []
    for r in t.refs:
        if not seen & set(pathof(W, r)):
            refs.append(r)
            seen |= set(pathof(W, r))
    t.refs = refs
    inputs = [refexpr(d, W, r, sub) for r in t.refs]
    if d.bool(0.2):
        # a generator's outputs, made for this target
        W.ngen += 1
        gname = "g%d" % W.ngen
        ppf = d.choice([None, None, None, "", "in"])
        gin = [W.newfile((sub + d.choice(["", "/in", "/in/er"] if ppf != "in" else ["/in", "/in/er"])).strip("/")) for _ in range(d.int(1, 3))]
        if ppf is not None:
            d.label("preserve_path_from")
        nout = d.int(1, 2)
        extra = [d.choice(["e1", "a b", "$q", ""]) for _ in d.many(0, 2, 0.5)]
        arg = d.choice(["k", "v w"])
        twice = d.bool(0.2)
        pats = ["@BASENAME@.g%d" % (k + W.ngen * 10) if d.bool(0.6) else "@PLAINNAME@.g%d" % (k + W.ngen * 10) for k in range(nout)]
        gcap = nout == 1 and d.bool(0.2)
        gdep = not gcap and d.bool(0.3)
        dfiles = [W.newfile(sub, False) for _ in range(d.int(1, 2))] if gdep else []
        gdepends = [u for u in W.targets if d.bool(0.15)]
        W.emit(sub, "%s = generator(tool, output: [%s], arguments: [%s]%s)" % (
            gname, ", ".join(map(mstr, pats)),
            ", ".join(["'G%d@BASENAME@'" % W.ngen, "'-x'"] + (["'@EXTRA_ARGS@'"] if twice else []) + [mstr(arg), "'@EXTRA_ARGS@'", "'-i'", "'@INPUT@'"]
                      + (["'-d'", "'@DEPFILE@'"] + [mstr(W.s + "/" + x) for x in dfiles] if gdep else [])
                      + ["'-p'", "'@BUILD_DIR@'", "'@CURRENT_SOURCE_DIR@'", "'@PLAINNAME@'"]
                      + ["'-o'"] + (["'-'"] if gcap else ["'@OUTPUT%d@'" % k for k in range(nout)] if nout > 1 or d.bool(0.3) else ["'@OUTPUT@'"])),
            (", capture: true" if gcap else "") + (", depfile: '@BASENAME@.d'" if gdep else "")
            + (", depends: [%s]" % ", ".join(u.name for u in gdepends) if gdepends else "")))
        W.emit(sub, "%sl = %s.process(%s%s)" % (gname, gname, ", ".join(mstr(os.path.relpath(x, sub or ".")) for x in gin), (", extra_args: [%s]" % ", ".join(map(mstr, extra)) if extra else "")
               + (", preserve_path_from: meson.current_source_dir()%s" % (" / 'in'" if ppf else "") if ppf is not None else "")))
        pd = t.bdir + "/" + name + ".p"
        bad = len(set(strip(x) for x in gin)) != len(gin) and any("BASENAME" in p for p in pats)
        for x in gin:
            g = T()
            g.name = "G%d%s" % (W.ngen, strip(x))
            g.sub, g.bdir = sub, t.bdir
            xd = pd
            if ppf is not None:
                xd = os.path.normpath(pd + "/" + os.path.dirname(os.path.relpath(x, os.path.join(sub, ppf) or ".")))
            g.outs = [xd + "/" + p.replace("@BASENAME@", strip(x)).replace("@PLAINNAME@", basename(x)) for p in pats]
            g.ins = [W.s + "/" + x]
            g.extra = (extra if twice else []) + [arg] + extra
            g.deps = list(gdepends)
            g.extra_deps = [W.s + "/" + q for q in dfiles]
            g.files = []
            g.args = {1: None}
            g.place = [pd, W.s + ("/" + sub if sub else ""), basename(x)]
            g.always = g.default = False
            g.feed = False
            g.capture = gcap
            g.subof = t
            t.gens.append(g)
        t.refs.append(("gen", t.gens))
        inputs.append(gname + "l")
    ins = [p for r in t.refs for p in pathof(W, r)]
    t.ins = ins
    one = len(ins) == 1
    t.capture = d.bool(0.15)
    t.feed = one and d.bool(0.2)
    nout = 1 if t.capture else d.int(1, 3)
    t.outs, outpats = [], []
    for k in range(nout):
        if one and d.bool(0.3):
            pat = "@BASENAME@.%s%d" % (name, k) if d.bool() else "@PLAINNAME@.%s%d" % (name, k)
        else:
            pat = "%s_%d.out" % (name, k) + (d.choice([" z", "$", ":", "'", "#"]) if d.bool(0.08) else "")
            if d.bool(0.06):
                pat = "." + pat
        outpats.append(pat)
        t.outs.append(t.bdir + "/" + (pat.replace("@BASENAME@", strip(ins[0])).replace("@PLAINNAME@", basename(ins[0])) if one else pat))
    t.extra = [d.choice(["x%d" % d.int(0, 9), "x%d" % d.int(0, 9), "x1", "a\tb", "c\rd", "l\nm", "'", '"', "\\", "#!", "$HOME", "`", "*"]) for _ in d.many(0, 4, 0.5)]
    # placeholders: (argument, kind, expected)
    t.place_args, t.place = [], []

    def ph(a, e):
        t.place_args.append(a)
        t.place.append(e)
    for _ in d.many(0, 6, 0.7):
        k = d.int(0, 11)
        if k == 0 and ins:
            i = d.int(0, len(ins) - 1)
            ph("@INPUT%d@" % i, ("p", ins[i]))
        elif k == 1:
            i = d.int(0, nout - 1)
            ph("@OUTPUT%d@" % i, ("p", t.outs[i]))
        elif k == 2:
            ph("@OUTDIR@", ("p", t.bdir))
        elif k == 3 and one:
            ph("@PLAINNAME@", ("s", basename(ins[0])))
        elif k == 4 and one:
            ph("pre-@BASENAME@.x", ("s", "pre-" + strip(ins[0]) + ".x"))
        elif k == 5:
            ph("@SOURCE_ROOT@", ("p", W.top))
        elif k == 6:
            ph("@BUILD_ROOT@", ("p", W.b))
        elif k == 7:
            ph("@CURRENT_SOURCE_DIR@", ("p", W.s + ("/" + sub if sub else "")))
        elif k == 8:
            ph("@PRIVATE_DIR@", ("p", t.bdir + "/" + name + ".p"))
        elif k == 9 and ins:
            i = d.int(0, len(ins) - 1)
            ph("--in=@INPUT%d@:@OUTPUT0@" % i, ("2", "--in=", ins[i], t.outs[0]))
        elif k == 10:
            ph(d.choice(["@", "a@b", "@@", "user@host", "@nosuch@", "x@y@z"]), ("s", None))
        elif k == 11 and ins:
            ph("@INPUT@", ("l", ins))
    for i, (a, e) in enumerate(zip(t.place_args, t.place)):
        if e == ("s", None):
            t.place[i] = ("s", a)
    cmd = [d.choice(["tool", "tool", "tool.full_path()"]), mstr(name)]
    if t.extra:
        cmd += ["'-x'"] + [mstr(x) for x in t.extra]
    if t.place_args:
        cmd += ["'-p'"] + [mstr(x) for x in t.place_args]
    t.content_ins = []
    if ins:
        if t.feed:
            cmd += ["'-i'", "'-'"]
            t.content_ins = list(ins)
        elif d.bool(0.6):
            cmd += ["'-i'", "'@INPUT@'"]
            t.content_ins = list(ins)
        else:
            idx = list(range(len(ins)))
            cmd += ["'-i'"] + ["'@INPUT%d@'" % i for i in idx]
            t.content_ins = list(ins)
    # files and targets named in the command itself
    for _ in d.many(0, 2, 0.3):
        r = pick_ref(d, W, sub)
        if r[0] == "file":
            # a string would be an argument like any other
            p = os.path.relpath(r[1], sub) if sub else r[1]
            cmd += ["'-i'", "files(%s)" % mstr(p)]
        else:
            cmd += ["'-i'", refexpr(d, W, r, sub)]
        t.cmdrefs.append(r)
        t.content_ins += pathof(W, r)
    # (a colon in a target of a depfile is ambiguous, and not every ninja knows quotes in one)
    t.depfile = not t.capture and not any(":" in basename(o) or "'" in basename(o) for o in t.outs) and d.bool(0.25)
    kw = []
    if t.depfile:
        t.extra_deps = [W.newfile(sub, False) for _ in range(d.int(1, 3))]
        cmd += ["'-d'", "'@DEPFILE@'"] + [mstr(W.s + "/" + x) for x in t.extra_deps]
        kw.append("depfile: %s" % mstr(d.choice([name + ".d", "@PLAINNAME@.%s.d" % name if one else name + ".dep", "a b%s.d" % name if d.bool(0.3) else name + ".x.d", "$%s.d" % name if d.bool(0.3) else name + ".d"])))
    t.extra_deps = [W.s + "/" + x for x in t.extra_deps]
    cmd += ["'-o'"]
    if t.capture:
        cmd += ["'-'"]
        kw.append("capture: true")
    elif d.bool(0.6):
        cmd += ["'@OUTPUT@'"]
    else:
        cmd += ["'@OUTPUT%d@'" % i for i in range(nout)]
    if t.feed:
        kw.append("feed: true")
    dep_targets = [u for u in W.targets if d.bool(0.12)]
    if dep_targets:
        kw.append("depends: [%s]" % ", ".join(u.name for u in dep_targets))
    if d.bool(0.15):
        t.depend_files = [W.newfile(sub)]
        kw.append("depend_files: %s" % d.choice([mstr(basename(t.depend_files[0])), "files(%s)" % mstr(basename(t.depend_files[0]))]))
    t.default = d.bool(0.6)
    if t.default:
        kw.append("build_by_default: true")
    elif d.bool(0.3):
        kw.append("build_by_default: false")
    t.always = d.bool(0.05)
    if t.always:
        kw.append("build_always_stale: true")
    t.env = d.bool(0.1)
    if t.env:
        kw.append("env: {'SOMEVAR': 'a b'}")
    W.emit(sub, "%s = custom_target('%s'%s, output: %s, command: [%s]%s)" % (
        name, name,
        "" if not inputs else ", input: " + (inputs[0] if len(inputs) == 1 and d.bool() else "[" + ", ".join(inputs) + "]"),
        mstr(outpats[0]) if nout == 1 and d.bool() else "[" + ", ".join(map(mstr, outpats)) + "]",
        ", ".join(cmd), "".join(", " + x for x in kw)))
    t.files = [W.s + "/" + x for x in t.depend_files]
    t.deps = dep_targets
    W.targets.append(t)


def all_targets(W):
    out = []
    for t in W.targets:
        out += t.gens
        out.append(t)
    return out


def producers(W):
    return {o: t for t in all_targets(W) for o in t.outs}


def inputs_of(t):
    """every path whose change makes t stale"""
    return list(t.ins) + [p for p in getattr(t, "content_ins", [])] + t.extra_deps + t.files + [o for u in t.deps for o in u.outs]


def content(W, prod, cache, path):
    if path not in cache:
        if path in prod:
            t = prod[path]
            parts = [x.encode() for x in t.extra] + [content(W, prod, cache, p) for p in getattr(t, "content_ins", t.ins)] + [content(W, prod, cache, p) for p in t.extra_deps]
            for k, o in enumerate(t.outs):
                cache[o] = rec.tool_out(t.name, k, parts)
        else:
            cache[path] = W.files[os.path.relpath(path, W.s)]
    return cache[path]


def closure(W, prod, roots):
    seen, todo = [], list(roots)
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.append(t)
        todo += [prod[p] for p in inputs_of(t) if p in prod]
    return seen


def case(d, ctx):
    W = World(d, ctx)
    gen(d, W)
    # subdir() calls come first: targets of deeper directories were made first
    root = W.src[""]
    head, body = root[:2], root[2:]
    if "sub" in W.subs:
        head.append("subdir('sub')")
    if "sub/deep" in W.subs:
        if "sub" in W.subs:
            W.src["sub"].insert(0, "subdir('deep')")
        else:
            head.append("subdir('sub/deep')")
    W.src[""] = head + body
    aliases = []
    if len(W.targets) > 1 and d.bool(0.2):
        a = d.sublist(W.targets, 0.4) or [W.targets[0]]
        W.emit("", "alias_target('al', %s)" % ", ".join(t.name for t in a))
        aliases = a
    if W.subproj:
        write(W.top + "/meson.build", "project('top')\nsubproject('sp')\n")
    for p, c in W.files.items():
        write(W.s + "/" + p, c)
    for q, l in W.src.items():
        write(W.s + "/" + (q + "/" if q else "") + "meson.build", "\n".join(l) + "\n")
    d.note("\n".join("== %s\n%s" % (q, "\n".join(l)) for q, l in W.src.items()))
    d.key = repr(W.src)
    prod = producers(W)
    d.nontrivial = len(all_targets(W)) > 2 or any(t.place for t in all_targets(W))
    d.sample = dict(targets=len(W.targets), generated=len(all_targets(W)) - len(W.targets), lines=W.src[""][2:4])
    E = {"RECLOG": W.w + "/log"}
    log = W.w + "/log/log"
    r = ctx.run([ctx.muon, "setup", W.b], cwd=W.top, env=E)
    if r.rc != 0:
        raise Fail("setup failed: " + r.why())
    if os.path.exists(log):
        raise Fail("the tool ran during setup")
    ninja = d.choice([[ctx.muon, "samu"], [ctx.muon, "samu"], [ctx.muon, "samu", "-j1"], ["ninja"]])
    d.note("build with %r" % ninja[-1:])
    up = {}        # target -> the state of its inputs it was last built from
    stale = set()

    def state(t):
        return tuple(stamp.get(p, 0) for p in inputs_of(t)) + (tuple(t.extra),)
    stamp = {}     # path -> version counter
    built = {}
    hist = []
    for step in range(d.int(1, 4)):
        # -- edits
        if step:
            time.sleep(0.012)       # longer than the granularity of file times
            for _ in d.many(0, 3, 0.6):
                k = d.int(0, 5)
                if k <= 2 and W.files:
                    p = d.choice(sorted(W.files))
                    if k == 0:
                        os.utime(W.s + "/" + p)
                    else:
                        W.ver += 1
                        W.files[p] = b"changed %d\n" % W.ver
                        write(W.s + "/" + p, W.files[p])
                    W.ver += 1
                    stamp[W.s + "/" + p] = W.ver
                    hist.append("edit %s" % p)
                elif k == 3:
                    outs = [o for o in prod if os.path.exists(o)]
                    if outs:
                        o = d.choice(sorted(outs))
                        os.unlink(o)
                        built.pop(prod[o], None)
                        hist.append("delete %s" % os.path.relpath(o, W.b))
                elif k == 4:
                    t = d.choice(W.targets)
                    if t.extra:
                        W.ver += 1
                        old, new = mstr(t.extra[0]), "y%d" % W.ver
                        for i, l in enumerate(W.src[t.sub]):
                            if l.startswith(t.name + " = "):
                                W.src[t.sub][i] = l.replace("'-x', " + old, "'-x', " + mstr(new), 1)
                        t.extra[0] = new
                        write(W.s + "/" + (t.sub + "/" if t.sub else "") + "meson.build", "\n".join(W.src[t.sub]) + "\n")
                        hist.append("change the command of %s" % t.name)
        # -- what to build
        goals = [t for t in W.targets if t.default]
        args = []
        if d.bool(0.3):
            if aliases and d.bool():
                goals, args = aliases, ["al"]
            else:
                t = d.choice(W.targets)
                goals, args = [t], [os.path.relpath(d.choice(t.outs), W.b)]
        hist.append("build %r" % args)
        d.note("; ".join(hist))
        need = closure(W, prod, goals)
        # the ones that are stale
        want = set()

        def visit(t, done):
            if t in done:
                return
            done.add(t)
            for p in inputs_of(t):
                if p in prod:
                    visit(prod[p], done)
            if t.always or t not in built or any(p in prod and prod[p] in want for p in inputs_of(t)) or built[t] != state(t):
                want.add(t)
        done = set()
        for t in need:
            visit(t, done)
        if os.path.exists(log):
            os.unlink(log)
        r = ctx.run(ninja + args, cwd=W.b, env=E)
        if r.rc != 0:
            raise Fail("build failed: " + r.why())
        ran = []
        for rargv, _, cwd in rec.read(log):
            ran.append(rargv[0].decode())
            check_args(W, d, rargv, cwd)
        dup = [x for x in ran if ran.count(x) > 1]
        if dup:
            raise Fail("%s ran %d times in one build" % (dup[0], ran.count(dup[0])))
        wn = set(t.name for t in want)
        if set(ran) != wn:
            raise Fail("build %r ran %s, but stale were %s" % (args, sorted(ran), sorted(wn)))
        pos = {x: i for i, x in enumerate(ran)}
        for t in want:
            for p in inputs_of(t):
                if p in prod and prod[p] in want and pos[prod[p].name] > pos[t.name]:
                    raise Fail("%s ran before %s, which it depends on" % (t.name, prod[p].name))
            W.ver += 1
            for o in t.outs:
                stamp[o] = W.ver
        for t in want:
            built[t] = state(t)
        cache = {}
        for t in need:
            for o in t.outs:
                if not os.path.isfile(o):
                    raise Fail("%s was not made" % os.path.relpath(o, W.b))
                got, e = open(o, "rb").read(), content(W, prod, cache, o)
                if got != e:
                    raise Fail("%s contains %r, its command and inputs give %r" % (os.path.relpath(o, W.b), got, e))
        if step:
            d.label("rebuild")
            if want:
                d.label("rebuild:some")
    for t in W.targets:
        for l in ("capture", "feed", "depfile", "always"):
            if getattr(t, l, None):
                d.label(l)
        if t.gens:
            d.label("generator")


def check_args(W, d, argv, cwd):
    by = {t.name: t for t in all_targets(W)}
    argv = [x.decode("utf8", "surrogateescape") for x in argv]
    t = by.get(argv[0])
    if not t:
        raise Fail("unknown command ran: %r" % argv)
    cwd = cwd.decode()
    if cwd != W.b:
        raise Fail("%s ran in %s, not in the build directory" % (t.name, cwd))

    def real(p):
        return os.path.normpath(os.path.join(cwd, p))
    # -x .. -p ..
    sect, cur = {}, None
    for a in argv[1:]:
        if a in ("-x", "-p", "-i", "-d", "-o"):
            cur = a
        else:
            sect.setdefault(cur, []).append(a)
    if sect.get("-x", []) != t.extra:
        raise Fail("%s got the extra arguments %r, declared were %r" % (t.name, sect.get("-x"), t.extra))
    pl = sect.get("-p", [])
    if isinstance(t.place, list) and t in W.targets:
        i = 0
        for a, e in zip(t.place_args, t.place):
            n = len(e[1]) if e[0] == "l" else 1
            got = pl[i:i + n]
            i += n
            if len(got) != n:
                raise Fail("%s: %s is missing" % (t.name, a))
            if e[0] == "p" and real(got[0]) != e[1]:
                raise Fail("%s: %s became %r, expected is %s" % (t.name, a, got[0], e[1]))
            if e[0] == "s" and got[0] != e[1]:
                raise Fail("%s: %s became %r, expected is %r" % (t.name, a, got[0], e[1]))
            if e[0] == "l" and [real(x) for x in got] != e[1]:
                raise Fail("%s: %s became %r, expected are %r" % (t.name, a, got, e[1]))
            if e[0] == "2":
                ok = got[0].startswith(e[1])
                rest = got[0][len(e[1]):]
                if not ok or not any(real(rest[:k]) == e[2] and real(rest[k + 1:]) == e[3] for k in range(len(rest)) if rest[k] == ":"):
                    raise Fail("%s: %s became %r" % (t.name, a, got[0]))
        if i != len(pl):
            raise Fail("%s got more arguments than declared: %r" % (t.name, pl))
    else:
        if [real(pl[0]), real(pl[1]), pl[2]] != t.place:
            raise Fail("%s: @BUILD_DIR@ @CURRENT_SOURCE_DIR@ @PLAINNAME@ became %r, expected are %r" % (t.name, pl, t.place))
    want = [] if t.feed else list(getattr(t, "content_ins", t.ins))
    got = [real(x) for x in sect.get("-i", []) if x != "-"]
    if t.feed and sect.get("-i", [None])[0] == "-":
        want = t.content_ins[1:]
    if got != want:
        raise Fail("%s got the inputs %r, declared were %r" % (t.name, got, want))
    if not t.capture and [real(x) for x in sect["-o"]] != t.outs:
        raise Fail("%s got the outputs %r, declared were %r" % (t.name, sect["-o"], t.outs))


if __name__ == "__main__":
    sys.exit(pbt.main(pbt.Spec(
        "C10", case, quick=2000, thorough=40000, setup=rec.setup_tool,
        rule="a case is a project with up to seven custom targets and the generators they consume, in up to three directories, and a history of up to four builds with edits in between; every command's arguments and working directory, the set of commands that ran, their order and the content of every output are compared with a model; non-trivial: more than two commands, or a placeholder outside of the input and output lists",
        assumptions=["distinct output names; a generated list is consumed by one target"],
    )))
