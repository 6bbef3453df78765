#!/usr/bin/env python3
"""C30: the command lines of compilers and linkers carry what options, projects, dependencies and targets declare, no more."""
import os, sys, re, shlex
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Fail, Reject, write, mstr

LANGS = ["c", "cpp"]
EXT = {"c": ".c", "cpp": ".cpp"}
BT = {"plain": (None, False), "debug": ("0", True), "debugoptimized": ("g", True), "release": ("3", False), "minsize": ("s", False)}
WARN = {"0": set(), "1": {"-Wall"}, "2": {"-Wall", "-Wextra"}, "3": {"-Wall", "-Wextra", "-Wpedantic"}}
DIRS = ["i0", "i1", "i2", "i2/deep"]
# name: (values, per project)
OPTS = {
    "warning_level": (["0", "1", "2", "3"], True),
    "werror": (["true", "false"], True),
    "c_std": (["none", "c99", "c11", "gnu17"], True),
    "cpp_std": (["none", "c++11", "c++17", "gnu++20"], True),
    "buildtype": (list(BT) + ["custom"], False),
    "optimization": (["plain", "0", "1", "2", "3", "g", "s"], False),
    "debug": (["true", "false"], False),
    "b_lto": (["true", "false"], False),
    "b_ndebug": (["true", "false", "if-release"], False),
    "b_sanitize": (["none", "address", "undefined", "address,undefined"], False),
    "b_staticpic": (["true", "false"], False),
    "b_pie": (["true", "false"], False),
    "b_colorout": (["auto", "always", "never"], False),
}
DEF = {"warning_level": "3", "werror": "false", "c_std": "none", "cpp_std": "none", "buildtype": "debugoptimized", "optimization": "g", "debug": "true",
       "b_lto": "false", "b_ndebug": "false", "b_sanitize": "none", "b_staticpic": "true", "b_pie": "false", "b_colorout": "always"}
RANK = {"dflt": 0, "project": 1, "override": 2, "cmdline": 3}


class Opts:
    """option values with where they come from"""

    def __init__(self, up=None):
        self.v = dict(up.v) if up else {k: (v, 0) for k, v in DEF.items()}

    def set(self, k, v, rank):
        if rank >= self.v[k][1]:
            self.v[k] = (v, rank)

    def __getitem__(self, k):
        return self.v[k][0]

    def rank(self, k):
        return self.v[k][1]


def resolve_bt(o):
    """(optimization, debug); None: the combination is left open"""
    b, r = o["buildtype"], o.rank("buildtype")
    if r == 0 or b == "custom":
        op, dbg = o["optimization"], o["debug"] == "true"
    else:
        op, dbg = BT[b]
        for k in ("optimization", "debug"):
            if 0 < o.rank(k) < r:
                return None
        if o.rank("optimization"):
            op = o["optimization"]
        if o.rank("debug"):
            dbg = o["debug"] == "true"
    return (None if op == "plain" else op), dbg


class Dep:
    def __init__(self):
        self.cargs, self.largs, self.incs, self.link, self.deps, self.whole = [], [], [], [], [], []

    # what it contributes, own things first
    def all_c(self):
        return self.cargs + [a for x in self.deps for a in x.all_c()]

    def all_inc(self):
        return self.incs + [a for x in self.deps for a in x.all_inc()]

    def all_l(self):
        """link arguments in order; static libraries linked contribute theirs"""
        r = list(self.largs)
        for t in self.link + self.whole:
            r += t.exported_l()
        return r + [a for x in self.deps for a in x.all_l()]


class T:
    def exported_l(self):
        """static libraries pass on what their dependencies need"""
        return self.inherited_l() if self.kind == "static" else []

    def inherited_l(self):
        r = []
        for t in self.link:
            r += t.exported_l()
        for x in self.deps:
            r += x.all_l()
        return r


class World:
    def __init__(self, d, ctx, root):
        self.d, self.ctx, self.root, self.n = d, ctx, root, 0
        self.targets = []

    def m(self, p="-DM"):
        self.n += 1
        return "%s%d" % (p, self.n)

    def margs(self, lo=1, hi=3, p="-DM"):
        d = self.d
        return d.list(lambda: "-pthread" if d.bool(0.1) else self.m(p), lo, hi)


def split_pthread(l):
    """-pthread may be given fewer times than asked for, other arguments not"""
    return [x for x in l if x != "-pthread"], "-pthread" in l


def mlist(d, l):
    if len(l) == 1 and d.bool(0.3):
        return mstr(l[0])
    return "[%s]" % ", ".join(mstr(x) for x in l)


def project(w, name, base, opts, langs, parent):
    """writes the build definitions of one project; returns the text of its meson.build"""
    d = w.d
    src = w.root + "/src" + ("/" + base if base else "")
    P = type("P", (), {})()
    P.name, P.base, P.opts, P.langs = name, base, opts, langs
    P.args = {l: [] for l in LANGS}
    P.largs = {l: [] for l in LANGS}
    P.incs = {l: [] for l in LANGS}
    P.tgts = []
    out = []
    for x in DIRS:
        os.makedirs(src + "/" + x, exist_ok=True)
        write(src + "/" + x + "/x.h", "")
    deps, incobjs = [], []
    P.sep = d.bool(0.5)

    def path(rel):
        return os.path.normpath("src/" + (base + "/" if base else "") + rel) if rel else "src" + ("/" + base if base else "")

    cur = [""]  # the current directory of the project

    def pair(rel, system):
        """a directory in the source tree and its twin in the build tree"""
        r = os.path.normpath(os.path.join(cur[0], rel)) if (cur[0] or rel) else "."
        full = os.path.normpath(os.path.join(base, r)) if base else r
        return [("B", full, system), ("S", full, system)]

    def incs(lo=1, hi=3):
        """some include directories: (text, entries)"""
        t, e = [], []
        for _ in range(d.int(lo, hi)):
            k = d.weighted([(4, "str"), (4 if incobjs else 0, "obj"), (2, "call")])
            if k == "str" and not cur[0]:
                x = d.choice(DIRS)
                t.append(mstr(x))
                e += pair(x, False)
            elif k == "obj" and incobjs:
                v, ent = d.choice(incobjs)
                t.append(v)
                e += ent
            else:
                x = d.sublist(DIRS if not cur[0] else ["deep"] if cur[0] == "i2" else ["."], 0.5) or ["."]
                s = d.bool(0.35)
                t.append("include_directories(%s%s)" % (", ".join(mstr(q) for q in x), ", is_system: true" if s else (", is_system: false" if d.bool(0.2) else "")))
                for q in x:
                    e += pair(q, s)
        return ("[%s]" % ", ".join(t) if len(t) > 1 or d.bool(0.5) else t[0]), e

    def stmt_args():
        kind = d.choice(["project", "project", "project_link", "global", "global_link", "project_dep"])
        ls = d.sublist(langs, 0.6) or langs[:1]
        lang = mlist(d, ls)
        if kind.startswith("global"):
            if parent is not None or P.tgts or w.sub_done:
                return
            a = w.margs(1, 3, "-DLG" if "link" in kind else "-DG")
            for l in ls:
                (w.glargs if "link" in kind else w.gargs)[l] += a
            out.append("add_%s_arguments(%s, language: %s)" % (kind, mlist(d, a), lang))
        elif kind == "project_dep":
            dd = [x for x in deps if not x.link and not x.deps and x.var]
            if not dd or P.tgts:
                return
            x = d.choice(dd)
            out.append("add_project_dependencies(%s, language: %s)" % (x.var, lang))
            for l in ls:
                P.args[l] += x.all_c()
                P.largs[l] += x.all_l()
                P.incs[l] += x.all_inc()
            d.label("add_project_dependencies")
        else:
            if P.tgts:
                return
            a = w.margs(1, 3, "-DLP" if "link" in kind else "-DP")
            for l in ls:
                (P.largs if "link" in kind else P.args)[l] += a
            out.append("add_%s_arguments(%s, language: %s)" % (kind, ", ".join(mstr(x) for x in a) if d.bool() else mlist(d, a), lang))

    def stmt_inc():
        if len(incobjs) < 4:
            v = "inc%d" % len(incobjs)
            if cur[0]:
                return
            t, e = [], []
            s = d.bool(0.4)
            for x in d.sublist(DIRS, 0.5) or ["i0"]:
                t.append(mstr(x))
                e += pair(x, s)
            out.append("%s%s = include_directories(%s%s)" % (name, v, ", ".join(t), ", is_system: true" if s else ""))
            incobjs.append((name + v, e))

    def stmt_dep():
        x = Dep()
        kw = []
        if d.bool(0.6):
            x.cargs = w.margs(1, 3, "-DD")
            kw.append("compile_args: " + mlist(d, x.cargs))
        if d.bool(0.5):
            x.largs = w.margs(1, 2, "-DLD")
            kw.append("link_args: " + mlist(d, x.largs))
        if d.bool(0.5):
            t, x.incs = incs()
            kw.append("include_directories: " + t)
        libs = [t for t in P.tgts if t.kind in ("static", "shared")]
        if libs and d.bool(0.4):
            x.link = [d.choice(libs)]
            kw.append("link_with: " + x.link[0].var)
        if deps and d.bool(0.4):
            x.deps = d.shuffle(deps)[:d.int(1, 2)]
            kw.append("dependencies: " + ("[%s]" % ", ".join(y.var for y in x.deps)))
        x.var = "%sdep%d" % (name, len(deps))
        out.append("%s = declare_dependency(%s)" % (x.var, ", ".join(d.shuffle(kw))))
        k = d.weighted([(7, None), (1, "system"), (1, "partial")])
        if k == "system":
            y = Dep()
            inc = x.all_inc()
            y.cargs, y.largs, y.link, y.deps = x.all_c(), x.all_l(), [], []
            y.link_all = x
            to = d.choice(["system", "non-system", "preserve"])
            y.incs = [(a, b, {"system": True, "non-system": False}.get(to, s)) for a, b, s in inc]
            y.var = x.var + "s"
            out.append("%s = %s.as_system(%s)" % (y.var, x.var, mstr(to) if to != "system" or d.bool() else ""))
            deps.append(x)
            x = y
            d.label("as_system")
        elif k == "partial":
            y = Dep()
            y.var = x.var + "p"
            ks = d.sublist(["compile_args", "link_args", "includes"], 0.5)
            y.cargs = x.all_c() if "compile_args" in ks else []
            y.largs = x.all_l() if "link_args" in ks else []
            y.incs = x.all_inc() if "includes" in ks else []
            out.append("%s = %s.partial_dependency(%s)" % (y.var, x.var, ", ".join("%s: true" % q for q in ks)))
            deps.append(x)
            x = y
            d.label("partial")
        deps.append(x)

    def stmt_target():
        t = T()
        t.P = P
        t.kind = d.weighted([(4, "exe"), (3, "static"), (3, "shared"), (1, "module")])
        t.name = "t%d%s" % (len(w.targets), name)
        t.var = "v_" + t.name
        t.dir = cur[0]
        t.langs = d.sublist(langs, 0.6) or [d.choice(langs)]
        t.srcs = []
        for l in t.langs:
            for i in range(d.int(1, 2)):
                f = "%s_%d%s" % (t.name, i, EXT[l])
                write(os.path.join(src, cur[0], f), "")
                t.srcs.append((f, l))
        t.asm = None
        if d.bool(0.15):
            t.asm = t.name + "_s.S"
            write(os.path.join(src, cur[0], t.asm), "")
            d.label("assembly")
        t.srcs = d.shuffle(t.srcs)
        t.gen = d.bool(0.15)
        kw = []
        t.args = {l: [] for l in LANGS}
        for l in LANGS:
            if d.bool(0.4):
                t.args[l] = w.margs(1, 3, "-DT")
                kw.append("%s_args: %s" % (l, mlist(d, t.args[l])))
        t.largs = []
        if d.bool(0.35) and t.kind != "static" or d.bool(0.1):
            t.largs = w.margs(1, 2, "-DLT")
            kw.append("link_args: " + mlist(d, t.largs))
        t.implicit = True
        if d.bool(0.3):
            t.implicit = d.bool(0.3)
            kw.append("implicit_include_directories: " + ("true" if t.implicit else "false"))
        t.incs = pair(".", False) if t.implicit else []
        if d.bool(0.5):
            tx, e = incs()
            t.incs = t.incs + e
            kw.append("include_directories: " + tx)
        t.deps = d.shuffle(deps)[:d.weighted([(3, 0), (4, 1), (3, 2)])]
        if t.deps:
            kw.append("dependencies: " + ("[%s]" % ", ".join(x.var for x in t.deps) if len(t.deps) > 1 or d.bool() else t.deps[0].var))
        libs = [x for x in P.tgts if x.kind in ("static", "shared")]
        t.link = d.shuffle(libs)[:1] if libs and d.bool(0.35) else []
        if t.link:
            kw.append("link_with: " + t.link[0].var)
        t.opts = Opts(opts)
        if d.bool(0.5):
            ov = {}
            for k in d.shuffle(list(OPTS))[:d.int(1, 4)]:
                ov[k] = d.choice(OPTS[k][0])
            for k, v in ov.items():
                t.opts.set(k, v, RANK["override"])
            kw.append("override_options: " + mlist(d, ["%s=%s" % x for x in ov.items()]))
            d.label("override_options")
        t.pic = t.pie = None
        if t.kind == "static" and d.bool(0.2):
            t.pic = d.bool()
            kw.append("pic: " + str(t.pic).lower())
        if t.kind == "exe" and d.bool(0.2):
            t.pie = d.bool()
            kw.append("pie: " + str(t.pie).lower())
        t.vis = None
        if d.bool(0.2):
            t.vis = d.choice(["default", "hidden", "internal", "protected", "inlineshidden", ""])
            kw.append("gnu_symbol_visibility: " + mstr(t.vis))
        t.export = t.kind == "exe" and d.bool(0.15)
        if t.export:
            kw.append("export_dynamic: true")
        fn = {"exe": "executable", "static": "static_library", "shared": "shared_library", "module": "shared_module"}[t.kind]
        ss = [mstr(f) for f, _ in t.srcs]
        if t.asm:
            ss.insert(d.int(0, len(ss)), mstr(t.asm))
        if t.gen:
            # headers made for the target alone
            out.append("gen_%s = generator(find_program('cp'), output: '@BASENAME@.h', arguments: ['@INPUT@', '@OUTPUT@'])" % t.name)
            ss.insert(d.int(0, len(ss)), "gen_%s.process(%s)" % (t.name, mstr(t.srcs[0][0])))
            d.label("generated header")
        out.append("%s = %s(%s, %s%s)" % (t.var, fn, mstr(t.name), ", ".join(ss), "".join(", " + k for k in d.shuffle(kw))))
        P.tgts.append(t)
        w.targets.append(t)

    st = [(3, stmt_args), (2, stmt_inc), (3, stmt_dep), (4, stmt_target)]
    # arguments come before targets
    for _ in range(d.int(0, 3)):
        stmt_args()
    for _ in d.many(2, 10, 0.85):
        d.weighted(st)()
        if parent is None and w.want_sub and not w.sub_done and P.tgts == [] and d.bool(0.3) or (parent is None and w.want_sub and not w.sub_done and d.bool(0.15)):
            w.sub_done = True
            so = Opts()
            for k, v in opts.v.items():
                if not OPTS[k][1]:
                    so.v[k] = v
            kw = ""
            # per-project options: what the parent has, unless the subproject says something
            own = {k: d.choice(OPTS[k][0]) for k in OPTS if OPTS[k][1] and d.bool(0.4)}
            pas = {k: d.choice(OPTS[k][0]) for k in OPTS if OPTS[k][1] and d.bool(0.2)}
            for k in OPTS:
                if OPTS[k][1]:
                    so.v[k] = (opts[k], 0)
                    if k in own:
                        so.v[k] = (own[k], 1)
                    if k in pas:
                        so.v[k] = (pas[k], 1)
                    if k in w.subcmd:
                        so.v[k] = (w.subcmd[k], RANK["cmdline"])
            if pas:
                kw = ", default_options: %s" % mlist(d, ["%s=%s" % x for x in pas.items()])
            os.makedirs(w.root + "/src/subprojects/sub")
            sl = d.sublist(LANGS, 0.6) or ["c"]
            tx = project(w, "sub", "subprojects/sub", so, sl, P)
            write(w.root + "/src/subprojects/sub/meson.build", "project('sub', %s%s)\n%s" % (
                ", ".join(mstr(l) for l in sl), ", default_options: %s" % mlist(d, ["%s=%s" % x for x in own.items()]) if own else "", tx))
            out.append("subproject('sub'%s)" % kw)
            d.label("subproject")
    if not P.tgts:
        stmt_target()
    # a subdirectory with targets of its own
    if d.bool(0.3):
        sd = d.choice(["i2", "i0"])
        main, out = out, []
        cur[0] = sd
        for _ in range(d.int(1, 2)):
            d.weighted([(1, stmt_dep), (3, stmt_target)])()
        write(src + "/" + sd + "/meson.build", "\n".join(out) + "\n")
        out = main
        out.append("subdir(%s)" % mstr(sd))
        cur[0] = ""
        d.label("subdir")
    return "\n".join(out) + "\n"


def case(d, ctx):
    root = ctx.fresh()
    w = World(d, ctx, root)
    os.makedirs(root + "/src")
    langs = d.weighted([(2, ["c"]), (2, ["c", "cpp"]), (1, ["cpp"])])
    w.gargs, w.glargs = {l: [] for l in LANGS}, {l: [] for l in LANGS}
    w.want_sub, w.sub_done = d.bool(0.35), False
    opts = Opts()
    do, cmd = {}, {}
    for k in OPTS:
        if d.bool(0.15):
            do[k] = d.choice(OPTS[k][0])
            opts.set(k, do[k], RANK["project"])
    for k in OPTS:
        if d.bool(0.12):
            cmd[k] = d.choice(OPTS[k][0])
            opts.set(k, cmd[k], RANK["cmdline"])
    w.subcmd = {k: d.choice(OPTS[k][0]) for k in OPTS if OPTS[k][1] and d.bool(0.1)} if w.want_sub else {}
    w.oargs = {l: w.margs(1, 2, "-DO") if d.bool(0.25) else [] for l in LANGS}
    w.olargs = {l: w.margs(1, 2, "-DLO") if d.bool(0.25) else [] for l in LANGS}
    text = project(w, "", "", opts, langs, None)
    write(root + "/src/meson.build", "project('p', %s%s)\n%s" % (
        ", ".join(mstr(l) for l in langs), ", default_options: %s" % mlist(d, ["%s=%s" % x for x in do.items()]) if do else "", text))
    argv = ["-D%s=%s" % x for x in cmd.items()]
    if w.sub_done:
        argv += ["-Dsub:%s=%s" % x for x in w.subcmd.items()]
    env = dict(CC="gcc", CXX="g++")
    for l, cf in (("c", "CFLAGS"), ("cpp", "CXXFLAGS")):
        if w.olargs[l]:
            argv.append("-D%s_link_args=%s" % (l, ",".join(w.olargs[l])))
        if w.oargs[l]:
            if d.bool(0.4):
                env[cf] = " ".join(w.oargs[l])
                # linking uses them too, unless something more important says otherwise
                w.olargs[l] = w.olargs[l] or w.oargs[l]
            else:
                argv.append("-D%s_args=%s" % (l, ",".join(w.oargs[l])))
    argv = d.shuffle(argv)
    files = ["-- %s\n%s" % (os.path.relpath(p, root), open(p).read()) for p in
             [root + "/src/meson.build", root + "/src/i2/meson.build", root + "/src/i0/meson.build", root + "/src/subprojects/sub/meson.build",
              root + "/src/subprojects/sub/i2/meson.build", root + "/src/subprojects/sub/i0/meson.build"] if os.path.exists(p)]
    show = "muon setup %s %s\n%s" % (argv, env, "\n".join(files))
    d.sample = show
    r = ctx.run([ctx.muon, "setup"] + argv + [root + "/build"], cwd=root + "/src", merge=True, env=env)
    if r.crashed or r.rc != 0:
        raise Fail("setup failed: %s\n%s\n%s" % (r.why(), r.out[-1500:].decode("utf-8", "replace"), show))
    r = ctx.run([ctx.muon, "samu", "-n", "-v"], cwd=root + "/build", merge=False)
    if r.crashed or r.rc != 0:
        raise Fail("samu -n -v failed: %s\n%s" % (r.out[-1500:], show))
    cmds = {}
    for l in r.out.decode().split("\n"):
        m = re.match(r"\[\d+/\d+\] (.*)", l)
        if m:
            a, l = [], shlex.split(m.group(1))
            for x in l:
                if a and a[-1] == "-D":
                    a[-1] = "-D" + x
                else:
                    a.append(x)
            if "-o" in a:
                cmds[os.path.normpath(os.path.join(root + "/build", a[a.index("-o") + 1]))] = a
    d.nontrivial = len(w.targets) > 1
    d.key = show
    for t in w.targets:
        check(w, d, t, cmds, show)


def flags(a, p):
    return [x for x in a if x.startswith(p)]


def check(w, d, t, cmds, show):
    P, o, root = t.P, t.opts, w.root
    bdir = os.path.normpath(os.path.join(root, "build", P.base, t.dir))
    sdir = os.path.normpath(os.path.join(root, "src", P.base, t.dir))
    fname = {"exe": t.name, "static": "lib%s.a" % t.name, "shared": "lib%s.so" % t.name, "module": "lib%s.so" % t.name}[t.kind]
    bt = resolve_bt(o)

    def bad(what, a, want=None):
        raise Fail("%s of %s: %s%s\ncommand: %s\n%s" % (what[0], t.name, what[1], "" if want is None else ", not %s" % (want,), a, show))
    lto = o["b_lto"] == "true"
    san = [] if o["b_sanitize"] == "none" else ["-fsanitize=" + o["b_sanitize"]]
    dc = [a for x in t.deps for a in x.all_c()]
    for f, l in t.srcs + ([(t.asm, "S")] if t.asm else []):
        srcf = os.path.join(sdir, f)
        a = [c for k, c in cmds.items() if "-c" in c and os.path.normpath(os.path.join(root + "/build", c[c.index("-c") + 1])) == srcf]
        if len(a) != 1:
            raise Fail("%s is compiled by %d commands\n%s" % (f, len(a), show))
        a = a[0]
        w_ = lambda msg: ("the compile command of %s" % f, msg)
        if l == "S":
            user = [x for x in a if re.match(r"-D[MGPDTO]\d+$|-pthread$", x)]
            want = dc + (t.args["c"] or t.args["cpp"])
            if split_pthread(user) != split_pthread(want):
                bad(w_("has the arguments %s" % user), a, want)
            continue
        if a[0] != {"c": "gcc", "cpp": "g++"}[l]:
            bad(w_("runs %s" % a[0]), a)
        std = o["c_std" if l == "c" else "cpp_std"]
        got = flags(a, "-std=")
        if got != ([] if std == "none" else ["-std=" + std]):
            bad(w_("has %s" % got), a, "-std of %s" % std)
        if bt is not None:
            got = flags(a, "-O")
            if got != ([] if bt[0] is None else ["-O" + bt[0]]):
                bad(w_("has %s" % got), a, "-O%s" % bt[0])
            if ("-g" in a) != bt[1]:
                bad(w_("-g %s" % ("-g" in a)), a, bt[1])
        got = {x for x in a if re.match(r"-W(all|extra|pedantic)$", x)}
        if got != WARN[o["warning_level"]]:
            bad(w_("has %s" % sorted(got)), a, sorted(WARN[o["warning_level"]]))
        for fl, on in (("-Werror", o["werror"] == "true"), ("-flto", lto),
                       ("-DNDEBUG", o["b_ndebug"] == "true" or (o["b_ndebug"] == "if-release" and o["buildtype"] == "release"))):
            if o["b_ndebug"] == "if-release" and fl == "-DNDEBUG" and (o["buildtype"] in ("custom", "plain") or o.rank("buildtype") == 0):
                continue
            if a.count(fl) != (1 if on else 0):
                bad(w_("has %s %d times" % (fl, a.count(fl))), a, int(on))
        got = flags(a, "-fsanitize")
        if got != san:
            bad(w_("has %s" % got), a, san)
        got = flags(a, "-fdiagnostics-color")
        if got != ([] if o["b_colorout"] == "never" else ["-fdiagnostics-color=" + o["b_colorout"]]):
            bad(w_("has %s" % got), a, "b_colorout=" + o["b_colorout"])
        pic = t.kind in ("shared", "module") or (t.kind == "static" and (t.pic if t.pic is not None else o["b_staticpic"] == "true"))
        pie = t.kind == "exe" and (t.pie if t.pie is not None else o["b_pie"] == "true")
        got = [x for x in a if x.lower() in ("-fpic", "-fpie")]
        if [x.lower() for x in got] != ["-fpic"] * pic + ["-fpie"] * pie:
            bad(w_("has %s" % got), a, "pic %s, pie %s" % (pic, pie))
        got = flags(a, "-fvisibility")
        want = [] if not t.vis else ["-fvisibility=hidden", "-fvisibility-inlines-hidden"] if t.vis == "inlineshidden" else ["-fvisibility=" + t.vis]
        if got != want:
            bad(w_("has %s" % got), a, want)
        # declared arguments: each group complete and in order, and the more specific ones last
        user = [x for x in a if re.match(r"-D[MGPDTO]\d+$|-pthread$", x)]
        want = w.oargs[l] + w.gargs[l] + P.args[l] + dc + t.args[l]
        if split_pthread(user) != split_pthread(want):
            bad(w_("has the arguments %s" % user), a, want)
        # include directories
        got, i = [], 0
        while i < len(a):
            m = re.match(r"(-I|-isystem)(.*)", a[i], re.S)
            if m:
                x = m.group(2)
                if not x:
                    i += 1
                    x = a[i]
                got.append((os.path.normpath(os.path.join(root + "/build", x)), m.group(1) == "-isystem"))
            i += 1
        want = [(os.path.join(bdir, fname + ".p"), False)] if t.gen else []
        for k, p, s in t.incs + [e for x in t.deps for e in x.all_inc()] + P.incs[l]:
            full = os.path.normpath(os.path.join(root, {"B": "build", "S": "src"}[k], p))
            if os.path.isdir(full) and (full, s) not in want:
                want.append((full, s))
        if t.gen:
            # a second mention of the directory changes nothing
            got = [x for i, x in enumerate(got) if i == 0 or x != got[0]]
        if got != want:
            rel = lambda q: [(os.path.relpath(x, root), s) for x, s in q]
            bad(w_("searches %s" % rel(got)), a, rel(want))
    if t.kind == "static":
        return
    a = cmds.get(bdir + "/" + fname)
    if a is None:
        raise Fail("%s is not linked\n%s" % (fname, show))
    w_ = lambda msg: ("the link command", msg)
    # C++ in shared libraries that are linked may or may not count
    ll = "cpp" if uses_cpp(t, False) or ((t.asm or uses_cpp(t, True)) and a[0] == "g++") else "c"
    if len(P.langs) > 1 or ll == P.langs[0]:
        if a[0] != {"c": "gcc", "cpp": "g++"}[ll]:
            bad(w_("runs %s" % a[0]), a)
    elif True:
        ll = P.langs[0]
    if flags(a, "-flto") != ["-flto"] * lto:
        bad(w_("has %s" % flags(a, "-flto")), a, lto)
    if flags(a, "-fsanitize") != san:
        bad(w_("has %s" % flags(a, "-fsanitize")), a, san)
    if ("-shared" in a) != (t.kind in ("shared", "module")):
        bad(w_("-shared %s" % ("-shared" in a)), a)
    got = flags(a, "-Wl,-soname")
    if got != (["-Wl,-soname," + fname] if t.kind != "exe" else []):
        bad(w_("has %s" % got), a, "-Wl,-soname," + fname)
    if ("-Wl,--no-undefined" in a) != (t.kind != "module"):
        bad(w_("--no-undefined: %s" % ("-Wl,--no-undefined" in a)), a)
    if any("export-dynamic" in x for x in a) != t.export:
        bad(w_("-export-dynamic: %s" % (not t.export)), a)
    for pre, want in (("L?O", w.olargs[ll]), ("LG", w.glargs[ll])):
        got = [x for x in a if re.match(r"-D%s\d+$" % pre, x)]
        if got != [x for x in want if x != "-pthread"]:
            bad(w_("has %s" % got), a, want)
    got = [x for x in a if re.match(r"-DL(P|D|T)\d+$|-pthread$", x)]
    want = t.inherited_l() + t.largs + [x for x in w.olargs[ll] + w.glargs[ll] if x == "-pthread"] + P.largs[ll]
    if split_pthread(sorted(got)) != split_pthread(sorted(want)):
        bad(w_("has the arguments %s" % got), a, want)
    if [x for x in got if x.startswith("-DLT")] != [x for x in t.largs if x != "-pthread"]:
        bad(w_("has %s" % got), a, "%s in order" % t.largs)
    stray = [x for x in a if re.match(r"-D[MGPDT]\d+$", x)]
    if stray:
        bad(w_("has the compile arguments %s" % stray), a)


def uses_cpp(t, shared):
    if "cpp" in t.langs:
        return True
    libs = list(t.link)

    def of(x):
        r = list(x.link)
        for y in x.deps + ([x.link_all] if hasattr(x, "link_all") else []):
            r += of(y)
        return r
    for x in t.deps:
        libs += of(x)
    return any((shared or l.kind == "static") and uses_cpp(l, shared) for l in libs)


if __name__ == "__main__":
    pbt.main(pbt.Spec("C30", case, quick=2500, thorough=40000, builds=("fast",),
        rule="the project has at least two targets; distinct by its build files and command line"))
