#!/usr/bin/env python3
"""C24: generated pkg-config files, read by pkg-config, muon and the linker, against what was declared."""
import os, re, shlex, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Fail, Reject, write, mstr

EXT = ["exta", "extb"]
DIROPTS = dict(bindir="bin", datadir="share", includedir="include", libdir="lib", libexecdir="libexec", localedir="share/locale",
               mandir="share/man", sysconfdir="/etc", sbindir="sbin")


def setup(ctx):
    """two prebuilt external packages, as archive and as shared library"""
    r = ctx.root + "/ext"
    os.makedirs(r + "/pc", exist_ok=True)
    for i, e in enumerate(EXT):
        write(r + "/%s.c" % e, "int %s(void){return %d;}\n" % (e, 1000 * (i + 1)))
        write(r + "/inc_%s/%s.h" % (e, e), "int %s(void);\n" % e)
        for cmd in (["cc", "-c", "-fPIC", e + ".c", "-o", e + ".o"], ["ar", "rcs", "lib%s.a" % e, e + ".o"],
                    ["cc", "-shared", "-Wl,-soname,lib%s.so" % e, "-o", "lib%s.so" % e, e + ".o"]):
            x = ctx.run(cmd, cwd=r)
            if x.rc:
                raise RuntimeError(out(x))
        write(r + "/pc/%s.pc" % e, "Name: %s\nDescription: d\nVersion: %d.5\nLibs: -L%s -l%s\nCflags: -I%s/inc_%s\n" % (e, i + 1, r, e, r, e))


def out(r):
    return (r.out + r.err).decode("utf8", "replace")


class Lib:
    pass


def declist(d, items):
    return "[%s]" % ", ".join(items)


def parse(text):
    vs, fields = {}, {}
    for l in text.split("\n"):
        if not l.strip():
            continue
        m = re.match(r"([A-Za-z0-9_.]+)(=|:) ?(.*)$", l)
        if not m:
            raise Fail("unreadable line %r in %r" % (l, text))
        t = vs if m[2] == "=" else fields
        if m[1] in t:
            raise Fail("%s is given twice in %r" % (m[1], text))
        t[m[1]] = m[3]
    return vs, fields


def expand(s, vs, depth=0):
    if depth > 9:
        raise Fail("recursive variables")
    return re.sub(r"\$\{(\w+)\}", lambda m: expand(vs[m[1]], vs, depth + 1) if m[1] in vs else "<undefined %s>" % m[1], s)


def flags(s):
    """split as pkg-config does: \\ keeps a space"""
    return shlex.split(s) if s else []


def norm(p):
    return os.path.normpath(p)


def case(d, ctx):
    w = ctx.fresh()
    s, b = w + "/s", w + "/b"
    ext = ctx.root + "/ext"
    prefix = w + d.choice(["/inst", "/inst", "/inst", "/in st"])
    opts = dict(DIROPTS)
    sets = ["-Dprefix=" + prefix]
    opts["libdir"] = d.weighted([(4, "lib"), (2, "lib/x"), (1, prefix + "/lib64"), (1, w + "/other lib")])
    sets.append("-Dlibdir=" + opts["libdir"])
    if d.bool(0.25):
        opts["includedir"] = d.choice(["inc", prefix + "/inc", w + "/otherinc"])
        sets.append("-Dincludedir=" + opts["includedir"])
    if d.bool(0.25):
        opts["datadir"] = d.choice(["dat a", prefix + "/d", w + "/share"])
        sets.append("-Ddatadir=" + opts["datadir"])
    if d.bool(0.15):
        opts["sysconfdir"] = d.choice(["etc", "/etc"])
        sets.append("-Dsysconfdir=" + opts["sysconfdir"])
    deflib = d.choice(["static", "shared", "both"])
    sets.append("-Ddefault_library=" + deflib)
    pver = d.choice([None, "1.0", "0.1-rc1", "3"])
    L = ["project('proj', 'c'%s)" % (", version: '%s'" % pver if pver else ""), "pkg = import('pkgconfig')", "cc = meson.get_compiler('c')"]
    dirof = {k: norm(v if v.startswith("/") else prefix + "/" + v) for k, v in opts.items()}
    dirof["prefix"] = prefix

    libs, deps, pcs = [], [], []
    names = set()
    if d.bool(0.5):
        L.append("exta = dependency('exta')")
    if d.bool(0.4):
        L.append("extb = dependency('extb'%s)" % d.choice(["", ", version: '>=2'", ", static: true"]))
    exts = [e for e in EXT if any(x.startswith(e) for x in L)]

    def addlib():
        l = Lib()
        i = len(libs)
        l.i = i
        l.name = d.weighted([(5, "l%d" % i), (1, "lib%d" % i), (1, "l%d.x" % i), (1, "l-%d+" % i)])
        l.ctor = d.choice(["library", "static_library", "shared_library", "both_libraries"])
        l.kind = {"library": deflib, "static_library": "static", "shared_library": "shared", "both_libraries": "both"}[l.ctor]
        l.inst = l.kind != "static" or d.bool(0.7)
        l.lw = [x for x in d.sublist(libs, 0.3)]
        l.lwhole = []
        l.deps = []
        for x in list(l.lw):
            if x.kind == "static" and not x.inst and x.ok_whole and d.bool(0.4):
                l.lw.remove(x)
                l.lwhole.append(x)
        for e in exts:
            if d.bool(0.25):
                l.deps.append(("ext", e))
        if d.bool(0.15):
            l.deps.append(("threads", None))
        if d.bool(0.15):
            l.deps.append(("m", None))
        for x in deps:
            if d.bool(0.2):
                l.deps.append(("dep", x))
        l.ok_whole = True
        l.pc = None
        l.subdir = None
        l.soname = d.bool(0.15) and l.kind == "shared"
        f = "%s%d" % ("fn", i)
        l.fn = f
        calls = [x.fn for x in l.lw + l.lwhole]
        for k, x in l.deps:
            if k == "ext":
                calls.append(x)
            elif k == "dep" and x.fn:
                calls.append(x.fn)
        calls = list(dict.fromkeys(calls))
        l.calls = calls
        body = "".join("int %s(void);\n" % c for c in calls)
        pre = ""
        if any(k == "m" for k, _ in l.deps):
            pre = "#include <math.h>\nstatic volatile double v%d = 4.0;\n" % i
            body += "static int mm(void){return (int)pow(v%d, 1.0) - 4;}\n" % i
        body += "int %s(void){return %d%s%s;}\n" % (f, 1 << (i % 8), "".join(" + %s()" % c for c in calls), " + mm()" if pre else "")
        write(s + "/%s.c" % f, pre + body)
        kw = []
        if l.lw:
            kw.append("link_with: [%s]" % ", ".join(x.var for x in l.lw))
        if l.lwhole:
            kw.append("link_whole: [%s]" % ", ".join(x.var for x in l.lwhole))
        if l.deps:
            kw.append("dependencies: [%s]" % ", ".join(depexpr(x) for x in l.deps))
        if l.inst:
            kw.append("install: true")
        l.dir = None
        if l.inst and d.bool(0.12):
            l.dir = d.choice(["lib/own", prefix + "/priv lib", w + "/faraway", opts["libdir"]])
            kw.append("install_dir: %s" % mstr(l.dir))
        if l.soname:
            kw.append("version: '1.2.3'")
        l.var = "v_" + f
        L.append("%s = %s(%s, '%s.c'%s)" % (l.var, l.ctor, mstr(l.name), f, "".join(", " + k for k in kw)))
        libs.append(l)
        return l

    def depexpr(x):
        k, v = x
        return {"ext": lambda: v, "threads": lambda: "dependency('threads')", "m": lambda: "cc.find_library('m')", "dep": lambda: v.var}[k]()

    class Dep:
        pass

    def adddep():
        x = Dep()
        x.i = len(deps)
        x.var = "dep%d" % x.i
        x.lw = d.sublist(libs, 0.4)[:1]
        x.lwhole = []
        x.deps = [("ext", e) for e in exts if d.bool(0.2)]
        x.args = ["-DDEP%d=%s" % (x.i, d.choice(["1", "a b", "x"]))] if d.bool(0.5) else []
        x.fn = x.lw[0].fn if x.lw else None
        kw = []
        if x.lw:
            kw.append("link_with: " + x.lw[0].var)
        if x.deps:
            kw.append("dependencies: [%s]" % ", ".join(depexpr(y) for y in x.deps))
        if x.args:
            kw.append("compile_args: %s" % mstr(x.args[0]))
        L.append("%s = declare_dependency(%s)" % (x.var, ", ".join(kw)))
        deps.append(x)

    # what a consumer of the library must be able to link with

    def value(fn):
        if fn in EXT:
            return 1000 * (EXT.index(fn) + 1)
        l = next(x for x in libs if x.fn == fn)
        return (1 << (l.i % 8)) + sum(value(c) for c in l.calls)

    class PC:
        pass

    def lflag(name):
        return "-l" + (name[3:] if name.startswith("lib") else name)

    def collect(item, vis, pc):
        """the model: what of a library has to be public and what may only be private"""
        k, x = item
        if k == "str":
            pc.need[vis].append(x if x.startswith("-") else lflag(x))
        elif k == "lib":
            if x.pc:
                pc.req[vis].append(x.pc)
                return
            kind = "shared" if x.kind == "both" else x.kind
            if not (kind == "static" and not x.inst):
                pc.need[vis].append("-l" + x.name)
            sub = vis if kind == "static" else 1
            for y in x.lw + x.lwhole:
                if y in x.lwhole:
                    inner(y, sub, pc)
                else:
                    collect(("lib", y), sub, pc)
            for y in x.deps:
                collect(y, sub, pc)
        elif k == "ext":
            pc.req[vis].append(x)
        elif k == "threads":
            pc.need[vis].append("-pthread")
        elif k == "m":
            pc.need[vis].append("-lm")
        elif k == "dep":
            if vis == 0:
                pc.cflags += x.args
            else:
                pc.maycflags += x.args
            for y in x.lw:
                collect(("lib", y), vis, pc)
            for y in x.deps:
                collect(y, 1, pc)

    def inner(x, vis, pc):
        pc.whole.append("-l" + x.name)
        for y in x.lw:
            collect(("lib", y), vis, pc)
        for y in x.lwhole:
            inner(y, vis, pc)
        for y in x.deps:
            collect(y, vis, pc)

    def addpc():
        p = PC()
        p.need, p.req, p.cflags, p.maycflags, p.whole = [[], []], [[], []], [], [], []
        p.fns = []
        kw, main = [], None
        cand = [l for l in libs if l.inst and not l.pc]
        if cand and d.bool(0.65):
            main = d.choice(cand)
        p.dataonly = main is None and d.bool(0.3)
        p.name = None
        if main is None or d.bool(0.3):
            p.name = d.choice(["pc%d", "PC %d", "pc-%d"]) % len(pcs)
            kw.append("name: %s" % mstr(p.name))
        else:
            p.name = main.name
        p.file = p.name
        if d.bool(0.3) or " " in p.name:
            p.file = "file%d" % len(pcs)
            kw.append("filebase: %s" % mstr(p.file))
        if p.file in [q.file for q in pcs]:
            return
        p.desc = None
        if d.bool(0.6):
            p.desc = d.choice(["A description.", "x", "with: colon, and # no hash".replace("# ", ""), "é"])
            kw.append("description: %s" % mstr(p.desc))
        p.ver = pver or "undefined"
        if d.bool(0.3):
            p.ver = d.choice(["2.0.1", "10", "1.0~rc"])
            kw.append("version: '%s'" % p.ver)
        p.url = None
        if d.bool(0.2):
            p.url = "https://example.org/x"
            kw.append("url: '%s'" % p.url)
        p.static_ok = True
        p.libs_internal = False
        items = []
        if main:
            items.append((("lib", main), 0, True))
        if not p.dataonly:
            for vis, key in ((0, "libraries"), (1, "libraries_private")):
                if not d.bool(0.4):
                    continue
                exprs = []
                for _ in range(d.int(1, 3)):
                    k = d.weighted([(4, "lib"), (2, "dep"), (2, "ext"), (1, "threads"), (1, "m"), (1, "str")])
                    if k == "lib":
                        c = [l for l in libs if l.inst or l.kind == "static"]
                        if not c:
                            continue
                        x = d.choice(c)
                        exprs.append(x.var)
                        items.append((("lib", x), vis, False))
                    elif k == "dep" and deps:
                        x = d.choice(deps)
                        exprs.append(x.var)
                        items.append((("dep", x), vis, False))
                    elif k == "ext" and exts:
                        x = d.choice(exts)
                        exprs.append(x)
                        items.append((("ext", x), vis, False))
                    elif k in ("threads", "m"):
                        exprs.append(depexpr((k, None)))
                        items.append(((k, None), vis, False))
                    elif k == "str":
                        x = d.choice(["-lm", "libm", "-Wl,--as-needed", "m"])
                        exprs.append(mstr(x))
                        items.append((("str", x), vis, False))
                if exprs:
                    kw.append("%s: [%s]" % (key, ", ".join(exprs)))
        for it, vis, ismain in items:
            collect(it, vis, p)
            if it[0] == "lib" and (it[1].inst or it[1].pc):
                p.fns.append((it[1].fn, vis))
            if it[0] == "dep" and it[1].fn and (it[1].lw[0].inst):
                p.fns.append((it[1].fn, vis))
        p.strreq = [[], []]
        for vis, key in ((0, "requires"), (1, "requires_private")):
            if not d.bool(0.3):
                continue
            exprs = []
            for _ in range(d.int(1, 3)):
                k = d.weighted([(4, "str"), (2, "ext"), (2, "lib")])
                if k == "str":
                    x = d.choice(["exta", "extb >= 2", "exta >= 1.2", "extb", "exta < 7", "extb != 5"])
                    exprs.append(mstr(x))
                    p.strreq[vis].append(x)
                elif k == "ext" and exts:
                    x = d.choice(exts)
                    exprs.append(x)
                    p.strreq[vis].append(x)
                elif k == "lib":
                    c = [l for l in libs if l.pc]
                    if c:
                        x = d.choice(c)
                        exprs.append(x.var)
                        p.strreq[vis].append(x.pc)
            if exprs:
                kw.append("%s: [%s]" % (key, ", ".join(exprs)))
        p.conflicts = []
        if d.bool(0.12):
            p.conflicts = d.choice([["nosuch"], ["nosuch < 2", "nosuch2"]])
            kw.append("conflicts: [%s]" % ", ".join(mstr(x) for x in p.conflicts))
        p.sub = None
        if d.bool(0.35) and not p.dataonly:
            p.sub = d.choice([["."], ["sub"], [".", "sub/x"], ["sub", "sub"], ["a b"]])
            kw.append("subdirs: [%s]" % ", ".join(mstr(x) for x in p.sub))
        p.extra = []
        if d.bool(0.35) and not p.dataonly:
            p.extra = d.choice([["-DA=1"], ["-DA=1", "-DA=1"], ["-DS=a b"], ["-DP=${prefix}/x"], ["-I${includedir}/more", "-DB"], ["-I${includedir}"]])
            kw.append("extra_cflags: [%s]" % ", ".join(mstr(x) for x in p.extra))
        p.vars, p.order = {}, []
        seen, refd = set(), set()
        for key, esc in (("variables", True), ("unescaped_variables", False)):
            if not d.bool(0.4):
                continue
            vs = {}
            for _ in range(d.int(1, 3)):
                n = d.weighted([(5, "va"), (3, "vb"), (2, "v_c"), (2, "bindir"), (2, "datadir"), (1, "mandir")] + ([(2, "prefix"), (1, "libdir")] if p.dataonly else []))
                if n in seen or n in refd:
                    continue
                seen.add(n)
                if n == "prefix":
                    val = d.choice(["/some/where", "/"])
                elif n in DIROPTS:
                    val = d.choice(["/abs/" + n, "${prefix}/my" + n] if not p.dataonly or "prefix" in seen else ["/abs/" + n])
                else:
                    val = d.choice(["x", "a b", "k=v", "1", ""] + (["${prefix}/p q", "${bindir}/t", "${datadir}/t u", "${includedir}", "${mandir}/man1", "${sysconfdir}/c", "${libdir}/l", "${localedir}",
                                    "pre:${bindir}"] if not p.dataonly else []))
                if not esc and d.bool(0.2) and not p.dataonly:
                    val = "${prefix}/\\ z"
                vs[n] = val
                refd |= set(re.findall(r"\$\{(\w+)\}", val))
                p.vars[n] = val.replace(" ", "\\ ") if esc else val
            if not vs:
                continue
            form = d.weighted([(3, "dict"), (3, "array"), (1, "string")])
            if form == "string" and len(vs) > 1:
                form = "array"
            if form == "dict":
                kw.append("%s: {%s}" % (key, ", ".join("%s: %s" % (mstr(k), mstr(v)) for k, v in vs.items())))
            elif form == "array":
                kw.append("%s: [%s]" % (key, ", ".join(mstr(k + "=" + v) for k, v in vs.items())))
            else:
                (k, v), = vs.items()
                kw.append("%s: %s" % (key, mstr(k + "=" + v)))
        p.dest = None
        if p.dataonly:
            kw.append("dataonly: true")
        p.installdir = None
        if d.bool(0.12):
            p.installdir = d.choice(["share/pc", prefix + "/pcs", w + "/elsewhere"])
            kw.append("install_dir: %s" % mstr(p.installdir))
        p.items = items
        p.main = main
        p.closure = set()
        kw = d.shuffle(kw)
        L.append("pc%d = pkg.generate(%s)" % (len(pcs), ", ".join(([main.var] if main else []) + kw)))
        if main:
            main.pc = p.file
        pcs.append(p)

    for _ in range(d.int(2, 8)):
        k = d.weighted([(5, "lib"), (2, "dep"), (4, "pc")])
        (addlib if k == "lib" else adddep if k == "dep" else addpc)()
    if not pcs:
        addpc()
    for p in pcs:
        d.label("dataonly" if p.dataonly else "main-" + p.main.kind if p.main else "named")
    write(s + "/meson.build", "\n".join(L) + "\n")
    d.note("%s\n%s" % (sets, "\n".join(L)))
    d.sample = dict(project="\n".join(L)[:600])
    d.key = d.notes[0].replace(w, "")
    m = ctx.bins["fast"]
    env = {"PKG_CONFIG_PATH": ext + "/pc"}
    r = ctx.run([m, "setup"] + sets + [b], cwd=s, env=env)
    if r.crashed:
        raise Fail("setup crashes: " + r.why)
    if r.rc:
        raise Fail("setup fails: " + out(r)[-600:])
    d.nontrivial = any(p.items for p in pcs)
    link = bool(libs) and d.bool(0.5)
    pcdirs = [ext + "/pc"]
    if link:
        r = ctx.run([m, "-C", b, "samu"], cwd=s, env=env)
        if r.rc:
            raise Fail("the build fails: " + out(r)[-600:])
        r = ctx.run([m, "-C", b, "install"], cwd=s, env=env)
        if r.rc:
            raise Fail("the installation fails: " + out(r)[-600:])
        for p in pcs:
            p.where = (norm(os.path.join(prefix, p.installdir)) if p.installdir else dirof["datadir" if p.dataonly else "libdir"] + "/pkgconfig") + "/" + p.file + ".pc"
            if p.where.startswith("/usr"):
                raise Reject("outside")
            if not os.path.exists(p.where):
                raise Fail("%s was not installed" % p.where)
            if os.path.dirname(p.where) not in pcdirs:
                pcdirs.append(os.path.dirname(p.where))
    else:
        pcdirs.append(b + "/.muon")
        for p in pcs:
            p.where = b + "/.muon/" + p.file + ".pc"
    env["PKG_CONFIG_PATH"] = ":".join(pcdirs)
    env["PKG_CONFIG_ALLOW_SYSTEM_CFLAGS"] = env["PKG_CONFIG_ALLOW_SYSTEM_LIBS"] = "1"

    libdirs = [dirof["libdir"]] + [norm(os.path.join(prefix, l.dir)) for l in libs if l.dir]

    def pkgc(*a):
        r = ctx.run(["pkg-config"] + list(a), cwd=w, env=env)
        if r.rc:
            raise Fail("pkg-config %s: %s" % (" ".join(a), out(r)[-300:]))
        return r.out.decode("utf8", "replace").rstrip("\n")

    for p in pcs:
        text = open(p.where).read()
        at = "%s.pc: " % p.file
        vs, f = parse(text)
        raw = text

        def bad(msg):
            raise Fail("%s%s\n%s" % (at, msg, raw))
        if f.get("Name") != p.name:
            bad("Name is %r, not %r" % (f.get("Name"), p.name))
        if p.desc is not None and f.get("Description") != p.desc:
            bad("Description")
        if f.get("Description") in (None, "(null)"):
            bad("no Description")
        if p.desc is None and p.main and f["Description"] != "proj: " + p.name:
            bad("default Description")
        if f.get("URL") != p.url:
            bad("URL")
        if f.get("Version") != p.ver:
            bad("Version is not %r" % p.ver)
        if f.get("Conflicts", "") != ", ".join(p.conflicts):
            bad("Conflicts")
        # variables
        for k, v in p.vars.items():
            if vs.get(k) != v:
                bad("variable %s is %r, not %r" % (k, vs.get(k), v))
        for k, v in vs.items():
            if k not in p.vars:
                if k != "prefix" and k not in DIROPTS:
                    bad("variable %s was not declared" % k)
                g = norm(expand(v, vs).replace("\\ ", " "))
                pv = p.vars.get("prefix")
                if pv is None and g != dirof[k]:
                    bad("variable %s means %r, not %r" % (k, g, dirof[k]))
            x = expand(v, vs)
            if "<undefined" in x and k in p.vars and not (p.dataonly):
                bad("variable %s refers to a missing variable" % k)
        if not p.dataonly:
            for k in ("prefix", "includedir"):
                if k not in vs:
                    bad("no " + k)
        if p.conflicts or True:
            if pkgc("--modversion", p.file) != p.ver:
                bad("pkg-config gives another version")
        for k in vs:
            g = pkgc("--variable=" + k, p.file)
            if g.replace("\\ ", " ").strip() != expand(vs[k], vs).replace("\\ ", " ").strip():
                bad("pkg-config reads %s as %r" % (k, g))
        # flags
        cf = [expand(x, vs) for x in flags(f.get("Cflags", "").replace("${", "$\\{").replace("$\\{", "${"))]
        cf = [x.replace("\\ ", " ") for x in cf]
        if p.dataonly:
            want = []
        else:
            inc = expand("${includedir}", vs).replace("\\ ", " ")
            want = ["-I" + inc + ("" if x == "." else "/" + x) for x in (p.sub if p.sub is not None else ["."])]
            want += [expand(x, vs).replace("\\ ", " ") for x in p.cflags + p.extra]
        nrm = lambda x: "-I" + norm(x[2:]) if x.startswith("-I") else x
        gs, wsx = [nrm(x) for x in cf], [nrm(x) for x in want]
        if len(set(gs)) != len(gs):
            bad("a compiler flag is there twice")
        may = set(nrm(x) for x in p.maycflags)
        if set(wsx) - set(gs) or set(gs) - set(wsx) - may:
            bad("Cflags are %r, not %r" % (gs, wsx))
        g2 = [x for x in gs if x in wsx and x not in may]
        if g2 != [x for x in dict.fromkeys(wsx) if x in g2]:
            bad("Cflags are in another order: %r, not %r" % (gs, wsx))
        # requirements and libraries
        sp = lambda x: [y.strip() for y in x.split(",")] if x else []
        rq = [sp(f.get("Requires")), sp(f.get("Requires.private"))]
        lb = [[expand(x, vs).replace("\\ ", " ") for x in flags(f.get(k, ""))] for k in ("Libs", "Libs.private")]
        base = lambda x: x.split()[0]
        for n, l in (("Requires", rq[0]), ("Requires.private", rq[1]), ("Libs", lb[0]), ("Libs.private", lb[1])):
            if len(set(l)) != len(l):
                bad("%s has an entry twice" % n)
        if p.dataonly and (lb[0] or lb[1] or "Cflags" in f):
            bad("flags in a data-only file")
        for x in p.strreq[0] + p.req[0]:
            if x not in rq[0] and base(x) not in [base(y) for y in rq[0] if y != base(y)]:
                bad("%r is not required" % x)
        for x in p.strreq[1] + p.req[1]:
            if x not in rq[1] and x not in rq[0] and base(x) not in [base(y) for y in rq[0] + rq[1] if y != base(y)]:
                bad("%r is not required for static linking" % x)
        for x in p.strreq[0]:
            if " " in x and x not in rq[0]:
                bad("the requirement %r is lost" % x)
        for x in p.strreq[1]:
            if " " in x and x not in rq[0] + rq[1]:
                bad("the private requirement %r is lost" % x)
        pub = set(base(x) for x in p.strreq[0] + p.req[0])
        for x in rq[0]:
            if base(x) not in pub:
                bad("%r is required publicly" % x)
        for x in rq[1]:
            if base(x) not in [base(y) for y in p.strreq[1] + p.req[1]]:
                bad("%r was never declared" % x)
        whole = set(p.whole)
        for x in p.need[0]:
            if x not in lb[0] and x not in whole:
                bad("Libs lacks %s" % x)
        for x in p.need[1]:
            if x not in lb[1] and x not in lb[0] and x not in whole:
                bad("Libs.private lacks %s" % x)
        for x in lb[0]:
            if not x.startswith("-L") and x not in p.need[0]:
                bad("%s is public" % x)
        for x in lb[1]:
            if not x.startswith("-L") and x not in p.need[1]:
                bad("%s is a private library" % x)
            if not x.startswith("-L") and x in lb[0]:
                bad("%s is public and private" % x)
        for l in lb:
            for x in l:
                if x.startswith("-L") and norm(x[2:]) not in libdirs:
                    bad("%s is not where libraries are installed" % x)
        # reading through pkg-config
        if pkgc("--print-requires", p.file).split("\n") != (rq[0] or [""]):
            bad("pkg-config reads other requirements")
        dyn, sta = flags(pkgc("--libs", p.file)), flags(pkgc("--static", "--libs", p.file))
        cfl = flags(pkgc("--cflags", p.file))
        for x in lb[0]:
            if not x.startswith("-L") and x not in dyn:
                bad("pkg-config --libs lacks %s: %r" % (x, dyn))
        for x in lb[1]:
            if not x.startswith("-L") and x not in sta:
                bad("pkg-config --static --libs lacks %s: %r" % (x, sta))
        for x in cf:
            if x not in cfl:
                bad("pkg-config --cflags lacks %s: %r" % (x, cfl))
        p.cfl, p.dyn, p.sta = cfl, dyn, sta
    if not link:
        return

    def allstatic(l, seen):
        """the whole of l can be linked from archives"""
        if l in seen:
            return True
        seen.add(l)
        return l.kind in ("static", "both") and all(allstatic(x, seen) for x in l.lw + l.lwhole + [y for k, z in l.deps if k == "dep" for y in z.lw])

    def complete(l):
        """muon does not merge archives: one that needs an archive that is not installed cannot be used (see DESIGN.md)"""
        subs = l.lw + l.lwhole + [y for k, z in l.deps if k == "dep" for y in z.lw]
        return all(complete(x) and not (l.kind in ("static", "both") and x.kind == "static" and not x.inst) for x in subs)
    env["LD_LIBRARY_PATH"] = ":".join(libdirs + [ext])
    n = 0
    for p in pcs:
        for mode, fl, ok in (("dynamic", p.dyn, [fn for fn, vis in p.fns if vis == 0]), ("static", p.sta, [fn for fn, vis in p.fns])):
            if not ok or n >= 4:
                continue
            n += 1
            c = w + "/c.c"
            ok = list(dict.fromkeys(ok))
            if not all(complete(l) for l in libs if l.fn in ok):
                d.label("archive-incomplete")
                continue
            write(c, "#include <stdio.h>\n%sint main(void){printf(\"%%d\\n\", %s);return 0;}\n" % (
                "".join("int %s(void);\n" % x for x in ok), " + ".join(x + "()" for x in ok)))
            seen = set()
            full = mode == "static" and all(allstatic(l, seen) for l in libs if l.fn in ok or "-l" + l.name in fl)
            d.label("link-" + mode + ("-full" if full else ""))
            if os.path.exists(w + "/exe"):
                os.unlink(w + "/exe")
            r = ctx.run(["cc", "-w"] + (["-static"] if full else []) + p.cfl + ["c.c"] + fl + ["-o", "exe"], cwd=w, env=env)
            if r.rc:
                raise Fail("%s.pc: %s linking with %r fails: %s\n%s" % (p.file, mode, fl, out(r)[-500:], open(p.where).read()))
            r = ctx.run([w + "/exe"], cwd=w, env=env)
            if r.rc or r.out.decode().strip() != str(sum(value(x) for x in ok)):
                raise Fail("%s.pc: the %s program gives %r, not %d" % (p.file, mode, r.out, sum(value(x) for x in ok)))
    # another project of muon reads them
    p = d.choice(pcs)
    st = d.bool(0.3)
    full = [fn for fn, vis in p.fns if vis == 0]
    if not all(complete(l) for l in libs if l.fn in full):
        full = []
    s2, b2 = w + "/s2", w + "/b2"
    K = ["project('c', 'c')", "d = dependency(%s%s)" % (mstr(p.file), ", static: true" if st else ""), "message('V', d.version(), 'F', d.found())"]
    vn = [k for k in p.vars]
    for k in vn:
        K.append("message('[' + d.get_variable(pkgconfig: %s) + ']')" % mstr(k))
    K.append("message('R', dependency(%s, version: '>%s', required: false).found())" % (mstr(p.file), p.ver if p.ver != "undefined" else "0"))
    if full:
        write(s2 + "/c.c", open(w + "/c.c").read() if False else "#include <stdio.h>\n%sint main(void){printf(\"%%d\\n\", %s);return 0;}\n" % (
            "".join("int %s(void);\n" % x for x in dict.fromkeys(full)), " + ".join(x + "()" for x in dict.fromkeys(full))))
        K.append("executable('e', 'c.c', dependencies: d)")
    write(s2 + "/meson.build", "\n".join(K) + "\n")
    r = ctx.run([m, "setup", b2], cwd=s2, env=env)
    text = out(r)
    if r.rc:
        raise Fail("%s.pc: muon cannot use it: %s\n%s" % (p.file, text[-500:], open(p.where).read()))
    if "message: V %s F true" % p.ver not in text:
        raise Fail("%s.pc: muon reads another version: %s" % (p.file, text[-400:]))
    vs, f = parse(open(p.where).read())
    for k in vn:
        g = expand(vs[k], vs)
        if "message: [%s]" % g not in text and "message: [%s]" % g.replace("\\ ", " ") not in text and "message: [%s]" % g.rstrip() not in text:
            raise Fail("%s.pc: muon reads the variable %s not as %r: %s" % (p.file, k, g, text[-400:]))
    if full:
        r = ctx.run([m, "-C", b2, "samu"], cwd=s2, env=env)
        if r.rc:
            raise Fail("%s.pc: building with dependency() fails: %s\n%s" % (p.file, out(r)[-700:], open(p.where).read()))
        r = ctx.run([b2 + "/e"], cwd=w, env=env)
        if r.rc or r.out.decode().strip() != str(sum(value(x) for x in dict.fromkeys(full))):
            raise Fail("%s.pc: the program built with dependency() gives %r" % (p.file, r.out))


if __name__ == "__main__":
    pbt.main(pbt.Spec("C24", case, quick=3000, thorough=20000, builds=("fast",), setup=setup,
                      rule="some file describes a library",
                      assumptions=["pkgconf 1.8 stands for pkg-config implementations", "quotes and dollars in flags keep their pkg-config meaning"]))
