#!/usr/bin/env python3
"""C16: compiled targets contain what was declared and rebuild when they must."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Fail, Reject, write, mstr

NM, NI = 8, 3  # macros, include directories
DIRS = ["s0", "s1", ""]
STD = {"c99": 199901, "c11": 201112, "gnu17": 201710}
CPPSTD = {"c++14": 201402, "c++17": 201703}


class Unit:
    def __init__(self, k, lang):
        self.k, self.lang = k, lang
        self.refs = []
        self.v = 0
        self.how = "src"  # src, ct (custom_target), gen (generator), pair (custom target with header), far (source of another directory)
        self.need = []  # generated headers it includes
        self.name = None


class Dep:
    pass


class Tgt:
    def __init__(self, n, name, d, func, kind):
        self.n, self.name, self.dir, self.func, self.kind = n, name, d, func, kind  # kind: exe static shared both
        self.units = []
        self.link_with, self.link_whole, self.deps, self.objects = [], [], [], []
        self.args, self.incs, self.implicit, self.over = [], [], True, {}
        self.link_args = []
        self.default = True
        self.version = None
        self.gen_order = 0


def fileext(u):
    return ".cpp" if u.lang == "cpp" else ".c"


def unit_text(u, main=False):
    x = u.lang == "cpp"
    o = []
    for k in range(NI):
        o.append("#if __has_include(<i%d.h>)\n#include <i%d.h>\n#else\n#define I%d -1\n#endif" % (k, k, k))
    o.append("#if __has_include(<common.h>)\n#include <common.h>\n#else\n#define COMMON -1\n#endif")
    for n in ("s0", "s1", "root"):
        o.append("#if __has_include(<loc_%s.h>)\n#include <loc_%s.h>\n#else\n#define LOC_%s -1\n#endif" % (n, n, n))
        o.append("#if __has_include(<conf_%s.h>)\n#include <conf_%s.h>\n#else\n#define CONF_%s -1\n#endif" % (n, n, n))
    for h in u.need:
        o.append("#include <gh%d.h>" % h)
    if x:
        o.append('extern "C" {')
    o.append("extern int printf(const char *, ...);")
    for r in u.refs:
        o.append("extern void u%d(void);" % r)
    o.append("void u%d(void);" % u.k)
    o.append('__attribute__((constructor)) static void ctor(void) { printf("ctor %d\\n"); }' % u.k)
    o.append("static int seen;\nvoid u%d(void) {\n if (seen) return;\n seen = 1;" % u.k)
    if x:
        o.append(" int *volatile p = new int; delete p;")
    f, a = ["u%d v=%d" % (u.k, u.v)], []
    for k in range(NI):
        f.append("i%d=%%d" % k)
        a.append("I%d" % k)
    f.append("common=%d")
    a.append("COMMON")
    for n in ("s0", "s1", "root"):
        f += ["loc_%s=%%d" % n, "conf_%s=%%d" % n]
        a += ["LOC_" + n, "CONF_" + n]
    for h in u.need:
        f.append("gh%d=%%d" % h)
        a.append("GH%d" % h)
    o.append(' printf("%s", %s);' % (" ".join(f), ", ".join(a)))
    for m in ["M%d" % k for k in range(NM)] + ["X"]:
        o.append('#ifdef %s\n printf(" %s=%%d", %s);\n#endif' % (m, m, m))
    o.append('#ifdef __OPTIMIZE__\n printf(" opt");\n#endif')
    o.append('#ifdef __OPTIMIZE_SIZE__\n printf(" size");\n#endif')
    o.append('#ifdef NDEBUG\n printf(" ndebug");\n#endif')
    o.append('#ifdef __PIE__\n printf(" pie");\n#endif')
    o.append(' printf(" std=%%d%%s", (int)%s, %s);' % ("__cplusplus" if x else "__STDC_VERSION__", "STRICT"))
    o.insert(0, '#ifdef __STRICT_ANSI__\n#define STRICT " strict"\n#else\n#define STRICT ""\n#endif')
    o.append(' printf("\\n");')
    for r in u.refs:
        o.append(" u%d();" % r)
    o.append("}")
    if main:
        o.append("int main(void) { u%d(); return 0; }" % u.k)
    if x:
        o.append("}")
    return "\n".join(o) + "\n"


class Proj:
    def __init__(self, d):
        self.d = d
        self.units, self.tgts, self.deps = {}, [], []
        self.ghs = {}  # generated header: (dir, value, how)
        self.opts = {}  # on the command line
        self.defaults = {}
        self.glob, self.proj = {}, {}  # language -> args
        self.glob_link, self.proj_link = [], []
        self.hdr = {}  # (place, name) -> value
        self.gh_form = {}

    # what a target is made of
    def objs(self, t):
        """(unit, target that compiles it) of the objects given to the linker directly"""
        r = [(u, t) for u in t.units]
        for kind, src, us in t.objects:
            if kind == "all_rec":
                r += self.objs(src)
            elif kind == "all":
                r += [(u, src) for u in src.units]
            else:
                r += [(u, src) for u in us]
        for dp in self.alldeps(t):
            r += [(u, src) for u, src in dp.objs]
        seen, out = set(), []
        for x in r:
            if (x[0], x[1].n) not in seen:
                seen.add((x[0], x[1].n))
                out.append(x)
        return out

    def alldeps(self, t):
        out = []

        def go(ds):
            for dp in ds:
                if dp not in out:
                    out.append(dp)
                    go(dp.deps)
        go(t.deps if isinstance(t, Tgt) else [t])
        return out

    def link(self, t):
        """(whole archives, archives, shared libraries, link arguments) of a link of t"""
        W, L, S, A = [], [], [], []

        def lib(x, whole, form):
            sh = x.kind == "shared" or (x.kind == "both" and form != "static")
            if sh:
                if x not in S:
                    S.append(x)
                return
            (W if whole else L).append(x)
            w, l, s, a = self.link(x)
            for y, z in ((W, w), (L, l), (S, s)):
                y += [q for q in z if q not in y]
            A.extend(a)
        for x, form in t.link_with:
            lib(x, False, form)
        for x, form in t.link_whole:
            lib(x, True, form)
        for dp in self.alldeps(t):
            for x, form in dp.link_with:
                lib(x, False, form)
            for x, form in dp.link_whole:
                lib(x, True, form)
            A += dp.link_args
        return W, L, S, A

    def exports(self, x):
        """units a user of the library may call"""
        us = [u for u, _ in self.objs(x)]
        W, L, S, _ = self.link(x)
        for w in W:
            us += [u for u, _ in self.objs(w)]
        return set(us)

    def definite(self, t):
        W = self.link(t)[0]
        us = [u for u, _ in self.objs(t)]
        for w in {x.n: x for x in W}.values():
            us += [u for u, _ in self.objs(w)]
        return us

    def provides(self, t):
        r = {u for u, _ in self.objs(t)}
        W, L, S, _ = self.link(t)
        for x in W + L + S:
            r |= self.exports(x)
        return r

    def loaded(self, t, extra=()):
        """(units that are certainly in the process, units that may be)"""
        W, L, S, A = self.link(t)
        must = set(self.definite(t)) if t.kind != "static" else set()
        arch = set()
        for x in L + W:
            arch |= {u for u, _ in self.objs(x)}
        may = set(must)
        shared = {}
        for s in S:
            shared[s.n] = self.loaded(s)
            may |= shared[s.n][1]
        # roots of the reference closure
        todo = set(must) | set(extra)
        for a in A + t.link_args + self.glob_link + self.proj_link:
            k = int(a.split(",u")[1])
            if k in arch:
                todo.add(k)
        seen = set()
        sure = set()
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            if k in arch or k in must:
                sure.add(k)
                todo |= set(self.units[k].refs)
            else:
                # from a shared library: with all it has for sure
                c = [s for s in S if k in shared[s.n][1]]
                if len(c) == 1:
                    sure |= shared[c[0].n][0]
        return sure, may | sure

    def std(self, t, lang):
        # the command line wins over override_options in muon
        o = dict(self.defaults)
        o.update(t.over)
        o.update(self.opts)
        return o.get("c_std" if lang == "c" else "cpp_std", "none"), o

    def incdirs(self, t):
        """places in order: "inc0".. or a directory ("s0"), with system ones last"""
        a = []
        if t.implicit:
            a.append((t.dir or "root", False))
        for p in t.incs:
            a.append(p)
        for dp in self.alldeps(t):
            a += dp.incs
        return [p for p, s in a if not s] + [p for p, s in a if s]

    def line(self, k, t):
        """what unit k prints when it is compiled as part of t"""
        u = self.units[k]
        dirs = self.incdirs(t)
        o = ["u%d v=%d" % (k, u.v)]
        for i in range(NI):
            o.append("i%d=%d" % (i, self.hdr[("inc%d" % i, "i")] if "inc%d" % i in dirs else -1))
        c = -1
        for p in dirs:
            if (p, "common") in self.hdr:
                c = self.hdr[(p, "common")]
                break
        o.append("common=%d" % c)
        for n in ("s0", "s1", "root"):
            o.append("loc_%s=%d" % (n, self.hdr[(n, "loc")] if n in dirs else -1))
            o.append("conf_%s=%d" % (n, self.hdr[(n, "conf")] if n in dirs else -1))
        for h in u.need:
            o.append("gh%d=%d" % (h, self.ghs[h][1]))
        ms = {}
        for a in self.glob.get(u.lang, []) + self.proj.get(u.lang, []):
            n, v = a[2:].split("=")
            ms[n] = v
        # which of several dependencies wins is left open
        dm = {}
        for dp in self.alldeps(t):
            for a in dp.args:
                n, v = a[2:].split("=")
                dm.setdefault(n, []).append((dp, v))
        for n, vs in dm.items():
            ms[n] = vs[-1][1] if len({v for dp, v in vs}) == 1 or len({dp for dp, v in vs}) == 1 else "?"
        for a in t.args:
            n, v = a[2:].split("=")
            ms[n] = v
        for m in ["M%d" % i for i in range(NM)] + ["X"]:
            if m in ms:
                o.append("%s=%s" % (m, ms[m]))
        std, opt = self.std(t, u.lang)
        if "buildtype" in opt:
            ol = {"plain": "0", "debug": "0", "debugoptimized": "g", "release": "3", "minsize": "s"}[opt["buildtype"]]
        else:
            ol = opt["optimization"]
        if ol not in ("0", "plain"):
            o.append("opt")
        if ol == "s":
            o.append("size")
        nd = opt.get("b_ndebug", "false")
        if nd == "true" or (nd == "if-release" and opt.get("buildtype") == "release"):
            o.append("ndebug")
        if t.kind == "exe":
            o.append("pie")
        if u.lang == "c":
            s = STD.get(std, 201710)
        else:
            s = CPPSTD.get(std, 201703)
        o.append("std=%d" % s)
        if std in ("c99", "c11", "c++14", "c++17"):
            o.append("strict")
        r = " ".join(o)
        # the directory a listed generated header is written to may be an include directory
        for h in t.ghs + [h for dp in self.alldeps(t) for h in dp.ghs]:
            x = self.ghs[h][0] or "root"
            if x not in dirs:
                r = r.replace(" conf_%s=-1" % x, " conf_%s=?" % x)
        return r

    # ---- files
    def files(self):
        f = {}
        used = set(self.hdr)
        for (p, n), v in self.hdr.items():
            d = "" if p == "root" else p + "/"
            if n == "i":
                f[d + "i%s.h" % p[3:]] = "#define I%s %d\n" % (p[3:], v)
            elif n == "common":
                f[d + "common.h"] = "#define COMMON %d\n" % v
            elif n == "loc":
                f[d + "loc_%s.h" % p] = "#define LOC_%s %d\n" % (p, v)
            else:
                f[d + "conf_%s.h.in" % p] = "#define CONF_%s @NO_SUCH_KEY_BUT_ONE@ %d\n" % (p, v) if False else "#define CONF_%s %d\n" % (p, v)
        f["mk.sh"] = "#!/bin/sh\nsleep 0.0%d\nwhile [ $# -gt 1 ]; do cat \"$1\" > \"$2\"; shift 2; done\n" % (self.slow)
        for h, (p, v, form) in self.ghs.items():
            f[(p + "/" if p else "") + "gh%d.txt" % h] = "#define GH%d %d\n" % (h, v)
        self.meson = {x: [] for x in DIRS}
        for t in self.tgts:
            for i, k in enumerate(t.units):
                u = self.units[k]
                text = unit_text(u, t.kind == "exe" and i == 0)
                d = t.dir + "/" if t.dir else ""
                if u.how == "src":
                    f[d + u.name + fileext(u)] = text
                elif u.how == "far":
                    f[u.place + u.name + fileext(u)] = text
                else:
                    f[d + u.name + ".txt"] = text
        self.emit()
        for x in DIRS:
            f[(x + "/" if x else "") + "meson.build"] = "\n".join(self.meson[x]) + "\n"
        return f

    def emit(self):
        m = self.meson
        q = lambda xs: "[%s]" % ", ".join(mstr(x) for x in xs)
        head = ["project('p', 'c', 'cpp', default_options: %s)" % q(["%s=%s" % x for x in self.defaults.items()])]
        head.append("mk = find_program('mk.sh')\ngen = generator(mk, output: '@BASENAME@.c', arguments: ['@INPUT@', '@OUTPUT@'])\ngenx = generator(mk, output: '@BASENAME@.cpp', arguments: ['@INPUT@', '@OUTPUT@'])")
        for l, a in self.glob.items():
            head.append("add_global_arguments(%s, language: '%s')" % (q(a), l))
        for l, a in self.proj.items():
            head.append("add_project_arguments(%s, language: '%s')" % (q(a), l))
        for a in self.glob_link:
            head.append("add_global_link_arguments(%s, language: ['c', 'cpp'])" % mstr(a))
        for a in self.proj_link:
            head.append("add_project_link_arguments(%s, language: ['c', 'cpp'])" % mstr(a))
        for i in range(NI):
            head.append("inc%d = include_directories('inc%d')\nsinc%d = include_directories('inc%d', is_system: true)" % (i, i, i, i))
        head.append("inc_s0 = include_directories('s0')\ninc_s1 = include_directories('s1')\ninc_root = include_directories('.')")
        head.append("far = %s" % ("{%s}" % ", ".join("'u%d': files('%s%s')" % (u.k, u.place, u.name + fileext(u)) for u in self.units.values() if u.how == "far" and u.name)))
        m[""] = head
        for x in DIRS:
            n = x or "root"
            o = m[x]
            if x == "":
                o += ["subdir('s0')", "subdir('s1')"]
            o.append("configure_file(input: 'conf_%s.h.in', output: 'conf_%s.h', copy: true)" % (n, n))
            for h, (p, v, form) in self.ghs.items():
                if p == x and form != "generator" and form != "pair":
                    o.append("gh%d = custom_target(%s input: 'gh%d.txt', output: 'gh%d.h', command: [mk, '@INPUT@', '@OUTPUT@'])" % (h, "'make-gh%d'," % h if form == "named" else "", h, h))
                elif p == x and form == "pair":
                    o.append("gp%d = custom_target('gp%d', input: ['gh%d.txt', 'gh%d.txt'], output: ['gh%d.h', 'gh%d.other'], command: [mk, '@INPUT0@', '@OUTPUT0@', '@INPUT1@', '@OUTPUT1@'])\ngh%d = gp%d[0]" % (h, h, h, h, h, h, h, h))
            for t in self.order:
                if isinstance(t, Dep):
                    if t.dir == x:
                        self.emit_dep(t, o)
                elif t.dir == x:
                    self.emit_tgt(t, o)

    def libref(self, x, form):
        if x.kind == "both" and form == "static":
            return "t%d.get_static_lib()" % x.n
        if x.kind == "both" and form == "shared":
            return "t%d.get_shared_lib()" % x.n
        return "t%d" % x.n

    def inc(self, ps):
        return "[%s]" % ", ".join(("s" if s else "") + (p if p.startswith("inc") else "inc_" + p) for p, s in ps)

    def emit_dep(self, t, o):
        kw = []
        if t.link_with:
            kw.append("link_with: [%s]" % ", ".join(self.libref(*x) for x in t.link_with))
        if t.link_whole:
            kw.append("link_whole: [%s]" % ", ".join(self.libref(*x) for x in t.link_whole))
        if t.deps:
            kw.append("dependencies: [%s]" % ", ".join("d%d" % x.n for x in t.deps))
        if t.args:
            kw.append("compile_args: %s" % ("[%s]" % ", ".join(map(mstr, t.args))))
        if t.link_args:
            kw.append("link_args: [%s]" % ", ".join(map(mstr, t.link_args)))
        if t.incs:
            kw.append("include_directories: " + self.inc(t.incs))
        if t.ghs:
            kw.append("sources: [%s]" % ", ".join("gh%d" % h for h in t.ghs))
        if t.objs:
            kw.append("objects: [%s]" % ", ".join("t%d.extract_objects(%s)" % (src.n, self.srcref(self.units[u], src)) for u, src in t.objs))
        o.append("d%d = declare_dependency(%s)" % (t.n, ", ".join(kw)))

    def srcref(self, u, t):
        """how the target's sources name it"""
        if u.how == "src":
            return mstr(u.name + fileext(u))
        if u.how == "far":
            return "far['u%d']" % u.k
        return "%s%d" % (u.how[0], u.k)

    def emit_tgt(self, t, o):
        src = []
        for i, k in enumerate(t.units):
            u = self.units[k]
            if u.how == "ct":
                o.append("c%d = custom_target('make-%d', input: '%s.txt', output: '%s%s', command: [mk, '@INPUT@', '@OUTPUT@'])" % (u.k, u.k, u.name, u.name, fileext(u)))
                src.append("c%d" % u.k)
            elif u.how == "gen":
                o.append("g%d = gen%s.process('%s.txt')" % (u.k, "x" if u.lang == "cpp" else "", u.name))
                src.append("g%d" % u.k)
            else:
                src.append(self.srcref(u, t))
        for h in t.ghs:
            src.append("gh%d" % h)
        kw = []
        if t.split and len(src) > 1:
            kw.append("sources: [%s]" % ", ".join(src[1:]))
            src = src[:1]
        if t.link_with:
            kw.append("link_with: [%s]" % ", ".join(self.libref(*x) for x in t.link_with))
        if t.link_whole:
            kw.append("link_whole: [%s]" % ", ".join(self.libref(*x) for x in t.link_whole))
        if t.deps:
            kw.append("dependencies: [%s]" % ", ".join("d%d" % x.n for x in t.deps))
        if t.objects:
            ob = []
            for kind, s, us in t.objects:
                if kind == "all_rec":
                    ob.append("t%d.extract_all_objects(recursive: true)" % s.n)
                elif kind == "all":
                    ob.append("t%d.extract_all_objects(recursive: false)" % s.n)
                else:
                    ob.append("t%d.extract_objects(%s)" % (s.n, ", ".join(self.srcref(self.units[u], s) for u in us)))
            kw.append("objects: [%s]" % ", ".join(ob))
        if t.args:
            a = "[%s]" % ", ".join(map(mstr, t.args))
            kw.append("c_args: %s, cpp_args: %s" % (a, a))
        if t.link_args:
            kw.append("link_args: [%s]" % ", ".join(map(mstr, t.link_args)))
        if t.incs:
            kw.append("include_directories: " + self.inc(t.incs))
        if not t.implicit:
            kw.append("implicit_include_directories: false")
        if t.over:
            kw.append("override_options: [%s]" % ", ".join(mstr("%s=%s" % x) for x in t.over.items()))
        if not t.default:
            kw.append("build_by_default: false")
        if t.version:
            kw.append("version: " + mstr(t.version))
        fn = t.func
        if fn.startswith("build_target"):
            kw.append("target_type: '%s'" % {"exe": "executable", "static": "static_library", "shared": "shared_library", "both": "both_libraries"}[t.kind])
            fn = "build_target"
        o.append("t%d = %s(%s)" % (t.n, fn, ", ".join([mstr(t.name)] + src + kw)))


def generate(d):
    p = Proj(d)
    p.slow = d.weighted([(3, 0), (1, 1), (1, 3)])
    nk = [0]
    for i in range(NI):
        p.hdr[("inc%d" % i, "i")] = d.int(0, 9)
    for x in ("inc0", "inc1"):
        if d.bool(0.7):
            p.hdr[(x, "common")] = d.int(0, 9)
    for x in ("s0", "s1", "root"):
        p.hdr[(x, "loc")] = d.int(0, 9)
        p.hdr[(x, "conf")] = d.int(0, 9)
        if d.bool(0.3):
            p.hdr[(x, "common")] = d.int(0, 9)
    for h in range(d.int(0, 3)):
        p.ghs[h] = (d.choice(DIRS), d.int(0, 9), d.choice(["named", "anon", "pair"]))
    lib_default = d.choice(["shared", "static", "both"])
    where = d.choice(["opts", "defaults"])
    getattr(p, where)["default_library"] = lib_default
    if where == "opts" and d.bool(0.3):
        p.defaults["default_library"] = d.choice(["shared", "static"])
    if d.bool():
        p.defaults["optimization"] = d.choice(["0", "2", "s"])
        if d.bool(0.3):
            p.opts["optimization"] = d.choice(["0", "1", "s", "plain"])
    else:
        b = d.choice(["plain", "debug", "release", "minsize"])
        (p.opts if d.bool() else p.defaults)["buildtype"] = b
    if d.bool(0.3):
        (p.opts if d.bool() else p.defaults)["b_ndebug"] = d.choice(["true", "false", "if-release"])
    if d.bool(0.3):
        (p.opts if d.bool() else p.defaults)["c_std"] = d.choice(list(STD))
    if d.bool(0.2):
        (p.opts if d.bool() else p.defaults)["cpp_std"] = d.choice(list(CPPSTD))
    ms = list(range(NM))

    def macro(pr=0.3):
        out = []
        if d.bool(pr):
            out.append("-DM%d=%d" % (d.choice(ms), d.int(0, 9)))
        if d.bool(0.12):
            out.append("-DX=%d" % d.int(0, 9))
        return out
    for l in ("c", "cpp"):
        g, a = macro(0.2), macro(0.25)
        if g:
            p.glob[l] = g
        if a:
            p.proj[l] = a
    cpp = d.bool(0.35)
    n = d.int(2, 7)
    dirs = sorted((d.choice(DIRS) for _ in range(n)), key=DIRS.index)
    p.order = []
    names = set()

    def incs(dir):
        out = []
        for x in d.sublist(["inc0", "inc1", "inc2", "s0", "s1", "root"], 0.17):
            out.append((x, x == "inc2" and d.bool(0.4)))
        return d.shuffle(out)
    forms = ["", "static", "shared"]

    def libs(cands, prob):
        return [(x, d.choice(forms) if x.kind == "both" else "") for x in cands if d.bool(prob)]

    def statics(xs):
        out = []
        for x, f in xs:
            if x.kind == "static":
                out.append((x, ""))
            elif x.kind == "both":
                out.append((x, "static"))
        return out
    for i in range(n):
        dir = dirs[i]
        last = i == n - 1
        kind = d.weighted([(4, "static"), (3, "shared"), (1, "both"), (2, "lib"), (3, "exe")]) if not last else "exe"
        libsofar = [t for t in p.tgts if t.kind != "exe"]
        # perhaps a dependency object first
        if libsofar and d.bool(0.5) or d.bool(0.15):
            dp = Dep()
            dp.n, dp.dir = len(p.deps), dir
            dp.link_with = libs(libsofar, 0.35)
            dp.link_whole = statics(libs(libsofar, 0.1))
            dp.link_with = [x for x in dp.link_with if x[0] not in [y[0] for y in dp.link_whole]]
            dp.deps = d.sublist([x for x in p.deps if d.bool(0.6)], 0.3)
            dp.args, dp.incs, dp.link_args = macro(), incs(dir), []
            dp.ghs = [h for h, (hp, _, _) in p.ghs.items() if (DIRS.index(hp) <= DIRS.index(dir)) and d.bool(0.3)]
            dp.objs = []
            p.deps.append(dp)
            p.order.append(dp)
        func = {"static": "static_library", "shared": "shared_library", "both": "both_libraries", "lib": "library", "exe": "executable"}[kind]
        if kind == "lib":
            kind = lib_default
        name = d.choice(["t%d", "t%d", "x-%d.y", "T%d_z"]) % i
        t = Tgt(i, name, dir, func, kind)
        if func != "library" and d.bool(0.1):
            t.func = "build_target"
        t.link_with = libs(libsofar, 0.4 if not last else 0.5)
        t.link_whole = statics(libs(libsofar, 0.12))
        wl = [y[0] for y in t.link_whole]
        t.link_with = [x for x in t.link_with if x[0] not in wl]
        t.deps = d.sublist(p.deps, 0.4)
        t.args, t.incs = macro(), incs(dir)
        t.implicit = d.bool(0.85)
        if d.bool(0.2):
            for k, vs in (("optimization", ["0", "2", "s"]), ("c_std", list(STD)), ("cpp_std", list(CPPSTD)), ("b_ndebug", ["true", "false"])):
                if d.bool(0.35) and not (k == "optimization" and ("buildtype" in p.opts or "buildtype" in p.defaults)):
                    t.over[k] = d.choice(vs)
        t.default = d.bool(0.8)
        if kind in ("shared", "both") and d.bool(0.25):
            t.version = d.choice(["1.2.3", "2", "0.1"])
        t.split = d.bool(0.3)
        # generated headers it lists itself, or gets
        t.ghs = [h for h, (hp, _, _) in p.ghs.items() if DIRS.index(hp) <= DIRS.index(dir) and d.bool(0.35)]
        # extracted objects
        if p.tgts and d.bool(0.2):
            s = d.choice([x for x in p.tgts if x.kind != "exe" or t.kind != "shared"] or [None])
            if s is not None and s.units:
                how = d.choice(["all", "all_rec", "some"])
                us = list(s.units)
                if s.kind == "exe":
                    us = us[1:]
                    how = "some"
                if how == "some":
                    us = d.sublist(us, 0.6)
                if t.kind != "exe" and s.kind == "exe":
                    us = []
                if us:
                    t.objects.append((how, s, us))
                    t.link_with += [x for x in s.link_with if x[0] not in [y[0] for y in t.link_with + t.link_whole]]
                    t.link_with += [(x[0], x[1]) for x in s.link_whole if x[0] not in [y[0] for y in t.link_with + t.link_whole]]
                    for dp in s.deps:
                        if dp not in t.deps:
                            t.deps.append(dp)
                    if s.kind != "exe" and s not in [y[0] for y in t.link_with + t.link_whole]:
                        t.link_with.append((s, "static" if s.kind == "both" else ""))
        # objects that came with more than one definition: no whole archives then
        for _ in range(2):
            ds = p.definite(t)
            if len(ds) != len(set(ds)):
                t.objects, t.link_whole = [], []
                t.deps = [dp for dp in t.deps if not any(x.link_whole or x.objs for x in p.alldeps(dp))]
        avail = set(t.ghs)
        for dp in p.alldeps(t):
            avail |= set(dp.ghs)
        can = p.provides(t)
        nu = d.int(1, 3) if t.kind != "static" or not t.objects else d.int(0, 2)
        if t.kind == "exe":
            nu = d.int(1, 2)
        for j in range(nu):
            k = nk[0]
            nk[0] += 1
            lang = "cpp" if cpp and d.bool(0.3) else "c"
            u = Unit(k, lang)
            p.units[k] = u
            u.v = d.int(0, 99)
            isexe0 = t.kind == "exe" and j == 0
            u.how = d.weighted([(8, "src"), (2, "ct"), (2, "gen"), (1, "far")])
            u.name = d.choice(["a%d", "a%d", "a%d.x", "b-%d"]) % k
            u.place = d.choice(["far/", ""])
            if d.bool(0.35):
                # the same file name in several places
                nm = d.choice(["same", "twin"])
                key = (dir, "txt", nm) if u.how in ("ct", "gen") else (dir + "/" if dir and u.how == "src" else "" if u.how == "src" else u.place, u.lang, nm)
                if key not in names:
                    names.add(key)
                    u.name = nm
                    d.label("same name")
            own = [x for x in t.units]
            cands = sorted(can) + own
            u.refs = d.sublist(cands, min(0.6, 3.0 / (len(cands) + 1)))[:5]
            if isexe0 and not u.refs and cands:
                u.refs = [d.choice(cands)]
            u.need = [h for h in sorted(avail) if d.bool(0.5)] if t.implicit else []
            # main is first
            t.units.append(k)
        if t.kind == "exe" and nu == 2:
            p.units[t.units[0]].refs += [t.units[1]] if t.units[0] not in p.units[t.units[1]].refs else []
        # -u pulls a member nobody refers to
        if t.kind in ("exe", "shared") and d.bool(0.12):
            arch = [u for x in p.link(t)[1] for u, _ in p.objs(x)]
            if arch:
                t.link_args = ["-Wl,-u,u%d" % d.choice(arch)]
        if t.kind != "exe" and p.deps and d.bool(0.1):
            pass
        p.tgts.append(t)
        p.order.append(t)
        if t.kind in ("static", "both") and d.bool(0.15) and t.units:
            dp = Dep()
            dp.n, dp.dir = len(p.deps), dir
            dp.link_with, dp.link_whole, dp.deps, dp.args, dp.incs, dp.ghs, dp.objs = [(t, "static" if t.kind == "both" else "")], [], [], macro(), incs(dir), [], []
            dp.link_args = ["-Wl,-u,u%d" % d.choice(t.units)] if d.bool() else []
            p.deps.append(dp)
            p.order.append(dp)
    return p


def edit(d, p):
    """change the model; return what was done"""
    k = d.weighted([(4, "unit"), (3, "header"), (2, "gh"), (3, "args"), (1, "kind"), (2, "drop"), (1, "touch"), (1, "defaults")])
    if k == "unit":
        u = p.units[d.choice(list(p.units))]
        u.v = (u.v + d.int(1, 50)) % 100
        return "unit %d" % u.k
    if k == "header":
        h = d.choice(list(p.hdr))
        p.hdr[h] = (p.hdr[h] + d.int(1, 9)) % 10
        return "header %s" % (h,)
    if k == "gh" and p.ghs:
        h = d.choice(list(p.ghs))
        a, v, f = p.ghs[h]
        p.ghs[h] = (a, (v + d.int(1, 9)) % 10, f)
        return "gh%d" % h
    if k == "args":
        t = d.choice(p.tgts + p.deps)
        t.args = ["-DM%d=%d" % (d.int(0, NM - 1), d.int(0, 9))]
        return "args"
    if k == "defaults":
        p.proj["c"] = ["-DM%d=%d" % (d.int(0, NM - 1), d.int(0, 9))]
        return "project arguments"
    if k == "kind":
        ts = [t for t in p.tgts if t.func in ("static_library", "shared_library")]
        used = [x for t in p.tgts + p.deps for x, _ in t.link_whole]
        ts = [t for t in ts if t not in used and t.units and not any(t is s for q in p.tgts for _, s, _ in q.objects)]
        if ts:
            t = d.choice(ts)
            old = t.kind, t.func, t.version
            t.kind, t.func = ("shared", "shared_library") if t.kind == "static" else ("static", "static_library")
            t.version = None
            if not consistent(p):
                t.kind, t.func, t.version = old
                return None
            return "kind of t%d" % t.n
    if k == "drop":
        # a unit nobody refers to disappears from its library
        refd = {r for u in p.units.values() for r in u.refs}
        flags = " ".join(a for t in p.tgts + p.deps for a in t.link_args)
        c = [(t, u) for t in p.tgts for u in t.units if u not in refd and not (t.kind == "exe" and t.units[0] == u) and len(t.units) > 1
             and ",u%d" % u not in flags and not any(u in us for q in p.tgts for _, s, us in q.objects) and not any(u == x for q in p.deps for x, _ in q.objs)]
        if c:
            t, u = d.choice(c)
            t.units.remove(u)
            del p.units[u]
            return "drop unit %d of t%d" % (u, t.n)
    if k == "touch":
        return "touch"
    return None


def consistent(p):
    for t in p.tgts:
        can = p.provides(t)
        ds = p.definite(t)
        if len(ds) != len(set(ds)):
            return False
        for u in [x for x, _ in p.objs(t)]:
            if not set(p.units[u].refs) <= can:
                return False
        if t.kind == "shared":
            # objects compiled without -fpic cannot be in it
            for u, s in p.objs(t):
                if s.kind == "exe":
                    return False
        # archives, too
    return True


def case(d, ctx):
    w = ctx.fresh()
    src, b = w + "/src", w + "/b"
    p = generate(d)
    if not consistent(p):
        raise Reject
    exes = [t for t in p.tgts if t.kind == "exe"]
    files = {}

    def sync(touch=None):
        new = p.files()
        for f in list(files):
            if f not in new:
                os.unlink(src + "/" + f)
                del files[f]
        for f, c in new.items():
            if files.get(f) != c:
                write(src + "/" + f, c, 0o755 if f.endswith(".sh") else 0o644)
        if touch:
            os.utime(src + "/" + touch)
        files.clear()
        files.update(new)
    sync()
    d.key = d.sample = " ".join("-D%s=%s" % x for x in p.opts.items()) + "\n" + "\n".join("--- %s\n%s" % (f, c) for f, c in sorted(files.items()) if f.endswith("meson.build"))
    for t in p.tgts:
        d.label(t.kind)
        for x, c in (("whole", t.link_whole), ("objects", t.objects), ("deps", t.deps), ("link_args", t.link_args), ("override", t.over), ("version", t.version)):
            if c:
                d.label(x)
    d.note(d.sample)

    def run(*a, **kw):
        r = ctx.run([ctx.muon] + list(a), merge=True, wall=120, cpu=120, **kw)
        if r.crashed:
            raise Fail("%s: %s\n%s" % (a, r.why(), r.out.decode("utf-8", "replace")[-1500:]))
        return r
    r = run("setup", *(["-D%s=%s" % x for x in p.opts.items()] + [b]), cwd=src)
    if r.rc:
        raise Fail("setup failed\n" + r.out.decode("utf-8", "replace")[-2500:])

    def build(targets, what):
        j = d.choice([[], [], ["-j1"], ["-j2"]])
        r = run("samu", *(j + targets), cwd=b)
        if r.rc:
            raise Fail("%s: the build fails\n%s" % (what, r.out.decode("utf-8", "replace")[-3000:]))
        return r

    def path(t):
        return (t.dir + "/" if t.dir else "") + t.name

    def check(t, what):
        f = b + "/" + path(t)
        if not os.path.exists(f):
            raise Fail("%s: %s is not built" % (what, path(t)))
        r = ctx.run([f], cwd=w, merge=True, wall=60)
        if r.rc:
            raise Fail("%s: %s fails: %s\n%s" % (what, path(t), r.why(), r.out.decode("utf-8", "replace")[-1500:]))
        got = set(r.out.decode().splitlines())
        # which target compiled a unit is settled when only one does
        lines = {x for x in got if x.startswith("u")}
        ctors = {int(x.split()[1]) for x in got if x.startswith("ctor")}
        owner = {u: q for q in p.tgts for u in q.units}
        reach, todo = set(), [t.units[0]]
        while todo:
            k = todo.pop()
            if k not in reach:
                reach.add(k)
                todo += p.units[k].refs
        want = {p.line(k, owner[k]) for k in reach}
        byk = {x.split()[0]: x for x in want}

        def mask(x):
            y = byk.get(x.split()[0], "")
            for m in y.split():
                if m.endswith("=?"):
                    x = " ".join(m if z.startswith(m[:-1]) else z for z in x.split())
            return x
        lines = {mask(x) for x in lines}
        if lines != want:
            raise Fail("%s: %s prints\n%s\nnot\n%s" % (what, path(t), "\n".join(sorted(lines - want)), "\n".join(sorted(want - lines))))
        must, may = p.loaded(t)
        may |= reach
        must |= reach
        if not must <= ctors:
            raise Fail("%s: %s does not contain units %s" % (what, path(t), sorted(must - ctors)))
        if not ctors <= may:
            raise Fail("%s: %s contains units %s" % (what, path(t), sorted(ctors - may)))

    def check_all(what):
        for t in exes:
            if t.default or t in built:
                check(t, what)
    built = set()
    if d.bool(0.4):
        # one at a time
        d.label("one target at a time")
        for t in d.shuffle(exes):
            build([path(t)], "first build of %s" % path(t))
            built.add(t)
            check(t, "first build of %s" % path(t))
    build([], "first build")
    check_all("first build")
    if d.bool(0.5):
        rest = [t for t in exes if not t.default and t not in built]
        for t in rest:
            build([path(t)], "explicit build of %s" % path(t))
            built.add(t)
            check(t, "explicit build of %s" % path(t))

    def idle(what):
        r = run("samu", cwd=b)
        if r.out.strip():
            raise Fail("%s: a second build does something\n%s" % (what, r.out.decode("utf-8", "replace")[-1500:]))
    idle("first build")
    done = []
    for _ in d.many(0, 4, 0.6):
        e = edit(d, p)
        if e is None:
            continue
        d.label("edit " + e.split()[0])
        if not consistent(p):
            raise Reject
        done.append(e)
        d.note("edit: " + e)
        touch = d.choice(sorted(files)) if e == "touch" else None
        sync(touch)
        what = "after " + ", ".join(done)
        if built and d.bool(0.3):
            t = d.choice(sorted(built, key=lambda t: t.n))
            build([path(t)], what)
            check(t, what)
        build([], what)
        for t in sorted(built, key=lambda t: t.n):
            if not t.default:
                build([path(t)], what)
        check_all(what)
        idle(what)
    d.nontrivial = len(p.tgts) >= 3 and len(p.units) >= 3


pbt.main(pbt.Spec("C16", case, quick=450, thorough=6000, builds=("fast",),
                  rule="at least three targets and three compiled sources",
                  assumptions=["gcc, ld.bfd and ar do what their documentation says", "a source is edited after the build has ended"]))
