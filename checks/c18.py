#!/usr/bin/env python3
"""C18: trees of subprojects that assign, fail, override and repeat, against a model of what each project may see."""
import os, re, sys, copy
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Fail, Reject, write, mstr

VARS = ["v0", "v1", "v2"]
MACROS = ["M0", "M1", "M2"]
DEPS = ["depa", "depb", "depc"]
PROGS = ["proga", "progb"]
SUBS = ["sa", "sb", "sc"]
MISSING = "no-such-thing-anywhere"


class Stop(Exception):
    """the project being configured fails here"""


class P:
    def __init__(self, name, path, parent):
        self.name, self.path, self.parent = name, path, parent
        self.vars = {}  # ints; strings are expressions' texts
        self.objs = {}  # variable -> ("sub", P or None) / ("dep", dict or None)
        self.args = []
        self.lists = {}
        self.opts = {}
        self.version = None
        self.targets = []  # (name, macros)
        self.tests = []
        self.n = 0
        self.spdir = "subprojects"


class W:
    """what is shared, and put back when a subproject fails"""

    def __init__(self):
        self.subs, self.deps, self.progs = {}, {}, {}
        self.install, self.post, self.scripts, self.projects, self.sums = [], [], [], [], []

    def save(self):
        return {k: copy.copy(v) for k, v in self.__dict__.items()}

    def load(self, s):
        self.__dict__.update(s)


class Gen:
    def __init__(self, d):
        self.d, self.w = d, W()
        self.files = {}
        self.msgs = []
        self.glob = []
        self.uid = 0
        self.exist = {}
        self.nproj = 0
        self.log_all = []

    def id(self):
        self.uid += 1
        return self.uid

    def say(self, o, expr, val):
        """a message with an expression whose value is known"""
        i = self.id()
        o.append("message('T%d', %s)" % (i, expr))
        self.msgs.append("T%d %s" % (i, val))

    def project(self, p, defaults, depth, sub_defaults=()):
        d = self.d
        o = []
        if p.parent is None:
            self.main = p
        self.files[p.path + "meson.build"] = o
        self.nproj += 1
        p.title = d.choice(["P-" + p.name, p.name])
        p.version = d.choice([None, "1.0", "2.0", "3.1"])
        p.lic = d.choice(["MIT", "BSD"])
        opts = {}
        # project options
        if d.bool(0.8):
            opts["o"] = "declared-" + p.name
            self.files[p.path + "meson_options.txt"] = ["option('o', type: 'string', value: %s)" % mstr(opts["o"])]
        pd = {}
        if "o" in opts and d.bool(0.3):
            pd["o"] = "own-" + p.name
        if d.bool(0.3):
            pd["warning_level"] = d.choice(["0", "1", "2", "3"])
        if d.bool(0.25):
            pd["default_library"] = d.choice(["static", "shared", "both"])
        opts.update(pd)
        for k, v in sub_defaults:
            if k == "o" and "o" not in opts:
                raise Reject
            opts[k] = v
        p.opts = opts
        kw = []
        if p.version:
            kw.append("version: '%s'" % p.version)
        kw.append("license: '%s'" % p.lic)
        if pd:
            kw.append("default_options: [%s]" % ", ".join(mstr("%s=%s" % x) for x in pd.items()))
        if p.parent is None and d.bool(0.25):
            p.spdir = "sp"
            kw.append("subproject_dir: 'sp'")
        o.append("project('%s', 'c', %s)" % (p.title, ", ".join(kw)))
        self.w.projects.append(p)
        if p.parent is None:
            for _ in d.many(0, 2, 0.4):
                a = "-D%s=%d" % (d.choice(["G0", "G1"]), d.int(0, 9))
                o.append("add_global_arguments('%s', language: 'c')" % a)
                self.glob.append(a)
        self.say(o, "'begin %s'" % p.name, "begin " + p.name)
        self.block(p, o, depth, d.int(2, 9), 0)
        self.say(o, "'end %s'" % p.name, "end " + p.name)

    def block(self, p, o, depth, n, level):
        d = self.d
        for _ in range(n):
            k = d.weighted([(4, "assign"), (5, "probe"), (2, "args"), (3, "target"), (2, "opt"), (2, "where"), (7 if depth < 3 else 0, "sub"), (3, "getvar"),
                            (2, "dep"), (2, "override"), (2, "progoverride"), (2, "prog"), (2, "install"), (2, "test"), (1, "conf"), (1, "post"), (1, "iscript"), (1, "sum"),
                            (1 if level < 2 else 0, "subdir"), (1 if level < 2 else 0, "if"), (1 if level < 2 else 0, "foreach"), (2, "fallback"), (1, "unset"),
                            (2 if depth > 0 else 0, "die"), (1, "func"), (3, "list")])
            getattr(self, "s_" + k)(p, o, depth, level)

    # ---- statements
    def s_assign(self, p, o, depth, level):
        d = self.d
        v, x = d.choice(VARS), d.int(0, 99)
        o.append(d.choice(["%s = %d", "set_variable('%s', %d)"]) % (v, x))
        p.vars[v] = x

    def s_list(self, p, o, depth, level):
        """lists, some of them taken from a subproject; adding to one changes no other"""
        d = self.d
        v = d.choice(["l0", "l1"])
        k = d.choice(["new", "add", "take", "say", "say"])
        c = [x for x, (t, q) in p.objs.items() if t == "sub" and q and q.lists]
        if k == "new" or v not in p.lists and not (k == "take" and c):
            x = [str(d.int(0, 9)) for _ in range(d.int(1, 3))]
            o.append("%s = [%s]" % (v, ", ".join(map(mstr, x))))
            p.lists[v] = x
        elif k == "take" and c:
            x = d.choice(sorted(c))
            n = d.choice(sorted(p.objs[x][1].lists))
            if d.bool():
                o.append("%s = %s.get_variable('%s')" % (v, x, n))
                p.lists[v] = list(p.objs[x][1].lists[n])
            self.say(o, "','.join(%s.get_variable('%s'))" % (x, n), ",".join(p.objs[x][1].lists[n]))
        elif k == "add":
            x = str(d.int(0, 9))
            o.append("%s += ['%s']" % (v, x))
            p.lists[v] = p.lists[v] + [x]
        else:
            self.say(o, "','.join(%s)" % v, ",".join(p.lists[v]))

    def s_unset(self, p, o, depth, level):
        if p.vars:
            v = self.d.choice(sorted(p.vars))
            o.append("unset_variable('%s')" % v)
            del p.vars[v]

    def s_probe(self, p, o, depth, level):
        v = self.d.choice(VARS)
        if v in p.vars and self.d.bool():
            self.say(o, v, p.vars[v])
        else:
            self.say(o, "get_variable('%s', 'unset')" % v, p.vars.get(v, "unset"))

    def s_func(self, p, o, depth, level):
        # built-in names are the same everywhere
        v = self.d.choice(VARS + ["message", "meson"])
        self.say(o, "is_variable('%s')" % v, "true" if v in p.vars or v == "meson" else "false")

    def s_args(self, p, o, depth, level):
        if p.targets:
            return
        a = "-D%s=%d" % (self.d.choice(MACROS), self.d.int(0, 9))
        o.append("add_project_arguments('%s', language: 'c')" % a)
        p.args.append(a)

    def s_target(self, p, o, depth, level):
        d = self.d
        p.n += 1
        n = "x%d" % p.n
        own, kw = [], ""
        deps = [v for v, (t, x) in p.objs.items() if t == "dep"]
        if deps and d.bool(0.7):
            v = d.choice(sorted(deps))
            kw = ", dependencies: " + v
            own = list(p.objs[v][1]["args"]) if p.objs[v][1] else []
        if d.bool(0.3):
            own.append("-DT=%d" % d.int(0, 9))
            kw += ", c_args: '%s'" % own[-1]
        sub = self.cur(o)
        o.append("executable('%s', 'x.c'%s)" % (n, kw))
        self.files[p.path + sub + "x.c"] = ["int main(void) { return 0; }"]
        p.targets.append((p, sub + n, own))

    def cur(self, o):
        """the directory the statements go to, relative to the project"""
        return getattr(self, "dirof", {}).get(id(o), "")

    def s_opt(self, p, o, depth, level):
        n = self.d.choice(["o", "warning_level", "default_library"])
        if n == "o" and "o" not in p.opts:
            return
        self.say(o, "get_option('%s')" % n, p.opts.get(n, self.main.opts.get(n) if n != "o" else None) or {"warning_level": "3", "default_library": "static"}.get(n))

    def s_where(self, p, o, depth, level):
        sub = self.cur(o)
        e, v = self.d.choice([
            ("meson.current_source_dir()", "@S@/" + p.path + sub), ("meson.current_build_dir()", "@B@/" + p.path + sub), ("meson.project_source_root()", "@S@/" + p.path), ("meson.project_build_root()", "@B@/" + p.path),
            ("meson.global_source_root()", "@S@/"), ("meson.global_build_root()", "@B@/"), ("meson.project_name()", p.title), ("meson.project_version()", p.version or "undefined"),
            ("meson.is_subproject()", "true" if p.parent else "false"), ("meson.project_license()[0]", p.lic)])
        self.say(o, e, v.rstrip("/"))

    def subname(self, p):
        up = set()
        while p:
            up.add(p.name)
            p = p.parent
        c = [x for x in SUBS if x not in up]
        return self.d.choice(c) if c else None

    def s_sub(self, p, o, depth, level):
        d = self.d
        # names of this project are mostly its own, sometimes somebody else's
        name = self.subname(p)
        if not name:
            return
        req = d.weighted([(2, ""), (2, "true"), (4, "false"), (1, "get_option('auto_features')"), (1, "get_option('auto_features').enable_auto_if(true)"), (1, "get_option('auto_features').disable_auto_if(true)")])
        skip = "disable_auto" in req
        if (skip and name in self.w.subs) or (not skip and name in self.skipped):
            return
        ver = d.choice([None, None, None, ">=1.0", "<2.0", "==3.1"])
        var = "s_" + name
        kw, sd = "", []
        if d.bool(0.3):
            sd = [("o", "given-%d" % d.int(0, 9))] if d.bool(0.6) else [("warning_level", d.choice(["0", "1", "2", "3"]))]
            kw += ", default_options: [%s]" % ", ".join(mstr("%s=%s" % x) for x in sd)
        if req:
            kw += ", required: " + req
        if ver:
            kw += ", version: '%s'" % ver
        o.append("%s = subproject('%s'%s)" % (var, name, kw))
        if skip:
            # whatever the subproject would do, it is not looked at
            self.skipped.add(name)
            path = p.path + p.spdir + "/" + name + "/meson.build"
            if path not in self.files and path[:-len("meson.build")] not in self.exist:
                self.files[path] = ["project('%s')" % name, "install_emptydir('/skipped-%s')" % name, "meson.override_dependency('%s', declare_dependency())" % DEPS[0], "message('[skipped] evaluated')", d.choice(["", "error('skipped')"])]
                self.exist[path[:-len("meson.build")]] = False
            self.label("skipped by a disabled feature")
            s = None
        else:
            s = self.subproject(p, name, req == "false" or req.endswith("features')"), ver, sd, depth)
        p.objs[var] = ("sub", s)
        self.say(o, "%s.found()" % var, "true" if s else "false")

    def s_getvar(self, p, o, depth, level):
        d = self.d
        c = [v for v, (t, x) in p.objs.items() if t == "sub" and x]
        if c:
            v = d.choice(sorted(c))
            n = d.choice(VARS)
            self.say(o, "%s.get_variable('%s', 'unset')" % (v, n), p.objs[v][1].vars.get(n, "unset"))

    def subproject(self, p, name, optional, ver, sd, depth):
        d, w = self.d, self.w

        def vok(s):
            if not ver:
                return True
            if not s.version:
                raise Reject
            a = [int(x) for x in s.version.split(".")]
            b = [int(x) for x in ver.strip("<>=").split(".")]
            return {">": a >= b, "<": a < b, "=": a == b}[ver[0]]
        if name in self.skipped:
            raise Reject
        if name in w.subs:
            s = w.subs[name]
            if s is None or not vok(s):
                self.label("repeated after failure" if s is None else "version of a configured one")
                if optional:
                    return None
                raise Stop
            self.label("repeated")
            return s
        path = p.path + p.spdir + "/" + name + "/"
        if path not in self.exist:
            self.exist[path] = d.bool(0.75) and self.nproj < 6
        if not self.exist[path]:
            if optional:
                return None
            raise Stop
        if path in self.evaluated:
            # a nested one whose parent failed: it is configured again, the same way only if nothing it depends on changed
            raise Reject
        self.evaluated.add(path)
        s = P(name, path, p)
        state = w.save()
        fail = None
        try:
            self.project(s, None, depth + 1, sd)
            if not vok(s):
                fail = Stop()
        except Stop as e:
            fail = e
        if fail:
            self.label("failed subproject" + (" with nested one" if any(k not in state["subs"] for k in w.subs) else ""))
            w.load(state)
            w.subs[name] = None
            if optional:
                return None
            raise fail
        w.subs[name] = s
        return s

    def label(self, x):
        self.d.label(x)

    def s_override(self, p, o, depth, level):
        d = self.d
        n = d.choice(DEPS)
        if n in self.w.deps or n in self.used:
            return
        a, v = ["-DD_%s=%d" % (n, d.int(0, 9))], d.choice(["0.5", "1.5", "2.5"])
        o.append("dep_%s = declare_dependency(compile_args: '%s', version: '%s')\nmeson.override_dependency('%s', dep_%s)" % (n, a[0], v, n, n))
        self.w.deps[n] = dict(args=a, version=v)
        p.objs["dep_" + n] = ("dep", self.w.deps[n])

    def s_dep(self, p, o, depth, level):
        d = self.d
        n = d.choice(DEPS)
        x = self.w.deps.get(n)
        o.append("dep_%s = dependency('%s', required: false)" % (n, n))
        p.objs["dep_" + n] = ("dep", x)
        self.say(o, "dep_%s.found()" % n, "true" if x else "false")
        if x:
            self.say(o, "dep_%s.version()" % n, x["version"])

    def s_fallback(self, p, o, depth, level):
        d = self.d
        n, name = d.choice(DEPS), self.subname(p)
        if n in self.w.deps:
            return self.s_dep(p, o, depth, level)
        if depth >= 3 or not name:
            return
        ver = d.choice([None, None, ">=1", ">=2"])
        o.append("dep_%s = dependency('%s', required: false, fallback: ['%s', 'dep_%s']%s)" % (n, n, name, n, ", version: '%s'" % ver if ver else ""))
        s = self.subproject(p, name, True, None, [], depth)
        x = None
        if s and s.objs.get("dep_" + n, (0, 0))[0] == "dep":
            x = s.objs["dep_" + n][1]
        if x and ver and float(x["version"]) < float(ver[2:]):
            x = None
        if x is None and s and n in self.w.deps:
            raise Reject
        self.label("fallback " + ("found" if x else "not found"))
        if x:
            self.used.add(n)
        p.objs["dep_" + n] = ("dep", x)
        self.say(o, "dep_%s.found()" % n, "true" if x else "false")

    def s_progoverride(self, p, o, depth, level):
        n = self.d.choice(PROGS)
        if n in self.w.progs:
            return
        sub = self.cur(o)
        f = "%s%s-impl.sh" % (sub, n)
        self.files[p.path + f] = ["#!/bin/sh", "echo %s of ./%s" % (n, p.path)]
        o.append("meson.override_find_program('%s', find_program('./%s-impl.sh'))" % (n, n))
        self.w.progs[n] = "%s of ./%s" % (n, p.path)

    def s_prog(self, p, o, depth, level):
        n = self.d.choice(PROGS)
        x = self.w.progs.get(n)
        o.append("prog_%s = find_program('%s', required: false)" % (n, n))
        self.say(o, "prog_%s.found()" % n, "true" if x else "false")
        if x:
            self.say(o, "run_command(prog_%s, check: true).stdout().strip()" % n, x)

    def s_install(self, p, o, depth, level):
        i, sub = self.id(), self.cur(o)
        self.files[p.path + sub + "data%d" % i] = ["data"]
        k = self.d.choice(["data", "conf", "subdir", "headers"])
        if k == "data":
            o.append("install_data('data%d', install_dir: 'share/x')" % i)
            self.w.install.append("share/x/data%d" % i)
        elif k == "headers":
            o.append("install_headers('data%d')" % i)
            self.w.install.append("include/data%d" % i)
        elif k == "subdir":
            self.files[p.path + sub + "dd%d/f" % i] = ["data"]
            o.append("install_subdir('dd%d', install_dir: 'share/y')" % i)
            self.w.install.append("share/y/dd%d/f" % i)
        else:
            o.append("configure_file(input: 'data%d', output: 'c%d', copy: true, install: true, install_dir: 'share/z')" % (i, i))
            self.w.install.append("share/z/c%d" % i)

    def s_test(self, p, o, depth, level):
        i = self.id()
        o.append("test('t', find_program('%s/log.sh'), args: ['test', '%d'])" % ("@S@", i))
        p.tests.append(i)

    def s_conf(self, p, o, depth, level):
        # the same output name in every project
        if self.cur(o) in p.__dict__.setdefault("conf", set()):
            return
        p.conf.add(self.cur(o))
        i = self.id()
        o.append("configure_file(output: 'cfg.txt', configuration: {'I': %d})" % i)
        self.confs[p.path + self.cur(o) + "cfg.txt"] = "#define I %d" % i

    def s_post(self, p, o, depth, level):
        i = self.id()
        o.append("meson.add_postconf_script(find_program('@S@/log.sh'), 'post', '%d')" % i)
        self.w.post.append(i)

    def s_iscript(self, p, o, depth, level):
        i = self.id()
        o.append("meson.add_install_script(find_program('@S@/log.sh'), 'install', '%d')" % i)
        self.w.scripts.append(i)

    def s_sum(self, p, o, depth, level):
        i = self.id()
        o.append("summary('key%d', 'SUM%d.')" % (i, i))
        self.w.sums.append(i)

    def s_subdir(self, p, o, depth, level):
        d = self.d
        n = d.choice(["d1", "d2"])
        path = self.cur(o) + n + "/"
        if p.path + path + "meson.build" in self.files:
            return
        o.append("subdir('%s')" % n)
        o2 = []
        self.files[p.path + path + "meson.build"] = o2
        self.dirof[id(o2)] = path
        self.keep.append(o2)
        self.block(p, o2, depth, d.int(1, 3), level + 1)
        o2.append("# end")

    def s_if(self, p, o, depth, level):
        o.append("if true")
        o2 = []
        self.dirof[id(o2)] = self.cur(o)
        self.keep.append(o2)
        try:
            self.block(p, o2, depth, self.d.int(1, 3), level + 1)
        finally:
            o += o2 or ["x = 0"]
            o.append("else\n  error('else')\nendif")

    def s_foreach(self, p, o, depth, level):
        o.append("foreach x : [1, 2]")
        o2 = []
        self.dirof[id(o2)] = self.cur(o)
        self.keep.append(o2)
        try:
            self.block(p, o2, depth, self.d.int(1, 3), level + 1)
        finally:
            o += o2
            o.append("  break\nendforeach")

    def s_die(self, p, o, depth, level):
        d = self.d
        if d.bool(0.4):
            return
        k = d.choice(["error('stop')", "y = nosuchvariable", "dependency('%s')" % MISSING, "files('%s')" % MISSING, "assert(false)", "subproject('%s')" % MISSING, "y = 1 + 'a'", "subdir('%s')" % MISSING,
                      "find_program('%s')" % MISSING, "run_command('false', check: true)"])
        o.append(k)
        raise Stop


def case(d, ctx):
    root = ctx.fresh()
    src, b = root + "/src", root + "/b"
    g = Gen(d)
    g.dirof, g.keep, g.confs, g.evaluated, g.used, g.skipped = {}, [], {}, set(), set(), set()
    main = P("main", "", None)
    ok = True
    try:
        g.project(main, None, 0)
    except Stop:
        ok = False
        d.label("main fails")
    w = g.w
    for f, o in g.files.items():
        t = "\n".join(o).replace("@S@", src) + "\n"
        write(src + "/" + f, t, 0o755 if f.endswith(".sh") else 0o644)
    write(src + "/log.sh", "#!/bin/sh\necho \"$@\" >> '%s/log'\n" % root, 0o755)
    for p, there in g.exist.items():
        if there and not os.path.exists(src + "/" + p):
            raise Fail("harness: " + p)
    d.key = d.sample = "\n".join("--- %s\n%s" % (f, "\n".join(o)) for f, o in sorted(g.files.items()) if f.endswith("meson.build") or f.endswith("options.txt"))
    d.note(d.sample)
    d.label("projects %d" % g.nproj)

    def run(*a, **kw):
        r = ctx.run([ctx.muon] + list(a), wall=120, cpu=60, merge=True, **kw)
        if r.crashed:
            raise Fail("%s: %s\n%s" % (a, r.why(), r.out.decode("utf-8", "replace")[-1500:]))
        return r.rc, r.out.decode("utf-8", "replace")
    rc, out = run("setup", b, cwd=src)
    got = [x[len("message: "):].strip() for x in out.splitlines() if x.startswith("message: T")]
    want = [m.replace("@S@", src).replace("@B@", b) for m in g.msgs]
    if got != want:
        i = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
        raise Fail("message %d is %r, not %r\n%s" % (i, got[i:i + 1], want[i:i + 1], out[-2500:]))
    if (rc == 0) != ok:
        raise Fail("setup %s\n%s" % ("fails" if rc else "succeeds", out[-2500:]))
    d.nontrivial = g.nproj > 1

    def log():
        if not os.path.exists(root + "/log"):
            return []
        t = open(root + "/log").read().split("\n")[:-1]
        os.unlink(root + "/log")
        return t
    l = log()
    if not ok:
        if l:
            raise Fail("postconf scripts of a project that failed ran: %s" % l)
        return
    if l != ["post %d" % i for i in w.post]:
        raise Fail("postconf scripts %s ran, not %s" % (l, w.post))
    sums = re.findall(r"SUM(\d+)\.", out)
    if sorted(map(int, sums)) != sorted(w.sums):
        raise Fail("summaries %s, not %s\n%s" % (sums, w.sums, out[-1500:]))
    for f, c in g.confs.items():
        owner = [p for p in w.projects if f.startswith(p.path)]
        top = max(owner, key=lambda p: len(p.path))
        if any(f.startswith(e) and e not in [p.path for p in w.projects] for e in g.exist):
            continue  # of a failed one
        t = open(b + "/" + f).read() if os.path.exists(b + "/" + f) else None
        if t is None or c not in t:
            raise Fail("%s contains %r, not %r" % (f, t, c))
    # compile commands
    rc, out = run("samu", "-n", "-v", cwd=b)
    if rc:
        raise Fail("samu -n fails\n" + out[-1500:])
    cmds = {}
    for x in out.splitlines():
        m = re.search(r" -o (\S+) -c (\S+)$", x)
        if m:
            cmds[m.group(1)] = re.findall(r"(?<=\s)(-D(?:G\d|M\d|T|D_\w+)=\d+)(?=\s)", x)
    exp = {}
    for p in w.projects:
        for q, n, own in p.targets:
            exp[p.path + n + ".p/x.c.o"] = g.glob + p.args + own
    if set(cmds) != set(exp):
        raise Fail("the build compiles %s, not %s" % (sorted(set(cmds) - set(exp)), sorted(set(exp) - set(cmds))))
    for k in exp:
        if sorted(cmds[k]) != sorted(exp[k]) or [x for x in cmds[k] if x[2] in "GM"] != [x for x in exp[k] if x[2] in "GM"]:
            raise Fail("%s is compiled with %s, not %s" % (k, cmds[k], exp[k]))
    # tests and installation
    rc, out = run("samu", cwd=b) if exp and d.bool(0.15) else (0, "")
    if rc:
        raise Fail("the build fails\n" + out[-1500:])
    ts = sorted(i for p in w.projects for i in p.tests)
    rc, out = run("test", "-R", cwd=b)
    l = log()
    if rc or sorted(l) != sorted("test %d" % i for i in ts):
        raise Fail("muon test gives %d and runs %s, not %s\n%s" % (rc, l, ts, out[-1500:]))
    rc, out = run("install", "-d", root + "/dest", cwd=b)
    l = log()
    fs = sorted(os.path.relpath(os.path.join(x, f), root + "/dest/usr/local") for x, _, ff in os.walk(root + "/dest") for f in ff)
    if rc or l != ["install %d" % i for i in w.scripts]:
        raise Fail("muon install gives %d and runs %s, not %s\n%s" % (rc, l, w.scripts, out[-1500:]))
    if fs != sorted(set(w.install)):
        raise Fail("installed %s, not %s" % (sorted(set(fs) - set(w.install)), sorted(set(w.install) - set(fs))))


pbt.main(pbt.Spec("C18", case, quick=2500, thorough=60000, builds=("fast",),
                  rule="at least one subproject was configured",
                  assumptions=["projects are the only writers of their source trees while they are configured"]))
