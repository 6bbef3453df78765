#!/usr/bin/env python3
"""C17: generated projects and edits: a regenerated build directory against one set up and built from scratch."""
import os, re, sys, shutil, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Fail, Reject, write, mstr

DIRS = ["", "d1/", "d 2/"]
VALS = ["1", "two", "a b", "q'q", "$x", "é", "", "x:y", "42"]
# what may differ: logs, caches of results, what the tool records about its own runs
SKIP = re.compile(r"(^|/)(\.ninja_log|\.ninja_deps|\.samu_log|compiler_check_cache\.dat|\.muon/test\.\w+|\.muon/muon-log.*)$")


# the options record where each value came from, what the environment set is given again as an argument
WITHENV = re.compile(r"(^|/)option_info\.dat$")


def tree(b):
    r = {}
    for x, ds, fs in os.walk(b):
        for f in fs:
            p = os.path.join(x, f)
            rel = os.path.relpath(p, b)
            if SKIP.search(rel) or WITHENV.search(rel):
                continue
            r[rel] = "-> " + os.readlink(p) if os.path.islink(p) else open(p, "rb").read()
    return r


class Item:
    """a statement in some directory's build file"""


class Proj:
    def __init__(self, d):
        self.d = d
        self.items = []  # (dir, kind, n, value)
        self.n = 0
        self.dirs = {""}
        self.sub = False
        self.opts = {}
        self.files = {}
        self.title, self.version = "proj", None
        self.pdefs = {}
        self.broken = None
        self.argorder = []

    def new(self, dir=None):
        d = self.d
        self.n += 1
        return dict(dir=d.choice(sorted(self.dirs) + (["sub/"] if self.sub else [])) if dir is None else dir, n=self.n, v=d.choice(VALS),
                    kind=d.choice(["conf", "tmpl", "ct", "ctopt", "exe", "lib", "test", "data", "headers", "subdir", "run", "read", "vcs", "gen", "args", "pc", "copy", "iscript", "summary", "envs", "cfgdict", "far", "dep", "opt", "check"]))

    def emit(self):
        d = self.d
        f = {}
        out = {x: [] for x in sorted(self.dirs)}
        if self.sub:
            out["sub/"] = []
        pd = dict(self.pdefs)
        head = "project(%s, 'c'%s%s)" % (mstr(self.title), ", version: '%s'" % self.version if self.version else "", ", default_options: [%s]" % ", ".join(mstr("%s=%s" % x) for x in sorted(pd.items())) if pd else "")
        out[""].append(head)
        out[""].append("cp = find_program('cp')\nshow = find_program('show.sh')\ngen = generator(cp, output: '@BASENAME@.g.c', arguments: ['@INPUT@', '@OUTPUT@'])")
        if self.sub:
            out["sub/"].append("project('sub', 'c')\ncp = find_program('cp')\nshow = find_program('show.sh')\ngen = generator(cp, output: '@BASENAME@.g.c', arguments: ['@INPUT@', '@OUTPUT@'])")
            f["subprojects/sub/show.sh"] = "#!/bin/sh\nout=$1; shift; printf '%s\\n' \"$@\" > \"$out\"\n"
        f["show.sh"] = "#!/bin/sh\nout=$1; shift; printf '%s\\n' \"$@\" > \"$out\"\n"
        if self.opts:
            f["meson_options.txt"] = "\n".join("option('%s', type: 'string', value: %s)" % (k, mstr(v)) for k, v in sorted(self.opts.items())) + "\n"
        for it in self.items:
            if it["dir"] not in out:
                continue
            o, n, v, k = out[it["dir"]], it["n"], it["v"], it["kind"]
            base = "subprojects/sub/" if it["dir"] == "sub/" else it["dir"]
            ident = re.sub(r"[^a-z0-9]", "", v)
            m = mstr(v)
            if k == "conf":
                o.append("configure_file(output: 'c%d.h', configuration: {'V': %s, 'A': true, 'Z%s': 1})" % (n, m, ident))
            elif k == "tmpl":
                f[base + "t%d.in" % n] = "a @V@ %s\n" % v
                o.append("configure_file(input: 't%d.in', output: 't%d.txt', configuration: {'V': 'val'})" % (n, n))
            elif k == "copy":
                f[base + "k%d.in" % n] = "copy %s\n" % v
                o.append("configure_file(input: 'k%d.in', output: 'k%d.txt', copy: true, install: true, install_dir: 'share')" % (n, n))
            elif k == "ct":
                o.append("custom_target('ct%d', output: 'o%d.txt', command: [show, '@OUTPUT@', %s], build_by_default: true)" % (n, n, m))
            elif k == "envs":
                o.append("custom_target('en%d', output: 'e%d.txt', command: ['sh', '-c', 'echo \"$V$A\" > \"$0\"', '@OUTPUT@'], env: {'V': %s, 'A': 'a', 'B%s': 'b'}, build_by_default: true)" % (n, n, m, ident))
            elif k == "ctopt":
                o.append("custom_target('co%d', output: 'p%d.txt', command: [show, '@OUTPUT@', get_option('optimization'), get_option('prefix')%s], build_by_default: true)" % (
                    n, n, "".join(", get_option('%s')" % x for x in sorted(self.opts)) if base != "subprojects/sub/" else ""))
            elif k == "exe":
                f[base + "x%d.c" % n] = "#include <stdio.h>\nint main(void) { puts(%s); return 0; }\n" % cstr(v)
                o.append("executable('x%d', 'x%d.c', c_args: '-DI%s', install: true)" % (n, n, ident))
            elif k == "lib":
                f[base + "l%d.c" % n] = "const char *l%d(void) { return %s; }\n" % (n, cstr(v))
                o.append("%s('l%d', 'l%d.c')" % ({1: "shared_library", 2: "static_library"}.get(len(v), "library"), n, n))
            elif k == "test":
                o.append("test('t%d', show, args: ['/dev/null', %s], suite: 's%s', timeout: %d)" % (n, m, ident, 10 + len(v)))
            elif k == "data":
                f[base + "data%d" % n] = v
                o.append("install_data('data%d', install_dir: 'share/p%s')" % (n, ident))
            elif k == "headers":
                f[base + "h%d.h" % n] = v
                o.append("install_headers('h%d.h', subdir: 'i%s')" % (n, ident))
            elif k == "subdir":
                f[base + "sd%d/f" % n] = v
                o.append("install_subdir('sd%d', install_dir: 'share/q%s')" % (n, ident))
            elif k == "run":
                f[base + "r%d.txt" % n] = v
                o.append("r%d = run_command('cat', files('r%d.txt'), check: true).stdout()\ncustom_target('rc%d', output: 'rc%d.txt', command: [show, '@OUTPUT@', r%d], build_by_default: true)" % (n, n, n, n, n))
            elif k == "read":
                if n % 2:
                    f[base + "kv%d.txt" % n] = "# c\nA = %s\n" % v
                    o.append("configure_file(output: 'kv%d.h', configuration: {'R': import('keyval').load(files('kv%d.txt'))['A']})" % (n, n))
                    continue
                f[base + "rd%d.txt" % n] = v
                o.append("configure_file(output: 'rd%d.h', configuration: {'R': import('fs').read('rd%d.txt')})" % (n, n))
            elif k == "vcs":
                f[base + "v%d.in" % n] = "@VCS_TAG@ %s\n" % v
                o.append("vcs_tag(input: 'v%d.in', output: 'v%d.txt', command: ['echo', 'tag%s'], fallback: 'none')" % (n, n, ident))
            elif k == "gen":
                f[base + "g%d.txt" % n] = "int g%d = %d;\nint main(void) { return 0; }\n" % (n, len(v))
                o.append("executable('g%d', gen.process('g%d.txt'))" % (n, n))
            elif k == "args":
                o.insert(3 if base in ("", "subprojects/sub/") else 0, "add_project_arguments('-DP%d=%s', language: 'c')" % (n, ident))
            elif k == "pc":
                o.append("import('pkgconfig').generate(name: 'pc%d', description: %s, version: '1.%d', filebase: 'pc%d')" % (n, mstr("d " + v.replace("$", "")), len(v), n))
            elif k == "iscript":
                o.append("meson.add_install_script(show, '/dev/null', %s)" % m)
            elif k == "summary":
                o.append("summary('s%d', %s)" % (n, m))
            elif k == "cfgdict":
                o.append("cd%d = configuration_data({'B': 1, 'A': %s})\ncd%d.set('C%s', 2)\nconfigure_file(output: 'cd%d.h', configuration: cd%d)" % (n, m, n, ident, n, n))
            elif k == "far":
                # a template kept elsewhere in the source tree
                f["far/f%d.in" % n if base != "subprojects/sub/" else base + "far/f%d.in" % n] = "far @V@ %s\n" % v
                o.append("configure_file(input: meson.project_source_root() / 'far' / 'f%d.in', output: 'f%d.txt', configuration: {'V': 1})" % (n, n))
            elif k == "dep":
                o.append("de%d = declare_dependency(compile_args: '-DQ%s')\nsubdir_dep%d = static_library('dl%d', files('e.c'), dependencies: de%d)" % (n, ident, n, n, n))
                f[base + "e.c"] = "int e;\n"
            elif k == "opt":
                o.append("message('opt', get_option('buildtype'), get_option('werror'), %s)" % m)
            elif k == "check":
                o.append("if meson.get_compiler('c').has_header('%s.h')\n  custom_target('ck%d', output: 'ck%d.txt', command: [show, '@OUTPUT@', 'has'], build_by_default: true)\nendif" % (["stdio", "nosuchheader"][len(v) % 2], n, n))
        if self.broken:
            out[self.broken[0]].append(self.broken[1])
        for x in sorted(self.dirs):
            if x:
                out[""].append("subdir('%s')" % x[:-1])
        if self.sub:
            out[""].append("subproject('sub')")
        for x, o in out.items():
            f[("subprojects/sub/" if x == "sub/" else x) + "meson.build"] = "\n".join(o) + "\n"
        return f


def cstr(v):
    return '"%s"' % v.replace("\\", "\\\\").replace('"', '\\"')


def case(d, ctx):
    root = ctx.fresh()
    src, b = root + "/s", root + "/s/b" if d.bool(0.7) else root + "/b x"
    p = Proj(d)
    if d.bool(0.4):
        p.dirs.add("d1/")
    if d.bool(0.2):
        p.dirs.add("d 2/")
    p.sub = d.bool(0.35)
    if d.bool(0.5):
        p.opts = {"o%d" % i: d.choice(VALS) for i in range(d.int(1, 2))}
    for _ in range(d.int(2, 7)):
        p.items.append(p.new())
    have = {}

    def sync():
        new = p.emit()
        for f in list(have):
            if f not in new:
                os.unlink(src + "/" + f)
                del have[f]
                x = os.path.dirname(src + "/" + f)
                while x != src and not os.listdir(x):
                    os.rmdir(x)
                    x = os.path.dirname(x)
        for f, c in new.items():
            if have.get(f) != c:
                write(src + "/" + f, c, 0o755 if f.endswith(".sh") else 0o644)
                have[f] = c
    sync()

    def args_for():
        a = []
        if d.bool(0.3):
            a.append("-Dbuildtype=" + d.choice(["plain", "debug", "release"]))
        if d.bool(0.15):
            a.append("-Dprefix=" + d.choice(["/opt/x", "/usr", "/a b"]))
        if d.bool(0.15):
            a.append("-Dc_args=" + d.choice(["-DX=1", "-DX=1,-DY=2", "['-DX=\"q q\"']"]))
        if p.opts and d.bool(0.3):
            a.append("-D%s=%s" % (sorted(p.opts)[0], d.choice(VALS)))
        return a
    args = args_for()
    env = {}
    if d.bool(0.2):
        env["CFLAGS"] = d.choice(["-DENV=1", "-DENV=1 -DENV2=2"])
    if d.bool(0.1):
        env["LDFLAGS"] = "-Wl,-O1"
    if d.bool(0.1):
        env["CC"] = d.choice(["cc", "gcc -std=gnu11"])
    d.sample = repr(args) + repr(env) + "\n" + "\n".join("--- %s\n%s" % x for x in sorted(have.items()) if x[0].endswith("meson.build") or x[0].endswith("options.txt"))
    d.key = d.sample
    d.note(d.sample)
    if env:
        d.label("env " + " ".join(sorted(env)))

    def run(what, *a, **kw):
        e = pbt.clean_env(kw.pop("env", None), ctx.home)
        if "CC" not in env:
            e.pop("CC", None)
        r = ctx.run([ctx.muon] + list(a), wall=200, cpu=100, merge=True, full_env=e, **kw)
        if r.crashed:
            raise Fail("%s: %s\n%s" % (what, r.why(), r.out.decode("utf-8", "replace")[-1500:]))
        return r.rc, r.out.decode("utf-8", "replace")

    def setup(what):
        e = dict(env)
        return run(what, "setup", *(args + [b]), cwd=src, env=e)

    def samu(what, *a):
        return run(what, "samu", *a, cwd=b)

    def compare(x, y, what, stale):
        for f in sorted(set(x) | set(y)):
            if f not in x:
                raise Fail("%s: %s is missing" % (what, f))
            if f not in y:
                if stale:
                    continue
                raise Fail("%s: %s is there" % (what, f))
            if x[f] != y[f]:
                i = next((i for i, (p, q) in enumerate(zip(x[f], y[f])) if p != q), min(len(x[f]), len(y[f])))
                raise Fail("%s: %s differs: %r, not %r" % (what, f, x[f][max(0, i - 60):i + 120], y[f][max(0, i - 60):i + 120]))
    rc, out = setup("setup")
    if rc:
        raise Fail("setup fails\n" + out[-2000:])
    t0 = tree(b)
    os.rename(b, root + "/old")
    rc, out = setup("second setup")
    if rc:
        raise Fail("a second setup fails\n" + out[-2000:])
    compare(t0, tree(b), "the first setup", False)
    shutil.rmtree(root + "/old")
    if d.bool(0.8):
        rc, out = samu("build")
        if rc:
            raise Fail("the build fails\n" + out[-2000:])
    log = []
    rounds = 0
    for _ in d.many(1, 4, 0.55):
        rounds += 1
        time.sleep(0.012)
        for _ in d.many(1, 3, 0.4):
            e = edit(d, p)
            if e:
                log.append(e)
                d.label("edit " + e.split()[0])
        sync()
        what = "after " + ", ".join(log)
        d.note("edits: " + what)
        how = d.weighted([(6, "samu"), (2, "target"), (2, "setup"), (1, "setup with other options"), (1, "twice")])
        d.label("by " + how)
        if how == "setup with other options":
            prev, args = args, args_for()
            d.note("arguments: %r" % args)
        if how.startswith("setup"):
            rc, out = setup(what)
            log.append(how + repr(args))
            if rc and how != "setup":
                # the build directory keeps what it was last configured with
                args = prev
        elif how == "target":
            rc, out = samu(what, "build.ninja")
        else:
            rc, out = 0, ""
        if rc == 0:
            rc, out = samu(what)
        if how == "twice":
            rc, out = samu(what)
        os.rename(b, root + "/old")
        rc2, out2 = setup(what)
        if rc2 == 0:
            rc2, out2 = samu(what)
            if rc2:
                raise Fail("%s: a fresh build fails\n%s" % (what, out2[-2000:]))
        elif not p.broken:
            raise Fail("%s: a fresh setup fails\n%s" % (what, out2[-2000:]))
        if (rc == 0) != (rc2 == 0):
            raise Fail("%s: the build %s, one from scratch %s\n%s" % (what, "fails" if rc else "succeeds", "fails" if rc2 else "succeeds", (out if rc else out2)[-2000:]))
        if rc == 0:
            compare(tree(root + "/old"), tree(b), what, True)
        # go on with the old one
        shutil.rmtree(b)
        os.rename(root + "/old", b)
        if rc == 0:
            m = os.stat(b + "/build.ninja").st_mtime_ns
            rc, out = samu(what + ", again")
            if rc or out.strip():
                raise Fail("%s: a second build does something\n%s" % (what, out[-1500:]))
            if os.stat(b + "/build.ninja").st_mtime_ns != m:
                raise Fail("%s: a second build regenerates" % what)
        else:
            d.label("broken")
    d.nontrivial = rounds > 0 and len(log) > 0


def edit(d, p):
    k = d.weighted([(4, "add"), (4, "change"), (3, "remove"), (2, "option"), (1, "version"), (1, "dir"), (1, "default"), (2, "break"), (1, "sub"), (1, "swap"), (1, "touch")])
    if p.broken and d.bool(0.7):
        p.broken = None
        return "mend"
    if k == "add":
        p.items.append(p.new())
        return "add %s %d" % (p.items[-1]["kind"], p.n)
    if k == "change" and p.items:
        it = d.choice(p.items)
        it["v"] = d.choice(VALS)
        return "change %s %d" % (it["kind"], it["n"])
    if k == "remove" and p.items:
        it = d.choice(p.items)
        p.items.remove(it)
        return "remove %s %d" % (it["kind"], it["n"])
    if k == "option" and p.opts:
        o = d.choice(sorted(p.opts))
        p.opts[o] = d.choice(VALS)
        return "option " + o
    if k == "version":
        p.version = d.choice([None, "1.0", "2.0"])
        return "version"
    if k == "dir":
        x = d.choice(["d1/", "d 2/"])
        if x in p.dirs:
            p.dirs.remove(x)
            if p.broken and p.broken[0] == x:
                p.broken = None
        else:
            p.dirs.add(x)
        return "dir " + x
    if k == "default":
        p.pdefs[d.choice(["optimization", "warning_level"])] = d.choice(["0", "2", "3"])
        return "default"
    if k == "break":
        p.broken = (d.choice(sorted(p.dirs)), d.choice(["error('broken')", "x = (", "files('nosuchfile')", "subdir('nosuchdir')"]))
        return "break"
    if k == "sub":
        p.sub = not p.sub
        if p.broken and p.broken[0] == "sub/":
            p.broken = None
        return "sub"
    if k == "swap" and len(p.items) > 1:
        i = d.int(0, len(p.items) - 2)
        p.items[i], p.items[i + 1] = p.items[i + 1], p.items[i]
        return "swap"
    return None


pbt.main(pbt.Spec("C17", case, quick=400, thorough=12000, builds=("fast",),
                  rule="at least one edit was followed by a regeneration compared with a build from scratch",
                  assumptions=["files are edited at least one clock tick after the last configuration", "gcc, ld.bfd and ar give the same output for the same input"]))
