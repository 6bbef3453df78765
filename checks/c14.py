#!/usr/bin/env python3
"""C14: the tree muon install leaves against a model of the declared installation."""
import os, sys, stat
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt, rec
from pbt import Fail, write, mstr

SCRIPT = r"""#!/bin/sh
id=$1; st=$2; see=$3; shift 3
{
echo "RUN $id"
echo "CWD $PWD"
echo "DESTDIR ${DESTDIR-unset}"
echo "PREFIX $MESON_INSTALL_PREFIX"
echo "FULL $MESON_INSTALL_DESTDIR_PREFIX"
echo "SRC $MESON_SOURCE_ROOT"
echo "BUILD $MESON_BUILD_ROOT"
echo "DRY ${MESON_INSTALL_DRY_RUN-unset}"
if [ -n "$see" ]; then if [ -e "$see" ] || [ -L "$see" ]; then echo "SEE 1"; else echo "SEE 0"; fi; fi
for a; do echo "ARG $a"; done
} >> "$RECLOG"
if [ -z "$MESON_INSTALL_DRY_RUN" ]; then
mkdir -p "$MESON_INSTALL_DESTDIR_PREFIX" && echo "made $id" > "$MESON_INSTALL_DESTDIR_PREFIX/made_$id" && chmod 644 "$MESON_INSTALL_DESTDIR_PREFIX/made_$id"
fi
case $st in
k) kill -9 $$;;
*) exit $st;;
esac
"""


def rwx(m, d, isdir=False):
    """an install_mode string for the permission bits m (with setuid, setgid; sticky for directories)"""
    s = "".join(c if m & (0o400 >> i) else "-" for i, c in enumerate("rwxrwxrwx"))
    s = list(s)
    for bit, i, c in ((0o4000, 2, "s"), (0o2000, 5, "s"), (0o1000, 8, "t")):
        if m & bit:
            s[i] = c if s[i] == "x" else c.upper()
    return "".join(s)


class W:
    pass


def case(d, ctx):
    w = ctx.fresh()
    s, b, log = w + "/s", w + "/b", w + "/log"
    dst = w + "/dest"
    um = d.weighted([(6, 0o022), (1, 0o077), (1, 0o002), (1, 0o027), (1, 0)])
    mode_dest = d.weighted([(4, "opt"), (3, "env"), (2, "none"), (1, "emptyenv"), (1, "rel"), (1, "both")])
    has_dest = mode_dest in ("opt", "env", "rel", "both")
    if has_dest:
        prefix = d.choice(["/usr", "/usr", "/opt/x y", "/", "/a/b/c", w + "/pre"])
        absbase = d.choice(["/abs", w + "/pre/abs"])
    else:
        prefix, absbase = w + "/pre", w + "/abs"
    dirs = dict(prefix=prefix, datadir="share", includedir="include", mandir="share/man", libdir="lib", bindir="bin")
    sets = ["-Dprefix=" + prefix, "-Dlibdir=lib"]
    if d.bool(0.15):
        dirs["datadir"] = d.choice(["dat a", "x/share"])
        sets.append("-Ddatadir=" + dirs["datadir"])
    if d.bool(0.15):
        dirs["mandir"] = "man"
        sets.append("-Dmandir=man")
    if d.bool(0.1):
        dirs["includedir"] = d.choice(["inc", "inc/deep"])
        sets.append("-Dincludedir=" + dirs["includedir"])
    files = {}           # source path -> [content, mode]
    links = {}           # source path -> target
    want = {}            # absolute path (before DESTDIR) -> ("f", content or callable, mode) | ("l", target) | ("d", mode)
    src_of = {}          # dest -> source file
    n = [0]
    scripts = []
    need_build = [False]
    places = [("p", "", "")]
    if d.bool(0.35):
        places.append(("p", "sub", "sub"))
    if d.bool(0.15):
        places.append(("p", "sub/deep", "sub/deep") if len(places) > 1 else ("p", "deep", "deep"))
    sp = d.bool(0.2)
    if sp:
        places.append((d.choice(["q", "a project"]), "subprojects/q", ""))
    lines = {pl[1]: [] for pl in places}
    kinds = set()

    def fresh(ext=None):
        n[0] += 1
        return "f%d%s" % (n[0], ext if ext is not None else d.choice([".txt", ".dat", "", ".x y", "é", ".%s", ".h"]))

    def newsrc(sub, name, mode=None):
        p = os.path.join(sub, name)
        size = d.weighted([(8, None), (1, 0), (1, 40000)])
        c = ("content of %s\n" % p).encode() if size is None else b"%d" % n[0] * (size // 2 + 1) if size else b""
        if d.bool(0.1):
            c += bytes(range(256))
        files[p] = [c, mode or d.weighted([(5, 0o644), (3, 0o755), (1, 0o600), (1, 0o444), (1, 0o640), (1, 0o750)])]
        return p

    def instdir():
        return d.weighted([(4, None), (3, "share/x"), (2, "d%d" % n[0]), (1, "etc/a b"), (1, absbase + "/z"), (1, "./q//r"), (1, "")])

    def place(p):
        return os.path.normpath(p if p.startswith("/") else prefix + "/" + p)

    def gmode(isdir=False):
        """(mode or None, text of the keyword)"""
        k = d.weighted([(6, 0), (3, 1), (1, 2)])
        if k == 0:
            return None, ""
        m = d.choice([0o644, 0o755, 0o600, 0o444, 0o640, 0o2755, 0o4755, 0o6750, 0o664, 0o777]) if not isdir else d.choice([0o755, 0o700, 0o1777, 0o750, 0o2775, 0o1755])
        if k == 2:
            return None, ", install_mode: false" if d.bool() else ", install_mode: [false]"
        t = mstr(rwx(m, d))
        if d.bool(0.3):
            t = "[%s]" % t
        return m, ", install_mode: " + t

    def add(dest, e):
        dest = place(dest)
        if dest in want or any(x.startswith(dest + "/") or dest.startswith(x + "/") for x, v in want.items() if v[0] != "d"):
            return False
        if dest in want:
            return False
        want[dest] = e
        return True

    def addfile(dest, src, m):
        if not add(dest, ("f", src, m)):
            raise pbt.Reject("two at the same place")

    def ref(sub, src, asfile):
        rel = os.path.relpath(src, sub) if sub else src
        return "files(%s)" % mstr(rel) if asfile else mstr(rel)

    nitems = d.int(1, 6)
    for _ in range(nitems):
        proj, sub, _x = d.choice(places)
        L = lines[sub]
        k = d.weighted([(5, "data"), (4, "headers"), (3, "man"), (5, "subdir"), (2, "symlink"), (2, "emptydir"), (2, "configure"), (2, "custom"), (1, "copyfile"), (3, "script"), (1, "target")])
        kinds.add(k)
        if k in ("data", "headers"):
            cnt = d.int(1, 3)
            pres = d.bool(0.25)
            srcs = [newsrc(sub, d.choice(["", "", "nest/", "nest/more/"]) + fresh()) for _ in range(cnt)]
            m, mt = gmode()
            kw = mt
            if k == "data":
                idir = instdir()
                base = idir if idir is not None else dirs["datadir"] + "/" + proj
                if idir is not None:
                    kw += ", install_dir: " + mstr(idir)
            else:
                idir = instdir()
                base = dirs["includedir"] if idir is None else idir
                if idir is not None:
                    kw += ", install_dir: " + mstr(idir)
                elif d.bool(0.4):
                    sd = d.choice(["h", "h/i", "a b"])
                    base += "/" + sd
                    kw += ", subdir: " + mstr(sd)
            names = [os.path.relpath(x, sub) if sub and pres else (x if pres else os.path.basename(x)) for x in srcs]
            if pres:
                kw += ", preserve_path: true"
            elif d.bool(0.1):
                kw += ", preserve_path: false"
            elif k == "data" and d.bool(0.3):
                names = [d.choice(["", "r/", "r/s/"]) + fresh() for _ in srcs]
                kw += ", rename: " + ("[%s]" % ", ".join(map(mstr, names)) if len(names) > 1 or d.bool() else mstr(names[0]))
            refs = [ref(sub, x, not pres and d.bool(0.35)) for x in srcs]
            if k == "data" and d.bool(0.25):
                i = d.int(0, len(refs))
                more = ", sources: [%s]" % ", ".join(refs[i:]) if len(refs) != i else ""
                args = ", ".join(refs[:i])
                L.append("install_data(%s)" % (args + (more + kw if args else (more + kw)[2:])))
            elif d.bool(0.2):
                L.append("install_%s([%s]%s)" % (k, ", ".join(refs), kw))
            else:
                L.append("install_%s(%s%s)" % (k, ", ".join(refs), kw))
            for x, nm in zip(srcs, names):
                addfile(base + "/" * bool(base) + nm, x, m)
        elif k == "man":
            loc = d.choice([None, None, "fr", "de_AT"])
            m, mt = gmode()
            idir = instdir() if d.bool(0.3) else None
            kw = mt + (", install_dir: " + mstr(idir) if idir is not None else "") + (", locale: " + mstr(loc) if loc else "")
            out = []
            for _ in range(d.int(1, 2)):
                sec = str(d.int(1, 9))
                n[0] += 1
                stem = "m%d" % n[0] + d.choice(["", ".conf", ".b.c", "-x y"])
                name = stem + (d.choice(["." + loc, ""]) if loc else "") + "." + sec
                x = newsrc(sub, d.choice(["", "man/"]) + name)
                out.append(ref(sub, x, d.bool(0.3)))
                base = idir if idir is not None else dirs["mandir"] + ("/" + loc if loc else "") + "/man" + sec
                addfile(base + "/" * bool(base) + stem + "." + sec, x, m)
            L.append("install_man(%s%s)" % (", ".join(out), kw))
        elif k == "subdir":
            n[0] += 1
            if d.bool(0.05):
                L.append("install_subdir('gone%d', install_dir: 'gd')" % n[0])
                want[place("gd/gone%d" % n[0])] = ("d", None)
                continue
            top = d.choice(["", "", "o/", "o/p/", "sub/dir/"]) + "t%d" % n[0]
            ents = []
            subdirs = [""]
            for _ in range(d.int(0, 3)):
                q = (d.choice(subdirs) + "/" + d.choice(["a", "b", "c d", ".h", "t%d" % n[0]])).lstrip("/")
                if q not in subdirs:
                    subdirs.append(q)
            fs = []
            for _ in range(d.int(0, 5)):
                q = (d.choice(subdirs) + "/" + fresh()).lstrip("/")
                fs.append(q)
                if d.bool(0.1):
                    links[os.path.join(sub, top, q)] = d.choice(["nowhere", "../x", "/etc/passwd", fs[0].split("/")[-1]])
                else:
                    newsrc(sub, top + "/" + q)
            for q in subdirs:
                files.setdefault(os.path.join(sub, top, q) + "/", None)
            xd = d.sublist([q for q in subdirs[1:]], 0.25) if d.bool(0.5) else []
            xf = d.sublist(fs, 0.25) if d.bool(0.5) else []
            if d.bool(0.1):
                xd = xd + ["none"]
            if d.bool(0.1):
                xf = xf + [fs[0].split("/")[-1]] if fs else ["x"]
            strip = d.weighted([(4, None), (2, True), (1, False)])
            m, mt = gmode()
            idir = instdir() or "share/x"
            kw = mt + ", install_dir: " + mstr(idir)
            if xd:
                kw += ", exclude_directories: [%s]" % ", ".join(map(mstr, xd))
            if xf:
                kw += ", exclude_files: [%s]" % ", ".join(map(mstr, xf))
            if strip is not None:
                kw += ", strip_directory: %s" % str(strip).lower()
            L.append("install_subdir(%s%s)" % (mstr(top), kw))
            base = idir if strip else idir + "/" * bool(idir) + top.split("/")[-1]
            out = lambda q: any(q == x or q.startswith(x + "/") for x in xd)
            for q in subdirs:
                if q == "" or not out(q):
                    want.setdefault(place(base + "/" * bool(base) + q), ("d", None))
            for q in fs:
                if out(q) or q in xf:
                    continue
                p = os.path.join(sub, top, q)
                if p in links:
                    if not add(base + "/" * bool(base) + q, ("l", links[p])):
                        raise pbt.Reject("two at the same place")
                else:
                    addfile(base + "/" * bool(base) + q, p, m)
        elif k == "symlink":
            t = d.choice(["nowhere", "../up", "/abs/olute", "a b", "..", "f1.txt"])
            idir = instdir() or "bin"
            nm = fresh()
            if not add(idir + "/" * bool(idir) + nm, ("l", t)):
                raise pbt.Reject("two at the same place")
            L.append("install_symlink(%s, install_dir: %s, pointing_to: %s)" % (mstr(nm), mstr(idir), mstr(t)))
        elif k == "emptydir":
            m, mt = gmode(True)
            nm = []
            for _ in range(d.int(1, 2)):
                n[0] += 1
                q = d.choice(["", "var/", absbase + "/"]) + "e%d" % n[0]
                nm.append(q)
                want[place(q)] = ("d", m)
            L.append("install_emptydir(%s%s)" % (", ".join(map(mstr, nm)), mt))
        elif k == "configure":
            nm = fresh()
            idir = instdir() or "etc"
            m, mt = gmode()
            inst = d.choice([", install: true", ""])
            n[0] += 1
            off = d.bool(0.15)
            if off:
                inst = ", install: false"
            L.append("configure_file(output: %s, configuration: {'K': %d}, install_dir: %s%s%s)" % (mstr(nm), n[0], mstr(idir), inst, mt))
            if not off:
                addfile(idir + "/" * bool(idir) + nm, ("built", os.path.join(sub, nm), 0o644), m)
        elif k == "copyfile":
            nm = fresh()
            x = newsrc(sub, nm)
            idir = instdir() or "etc"
            out = fresh()
            need_build[0] = True
            L.append("fs = import('fs')\nfs.copyfile(%s, %s, install: true, install_dir: %s)" % (mstr(nm), mstr(out), mstr(idir)))
            addfile(idir + "/" * bool(idir) + out, ("built", os.path.join(sub, out), None), None)
        elif k == "custom":
            need_build[0] = True
            no = d.int(1, 3)
            outs = [fresh("") for _ in range(no)]
            multi = no > 1 and d.bool(0.5)
            m, mt = gmode()
            idirs = [d.choice([False, "ct", "ct/x", absbase]) for _ in outs] if multi else [d.choice(["ct", "lib/x", absbase] + [False] * d.bool(0.2))] * no
            unb = d.bool(0.15)
            if unb:
                mt += ", build_by_default: false"
            L.append("custom_target(%s, output: [%s], command: ['sh', '-c', 'for i; do echo $i > \"$i\"; done', 'x', '@OUTPUT@'], install: true, install_dir: %s%s)" % (
                mstr("c%d" % n[0]), ", ".join(map(mstr, outs)),
                "[%s]" % ", ".join("false" if x is False else mstr(x) for x in idirs) if multi else mstr(idirs[0]) if idirs[0] is not False else d.choice(["false", "[false]"]), mt))
            for o, i in zip(outs, idirs):
                if i is not False and not unb:
                    addfile(i + "/" * bool(i) + o, ("built", os.path.join(sub, o), 0o644), m)
        elif k == "target":
            need_build[0] = True
            n[0] += 1
            kind = d.choice(["exe", "static", "shared", "exestatic"])
            nm = "x%d" % n[0]
            files.setdefault(os.path.join(sub, nm + ".c"), [("int %s(void) { return 0; }\n" % ("main" if "exe" in kind else nm)).encode(), 0o644])
            idir = d.choice([None, None, "libexec/y"])
            kw = (", install_dir: " + mstr(idir)) if idir else ""
            m, mt = gmode() if "exe" in kind else (None, "")
            if m is not None and not m & 0o200:
                m, mt = None, ""
            kw += mt
            fn, base = nm, "bin"
            if kind == "static":
                fn, base = "lib%s.a" % nm, "lib"
            elif kind == "shared":
                fn, base = "lib%s.so" % nm, "lib"
                if d.bool(0.6):
                    kw += ", version: '1.2.3'"
                    for a, t in (("lib%s.so" % nm, "lib%s.so.1" % nm), ("lib%s.so.1" % nm, "lib%s.so.1.2.3" % nm)):
                        add((idir or base) + "/" + a, ("l", t))
                    fn += ".1.2.3"
            elif kind == "exestatic":
                kw += ", link_args: '-static'"
            L.append("%s(%s, %s, install: true%s)" % (dict(exe="executable", exestatic="executable", static="static_library", shared="shared_library")[kind], mstr(nm), mstr(nm + ".c"), kw))
            addfile((idir or base) + "/" + fn, ("elf", os.path.join(sub, fn), 0o644 if kind == "static" else 0o755), m)
        elif k == "script":
            n[0] += 1
            S = W()
            S.id = "s%d" % n[0]
            S.status = d.weighted([(20, "0"), (1, "1"), (1, "77"), (1, "k")])
            S.dry = d.choice([None, None, True, False])
            S.skip = d.weighted([(3, None), (1, True), (1, False)])
            S.args = [d.choice(["a", "", "a b", "$x", "'q'", "é"]) for _ in range(d.int(0, 3))]
            S.sub = sub
            S.L = L
            scripts.append(S)
            L.append(S)
    # where the definitions of subdirectories stand
    order = {pl[1]: 0 for pl in places}
    base = has_dest and dst or ""
    leaf = sorted(q for q in want if want[q][0] != "d")
    ran_script = []
    pos = []
    for pl in ([p for p in places if p[1] == "sub" or p[1] == "deep"] + [p for p in places if p[1] == "sub/deep"]):
        pass
    for S in scripts:
        q = d.choice(leaf) if leaf and d.bool(0.7) else ""
        S.see = base + q if q else ""
        i = S.L.index(S)
        S.L[i] = "meson.add_install_script(%s%s%s)" % (", ".join(map(mstr, [s + "/script", S.id, S.status, S.see] + S.args)),
                                                   "" if S.dry is None else ", dry_run: %s" % str(S.dry).lower(),
                                                   "" if S.skip is None else ", skip_if_destdir: %s" % str(S.skip).lower())
    root = lines[""]
    head = ["project('p'%s)" % (", 'c'" if "target" in kinds else "")]
    subs_first = d.bool()
    refs = []
    for pl in places[1:]:
        if pl[1] in ("sub", "deep"):
            refs.append("subdir('%s')" % pl[1])
        elif pl[1] == "sub/deep":
            lines["sub"].append("subdir('deep')")
        else:
            refs.append("subproject('q')")
    lines[""] = head + (refs + root if subs_first else root + refs)
    if sp:
        lines["subprojects/q"] = ["project(%s%s)" % (mstr(places[-1][0]), ", 'c'" if "target" in kinds else "")] + lines["subprojects/q"]
    # execution order of the scripts
    def flat(sub):
        for l in lines[sub]:
            if l.startswith("subdir('"):
                x = l[8:-2]
                yield from flat((sub + "/" + x).lstrip("/"))
            elif l.startswith("subproject('q"):
                yield from flat("subprojects/q")
            else:
                yield l
    seq = [S for l in flat("") for S in scripts if l.startswith("meson.add_install_script(") and mstr(S.id) in l]
    for sub, l in lines.items():
        write(os.path.join(s, sub, "meson.build"), "\n".join(l) + "\n")
        d.note("== %s/meson.build\n%s" % (sub, "\n".join(l)))
    for p, v in files.items():
        q = os.path.join(s, p)
        if v is None:
            os.makedirs(q, exist_ok=True)
        else:
            write(q, v[0])
            os.chmod(q, v[1])
    for p, t in links.items():
        os.makedirs(os.path.dirname(s + "/" + p), exist_ok=True)
        os.symlink(t, s + "/" + p)
    write(s + "/script", SCRIPT)
    os.chmod(s + "/script", 0o755)
    env = {"RECLOG": log}
    sh = ["sh", "-c", 'umask %o; exec "$@"' % um, "x"]
    d.note("options %r umask %o destdir %s" % (sets, um, mode_dest))
    r = ctx.run(sh + [ctx.muon, "setup"] + sets + [b], cwd=s, env=env, wall=60)
    if r.rc != 0:
        raise Fail("setup failed: " + r.why())
    if need_build[0]:
        r = ctx.run(sh + [ctx.muon, "samu"], cwd=b, env=env, wall=120)
        if r.rc != 0:
            raise Fail("build failed: " + r.why())
    iargs, ienv = [], dict(env)
    if mode_dest == "opt":
        iargs = ["-d", dst]
    elif mode_dest == "both":
        iargs = ["-d", dst]
        ienv["DESTDIR"] = w + "/wrong"
    elif mode_dest == "env":
        ienv["DESTDIR"] = dst
    elif mode_dest == "rel":
        iargs = ["-d", "../dest"]
    elif mode_dest == "emptyenv":
        ienv["DESTDIR"] = ""

    def snap():
        t = {}
        for dp, dn, fn in os.walk(w):
            for x in dn + fn:
                p = os.path.join(dp, x)
                st = os.lstat(p)
                if stat.S_ISLNK(st.st_mode):
                    t[p] = ("l", os.readlink(p))
                elif stat.S_ISDIR(st.st_mode):
                    t[p] = ("d", stat.S_IMODE(st.st_mode))
                elif stat.S_ISREG(st.st_mode):
                    try:
                        t[p] = ("f", open(p, "rb").read(), stat.S_IMODE(st.st_mode))
                    except PermissionError:
                        t[p] = ("f", None, stat.S_IMODE(st.st_mode))
                else:
                    t[p] = ("?",)
        t.pop(log, None)
        return t

    def expected(before):
        """the whole scratch directory after the installation"""
        t = dict(before)

        def mk(p):
            assert p.startswith(w)
            if p == w or p in t and t[p][0] == "d":
                return
            mk(os.path.dirname(p))
            t[p] = ("d", 0o755 & ~um)
        for q, v in want.items():
            p = os.path.normpath(base + q)
            mk(os.path.dirname(p))
            if v[0] == "d":
                mk(p)
                if v[1] is not None:
                    t[p] = ("d", v[1])
            elif v[0] == "l":
                t[p] = v
            else:
                x = v[1]
                if isinstance(x, str):
                    c, m = files[x]
                else:
                    kind, x, m = x
                    c, m2 = before[b + "/" + x][1:] if b + "/" + x in before else (None, 0)
                    m = m2
                t[p] = ("f", c, v[2] if v[2] is not None else m & ~um)
        return t

    def script_expect(t):
        for S in seq:
            if S.skip and has_dest:
                continue
            p = os.path.normpath(base + prefix)
            q = p
            t2 = []
            while q != w and q not in t:
                t2.append(q)
                q = os.path.dirname(q)
            for q in t2:
                t[q] = ("d", 0o777 & ~um)
            t[p + "/made_" + S.id] = ("f", b"made %s\n" % S.id.encode(), 0o644)
        return t

    def diff(a, e, what):
        for p in sorted(set(a) | set(e)):
            x, y = a.get(p), e.get(p)
            if x != y:
                def sh(v):
                    if v and v[0] == "f":
                        return "file of mode %o: %r" % (v[2], v[1][:80] if v[1] is not None else None)
                    if v and v[0] == "d":
                        return "directory of mode %o" % v[1]
                    return repr(v)
                if x and y and x[0] == y[0] == "f" and x[2] == y[2] and p in elfs:
                    continue
                raise Fail("%s: %s is %s, it should be %s" % (what, p[len(w):], sh(x), sh(y)))

    elfs = set(os.path.normpath(base + q) for q, v in want.items() if v[0] == "f" and not isinstance(v[1], str) and v[1][0] == "elf")

    def readlog():
        try:
            t = open(log, "rb").read().decode("utf8", "replace")
        except FileNotFoundError:
            return []
        os.unlink(log)
        out = []
        for l in t.split("\n")[:-1]:
            k, _, v = l.partition(" ")
            if k == "RUN":
                out.append(dict(RUN=v, ARG=[]))
            elif k == "ARG":
                out[-1]["ARG"].append(v)
            else:
                out[-1][k] = v
        return out

    def scripts_ran(got, dry):
        exp = [S for S in seq if not (S.skip and has_dest) and (not dry or S.dry)]
        if [g["RUN"] for g in got] != [S.id for S in exp]:
            raise Fail("the install scripts that ran are %r, they should be %r" % ([g["RUN"] for g in got], [S.id for S in exp]))
        for g, S in zip(got, exp):
            e = dict(DESTDIR=dst if has_dest else ("" if mode_dest == "emptyenv" else "unset"), PREFIX=prefix, FULL=os.path.normpath(base + prefix), SRC=s, BUILD=b, DRY="1" if dry else "unset", CWD=b)
            for k, v in e.items():
                x = g.get(k)
                if k == "FULL":
                    x = os.path.normpath(x)
                if k == "DESTDIR" and x in ("", "unset") and v in ("", "unset"):
                    continue
                if k == "DESTDIR":
                    x = os.path.normpath(x)
                if x != v:
                    raise Fail("install script %s: %s is %r, it should be %r" % (S.id, k, g.get(k), v))
            if g["ARG"] != S.args:
                raise Fail("install script %s got the arguments %r, declared were %r" % (S.id, g["ARG"], S.args))
            if S.see and not dry and g.get("SEE") != "1":
                raise Fail("install script %s ran before %s was installed" % (S.id, S.see))

    def norm(t):
        return t

    badscript = [S for S in seq if S.status != "0" and not (S.skip and has_dest)]
    d.key = repr((sorted(lines.items()), sets, um, mode_dest))
    d.nontrivial = len(leaf) > 0 and len(want) > 1
    d.sample = dict(kinds=sorted(kinds), installed=len(want), dest=mode_dest)
    for k in kinds:
        d.label(k)
    # a dry run
    if d.bool(0.35):
        before = snap()
        r = ctx.run(sh + [ctx.muon, "install", "-n"] + iargs, cwd=b, env=ienv, wall=60)
        if r.crashed:
            raise Fail("crash in a dry run: " + r.why())
        diff(snap(), before, "a dry run changed something")
        got = readlog()
        if not [S for S in badscript if S.dry]:
            if r.rc != 0:
                raise Fail("a dry run failed: " + r.why())
            scripts_ran(got, True)
        elif r.rc == 0:
            raise Fail("a dry run of a failing script succeeded")
    # what is there before
    victim = w + "/victim"
    write(victim, "do not touch\n")
    os.chmod(victim, 0o644)
    fault = None
    filedest = [q for q in leaf if want[q][0] == "f"]
    srcdest = [q for q in filedest if isinstance(want[q][1], str) and files[want[q][1]][1] & 0o400]

    def under(q):
        return os.path.normpath(base + q)

    def mkparents(p):
        old = os.umask(um)
        try:
            os.makedirs(os.path.dirname(p), 0o755, exist_ok=True)
            t = os.path.dirname(p)
            while t != w:
                os.chmod(t, 0o755 & ~um)
                t = os.path.dirname(t)
        finally:
            os.umask(old)
    obst = d.weighted([(6, None), (2, "link"), (2, "file"), (1, "dangling"), (1, "other")])
    if obst and leaf:
        q = under(d.choice(leaf))
        mkparents(q)
        if obst == "link":
            os.symlink(victim, q)
        elif obst == "dangling":
            os.symlink(w + "/made-through-link", q)
        elif obst == "file":
            write(q, "older\n")
            os.chmod(q, d.choice([0o644, 0o444, 0o700]))
        else:
            write(q + ".other", "other\n")
        d.note("already there: %s at %s" % (obst, q[len(w):]))
        d.label("there:" + obst)
    if d.bool(0.3) and leaf:
        fault = d.choice(["unreadable", "missing", "destisdir", "parentisfile", "readonly", "fifo", "unbuilt"])
        bd = [q for q in filedest if not isinstance(want[q][1], str)]
        q = d.choice(srcdest if fault in ("unreadable", "missing", "fifo") else leaf) if (srcdest or fault not in ("unreadable", "missing", "fifo")) else None
        if fault == "unbuilt":
            q = d.choice(bd) if bd else None
        if q is None:
            fault = None
        elif fault == "unbuilt":
            os.unlink(b + "/" + want[q][1][1])
        elif fault in ("unreadable", "missing", "fifo"):
            p = s + "/" + want[q][1]
            if fault == "unreadable":
                os.chmod(p, 0)
            else:
                os.unlink(p)
                if fault == "fifo":
                    os.mkfifo(p)
                elif any(os.path.dirname(x) == os.path.dirname(want[q][1]) for x in ()):
                    pass
                # files found by scanning a directory are simply not there any more
                if fault == "missing" and "subdir" in kinds:
                    fault = None
                    raise pbt.Reject("a file of a scanned directory")
        else:
            p = under(q)
            if os.path.lexists(p):
                fault = None
            elif fault == "destisdir":
                mkparents(p + "/x")
                write(p + "/keep", "keep\n")
            elif fault == "parentisfile":
                if os.path.lexists(os.path.dirname(p)):
                    fault = None
                else:
                    mkparents(os.path.dirname(p))
                    write(os.path.dirname(p), "in the way\n")
            else:
                mkparents(p)
                os.chmod(os.path.dirname(p), 0o555)
        if fault:
            d.note("fault: %s at %s" % (fault, q))
            d.label("fault:" + fault)
    try:
        before = snap()
        r = ctx.run(sh + [ctx.muon, "install"] + iargs, cwd=b, env=ienv, wall=60)
        if r.crashed:
            raise Fail("crash: " + r.why())
        got = readlog()
        after = snap()
        t = expected(before)
        if fault or badscript:
            if r.rc == 0:
                raise Fail("muon install succeeded although %s\n%s" % (("something could not be installed (%s)" % fault) if fault else "the install script %s failed" % badscript[0].id, r.why()))
            # whatever was installed is what was declared
            t = script_expect(t)
            for p in sorted(set(after) | set(before)):
                if p not in after:
                    if t.get(p) != before[p]:
                        continue
                    raise Fail("%s is gone" % p[len(w):])
                if after[p] == before.get(p) or after[p] == t.get(p):
                    continue
                if p in t and t[p][0] == "d" == after[p][0]:
                    continue
                if p in t and t[p][0] == "f" == after[p][0]:
                    continue        # written, the permissions are not set yet
                raise Fail("a failing installation left %s: %r" % (p[len(w):], after[p][:1]))
            return
        if r.rc != 0:
            raise Fail("muon install failed: " + r.why())
        scripts_ran(got, False)
        t = script_expect(t)
        diff(after, t, "after the installation")
        if d.bool(0.5):
            # once more, possibly after a change of the sources
            ch = [x for x in sorted(v[1] for v in want.values() if v[0] == "f" and isinstance(v[1], str))]
            for x in d.sublist(ch, 0.3):
                files[x][0] += b"changed\n"
                if d.bool(0.5):
                    files[x][1] = d.choice([0o644, 0o755, 0o600])
                os.chmod(s + "/" + x, 0o644)
                write(s + "/" + x, files[x][0])
                os.chmod(s + "/" + x, files[x][1])
                d.note("changed " + x)
            before = snap()
            r = ctx.run(sh + [ctx.muon, "install"] + iargs, cwd=b, env=ienv, wall=60)
            if r.rc != 0:
                raise Fail("the second muon install failed: " + r.why())
            scripts_ran(readlog(), False)
            diff(snap(), script_expect(expected(before)), "after the second installation")
    finally:
        for dp, dn, fn in os.walk(w):
            try:
                os.chmod(dp, 0o755)
            except OSError:
                pass


if __name__ == "__main__":
    sys.exit(pbt.main(pbt.Spec(
        "C14", case, quick=2500, thorough=40000,
        rule="a case is a project with up to six installation declarations of eleven kinds spread over the main project, its subdirectories and a subproject, an existing destination, possibly an injected fault, and a history of a dry run, an installation, source edits and a second installation; the whole scratch tree (names, contents, permissions, link targets), the scripts run and the exit status are compared with a model; non-trivial: at least one file and two entries installed",
        assumptions=["declared places do not collide", "no symbolic links to directories inside installed directories", "user and group of install_mode are outside"],
    )))
