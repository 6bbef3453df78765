#!/usr/bin/env python3
"""C07: path functions against a reference model of POSIX paths, fs functions against the file system."""
import os, sys, hashlib, stat
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Fail, write, mstr

COMPS = ["a", "b", "dir", "f.txt", ".", "..", "", "a.b", "foo.tar.gz", ".hidden", ".h.x", "x y", "é.c", "~", "...", "..a", "a..b", "-", "$x", "'", "b.d", "ab", "a" * 120, "@0@"]


# ---- the reference model -------------------------------------------------
def norm(p, up=False):
    """no empty and '.' components; with up also no 'x/..' and no '..' at the root"""
    if p == "":
        return ""
    out = []
    for c in p.split("/"):
        if c in ("", "."):
            continue
        if up and c == "..":
            if out and out[-1] != "..":
                out.pop()
                continue
            if p[0] == "/":
                continue
        out.append(c)
    r = "/".join(out)
    if p[0] == "/":
        return "/" + r
    return r or "."


def join(parts):
    cur = ""
    for p in parts:
        if p.startswith("/") or cur == "":
            cur = norm(p)
        elif p == "":
            cur = norm(cur)
            cur += "" if cur.endswith("/") else "/"
        else:
            cur = norm(cur + "/" + p)
    return cur


def within(base, sub):
    b, s = norm(base, True), norm(sub, True)
    return s == b or s.startswith(b.rstrip("/") + "/")


def last(p):
    return norm(p, True).rsplit("/", 1)[-1]


def split_suffix(name):
    return os.path.splitext(name)


def normal(p):
    """the last component is a name"""
    c = [x for x in p.split("/") if x not in ("", ".")]
    return bool(c) and c[-1] != ".." and last(p) not in ("", ".", "..")


def parent(p):
    n = norm(p, True)
    d = n.rsplit("/", 1)[0] if "/" in n else "."
    return d or "/"


def genpath(d, absolute=None, names=None):
    pool = names if names is not None else COMPS
    cs = [d.choice(pool) for _ in d.many(0 if absolute else 1, 7, 0.7)]
    p = "/".join(cs)
    if absolute is None:
        absolute = d.bool(0.35)
    if absolute:
        p = "/" * d.weighted([(8, 1), (1, 2), (1, 3)]) + p.lstrip("/")
    else:
        p = p.lstrip("/")
    if d.bool(0.15):
        p += "/"
    if d.bool(0.08):
        cs = [d.choice(["a", "b", "dd"]) for _ in range(d.int(2, 8))]
        p = p + "/" + "/".join(cs + [".."] * d.int(1, len(cs) + 1) + ["e"] * d.int(0, 1))
    if d.bool(0.02):
        p = p + "/" + "/".join(d.choice(["y" * 200, "..", "z" * 255, "."]) for _ in range(d.int(3, 14)))
    if not absolute:
        p = p.lstrip("/") or "a"
    return p


def mkcontent(d, text):
    n = d.choice([0, 1, 2, 3, 54, 55, 56, 57, 63, 64, 65, 100, 119, 120, 127, 128, 1000, 4095, 4096, 4097, 8192, 10000])
    if text:
        return ("".join(d.choice(["a", "b", "\n", "é", "x y", "\t", "'", "\\"]) for _ in range(d.int(1, 6))) * (n // 4 + 1))[:min(n, 3000)].encode()
    return bytes((i * d.choice([1, 7, 31]) + n) & 255 for i in range(min(n, 5))) + hashlib.sha256(str(n).encode()).digest() * (n // 32) + b"\0" * d.int(0, 3)


def case(d, ctx):
    w = ctx.fresh()
    project = d.bool(0.45)
    muon = ctx.bins["asan"] if d.bool(0.1) else ctx.bins["fast"]
    s, b, home = w + "/s", w + "/b", w + "/home"
    os.makedirs(home)
    sub = "sub" if project and d.bool(0.4) else ""
    base = s + "/" + sub if sub else s
    os.makedirs(base)
    # -- a file tree
    contents, dirs, links = {}, [""], {}
    fnames = ["f", "g.txt", "f g", "é", "~", "~x", ".h", "n.c", "-"]
    for _ in d.many(1, 9, 0.8):
        at = d.choice(dirs)
        name = d.choice(fnames)
        rel = (at + "/" + name).lstrip("/")
        full = base + "/" + rel
        if os.path.lexists(full):
            continue
        k = d.weighted([(5, "file"), (3, "dir"), (3, "link")])
        if k == "file":
            contents[rel] = mkcontent(d, project)
            open(full, "wb").write(contents[rel])
            os.utime(full)
        elif k == "dir":
            os.mkdir(full)
            dirs.append(rel)
        else:
            t = d.choice(["nothing", "/nonexistent", name] + [os.path.relpath(base + "/" + x, os.path.dirname(full)) for x in list(contents) + dirs[1:]])
            os.symlink(t, full)
            links[rel] = t
    out, checks = ["fs = import('fs')"], []
    known = list(contents) + dirs[1:] + list(links)
    interesting = [0]

    def want(expr, fmt, pred, what):
        i = len(checks)
        checks.append((expr, pred, what))
        if fmt == "str":
            out.append("message('R%d|' + (%s) + '|')" % (i, expr))
        else:
            out.append("message('R%d|@0@|'.format(%s))" % (i, expr))
        interesting[0] += 1

    def eq(expr, v):
        if isinstance(v, bool):
            want(expr, "any", lambda got, v=v: got == ("true" if v else "false"), v)
        elif isinstance(v, int):
            want(expr, "any", lambda got, v=v: got == str(v), v)
        else:
            want(expr, "str", lambda got, v=v: got == v, v)

    def path(absolute=None):
        return genpath(d, absolute)

    def treepath():
        """an existing or missing path, written in some way, without going up from a link"""
        r = d.choice(known + ["missing", "f/x", "no/such", ".", "dir"]) if d.bool(0.95) else path(False)
        comps = []
        for i, c in enumerate(r.split("/")):
            k = d.weighted([(10, ""), (1, "./"), (1, "/"), (1, "up")])
            here = "/".join(r.split("/")[:i])
            if k == "up" and dirs[1:]:
                ds = [x[len(here):].lstrip("/") for x in dirs if x.startswith(here) and x != here and os.path.dirname(x) == here]
                c = (d.choice(ds) + "/../" + c) if ds else c
            elif k == "./" or k == "/":
                c = k + c if i else "./" + c
            comps.append(c)
        r = "/".join(comps)
        # '..' after a link is outside
        cur = ""
        for c in r.split("/"):
            if c == ".." and os.path.islink(base + "/" + cur):
                return "missing"
            cur = norm(cur + "/" + c, True) if cur else c
            cur = cur.lstrip("/")
        if any(os.path.islink(os.path.dirname(base + "/" + norm(r, True))) and x == ".." for x in r.split("/")):
            return "missing"
        if r.startswith("~"):
            return r
        if d.bool(0.15):
            r = base + "/" + r
        elif d.bool(0.05):
            r += "/"
        return r

    def full(p):
        if p == "~" or p.startswith("~/"):
            p = home + p[1:]
        return norm(p if p.startswith("/") else base + "/" + p, True)

    def op():
        kinds = [(6, "join"), (2, "name"), (2, "stem"), (2, "parent"), (2, "suffix"), (1, "abs"), (8, "pred"), (3, "size"), (3, "hash"), (3, "read"), (1, "posix"), (1, "user"), (1, "same"), (2, "files")]
        if not project:
            kinds += [(4, "sub"), (4, "rel"), (2, "mkabs"), (2, "ext"), (1, "addsuf"), (1, "isbase"), (1, "cwd"), (2, "write"), (2, "copy"), (1, "mkdir")]
        k = d.weighted(kinds)
        d.label(k)
        if k == "join":
            parts = [path() if d.bool(0.85) else "" for _ in range(d.int(1, 4))]
            l = list(map(mstr, parts))
            how = d.weighted([(3, "op"), (2, "args"), (1, "list")])
            e = " / ".join(l) if how == "op" else "join_paths(%s)" % (", ".join(l) if how == "args" else "[%s]" % ", ".join(l))
            if how == "op" and len(l) == 1:
                e = "join_paths(%s)" % l[0]
            eq(e, join(parts))
        elif k in ("name", "stem"):
            p = path()
            if normal(p):
                eq("fs.%s(%s)" % (k, mstr(p)), last(p) if k == "name" else split_suffix(last(p))[0])
        elif k == "parent":
            p = path()
            if d.bool(0.04):
                p = d.choice(["/", "//", "/.", "/.."])
            if (normal(p) or norm(p, True) == "/") and p[0] != "~":
                eq("fs.parent(%s)" % mstr(p), parent(p))
        elif k == "suffix":
            p, x = path(), d.choice([".x", "", ".tar.gz", ".é"])
            if normal(p):
                n = norm(p, True)
                h, t = n[:len(n) - len(last(p))], last(p)
                eq("fs.replace_suffix(%s, %s)" % (mstr(p), mstr(x)), h + split_suffix(t)[0] + x)
        elif k == "abs":
            p = path() if d.bool(0.9) else ""
            eq("fs.is_absolute(%s)" % mstr(p), p.startswith("/"))
        elif k == "pred":
            p = treepath()
            f = full(p)
            w_ = d.choice(["exists", "is_file", "is_dir", "is_symlink"])
            v = {"exists": os.path.exists, "is_file": os.path.isfile, "is_dir": os.path.isdir, "is_symlink": os.path.islink}[w_](f)
            eq("fs.%s(%s)" % (w_, mstr(p)), v)
        elif k in ("size", "hash", "read"):
            fs_ = [x for x in contents if x[0] != "~"]
            ls = [x for x in links if os.path.isfile(base + "/" + x) and x[0] != "~"]
            if not fs_ + ls:
                return
            p = d.choice(fs_ + ls)
            data = open(base + "/" + p, "rb").read()
            e = mstr(p)
            if d.bool(0.3) and project and p in contents:
                e = "files(%s)" % e
            if k == "size":
                eq("fs.size(%s)" % e, len(data))
            elif k == "hash":
                eq("fs.hash(%s, 'sha256')" % e, hashlib.sha256(data).hexdigest())
            elif project:
                want("fs.read(%s) == %s" % (e, mstr(data.decode())), "any", lambda got: got == "true", "true")
            else:
                o = "%s/out%d" % (w, len(outs))
                out.append("fs.write(%s, fs.read(%s))" % (mstr(o), e))
                outs.append((o, data))
        elif k == "posix":
            p = "".join(d.choice(["a", "/", "\\", "\\\\", ".", "b c", ":"]) for _ in range(d.int(1, 6)))
            # pairs of backslashes are one separator
            eq("fs.as_posix('%s')" % p.replace("\\", "\\\\"), p.replace("\\\\", "\0").replace("\\", "/").replace("\0", "/"))
        elif k == "user":
            p = d.choice(["~", "~/x", "~/a/b/", "~//x", "~x/y", "a/~", "~/..", "~/.", path()])
            want("fs.expanduser(%s)" % mstr(p), "str", lambda got, p=p: (norm(got, True) if got.startswith("/") else norm(base + "/" + got, True)) == full(p), full(p))
        elif k == "same":
            p, q = path(), path()
            if d.bool(0.6):
                q = d.choice([p + "/", "./" + p if p[0] != "/" else p, p.replace("/", "//") if p[0] != "/" else p, p + "/.", p + "/x/.."])
            if "~" in (p[0], q[0]):
                return
            a, c = full(p), full(q)
            if any(os.path.islink(x[:i]) for x in (a, c) for i in [j for j, ch in enumerate(x + "/") if ch == "/" and j]):
                return
            eq("fs.is_samepath(%s, %s)" % (mstr(p), mstr(q)), a == c)
        elif k == "files" and project:
            fs_ = [x for x in contents]
            if fs_:
                p = d.choice(fs_)
                q = d.choice([p, "./" + p, base + "/" + p, p.replace("/", "//"), "../%s/%s" % (os.path.basename(base), p)])
                eq("files(%s)[0].full_path()" % mstr(q), base + "/" + p)
        elif k == "sub":
            a = d.bool(0.8)
            p, q = path(a), path(a)
            if d.bool(0.6):
                q = p + "/" + d.choice(["", "x", "..", "../x", "x/..", "x/../..", ".", "x/y", "../" + os.path.basename(norm(p)) + "x"])
            elif d.bool(0.3):
                q = p + "x"
            if not a and (norm(p, True)[:2] == ".." or norm(q, True)[:2] == ".." or "." in (norm(p, True), norm(q, True))):
                return
            eq("fs.is_subpath(%s, %s)" % (mstr(p), mstr(q)), within(p, q))
        elif k == "rel":
            p, q = path(True), path(True)
            if d.bool(0.4):
                q = p + "/" + genpath(d, False)
            elif d.bool(0.3):
                cs = norm(p, True).split("/")
                q = "/".join(cs[:d.int(1, len(cs))]) + d.choice(["", "", "/q", "/a/b"]) or "/"
            elif d.bool(0.3):
                q = "/" + p.strip("/") + d.choice(["x", "/../y", ".b", ""])
            want("fs.relative_to(%s, %s)" % (mstr(p), mstr(q)), "str",
                 lambda got, p=p, q=q: norm(got if got.startswith("/") else p + "/" + got, True) == norm(q, True) and norm(got) == got
                 and (got == os.path.relpath(norm(q, True), norm(p, True)) or got == norm(q, True) and norm(p, True).split("/")[1] != norm(q, True).split("/")[1]), "a path from %r to %r" % (p, q))
        elif k == "mkabs":
            p = path()
            eq("fs.make_absolute(%s)" % mstr(p), norm(p) if p.startswith("/") else norm(base + "/" + p))
        elif k == "ext":
            p = path()
            if normal(p):
                n = norm(p)
                t = n.rsplit("/", 1)[-1]
                eq("fs.without_ext(%s)" % mstr(p), n[:len(n) - len(t)] + split_suffix(t)[0])
        elif k == "addsuf":
            p = path()
            x = d.choice([".x", "", "y"])
            if p.strip("/"):
                eq("fs.add_suffix(%s, %s)" % (mstr(p), mstr(x)), norm(p) + x)
        elif k == "isbase":
            p = path()
            eq("fs.is_basename(%s)" % mstr(p), "/" not in p)
        elif k == "cwd":
            eq("fs.cwd()", base)
        elif k == "write":
            at = d.choice(dirs)
            rel = (at + "/" + d.choice(["w1", "w2", "f", "g.txt"])).lstrip("/")
            f = base + "/" + rel
            if os.path.isdir(f) or os.path.islink(f) or rel in dirs:
                return
            if os.path.exists(f) and not os.stat(f).st_mode & 0o200:
                return
            data = mkcontent(d, True)
            out.append("fs.write(%s, %s)" % (mstr("./" + rel), mstr(data.decode())))
            later.append((f, data))
            # what was on disk when the script was written no longer counts
            contents.pop(rel, None)
            changed.append(rel)
        elif k == "copy" and contents:
            p = d.choice(list(contents))
            o = "%s/out%d" % (w, len(outs))
            out.append("fs.copy(%s, %s)" % (mstr("./" + p), mstr(o)))
            outs.append((o, contents[p]))
            modes.append((o, base + "/" + p))
        elif k == "mkdir":
            o = "%s/newdir%d" % (w, len(newdirs))
            newdirs.append(o)
            out.append("fs.mkdir(%s)" % mstr(o))
            eq("fs.is_dir(%s)" % mstr(o), True)
    outs, later, changed, modes, newdirs, copies = [], [], [], [], [], []
    for p in contents:
        if d.bool(0.3):
            os.chmod(base + "/" + p, d.choice([0o644, 0o755, 0o600, 0o444, 0o640]))
    nops = 0
    for _ in d.many(3, 22, 0.92):
        nops += 1
        op()
        if changed:
            # links may lead to the changed file, and what follows would see it
            for x in list(links):
                if os.path.realpath(base + "/" + x) == base + "/" + changed[-1] or not os.path.exists(base + "/" + x):
                    links.pop(x)
                    known[:] = [y for y in known if y != x]
            known[:] = [y for y in known if y != changed[-1]]
            changed.clear()
            break
    err = None
    if d.bool(0.06):
        dl = d.choice(dirs[1:]) if dirs[1:] else "."
        err = d.choice(["fs.size('missing')", "fs.hash('missing', 'sha256')", "fs.read('missing')", "fs.read(%s)" % mstr(dl), "fs.size(%s)" % mstr(dl), "fs.exists('')", "fs.hash('meson.build', 'md5')" if project else "fs.relative_to('a', '/b')", "fs.read('%s', encoding: 'latin-1')" % (base + "/x.txt"),
                        "fs.exists(1)", "fs.name([])", "files('missing')" if project else "fs.mkdir('no/such')"])
        write(base + "/x.txt", "x")
        out.append("x = " + err if not err.startswith("fs.mkdir") else err)
    if project and not err and d.bool(0.25) and contents:
        used = set()
        for p in d.sublist(sorted(contents), 0.5):
            if p[0] == "~":
                continue
            name = d.choice(["copy%d" % len(copies), os.path.basename(p)])
            if name in used or name == "-":
                continue
            used.add(name)
            out.append("fs.copyfile(%s%s)" % (mstr(p) if d.bool() else "files(%s)" % mstr(p), "" if name == os.path.basename(p) and d.bool() else ", " + mstr(name)))
            copies.append((name, contents[p], base + "/" + p))
            d.label("copyfile")
    out.append("message('SEEN ALL')")
    prog = "\n".join(out) + "\n"
    env = {"HOME": home}
    if project:
        if sub:
            write(s + "/meson.build", "project('p')\nsubdir('sub')\n")
            write(base + "/meson.build", prog)
        else:
            write(s + "/meson.build", "project('p')\n" + prog)
        r = ctx.run([muon, "setup", b], cwd=s, env=env)
    else:
        write(w + "/x.meson", prog)
        r = ctx.run([muon, "internal", "eval", w + "/x.meson"], cwd=base, env=env)
    d.nontrivial = interesting[0] >= 4
    d.key = prog
    d.sample = {"script": prog[:1200], "tree": {"files": list(contents), "dirs": dirs, "links": links}}

    def boom(msg, r=None):
        raise Fail("%s\nfiles %s dirs %s links %s\n%s\n-- %s\n%s" % (msg, list(contents), dirs, links, (r.out[-800:] + r.err[-800:]).decode("utf-8", "replace") if r else "", "meson.build in " + base if project else "script, run in " + base, prog[:5000]))
    if r.crashed:
        boom("muon crashed: " + r.why(), r)
    text = (r.err + r.out).decode("utf-8", "replace")
    for i, (expr, pred, what) in enumerate(checks):
        a = text.find("R%d|" % i)
        if a < 0:
            boom("no result for %s" % expr, r)
        a += len("R%d|" % i)
        e = text.find("|", a)
        got = text[a:e]
        if not pred(got):
            boom("%s is %r, must be %r" % (expr, got, what), r)
    if err:
        d.label("error")
        if r.rc == 0 or "SEEN ALL" in text or "rror" not in text:
            boom("%s is not an error" % err, r)
        return
    if r.rc != 0 or "SEEN ALL" not in text:
        boom("muon failed", r)
    for o, data in outs + later:
        if not os.path.isfile(o) or open(o, "rb").read() != data:
            boom("%s does not have the right content" % o)
    for o, src in modes:
        if os.stat(o).st_mode & 0o700 != os.stat(src).st_mode & 0o700 and not os.path.islink(o):
            boom("the copy %s has mode %o, the original %o" % (o, os.stat(o).st_mode, os.stat(src).st_mode))
    if copies:
        r = ctx.run([muon, "samu"], cwd=b, env=env)
        if r.rc != 0:
            boom("samu failed", r)
        for name, data, src in copies:
            o = b + "/" + (sub + "/" if sub else "") + name
            if not os.path.isfile(o) or open(o, "rb").read() != data:
                boom("copyfile: %s does not have the right content" % o)


if __name__ == "__main__":
    pbt.main(pbt.Spec(
        "C07", case, quick=10000, thorough=150000, builds=("fast", "asan"),
        rule="at least four results were compared",
        assumptions="'..' after a symbolic link and trailing dots in names are outside, is_samepath is only asked about paths without links",
    ))
