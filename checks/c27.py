#!/usr/bin/env python3
"""C27: generated wraps (archives, hashes, patches, git repositories), damaged or not, against the tree they describe."""
import bz2, difflib, gzip, hashlib, io, lzma, os, stat, sys, tarfile, zipfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Fail, Reject, write

NAMES = ["a.c", "b.txt", "sp ace", "é", "x" * 120, "sub.h", "Makefile", ".hid", "q'q", "$v", "-n", "z~"]
DIRS = ["", "", "d1/", "d1/d2/", "e e/", "y" * 90 + "/"]


def content(d):
    k = d.weighted([(4, "text"), (2, "empty"), (2, "bin"), (1, "big"), (2, "lines")])
    if k == "empty":
        return b""
    if k == "text":
        return d.choice(["hello\n", "no newline", "a\r\nb\r\n", "é\n"]).encode()
    if k == "lines":
        return b"".join(b"line %d\n" % d.int(0, 5) for _ in range(d.int(1, 20)))
    if k == "bin":
        return bytes(d.int(0, 255) for _ in range(d.int(1, 40)))
    n = d.choice([511, 512, 513, 10240, 65536, 70001, 200000])
    return (hashlib.sha256(str(d.int(0, 99)).encode()).digest() * (n // 32 + 1))[:n]


def gentree(d, n, tok, build=True):
    """path -> ('f', bytes, mode) | ('l', target) | ('h', path of file)"""
    t = {}
    if build:
        t["meson.build"] = ("f", ("project('sub')\nmessage('%s')\n" % tok).encode(), 0o644)
    for _ in range(n):
        p = d.choice(DIRS) + d.choice(NAMES)
        if p in t:
            continue
        k = d.weighted([(8, "f"), (1, "l"), (1, "h")])
        fs = sorted(x for x in t if t[x][0] == "f")
        if k == "h" and fs:
            t[p] = ("h", d.choice(fs))
        elif k == "l":
            t[p] = ("l", d.choice(["nowhere", "a.c", "d1", "../x", "meson.build"]))
        else:
            t[p] = ("f", content(d), d.choice([0o644, 0o644, 0o755, 0o600]))
    return t


def pack(d, t, lead, fmt, extra=()):
    """extra: members that must not get out"""
    o = io.BytesIO()
    order = list(t)
    if fmt.startswith("zip"):
        with zipfile.ZipFile(o, "w", zipfile.ZIP_DEFLATED if fmt == "zip" else zipfile.ZIP_STORED) as z:
            for p in order:
                e = t[p]
                if e[0] == "h":
                    e = t[e[1]]
                i = zipfile.ZipInfo(lead + p, (2020, 1, 2, 3, 4, 6))
                i.compress_type = z.compression
                i.create_system = 3
                i.external_attr = (stat.S_IFLNK | 0o777 if e[0] == "l" else stat.S_IFREG | e[2]) << 16
                z.writestr(i, e[1].encode() if e[0] == "l" else e[1])
            for name, kind, arg in extra:
                i = zipfile.ZipInfo(name)
                i.create_system = 3
                i.external_attr = (stat.S_IFLNK | 0o777 if kind == "l" else stat.S_IFREG | 0o644) << 16
                z.writestr(i, arg)
        return o.getvalue()
    f = {"u": tarfile.USTAR_FORMAT, "p": tarfile.PAX_FORMAT, "g": tarfile.GNU_FORMAT}[fmt[3]]
    with tarfile.open(fileobj=o, mode="w", format=f) as z:
        if lead and d.bool():
            i = tarfile.TarInfo(lead.rstrip("/"))
            i.type, i.mode = tarfile.DIRTYPE, 0o755
            z.addfile(i)
        for p in order:
            e = t[p]
            i = tarfile.TarInfo((d.choice(["", "./"]) if f != tarfile.USTAR_FORMAT else "") + lead + p)
            i.mtime = 1577934246
            if e[0] == "l":
                i.type, i.linkname = tarfile.SYMTYPE, e[1]
            elif e[0] == "h":
                i.type, i.linkname = tarfile.LNKTYPE, lead + e[1]
            else:
                i.size, i.mode = len(e[1]), e[2]
            try:
                z.addfile(i, io.BytesIO(e[1]) if e[0] == "f" else None)
            except ValueError:
                raise Reject("name too long for the format")
        for name, kind, arg in extra:
            i = tarfile.TarInfo(name)
            if kind == "l":
                i.type, i.linkname = tarfile.SYMTYPE, arg
            elif kind == "h":
                i.type, i.linkname = tarfile.LNKTYPE, arg
            else:
                i.size = len(arg)
            z.addfile(i, io.BytesIO(arg.encode()) if kind == "f" else None)
    b = o.getvalue()
    return {"": lambda x: x, "gz": lambda x: gzip.compress(x, mtime=0), "bz2": bz2.compress, "xz": lzma.compress}[fmt[4:]](b)


def flat(t):
    """hard links are files of their own"""
    return {p: (t[e[1]] if e[0] == "h" else e) for p, e in t.items()}


def snap(root, skip=(), mt=False):
    r = {}
    for x, ds, fs in os.walk(root):
        for n in fs + ds:
            p = os.path.join(x, n)
            rel = os.path.relpath(p, root)
            if any(rel == s or rel.startswith(s + "/") for s in skip):
                continue
            s = os.lstat(p)
            if stat.S_ISLNK(s.st_mode):
                e = ("l", os.readlink(p))
            elif stat.S_ISDIR(s.st_mode):
                e = ("d",)
            else:
                e = ("f", open(p, "rb").read(), s.st_mode & 0o777)
            r[rel] = e + ((s.st_mtime_ns,) if mt and e[0] == "f" else ())
    return r


def put(root, t):
    for p, e in t.items():
        q = root + "/" + p
        os.makedirs(os.path.dirname(q), exist_ok=True)
        if e[0] == "l":
            os.symlink(e[1], q)
        else:
            with open(q, "wb") as f:
                f.write(e[1])
            os.chmod(q, e[2])


def short(e):
    return repr(e)[:120]


class W:
    """one wrap: its files, what comes out of it, and what is wrong with it"""

    def __init__(self, d, ctx, name, S, scratch):
        self.name, self.S = name, S
        self.tok = "token-" + name
        self.dir = d.choice([name, name + "-1.0", "Dir ü"])  if d.bool() else name
        self.open = False
        self.git = d.bool(0.12)
        self.files = {}  # below packagefiles: path -> bytes or tree
        self.bad = None
        fields = []
        if self.dir != name or d.bool(0.3):
            fields.append(("directory", self.dir))
        t = gentree(d, d.int(0, 8), self.tok)
        builder = d.weighted([(6, "source"), (2, "patch")])  # where meson.build comes from
        patch = d.weighted([(5, None), (2, "dir"), (2, "archive"), (1, "tree")])
        if builder == "patch" and patch and not self.git:
            mb = t.pop("meson.build")
            t = {p: e for p, e in t.items() if e != ("h", "meson.build")}
        else:
            builder, mb = "source", None
        if not t:
            t["a.c"] = ("f", b"x\n", 0o644)
        self.expect = flat(t)
        fmt = d.choice(["zip", "zip0"] + ["tar%s%s" % (f, c) for f in "upg" for c in ("", "gz", "bz2", "xz")])
        bads = ["hash", "nohex", "shorthash", "cut", "flip", "missing"] if not self.git else ["revision", "nourl"]
        if not self.git:
            bads += ["escape"]
        ov = None
        if patch:
            ov = {}
            for _ in range(d.int(0, 3)):
                fs = sorted(p for p, e in self.expect.items() if e[0] == "f" and p != "meson.build")
                p = d.choice(fs) if fs and d.bool() else "new%d" % d.int(0, 3)
                # what hard links share an overlay may change as well
                if any(e[0] == "h" and p in (q, e[1]) for q, e in t.items()):
                    continue
                ov[p] = ("f", content(d), 0o644)
            if mb:
                ov["meson.build"] = mb
            if not ov:
                ov["new9"] = ("f", b"new\n", 0o644)
            bads += ["nopatch", "nopatch"] + (["patchhash", "patchcut"] if patch == "archive" else [])
        diffs = d.int(0, 2) if d.bool(0.4) else 0
        if diffs:
            bads += ["baddiff", "baddiff", "nodiff"]
        self.bad = d.choice(bads) if d.bool(0.45) else None
        bad = self.bad
        good = {}  # corrections
        if self.git:
            r = scratch + "/git-" + name
            os.makedirs(r)
            self.expect = {p: (e if e[0] == "l" else ("f", e[1], e[2] if e[2] != 0o600 else 0o644)) for p, e in self.expect.items()}
            put(r, self.expect)
            g = lambda *a: ctx.run(["git", "-c", "user.name=n", "-c", "user.email=e@x", "-c", "init.defaultBranch=main", "-c", "core.autocrlf=false"] + list(a), cwd=r)
            if g("init", "-q").rc:
                raise Reject("git")
            g("add", "-A", "-f", ".")
            g("commit", "-q", "-m", "c")
            g("tag", "v1")
            rev = d.choice(["v1", "main", "hash"])
            if rev == "hash":
                rev = g("rev-parse", "HEAD").out.decode().strip()
            if rev != "main":
                write(r + "/later", "x")
                g("add", "later")
                g("commit", "-q", "-m", "later")
            fields += [("url", r if bad != "nourl" else r + "-no"), ("revision", rev if bad != "revision" else "no-such-rev")]
            good = {"url": r, "revision": rev}
        else:
            missing = d.bool(0.3)
            lead = "" if missing else self.dir + "/"
            extra = []
            if bad == "escape":
                k = d.choice(["dotdot", "abs", "symlink", "hard"]) if fmt.startswith("tar") else d.choice(["dotdot", "symlink"])
                up = "../" * (2 if missing else 1)
                if k == "dotdot":
                    extra = [(d.choice([up + "../esc", lead + "x/../" + up + "../../esc", "../esc" if not missing else "../../esc"]), "f", "E")]
                elif k == "abs":
                    extra = [(scratch + "/esc", "f", "E")]
                elif k == "symlink":
                    extra = [(lead + "lnk", "l", d.choice(["../..", scratch, "../../.."])), (lead + "lnk/esc", "f", "E")]
                else:
                    extra = [(lead + "hl", "h", scratch + "/canary"), (lead + "hl", "f", "E")]
            whole = pack(d, t, lead, fmt)
            a = pack(d, t, lead, fmt, extra) if extra else whole
            h = hashlib.sha256(a).hexdigest()
            has_hash = d.bool(0.75)
            if bad == "cut":
                a = a[:d.int(0, len(a) - 1)]
            if bad == "flip":
                i = d.int(0, len(a) - 1)
                a = a[:i] + bytes([a[i] ^ (1 << d.int(0, 7))]) + a[i + 1:]
            if bad in ("cut", "flip") and not has_hash:
                self.open = True  # some damage cannot be seen
            if bad == "escape":
                self.open = True
            an = d.choice(["src.tar", "s p.zip", "x"])
            an = name + an
            fields.append(("source_filename", an))
            if bad != "missing":
                self.files[an] = a
            self.fix = {an: whole}
            if bad in ("hash", "nohex", "shorthash"):
                has_hash = True
                i = d.int(0, 63)
                if bad == "hash":
                    c = d.choice([x for x in "0123456789abcdef" if x != h[i]])
                    hh = h[:i] + c + h[i + 1:]
                elif bad == "nohex":
                    # what a lenient reader might take for the digit
                    i = d.choice([j for j in range(64) if h[j] == "0"] or [0])
                    hh = h[:i] + d.choice(["g", "x", "-", "z"]) + h[i + 1:]
                else:
                    hh = d.choice([h[:-1], h[:32], h + "0", h[:-2]])
            else:
                hh = h if d.bool(0.8) else h.upper()
            if has_hash:
                fields.append(("source_hash", hh))
            good["source_hash"] = hashlib.sha256(whole).hexdigest()
            if missing:
                fields.append(("lead_directory_missing", "true"))
        if not hasattr(self, "fix"):
            self.fix = {}
        if ov:
            pn = name + "-patch"
            if patch == "dir":
                fields.append(("patch_directory", pn))
                src = ov
            else:
                fields.append(("patch_filename", pn))
                if patch == "archive":
                    src = pack(d, ov, self.dir + "/", d.choice(["zip", "tarp", "targgz"]))
                    h = hashlib.sha256(src).hexdigest()
                    if bad == "patchhash":
                        i = d.int(0, 63)
                        fields.append(("patch_hash", h[:i] + d.choice([x for x in "0123456789abcdef" if x != h[i]]) + h[i + 1:]))
                        good["patch_hash"] = h
                    elif d.bool() or bad == "patchcut":
                        fields.append(("patch_hash", h))
                else:
                    src = {self.dir + "/" + p: e for p, e in ov.items()}
            self.fix[pn] = src
            if bad == "patchcut":
                src = src[:d.int(0, len(src) - 1)]
            if bad != "nopatch":
                self.files[pn] = src
            for p, e in ov.items():
                # copying onto a file leaves its mode
                self.expect[p] = e if patch == "archive" or p not in self.expect else ("f", e[1], self.expect[p][2])
        if diffs:
            ns = []
            broken = d.int(0, diffs - 1)
            for i in range(diffs):
                fs = sorted(p for p, e in self.expect.items() if e[0] == "f" and e[1].endswith(b"\n") and b"\r" not in e[1] and e[1].isascii() and p != "meson.build" and " " not in p and not any(x[0] == "h" and p in (q, x[1]) for q, x in t.items()))
                if fs and d.bool(0.7):
                    p = d.choice(fs)
                    old = self.expect[p][1].decode()
                    lines = old.splitlines(True)
                    j = d.int(0, len(lines))
                    new = "".join(lines[:j] + ["inserted %d\n" % i] + lines[j + (1 if d.bool() else 0):])
                    dd = "".join(difflib.unified_diff(lines, new.splitlines(True), "a/" + p, "b/" + p))
                    mode = self.expect[p][2]
                else:
                    p = "diffnew%d" % i
                    new = "created %d\n" % i
                    dd = "--- /dev/null\n+++ b/%s\n@@ -0,0 +1 @@\n+%s" % (p, new)
                    mode = 0o644
                n = "%s-%d.diff" % (name, i)
                ns.append(n)
                self.expect[p] = ("f", new.encode(), mode)
                self.fix[n] = dd.encode()
                self.files[n] = dd.encode()
                if i == broken and bad == "baddiff":
                    self.files[n] = b"--- a/no/such\n+++ b/no/such\n@@ -1,2 +1,2 @@\n-x\n+y\n z\n"
                if i == broken and bad == "nodiff":
                    del self.files[n]
            fields.append(("diff_files", d.choice([",", ", ", " , "]).join(ns)))
        fields = d.shuffle(fields)
        self.fields, self.good, self.d = fields, good, d

    def text(self, fixed=False):
        d = self.d
        f = [(k, self.good.get(k, v) if fixed else v) for k, v in self.fields]
        return "[wrap-%s]\n%s" % ("git" if self.git else "file", "".join("%s%s%s\n" % (k, "=" if fixed else d.choice([" = ", "=", " ="]), v) for k, v in f))

    def emit(self, fixed=False):
        write(self.S + "/" + self.name + ".wrap", self.text(fixed))
        for n, c in (self.fix if fixed else self.files).items():
            p = self.S + "/packagefiles/" + n
            if isinstance(c, dict):
                if not os.path.exists(p):
                    put(p, c)
            else:
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as fh:
                    fh.write(c)


def compare(what, got, want):
    dirs = {p for p, e in got.items() if e[0] == "d"}
    need = set()
    for p in want:
        while "/" in p:
            p = p.rsplit("/", 1)[0]
            need.add(p)
    got = {p: e for p, e in got.items() if e[0] != "d"}
    bad = ["%s: %s, not %s" % (p, short(got.get(p)), short(want.get(p))) for p in sorted(set(got) | set(want)) if got.get(p) != want.get(p)]
    bad += ["directory %s" % p for p in sorted(dirs ^ need)]
    if bad:
        raise Fail(what + ":\n" + "\n".join(bad[:10]))


def case(d, ctx):
    c = ctx.fresh()
    w = c + "/p"
    S = w + "/subprojects"
    os.makedirs(S)
    write(c + "/canary", "canary\n")
    via = d.choice(["download", "named", "setup"])
    ws = []
    for n in d.sublist(["foo", "bar", "b-z.1"], 0.4) or ["foo"]:
        ws.append(W(d, ctx, n, S, c))
    calls = "".join("s = subproject('%s', required: false)\nmessage('found %s', s.found())\n" % (x.name, x.name) for x in ws)
    write(w + "/meson.build", "project('p')\n" + calls)
    if len({x.dir for x in ws}) < len(ws):
        raise Reject("same directory")
    kept = {}
    for x in ws:
        x.emit()
        d.note("--- %s.wrap\n%s%s\n" % (x.name, open(S + "/" + x.name + ".wrap").read(), "broken: %s" % x.bad if x.bad else "") + "".join("%s: %s\n" % (p, short(e)) for p, e in sorted(x.expect.items())))
        d.label(x.bad or "good")
        if via != "setup" and d.bool(0.1):
            write(S + "/" + x.dir + "/keep", "kept\n")
            kept[x.name] = True
    d.sample = d.notes[0][:600]
    d.key = "\n".join(d.notes)
    d.nontrivial = any(len(x.expect) >= 3 for x in ws)
    names = [x.name for x in ws]
    skip = ["p/subprojects/" + x.dir for x in ws] + ["p/b"]

    def run():
        if via == "setup":
            r = ctx.run([ctx.muon, "setup"] + (["-Dwrap_mode=nodownload"] if not any(x.git for x in ws) and d.bool() else []) + ["b"], cwd=w)
        else:
            r = ctx.run([ctx.muon, "subprojects", "download"] + (names if via == "named" else []), cwd=w)
        if r.crashed:
            raise Fail(r.why())
        t = (r.out + r.err).decode("utf8", "replace")
        if via == "setup" and r.rc:
            raise Fail("setup fails: " + t)
        return r.rc, t

    def check(label):
        before = snap(c, skip)
        rc, text = run()
        d.note("%s %s: %d\n%s" % (label, via, rc, text[-1500:]))
        if snap(c, skip) != before:
            a, b = snap(c, skip), before
            raise Fail("%s: something else was changed: %s" % (label, sorted(p for p in set(a) | set(b) if a.get(p) != b.get(p))))
        return rc, text

    def verify(label, rc, text, fixed):
        fails = [x for x in ws if x.bad and not fixed]
        sure = [x for x in fails if not x.open]
        if via != "setup":
            if sure and rc == 0:
                raise Fail("%s: failure is not reported" % label)
            if not fails and rc:
                raise Fail("%s: fails" % label)
        for x in ws:
            D = S + "/" + x.dir
            if x in fails:
                if via == "setup":
                    ok = "found %s true" % x.name in text
                    if ok and not x.open:
                        raise Fail("%s: %s is used" % (label, x.name))
                elif x.open:
                    ok = rc == 0
                else:
                    ok = False
                if x in sure and os.path.exists(D + "/meson.build"):
                    raise Fail("%s: the rest of %s looks like a subproject" % (label, x.name))
                if x in sure and not os.path.lexists(D) and x.name in kept:
                    raise Fail("%s: what was there is gone" % label)
                continue
            if via == "setup" and ("found %s true" % x.name not in text or x.tok not in text):
                raise Fail("%s: %s is not used" % (label, x.name))
            got = snap(D, [".git"])
            want = dict(x.expect)
            if x.name in kept:
                want["keep"] = ("f", b"kept\n", 0o644)
            compare("%s: %s" % (label, x.name), got, want)
    # a repository is only cloned into an empty directory
    if any(x.git and x.name in kept for x in ws):
        raise Reject("kept")
    rc, text = check("first")
    verify("first", rc, text, False)
    if any(x.bad for x in ws):
        if any(x.open or x.name in kept for x in ws if x.bad):
            return
        for x in ws:
            x.emit(True)
        rc, text = check("mended")
        verify("mended", rc, text, True)
    before = [snap(S + "/" + x.dir, mt=True) for x in ws]
    edit = d.choice(ws)
    q = S + "/" + edit.dir + "/meson.build"
    with open(q, "a") as f:
        f.write("# edited\n")
    before = [snap(S + "/" + x.dir, mt=True) for x in ws]
    rc, text = check("again")
    if rc and via != "setup":
        raise Fail("again: fails")
    for x, b in zip(ws, before):
        a = snap(S + "/" + x.dir, mt=True)
        if a != b:
            raise Fail("again: changed %s" % sorted(p for p in set(a) | set(b) if a.get(p) != b.get(p)))
        if via == "setup" and "found %s true" % x.name not in text:
            raise Fail("again: %s is not used" % x.name)


if __name__ == "__main__":
    pbt.main(pbt.Spec("C27", case, quick=2500, thorough=60000, builds=("fast",),
                      rule="some wrapped tree has at least three files",
                      assumptions=["archives without a hash may be damaged unnoticed", "the archive's leading directory is the declared one", "downloads over a network are not made"]))
