#!/usr/bin/env python3
"""C25: generated key-value, wrap and formatter configuration files against reference readers, and damaged ones against the line that is wrong."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Fail, Reject, write, mstr

WS = ["", "", " ", "  ", "\t", " \t "]


def text(d, n=20):
    return "".join(d.choice(["a", "b", "Z", "0", "_", "-", ".", "é", "☃", "'", '"', "[", "]", ";", ":", "\\", "$", "@", "%", ",", "/", " ", "="]) for _ in d.many(0, n, 0.8))


def first_error(err, path):
    e = re.search(r"^(.*?):(\d+):(\d+): error (.*)$", err, re.M)
    if not e:
        raise Fail("refused without the place of the mistake")
    if e.group(1) != path:
        raise Fail("the error is in %s, not %s" % (e.group(1), path))
    return int(e.group(2)), e.group(4)


def keyval(d, ctx, root):
    lines, want, odd = [], {}, False
    for _ in d.many(0, 14, 0.85):
        k = d.weighted([(8, "kv"), (2, "comment"), (2, "blank"), (1, "other"), (1, "again")])
        if k in ("kv", "again"):
            key = d.choice(sorted(want)) if k == "again" and want else d.choice(["CONFIG_", "", "a ", "x.", "K", ";"]) + d.choice(["A", "B", "C1", "é", "long" * d.choice([1, 1, 200]), "a;b", "[s]", "b c"])
            v = text(d) if d.bool(0.9) else "v" * d.int(200, 9000)
            if d.bool(0.2):
                v = '"%s"' % v
            key, v = key.strip(), v.strip()
            if d.bool(0.03):
                key = ""
            ind = d.choice(WS) if d.bool(0.3) else ""
            lines.append(ind + key + d.choice(WS) + "=" + d.choice(WS) + v + d.choice(WS))
            want[key] = v
        elif k == "comment":
            lines.append((d.choice(WS) if d.bool(0.3) else "") + d.choice(["# CONFIG_X is not set", "#", "# a=b", "#a = b", "## x = '", "#=", "# é = ☃"]))
        elif k == "blank":
            lines.append(d.choice(["", " ", "\t", "  \t"]))
        else:
            # not an assignment, as in the documentation: passed over
            lines.append(d.choice(["no assignment", "x", "[section]", "; y", "export"]))
    eol = d.choice(["\n", "\n", "\n", "\r\n"])
    t = eol.join(lines) + (eol if d.bool(0.6) else "")
    write(root + "/k v.txt", t)
    write(root + "/meson.build", "project('p')\nkv = import('keyval').load('k v.txt')\nforeach k, v : kv\n  message('<' + k + '>=<' + v + '>')\nendforeach\nmessage('END')\n")
    d.note("file: %r\nwant: %r" % (t, want))
    d.sample = repr(t)
    r = ctx.run([ctx.muon, "setup", "b"], cwd=root)
    if r.crashed:
        raise Fail(r.why())
    err = r.err.decode("utf-8", "replace")
    if r.rc:
        raise Fail("the file is refused\n" + err[-500:])
    got = [l[len("message: "):].rstrip(" ") for l in err.split("\n") if l.startswith("message: ")]
    exp = sorted("<%s>=<%s>" % x for x in want.items())
    if sorted(got[:-1]) != exp or got[-1] != "END":
        raise Fail("values %r, not %r" % (sorted(got), exp))
    d.nontrivial = len(want) > 0


FIELDS_ANY = ["directory", "diff_files", "wrapdb_version"]
FIELDS_FILE = ["source_filename", "source_url", "source_hash", "source_fallback_url", "lead_directory_missing"]
FIELDS_GIT = ["url", "revision", "depth", "clone-recursive", "push-url"]
FIELDS_PATCH = ["patch_url", "patch_filename", "patch_hash", "patch_fallback_url"]


def deco(d, lines, comments=";#"):
    """other spellings of the same lines; the number of each"""
    out, at = [], []
    for l in lines:
        while d.bool(0.25):
            out.append(d.choice(["", " ", "\t", comments[0] + " c", comments[-1] + "x = [", comments[-1], comments[0] + "key = value"]))
        if "=" in l and not l.startswith("["):
            k, v = l.split("=", 1)
            l = k + d.choice(WS) + "=" + d.choice(WS) + v + d.choice(WS)
        out.append(l)
        at.append(len(out))
    while d.bool(0.25):
        out.append(d.choice(["", "# end", "; end", "  "]))
    return out, at


def wrap(d, ctx, root):
    """well-formed or damaged wrap files, judged by check-wrap"""
    git = d.bool(0.3)
    f = {}
    for k in d.sublist(FIELDS_ANY, 0.4):
        f[k] = text(d).strip() or "x"
    if d.bool(0.3):
        for k in d.sublist(FIELDS_PATCH, 0.5):
            f[k] = text(d).strip() or "x"
        if any(k in f for k in ("patch_url", "patch_filename", "patch_hash")):
            f["patch_filename"] = "p.zip"
        f = {k: v for k, v in f.items() if k != "patch_fallback_url" or "patch_filename" in f}
    elif d.bool(0.3):
        f["patch_directory"] = "pd"
    for k in d.sublist(FIELDS_GIT if git else FIELDS_FILE, 0.6):
        f[k] = text(d).strip() or "x"
    if git:
        f["url"], f["revision"] = "https://example.com/x=y", "abc"
    elif "source_url" in f:
        f["source_filename"] = "s.tar"
    body = d.shuffle(["%s=%s" % x for x in sorted(f.items())])
    lines = ["[wrap-%s]" % ("git" if git else "file")] + body
    prov = []
    if d.bool(0.4):
        prov = ["[provide]"] + ["%s=%s" % (d.choice(["a", "b", "dependency_names", "program_names", "lib-x", "directory", "x.y"]) + str(i), d.choice(["a_dep", "x, y", "z"])) for i in range(d.int(0, 3))]
        lines = lines + prov if d.bool(0.8) else prov + lines
    bad = None  # (index in lines, or 0 for the whole file)
    damage = d.weighted([(4, "none"), (1, "unknown key"), (1, "no ="), (1, "duplicate"), (1, "section"), (1, "unclosed"), (1, "second type"), (1, "before section"), (1, "missing"), (1, "not allowed"), (1, "empty")])
    if damage != "none":
        start = lines.index("[wrap-%s]" % ("git" if git else "file"))
        end = start + 1 + len(body)
        i = d.int(start + 1, end)
        if damage == "unknown key":
            lines.insert(i, d.choice(["sorce_url", "URL", "source-url", "source_url_", "", "x y"]) + "=v")
            bad = i
        elif damage == "no =":
            lines.insert(i, d.choice(["junk", "source_url", "url: x", "]", "source_filename s.tar"]))
            bad = i
        elif damage == "duplicate":
            if not body:
                raise Reject()
            k = d.choice(body)
            j = d.int(lines.index(k) + 1, end)
            lines.insert(j, k.split("=")[0] + "=again")
            bad = j
        elif damage == "section":
            lines.insert(i, d.choice(["[wrap]", "[]", "[wrap-hg]", "[Wrap-file]", "[ wrap-file ]", "[wrap-file", "[provides]"]))
            bad = i
        elif damage == "unclosed":
            lines[start] = lines[start][:-1]
            bad = start
        elif damage == "second type":
            j = d.int(end, len(lines))
            lines.insert(j, d.choice(["[wrap-file]", "[wrap-git]"]))
            bad = j
        elif damage == "before section":
            lines.insert(0, d.choice(["url=x", "directory=d", "k=v"]))
            bad = 0
        elif damage == "missing":
            k = {True: d.choice(["url", "revision"]), False: "source_filename"}[git]
            if not git:
                if "source_url" not in f:
                    raise Reject()
            lines = [l for l in lines if not l.startswith(k + "=")]
            bad = "file"
        elif damage == "not allowed":
            k = d.choice(FIELDS_FILE if git else FIELDS_GIT)
            lines.insert(i, k + "=v")
            bad = i
        elif damage == "empty":
            lines = []
            bad = "file"
    d.label("wrap " + damage)
    out, at = deco(d, lines)
    if damage == "empty" and bad == "file" and not lines:
        raise Reject()  # what type an empty file has is left open
    eol = d.choice(["\n", "\n", "\n", "\r\n"])
    t = eol.join(out) + (eol if d.bool(0.6) else "")
    write(root + "/x.wrap", t)
    d.note("file: %r\n%s" % (t, damage))
    d.sample = repr(t)
    r = ctx.run([ctx.muon, "subprojects", "check-wrap", "x.wrap"], cwd=root)
    if r.crashed:
        raise Fail(r.why())
    err = (r.err + r.out).decode("utf-8", "replace")
    d.note(err)
    if bad is None:
        if r.rc or "error" in err:
            raise Fail("a valid wrap file is refused\n" + err[-800:])
    else:
        if r.rc == 0:
            raise Fail("a damaged wrap file (%s) is accepted" % damage)
        line, m = first_error(err, "x.wrap")
        if bad != "file" and line != at[bad]:
            raise Fail("the error is in line %d, not %d (%s)" % (line, at[bad], m))
    d.nontrivial = len(lines) > 1


def provide(d, ctx, root):
    """what wrap files provide, as seen by a project"""
    s = root + "/s"
    wraps = {}
    used = set()
    for i in range(d.int(1, 3)):
        n = d.choice(["w%d", "lib-%d", "a.b%d"]) % i
        p = []
        dirname = d.choice([n, "dir%d" % i, "d %d" % i])
        subs = {}
        for _ in range(d.int(1, 4)):
            k = d.weighted([(3, "var"), (2, "names"), (2, "progs")])
            if k == "var":
                x = d.choice(["dep", "foo-1.0", "x.y", "lib_z", "A"]) + str(i) + str(len(p))
                if x in used:
                    continue
                used.add(x)
                p.append("%s=var%d" % (x, len(p)))
                subs[x] = ("var", "var%d" % (len(p) - 1))
            elif k == "names" and not any(l.startswith("dependency_names") for l in p):
                xs = ["dn%d%d" % (i, j) for j in range(d.int(1, 3))]
                p.append("dependency_names=" + d.choice([",", ", ", " , ", "\t,  "]).join(xs))
                for x in xs:
                    subs[x] = ("dep", x)
            elif k == "progs" and not any(l.startswith("program_names") for l in p):
                xs = ["pn%d%d" % (i, j) for j in range(d.int(1, 3))]
                p.append("program_names=" + d.choice([",", ", ", " ,"]).join(xs))
                for x in xs:
                    subs[x] = ("prog", x)
        lines = ["[wrap-file]"] + (["directory=" + dirname] if dirname != n else []) + ["[provide]"] + p
        if d.bool(0.2) and p:
            lines = ["[provide]"] + p + lines[:-1 - len(p)]
        out, at = deco(d, lines)
        eol = d.choice(["\n", "\n", "\r\n"])
        t = eol.join(out) + (eol if d.bool(0.6) else "")
        write(s + "/subprojects/%s.wrap" % n, t)
        d.note("%s.wrap: %r" % (n, t))
        d.sample = repr(t)
        b = ["project('%s')" % n]
        for x, (k, v) in sorted(subs.items()):
            if k == "var":
                b.append("%s = declare_dependency(variables: {'id': %s})" % (v, mstr(n + ":" + x)))
            elif k == "dep":
                b.append("meson.override_dependency('%s', declare_dependency(variables: {'id': %s}))" % (v, mstr(n + ":" + x)))
            else:
                write(s + "/subprojects/%s/%s.sh" % (dirname, v), "#!/bin/sh\n", 0o755)
                b.append("meson.override_find_program('%s', files('%s.sh'))" % (v, v))
        write(s + "/subprojects/%s/meson.build" % dirname, "\n".join(b) + "\n")
        wraps[n] = (dirname, subs)
    names = [(x, n, dirname, k) for n, (dirname, subs) in sorted(wraps.items()) for x, (k, v) in sorted(subs.items())]
    if not names:
        raise Reject()
    names = d.shuffle(names)
    b = ["project('p')"]
    for x, n, dirname, k in names:
        if k == "prog":
            b.append("message('%s', find_program('%s').full_path())" % (x, x))
        else:
            b.append("d = dependency('%s', required: false)\nmessage('%s', d.found() ? d.get_variable('id') : 'NONE')" % (x, x))
    b.append("message('none', dependency('nosuchdep', required: false).found().to_string(), dependency('directory', required: false).found().to_string())")
    write(s + "/meson.build", "\n".join(b) + "\n")
    d.note(open(s + "/meson.build").read())
    r = ctx.run([ctx.muon, "setup", "b"], cwd=s)
    if r.crashed:
        raise Fail(r.why())
    err = (r.err + r.out).decode("utf-8", "replace")
    if r.rc:
        raise Fail("setup fails\n" + err[-1500:])
    got = [l[len("message: "):].rstrip(" ") for l in re.sub(r"^\[[^]\n]*\] ", "", err, flags=re.M).split("\n") if l.startswith("message: ")]
    exp = ["%s %s" % (x, s + "/subprojects/%s/%s.sh" % (dirname, x) if k == "prog" else n + ":" + x) for x, n, dirname, k in names] + ["none false false"]
    if got != exp:
        raise Fail("provided: %r, not %r\n%s" % (got, exp, err[-1500:]))
    d.nontrivial = True


PROBE = "if true\nx = 1\nif x\ny = 2\nendif\nendif\na = [1]\nm = {'k': 1}\nf('p', k: 1, l: 2)\ng(\n1,\n)\nl = ['aaaaaaaa', 'bbbbbbbb', 'cccccc', 'dddddddd']\n"


def config(d, ctx, root):
    keys = d.sublist(["max_line_len", "indent_by", "space_array", "kwargs_force_multiline", "wide_colon", "no_single_comma_function"], 0.6)
    val = {}
    for k in keys:
        val[k] = d.choice(["20", "30", "80", "200", "4294967295"]) if k == "max_line_len" else "'%s'" % d.choice(["", " ", "  ", "\t", "        "]) if k == "indent_by" else d.choice(["true", "false"])
    lines = ["%s=%s" % x for x in d.shuffle(sorted(val.items()))]
    if lines and d.bool(0.15):
        # given again: the last one counts
        k = d.choice(lines).split("=")[0]
        lines.insert(0, k + "=" + {"max_line_len": "7", "indent_by": "'xx'"}.get(k, "true"))
    bad = None
    if d.bool(0.35):
        i = d.int(0, len(lines))
        lines.insert(i, d.choice(["max_line_len=x", "max_line_len=12z", "max_line_len=-1", "max_line_len=4294967296", "indent_by=2", "indent_by='", "indent_by=\"  \"", "space_array=1", "space_array=True", "wide_colon=yes", "wide_colon", "max_line_len=", "=x", "nosuchkey=1", "space_arrays=true", "[section", "true"]))
        if lines[i].startswith("["):
            bad = i
        bad = i
    out, at = deco(d, lines)
    eol = d.choice(["\n", "\n", "\n", "\r\n"])
    t = eol.join(out) + (eol if d.bool(0.6) else "")
    write(root + "/c.ini", t)
    write(root + "/p.build", PROBE)
    d.note("file: %r" % t)
    d.sample = repr(t)
    r = ctx.run([ctx.muon, "fmt", "-c", "c.ini", "p.build"], cwd=root)
    if r.crashed:
        raise Fail(r.why())
    err = r.err.decode("utf-8", "replace")
    d.note(err)
    d.label("config " + ("damaged" if bad is not None else "good"))
    d.nontrivial = len(lines) > 0
    if bad is not None:
        if r.rc == 0:
            raise Fail("%r is accepted" % lines[bad])
        line, m = first_error(err, "c.ini")
        if line != at[bad]:
            raise Fail("the error is in line %d, not %d (%s)" % (line, at[bad], m))
        return
    if r.rc:
        raise Fail("the file is refused\n" + err)
    o = r.out.decode().split("\n")
    ind = val.get("indent_by", "'    '")[1:-1]
    if o[1] != ind + "x = 1" or o[3] != ind * 2 + "y = 2":
        raise Fail("indented by %r and %r, not %r" % (o[1], o[3], ind))
    on = {k: val.get(k) == "true" for k in ("space_array", "kwargs_force_multiline", "wide_colon", "no_single_comma_function")}
    w = int(val.get("max_line_len", "80"))
    col = " : " if on["wide_colon"] else ": "
    t = "\n".join(o)
    exp = []
    if w >= 20:
        exp += ["a = [ 1 ]" if on["space_array"] else "a = [1]", "m = {'k'%s1}" % col]
        fl = "f('p', k%s1, l%s2)" % (col, col)
        exp.append(fl if not on["kwargs_force_multiline"] and len(fl) <= w else "f(\n%s'p',\n%sk%s1,\n%sl%s2,\n)" % (ind, ind, col, ind, col))
        exp.append("g(\n%s1%s\n)" % (ind, "" if on["no_single_comma_function"] else ","))
        ll = "'aaaaaaaa', 'bbbbbbbb', 'cccccc', 'dddddddd'"
        ll = "l = [ %s ]" % ll if on["space_array"] else "l = [%s]" % ll
        exp.append(ll if len(ll) <= w else "l = [\n%s\n]" % "\n".join(ind + x + "," for x in ("'aaaaaaaa'", "'bbbbbbbb'", "'cccccc'", "'dddddddd'")))
        for e in exp:
            if "\n" + e + "\n" not in t:
                raise Fail("the output has no %r\n%s" % (e, t))


def case(d, ctx):
    root = ctx.fresh()
    os.makedirs(root, exist_ok=True)
    k = d.weighted([(4, "keyval"), (4, "wrap"), (2, "provide"), (3, "config")])
    d.label(k)
    {"keyval": keyval, "wrap": wrap, "provide": provide, "config": config}[k](d, ctx, root)
    d.key = d.sample


pbt.main(pbt.Spec("C25", case, quick=5000, thorough=200000, builds=("fast", "asan"),
                  rule="the file has at least one key (or, for damaged ones, one line besides the section)",
                  assumptions=["a '#' after a value is part of it (left open: Meson cuts it off in key-value files)"]))
