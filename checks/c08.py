#!/usr/bin/env python3
"""C08: configure_file against an independent implementation of the documented substitution rules."""
import os, sys, re, stat
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Fail, write, mstr

KEYS = ["FOO", "BAR", "foo", "x", "A-b", "_k", "FOOBAR", "FO", "HAVE_X_H", "0", "9a", "-", "define", "version"]
VALS = ["", "v", "a b", '"q"', "a\"b", "@FOO@", "${BAR}", "\\", "\\@", "x\\n", "ünï", "1.2.3", "#define Z", "/* c */", "%d %s", "$", "@", "'", "l1\nl2", "\t", "=", "123", "true"]
NAMECH = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-")


class Refuse(Exception):
    pass


class Either(Exception):
    pass


def tostr(v):
    return ("true" if v else "false") if isinstance(v, bool) else str(v)


# -- reference substitution -----------------------------------------------------
def substitute(text, conf, fmt):
    """text: str (latin-1 view of the bytes); conf: name -> bool|int|str"""
    start, end = ("${", "}") if fmt == "cmake" else ("@", "@")
    define = "#mesondefine " if fmt == "meson" else "#cmakedefine "
    out = []
    for line in re.split(r"(?<=\n)", text):
        if line.startswith(define):
            body = line[len(define):]
            eol = ""
            if body.endswith("\n"):
                body, eol = body[:-1], "\n"
                if body.endswith("\r"):
                    body, eol = body[:-1], "\r\n"
            words = body.replace("\t", " ").split(" ")
            words = [w for w in words if w]
            if not words or not all(c in NAMECH for c in words[0]):
                raise Either()
            if len(words) > 1 and not (fmt != "meson" and words[1:] == ["@" + words[0] + "@"]):
                if fmt == "meson":
                    raise Refuse()
                raise Either()
            k = words[0]
            if k not in conf:
                out.append("/* undef %s */%s" % (k, eol))
            elif conf[k] is True:
                out.append("#define %s%s" % (k, eol))
            elif conf[k] is False:
                out.append("#undef %s%s" % (k, eol))
            else:
                out.append("#define %s %s%s" % (k, latin(tostr(conf[k])), eol))
            continue
        i = 0
        while i < len(line):
            m = re.compile(r"\\+").match(line, i)
            if m:
                n = m.end() - i
                if line.startswith(start, m.end()):
                    out.append("\\" * (n // 2))
                    i = m.end()
                    if n % 2:
                        out.append(start)
                        i += len(start)
                else:
                    out.append(m.group())
                    i = m.end()
                continue
            if line.startswith(start, i):
                j = i + len(start)
                k = j
                while k < len(line) and line[k] in NAMECH:
                    k += 1
                if line.startswith(end, k):
                    if k == j:
                        raise Either()
                    name = line[j:k]
                    if name not in conf:
                        raise Refuse()
                    out.append(latin(tostr(conf[name])))
                    i = k + len(end)
                else:
                    out.append(start)
                    i = j
                continue
            out.append(line[i])
            i += 1
    return "".join(out)


def latin(s):
    return s.encode().decode("latin-1")


# -- generators -------------------------------------------------------------------
def value(d):
    k = d.int(0, 9)
    if k < 2:
        return d.bool()
    if k < 4:
        return d.choice([0, 1, -1, 42, 2 ** 31, -2 ** 63, 2 ** 63 - 1, d.int(-1000, 1000)])
    if k < 8:
        return d.choice(VALS)
    return d.text("ab@\\$ {}\"'#\n", 0, 8)


def lit(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, int):
        return str(v) if v != -2 ** 63 else "(-9223372036854775807 - 1)"
    return mstr(v)


def template(d, fmt, keys):
    start, end = ("${", "}") if fmt == "cmake" else ("@", "@")
    known = lambda: d.choice(keys) if keys and not d.bool(0.03) else d.choice(KEYS)
    nl = "\r\n" if d.bool(0.15) else "\n"
    ends = d.bool(0.7)
    lines = []
    for _ in d.many(0, 14, 0.85):
        if d.bool(0.3):
            k = known() if d.bool(0.7) else d.choice(KEYS)
            sp = d.choice(["", "", "", " ", "\t", "  "])
            line = ("#mesondefine " if fmt == "meson" else "#cmakedefine ") + sp + k + d.choice(["", "", "", " ", "\t "])
            if fmt != "meson" and d.bool(0.4):
                line += (" " if line[-1] not in " \t" else "") + "@" + k + "@" + d.choice(["", "", " "])
            if d.bool(0.02):
                line += " extra"
            if d.bool(0.06):
                line = d.choice([" ", "x", "//", "#"]) + line.replace("@", "") if fmt != "cmake" else " " + line
        else:
            ps = []
            for _ in d.many(0, 8, 0.8):
                kind = d.int(0, 9)
                if kind < 3:
                    ps.append(start + known() + end)
                elif kind == 3:
                    ps.append("\\" * d.int(1, 5) + (start + (known() + end if d.bool(0.7) else "") if d.bool(0.8) else ""))
                elif kind == 4:
                    ps.append(d.choice([start + known() + " ", "@", "$", "{", "}", "${", known() + end, "#define X 1", "#mesondefine", "$" + known(), "${" + known(), "@" + known() + "!"]))
                elif kind == 5:
                    ps.append(d.choice(["\x00", "ü", "\xff", "\x01", "\t", "\r", "\v"]))
                elif kind == 6:
                    ps.append(d.text("@\\$ {}a_-.", 1, 8))
                else:
                    ps.append(d.text("abc XYZ09_.,;()\"'", 1, 10))
            line = "".join(ps)
        lines.append(line)
    text = nl.join(lines) + (nl if ends and lines else "")
    # binary view: a template is bytes, \xff stands for itself
    return text.encode("latin-1", "replace") if d.bool(0.5) else text.encode("utf-8")


class Model:
    def __init__(self):
        self.objs = {}
        self.dicts = {}


def case(d, ctx):
    w = ctx.fresh()
    src = ["project('p')"]
    exp = []        # (name, expected bytes | ('defs', lines, prefix) , mode)
    msgs = []
    M = Model()
    nobj = 0
    tmpl = []
    refuse = None
    either = False
    nfile = 0

    def say(e, v):
        msgs.append(v)
        src.append("message('<<' + (%s) + '>>')" % e)

    def new_conf():
        nonlocal nobj
        n = "c%d" % nobj
        nobj += 1
        init = {}
        if d.bool(0.5):
            for k in d.sublist(KEYS, 0.3):
                init[k] = value(d)
            if d.bool(0.5):
                src.append("d%s = {%s}" % (n, ", ".join("%s: %s" % (mstr(k), lit(v)) for k, v in init.items())))
                src.append("%s = configuration_data(d%s)" % (n, n))
                M.dicts["d" + n] = dict(init)
            else:
                src.append("%s = configuration_data({%s})" % (n, ", ".join("%s: %s" % (mstr(k), lit(v)) for k, v in init.items())))
        else:
            src.append("%s = configuration_data()" % n)
        M.objs[n] = init

    new_conf()
    for _ in d.many(3, 24, 0.93):
        if refuse or either:
            break
        k = d.int(0, 19)
        n = d.choice(sorted(M.objs))
        c = M.objs[n]
        if k < 1:
            new_conf()
        elif k < 5:
            key, v = d.choice(KEYS), value(d)
            desc = ", description: %s" % mstr(d.choice(["d", "a b"])) if d.bool(0.2) else ""
            src.append("%s.set(%s, %s%s)" % (n, mstr(key), lit(v), desc))
            c[key] = v
        elif k < 6:
            key, v = d.choice(KEYS), d.bool()
            src.append("%s.set10(%s, %s)" % (n, mstr(key), lit(v)))
            c[key] = int(v)
        elif k < 8:
            key, v = d.choice(KEYS), d.choice(VALS)
            src.append("%s.set_quoted(%s, %s)" % (n, mstr(key), mstr(v)))
            c[key] = '"' + v.replace('"', '\\"') + '"'
        elif k < 9:
            o = d.choice(sorted(M.objs))
            if o != n:
                src.append("%s.merge_from(%s)" % (n, o))
                c.update(M.objs[o])
        elif k < 10:
            key = d.choice(KEYS)
            say("%s.has(%s).to_string()" % (n, mstr(key)), tostr(key in c))
            if key in c:
                say("'@0@'.format(%s.get(%s))" % (n, mstr(key)), tostr(c[key]))
                u = c[key]
                if isinstance(u, str) and len(u) >= 2 and u[0] == u[-1] == '"':
                    u = u[1:-1]
                say("'@0@'.format(%s.get_unquoted(%s))" % (n, mstr(key)), tostr(u))
            else:
                say("'@0@'.format(%s.get(%s, 'dflt'))" % (n, mstr(key)), "dflt")
        elif k < 11:
            say("%s.keys().length().to_string()" % n, str(len(c)))
            for q, dv in sorted(M.dicts.items()):
                # the dictionary an object was made from is a value of its own
                say("','.join(%s.keys()) + %s" % (q, " + ".join("'@0@'.format(%s[%s])" % (q, mstr(x)) for x in dv) or "''"),
                    ",".join(dv) + "".join(tostr(x) for x in dv.values()))
        elif k < 12:
            # generated header
            fm = d.choice(["c", "nasm"])
            use = {a: b for a, b in c.items()}
            name = "h%d.h" % nfile
            nfile += 1
            conf = n
            if d.bool(0.3):
                use = {x: value(d) for x in d.sublist(KEYS, 0.4)}
                conf = "{" + ", ".join("%s: %s" % (mstr(x), lit(v)) for x, v in use.items()) + "}"
            src.append("configure_file(configuration: %s, output: '%s'%s)" % (conf, name, "" if fm == "c" and d.bool() else ", output_format: '%s'" % fm))
            p = "#" if fm == "c" else "%"
            defs = []
            for x, v in use.items():
                defs.append(p + ("define %s" % x if v is True else "undef %s" % x if v is False else "define %s %s" % (x, tostr(v))) + "\n")
            exp.append((name, ("defs", [latin(x) for x in defs]), None))
            if len(defs) > 1:
                d.nontrivial = True
            d.label("header")
        elif k < 13:
            # copy
            data = bytes(d.int(0, 255) for _ in d.many(0, 30, 0.9))
            mode = d.choice([0o644, 0o755, 0o600, 0o444])
            name = "copy%d" % nfile
            nfile += 1
            write(w + "/%s.in" % name, data)
            os.chmod(w + "/%s.in" % name, mode)
            src.append("configure_file(copy: true, input: '%s.in', output: '@BASENAME@')" % name)
            exp.append((name, data, mode))
            tmpl.append((len(exp) - 1, name + ".in", data, None, None))
            d.label("copy")
        elif k < 14:
            # capture of a command
            data = d.choice(["", "x", "a\nb\n", "no newline", "ü\n", " lead", "@FOO@"]) * d.choice([1, 1, 3, 3000])
            name = "cap%d.txt" % nfile
            nfile += 1
            write(w + "/%s.in" % name, data)
            src.append("configure_file(command: ['cat', '@INPUT@'], capture: true, input: '%s.in', output: '%s')" % (name, name))
            exp.append((name, data.encode(), None))
            tmpl.append((len(exp) - 1, name + ".in", data.encode(), None, None))
            d.label("capture")
        else:
            fmt = d.choice(["meson", "meson", "cmake", "cmake@"])
            t = template(d, fmt, sorted(c))
            ext = d.choice([".h.in", ".in", ".txt.tmpl"])
            base = "t%d" % nfile
            nfile += 1
            mode = d.choice([0o644, 0o644, 0o755, 0o600, 0o440])
            write(w + "/" + base + ext, t)
            os.chmod(w + "/" + base + ext, mode)
            form = d.int(0, 2)
            oname = [base + ".out", "@BASENAME@", "@PLAINNAME@.x"][form]
            name = [base + ".out", (base + ext).rsplit(".", 1)[0], base + ext + ".x"][form]
            conf = n
            if d.bool(0.2):
                conf = "{" + ", ".join("%s: %s" % (mstr(x), lit(v)) for x, v in c.items()) + "}"
            src.append("configure_file(input: '%s', output: '%s', configuration: %s%s)" % (
                base + ext, oname, conf, "" if fmt == "meson" and d.bool() else ", format: '%s'" % fmt))
            d.note("template %s: %r" % (base + ext, t))
            try:
                e = substitute(t.decode("latin-1"), c, fmt).encode("latin-1")
                exp.append((name, e, mode))
                tmpl.append((len(exp) - 1, base + ext, t, dict(c), fmt))
                if e != t:
                    d.nontrivial = True
                d.label("template:" + fmt)
            except Refuse:
                refuse = base + ext
                d.label("refuse")
            except Either:
                either = True
    src.append("message('<<END>>')")
    msgs.append("END")
    write(w + "/meson.build", "\n".join(src) + "\n")
    d.note("\n".join(src))
    d.key = ("\n".join(src), tuple(str(x[1]) for x in exp))
    d.sample = dict(kind="configure_file", program=src[1:6])
    r = ctx.run([ctx.muon, "setup", "b"])
    if r.crashed:
        raise Fail("setup crashed: " + r.why())
    if either:
        d.label("unspecified")
        return
    if refuse:
        if r.rc == 0:
            raise Fail("%s refers to a missing value or has a malformed define line, but setup succeeds" % refuse)
        if (refuse + ":").encode() not in r.err and refuse.encode() not in r.err:
            raise Fail("the diagnostic does not name %s: %s" % (refuse, r.why()))
        check(d, ctx, w, exp)
        return
    if r.rc != 0:
        raise Fail("setup failed: " + r.why())
    got = [x.decode() for x in re.findall(rb"<<(.*?)>>", r.err + r.out, re.S)]
    if got != msgs:
        raise Fail("configuration data: expected messages %r, got %r" % (msgs, got))
    times = check(d, ctx, w, exp)
    if d.bool(0.35) and exp:
        # configuring again must not touch what has not changed
        r = ctx.run([ctx.muon, "setup", "b"])
        if r.rc != 0:
            raise Fail("second setup failed: " + r.why())
        t2 = check(d, ctx, w, exp)
        if times != t2:
            raise Fail("outputs were rewritten by a second setup though nothing changed: %r" % [a for a, b in zip(exp, zip(times, t2)) if b[0] != b[1]])
        d.label("again")
        changed = []
        for i, f, t, c, fmt in tmpl:
            if not d.bool(0.5):
                continue
            k = d.int(0, 3)
            if k == 0:
                t2 = t[:len(t) // 2]
            elif k == 1:
                t2 = t + d.choice([b"x", b"\n", b"a\nb\n"])
            elif k == 2:
                t2 = t[:-1]
            else:
                t2 = t[:1] + b"_" + t[2:]
            try:
                e = t2 if c is None else substitute(t2.decode("latin-1"), c, fmt).encode("latin-1")
            except (Refuse, Either):
                continue
            if t2 != t:
                mode = os.stat(w + "/" + f).st_mode
                os.unlink(w + "/" + f)
                write(w + "/" + f, t2)
                os.chmod(w + "/" + f, mode)
                exp[i] = (exp[i][0], e, exp[i][2])
                changed.append(f)
        if changed:
            d.label("changed")
            d.note("then changed %r" % changed)
            r = ctx.run([ctx.muon, "setup", "b"])
            if r.rc != 0:
                raise Fail("setup after a change failed: " + r.why())
            check(d, ctx, w, exp)


def check(d, ctx, w, exp):
    times = []
    for name, e, mode in exp:
        p = w + "/b/" + name
        if not os.path.isfile(p):
            raise Fail("%s was not written" % name)
        st = os.stat(p)
        times.append(st.st_mtime_ns)
        got = open(p, "rb").read()
        if isinstance(e, tuple):
            s = got.decode("latin-1")
            rest = s
            for x in sorted(e[1], key=len, reverse=True):
                if x not in rest:
                    raise Fail("%s lacks %r: %r" % (name, x, s))
                rest = rest.replace(x, "", 1)
            if rest.strip():
                raise Fail("%s has more than one definition per key: %r left over of %r" % (name, rest, s))
        elif got != e:
            raise Fail("%s is %r, expected %r" % (name, got[:500], e[:500]))
        if mode is not None and stat.S_IMODE(st.st_mode) != mode:
            raise Fail("%s has mode %o, its template has %o" % (name, stat.S_IMODE(st.st_mode), mode))
    return times


if __name__ == "__main__":
    sys.exit(pbt.main(pbt.Spec(
        "C08", case, quick=6000, thorough=80000,
        rule="a case is a project with a history of configuration data operations (set, set10, set_quoted, merge_from, several objects) interleaved with configure_file calls (templates in three formats, generated C and nasm headers, copies, captured commands); non-trivial: a template whose text changes, or a header with at least two keys",
        assumptions=["values without NUL; the order of definitions in a generated header is left open; '@@' and trailing text after a cmakedefine are left open", "description: is not written by this version of muon and left open"],
    )))
