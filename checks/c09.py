#!/usr/bin/env python3
"""C09: argument vectors and environments as seen by the executed program."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt, rec
from pbt import Fail, write, mstr

BITS = ["", " ", "a", "b c", "'", '"', "\\", "\\\\", "$", "$x", "${HOME}", "$$", "$HOME", "`id`", "$(id)", ";", "|", "||", "&", "&&", ">", "<", "2>&1", "*",
        "?", "[a]", "{a,b}", "~", "~/x", "!", "#", "#c", "%", "%s", "%%", ":", "=", "a=b", "@", "@@", "@foo", "@x@", "^", "(", ")", "\t", "é", "日本", "-", "--",
        "-c", "-e", "-n", "-a", "-f", "\\n", "\x01", "\x7f", "\r", "C:\\x", "/", "//", "./.", "..", ",", "\"\"", "''", "\\'", "\\\"", "$\n"[:1], " x", "x ", "\v", "$in",
        "$out", "${in}", "a\\ b", "-Dx='y'", "\"a b\"", "'a b'", "\\$x", "\\ ", "--version", "@0@", "rule", "|@", "build x: y"]
NOSUBST = set()


def arg(d, nl=False):
    k = d.int(0, 9)
    if k < 5:
        s = d.choice(BITS)
    elif k < 8:
        s = "".join(d.choice(BITS) for _ in range(d.int(2, 4)))
    elif k < 9:
        s = d.text("ab \\'\"$`;|&*?#%:@!(){}[]<>~=^,.-\t", 0, 12)
    else:
        s = d.choice(BITS) * d.choice([10, 200, 1500])
    if nl and d.bool(0.05):
        s += "\n" + d.choice(BITS)
    return s


def args(d, nl=False, hi=6):
    return [arg(d, nl) for _ in d.many(0, hi, 0.75)]


def at(s):
    # an argument of a command with placeholders: the known names are C10's
    # (and a backslash before an @ is an escape there)
    import re
    return re.sub(r"\\+@", "@", s.replace("@0@", "@x@"))


def env(d, nl=False):
    e = {}
    for _ in d.many(0, 4, 0.6):
        k = d.choice(["V1", "V2", "_a", "LONG_NAME_X", "v.x", "a-b", "V 1", "é", "PATHX"])
        e[k] = arg(d, nl)
    return e


def envexpr(d, e, src, n):
    if not e:
        return ""
    k = d.int(0, 2)
    if k == 0:
        return ", env: {%s}" % ", ".join("%s: %s" % (mstr(a), mstr(b)) for a, b in e.items())
    if k == 1:
        return ", env: [%s]" % ", ".join(mstr(a + "=" + b) for a, b in e.items())
    src.append("env%d = environment()" % n)
    for a, b in e.items():
        src.append("env%d.set(%s, %s)" % (n, mstr(a), mstr(b)))
    return ", env: env%d" % n


def lst(a):
    return "[" + ", ".join(map(mstr, a)) + "]"


DIRS = ["s", "s", "s", "a b", "q'x", "d$x", "p:q", "é", "a&b", "(x)", "c;d", "a#b", "x@y@", "100%", "a\\b", "[z]", "t~", "!", "a\"b", "-s", "a=b", "x|y", "*", "a  b", "`i`", "$(x)", "{}", ",", "^", "a\tb"]


def case(d, ctx):
    w = ctx.fresh()
    sd = d.choice(DIRS) if d.bool(0.5) else "s"
    s = w + "/" + sd
    bname = d.choice(["b", "b", "b x", "b$", "b'", "b;c"]) if d.bool(0.3) else "b"
    b = s + "/" + bname
    os.makedirs(s)
    os.makedirs(w + "/log")
    compile_ = sd == "s" and bname == "b" and d.bool(0.15)
    src = ["project('p'%s)" % (", 'c'" if compile_ else "")]
    src.append("rec = find_program(%s)" % mstr(ctx.rec))
    exp = []      # (what, path, argv, env)
    wantrun, wanttest, wantinst = [], False, False
    n = 0
    outputs = []
    for _ in d.many(1, 6, 0.8):
        n += 1
        log = w + "/log/l%d" % n
        ch = d.choice(["run_command", "custom", "custom", "capture", "generator", "run_target", "test", "configure_file", "install_script", "postconf"])
        nl = ch not in ("generator", "run_target")
        a = args(d, nl)
        e = env(d, nl)
        prog = d.choice(["rec", mstr(ctx.rec), "rec.full_path()"]) if ch not in ("generator", "test") else "rec"
        if ch == "run_command":
            src.append("run_command([%s, %s] + %s, check: true%s)" % (prog, mstr(log), lst(a), envexpr(d, e, src, n)))
        elif ch == "configure_file":
            a = [at(x) for x in a]
            e = {}
            src.append("configure_file(command: [%s, %s] + %s, output: 'cf%d', capture: true)" % (prog, mstr(log), lst(a), n))
        elif ch == "custom":
            a = [at(x) for x in a]
            oname = "o%d" % n + (d.choice(["", " x", "$x", ":y", "'", "&", "é", ";", "#", "%", "~", "(z)"]) if d.bool(0.3) else "")
            src.append("custom_target('ct%d', output: %s, command: [%s, '@OUTPUT@'] + %s, build_by_default: true%s)" % (n, mstr(oname), prog, lst(a), envexpr(d, e, src, n)))
            log = b + "/" + oname
        elif ch == "capture":
            a = [at(x) for x in a]
            oname = "o%d" % n + (d.choice(["", " x", "$x", ":y", "'", "&", "é", ";"]) if d.bool(0.3) else "")
            src.append("custom_target('ct%d', output: %s, command: [%s, '-'] + %s, capture: true, build_by_default: true%s)" % (n, mstr(oname), prog, lst(a), envexpr(d, e, src, n)))
            log = b + "/" + oname
        elif ch == "generator":
            a = [at(x) for x in a]
            x = args(d, False, 3)
            e = {}
            inp = "in%d" % n + (d.choice([" x", "$x", ":y", "'", "&", "é", ";"]) if d.bool(0.3) else "") + ".txt"
            write(s + "/" + inp, "x")
            src.append("g%d = generator(rec, output: '@BASENAME@.gen', arguments: ['@OUTPUT@'] + %s + ['@EXTRA_ARGS@'])" % (n, lst(a)))
            src.append("gl%d = g%d.process(files(%s)%s)" % (n, n, mstr(inp), ", extra_args: %s" % lst(x) if x else ""))
            src.append("custom_target('gt%d', input: gl%d, output: 'gt%d', command: ['cp', '@INPUT@', '@OUTPUT@'], build_by_default: true)" % (n, n, n))
            a = a + x
            log = b + "/gt%d" % n
        elif ch == "run_target":
            a = [at(x) for x in a]
            src.append("run_target('rt%d', command: [%s, %s] + %s%s)" % (n, prog, mstr(log), lst(a), envexpr(d, e, src, n)))
            wantrun.append("rt%d" % n)
        elif ch == "test":
            src.append("test('t%d', rec, args: [%s] + %s%s)" % (n, mstr(log), lst(a), envexpr(d, e, src, n)))
            wanttest = True
        elif ch == "install_script":
            e = {}
            src.append("meson.add_install_script([%s, %s] + %s)" % (prog, mstr(log), lst(a)))
            wantinst = True
        elif ch == "postconf":
            e = {}
            src.append("meson.add_postconf_script([%s, %s] + %s)" % (prog, mstr(log), lst(a)))
        exp.append((ch, log, a, e))
        d.label(ch)
    cexp = None
    if compile_:
        def marked(k, pre):
            return [pre + "%s%d_" % (k, i) + arg(d).replace("\r", "") for i, _ in enumerate(d.many(0, 4, 0.7))]
        glob, proj, tgt, dep = (marked(k, d.choice(["-Zv", "-DZV"])) for k in "gptd")
        lproj, ltgt = marked("lp", "-Wl,-Zv"), marked("lt", "-Wl,-Zv")
        write(s + "/m.c", "int main(void) { return 0; }\n")
        src.append("add_global_arguments(%s, language: 'c')" % lst(glob))
        src.append("add_project_arguments(%s, language: 'c')" % lst(proj))
        src.append("add_project_link_arguments(%s, language: 'c')" % lst(lproj))
        src.append("executable('m', 'm.c', c_args: %s, link_args: %s, dependencies: declare_dependency(compile_args: %s))" % (lst(tgt), lst(ltgt), lst(dep)))
        cexp = (glob, proj, tgt, dep, lproj, ltgt)
        d.label("compile")
    write(s + "/meson.build", "\n".join(src) + "\n")
    d.note("source %r build %r\n" % (sd, bname) + "\n".join(src))
    d.key = (sd, bname, "\n".join(src))
    d.sample = dict(channels=[(c, a[:3]) for c, _, a, _ in exp][:4])
    d.nontrivial = any(a or e for _, _, a, e in exp) or bool(cexp)
    E = {"HOME": "/expanded", "x": "EXPANDED", "RECLOG": w + "/log"}
    for k in sorted({k for _, _, _, e in exp for k in e}):
        if k not in E and d.bool(0.3):
            E[k] = d.choice(["inherited", "", "x y"])
    if compile_:
        E["CC"] = ctx.reccc
    r = ctx.run([ctx.muon, "setup", b], cwd=s, env=E)
    if r.rc != 0:
        raise Fail("setup failed: " + r.why())
    # muon's own build tool, or the external one
    ninja = ["ninja"] if d.bool(0.25) else [ctx.muon, "samu"]
    d.note("build with %s" % ninja[-1])
    if compile_:
        open(w + "/log/log", "w").close()
    r = ctx.run(ninja, cwd=b, env=E)
    if r.rc != 0:
        raise Fail("build failed: " + r.why())
    for t in wantrun:
        r = ctx.run(ninja + [t], cwd=b, env=E)
        if r.rc != 0:
            raise Fail("run_target failed: " + r.why())
    if wanttest:
        r = ctx.run([ctx.muon, "test"], cwd=b, env=E)
        if r.rc != 0:
            raise Fail("test failed: " + r.why())
    if wantinst:
        r = ctx.run([ctx.muon, "install"], cwd=b, env=dict(E, DESTDIR=w + "/dest"))
        if r.rc != 0:
            raise Fail("install failed: " + r.why())
    for ch, log, a, e in exp:
        rs = rec.read(log)
        if len(rs) != 1:
            raise Fail("%s: the command ran %d times (%s)" % (ch, len(rs), log))
        argv, en, cwd = rs[0]
        want = [x.encode() for x in a]
        if argv != want:
            raise Fail("%s: the command got the arguments %r, declared were %r" % (ch, argv, want))
        for k, v in e.items():
            if en.get(k.encode()) != v.encode():
                raise Fail("%s: %s is %r in the command's environment, declared was %r" % (ch, k, en.get(k.encode()), v))
        if en.get(b"HOME") != b"/expanded" or en.get(b"x") != b"EXPANDED":
            raise Fail("%s: the inherited environment was changed: %r" % (ch, {k: en.get(k) for k in (b"HOME", b"x")}))
    if cexp:
        rs = rec.read(w + "/log/log")
        comp = [a for a, _, _ in rs if b"-c" in a]
        link = [a for a, _, _ in rs if b"-c" not in a]
        if len(comp) != 1 or len(link) != 1:
            raise Fail("expected one compile and one link command, got %r" % (rs,))
        glob, proj, tgt, dep, lproj, ltgt = cexp
        for where, a, pre, sets in (("compile", comp[0], (b"-Zv", b"-DZV"), (glob, proj, tgt, dep)), ("link", link[0], (b"-Wl,-Zv",), (lproj, ltgt))):
            got = [x for x in a if x.startswith(pre)]
            want = [x.encode() for q in sets for x in q]
            if sorted(got) != sorted(want):
                raise Fail("%s command got %r, declared were %r" % (where, got, want))
            for q in sets:
                q = [x.encode() for x in q]
                if [x for x in got if x in q] != q:
                    raise Fail("%s command has the arguments in another order: %r, declared were %r" % (where, got, q))


if __name__ == "__main__":
    sys.exit(pbt.main(pbt.Spec(
        "C09", case, quick=2200, thorough=40000, setup=rec.setup,
        rule="a case is a project in a directory with an unusual name that passes generated argument vectors and environments through 1..6 of eleven channels, each executing a program that records its argv, environ and working directory; built with muon samu or ninja; non-trivial: some channel has an argument or a variable",
        assumptions=["no NUL; newlines only in the channels that allow them; marked arguments are removed by the recording compiler wrapper before gcc sees them"],
    )))
