#!/usr/bin/env python3
"""C06: no input makes muon crash: structured and mutational fuzzing of a
build with AddressSanitizer and UndefinedBehaviorSanitizer."""
import glob, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt, syntax, lang, api
from pbt import Fail, write

TOK = ["(", ")", "[", "]", "{", "}", ",", ":", ".", "=", "+=", "==", "!=", "<", "<=", ">", ">=", "+", "-", "*", "/", "%", "?", "|", "->", "\n", "\n", "if", "elif", "else", "endif", "foreach", "endforeach", "and", "or", "not", "in", "true", "false", "break", "continue", "func", "endfunc", "return",
       "a", "foo", "'s'", "''", "'''x\n'''", "f'@a@'", "f'@'", "'@0@'", "0", "1", "0x", "0xff", "0b2", "0o9", "99999999999999999999", "#c\n", "#", "'", "'''", "f'''", "\\", "\\\n", "@", "$", "'\\", "'\\x4'", "'\\u12'", "'\\U00110000'", "'\\N{DASH}'", "'\\777'", "\0", "\xff", "\r\n", "str", "list[str]", "any", "'x'.format(1)", "[]", "{}", "a[]", "a()", "import('fs')", "range(3)", "//", "!", "&", "subdir_done()", "'%s'", "'%n%n'", "set_variable('a', 1)"]
CORPUS = None


def corpus():
    global CORPUS
    if CORPUS is None:
        CORPUS = []
        for g in ("tests/lang/*.meson", "tests/fmt/**/*", "tests/project/**/*.meson", "tests/project/**/meson.build", "tests/project/**/meson_options.txt", "tests/fuzz/**/*", "src/script/**/*.meson", "meson.build", "meson_options.txt"):
            for p in sorted(glob.glob(os.path.join(pbt.REPO, g), recursive=True)):
                if os.path.isfile(p) and os.path.getsize(p) < 6000:
                    CORPUS.append(p)
    return CORPUS


def mutate_tokens(d, toks):
    toks = list(toks)
    for _ in d.many(1, 6, 0.6):
        if not toks:
            toks = ["a"]
        i = d.int(0, len(toks) - 1)
        k = d.int(0, 6)
        if k == 0:
            del toks[i]
        elif k == 1:
            toks.insert(i, d.choice(TOK))
        elif k == 2:
            toks[i] = d.choice(TOK)
        elif k == 3:
            j = d.int(0, len(toks) - 1)
            toks[i], toks[j] = toks[j], toks[i]
        elif k == 4:
            j = min(len(toks), i + d.int(1, 8))
            p = d.int(0, len(toks))
            toks[p:p] = toks[i:j]
        elif k == 5:
            del toks[i:i + d.int(1, 8)]
        else:
            toks = toks[:i]
    return toks


def mutate_bytes(d, b):
    b = bytearray(b)
    for _ in d.many(1, 8, 0.7):
        n = len(b)
        i = d.int(0, max(0, n - 1))
        k = d.int(0, 7)
        if not n:
            b = bytearray(b"a")
        elif k == 0:
            b[i] = d.int(0, 255)
        elif k == 1:
            del b[i:i + d.int(1, 12)]
        elif k == 2:
            b[i:i] = d.choice(TOK).encode("latin1")
        elif k == 3:
            b[i:i] = b[d.int(0, n - 1):][: d.int(1, 40)]
        elif k == 4:
            b[i] ^= 1 << d.int(0, 7)
        elif k == 5:
            b = b[:i]
        elif k == 6:
            b[i:i] = bytes([d.choice([0, 10, 13, 9, 39, 34, 92, 64, 35, 255, 128, 127, 11])]) * d.choice([1, 1, 2, 3, 70])
        else:
            j = d.int(0, n - 1)
            b[i], b[j] = b[j], b[i]
    return bytes(b)


def flat_tokens(stmts):
    out = []
    for _, t, _ in stmts:
        out += t + ["\n"]
    return out


def spell(d, toks):
    out, prev = "", ""
    for t in toks:
        if syntax.need_space(prev, t) or d.bool(0.1):
            out += " "
        out += t
        prev = t
    return out


FMTKEYS = ["max_line_len", "indent_by", "space_array", "kwargs_force_multiline", "wide_colon", "no_single_comma_function", "nope", "[s]", "max_line_len"]


def fmtini(d):
    s = ""
    for _ in d.many(0, 5, 0.6):
        s += d.choice(FMTKEYS) + d.choice([" = ", "=", "", " =", ":"]) + d.choice(["true", "false", "0", "-1", "99999999999999", "'  '", "'", "''", "\"x\"", "x", "", "'\\t'", "1"]) + d.choice(["\n", "\n\n", " # c\n", "\r\n", ""])
    return s.encode("latin1")


def ran(d, ctx, what, argv, hang=True, cpu=20, **kw):
    r = ctx.run(argv, cpu=cpu, **kw)
    if r.rc == -24 or r.rc == -9 and not r.err:
        if hang:
            raise Fail("%s does not end" % what)
        d.label("hang?")
        return r
    if r.crashed:
        raise Fail("%s crashed: %s" % (what, r.why()))
    if r.rc not in (0, 1):
        raise Fail("%s ended with status %d\n%s" % (what, r.rc, r.why()))
    if r.rc == 1 and not (r.err or r.out):
        raise Fail("%s failed without a diagnostic" % what)
    d.label(what + (":ok" if r.rc == 0 else ":error"))
    return r


def source(d, ctx, data, evaluate=True, hang=False):
    w = ctx.fresh()
    write(w + "/t.meson", data)
    d.note("t.meson: %r" % data)
    ran(d, ctx, "check", [ctx.muon, "check", "t.meson"])
    if d.bool(0.3):
        ran(d, ctx, "check -p", [ctx.muon, "check", "-p", "-m", d.choice(["functions", "keep_formatting", "fmt", "quiet", "ignore_statement_with_no_effect"]), "t.meson"])
    args = []
    if d.bool(0.4):
        write(w + "/fmt.ini", fmtini(d) if d.bool(0.8) else d.choice([b"", b"\0", b"=", b"a\n", b"[", b"[]\n=\n"]))
        d.note("fmt.ini: %r" % open(w + "/fmt.ini", "rb").read())
        args = ["-c", "fmt.ini"]
    elif d.bool(0.3):
        write(w + "/.editorconfig", d.choice([b"[*]\nindent_size = ", b"[*.meson]\nmax_line_length=", b"root = true\n[meson.build]\nindent_style = ", b"[{a,b}*]\nindent_size=", b"["]) + d.choice([b"4\n", b"tab\n", b"-1\n", b"99999999999\n", b"x", b""]))
        args = ["-e"]
    ran(d, ctx, "fmt", [ctx.muon, "fmt"] + args + ["t.meson"])
    ran(d, ctx, "analyze -i", [ctx.muon, "analyze", "-i", "t.meson"])
    if evaluate:
        ran(d, ctx, "eval", [ctx.muon, "internal", "eval", "t.meson"], hang=hang, cpu=6)


def case(d, ctx):
    mode = d.weighted([(5, "tokens"), (4, "bytes"), (5, "script-api"), (5, "api"), (3, "config"), (3, "semantics"), (1, "raw")])
    d.label("mode:" + mode)
    if mode == "tokens":
        g = syntax.Gen(d)
        toks = mutate_tokens(d, flat_tokens(g.block(2, False, 1, 6)))
        data = spell(d, toks).encode("latin1")
        d.key, d.nontrivial, d.sample = data, len(toks) > 8, repr(data[:200])
        source(d, ctx, data)
    elif mode == "bytes":
        c = corpus()
        p = c[d.int(0, len(c) - 1)]
        data = mutate_bytes(d, open(p, "rb").read())
        d.note("a mutation of " + os.path.relpath(p, pbt.REPO))
        d.key, d.nontrivial, d.sample = data, True, repr(data[:200])
        source(d, ctx, data)
    elif mode == "raw":
        data = bytes(d.int(0, 255) if d.bool(0.3) else ord(d.choice("ab'\"()[]{}=,.:#\\\n @0x+-")) for _ in d.many(0, 60, 0.95))
        d.key, d.nontrivial, d.sample = data, len(data) > 4, repr(data)
        source(d, ctx, data)
    elif mode == "semantics":
        it = lang.Interp(20000)
        g = lang.Gen(d, it)
        block = []
        try:
            for i in d.many(1, 8, 0.85):
                s = ("assign", "v%d" % d.int(0, 4), g.expr(g.anytype(), d.int(1, 4)))
                it.st(s)
                block.append(s)
        except (lang.Undecided, lang.LangError):
            raise pbt.Reject
        data = ("\n".join(lang.Printer(d, 0.05).block(block)) + "\n").encode()
        d.key, d.nontrivial, d.sample = data, len(block) > 1, repr(data[:200])
        source(d, ctx, data)
    elif mode == "script-api":
        g = api.Gen(d, False, script=True)
        lines, used = [], []
        for _ in d.many(1, 8, 0.85):
            n, s = g.stmt()
            used.append(n)
            lines.append(s)
        data = "\n".join(lines) + "\n"
        d.label(*["call:" + u for u in used])
        d.key, d.nontrivial, d.sample = data, True, data[:300]
        d.note(data)
        w = ctx.fresh()
        write(w + "/t.meson", data)
        for f in ("a.c", "in.txt", "x.h"):
            write(w + "/" + f, "x\n")
        os.mkdir(w + "/dir")
        ran(d, ctx, "script", [ctx.muon, "internal", "eval", "t.meson"], cpu=10)
        if d.bool(0.3):
            ran(d, ctx, "analyze -i", [ctx.muon, "analyze", "-i", "t.meson"])
    elif mode == "api":
        api_case(d, ctx)
    else:
        config_case(d, ctx)


def project(ctx, d, build, options=b"option('feat', type: 'feature', value: 'auto')\noption('stringopt', type: 'string', value: 'x')\n"):
    w = ctx.fresh()
    write(w + "/meson.build", build)
    write(w + "/meson_options.txt", options)
    write(w + "/a.c", "int main(void) { return 0; }\n")
    write(w + "/x.h", "#pragma once\n")
    write(w + "/in.txt", "a @k@ b\n#mesondefine k\n")
    os.mkdir(w + "/dir")
    os.makedirs(w + "/subprojects/sub")
    write(w + "/subprojects/sub/meson.build", "project('sub', version: '1.2')\nv = 1\n")
    return w


def api_case(d, ctx):
    comp = d.bool(0.12)
    g = api.Gen(d, comp)
    used, lines = [], []
    for _ in d.many(1, 9, 0.85):
        n, s = g.stmt()
        used.append(n)
        lines.append(s)
    src = "project('p'%s)\n%s\n" % (", 'c'" if comp else "", "\n".join(lines))
    d.label(*["call:" + u for u in used])
    d.key, d.nontrivial, d.sample = src, True, src[:300]
    d.note(src)
    project(ctx, d, src)
    ran(d, ctx, "setup", [ctx.muon, "setup", "b"], cpu=40)
    if d.bool(0.4):
        ran(d, ctx, "analyze", [ctx.muon, "analyze"])


def config_case(d, ctx):
    k = d.choice(["options", "machine", "keyval", "wrap", "args", "serial", "subdir"])
    d.label("config:" + k)
    d.nontrivial = True
    build = b"project('p')\nmessage(get_option('feat'))\n"
    opts = b"option('feat', type: 'feature', value: 'auto')\n"
    if k == "options":
        g = "".join("option(%s)\n" % ", ".join(
            ["'%s'" % d.choice(["feat", "a", "b", "prefix", "warning_level", "", "a:b", "default_library", "build.x", "x y"])] +
            ["%s: %s" % (kw, d.choice(v)) for kw, v in d.sublist([
                ("type", ["'string'", "'boolean'", "'combo'", "'integer'", "'array'", "'feature'", "'nope'", "1"]),
                ("value", ["'x'", "true", "1", "[]", "['a']", "'auto'", "'true'", "-1", "['a', 'a']", "{}"]),
                ("choices", ["['a', 'x']", "[]", "['']", "'x'", "[1]"]),
                ("min", ["0", "-5", "9"]), ("max", ["3", "-9"]), ("yield", ["true", "'x'"]),
                ("description", ["'d'", "1"]), ("deprecated", ["true", "'a'", "['a']", "{'a': 'b'}"])], 0.55)]) for _ in d.many(1, 5, 0.7))
        opts = g.encode()
        if d.bool(0.4):
            opts = mutate_bytes(d, opts)
        build = b"project('p')\n" + b"".join(b"message(get_option('%s'))\n" % n for n in d.sublist([b"feat", b"a", b"b", b"x y"], 0.5))
    w = project(ctx, d, build, opts)
    argv = [ctx.muon, "setup"]
    if k == "machine":
        base = b"[binaries]\nc = 'gcc'\nfoo = ['a', 'b']\n[properties]\nx = true\n[constants]\nt = '/a' / 'b'\n[host_machine]\nsystem = 'linux'\ncpu = t\ncpu_family = 'x86'\nendian = 'little'\n[built-in options]\nwarning_level = '2'\n[p:project options]\nfeat = 'enabled'\n"
        data = mutate_bytes(d, base)
        write(w + "/m.ini", data)
        d.note("m.ini: %r" % data)
        argv += [d.choice(["--native-file", "--cross-file", "-m"]), "m.ini"] if d.bool(0.5) else ["-Dfeat=auto"]
    elif k == "keyval":
        data = mutate_bytes(d, b"A=b\nC = d # x\n\n# c\nE=\"f\"\nLAST=1")
        write(w + "/kv", data)
        d.note("kv: %r" % data)
        write(w + "/meson.build", "project('p')\nmessage(import('keyval').load('kv'))\nmessage(import('fs').read('kv'))\nconfigure_file(input: 'kv', output: 'o', configuration: {'A': 'x'})\n")
    elif k == "wrap":
        data = mutate_bytes(d, b"[wrap-file]\ndirectory = sub2\nsource_url = file:///nonexistent/x.tar.gz\nsource_filename = x.tar.gz\nsource_hash = 00\npatch_directory = q\n[provide]\nsub2 = dep\ndependency_names = a, b\nprogram_names = c\n")
        write(w + "/subprojects/sub2.wrap", data)
        d.note("wrap: %r" % data)
        write(w + "/meson.build", "project('p')\nsubproject('sub2', required: false)\ndependency('a', required: false)\nfind_program('c', required: false)\n")
    elif k == "args":
        vals = ["feat=auto", "feat=", "feat", "=", "", "sub:x=1", ":", "prefix=/usr", "prefix=rel", "warning_level=9", "optimization=plain", "optimization=g", "buildtype=custom", "buildtype=x", "default_library=both", "c_args=-DX,-DY", "c_args=[", "a.b=c", "build.c_args=1", "werror=1", "feat=\x01", "wrap_mode=nodownload", "unity=on", "libdir=" + "x" * 5000, "pkg_config_path=a:b", "backend=ninja", "install_umask=999", "backend=x", "auto_features=enabled"]
        a = ["-D" + v for v in d.sublist(vals, 0.12)]
        d.note(repr(a))
        write(w + "/meson.build", "project('p', default_options: ['%s'])\nmessage(get_option('feat'))\n" % d.choice(vals).replace("\x01", ""))
        d.note(open(w + "/meson.build").read())
        argv += a
    elif k == "serial":
        write(w + "/s.meson", "serial_dump('x.dat', {'a': [1, 'b', true, {'c': []}], 'long': '%s'})\n" % ("y" * d.choice([3, 300, 5000])))
        ran(d, ctx, "dump", [ctx.muon, "internal", "eval", "s.meson"])
        data = mutate_bytes(d, open(w + "/x.dat", "rb").read())
        write(w + "/x.dat", data)
        d.note("x.dat: %r" % data[:400])
        write(w + "/l.meson", "message(serial_load('x.dat'))\n")
        d.key = data
        ran(d, ctx, "serial_load", [ctx.muon, "internal", "eval", "l.meson"])
        return
    elif k == "subdir":
        write(w + "/dir/meson.build", mutate_bytes(d, b"x = 1\nif x == 1\n  subdir_done()\nendif\ny = files('q')\n"))
        write(w + "/meson.build", "project('p')\nsubdir('dir')\nmessage(x)\n")
    d.key = (k, repr(d.notes), opts)
    d.sample = dict(kind=k, input=(d.notes or [opts.decode("latin1")])[-1][:300])
    if k == "options":
        d.note("options: %r" % opts)
    ran(d, ctx, "setup", argv + ["b"])
    if k in ("options", "args") and d.bool(0.5):
        ran(d, ctx, "options", [ctx.muon, "options", "-a"])


if __name__ == "__main__":
    sys.exit(pbt.main(pbt.Spec(
        "C06", case, quick=5000, thorough=60000, builds=("asan",),
        rule="a case is one generated or mutated input (token-level and byte-level mutations of generated and existing build files, type-directed calls of every function and method, options, machine, wrap, key-value, formatter configuration and serialized files) given to check, fmt, analyze, eval or setup built with ASan and UBSan; non-trivial: more than a handful of tokens",
        assumptions=["leaks are not counted", "evaluation that runs out of its CPU time is not a failure for programs that can loop"],
    )))
