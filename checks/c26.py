#!/usr/bin/env python3
"""C26: programs in which disablers flow through values, calls and conditions against a model of what still happens."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Fail, write, mstr


class Dis:
    def __repr__(self):
        return "D"


D = Dis()
STR = ["a", "b", "xy", "", "k"]


def has(v):
    if v is D:
        return True
    if isinstance(v, list):
        return any(has(x) for x in v)
    if isinstance(v, dict):
        return any(has(x) for x in v.values())
    return False


def lit(v):
    if v is D:
        return "disabler()"
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, int):
        return str(v) if v >= 0 else "(%d)" % v
    if isinstance(v, str):
        return mstr(v)
    if isinstance(v, list):
        return "[%s]" % ", ".join(lit(x) for x in v)
    return "{%s}" % ", ".join("%s: %s" % (mstr(k), lit(x)) for k, x in v.items())


def show(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    return str(v)


class Gen:
    def __init__(self, d, pd):
        self.d = d
        self.pd = pd
        self.vars = {}  # name -> (type, value)
        self.nflow = 0

    # expressions: (text, value); every subexpression is free of side effects
    def dis(self, depth=2):
        d = self.d
        self.nflow += 1
        ops = ["disabler()"] * 2
        dv = [n for n, (t, v) in self.vars.items() if v is D]
        if dv:
            ops += [d.choice(dv)] * 4
        if depth <= 0:
            return d.choice(ops)
        k = d.int(0, 31)
        x = lambda: self.dis(depth - 1)
        forms = [
            lambda: "(not %s)" % x(),
            lambda: "(-%s)" % x(),
            lambda: "%s.foo()" % x(),
            lambda: "%s.foo(1, %s, k: [2])" % (x(), self.e(d.choice(["int", "str"]), 1)[0]),
            lambda: "%s['k']" % x(),
            lambda: "%s[%s]" % (x(), self.e("int", 1)[0]),
            lambda: "[1, 2][%s]" % x(),
            lambda: "{'k': 1}[%s]" % x(),
            lambda: "'abc'[%s]" % x(),
            lambda: "(%s + %s)" % (x(), self.e(d.choice(["int", "str", "list"]), 1)[0]),
            lambda: "(%s %s %s)" % (self.e(d.choice(["int", "str", "list"]), 1)[0], d.choice(["+", "-", "*", "/", "%", "==", "!=", "<", ">=", "in", "not in"]), x()),
            lambda: "(%s %s %s)" % (x(), d.choice(["==", "!=", "<", ">", "in", "not in"]), self.e(d.choice(["int", "str", "list"]), 1)[0]),
            lambda: "(%s ? 1 : 2)" % x(),
            lambda: "(true ? %s : 1)" % x(),
            lambda: "(false ? 1 : %s)" % x(),
            lambda: "[%s][0]" % x(),
            lambda: "{'k': %s}['k']" % x(),
            lambda: "[1, %s].get(1)" % x(),
            lambda: "[1].get(5, %s)" % x(),
            lambda: "{'k': 1}.get('k', %s)" % x(),
            lambda: "get_variable('no_such_variable', %s)" % x(),
            lambda: "get_variable(%s)" % x(),
            lambda: "is_variable(%s)" % x(),
            lambda: "'@0@'.format(%s)" % x(),
            lambda: "%s.join('a', [%s])" % (self.e("str", 1)[0], x()),
            lambda: "(%s and %s)" % (x(), self.e("bool", 1)[0]),
            lambda: "(true and %s)" % x(),
            lambda: "(false or %s)" % x(),
            lambda: "find_program('no-such-program-x', required: false, disabler: true)",
            lambda: "dependency('no-such-dependency-x', required: false, disabler: true)",
            lambda: "import('fs').name(%s)" % x(),
            lambda: d.choice(["files", "join_paths", "import", "get_option", "include_directories", "subproject", "subdir", "error", "message", "configuration_data", "environment", "dependency", "find_program"]) + "([%s])" % x(),
        ]
        if d.bool(0.5):
            return d.choice(ops)
        d.label("flow %d" % k)
        return forms[k]()

    def call(self, recv, rv, name, args, fn):
        """a method call: args are (text, value)"""
        t = "%s.%s(%s)" % (recv, name, ", ".join(a for a, _ in args))
        if rv is D or any(has(v) for _, v in args):
            return t, D
        return t, fn(*[v for _, v in args])

    def e(self, t, depth=3):
        d = self.d
        if d.bool(self.pd):
            return self.dis(min(depth, 2)), D
        if depth <= 0 or d.bool(0.3):
            vs = [n for n, (vt, v) in self.vars.items() if vt == t]
            if vs and d.bool(0.6):
                n = d.choice(vs)
                return n, self.vars[n][1]
            v = self.leaf(t)
            return lit(v), v
        return getattr(self, "e_" + t)(depth - 1)

    def leaf(self, t):
        d = self.d
        if t == "int":
            return d.int(0, 5)
        if t == "bool":
            return d.bool()
        if t == "str":
            return d.choice(STR)
        if t == "list":
            return [d.int(0, 5) for _ in range(d.int(0, 3))]
        return {k: d.int(0, 5) for k in d.sublist(["a", "b", "k"], 0.5)}

    def tern(self, t, n):
        c, cv = self.e("bool", n)
        a, av = self.e(t, n)
        b, bv = self.e(t, n)
        return "(%s ? %s : %s)" % (c, a, b), D if cv is D else av if cv else bv

    def bin(self, op, a, b, fn):
        t = "(%s %s %s)" % (a[0], op, b[0])
        if a[1] is D or b[1] is D:
            return t, D
        return t, fn(a[1], b[1])

    def e_int(self, n):
        d = self.d
        k = d.int(0, 6)
        if k == 0:
            return self.bin("+", self.e("int", n), self.e("int", n), lambda a, b: a + b)
        if k == 1:
            return self.bin("*", self.e("int", n), self.e("int", n), lambda a, b: a * b)
        if k == 2:
            a, v = self.e("int", n)
            return "(-%s)" % a, D if v is D else -v
        if k == 3:
            l, v = self.e("list", n)
            return self.call(l, v, "length", [], lambda: len(v))
        if k == 4:
            l, v = self.e("list", n)
            if not isinstance(v, list) or not v:
                return l + ".length()", D if v is D else 0
            i = d.int(0, len(v) - 1)
            if d.bool():
                return "%s[%d]" % (l, i), v[i]
            x, xv = self.e("int", n)
            return self.call(l, v, "get", [(str(i), i), (x, xv)], lambda a, b: v[i])
        if k == 5:
            l, v = self.e("dict", n)
            key = d.choice(["a", "b", "k"])
            f = self.e("int", n)
            return self.call(l, v, "get", [(mstr(key), key), f], lambda a, b: v.get(key, b))
        return self.tern("int", n)

    def e_bool(self, n):
        d = self.d
        k = d.int(0, 9)
        if k == 0:
            a, v = self.e("bool", n)
            return "(not %s)" % a, D if v is D else not v
        if k in (1, 2):
            a, av = self.e("bool", n)
            b, bv = self.e("bool", n)
            t = "(%s %s %s)" % (a, "and" if k == 1 else "or", b)
            if av is D:
                return t, D
            if (k == 1) != av:
                return t, av
            return t, bv
        if k == 3:
            ty = d.choice(["int", "str", "list", "dict"])
            neg = d.bool()
            return self.bin("!=" if neg else "==", self.e(ty, n), self.e(ty, n), lambda a, b: (a == b) != neg)
        if k == 4:
            op, fn = d.choice([("<", lambda a, b: a < b), (">=", lambda a, b: a >= b)])
            return self.bin(op, self.e("int", n), self.e("int", n), fn)
        if k == 5:
            neg = d.bool()
            return self.bin("not in" if neg else "in", self.e("int", n), self.e("list", n), lambda a, b: (a in b) != neg)
        if k == 6:
            a, v = self.any(n)
            return "is_disabler(%s)" % a, v is D
        if k == 7:
            l, v = self.e("list", n)
            return self.call(l, v, "contains", [self.e("int", n)], lambda a: a in v)
        if k == 8:
            return "%s.found()" % self.dis(n), False
        return self.tern("bool", n)

    def any(self, n):
        return self.e(self.d.choice(["int", "bool", "str", "list", "dict"]), n)

    def e_str(self, n):
        d = self.d
        k = d.int(0, 4)
        if k == 0:
            return self.bin("+", self.e("str", n), self.e("str", n), lambda a, b: a + b)
        if k == 1:
            a, v = self.e("str", n)
            return self.call(a, v, "to_upper", [], lambda: v.upper())
        if k == 2:
            a, v = self.any_scalar(n)
            return self.call("'<@0@>'", "", "format", [(a, v)], lambda x: "<%s>" % show(x))
        if k == 3:
            a, v = self.e("str", n)
            xs = [self.e("str", n) for _ in range(d.int(0, 2))]
            t = "[%s]" % ", ".join(x for x, _ in xs)
            return self.call(a, v, "join", [(t, [y for _, y in xs])], lambda l: v.join(l))
        return self.tern("str", n)

    def any_scalar(self, n):
        return self.e(self.d.choice(["int", "bool", "str"]), n)

    def e_list(self, n):
        d = self.d
        k = d.int(0, 2)
        if k == 0:
            xs = [self.e("int", n) for _ in range(d.int(0, 3))]
            return "[%s]" % ", ".join(x for x, _ in xs), [v for _, v in xs]
        if k == 1:
            return self.bin("+", self.e("list", n), self.e("list", n), lambda a, b: a + b)
        return self.tern("list", n)

    def e_dict(self, n):
        d = self.d
        if d.bool():
            xs = [(k,) + self.e("int", n) for k in d.sublist(["a", "b", "k"], 0.5)]
            return "{%s}" % ", ".join("%s: %s" % (mstr(k), x) for k, x, _ in xs), {k: v for k, _, v in xs}
        return self.bin("+", self.e("dict", n), self.e("dict", n), lambda a, b: dict(a, **b))


# calls with an effect: name -> (function, [(keyword or None, text)], keywords that may be added, how the effect shows)
def effects(n, c):
    N = "n%dn" % n
    q = "'%s'" % N
    E = {
        "message": ("message", [(None, q)], [], ("msg", N)),
        "custom_target": ("custom_target", [(None, q), ("output", "'%s.o'" % N), ("command", "['touch', '@OUTPUT@']")], ["build_by_default", "depends", "input", "install", "env"], ("ninja", N)),
        "run_target": ("run_target", [(None, q), ("command", "['true', 'x']")], ["depends", "env"], ("ninja", N)),
        "alias_target": ("alias_target", [(None, q), (None, "ct")], [], ("ninja", N)),
        "test": ("test", [(None, q), (None, "tr"), ("args", "['a', 'b']")], ["env", "suite", "timeout", "should_fail", "depends", "workdir", "priority", "is_parallel"], ("test", N)),
        "benchmark": ("benchmark", [(None, q), (None, "tr")], ["env", "suite", "timeout", "args"], ("bench", N)),
        "install_data": ("install_data", [(None, "'data.txt'"), ("rename", q)], ["install_dir", "install_mode", "install_tag"], ("inst", N)),
        "install_headers": ("install_headers", [(None, "'data.txt'"), ("subdir", q)], ["install_mode"], ("inst", N)),
        "install_subdir": ("install_subdir", [(None, "'dd'"), ("install_dir", q)], ["exclude_files", "strip_directory"], ("inst", N)),
        "install_symlink": ("install_symlink", [(None, q), ("pointing_to", "'x'"), ("install_dir", "'share'")], ["install_tag"], ("inst", N)),
        "install_emptydir": ("install_emptydir", [(None, q)], ["install_mode"], ("inst", N)),
        "configure_file": ("configure_file", [("output", q), ("configuration", "{'a': 1}")], ["input", "install", "format"], ("file", N)),
        "configure_file copy": ("configure_file", [("output", q), ("input", "'data.txt'"), ("copy", "true")], ["install_dir"], ("file", N)),
        "run_command": ("run_command", [(None, "'touch'"), (None, "meson.current_build_dir() / " + q), ("check", "false")], ["env", "capture"], ("file", N)),
        "fs.copyfile": ("fs.copyfile", [(None, "'data.txt'"), (None, q)], ["install", "install_dir"], ("ninja", N)),
        "postconf": ("meson.add_postconf_script", [(None, "touch"), (None, "meson.current_build_dir() / " + q)], [], ("file", N)),
        "install_script": ("meson.add_install_script", [(None, "touch"), (None, "meson.current_build_dir() / " + q)], ["install_tag"], ("script", N)),
        "summary": ("summary", [(None, q), (None, "'v'")], ["section", "bool_yn"], ("out", N)),
        "summary dict": ("summary", [(None, "{%s: 'v'}" % q)], ["section"], ("out", N)),
        "override_find_program": ("meson.override_find_program", [(None, q), (None, "files('prog.sh')")], [], ("prog", N)),
        "override_dependency": ("meson.override_dependency", [(None, q), (None, "declare_dependency()")], ["static"], ("dep", N)),
        "set": ("cfg.set", [(None, q), (None, "1")], ["description"], ("cfg", N)),
        "set10": ("cfg.set10", [(None, q), (None, "true")], [], ("cfg", N)),
        "set_quoted": ("cfg.set_quoted", [(None, q), (None, "'x'")], [], ("cfg", N)),
        "vcs_tag": ("vcs_tag", [("command", "['true']"), ("input", "'data.txt'"), ("output", q)], ["fallback", "replace_string"], ("ninja", N)),
        "subdir": ("subdir", [(None, q)], [], ("sub", N)),
        "subproject": ("subproject", [(None, q)], ["required", "default_options", "version"], ("subp", N)),
        "warning": ("warning", [(None, q)], [], ("out", N)),
    }
    if c:
        E.update({
            "executable": ("executable", [(None, q), (None, "'m.c'")], ["dependencies", "c_args", "link_with", "install", "include_directories", "sources", "build_by_default"], ("ninja", N)),
            "static_library": ("static_library", [(None, q), (None, "files('m.c')")], ["dependencies", "pic", "link_whole", "objects"], ("ninja", N)),
            "shared_library": ("shared_library", [(None, q), (None, "'m.c'")], ["soversion", "version", "name_prefix"], ("ninja", N)),
            "both_libraries": ("both_libraries", [(None, q), (None, "'m.c'")], ["dependencies"], ("ninja", N)),
            "library": ("library", [(None, q), (None, "'m.c'")], ["dependencies", "override_options"], ("ninja", N)),
            "build_target": ("build_target", [(None, q), (None, "'m.c'"), ("target_type", "'executable'")], ["dependencies"], ("ninja", N)),
            "pkgconfig": ("import('pkgconfig').generate", [("name", q), ("filebase", q), ("description", "'x'")], ["libraries", "requires", "variables", "version"], ("pc", N)),
        })
    return E


PURE = [("files", ["'data.txt'"]), ("include_directories", ["'dd'"]), ("declare_dependency", ["version: '1'", "link_args: ['-la']", "variables: {'a': 'b'}"]),
        ("environment", ["{'a': 'b'}"]), ("configuration_data", ["{'a': 1}"]), ("join_paths", ["'a'", "'b'"]), ("range", ["3"]),
        ("generator", ["tr", "output: '@BASENAME@.x'", "arguments: ['@INPUT@', '@OUTPUT@']"]), ("gen.process", ["'data.txt'", "extra_args: ['x']"]),
        ("find_program", ["'true'", "required: false"]), ("dependency", ["'no-such-d'", "required: false"]), ("import", ["'fs'"]),
        ("get_option", ["'prefix'"]), ("meson.get_external_property", ["'x'", "'y'"]),
        ("run_command", ["'true'", "check: false"]), ("fs.exists", ["'data.txt'"]), ("fs.parent", ["'a/b'"]), ("fs.replace_suffix", ["'a.b'", "'.c'"]),
        ("dep.partial_dependency", ["links: true"]), ("dep.get_variable", ["'a'", "default_value: 'b'"]), ("dep.as_system", ["'system'"]),
        ("is_variable", ["'dep'"]), ("cfg.has", ["'zz'"]), ("cfg.get", ["'zz'", "1"]), ("'a'.version_compare", ["'>1'"]), ("'abc'.substring", ["0", "1"]),
        ("'a-b'.split", ["'-'"]), ("'a'.replace", ["'a'", "'b'"]), ("'a'.startswith", ["'a'"]), ("(4).is_even", []), ("get_option('fo').enable_if", ["true"]),
        ("get_option('fo').require", ["true", "error_message: 'x'"]), ("get_option('fo').disable_auto_if", ["true"]), ("import('sourceset').source_set().add", ["'data.txt'"])]
CPURE = [("cc.get_supported_arguments", ["'-Wall'", "['-Wextra']"]), ("cc.has_argument", ["'-Wall'"]), ("cc.first_supported_argument", ["['-Wall']"]),
         ("cc.find_library", ["'m'", "required: false"]), ("cc.compiles", ["'int x;'", "name: 'x'"]), ("cc.has_header", ["'stdio.h'", "prefix: ''"])]


def case(d, ctx):
    w = ctx.fresh()
    s, b = w + "/s", w + "/b"
    c = d.bool(0.2)
    g = Gen(d, d.choice([0.03, 0.08, 0.2]))
    lines = ["project('p'%s)" % (", 'c', meson_version: '>=1.1'" if c else ", meson_version: '>=1.1'"), "tr = find_program('true')", "touch = find_program('touch')", "fs = import('fs')", "cfg = configuration_data()",
             "dep = declare_dependency(variables: {'a': 'x'})", "gen = generator(tr, output: '@BASENAME@.x', arguments: ['@INPUT@'])",
             "ct = custom_target('ctbase', output: 'ctbase.o', command: ['true'])"]
    if c:
        lines.append("cc = meson.get_compiler('c')")
        write(s + "/m.c", "int main(void) { return 0; }\n")
    write(s + "/meson_options.txt", "option('fo', type: 'feature', value: 'auto')\n")
    write(s + "/data.txt", "x\n")
    write(s + "/prog.sh", "#!/bin/sh\n", 0o755)
    write(s + "/dd/f", "x\n")
    msgs = []
    after = []  # (kind, name, live)
    cnt = [0]
    depth = [0]
    stats = dict(dis=0, eff=0)

    def fresh():
        cnt[0] += 1
        return cnt[0]

    def emit(l):
        lines.append("  " * depth[0] + l)

    def wrapped():
        x = g.dis()
        k = d.weighted([(5, 0), (1, 1), (1, 2), (1, 3), (1, 4)])
        return [x, "[%s]" % x, "['a', [%s]]" % x, "{'k': %s}" % x, "[{'k': ['x', %s]}]" % x][k]

    def args_text(args, extra, dis):
        """the arguments of a call, with disablers put in if dis"""
        args = [list(a) for a in args]
        whole = set()
        if dis:
            where = ["arg"] * (2 if args else 0) + ["kw"] * (2 if extra else 0) + ["kwargs"] * (1 if extra else 0)
            for _ in range(d.weighted([(4, 1), (1, 2)])):
                k = d.choice(where)
                if k == "arg":
                    i = d.int(0, len(args) - 1)
                    a = args[i]
                    if i in whole:
                        continue
                    if a[1].startswith("[") and d.bool(0.6):
                        a[1] = "[%s, " % wrapped() + a[1][1:] if d.bool() else a[1][:-1] + ", %s]" % wrapped()
                    elif a[1].startswith("{") and d.bool(0.6):
                        a[1] = a[1][:-1] + ", 'dk%d': %s}" % (fresh(), wrapped())
                    else:
                        a[1] = wrapped()
                        whole.add(i)
                elif k == "kw":
                    args.append([d.choice(extra), wrapped()])
                    whole.add(len(args) - 1)
                    extra = [x for x in extra if x != args[-1][0]] or extra
                else:
                    d.label("kwargs")
                    args.append(["kwargs", g.dis() if d.bool(0.3) else "{%s: %s}" % (mstr(d.choice(extra)), wrapped())])
                    where = [x for x in where if x != "kwargs"]
                    whole.add(len(args) - 1)
                if not where:
                    break
        pos = [a for a in args if a[0] is None]
        kws = d.shuffle([a for a in args if a[0] is not None])
        seen = set()
        kws = [a for a in kws if a[0] not in seen and not seen.add(a[0])]
        return ", ".join([a[1] for a in pos] + ["%s: %s" % (k, v) for k, v in kws])

    def stmt(live, room):
        k = d.weighted([(5, "show"), (4, "assign"), (10, "effect"), (3, "pure"), (3 if room else 0, "if"), (2, "foreach"), (1, "setvar"), (1, "error"), (1, "plus"), (1, "getvar")])
        n = fresh()
        if k == "show":
            t = d.choice(["int", "bool", "str", "list", "dict"])
            e, v = g.e(t)
            emit("message('%d', is_disabler(%s))" % (n, e))
            if live:
                msgs.append("%d %s" % (n, "true" if v is D else "false"))
            if t in ("list", "dict"):
                if v is not D:
                    if has(v):
                        emit("message('%d', %s)" % (n, e))
                    else:
                        emit("message('%d', %s == %s)" % (n, e, lit(v)))
                        if live:
                            msgs.append("%d true" % n)
                else:
                    emit("message('%d', %s)" % (n, e))
            else:
                emit("message('%d', %s)" % (n, e))
                if live and v is not D:
                    msgs.append(("%d %s" % (n, show(v))))
            if has(v):
                stats["dis"] += live
        elif k == "assign":
            t = d.choice(["int", "bool", "str", "list", "dict"])
            e, v = g.e(t)
            name = "v_%s%d" % (t, d.int(0, 2))
            emit("%s = %s" % (name, e))
            if live:
                g.vars[name] = (t, v)
        elif k == "plus":
            vs = [x for x, (t, v) in g.vars.items() if t in ("int", "str", "list", "dict")]
            if vs:
                name = d.choice(vs)
                t, old = g.vars[name]
                e, v = g.e(t)
                emit("%s += %s" % (name, e))
                if live:
                    if old is D or v is D:
                        new = D
                    elif t == "dict":
                        new = dict(old, **v)
                    else:
                        new = old + v
                    g.vars[name] = (t, new)
        elif k == "setvar":
            t = d.choice(["int", "bool", "str", "list", "dict"])
            e, v = g.e(t)
            if d.bool(0.15):
                emit("set_variable(%s, %s)" % (g.dis(), e))
            else:
                name = "v_%s%d" % (t, d.int(0, 2))
                emit("set_variable(%s, %s)" % (mstr(name), e))
                if live:
                    g.vars[name] = (t, v)
        elif k == "getvar":
            t = d.choice(["int", "bool", "str"])
            e, v = g.e(t)
            vs = [x for x, (vt, vv) in g.vars.items() if vt in ("int", "bool", "str")]
            if vs and d.bool(0.5):
                name = d.choice(vs)
                v = g.vars[name][1]
            else:
                name = "nope"
            emit("message('%d', get_variable(%s, %s))" % (n, mstr(name), e))
            if live and v is not D:
                msgs.append("%d %s" % (n, show(v)))
        elif k == "error":
            if d.bool():
                emit("error(%s)" % (", ".join(d.shuffle(["'x'", wrapped()]))))
            else:
                emit("assert(%s)" % args_text([(None, "false"), (None, "'x'")], [], True))
            stats["dis"] += live
        elif k == "pure":
            f, a = d.choice(PURE + (CPURE if c else []))
            args = []
            for x in a:
                kw, sep, v = x.partition(": ")
                args.append((kw, v) if sep and kw.isidentifier() else (None, x))
            dis = bool(args) and d.bool(0.6)
            t = "%s(%s)" % (f, args_text(args, [], dis))
            if f.endswith(".add"):
                if not dis:
                    return
                d.label("void method")
            emit("message('%d', is_disabler(%s))" % (n, t))
            if live:
                msgs.append("%d %s" % (n, "true" if dis else "false"))
            d.label("pure " + f)
            stats["dis"] += live and dis
        elif k == "effect":
            E = effects(n, c)
            kind = d.choice(sorted(E))
            f, args, extra, show_ = E[kind]
            if show_[0] in ("sub", "subp"):
                where = s + "/" + ("subprojects/" if show_[0] == "subp" else "") + show_[1]
                write(where + "/meson.build", ("project('%s')\n" % show_[1] if show_[0] == "subp" else "") + "message('in', %s)\n" % mstr(show_[1]))
                if show_[0] == "sub" and d.bool(0.3):
                    args = [(None, mstr(show_[1])), ("if_found", "[dep]")]
            dis = d.bool(0.5)
            t = "%s(%s)" % (f, args_text(args, extra, dis))
            if show_[0] == "prog" and dis:
                pass
            if dis and d.bool(0.5):
                emit("message('%d', is_disabler(%s))" % (n, t))
                if live:
                    msgs.append("%d true" % n)
            else:
                emit(t)
            on = live and not dis
            if on and show_[0] == "msg":
                msgs.append(show_[1])
            elif on and show_[0] in ("sub", "subp"):
                msgs.append("in %s" % show_[1])
            if show_[0] not in ("sub", "subp", "msg"):
                after.append((show_[0], show_[1], on))
            if show_[0] in ("prog", "dep", "cfg"):
                q = {"prog": "find_program(%s, required: false).found()", "dep": "dependency(%s, required: false).found()", "cfg": "cfg.has(%s)"}[show_[0]] % mstr(show_[1])
                emit("message('%d', %s)" % (n, q))
                if live:
                    msgs.append("%d %s" % (n, "true" if on else "false"))
            d.label("%s %s" % ("dis" if dis else "eff", kind))
            stats["dis"] += live and dis
            stats["eff"] += on
        elif k == "if":
            taken = False
            cond_state = live
            for j in range(d.int(1, 3)):
                e, v = g.e("bool")
                if v is D and cond_state:
                    d.label("disabled condition")
                    stats["dis"] += 1
                emit("%s %s" % ("if" if j == 0 else "elif", e))
                block(cond_state and v is True, room - 1)
                if v is not False:
                    cond_state = False
            if d.bool():
                emit("else")
                block(cond_state, room - 1)
            emit("endif")
        elif k == "foreach":
            if d.bool():
                e, v = g.e("list")
                if v is D:
                    return
                emit("foreach i : %s" % e)
                emit("  message('%d', is_disabler(i))" % n)
                emit("  message('%d', i)" % n)
                emit("endforeach")
                items = v
            else:
                e, v = g.e("dict")
                if v is D:
                    return
                emit("foreach kk, i : %s" % e)
                emit("  message('%d', is_disabler(i))" % n)
                emit("  message('%d', i)" % n)
                emit("endforeach")
                items = v.values()
            if live:
                for i in items:
                    msgs.append("%d %s" % (n, "true" if i is D else "false"))
                    if i is not D:
                        msgs.append("%d %s" % (n, show(i)))

    def block(live, room):
        depth[0] += 1
        saved = dict(g.vars)
        emit("message('b')")
        if live:
            msgs.append("b")
        for _ in range(d.int(0, 3)):
            stmt(live, room)
        if not live:
            g.vars = saved
        depth[0] -= 1

    for _ in d.many(3, 25, 0.93):
        stmt(True, 2)
    emit("message('end')")
    msgs.append("end")
    write(s + "/meson.build", "\n".join(lines) + "\n")
    d.sample = "\n".join(lines[6:])
    d.key = d.sample
    r = ctx.run([ctx.muon, "setup", b], cwd=s, merge=True)
    out = r.out.decode("utf-8", "replace")
    d.note("meson.build:\n%s\n\nsetup:\n%s" % ("\n".join(lines), out[-4000:]))
    if r.crashed or r.rc != 0:
        raise Fail("setup: %s\n%s" % (r.why(), out[-1500:]))
    bad = [l for l in out.splitlines() if ": error " in l]
    if bad:
        raise Fail("an error is reported: %s" % bad[:3])
    got = [l[9:].rstrip() for l in out.splitlines() if l.startswith("message: ")]
    want = [m.rstrip() for m in msgs]
    if got != want:
        for i in range(max(len(got), len(want))):
            x = got[i] if i < len(got) else None
            y = want[i] if i < len(want) else None
            if x != y:
                raise Fail("message %d is %r, not %r" % (i, x, y))
    nj = open(b + "/build.ninja", encoding="utf-8", errors="replace").read()
    cache = {}

    def listing(*argv):
        if argv not in cache:
            r = ctx.run([ctx.muon] + list(argv), cwd=b, merge=True)
            if r.rc != 0:
                raise Fail("muon %s: %s\n%s" % (" ".join(argv), r.why(), r.out[-500:]))
            cache[argv] = r.out.decode("utf-8", "replace")
        return cache[argv]

    def under(sub):
        if sub not in cache:
            cache[sub] = "\n".join(f for _, _, fs in os.walk(b) for f in fs)
        return cache[sub]
    # what sets the effect of an enabled call apart is that its name shows up
    for kind, name, on in after:
        if kind == "ninja":
            seen = name in nj
        elif kind == "test":
            seen = name in listing("test", "-R", "-l")
        elif kind == "bench":
            seen = name in listing("benchmark", "-R", "-l")
        elif kind == "inst":
            seen = name in listing("install", "-n")
        elif kind == "script":
            listing("install", "-d", w + "/dest")
            seen = os.path.exists(b + "/" + name)
        elif kind == "file":
            seen = os.path.exists(b + "/" + name)
        elif kind == "pc":
            seen = name + ".pc" in under("")
        elif kind == "out":
            seen = name in out
        else:
            continue
        if seen != on:
            raise Fail("%s %s: %s" % (kind, name, "no effect although enabled" if on else "it has an effect although a disabler is among the arguments"))
    d.nontrivial = stats["dis"] >= 1 and (stats["eff"] >= 1 or len(msgs) > 4)


pbt.main(pbt.Spec("C26", case, quick=4000, thorough=60000,
                  rule="at least one live statement involves a disabler (a call with one among its arguments, a condition, or a shown value), and at least one other statement has an effect that is checked",
                  assumptions=["foreach over a disabler, a disabler as a dictionary key or in an f-string, and side effects of arguments after the disabler are left open",
                               "calls are correct apart from the disabler; a wrong argument before it may be reported"]))
