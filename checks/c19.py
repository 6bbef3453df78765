#!/usr/bin/env python3
"""C19: muon analyze on generated projects: quiet on correct ones, reports on definite mistakes, the same verdict for other layouts and names."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Fail, Reject, write, mstr

# name, receiver type, types of positional arguments, how many are required, the last one repeated, keywords, result
# in types: '!text' stands for that very text (# is a fresh number)
T = [
    ("join_paths", None, ["str", "str"], 1, True, {}, "str"),
    ("is_variable", None, ["str"], 1, False, {}, "bool"),
    ("assert", None, ["!true", "str"], 1, False, {}, None),
    ("configuration_data", None, ["dstr"], 0, False, {}, "cfg"),
    ("set", "cfg", ["str", "str"], 2, False, {"description": "str"}, None),
    ("set10", "cfg", ["str", "bool"], 2, False, {}, None),
    ("set_quoted", "cfg", ["str", "str"], 2, False, {"description": "str"}, None),
    ("has", "cfg", ["str"], 1, False, {}, "bool"),
    ("get", "cfg", ["str", "str"], 2, False, {}, None),
    ("environment", None, ["dstr"], 0, False, {}, "env"),
    ("set", "env", ["!'V'", "!'v'"], 2, False, {"separator": "!':'"}, None),
    ("append", "env", ["!'V'", "!'v'"], 2, False, {"separator": "!':'"}, None),
    ("declare_dependency", None, [], 0, False, {"compile_args": "lstr", "variables": "dstr", "version": "str", "include_directories": "inc", "dependencies": "dep"}, "dep"),
    ("dependency", None, ["!'no-such-dep'"], 1, False, {"required!": "!false", "version": "!'>1'", "native": "!true"}, "nodep"),
    ("found", "dep", [], 0, False, {}, "bool"),
    ("found", "nodep", [], 0, False, {}, "bool"),
    ("version", "dep", [], 0, False, {}, "str"),
    ("get_variable", "dep", ["str"], 1, False, {"default_value!": "!'d'"}, "str"),
    ("type_name", "dep", [], 0, False, {}, "str"),
    ("find_program", None, ["!'sh'"], 1, True, {"required": "bool", "native": "bool"}, "prog"),
    ("found", "prog", [], 0, False, {}, "bool"),
    ("full_path", "prog", [], 0, False, {}, "str"),
    ("run_command", None, ["!'true'", "str"], 1, True, {"check": "!true", "capture": "!true", "env": "env"}, "res"),
    ("stdout", "res", [], 0, False, {}, "str"),
    ("stderr", "res", [], 0, False, {}, "str"),
    ("returncode", "res", [], 0, False, {}, "int"),
    ("include_directories", None, ["!'inc'"], 1, True, {"is_system": "bool"}, "inc"),
    ("files", None, ["!'a.c'"], 1, True, {}, "files"),
    ("executable", None, ["!'e#'", "!'a.c'"], 2, True, {"c_args": "lstr", "install": "bool", "include_directories": "inc", "dependencies": "dep", "build_by_default": "bool", "install_dir": "!'bin'", "link_args": "lstr", "native": "!false", "pie": "bool", "link_with": "lib"}, "exe"),
    ("static_library", None, ["!'l#'", "!'a.c'"], 2, True, {"c_args": "lstr", "install": "bool", "include_directories": "inc", "dependencies": "dep", "pic": "bool"}, "lib"),
    ("shared_library", None, ["!'s#'", "!'a.c'"], 2, True, {"c_args": "lstr", "install": "bool", "version": "!'1.2'", "soversion": "!'1'"}, "lib"),
    ("full_path", "exe", [], 0, False, {}, "str"),
    ("name", "exe", [], 0, False, {}, "str"),
    ("full_path", "lib", [], 0, False, {}, "str"),
    ("custom_target", None, ["!'c#'"], 1, False, {"output!": "!'o#'", "command!": "!['true', '@OUTPUT@']", "build_by_default": "bool", "install": "!false", "capture": "bool", "depends": "exe", "env": "env", "input": "files", "build_always_stale": "bool", "console": "!false"}, "ct"),
    ("full_path", "ct", [], 0, False, {}, "str"),
    ("install_data", None, ["!'a.txt'"], 1, True, {"install_dir": "str", "install_tag": "str", "rename": "!'r'"}, None),
    ("install_headers", None, ["!'h.h'"], 1, True, {"subdir": "str", "preserve_path": "bool"}, None),
    ("install_man", None, ["!'m.1'"], 1, True, {"install_dir": "str"}, None),
    ("install_subdir", None, ["!'inc'"], 1, False, {"install_dir!": "str", "strip_directory": "bool", "exclude_files": "lstr"}, None),
    ("test", None, ["!'t#'", "exe"], 2, False, {"args": "lstr", "timeout": "int", "is_parallel": "bool", "should_fail": "bool", "suite": "lstr", "env": "env", "priority": "int", "workdir": "!'/'"}, None),
    ("benchmark", None, ["!'b#'", "exe"], 2, False, {"args": "lstr", "timeout": "int"}, None),
    ("configure_file", None, [], 0, False, {"output!": "!'f#.h'", "configuration!": "cfg", "install": "!false", "install_dir": "str", "format": "!'cmake'" if False else "!'meson'"}, "file1"),
    ("summary", None, ["!'k#'", "str"], 2, False, {"section": "str", "bool_yn": "!false"}, None),
    ("project_name", "meson", [], 0, False, {}, "str"),
    ("project_version", "meson", [], 0, False, {}, "str"),
    ("is_cross_build", "meson", [], 0, False, {}, "bool"),
    ("current_source_dir", "meson", [], 0, False, {}, "str"),
    ("get_compiler", "meson", ["!'c'"], 1, False, {}, "cc"),
    ("override_dependency", "meson", ["!'od#'", "dep"], 2, False, {}, None),
    ("add_install_script", "meson", ["prog", "str"], 1, True, {}, None),
    ("get_id", "cc", [], 0, False, {}, "str"),
    ("has_header", "cc", ["!'stdio.h'"], 1, False, {"required": "!false"}, "bool"),
    ("has_argument", "cc", ["!'-Wall'"], 1, False, {}, "bool"),
    ("version", "cc", [], 0, False, {}, "str"),
    ("exists", "fs", ["path"], 1, False, {}, "bool"),
    ("is_dir", "fs", ["path"], 1, False, {}, "bool"),
    ("parent", "fs", ["path"], 1, False, {}, "str"),
    ("name", "fs", ["path"], 1, False, {}, "str"),
    ("stem", "fs", ["path"], 1, False, {}, "str"),
    ("replace_suffix", "fs", ["path", "!'.x'"], 2, False, {}, "str"),
    ("read", "fs", ["!'a.txt'"], 1, False, {"encoding": "!'utf-8'"}, "str"),
    ("strip", "str", ["str"], 0, False, {}, "str"),
    ("to_upper", "str", [], 0, False, {}, "str"),
    ("to_lower", "str", [], 0, False, {}, "str"),
    ("underscorify", "str", [], 0, False, {}, "str"),
    ("split", "str", ["!','"], 0, False, {}, "lstr"),
    ("join", "str", ["lstr"], 1, True, {}, "str"),
    ("replace", "str", ["!'a'", "str"], 2, False, {}, "str"),
    ("startswith", "str", ["str"], 1, False, {}, "bool"),
    ("endswith", "str", ["str"], 1, False, {}, "bool"),
    ("contains", "str", ["str"], 1, False, {}, "bool"),
    ("substring", "str", ["int", "int"], 0, False, {}, "str"),
    ("version_compare", "str", ["!'>=1.0'"], 1, False, {}, "bool"),
    ("format", "str", ["str"], 0, True, {}, "str"),
    ("is_even", "int", [], 0, False, {}, "bool"),
    ("is_odd", "int", [], 0, False, {}, "bool"),
    ("to_string", "int", [], 0, False, {}, "str"),
    ("to_int", "bool", [], 0, False, {}, "int"),
    ("to_string", "bool", ["str", "str"], 0, False, {}, "str"),
    ("length", "lstr", [], 0, False, {}, "int"),
    ("length", "lint", [], 0, False, {}, "int"),
    ("contains", "lstr", ["str"], 1, False, {}, "bool"),
    ("get", "lstr", ["int", "str"], 2, False, {}, "str"),
    ("get", "lint", ["int", "int"], 2, False, {}, "int"),
    ("keys", "dstr", [], 0, False, {}, "lstr"),
    ("has_key", "dstr", ["str"], 1, False, {}, "bool"),
    ("get", "dstr", ["str", "str"], 2, False, {}, "str"),
    ("generator", None, ["prog"], 1, False, {"output!": "!'@BASENAME@.g'", "arguments!": "!['@INPUT@', '@OUTPUT@']"}, "gen"),
    ("process", "gen", ["!'a.txt'"], 1, True, {"extra_args": "lstr"}, "gl"),
]
# values that certainly do not fit
WRONG = {"str": ["1", "true", "{'a': 1}", "[[]]", "[1]"], "int": ["'1'", "[]", "{}", "true"], "bool": ["'true'", "{}", "1", "[1]"], "lstr": ["1", "{'a': 'b'}", "true", "[1]"], "dstr": ["1", "true"], "cfg": ["1", "'x'", "[1]"], "env": ["1", "true"], "dep": ["1", "{}", "true"], "exe": ["1", "{}"], "lib": ["1", "{}", "true"],
         "prog": ["1", "{}", "[1]"], "inc": ["1", "{}"], "files": ["1", "{}"]}
OBJ = {"fs": "import('fs')", "cc": "meson.get_compiler('c')", "prog": "find_program('sh')", "exe": "executable('oe#', 'a.c')", "lib": "static_library('ol#', 'a.c')", "dep": "declare_dependency()", "nodep": "dependency('no-such-dep', required: false)", "cfg": "configuration_data()", "env": "environment()", "inc": "include_directories('inc')",
       "files": "files('a.c')", "res": "run_command('true', check: true)", "gen": "generator(find_program('sh'), output: '@BASENAME@.h', arguments: ['@INPUT@'])", "ct": "custom_target('oc#', output: 'oo#', command: ['true'])", "meson": "meson"}
SIMPLE = ["int", "bool", "str", "lstr", "lint", "dstr"]


class G:
    """§name§ is a variable, ¶ a place where a line may be broken"""

    def __init__(self, d):
        self.d = d
        self.n = 0
        self.vars = {}  # name -> type, surely set
        self.sure = False  # options are of any type to the analyzer
        self.cond = {}  # option -> names set when it is true
        self.opts = ["b%d" % i for i in range(d.int(1, 3))]

    def num(self, s):
        while "#" in s:
            self.n += 1
            s = s.replace("#", str(self.n), 1)
        return s

    def new(self, t):
        self.n += 1
        return "v%d" % self.n

    def of(self, t):
        return sorted(n for n, x in self.vars.items() if x == t)

    def val(self, t, depth=2):
        d = self.d
        if t.startswith("!"):
            return self.num(t[1:])
        vs = self.of(t)
        if vs and d.bool(0.5 if t in SIMPLE else 0.85):
            return "§%s§" % d.choice(vs)
        if t == "path":
            return "(¶'p' /¶ %s)" % self.val("str", depth) if d.bool() else "'p/q'"
        if t in OBJ:
            return self.num(OBJ[t])
        if depth > 0 and d.bool(0.6):
            k = d.int(0, 3)
            if k == 0 and (t in SIMPLE):
                return "(¶%s ?¶ %s¶ : %s¶)" % (self.val("bool", depth - 1), self.val(t, depth - 1), self.val(t, depth - 1))
            if k in (1, 2):
                c = [x for x in T if x[6] == t and x[1] in (None, "str", "int", "bool", "lstr", "lint", "dstr", "meson", "fs") and x[0] not in ("run_command",)]
                if c:
                    return self.call(d.choice(c), depth - 1)[0]
            v = lambda t: self.val(t, depth - 1)
            if t == "int":
                return "(¶%s %s¶ %s)" % (v("int"), d.choice("+-*"), d.choice([v("int"), "3"]))
            if t == "bool":
                return d.choice([lambda: "(%s and¶ %s)" % (v("bool"), v("bool")), lambda: "(%s¶ or %s)" % (v("bool"), v("bool")), lambda: "(not %s)" % v("bool"), lambda: "(%s < %s)" % (v("int"), v("int")), lambda: "(%s ==¶ %s)" % (v("str"), v("str")), lambda: "(%s in %s)" % (v("str"), v("lstr")), lambda: "(%s != %s)" % (v("int"), v("int")), lambda: "(%s not in %s)" % (v("str"), v("dstr"))])()
            if t == "str":
                return d.choice([lambda: "(%s +¶ %s)" % (v("str"), v("str")), lambda: "(%s / %s)" % (v("str"), v("str")), lambda: "f'x@%s@'" % ("§%s§" % d.choice(self.of("str"))) if self.of("str") else "f'x'"])()
            if t in ("lstr", "lint"):
                return "(%s¶ + %s)" % (v(t), v(t))
            if t == "dstr":
                return "(%s + %s)" % (v(t), v(t))
        if t == "int":
            return d.choice(["0", "1", "7", "-3", "0x1F", "42"])
        if t == "bool":
            return d.choice(["true", "false"] + ([] if self.sure else ["get_option('%s')" % d.choice(self.opts)] * 2))
        if t == "str":
            return d.choice(["'a'", "'b c'", "''", "'x,y'", "'é'", "get_option('s')" if not self.sure else "'s'", "'1.2'", "'''q'''"])
        if t == "lstr":
            return "[¶%s¶]" % ",¶ ".join(self.val("str", depth - 1) for _ in range(d.int(0, 3)))
        if t == "lint":
            return "[¶%s¶]" % ",¶ ".join(self.val("int", depth - 1) for _ in range(d.int(0, 3)))
        if t == "dstr":
            return "{¶%s¶}" % ",¶ ".join("'%s': %s" % (k, self.val("str", depth - 1)) for k in d.sublist(["A", "b", "c"], 0.5))
        raise AssertionError(t)

    def call(self, c, depth, wrong=None):
        """the call, with the mistake, or None when that mistake cannot be made here"""
        d = self.d
        name, recv, pos, need, rep, kws, res = c
        n = d.int(need, len(pos))
        args = [(None, p, self.val(p, depth)) for p in pos[:n]]
        if rep and args and d.bool(0.3) and not pos[-1].startswith("!") and n == len(pos):
            args.append((None, pos[-1], self.val(pos[-1], depth)))
        for k, t in sorted(kws.items()):
            if k.endswith("!") or d.bool(0.3):
                args.append((k.rstrip("!"), t, self.val(t, depth)))
        np = sum(1 for a in args if a[0] is None)
        made = None
        if wrong == "extra" and not rep:
            # beyond what is allowed
            full = [(None, p, self.val(p, depth)) for p in pos]
            args = full + [(None, "str", d.choice(["'x'", "1", "§u§"] if self.vars.get("u") else ["'x'", "1"]))] + [a for a in args if a[0] is not None]
            made = True
        elif wrong == "few" and need > 0 and not rep and not name.endswith(("executable", "library")) and name not in ("find_program", "dependency", "summary") and recv != "env" and name != "get_variable" and not (recv == "cfg" and name == "get"):
            keep = 0 if name == "get" else d.int(0, need - 1)
            args = [a for a in args if a[0] is None][:keep] + [a for a in args if a[0] is not None]
            made = True
        elif wrong == "type":
            c = []
            for i, a in enumerate(args):
                t = a[1]
                if t.startswith("!"):
                    t = "str" if t.startswith("!'") else "bool" if t in ("!true", "!false") else None
                if name in ("assert",) and i == 0:
                    t = "bool"
                if name == "summary" or name == "get" or name == "set" and recv == "cfg" and i == 1 or name == "format" or name == "set10" and i == 1 or name == "contains" and recv == "lstr" or name in ("executable", "static_library", "shared_library") and i > 0 and a[0] is None or name == "run_command" or name == "find_program" and a[0] is None or name == "dependency" and a[0] == "required":
                    continue
                if t in WRONG and a[0] not in ("required", "suite", "install_dir", "version", "soversion", "env", "default_value", "command", "variables", "install_tag", "depends", "input", "native", "configuration", "link_with", "pie", "c_args", "link_args", "rename", "output", "format", "exclude_files", "include_directories", "dependencies", "separator", "encoding", "workdir") and name not in ("test", "benchmark", "install_data", "files", "include_directories", "install_headers", "install_man", "process", "read", "add_install_script", "generator", "environment", "configuration_data", "fs") and not (recv == "fs"):
                    c.append((i, t))
                elif a[0] in ("c_args", "link_args", "env", "configuration", "timeout", "is_parallel", "args", "install_dir", "depends", "include_directories", "dependencies") and t in WRONG:
                    c.append((i, t))
            if c:
                i, t = d.choice(c)
                w = d.choice([x for x in WRONG[t] if x not in ("[1]", "[[]]")])
                if t in ("bool",) and False:
                    w = w
                args[i] = (args[i][0], args[i][1], w)
                made = True
        elif wrong == "kw":
            args.append(("no_such_kw", "str", self.val("str", 0)))
            made = True
        elif wrong == "name":
            name = name + d.choice(["x", "_", "s2"])
            made = True
        elif wrong == "var" and args:
            i = d.int(0, len(args) - 1)
            a = args[i]
            args[i] = (a[0], a[1], d.choice(["§undef§", "§undef§", "[§undef§]", "(§undef§)"]))
            made = True
        if wrong and not made:
            return None
        ps = [a for a in args if a[0] is None]
        ks = d.shuffle([a for a in args if a[0] is not None])
        s = "%s(¶%s¶)" % (name, ",¶ ".join([a[2] for a in ps] + ["%s: ¶%s" % (a[0], a[2]) for a in ks]))
        if recv == "meson":
            s = "meson." + s
        elif recv:
            s = self.val(recv, depth if recv in SIMPLE else 0) + "." + s
            if s.startswith("-"):
                s = "(" + s.replace(".", ").", 1)
        return s, res

    def assign(self, v, t):
        return "§%s§ = %s" % (v, self.val(t, 2))

    def block(self, depth, top=False):
        d = self.d
        out = []
        for _ in d.many(1 if not top else 3, 5 if not top else 14, 0.7 if not top else 0.88):
            out += self.stmt(depth, top)
        return out

    def stmt(self, depth, top):
        d = self.d
        k = d.weighted([(8, "assign"), (6, "call"), (3, "message"), (3 if depth else 0, "if"), (2 if depth else 0, "foreach"), (2, "plus"), (1, "branchvar"), (1, "union"), (2 if depth else 0, "guarded"), (1 if depth else 0, "consts"), (1, "setvar"), (1 if top else 0, "opt2")])
        if k == "assign":
            t = d.choice(SIMPLE + SIMPLE + sorted(set(OBJ) - {"meson"}))
            old = self.of(t)
            if old and d.bool(0.3):
                return [self.assign(d.choice(old), t)]
            s = self.assign("?", t)
            if not top:
                return [s.replace("?", self.new(t), 1)]
            v = self.new(t)
            self.vars[v] = t
            return [s.replace("?", v, 1)]
        if k == "call":
            c = d.choice(T)
            s, t = self.call(c, 1)
            if t is None:
                return [s]
            if top and t in SIMPLE + sorted(OBJ):
                v = self.new(t)
                self.vars[v] = t
                return ["§%s§ = %s" % (v, s)]
            return ["§%s§ = %s" % (self.new(t), s)]
        if k == "message":
            return ["message(¶%s¶)" % ",¶ ".join(self.val(d.choice(SIMPLE), 2) for _ in range(d.int(1, 3)))]
        if k == "plus":
            c = [v for t in ("int", "str", "lstr", "lint", "dstr") for v in self.of(t)]
            if not c:
                return ["message('no')"]
            v = d.choice(c)
            t, saved = self.vars[v], self.vars
            # or it doubles each time round
            self.vars = {n: x for n, x in saved.items() if x in ("bool",)}
            r = self.val(t, 2)
            self.vars = saved
            return ["§%s§ += %s" % (v, r)]
        if k == "if":
            out = ["if " + self.val("bool", 2)] + self.inner(depth)
            for _ in d.many(0, 2, 0.3):
                out += ["elif " + self.val("bool", 2)] + self.inner(depth)
            if d.bool():
                out += ["else"] + self.inner(depth)
            return out + ["endif"]
        if k == "foreach":
            kind = d.choice(["lstr", "lint", "dstr", "range"])
            a = self.new("x")
            saved = dict(self.vars)
            if kind == "dstr":
                b = self.new("x")
                head = "foreach §%s§, §%s§ : %s" % (a, b, self.val("dstr", 1))
                self.vars.update({a: "str", b: "str"})
            elif kind == "range":
                head = "foreach §%s§ : range(%s)" % (a, d.choice(["3", "1, 4", "0, 9, 2"]))
                self.vars[a] = "int"
            else:
                head = "foreach §%s§ : %s" % (a, self.val(kind, 1))
                self.vars[a] = kind[1:]
            body = [re.sub("oe|ol|oc", lambda m: m.group(0), x) for x in self.inner(depth, loop=True)]
            self.vars = saved
            return [head] + body + ["endforeach"]
        if k == "branchvar":
            # set under a condition and used under the same
            o = d.choice(self.opts)
            v = self.new("x")
            t = d.choice(SIMPLE)
            out = ["if get_option('%s')" % o, "§%s§ = %s" % (v, self.val(t, 1)), "endif"]
            out += ["if get_option('%s')" % o, "message(§%s§)" % v, "endif"]
            return out
        if k == "union":
            # of one type or another
            v = self.new("x")
            out = ["§%s§ = %s" % (v, self.val("str", 1)), "if " + self.val("bool", 1), "§%s§ = %s" % (v, self.val(d.choice(["int", "lstr", "bool"]), 1)), "endif", "message(§%s§)" % v]
            return out
        if k == "guarded":
            # of a type that the options decide, and used accordingly; assigned at several depths
            v = self.new("x")
            o, o2 = d.choice(self.opts), d.choice(self.opts)
            ts = [d.choice(SIMPLE) for _ in range(3)]
            sv = lambda t: ["§%s§ = %s" % (v, self.val(t, 1))]
            op = lambda x: "if get_option('%s')" % x
            neg = d.bool(0.3)
            first = [op(o)] if not neg else ["if not get_option('%s')" % o]
            form = d.int(0, 3)
            # form 0: both branches assign; 1: the second keeps an earlier value; 2: a further condition inside; 3: elif
            out = [] if form in (0, 3) else sv(ts[1])
            if form == 2:
                junk = ["if " + self.val("bool", 1)] + sv(d.choice(SIMPLE)) + (["else"] + sv(d.choice(SIMPLE)) if d.bool() else []) + ["endif"]
                if d.bool():
                    junk = [op(o2)] + junk + ["endif"]
                if d.bool(0.3):
                    junk = ["foreach §%s§ : %s" % (self.new("x"), self.val("lstr", 0))] + ["message('l')"] + ["endforeach"] + junk
                out += first + junk + sv(ts[0]) + ["endif"]
            elif form == 3:
                out += first + sv(ts[0]) + ["elif " + self.val("bool", 1)] + sv(ts[1]) + ["else"] + sv(ts[1]) + ["endif"]
            else:
                out += first + sv(ts[0]) + (["else"] + sv(ts[1]) if form == 0 else []) + ["endif"]
            saved = dict(self.vars)
            out += first
            self.vars[v] = ts[0]
            out += self.uses(v, ts[0])
            out += ["else"]
            self.vars = dict(saved)
            self.vars[v] = ts[1]
            out += self.uses(v, ts[1])
            out += ["endif"]
            self.vars = saved
            d.label("guarded")
            return out
        if k == "consts":
            # constants that some branches or iterations change, and what depends on their values
            v, n = self.new("x"), self.new("x")
            t = d.choice(["int", "str", "lint", "bool", "dstr"])
            c = {"int": ["0", "1", "(1 + 2)"], "str": ["'a'", "'b'", "''"], "lint": ["[]", "[1]", "[1, 2]"], "bool": ["true", "false"], "dstr": ["{}", "{'a': 'x'}", "{'b': 'y'}"]}[t]
            ch = lambda: ["§%s§ %s %s" % (v, "=" if t == "bool" or d.bool() else "+=", d.choice(c))]
            out = ["§%s§ = %s" % (v, d.choice(c))]
            for _ in range(d.int(1, 2)):
                form = d.int(0, 3)
                o = "get_option('%s')" % d.choice(self.opts)
                if form == 0:
                    out += ["if " + o] + ch() + (["else"] + ch() if d.bool() else []) + ["endif"]
                elif form == 1:
                    out += ["foreach §%s§ : %s" % (self.new("x"), d.choice(["[1, 2]", "[]", "range(3)", "get_option('s').split()"]))] + (["if " + o] + ch() + ["endif"] if d.bool() else ch()) + ["endforeach"]
                elif form == 2:
                    out += ["if " + o, "if %s" % self.val("bool", 1)] + ch() + ["endif", "else"] + ch() + ["endif"]
                else:
                    out += ch()
            if d.bool():
                out += ["if %s" % d.choice(["§%s§ == %s" % (v, d.choice(c)), "§%s§ != %s" % (v, d.choice(c))]), "§%s§ = %s" % (n, self.val("int", 0)), "else", "§%s§ = %s" % (n, self.val("int", 0)), "endif", "message(§%s§ + 1)" % n]
            else:
                out += ["§%s§ = (§%s§ == %s) ? 1 : 2" % (n, v, d.choice(c)), "message(§%s§ + 1)" % n]
            if t == "int" and d.bool():
                # in range whatever it is
                out.append("message([3, 4].get(§%s§, 0) + 1)" % v)
            if t == "dstr":
                out += ["if 'a' in §%s§" % v, "message(§%s§['a'] + 'z')" % v, "endif"]
            if t == "lint":
                out += ["if §%s§.length() > 1" % v, "message(§%s§[1] + 1)" % v, "endif"]
            d.label("consts")
            return out
        if k == "setvar":
            v = self.new("x")
            t = d.choice(SIMPLE)
            out = ["set_variable('%s', %s)" % (v, self.val(t, 1)), "message(get_variable('%s'))" % v]
            return out
        if k == "opt2":
            v = self.new("str")
            self.vars[v] = "str"
            return ["§%s§ = get_option('prefix')" % v]
        raise AssertionError(k)

    def uses(self, v, t):
        """statements that use the variable as what it is"""
        d = self.d
        x = "§%s§" % v
        ops = {
            "str": ["message(%s + 'a')", "message(%s / 'b')", "message(%s.to_upper())", "message(%s.split('q')[0])", "message(('x' + %s)[0])", "message('x' in %s)", "message(%s == 'k', %s != 'l')", "message(%s.format('x').strip())", "foreach §n1§ : %s.split()\nmessage(§n1§)\nendforeach", "%s += 'z'", "message({%s: 1})", "message([%s, 'y'].contains('y'))"],
            "int": ["message(%s + 1)", "message(-%s)", "message(%s * 2 - %s)", "message(%s > 3, %s == 2)", "message(%s.is_even())", "message([1, 2].get(%s, 0))", "foreach §n1§ : range(%s * %s)\nmessage(§n1§)\nbreak\nendforeach", "%s += 1", "message(%s / 2, %s % 3)", "message(%s.to_string() + 'a')"],
            "bool": ["if %s\nmessage('y')\nelse\nmessage('n')\nendif", "message(%s and true)", "message(not %s)", "message(%s ? 1 : 2)", "message(false or %s)", "message(%s.to_string())", "message(%s.to_int() + 1)", "assert(%s or true, 'm')"],
            "lstr": ["message((%s + ['a'])[0])", "message((['a'] + %s)[-1])", "message('a' in %s)", "foreach §n1§ : %s\nmessage(§n1§ + 'a')\nendforeach", "message(%s.length() + 1)", "message(%s.contains('q'))", "%s += 'w'", "%s += ['w', 'x']", "message(','.join(%s))", "message(%s.get(0, 'd'))", "message(%s == [])"],
            "lint": ["message((%s + [1])[0] + 1)", "message(2 in %s)", "foreach §n1§ : %s\nmessage(§n1§ + 1)\nendforeach", "message(%s.length() - 1)", "%s += 3", "message(%s.get(0, 3).is_odd())", "message(%s != [1])"],
            "dstr": ["message((%s + {'k': 'v'})['k'] + 'a')", "message('a' in %s)", "foreach §n1§, §n2§ : %s\nmessage(§n1§ + §n2§)\nendforeach", "message(%s.keys())", "message(%s.get('a', 'b').to_upper())", "%s += {'q': 'r'}", "message(%s.has_key('x') and true)", "message(%s == {})"],
        }[t]
        r = []
        for o in d.shuffle(ops)[:d.int(1, 4)]:
            n1, n2 = self.new("x"), self.new("x")
            r += o.replace("%s", x).replace("§n1§", "§%s§" % n1).replace("§n2§", "§%s§" % n2).split("\n")
        for _ in range(d.int(0, 1)):
            r.append("message(%s)" % self.val(t, 2))
        return r

    def inner(self, depth, loop=False):
        """nothing that may be done only once inside of loops"""
        saved = dict(self.vars)
        b = self.block(depth - 1)
        self.vars = saved
        if loop:
            b = [x for x in b if not re.search(r"'[a-z]*\d+|'f\d+\.h'", x)]
            # only whole constructs stay
            if sum(x.startswith(("if ", "foreach ")) for x in b) != sum(x in ("endif", "endforeach") for x in b) or not b or any(x.startswith(("if ", "foreach ", "elif", "else", "end")) for x in b):
                b = ["message('loop')"]
        if d_ctl(self.d, loop):
            b += ["if " + self.val("bool", 1), self.d.choice(["break", "continue"]), "endif"]
        return b


def d_ctl(d, loop):
    return loop and d.bool(0.2)


def render(lines, d, names, wild):
    out = []
    for l in lines:
        l = re.sub("§(.*?)§", lambda m: names(m.group(1)), l)
        l = re.sub(r"'(v\d+)'", lambda m: "'%s'" % names(m.group(1)), l)
        if not wild:
            out.append(l.replace("¶", ""))
            continue
        while d.bool(0.15):
            out.append(d.choice(["", "# comment", "  ", "\t# '"]))
        # a break is possible only inside of brackets, where all of the marks are
        depth, s, q = 0, "", None
        for i, ch in enumerate(l):
            if q:
                s += ch
                if ch == "'" and l[i - 1] != "\\":
                    q = None
                continue
            if ch == "'":
                q = ch
            if ch in "([{":
                depth += 1
            if ch in ")]}":
                depth -= 1
            s += d.choice(["", " ", "\n", "\n  # c\n  ", "  "]) if ch == "¶" and depth > 0 else "" if ch == "¶" else ch
        out.append(d.choice(["", "", "  ", "\t"]) + s + d.choice(["", "", " # end", "  "]))
    return "\n".join(out) + "\n"


def verdict(text, unname):
    """the diagnostics without their places and names"""
    r = []
    for m in re.finditer(r"^(?:.*?):\d+:\d+: (error|warn) (.*)$", text, re.M):
        r.append(m.group(1) + " " + re.sub(r"\w+", lambda x: unname.get(x.group(0), x.group(0)), m.group(2)))
    return sorted(r)


def case(d, ctx):
    w = ctx.fresh() + "/s"
    g = G(d)
    main = g.block(3, True)
    files = {"": main}
    if d.bool(0.4):
        # variables of the top are seen below and the other way round
        files["d1/"] = g.block(2, True)
        main.append("subdir('d1')")
        main += g.block(2, True)
    if d.bool(0.2):
        saved, g.vars = g.vars, {}
        sub = g.block(2, True)
        given = [v for v, t in g.vars.items() if t in SIMPLE]
        g.vars = saved
        # options are those of the other project
        sub = [re.sub(r"get_option\('(b\d|s)'\)", lambda m: "get_option('%s')" % ("werror" if m.group(1)[0] == "b" else "prefix"), x) for x in sub]
        sub = [re.sub(r"'([a-z]+)(\d+)'", r"'\1s\2'", x) if not re.search(r"_variable\('v", x) else x for x in sub]
        files["subprojects/sub/"] = sub
        main.append("§sp§ = subproject('sub')")
        if given:
            main.append("message(§sp§.get_variable('%s'))" % d.choice(given))
    bad = None
    if d.bool(0.55):
        where = d.choice(sorted(set(files) - {"subprojects/sub/"}))
        b = files[where]
        # straight line: between statements of the file itself
        depth, slots = 0, []
        for i, x in enumerate(b):
            if depth == 0:
                slots.append(i)
            if x.startswith(("if ", "foreach ")):
                depth += 1
            if x in ("endif", "endforeach"):
                depth -= 1
        slots.append(len(b))
        g.vars, g.sure = {}, True
        wrong = d.choice(["extra", "few", "type", "kw", "name", "var", "op"])
        if wrong == "op":
            a = {t: (lambda t=t: g.val(t, 1)) for t in SIMPLE}
            o = d.choice([
                lambda: "(%s + %s)" % d.choice([(a["int"](), a["str"]()), (a["str"](), a["int"]()), (a["bool"](), a["bool"]()), (a["dstr"](), a["lstr"]())]),
                lambda: "(%s %s %s)" % ((a["str"](),) + d.choice([("-", a["str"]()), ("*", a["int"]()), ("%", a["int"]()), ("/", a["int"]())])),
                lambda: "(%s %s %s)" % ((a["lstr"](),) + d.choice([("-", a["lstr"]()), ("*", a["int"]()), ("/", a["str"]())])),
                lambda: "(not %s)" % a[d.choice(["int", "str", "lstr", "dstr"])](),
                lambda: "(-%s)" % a[d.choice(["bool", "str", "lstr", "dstr"])](),
                lambda: "(true and %s)" % a[d.choice(["int", "str", "lstr"])](),
                lambda: "(false or %s)" % a[d.choice(["int", "str", "dstr"])](),
                lambda: "(%s and true)" % a[d.choice(["int", "str", "lstr"])](),
                lambda: "(%s < %s)" % d.choice([(a["int"](), a["str"]()), (a["lstr"](), a["lstr"]()), (a["str"](), a["int"]()), (a["bool"](), a["bool"]())]),
                lambda: "(%s in %s)" % d.choice([(a["str"](), a["int"]()), (a["str"](), a["bool"]())]),
                lambda: "%s[%s]" % d.choice([("7", "0"), ("true", "0"), ("['a']", "'x'"), ("{'a': 'b'}", "0"), ("[1, 2]", "true"), ("{'a': 1}", "[1]")]),
                lambda: "(%s ? 1 : 2)" % a[d.choice(["int", "str", "lstr"])](),
                lambda: "[%s].foo()" % a["int"](),
                lambda: "{%s: 1}" % a[d.choice(["int", "lstr", "bool"])](),
            ])()
            m = (o, "x")
        else:
            m = g.call(d.choice(T), 0, wrong)
        if m is None:
            raise Reject()
        bad = m[0] if m[1] is None or d.bool(0.2) else "§vbad§ = " + m[0]
        if m[1] is not None and d.bool(0.4):
            # inside of something bigger
            x = m[0]
            for _ in range(d.int(1, 2)):
                x = d.choice(["[%s]", "[1, %s, 'a']", "{'k': %s}", "(%s)", "(true ? %s : 1)", "[[%s], 2].length()", "[%s].contains(1)", "{'k': %s}.has_key('k')", "[0, 1].get(0, %s)", "get_option('s').contains(%s)" if wrong == "var" else "[%s, []]"]) % x
            bad = "§vbad§ = " + x if d.bool() else "message(%s)" % x
            d.label("nested mistake")
        d.label(wrong)
    else:
        d.label("correct")
    opts = "".join("option('%s', type: 'boolean', value: %s)\n" % (o, d.choice(["true", "false"])) for o in g.opts) + "option('s', type: 'string', value: 'sv')\n"
    plain = lambda n: n

    def emit(root, names, wild, insert):
        for f in sorted(files):
            b = list(files[f])
            if insert and f == where:
                b.insert(slots[at], bad)
            write(root + "/" + f + "meson.build", ("project('%s', 'c')\n" % (f.strip("/").split("/")[-1] or "p") if f != "d1/" else "") + render(b, d, names, wild))
            for x, t in (("a.c", "int main(void) { return 0; }\n"), ("a.txt", "t\n"), ("h.h", "\n"), ("m.1", "\n"), ("inc/i.h", "\n")):
                write(root + "/" + f + x, t)
        write(root + "/meson_options.txt", opts)

    def run(root, *a):
        r = ctx.run([ctx.muon] + list(a), cwd=root, cpu=30)
        if r.crashed:
            raise Fail(r.why())
        return r.rc, (r.out + r.err).decode("utf8", "replace")
    emit(w, plain, False, False)
    for f in sorted(files):
        d.note("--- %smeson.build\n%s" % (f, open(w + "/" + f + "meson.build").read()))
    d.sample = open(w + "/meson.build").read()
    d.key = d.sample + (bad or "")
    rc, text = run(w, "analyze")
    if rc or re.search(r": error ", text):
        # is it correct? whatever the options are
        for i in range(2 ** len(g.opts)):
            r2, t2 = run(w, "setup", *["-D%s=%s" % (o, "true" if i >> j & 1 else "false") for j, o in enumerate(g.opts)], "b%d" % i)
            if r2:
                d.note(t2[-1500:])
                if os.environ.get("VERIF_GEN"):
                    raise Fail("GENERATOR " + t2[-1500:])
                raise Reject("not correct")
        raise Fail("a correct project is refused\n" + text)
    base = text
    if d.bool(0.05) and not bad:
        # to see that the generator gives correct programs
        r2, t2 = run(w, "setup", "b0")
        if r2:
            if os.environ.get("VERIF_GEN"):
                raise Fail("GENERATOR " + t2[-1500:])
            d.label("incorrect but accepted")
    if bad:
        at = d.int(0, len(slots) - 1)
        x = ctx.fresh() + "/x"
        emit(x, plain, False, True)
        d.note("the mistake: " + bad.replace("¶", "").replace("§", ""))
        rc, text = run(x, "analyze", "-q")
        if rc == 0 or not re.search(r": error ", text):
            r2, t2 = run(x, "setup", "b0")
            if not r2:
                if os.environ.get("VERIF_GEN"):
                    raise Fail("GENERATOR not a mistake")
                raise Reject("not a mistake")
            raise Fail("the mistake is not reported\n%s\n%s" % (text, t2[-800:]))
        rc, base = run(x, "analyze")
        root = x
    # another layout, other names
    ren = {}

    def names(n):
        return ren.setdefault(n, d.choice(["a_very_long_name_", "x", "Foo", "q_", "zz"]) + str(len(ren)))
    y = ctx.fresh() + "/s"
    emit(y, names, True, bool(bad))
    rc2, text2 = run(y, "analyze")
    back = {v: k for k, v in ren.items()}
    v1, v2 = verdict(base, {}), verdict(text2, back)
    if rc != rc2 or v1 != v2:
        for f in sorted(files):
            d.note("--- other %smeson.build\n%s" % (f, open(y + "/" + f + "meson.build").read()))
        raise Fail("another verdict for another layout: %d %s, not %d %s" % (rc2, [a for a in v2 if a not in v1] or v2, rc, [a for a in v1 if a not in v2] or v1))
    d.nontrivial = len(main) >= 5


if __name__ == "__main__":
    sys.exit(pbt.main(pbt.Spec("C19", case, quick=6000, thorough=200000, builds=("fast",),
                      rule="the top-level file has at least five statements",
                      assumptions=["values of different types are not compared, indices and divisors are in range in code that is not reached too, variables are not unset and do not change their type in loops", "mistakes are those of names, numbers of arguments, keywords and types known before evaluation, not inside of subprojects, which the analyzer does not enter"])))
