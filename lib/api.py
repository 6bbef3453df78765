"""type-directed random calls of every function and method muon has; the
signatures (api.txt) are what `muon internal dump_funcs` printed once"""
import os, re

HERE = os.path.dirname(os.path.abspath(__file__))


class Sig:
    def __init__(self, name):
        self.name = name
        self.pos, self.opt, self.var, self.kw, self.ret = [], [], None, {}, "any"


def load():
    sigs, cur, sec = [], None, None
    for line in open(HERE + "/api.txt"):
        line = line.rstrip("\n")
        if not line.startswith(" "):
            cur = Sig(line)
            sigs.append(cur)
        elif not line.startswith("    "):
            sec = line.strip().rstrip(":")
        else:
            v = line.strip()
            if sec == "posargs":
                cur.pos.append(v)
            elif sec == "optargs":
                cur.opt.append(v)
            elif sec == "varargs":
                cur.var = v
            elif sec == "kwargs":
                k, _, t = v.partition(":")
                cur.kw[k.strip()] = t.strip()
            elif sec == "returns":
                cur.ret = v
    return sigs


SIGS = load()
# the script-mode functions dump_funcs does not list
SCRIPT = """
import('fs').add_suffix str str -> str
import('fs').copy file|str str -> void
import('fs').cwd -> str
import('fs').executable str -> str
import('fs').is_basename str -> bool
import('fs').is_subpath str str -> bool
import('fs').make_absolute str -> str
import('fs').mkdir str -> void
import('fs').relative_to str str -> str
import('fs').without_ext str -> str
import('fs').write str str -> void
serial_load str -> any
serial_dump str any -> void
is_void any -> bool
typeof any -> str
p any -> any
array.delete int -> void
dict.delete str -> void
"""

STRS = ["", "a", "foo", "a.c", "x.h", "in.txt", "dir", "../up", "/abs", "@0@", "@INPUT@", "@OUTPUT@", "@BASENAME@", "@PLAINNAME@", "@DEPFILE@", "@CURRENT_SOURCE_DIR@", "@OUTDIR@", "@INPUT0@", "@OUTPUT1@", "@EXTRA_ARGS@", "c", "cpp", "true", "auto", "enabled", "1.0", ">=1", "rwxr-xr-x", "A=b", "A", "sha256", "md5", "static", "shared", "include", "bin", "lib", "-lfoo", "-DX=1", "with space", "é", "\\x01", "\\n", "x" * 70, "x" * 5000, "key=val", "prefix", "meson", "PATH", "feat", "stringopt", "sub", "sh", "/bin/sh", "no-such-thing", "test", "none", "gnu11", "yes?", "${x}", "$", "a:b", "\\'"]
INTS = ["0", "1", "-1", "2", "7", "77", "1000", "2147483648", "-2147483649", "9223372036854775807", "4294967296"]


class Gen:
    """statements for a program whose prelude defines v_<type> variables"""

    def __init__(self, d, compiler, script=False, wrong=0.04, kwp=0.25):
        self.d, self.compiler, self.script, self.wrong, self.kwp = d, compiler, script, wrong, kwp
        self.n = 0
        self.vars = {}
        skip = {"subdir", "project", "extension:dbg", "debug", "subdir_done", "error"}
        self.sigs = []
        for s in SIGS:
            if s.name in skip:
                continue
            recv = s.name.split(".")[0] if "." in s.name and not s.name.startswith("import(") else None
            if not compiler and (recv in ("compiler", "build_tgt", "both_libs") or s.name in ("executable", "library", "shared_library", "static_library", "shared_module", "both_libraries", "build_target", "add_languages", "meson.get_compiler")):
                continue
            if script:
                if recv not in (None, "str", "int", "bool", "list", "dict", "cfg_data", "env", "runresult", "disabler", "external_program", "file") and not s.name.startswith("import('fs')"):
                    continue
                if recv is None and not s.name.startswith("import") and s.name not in ("assert", "configuration_data", "disabler", "environment", "files", "find_program", "get_variable", "import", "is_disabler", "is_variable", "join_paths", "message", "range", "run_command", "set_variable", "unset_variable", "warning"):
                    continue
            self.sigs.append(s)
        if script:
            for l in SCRIPT.strip().splitlines():
                a, _, ret = l.partition(" -> ")
                p = a.split()
                s = Sig(p[0] if not a.startswith("array") else a.split()[0].replace("array", "list"))
                s.pos, s.ret = p[1:], ret
                self.sigs.append(s)

    def q(self, s):
        return "'" + s + "'"

    def value(self, t, depth=2):
        d = self.d
        if d.bool(self.wrong):
            t = d.choice(["str", "int", "list[str]", "dict", "disabler", "file", "dep", "bool", "env", "feature", "exe"])
        alts = split_alts(t)
        t = d.choice(alts)
        m = re.match(r"list\[(.*)\]$", t)
        if m:
            return "[" + ", ".join(self.value(m.group(1), depth - 1) for _ in d.many(0, 3, 0.6)) + "]"
        if t == "any":
            t = d.choice(["str", "int", "bool", "list", "dict", "dep", "file"])
        if t == "str":
            return self.q(d.choice(STRS)) if not d.bool(0.03) else "'''" + d.choice(STRS) + "\n'''"
        if t == "int":
            return d.choice(INTS)
        if t == "bool":
            return d.choice(["true", "false"])
        if t == "list":
            return "[" + ", ".join(self.value(d.choice(["str", "int", "bool", "str", "file"]), 0) for _ in d.many(0, 3, 0.6)) + "]"
        if t == "dict":
            keys = d.sublist(["k", "A", "PATH", "x y", ""], 0.3)
            return "{" + ", ".join("'%s': %s" % (k, self.value(d.choice(["str", "str", "int", "bool", "list"]), 0)) for k in keys) + "}"
        if t == "file" and d.bool(0.7):
            return "files('%s')" % d.choice(["a.c", "in.txt", "x.h"]) + ("[0]" if d.bool(0.7) else "")
        if t == "exe":
            t = d.choice(["external_program", "str", "external_program", "file"])
            if t == "str":
                return "'sh'"
            if t == "file":
                return "files('in.txt')[0]"
        t = {"external_program": "external_program", "build_tgt": "build_tgt", "runresult": "runresult"}.get(t, t)
        l = self.vars.get(t, [])
        if l and d.bool(0.8):
            return d.choice(l)
        return self.make(t)

    def make(self, t):
        d = self.d
        M = {
            "file": "files('a.c')[0]",
            "custom_tgt": "custom_target('ct%d', output: 'ct%d', command: ['touch', '@OUTPUT@'])" % (self.uniq(), self.n),
            "dep": d.choice(["declare_dependency(compile_args: '-DX')", "dependency('no-such', required: false)", "dependency('', required: false)"]),
            "inc": "include_directories('dir')",
            "external_program": d.choice(["find_program('sh')", "find_program('no-such', required: false)"]),
            "env": "environment({'A': 'b'})",
            "cfg_data": "configuration_data({'k': 1})",
            "feature": "get_option('feat')",
            "generator": "generator(find_program('sh'), output: '@BASENAME@.o', arguments: ['@INPUT@', '@OUTPUT@'])",
            "generated_list": "generator(find_program('sh'), output: '@BASENAME@.o', arguments: ['@INPUT@', '@OUTPUT@']).process('in.txt')",
            "source_set": "import('sourceset').source_set()",
            "source_configuration": "import('sourceset').source_set().apply({})",
            "runresult": "run_command('true', check: false)",
            "alias_tgt": "alias_target('al%d', custom_target('ca%d', output: 'ca%d', command: ['true']))" % ((self.uniq(),) + (self.n,) * 2),
            "subproject": "subproject('sub', required: false)",
            "disabler": "disabler()",
            "module": "import('fs')",
            "python_installation": "import('python').find_installation()",
            "machine": "build_machine", "build_machine": "host_machine", "meson": "meson",
            "compiler": "meson.get_compiler('c')",
            "build_tgt": "executable('exe%d', 'a.c')" % self.uniq(),
            "both_libs": "both_libraries('lib%d', 'a.c')" % self.uniq(),
            "void": "set_variable('z', 1)",
        }
        if not self.compiler and t in ("compiler", "build_tgt", "both_libs"):
            t = "custom_tgt"
        if self.script and t not in ("file", "external_program", "env", "cfg_data", "runresult", "disabler", "module"):
            return "'a'"
        return M.get(t, "'a'")

    def uniq(self):
        self.n += 1
        return self.n

    def call(self, s):
        d = self.d
        name = s.name
        recv = ""
        if "." in name and not name.startswith("import("):
            r, _, name = name.partition(".")
            if r == "meson":
                recv = "meson."
            elif r == "build_machine":
                recv = d.choice(["build_machine.", "host_machine."])
            elif r in ("str", "int", "bool", "list", "dict"):
                v = self.value(r)
                recv = ("(%s)." if r == "int" else "%s.") % v
            elif r == "feature":
                recv = "get_option('feat')."
            else:
                recv = (d.choice(self.vars[r]) if r in self.vars else self.make(r)) + "."
        # a huge range is a request for that much memory, not a defect
        args = [self.value(t) if name != "range" else d.choice(INTS[:7]) for t in s.pos]
        if s.opt and d.bool(0.5):
            args += [self.value(t) if name != "range" else d.choice(INTS[:7]) for t in s.opt]
        if s.var:
            args += [self.value(s.var) for _ in d.many(0, 4, 0.6)]
        if d.bool(self.wrong / 2):
            args.append(self.value("str"))
        if args and d.bool(self.wrong / 2):
            args.pop()
        for k, t in s.kw.items():
            if d.bool(0.75 if k in ("output", "command", "arguments", "input", "required", "check") and (k != "check" or name == "run_command") else self.kwp * 0.5):
                args.append("%s: %s" % (k, "false" if k == "required" and d.bool(0.9) else self.value(t)))
        return "%s%s(%s)" % (recv, name, ", ".join(args)), s.ret

    def stmt(self):
        d = self.d
        s = d.choice(self.sigs)
        c, ret = self.call(s)
        if ret != "void" and ret and d.bool(0.7):
            v = "w%d" % self.uniq()
            t = {"external_program": "external_program"}.get(split_alts(ret)[0], split_alts(ret)[0])
            self.vars.setdefault(t, []).append(v)
            return s.name, "%s = %s" % (v, c)
        return s.name, c


def split_alts(t):
    out, depth, cur = [], 0, ""
    for ch in t:
        if ch == "[":
            depth += 1
        elif ch == "]":
            depth -= 1
        if ch == "|" and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    return out + [cur]
