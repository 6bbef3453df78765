#!/usr/bin/env python3
"""C29: valid generated programs with one mistake put at a random place: the first error names its file and line, nothing after it happens."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Fail, Reject, write, mstr

# \1 stands before the place that is wrong; \2 ... \2 around it when several lines are all right
# mistakes found when the statement runs
RUN = [
    "v = \1undef_var", "v = [\n  1,\n  \1undef_var,\n]", "message('a',\n  'b', # c\n\n  \1undef_var)", "v = {'a': 1,\n\n  'b': \1undef_var}",
    "v = {\n  'a': 1,\n  'b': [1, # x ]\n    2, \1undef_var\n ]}", "v = (1 + # ( \n  2\n  + \1undef_var)", "v = true ? \1undef_var : 1", "\1undef_var += 1",
    "v = 'a' + \\\n  'b' + \\\n  \1undef_var", "v = \1undef_var.to_string()", "v = not \1undef_var", "v = 1 < 2 and \1undef_var",
    "v = '''\n\n''' + \1undef_var", "message('''a\nb''',\n \1undef_var)", "v = f'''x\ny''' + \1undef_var",
    "\1no_func()", "v = [1,\n \1no_func(2),\n 3]", "v = 'a'.\1no_method()", "v = [\n 'a'.to_upper(),\n 'b'.\1no_method(),\n]", "v = meson.\1no_method()",
    "v = \2[1, 2][5]\2", "v = \2{'a': 1}['b']\2", "v = \2'abc'[7]\2", "v = [0,\n \2[1, 2][5]\2,\n 3]",
    "v = \2 1 + 'a'\2", "v = \2[\n 1\n] - 1\2", "v = \2'a' * 2\2", "v = [1,\n  2,\n  \2 3 + 'a'\2,\n 4]", "v = \2 1 < 'a'\2", "v = \2 1 / 0\2", "v = \2 1 % 0\2", "v = \2 - 'a'\2", "v = \2not 1\2", "v = \2'a' and true\2",
    "\2error('stop')\2", "\2error('stop',\n 'here')\2", "\2assert(false)\2", "\2assert(false,\n  'text')\2", "\2assert(1)\2", "\2assert(1 == 2, # )\n 'x')\2",
    "v = \2files('nosuch.c')\2", "v = \2files(\n  'nosuch.c',\n)\2", "\2executable('e', 'nosuch.c')\2",
    "\2message(no_kw: 1)\2", "\2message(a: 1,\n 'b')\2", "v = import('fs').exists('a',\n \1no_kw: 1)", "v = run_command('true', check: true,\n  \1no_kw: 1)", "v = configuration_data({},\n  # c\n  \1no_kw: [\n 1])",
    "v = run_command('true',\n  check: \1'yes')", "v = 'a'.split(\n  \1 1)", "v = 'a'.join(\n  \1[1])", "v = 'a'.replace('b',\n  \1 3)", "v = \2'a'.replace('b')\2",
    "if \1'str'\n  message('in')\nendif", "if false\nelif \1 1\n  message('in')\nendif", "if false\nelif true\n v = \1undef_var\nendif", "foreach x : \1 1\n  message('in')\nendforeach", "foreach a, b : \1[1, 2]\n  message('in')\nendforeach",
    "foreach x : [\n1,\n\1undef_var\n]\n message('in')\nendforeach",
    "foreach x : [1, 2]\n  # c\n\n  v = \1undef_var\nendforeach",
    "if true\n\n  if true\n    # c\n    v = \1undef_var\n  endif\nendif",
    "v = \2import('no_module')\2", "\2subdir('no_dir')\2", "v = \2get_option('no_option')\2", "v = \2get_variable('no_var')\2", "v = \2dependency('no-such-dep')\2", "v = \2find_program('no-such-prog')\2",
    "v = \2run_command('false', check: true)\2", "v = \2run_command(\n 'false',\n check: true)\2", "\2configure_file(output: 'x')\2", "v = \2f'@no_var@'\2", "v = 'a' + \\\n  \2f'@no_var@'\2", "v = [\n 1,\n \2f'@no_var@'\2]",
    "v = 'a'.format(\1undef_var)", "v = '@1@'.\2format('a')\2", "v = \2'z'.to_int()\2", "set_variable('v', \1undef_var)", "set_variable(\1 1, 2)", "\2project('again')\2",
    "v = [1, [2, [3,\n [4,\n \1undef_var]]]]", "v = import('fs').\2read(\n  'no_file'\2\n)", "v = [\n import('fs').read('no_file')\2\2]", "add_project_arguments('-Da',\n language: \1 1)",
    "v = range(\2 3, 1\2)", "summary('a',\n  \1undef_var)", "test('t', \1 1)", "v = \2'a'.version_compare(1)\2", "v = ['a'].get(\1'x')", "v = ['a'].\2get(4)\2", "v = {'a': 1}.\2get('b')\2", "v = {\n \2 1: 2\2}",
]
# mistakes in the text: nothing of the file runs
SYN = [
    "v = \1)", "v = \1= 1", "\1endif", "\1endforeach", "\1else\n", "\1elif true", "foo \1bar", "v = [1,\n 2 \1 3]", "v = \1$x", "v = 1 \1$", "v = \1\"dq\"", "v = \1'unterminated", "v = [\n 1,\n \1'unterminated\n]", "v = 'a' + \\\n \1'b",
    "if true\n  message('x')\n\1endforeach", "foreach x : [1]\n  message('x')\n\1endif", "\1 1v = 2", "foreach \1: [1]\nendforeach", "v = 1 \1; w = 2", "v = \2\n\2", "v = 1 +\2\n\2", "message('a' \1'b')", "message(\n'a'\n\1'b')", "v = [1, \1, 2]", "v = {'a' \1 1}", "v = {'a': \1}",
    "v = a ?\1? b : c", "v = {'a': 1,\n 'b' \1}", "v = \1]", "v = (1 \1]", "v = [1 \1)", "v.\1()", "v = v.\1 1", "v = \1'''never ends", "v = \1f'''never\nends", "v = \1@", "v = 1 \1| 2", "v = \1!x", "v = 1 \1=! 2", "if\2\n\2 message('x')\nendif", "v = 'a' \1'b'", "v = 1 \1 2", "v \1 1", "v = [\n 'a'\n \1'b'\n]", "x = {\n  'a': 1,\n\n  'b': 2\n  \1'c': 3\n}",
    "v = \1/ 2", "v = \1* 2", "v = 2 * \1/ 3", "v = 2 \1** 3" if False else "v = 2 * \1* 3", "\1== 1", "v = not \1== 1", "foreach x \1 [1]\nendforeach", "foreach x, \1: [1]\nendforeach", "if true \1 message('x')\nendif", "v = 'a' if \1" if False else "v = \1if true\nendif",
    "\1 1 = 2", "\1'a' = 2",
]
# mistakes in an options file
OPT = [
    "\2option('o9', type: 'nosuch')\2", "\2option('o9')\2", "\2option('o9', type: 'integer',\n  value: 'x')\2", "\2option('o9', type: 'boolean', value: 3)\2", "\2option('o9', type: 'combo', choices: ['a'], value: 'b')\2", "\2option('o 9', type: 'string')\2", "\1message('x')", "option('o9', type: 'string', \1no_kw: 1)", "\2option('o9',\n type: 'string',\n value: \1undef_var)\2".replace("\2", ""),
    "\2option('o0', type: 'string')\2", "\2option('prefix', type: 'string')\2", "v = \1)", "option('o9' \1'x')", "option('o9', type: \1'string)", "\1endif",
]


# mistakes the analyzer finds exactly there, each on its own
MANY = [
    "%s = [\1nofn(1), \1nofn(2)]", "message(\1nov, \1nov)", "%s = 'a'.\1no_m()", "%s = [\n\1nov, # c\n\n  \1nofn()]", "%s = {'a': \1nov,\n 'b': \1nov}", "%s = 'a' + \\\n  \1nov", "\1nofn()", "\1nofn() # é",
    "%s = ['é', \1nov]", "%s = '''\n\n''' + \1nov", "%s = [\t\1nov,\t\1nov]", "%s = (\1nov)", "message('x'.\1no_m(), \1nov)", "%s = not \1nov", "%s = 1 + 2 + \1nov", "%s = ['a'.to_upper(), 'a'.\1no_m(), 'b'.\1no_m()]",
]


class G:
    many = False

    def __init__(self, d):
        self.d = d
        self.n = 0
        self.v = 0

    def pad(self):
        d = self.d
        self.v += 1
        v = "p%d" % self.v
        if self.many and d.bool(0.3):
            m = d.choice(MANY)
            return m % v if "%s" in m else m
        return d.choice([
            "", "", "# comment", "   ", "\t# tab ' \" ''' ( [ {", "# ends in a backslash \\", "# é ☃ 'quote", "%s = [\n  1, # one ]\n  2,\n\n  3\n]" % v, "%s = '''\nlines ' ''\n  # no comment\n\\\n'''" % v, "%s = f'''a\n\nb'''" % v,
            "%s = 1 + \\\n  2 + \\\n  3" % v, "%s = {\n 'a': 1,\n # x\n 'b': [2,\n 3]}" % v, "%s = (1\n  + 2 # c\n)" % v, "%s = 'a # b'" % v, "%s = 'it\\'s'" % v, "%s = '\\n\\\\'" % v, "%s = 'é☃'" % v, "%s = ['''x''', '''y\n''',\n]" % v, "%s = 'a'.to_upper()" % v,
            "%s = true ? 1 : 2" % v, "%s = 0x1F" % v, "%s = 'a'.join(\n  [\n    'x'])" % v, "\n\n\n", "if false # c\nendif # c\n".replace("endif", "  %s = 1\nendif" % v), "%s = ''" % v, "%s = ''''''" % v, "%s = \\\n\\\n 1" % v, "%s=[]" % v, "unset_variable('%s')" % v if False else "%s = 4" % v,
            "%s = 'x' \\\n # c\n".replace(" \\\n # c", "") % v, "%s = '''\\'''' " % v if False else "%s = '''a\\n'''" % v, "assert(true,\n  'x'\n)", "%s = not \\\n true" % v,
        ])

    def block(self, depth, bad):
        """statements; bad: None or the node to put at a random place somewhere inside"""
        d = self.d
        b = []
        for _ in d.many(1, 6, 0.75):
            k = d.weighted([(5, "msg"), (6, "pad"), (1 if depth < 3 else 0, "if"), (1 if depth < 3 else 0, "for")])
            if k == "msg":
                self.n += 1
                b.append(("msg", self.n))
            elif k == "pad":
                b.append(("pad", self.pad()))
            elif k == "if":
                b.append(("if", d.bool(), self.block(depth + 1, None), self.block(depth + 1, None) if d.bool() else None))
            else:
                b.append(("for", d.int(0, 3), self.block(depth + 1, None)))
        if not any(x[0] == "msg" for x in b):
            self.n += 1
            b.insert(d.int(0, len(b)), ("msg", self.n))
        if bad:
            # at the end of a block the words that end blocks would be right
            if depth < 3 and bad[1][1:].split()[0] not in ("endif", "endforeach", "else", "elif") and d.bool(0.35):
                if d.bool():
                    c = d.bool()
                    inner, other = self.block(depth + 1, bad), self.block(depth + 1, None)
                    node = ("if", True, inner, other if d.bool() else None) if c else ("if", False, other, inner)
                else:
                    node = ("for", d.int(1, 3), self.block(depth + 1, bad))
            else:
                node = bad
            b.insert(d.int(0, len(b)), node)
        return b

    def text(self, b, ind=0):
        d = self.d
        s = ""
        for x in b:
            pre = d.choice(["  ", "\t", ""]) * ind
            if x[0] == "msg":
                s += pre + d.choice(["message('m%d')", "message('m%d') # c", "message(\n  'm%d'\n)", "message('m' + \\\n  '%d')", "message( 'm%d',)"]) % x[1] + "\n"
            elif x[0] in ("pad", "bad"):
                s += (pre + x[1] if not x[1].startswith("\n") else x[1]) + "\n"
            elif x[0] == "sub":
                s += pre + x[1] + "\n"
            elif x[0] == "if":
                s += pre + ("if get_option('werror')" if self.many else "if true" if x[1] else "if 1 ==\\\n 2" if d.bool(0.3) else "if false") + d.choice(["", " # c", "  "]) + "\n" + self.text(x[2], ind + 1)
                if x[3] is not None:
                    s += pre + d.choice(["else", "elif true" if not self.many else "elif not get_option('werror')", "else # c"]) + "\n" + self.text(x[3], ind + 1)
                s += pre + "endif\n"
            elif x[0] == "for":
                self.v += 1
                s += pre + "foreach q%d : %s" % (self.v, d.choice(["[%s]", "[\n%s\n]"]) % ", ".join(map(str, range(max(x[1], self.many))))) + "\n" + self.text(x[2], ind + 1) + pre + "endforeach\n"
        return s


class Stop(Exception):
    pass


def run(b, out, files):
    for x in b:
        if x[0] == "msg":
            out.append("m%d" % x[1])
        elif x[0] == "bad":
            raise Stop
        elif x[0] == "sub":
            if x[2] == "syntax":
                raise Stop
            run(x[3], out, files)
        elif x[0] == "if":
            run(x[2] if x[1] else x[3] or [], out, files)
        elif x[0] == "for":
            for _ in range(x[1]):
                run(x[2], out, files)


def place(text):
    """text without the marks, first and last line (1-based) that are right"""
    if "\2" in text:
        a = text.index("\2")
        b = text.rindex("\2")
        return text.replace("\2", ""), text.count("\n", 0, a) + 1, text.count("\n", 0, b) + 1
    a = text.index("\1")
    return text.replace("\1", ""), text.count("\n", 0, a) + 1, text.count("\n", 0, a) + 1


ERR = re.compile(r"^(/.*?):(\d+):(\d+): (error|warning) (.*)$", re.M)


def marker(text, line, col, rest):
    """what is shown below a message: the line, and a mark below its column"""
    lines = text.split("\n")
    want = lines[line - 1] if line <= len(lines) else ""
    ls = rest.lstrip("\n").split("\n")
    m = re.match(r" *(\d+) \| ?(.*)$", ls[0], re.S)
    if not m:
        return
    shown = want.replace("\t", "        ").rstrip("\r")
    if int(m.group(1)) != line or not ls[0].rstrip("\r").endswith("| " + shown):
        raise Fail("the line shown is %r, not %d: %r" % (ls[0], line, want))
    if len("\n".join(lines[:line - 1]).encode()) + 1 + col + 2 >= len(text.encode()):
        return  # at the end of the file
    if want.encode()[col - 1:col] in (b"\t", b"", b"\r"):
        return
    before = want.encode()[:col - 1]
    pos = ls[0].index("| ") + 2 + len(before.replace(b"\t", b"        "))
    if len(ls) < 2 or ls[1].rstrip() != " " * pos + "^":
        raise Fail("column %d of line %d is marked by %r, not by a mark at %d" % (col, line, ls[1:2], pos))


def many(d, ctx, root):
    """several mistakes: the analyzer names each of them, once, in order"""
    g = G(d)
    g.many = True
    files = {}
    dirs = [""] + (["d1/", "d1/d 2/"] if d.bool() else ["e/"] if d.bool() else [])
    for i, p in reversed(list(enumerate(dirs))):
        b = g.block(0, None)
        if i + 1 < len(dirs):
            b.insert(d.int(0, len(b)), ("sub", "subdir(%s)" % mstr(dirs[i + 1][len(p):-1]), "run", []))
        if not p:
            b.insert(0, ("pad", "project('p')"))
        files[p + "meson.build"] = g.text(b)
    exp = {}
    eol = d.bool(0.15)
    for f, t in files.items():
        if eol:
            t = t.replace("\n", "\r\n")
        e = []
        while "\1" in t:
            i = t.index("\1")
            t = t[:i] + t[i + 1:]
            e.append((t.count("\n", 0, i) + 1, len(t[t.rfind("\n", 0, i) + 1:i].encode()) + 1))
        exp[root + "/s/" + f] = e
        files[f] = t
        write(root + "/s/" + f, t)
        d.note("--- %s\n%s" % (f, t))
    opts = d.choice([[], [], ["-q"]])
    d.label("many")
    d.key = tuple(files.values())
    d.sample = files["meson.build"]
    n = sum(map(len, exp.values()))
    d.nontrivial = n > 1
    r = ctx.run([ctx.muon, "analyze"] + opts, cwd=root + "/s")
    if r.crashed:
        raise Fail(r.why())
    err = (r.out + r.err).decode("utf-8", "replace")
    d.note("expected: %s" % exp)
    d.note(err)
    if (r.rc != 0) != (n > 0):
        raise Fail("exit status %d for %d mistakes" % (r.rc, n))
    got = {f: [] for f in exp}
    last = {}
    for e in ERR.finditer(err):
        f, l, c = e.group(1), int(e.group(2)), int(e.group(3))
        if f not in got:
            raise Fail("a message about %s" % f)
        if (l, c) < last.get(f, (0, 0)):
            raise Fail("the messages are not in order")
        last[f] = (l, c)
        if "-q" in opts and e.group(4) != "error":
            raise Fail("a warning with -q")
        marker(files[f[len(root) + 3:]], l, c, err[e.end():])
        if re.match("undefined object|method .* not found", e.group(5)):
            got[f].append((l, c))
    for f in exp:
        if got[f] != exp[f]:
            raise Fail("%s: mistakes are at %s, the messages are about %s" % (f, exp[f], got[f]))


def case(d, ctx):
    root = ctx.fresh()
    if d.bool(0.25):
        return many(d, ctx, root)
    g = G(d)
    where = d.weighted([(4, "top"), (3, "subdir"), (2, "subsub"), (2, "subproject"), (2, "options"), (2, "script")])
    kind = d.weighted([(3, "run"), (2, "syntax")])
    if where == "options":
        m = d.choice(OPT)
        kind = "syntax"  # nothing of the project runs
    else:
        m = d.choice(RUN if kind == "run" else SYN)
    if where == "script" and any(x in m for x in ("executable", "files(", "subdir", "get_option", "dependency", "find_program", "configure_file", "project(", "add_project", "summary", "test(", "meson.", "run_command")):
        where = "top"
    d.label(where + " " + kind)
    bad = ("bad", m)
    eol = d.bool(0.15)
    trail = d.bool(0.85)

    def fin(t):
        return t if trail else t.rstrip("\n")
    head = [("pad", g.pad()) for _ in range(d.int(0, 3))]
    head = [x for x in head if not x[1].strip() or x[1].lstrip().startswith("#")]
    proj = ("pad", d.choice(["project('p')", "project('p',\n  version: '1',\n)", "project( # c\n 'p')"]))
    files = {}
    if where in ("top", "script"):
        body = g.block(0, bad)
        files["meson.build"] = (head + [proj] if where == "top" else head) + body
        badfile = "meson.build"
        order = body if kind == "run" else []
    else:
        body = g.block(0, None)
        if where == "options":
            badfile = "meson_options.txt"
            order = []
            files["meson.build"] = head + [proj] + body
            files["meson_options.txt"] = [x for _ in range(d.int(0, 4)) for x in [("pad", d.choice(["", "# c", "option('o0', type: 'string')" if _ == 0 else "", "option('x%d',\n  type: 'boolean',\n # c\n  value: true)" % _]))]]
            if "'o0'" in m:
                files["meson_options.txt"].insert(0, ("pad", "option('o0', type: 'string')"))
                files["meson_options.txt"] = files["meson_options.txt"][:1] + [x for x in files["meson_options.txt"][1:] if "'o0'" not in x[1]]
            i = d.int(1 if "'o0'" in m else 0, len(files["meson_options.txt"]))
            files["meson_options.txt"].insert(i, bad)
        elif where == "subproject":
            inner = g.block(0, bad)
            badfile = "subprojects/s/meson.build"
            files[badfile] = [("pad", "project('s')")] + inner
            i = d.int(0, len(body))
            body.insert(i, ("sub", d.choice(["subproject('s')", "s = subproject(\n 's')"]), kind, inner))
            files["meson.build"] = head + [proj] + body
            order = body
        else:
            inner = g.block(0, bad)
            badfile = "d1/meson.build"
            if where == "subsub":
                badfile = "d1/d 2/meson.build"
                mid = g.block(0, None)
                mid.insert(d.int(0, len(mid)), ("sub", "subdir('d 2')", kind, inner))
                files["d1/meson.build"] = mid
                top = ("sub", "subdir('d1')", "run", mid)
            else:
                top = ("sub", "subdir('d1')", kind, inner)
            files[badfile] = inner
            body.insert(d.int(0, len(body)), top)
            files["meson.build"] = head + [proj] + body
            order = body
    exp = []
    try:
        run(order, exp, files)
        stopped = False
    except Stop:
        stopped = True
    if kind == "run" and not stopped:
        raise Reject("the mistake is not reached")
    for f in sorted(files):
        t = g.text(files[f])
        if f == badfile:
            i = re.search("[\1\2]", t).start()
            if m.find("\1'''") >= 0 or m.find("\1f'''") >= 0:
                # where a later one closes it is another matter
                if "'''" in t[i + 5:]:
                    raise Reject("closed later")
            t, lo, hi = place(t)
        t = fin(t)
        if eol:
            t = t.replace("\n", "\r\n")
        write(root + "/s/" + f, t)
        d.note("--- %s\n%s" % (f, t))
        if f == badfile:
            badtext = t
    d.note("expected: %s:%d..%d, messages %s" % (badfile, lo, hi, exp))
    d.sample = badtext
    d.key = (m, where, lo)
    if eol:
        d.label("CRLF")
    if where == "script":
        r = ctx.run([ctx.muon, "internal", "eval", root + "/s/meson.build"], cwd=root + "/s")
    else:
        r = ctx.run([ctx.muon, "setup", root + "/s/b"], cwd=root + "/s")
    if r.crashed:
        raise Fail(r.why())
    err = (r.err + r.out).decode("utf-8", "replace")
    d.note(err)
    if r.rc == 0:
        raise Fail("the program is accepted")
    got = re.findall(r"^message: (m\d+) ?$", err, re.M)
    if got != exp:
        raise Fail("messages %s, not %s" % (got, exp))
    e = re.search(r"^(/.*?):(\d+):(\d+): error (.*)$", err, re.M)
    if not e:
        raise Fail("no error with a place")
    f, line = e.group(1), int(e.group(2))
    if f != root + "/s/" + badfile:
        raise Fail("the error is in %s, not %s" % (f, badfile))
    if not lo <= line <= hi:
        raise Fail("the error is in line %d, not %s (%s)" % (line, "%d to %d" % (lo, hi) if lo != hi else lo, e.group(4)))
    # the line shown with it is that line
    marker(badtext, line, int(e.group(3)), err[e.end():])
    d.nontrivial = lo > 1 or where != "top"


pbt.main(pbt.Spec("C29", case, quick=12000, thorough=150000, builds=("fast",),
                  rule="the mistake is not in the first line of the top file"))
