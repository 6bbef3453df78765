#!/usr/bin/env python3
"""C11: option values against a model of declaration, precedence, yielding, deprecation and validation,
over a first setup, regenerations (with edited declarations) and further setups."""
import os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Fail, write, mstr

NAMES = ["a", "b", "opt-c", "D_4", "e5", "with_x", "f"]
TYPES = ["string", "boolean", "combo", "integer", "array", "feature"]
STRS = ["", "x", "a b", "é☃", "it's", "a=b", "x:y", "back\\slash", "[1]", "true", "-Dq=1", "#c", "$HOME ${x}", '"q"', "@0@", ",", " lead", "a,b", "|", "%s", "*", "ninja$ $:"]
CHOICES = ["one", "two", "three", "auto", "true", "x y", "it's", "1", "", "é", "a=b"]
ELEMS = ["p", "q", "-DX=1", "it's", "a b", "é", "x:y", "back\\", '"', "$", "0", "-Wl,-z,now", "", "[", "p=q"]
PLAIN = ["p", "q", "-DX=1", "it's", "é", "x:y", '"', "$", "0", "p=q", "back\\"]
INTS = [0, 1, -1, 2, 7, 42, -300, 2147483648, 9223372036854775807, -9223372036854775807]
BADNAMES = ["a.b", "x y", "a:b", "é", "a+b"]
BUILTIN = {  # main project and, for the last four, every project
    "buildtype": ("combo", ["plain", "debug", "debugoptimized", "release", "minsize", "custom"], "debugoptimized"),
    "unity_size": ("integer", (2, None), 4),
    "b_lto": ("boolean", None, False),
    "c_args": ("array", None, []),
    "c_link_args": ("array", None, []),
    "pkg_config_path": ("string", None, ""),
    "mandir": ("string", None, "share/man"),
    "auto_features": ("feature", None, "auto"),
    "default_library": ("combo", ["static", "shared", "both"], "static"),
    "warning_level": ("combo", ["0", "1", "2", "3", "everything"], "3"),
    "werror": ("boolean", None, False),
    "c_std": ("combo", ["none", "c89", "c99", "c11", "c17"], "none"),
}
PERPROJ = ["default_library", "warning_level", "werror", "c_std"]


class Opt:
    pass


def lit(t, v):
    """a value as an expression of the build language"""
    if t in ("string", "combo", "feature"):
        return mstr(v)
    if t == "boolean":
        return "true" if v else "false"
    if t == "integer":
        return str(v)
    return "[%s]" % ", ".join(mstr(e) for e in v)


def shown(t, v):
    if t == "boolean":
        return "true" if v else "false"
    if t == "integer":
        return str(v)
    if t == "array":
        return "%d<%s>" % (len(v), "><".join(v))
    return v


def gen_value(d, o):
    t = o.type
    if t == "string":
        return d.choice(STRS)
    if t == "boolean":
        return d.bool()
    if t == "combo":
        return d.choice(o.choices)
    if t == "feature":
        return d.choice(["enabled", "disabled", "auto"])
    if t == "integer":
        lo = o.lo if o.lo is not None else -(1 << 63) + 1
        hi = o.hi if o.hi is not None else (1 << 63) - 1
        c = [i for i in INTS if lo <= i <= hi] + [x for x in (o.lo, o.hi) if x is not None]
        return d.choice(c)
    if o.choices is not None:
        return d.sublist(o.choices, 0.5)
    return d.list(lambda: d.choice(ELEMS), 0, 4)


def text_of(d, o, v):
    """(what is written after '=')"""
    if o.type == "array":
        if v and (any(e == "" or "," in e or e.startswith("[") or e != e.strip() for e in v) or d.bool(0.4)):
            return "[%s]" % ", ".join(mstr(e) for e in v)
        if not v and d.bool(0.3):
            return "[]"
        return ",".join(v)
    return shown(o.type, v)


def bad_text(d, o):
    t = o.type
    taken = set(o.map or {})
    if t == "boolean":
        c = ["yes", "True", "1", "", "truee", "fals", "on"]
    elif t == "combo":
        c = ["nope", "One", "", "one ", "two,one"]
        taken |= set(o.choices)
        c += [d.choice([y for x in o.choices for y in (x[:-1], x[1:], x + "x", x.upper(), x + " ", " " + x, x + "," + x)]) for _ in range(4)]
    elif t == "feature":
        c = ["on", "true", "", "Enabled", "auto,"]
    elif t == "integer":
        c = ["x", "", "1x", "1.5", "--1", "99999999999999999999", "-99999999999999999999", "0x10", "9223372036854775808"]
        if o.lo is not None and o.lo > -(1 << 63) + 5:
            c += [str(o.lo - 1), str(o.lo - 5)] * 3
        if o.hi is not None and o.hi < (1 << 63) - 5:
            c += [str(o.hi + 1), str(o.hi + 3)] * 3
    elif t == "array":
        c = ["['a'", "['p', 1]", "[1]", "['p' 'q']", "[['p']]", "[true]"]
        if o.choices is not None:
            c += ["nope", "['nope']", ",".join([x for x in o.choices if x and "," not in x][:1] + ["nope"])] * 3
            # an element that is nearly a choice: empty, cut short, extended, in another case
            near = {"", " "} | {y for x in o.choices for y in (x[:-1], x[1:], x + "x", x.upper(), x + " ", " " + x)}
            near = sorted(e for e in near if e not in o.choices and e not in taken)
            if near:
                e = d.choice(near)
                c += ["[%s]" % mstr(e), "[%s]" % ", ".join(mstr(x) for x in list(o.choices) + [e]), "[%s]" % ", ".join(mstr(x) for x in [e] + list(o.choices))] * 3
    else:
        return None
    c = [x for x in c if x not in taken]
    return d.choice(c) if c else None


def gen_opt(d, name, builtin=None):
    o = Opt()
    o.name, o.builtin = name, builtin
    o.choices = o.lo = o.hi = o.map = o.rename = None
    o.warn = False
    o.yields = False
    if builtin:
        t, c, v = BUILTIN[builtin]
        o.type, o.default, o.has_value = t, v, True
        if t == "combo":
            o.choices = c
        elif t == "integer":
            o.lo, o.hi = c
        o.yields = builtin in PERPROJ
        return o
    o.type = d.choice(TYPES)
    if o.type == "combo":
        o.choices = d.sublist(CHOICES, 0.4) or [d.choice(CHOICES)]
    elif o.type == "array" and d.bool(0.5):
        o.choices = d.sublist(ELEMS, 0.5)
    elif o.type == "integer":
        a = d.choice(INTS) if d.bool(0.5) else None
        b = d.choice(INTS) if d.bool(0.5) else None
        if a is not None and b is not None and a > b:
            a, b = b, a
        o.lo, o.hi = a, b
    o.has_value = o.type == "integer" or d.bool(0.6)
    if o.has_value:
        o.default = gen_value(d, o)
    else:
        o.default = {"string": "", "boolean": True, "feature": "auto"}.get(o.type)
        if o.type == "combo":
            o.default = o.choices[0]
        elif o.type == "array":
            o.default = list(o.choices) if o.choices is not None else []
    k = d.weighted([(8, "none"), (1, "warn"), (1, "list"), (3, "map")])
    if k == "warn":
        o.warn = True
    elif k == "list":
        o.warn = [d.choice(["x", "one", "true", "p"])]
    elif k == "map":
        vals = [gen_value(d, o) for _ in range(3)]
        if o.type == "array":
            flat = [e for v in vals for e in v if e not in ("", ) and "," not in e]
            if flat:
                o.map = {k2: d.choice(flat) for k2 in d.sublist(["old1", "p", "q", "old2"], 0.6)}
        else:
            o.map = {k2: shown(o.type, d.choice(vals)) for k2 in d.sublist(["old1", "yes", "one", "true", "7", "x"], 0.5)}
        if not o.map:
            o.map = None
    return o


def mapped(o, v, text):
    """the value after the deprecation map; None if it is not valid then"""
    if o.map is None:
        return v
    if o.type == "array":
        r = [o.map.get(e, e) for e in v]
        if o.choices is not None and any(e not in o.choices for e in r):
            return None
        return r
    if text not in o.map:
        return v
    return parse(o, o.map[text])


def parse(o, text):
    t = o.type
    if t == "boolean":
        return {"true": True, "false": False}.get(text)
    if t == "combo":
        return text if text in o.choices else None
    if t == "integer":
        try:
            n = int(text)
        except ValueError:
            return None
        if (o.lo is not None and n < o.lo) or (o.hi is not None and n > o.hi):
            return None
        return n
    if t == "feature":
        return text if text in ("enabled", "disabled", "auto") else None
    return text


def declare(o):
    s = "option(%s, type: %s" % (mstr(o.name), mstr(o.type))
    if o.has_value:
        s += ", value: %s" % lit(o.type, o.default)
    if o.choices is not None:
        s += ", choices: %s" % lit("array", o.choices)
    if o.lo is not None:
        s += ", min: %d" % o.lo
    if o.hi is not None:
        s += ", max: %d" % o.hi
    if o.yields:
        s += ", yield: true"
    if o.rename:
        s += ", deprecated: %s" % mstr(o.rename)
    elif o.map:
        s += ", deprecated: {%s}" % ", ".join("%s: %s" % (mstr(k), mstr(v)) for k, v in o.map.items())
    elif o.warn:
        s += ", deprecated: %s" % ("true" if o.warn is True else lit("array", o.warn))
    return s + ", description: 'd')\n"


def show_expr(o):
    g = "get_option(%s)" % mstr(o.name)
    if o.type in ("boolean", "integer"):
        return g + ".to_string()"
    if o.type == "array":
        return "get_option(%s).length().to_string() + '<' + '><'.join(%s) + '>'" % (mstr(o.name), g)
    if o.type == "feature":
        return "%s.enabled() ? 'enabled' : %s.disabled() ? 'disabled' : %s.auto() ? 'auto' : '?'" % (g, g, g)
    return g


class Proj:
    def __init__(self, name):
        self.name, self.opts, self.list = name, {}, []   # list: project()'s default_options
        self.calls = []  # subprojects it calls
        self.dir = os.path.join("subprojects", name) if name else "."


RANK = {"own": 3, "call": 4, "pre": 4, "cl": 6}


def expected(P, projs, o, sets, auto):
    """set of values the option may have"""
    pn = P.name

    def explicit(o):
        best = None
        for (route, p, name, text, v) in sets:
            if p == pn and name == o.name:
                if best is None or RANK[route] >= RANK[best[0]]:
                    best = (route, mapped(o, v, text))
        return best
    e = explicit(o)
    base = [o.default]
    if o.name == "c_args" and pn == "" and ENV.get("c_args") is not None:
        base = [ENV["c_args"]]
    if o.name == "c_link_args" and pn == "" and ENV.get("c_link_args") is not None:
        base = [ENV["c_link_args"]]
    if o.name == "pkg_config_path" and ENV.get("pkg_config_path"):
        base = [ENV["pkg_config_path"]]
    yielded = None
    if o.yields and pn:
        main = projs[""].opts.get(o.name)
        if main is not None and main.type == o.type:
            yielded = expected(projs[""], projs, main, sets, auto)
    renamed = [r for r in P.opts.values() if r.rename == o.name]
    if yielded is not None:
        if e is None:
            base = yielded
        elif o.builtin:
            return [e[1]]
        else:
            return yielded + [e[1]]
    elif e is not None:
        base = [e[1]]
    for r in renamed:
        re_ = explicit(r)
        if re_ is not None:
            if e is not None or yielded is not None:
                base = base + [re_[1]]
            else:
                base = [re_[1]]
    return base


ENV = {}


def emit(P, projs, d, bad, root):
    base = os.path.join(root, P.dir)
    decl = "".join(declare(o) for o in P.opts.values() if not o.builtin)
    if bad and bad[0] == "decl" and bad[1] == P.name:
        decl += bad[2]
    if decl or d.bool(0.5):
        write(os.path.join(base, P.optfile), decl)
    src = "project(%s" % mstr(P.name or "main")
    if P.list or d.bool(0.2):
        src += ", default_options: %s" % (mstr(P.list[0]) if len(P.list) == 1 and d.bool(0.3) else lit("array", P.list))
    src += ")\ncd = configuration_data()\n"
    for i, o in enumerate(P.opts.values()):
        src += "v = %s\nmessage('VAL', %s, '%d=' + v + ';')\ncd.set('V%d', 'v' + v)\n" % (show_expr(o), mstr(P.name or "main"), i, i)
        if o.type == "array" and o.arr_twice:
            src += "t = get_option(%s)\nt += ['zz']\nassert(%s == v, 'changed by += on a copy')\n" % (mstr(o.name), show_expr(o))
    src += "configure_file(output: 'vals-%s.h', configuration: cd)\n" % (P.name or "main")
    src += "dep = declare_dependency()\n"
    for (s, how, opts, again) in P.calls:
        kw = ", default_options: %s" % lit("array", opts) if opts or again else ""
        if how == "dep":
            src += "dependency('no-such-dep-%s', fallback: ['%s', 'dep']%s)\n" % (s, s, kw)
        else:
            src += "subproject('%s'%s)\n" % (s, kw)
        if again:
            src += "subproject('%s', default_options: %s)\n" % (s, lit("array", again))
    if bad and bad[0] == "call" and bad[1] == P.name:
        src += bad[2]
    src += "# end\n"
    write(os.path.join(base, "meson.build"), src)


def check_vals(out, bdir, projs, sets, auto, what, messages):
    got = {}
    if messages:
        for l in out.split("\n"):
            if l.startswith("message: VAL "):
                p, _, rest = l[len("message: VAL "):].partition(" ")
                k, _, v = rest.partition("=")
                v = v.rstrip(" ")
                if not v.endswith(";"):
                    raise Fail("%s: cannot read %r" % (what, l))
                got[("" if p == "main" else p, int(k))] = v[:-1]
    for P in projs.values():
        f = os.path.join(bdir, P.dir, "vals-%s.h" % (P.name or "main"))
        if not os.path.exists(f):
            raise Fail("%s: %s was not written\n%s" % (what, f, out[-1500:]))
        hdr = {}
        for l in open(f, encoding="utf-8", newline="\n").read().split("\n"):
            if l.startswith("#define V"):
                k, _, v = l[len("#define V"):].partition(" ")
                hdr[int(k)] = v[1:]
        for i, o in enumerate(P.opts.values()):
            want = [shown(o.type, v) for v in expected(P, projs, o, sets, auto)]
            if o.type == "feature" and o.name != "auto_features":
                want = [auto if w == "auto" else w for w in want]
            for src, val in (("message", got.get((P.name, i)) if messages else None), ("configure_file", hdr.get(i))):
                if val is None and src == "message" and not messages:
                    continue
                if val not in want:
                    raise Fail("%s: option %s of project %s (%s) is %r by %s, expected %s\nset by: %s" % (
                        what, o.name, P.name or "main", o.type, val, src, " or ".join(repr(w) for w in want),
                        [s for s in sets if s[1] == P.name and s[2] == o.name]))


def case(d, ctx):
    global ENV
    root = ctx.fresh()
    nsub = d.weighted([(2, 0), (4, 1), (3, 2)])
    projs = {"": Proj("")}
    for i in range(nsub):
        projs["s%d" % (i + 1)] = Proj("s%d" % (i + 1))
    main = projs[""]
    sets = []
    # declarations
    for P in projs.values():
        P.optfile = d.choice(["meson_options.txt", "meson.options"])
        for n in d.sublist(NAMES, 0.5):
            P.opts[n] = gen_opt(d, n)
            m = main.opts.get(n)
            if P.name and m is not None and d.bool(0.7):
                o = P.opts[n]
                if d.bool(0.75):
                    w = o.default, o.has_value
                    for k in ("type", "choices", "lo", "hi"):
                        setattr(o, k, getattr(m, k))
                    o.map = None
                    if o.type == "integer" or o.has_value:
                        o.has_value = True
                        o.default = gen_value(d, o)
                    else:
                        o.default = m.default if not m.has_value else gen_value(d, o)
                        o.has_value = m.has_value
                    o.yields = True
                elif o.type != m.type:
                    o.yields = True
            elif P.name and m is None and d.bool(0.2):
                P.opts[n].yields = True
        for b in (d.sublist(list(BUILTIN), 0.35) if not P.name else d.sublist(PERPROJ, 0.3)):
            P.opts[b] = gen_opt(d, b, b)
        # a renamed option
        plain = [o for o in P.opts.values() if not o.builtin and not o.yields]
        if plain and d.bool(0.3):
            n = d.choice(plain)
            r = gen_opt(d, "old-name")
            for k in ("type", "choices", "lo", "hi"):
                setattr(r, k, getattr(n, k))
            r.map, r.warn = None, False
            n.map, n.warn = None, False
            r.has_value, r.default = True, gen_value(d, n)
            r.rename = n.name
            P.opts["old-name"] = r
            d.label("rename")
        for o in P.opts.values():
            o.arr_twice = d.bool(0.3)
    # per-project builtins are shown wherever main sets them
    # who calls whom
    callers = {}
    for i, s in enumerate([p for p in projs if p]):
        c = "" if i == 0 or d.bool(0.6) else "s1"
        callers[s] = c
        if c:
            projs[s].dir = os.path.join(projs[c].dir, "subprojects", s)
        projs[c].calls.append([s, d.weighted([(3, "sub"), (1, "dep")]), [], []])
    cl = []

    def gen_set(P, o):
        for _ in range(8):
            if o.map and d.bool(0.5):
                if o.type == "array":
                    v = [k for k in d.sublist(list(o.map), 0.7)] + ([d.choice(o.choices or PLAIN)] if (o.choices is None or o.choices) and d.bool(0.5) else [])
                    v = d.shuffle(v) or v
                    if d.bool(0.3):
                        v = v + v[:1]
                    t = text_of(d, o, v)
                    if mapped(o, v, t) is None:
                        continue
                    d.label("map-array")
                    return t, v
                t = d.choice(list(o.map))
                if parse(o, o.map[t]) is None:
                    continue
                d.label("map")
                return t, None
            v = gen_value(d, o)
            t = text_of(d, o, v)
            if mapped(o, v, t) is None:
                continue
            return t, v
        return None

    # settings
    for P in projs.values():
        for o in list(P.opts.values()):
            if P.name:
                routes = [("own", 0.25), (d.choice(["call", "pre"]), 0.3), ("cl", 0.3)]
            else:
                routes = [("own", 0.3), ("cl", 0.35)]
            if o.rename:
                routes = [(r, p + 0.2) for r, p in routes]
            for r, p in routes:
                for _ in range(2 if d.bool(0.1) else 1):
                    if not d.bool(p):
                        continue
                    if o.builtin in ("c_args", "c_link_args") and r == "own":
                        continue
                    tv = gen_set(P, o)
                    if tv is None:
                        continue
                    sets.append((r, P.name, o.name, tv[0], tv[1]))
    by = {}
    for s in sets:
        by.setdefault((s[1], s[2]), set()).add(s[0])
    sets = d.shuffle(sets) or sets
    for (r, p, n, t, v) in sets:
        if r == "own":
            projs[p].list.append("%s=%s" % (n, t))
        elif r == "pre":
            main.list.append("%s:%s=%s" % (p, n, t))
        elif r == "call":
            [c for c in projs[callers[p]].calls if c[0] == p][0][2].append("%s=%s" % (n, t))
        else:
            cl.append("%s%s=%s" % (p + ":" if p else "", n, t))
    for P in projs.values():
        for c in P.calls:
            q = projs[c[0]]
            os_ = [o for o in q.opts.values() if not o.builtin]
            if os_ and d.bool(0.15):
                o = d.choice(os_)
                c[3] = ["%s=%s" % (o.name, text_of(d, o, gen_value(d, o)))] if not o.map else []
    # a subproject cannot set what belongs to the whole build
    for P in projs.values():
        if P.name and d.bool(0.2):
            g = d.choice(["buildtype", "mandir", "unity_size", "b_lto"])
            if g not in main.opts:
                main.opts[g] = gen_opt(d, g, g)
                main.opts[g].arr_twice = False
            t = text_of(d, main.opts[g], gen_value(d, main.opts[g]))
            lst = P.list if d.bool() else [c for c in projs[callers[P.name]].calls if c[0] == P.name][0][2]
            lst.insert(d.int(0, len(lst)), "%s=%s" % (g, t))
            d.label("global-in-sub")
    # environment
    ENV = {}
    env = {}
    if d.bool(0.4):
        fl = lambda: d.list(lambda: d.choice(["-DA=1", "-Wl,-z,now", "-O1", "-DS=\"x\"", "-I/x", "-D'Q'", "-DB=\\", "-DA=1", "[x", "a:b", "$p"]), 0, 3)
        for var in ("CFLAGS", "CPPFLAGS", "LDFLAGS"):
            if d.bool(0.6):
                f = fl()
                env[var] = d.choice([" ", "  "]).join(f)
                ENV[var] = f
        c = ENV.get("CFLAGS", [])
        if c + ENV.get("CPPFLAGS", []):
            ENV["c_args"] = c + ENV.get("CPPFLAGS", [])
        if c + ENV.get("LDFLAGS", []):
            ENV["c_link_args"] = c + ENV.get("LDFLAGS", [])
        if d.bool(0.4):
            env["PKG_CONFIG_PATH"] = ENV["pkg_config_path"] = d.choice(["/x/y:/z", "rel", "/a b/c", "/it's", "/c,d"])
        for b in ("c_args", "c_link_args", "pkg_config_path"):
            if b not in main.opts and d.bool(0.6):
                main.opts[b] = gen_opt(d, b, b)
                main.opts[b].arr_twice = d.bool(0.3)
        d.label("env")
    auto = "auto"
    e = [s for s in sets if s[1] == "" and s[2] == "auto_features"]
    if "auto_features" in main.opts:
        auto = expected(main, projs, main.opts["auto_features"], sets, "auto")[0]
    # what is wrong, if anything
    bad = None
    if d.bool(0.3):
        P = d.choice(list(projs.values()))
        kind = d.weighted([(4, "value"), (3, "decl"), (1, "unknown-cl"), (1, "noproj"), (1, "malformed"), (1, "unknown-default"), (1, "malformed-default")])
        user = [o for o in P.opts.values()]
        if kind == "value" and user:
            o = d.choice(user)
            t = bad_text(d, o)
            route = d.choice(["own", "cl"] if not P.name else ["own", "call", "cl"])
            if t is not None and not any(s[1] == P.name and s[2] in (o.name, "old-name") for s in sets) and not (o.builtin in ("c_args", "c_link_args", "pkg_config_path")):
                s = "%s=%s" % (o.name, t)
                bad = ("value", P.name, s, route)
                if route == "own":
                    P.list.insert(d.int(0, len(P.list)), s)
                elif route == "call":
                    c = [c for c in projs[callers[P.name]].calls if c[0] == P.name][0]
                    c[2].insert(d.int(0, len(c[2])), s)
                else:
                    cl.insert(d.int(0, len(cl)), (P.name + ":" if P.name else "") + s)
        elif kind == "decl":
            x = d.choice([
                "option('zz', type: 'combo', choices: ['a', 'b'], value: 'c')",
                "option('zz', type: 'combo', choices: [])",
                "option('zz', type: 'combo', value: 'a')",
                "option('zz', type: 'combo', choices: ['a'], value: ['a'])",
                "option('zz', type: 'integer', value: 5, min: 6)",
                "option('zz', type: 'integer', value: 5, max: 4)",
                "option('zz', type: 'integer', value: 'x')",
                "option('zz', type: 'integer', value: true)",
                "option('zz', type: 'boolean', value: 'maybe')",
                "option('zz', type: 'boolean', value: 1)",
                "option('zz', type: 'string', value: 1)",
                "option('zz', type: 'string', value: true)",
                "option('zz', type: 'string', choices: ['a'])",
                "option('zz', type: 'string', min: 1)",
                "option('zz', type: 'boolean', max: 1)",
                "option('zz', type: 'array', value: 7)",
                "option('zz', type: 'array', value: ['a', 'c'], choices: ['a', 'b'])",
                "option('zz', type: 'array', value: ['a', 1])",
                "option('zz', type: 'array', value: [['a']])",
                "option('zz', type: 'feature', value: 'on')",
                "option('zz', type: 'feature', value: true)",
                "option('zz', type: 'feature', choices: ['enabled'])",
                "option('zz', type: 'nonsense')",
                "option('zz', value: 'x')",
                "option('zz', type: 'string', colour: 'x')",
                "option('zz', type: 'string', yield: 'x')",
                "option('zz', type: 'string')\noption('zz', type: 'string')",
                "option('zz', type: 'string')\noption('zz', type: 'boolean', value: true)",
                "option('buildtype', type: 'string')",
                "option(%s, type: 'string')" % mstr(d.choice(BADNAMES)),
                "option('zz', 'yy', type: 'string')",
                "option(type: 'string')",
            ])
            bad = ("decl", P.name, x + "\n")
        elif kind == "unknown-cl":
            s = (P.name + ":" if P.name else "") + d.choice(["nosuch", "a_", "Buildtype", "A"]) + "=1"
            cl.insert(d.int(0, len(cl)), s)
            bad = ("unknown", s)
        elif kind == "noproj":
            s = d.choice(["s9", "main", "S1", "s"]) + ":" + d.choice(NAMES) + "=1"
            cl.insert(d.int(0, len(cl)), s)
            bad = ("noproj", s)
        elif kind == "malformed":
            s = d.choice(["a", "=x", ":a=1", "s1:", "s1:x:a=1", "", "s1:=1"])
            cl.insert(d.int(0, len(cl)), s)
            bad = ("malformed", s)
        elif kind == "unknown-default":
            P.list.insert(d.int(0, len(P.list)), d.choice(["nosuch=1", "a_=x"]))
            bad = ("unknown-default",)
        elif kind == "malformed-default":
            P.list.insert(d.int(0, len(P.list)), d.choice(["a", "=x", "x y", ""]))
            bad = ("malformed-default",)
        if bad:
            d.label("bad:" + bad[0])
    for P in projs.values():
        emit(P, projs, d, bad, root)
    d.nontrivial = bad is not None or any(len(v) > 1 for v in by.values()) or any(o.yields for P in projs.values() for o in P.opts.values())
    bdir = os.path.join(root, "b")

    def setup(cl, env, build):
        argv = [ctx.muon, "setup"]
        for s in cl:
            argv += ["-D", s] if d.bool(0.3) else ["-D" + s]
        return ctx.run(argv + [build], cwd=root, env=env, merge=True)
    r = setup(cl, env, "b")
    out = r.out.decode("utf-8", "replace")
    d.note("setup %s (env %s) -> %d\n%s" % (cl, env, r.rc, out[-1200:]))
    if r.crashed:
        raise Fail("muon setup crashed: %s\n%s" % (r.why(), out[-1500:]))
    if bad:
        if r.rc == 0:
            raise Fail("accepted although wrong: %s\nsetup %s\n%s" % (bad, cl, out[-1500:]))
        return
    if r.rc != 0:
        raise Fail("setup failed\n-D %s\n%s" % (cl, out[-2500:]))
    check_vals(out, bdir, projs, sets, auto, "setup", True)
    # history
    for step in range(d.weighted([(3, 0), (3, 1), (2, 2), (1, 3)])):
        how = d.weighted([(3, "touch"), (3, "redeclare"), (2, "setup")])
        d.label("step:" + how)
        time.sleep(0.013)
        if how == "redeclare":
            P = d.choice(list(projs.values()))
            os_ = [o for o in P.opts.values() if not o.builtin]
            if os_:
                o = d.choice(os_)
                o.has_value, o.default = True, gen_value(d, o)
            new = gen_opt(d, "new%d" % step)
            new.arr_twice = False
            P.opts[new.name] = new
            emit(P, projs, d, None, root)
        elif how == "touch":
            P = d.choice(list(projs.values()))
            f = os.path.join(root, P.dir, "meson.build")
            with open(f, "a") as fh:
                fh.write("# again\n")
        for P in projs.values():
            f = os.path.join(bdir, P.dir, "vals-%s.h" % (P.name or "main"))
            if os.path.exists(f):
                os.remove(f)
        if how == "setup":
            # a new setup starts from its own command line
            sets = [s for s in sets if s[0] != "cl"]
            cl = []
            for P in projs.values():
                for o in P.opts.values():
                    if d.bool(0.3):
                        tv = gen_set(P, o)
                        if tv:
                            sets.append(("cl", P.name, o.name) + tv)
                            cl.append("%s%s=%s" % (P.name + ":" if P.name else "", o.name, tv[0]))
            auto = "auto"
            if "auto_features" in main.opts:
                auto = expected(main, projs, main.opts["auto_features"], sets, "auto")[0]
            r = setup(cl, env, "b")
        else:
            r = ctx.run([ctx.muon, "samu"], cwd=bdir, env={}, merge=True)
        out = r.out.decode("utf-8", "replace")
        d.note("%s -> %d\n%s" % (how, r.rc, out[-800:]))
        if r.crashed or r.rc != 0:
            raise Fail("%s failed (%s)\n-D %s env %s\n%s" % (how, r.why(), cl, env, out[-2000:]))
        if how != "setup" and "Regenerating" not in out:
            raise Fail("samu did not regenerate after %s\n%s" % (how, out[-800:]))
        check_vals(out, bdir, projs, sets, auto, "step %d (%s), first set up with %s" % (step, how, cl), how == "setup")


if __name__ == "__main__":
    pbt.main(pbt.Spec(
        "C11", case, quick=2500, thorough=40000,
        rule="an option is set by more than one source or yields, or the input has exactly one thing that must be refused",
        assumptions=["the order among a yielding user option's own settings and the parent's value is left open, as is a renamed option whose new name is set as well",
                     "values with line breaks are outside (a ninja command line cannot hold them)"]))
