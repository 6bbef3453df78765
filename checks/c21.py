#!/usr/bin/env python3
"""C21: script functions against an evaluator of closures, scopes, typed arguments and returns."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Fail, Reject, write, mstr

sys.setrecursionlimit(5000)


class Void:
    def __repr__(self):
        return "void"


VOID = Void()


class Err(Exception):
    pass


class Ret(Exception):
    pass


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class Func:
    def __init__(self, name, params, ret, body, scopes, defaults):
        self.name, self.params, self.ret, self.body, self.scopes, self.defaults = name, params, ret, body, scopes, defaults


def typeof(v):
    if v is VOID:
        return "void"
    if isinstance(v, bool):
        return "bool"
    return {int: "int", str: "str", list: "list", dict: "dict", Func: "func"}[type(v)]


def matches(v, t):
    """t: None (nothing), a name, or ('or', [..]), ('list', t), ('dict', t)"""
    if t is None or t == "void":
        return v is VOID
    if v is VOID:
        return False
    if t == "any":
        return True
    if isinstance(t, str):
        return typeof(v) == t
    if t[0] == "or":
        return any(matches(v, x) for x in t[1])
    if t[0] == "list":
        return isinstance(v, list) and all(matches(x, t[1]) for x in v)
    return isinstance(v, dict) and all(matches(x, t[1]) for x in v.values())


def tname(t):
    if isinstance(t, str):
        return t
    if t[0] == "or":
        return "|".join(tname(x) for x in t[1])
    return "%s[%s]" % (t[0], tname(t[1]))


def flat(v):
    out = []
    for x in v:
        if isinstance(x, list):
            out += flat(x)
        else:
            out.append(x)
    return out


def listable(t):
    return t == "any" or (isinstance(t, tuple) and (t[0] == "list" or (t[0] == "or" and any(listable(x) for x in t[1]))))


def bind(v, t):
    """the value a parameter declared with t gets"""
    if isinstance(t, tuple) and t[0] == "listify":
        xs = flat(v) if isinstance(v, list) else [v]
        if not all(matches(x, t[1]) for x in xs):
            raise Err("listify")
        return xs
    if not matches(v, t):
        raise Err("type")
    return v


def copy(v):
    if isinstance(v, list):
        return list(v)
    if isinstance(v, dict):
        return dict(v)
    return v


def show(v, inner=False):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return "'%s'" % v if inner else v
    if isinstance(v, list):
        return "[" + ",".join(show(x, True) for x in v) + "]"
    if isinstance(v, dict):
        return "{" + ",".join("'%s':%s" % (k, show(x, True)) for k, x in v.items()) + "}"
    return "<objvoid>" if v is VOID else "<objfunc>"


class Machine:
    def __init__(self):
        self.stack = [{}]
        self.out = []
        self.steps = 0
        self.calls = 0
        self.depth = 0
        self.labels = set()

    def look(self, n):
        for s in reversed(self.stack):
            if n in s:
                return s
        return None

    def same(self, a, b):
        if typeof(a) != typeof(b):
            return False
        if isinstance(a, list):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, dict):
            return set(a) == set(b) and all(self.same(a[k], b[k]) for k in a)
        if isinstance(a, Func):
            raise Reject
        return a == b

    def ev(self, e):
        self.steps += 1
        if self.steps > 4000:
            raise Reject
        v = self.ev_(e)
        if isinstance(v, int) and abs(v) >= 1 << 62 or isinstance(v, (str, list, dict)) and len(v) > 200:
            raise Reject
        return v

    def ev_(self, e):
        k = e[0]
        if k == "lit":
            return copy(e[1])
        if k == "var":
            s = self.look(e[1])
            if s is None:
                raise Err("undefined")
            if len(self.stack) > 1 and s is not self.stack[-1]:
                self.labels.add("captured")
            return s[e[1]]
        if k == "bin":
            a, b = self.ev(e[2]), self.ev(e[3])
            return self.add(a, b) if e[1] == "+" else self.mul(a, b)
        if k == "eq":
            r = self.same(self.ev(e[1]), self.ev(e[2]))
            return r
        if k == "lt":
            a, b = self.ev(e[1]), self.ev(e[2])
            if typeof(a) != "int" or typeof(b) != "int":
                raise Err("<")
            return a < b
        if k == "not":
            v = self.ev(e[1])
            if typeof(v) != "bool":
                raise Err("not")
            return not v
        if k in ("and", "or"):
            v = self.ev(e[1])
            if typeof(v) != "bool":
                raise Err(k)
            if v == (k == "or"):
                return v
            v = self.ev(e[2])
            if typeof(v) != "bool":
                raise Err(k)
            return v
        if k == "tern":
            c = self.ev(e[1])
            if typeof(c) != "bool":
                raise Err("tern")
            return self.ev(e[2] if c else e[3])
        if k == "list":
            return [self.ev(x) for x in e[1]]
        if k == "dict":
            return {n: self.ev(x) for n, x in e[1]}
        if k == "idx":
            a, b = self.ev(e[1]), self.ev(e[2])
            if isinstance(a, list) and typeof(b) == "int" and -len(a) <= b < len(a):
                return a[b]
            if isinstance(a, dict) and isinstance(b, str) and b in a:
                return a[b]
            raise Err("index")
        if k == "len":
            a = self.ev(e[1])
            if not isinstance(a, list):
                raise Err("length")
            return len(a)
        if k == "isvoid":
            return self.ev(e[1]) is VOID
        if k == "typeof":
            return typeof(self.ev(e[1]))
        if k == "isvar":
            return self.look(e[1]) is not None
        if k == "getvar":
            f = self.ev(e[2]) if e[2] else None
            if f is VOID:
                raise Err("get_variable")
            s = self.look(e[1])
            if s is None:
                if e[2] is None:
                    raise Err("get_variable")
                return f
            return s[e[1]]
        if k == "call":
            return self.call(e)
        raise AssertionError(k)

    def add(self, a, b):
        ta, tb = typeof(a), typeof(b)
        if ta == "list":
            return a + (b if tb == "list" else [b])
        if ta != tb or ta not in ("int", "str", "dict"):
            raise Err("+")
        if ta == "dict":
            return dict(a, **b)
        return a + b

    def mul(self, a, b):
        if typeof(a) != "int" or typeof(b) != "int":
            raise Err("*")
        return a * b

    def call(self, e):
        _, fe, pos, kws = e
        f = self.ev(fe)
        if not isinstance(f, Func):
            raise Err("not a function")
        ps = [p for p in f.params if not p[2]]
        ks = {p[0]: p for p in f.params if p[2]}
        vals = {}
        args = list(pos)
        for name, t, _, _ in ps:
            if isinstance(t, tuple) and t[0] == "glob":
                got = []
                while args:
                    v = self.ev(args.pop(0))
                    if isinstance(v, list) and not listable(t[1]):
                        got += bind(v, ("listify", t[1]))
                    else:
                        got.append(bind(v, t[1]))
                vals[name] = got
                continue
            if not args:
                raise Err("missing argument")
            vals[name] = bind(self.ev(args.pop(0)), t)
        if args:
            raise Err("too many arguments")
        for kw, v in kws:
            v = self.ev(v)
            items = [(kw, v)]
            if kw == "kwargs":
                if not isinstance(v, dict):
                    raise Err("kwargs")
                items = list(v.items())
            for kw, v in items:
                if kw not in ks:
                    raise Err("unknown kwarg")
                v = bind(v, ks[kw][1])
                if kw in vals:
                    raise Err("set twice")
                vals[kw] = v
        for n in ks:
            if n not in vals:
                vals[n] = f.defaults[n]
                self.labels.add("default")
        saved = self.stack
        self.stack = f.scopes + [{n: copy(v) for n, v in vals.items()}]
        self.calls += 1
        self.depth += 1
        if self.depth > 40:
            raise Reject
        if self.depth > 2:
            self.labels.add("nested calls")
        try:
            r = VOID
            try:
                self.block(f.body)
            except Ret as x:
                r = copy(x.args[0])
        finally:
            self.stack = saved
            self.depth -= 1
        if not matches(r, f.ret):
            raise Err("return type")
        return r

    def block(self, body):
        for s in body:
            self.stmt(s)

    def stmt(self, s):
        self.steps += 1
        k = s[0]
        if k == "assign":
            v = self.ev(s[2])
            if v is VOID:
                raise Err("void assigned")
            self.stack[-1][s[1]] = copy(v)
        elif k == "setvar":
            v = self.ev(s[2])
            if v is VOID:
                raise Err("void assigned")
            self.stack[-1][s[1]] = v
        elif k == "unset":
            sc = self.look(s[1])
            if sc is None:
                raise Err("unset")
            del sc[s[1]]
        elif k == "delete":
            o = self.ev(("var", s[1]))
            if typeof(o) != "dict":
                raise Err("delete")
            if self.look(s[1]) is not self.stack[-1]:
                self.labels.add("captured dict changed")
            o.pop(s[2], None)
        elif k == "plus":
            sc = self.look(s[1])
            if sc is None:
                raise Err("undefined")
            old = sc[s[1]]
            v = self.ev(s[2])
            captured = sc is not self.stack[-1]
            # what is shared by the closures that captured it changes in place
            if isinstance(old, (list, str)) and len(old) > 200:
                raise Reject
            if captured and isinstance(old, list):
                old.extend(v if isinstance(v, list) else [v])
                self.labels.add("captured list changed")
            elif captured and isinstance(old, dict) and isinstance(v, dict):
                old.update(v)
                self.labels.add("captured dict changed")
            else:
                sc = self.look(s[1])
                sc[s[1]] = self.add(old, v)
                if captured:
                    self.labels.add("captured value changed")
        elif k == "expr":
            self.ev(s[1])
        elif k == "msg":
            vs = []
            for x in s[2]:
                vs.append(self.ev(x))
                if vs[-1] is VOID or isinstance(vs[-1], Func):
                    raise Err("message")
            self.out.append("message:" + s[1] + "".join(show(v) for v in vs))
        elif k == "if":
            for c, b in s[1]:
                v = self.ev(c)
                if typeof(v) != "bool":
                    raise Err("if")
                if v:
                    self.block(b)
                    return
            if s[2] is not None:
                self.block(s[2])
        elif k == "foreach":
            it = self.ev(s[2])
            if not isinstance(it, list):
                raise Err("foreach")
            for v in list(it):
                self.stack[-1][s[1]] = v
                try:
                    self.block(s[3])
                except Brk:
                    break
                except Cnt:
                    continue
        elif k == "foreachd":
            it = self.ev(s[3])
            if not isinstance(it, dict):
                raise Err("foreach")
            for n, v in list(it.items()):
                self.stack[-1][s[1]] = n
                self.stack[-1][s[2]] = v
                try:
                    self.block(s[4])
                except Brk:
                    break
                except Cnt:
                    continue
        elif k == "range":
            for v in range(*s[2]):
                self.stack[-1][s[1]] = v
                try:
                    self.block(s[3])
                except Brk:
                    break
                except Cnt:
                    continue
        elif k == "return":
            raise Ret(self.ev(s[1]) if s[1] is not None else VOID)
        elif k == "break":
            raise Brk
        elif k == "continue":
            raise Cnt
        elif k == "func":
            scopes = [dict(x) for x in self.stack]
            defaults = {}
            names = set()
            glob = kw = False
            for n, t, iskw, dflt in s[2]:
                if n in names:
                    raise Err("declared twice")
                names.add(n)
                g = isinstance(t, tuple) and t[0] == "glob"
                if (glob and not iskw) or (g and iskw) or (kw and not iskw):
                    raise Err("signature")
                glob = glob or g
                kw = kw or iskw
                if iskw:
                    v = VOID if dflt is None else self.ev(dflt)
                    # a call that returns nothing gives no default
                    defaults[n] = v if v is VOID else bind(v, t)
            self.stack[-1][s[1]] = Func(s[1], s[2], s[3], s[4], scopes, defaults)
        else:
            raise AssertionError(k)


def ltext(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, int):
        return str(v) if v >= 0 else "(%d)" % v
    if isinstance(v, str):
        return mstr(v)
    if isinstance(v, list):
        return "[%s]" % ", ".join(ltext(x) for x in v)
    return "{%s}" % ", ".join("%s: %s" % (mstr(k), ltext(x)) for k, x in v.items())


def etext(e):
    k = e[0]
    if k == "lit":
        return ltext(e[1])
    if k == "var":
        return e[1]
    if k == "bin":
        return "(%s %s %s)" % (etext(e[2]), e[1], etext(e[3]))
    if k == "eq":
        return "(%s == %s)" % (etext(e[1]), etext(e[2]))
    if k == "lt":
        return "(%s < %s)" % (etext(e[1]), etext(e[2]))
    if k == "not":
        return "(not %s)" % etext(e[1])
    if k in ("and", "or"):
        return "(%s %s %s)" % (etext(e[1]), k, etext(e[2]))
    if k == "tern":
        return "(%s ? %s : %s)" % tuple(etext(x) for x in e[1:])
    if k == "list":
        return "[%s]" % ", ".join(etext(x) for x in e[1])
    if k == "dict":
        return "{%s}" % ", ".join("%s: %s" % (mstr(n), etext(x)) for n, x in e[1])
    if k == "idx":
        return "%s[%s]" % (etext(e[1]), etext(e[2]))
    if k == "len":
        return "%s.length()" % etext(e[1])
    if k == "isvoid":
        return "is_void(%s)" % etext(e[1])
    if k == "typeof":
        return "typeof(%s)" % etext(e[1])
    if k == "isvar":
        return "is_variable(%s)" % mstr(e[1])
    if k == "getvar":
        return "get_variable(%s%s)" % (mstr(e[1]), ", " + etext(e[2]) if e[2] else "")
    return "%s(%s)" % (etext(e[1]), ", ".join([etext(x) for x in e[2]] + ["%s: %s" % (n, etext(x)) for n, x in e[3]]))


def stext(s, ind, out):
    p = "  " * ind
    k = s[0]
    if k == "assign":
        out.append(p + "%s = %s" % (s[1], etext(s[2])))
    elif k == "setvar":
        out.append(p + "set_variable(%s, %s)" % (mstr(s[1]), etext(s[2])))
    elif k == "unset":
        out.append(p + "unset_variable(%s)" % mstr(s[1]))
    elif k == "delete":
        out.append(p + "%s.delete(%s)" % (s[1], mstr(s[2])))
    elif k == "plus":
        out.append(p + "%s += %s" % (s[1], etext(s[2])))
    elif k == "expr":
        out.append(p + etext(s[1]))
    elif k == "msg":
        out.append(p + "message(%s)" % ", ".join([mstr(s[1])] + [etext(x) for x in s[2]]))
    elif k == "if":
        for i, (c, b) in enumerate(s[1]):
            out.append(p + "%s %s" % ("elif" if i else "if", etext(c)))
            btext(b, ind + 1, out)
        if s[2] is not None:
            out.append(p + "else")
            btext(s[2], ind + 1, out)
        out.append(p + "endif")
    elif k == "foreach":
        out.append(p + "foreach %s : %s" % (s[1], etext(s[2])))
        btext(s[3], ind + 1, out)
        out.append(p + "endforeach")
    elif k == "foreachd":
        out.append(p + "foreach %s, %s : %s" % (s[1], s[2], etext(s[3])))
        btext(s[4], ind + 1, out)
        out.append(p + "endforeach")
    elif k == "range":
        out.append(p + "foreach %s : range(%s)" % (s[1], ", ".join(map(str, s[2]))))
        btext(s[3], ind + 1, out)
        out.append(p + "endforeach")
    elif k == "return":
        out.append(p + ("return %s" % etext(s[1]) if s[1] is not None else "return"))
    elif k in ("break", "continue"):
        out.append(p + k)
    elif k == "func":
        ps = []
        for n, t, iskw, dflt in s[2]:
            ps.append("%s %s%s" % (n, tname(t), "" if not iskw else ":" if dflt is None else ": " + etext(dflt)))
        out.append(p + "func %s(%s)%s" % (s[1], ", ".join(ps), "" if s[3] is None else " -> " + tname(s[3])))
        btext(s[4], ind + 1, out)
        out.append(p + "endfunc")


def btext(b, ind, out):
    for s in b:
        stext(s, ind, out)


BASE = ["int", "str", "bool", "list", "dict"]
PRE = {"int": "i", "str": "s", "bool": "b", "list": "l", "dict": "d", "func": "g"}
SPEC = {
    "int": ["int", "int", "any", ("or", ["int", "str"]), ("or", [("list", "int"), "int"])],
    "str": ["str", "str", "any", ("or", ["str", "bool"])],
    "bool": ["bool", "any", ("or", ["bool", "int"])],
    "list": [("list", "int"), ("list", "any"), ("list", ("or", ["int", "str"])), "any", ("or", ["str", ("list", "int")])],
    "dict": [("dict", "int"), ("dict", "any"), "any"],
}
# the function type that is passed around: (int) -> int
SIG1 = dict(params=[("x", "int", False, None)], types=["int"], ret="int", id="int1")


class Gen:
    def __init__(self, d):
        self.d = d
        self.n = 0
        self.size = 0
        self.filler = []

    def fresh(self):
        self.n += 1
        return self.n

    # env: name -> base type, or ("func", sig), or ("maybe", base)
    def names(self, env, t):
        return [n for n, x in env.items() if x == t]

    def lit(self, t):
        d = self.d
        if t == "int":
            return ("lit", d.int(0, 9))
        if t == "str":
            return ("lit", d.choice(["a", "b", "", "xy"]))
        if t == "bool":
            return ("lit", d.bool())
        if t == "list":
            return ("lit", [d.int(0, 9) for _ in range(d.int(0, 3))])
        return ("lit", {k: d.int(0, 9) for k in d.sublist(["a", "b", "c"], 0.5)})

    def ex(self, env, t, n=3):
        d = self.d
        self.size += 1
        if self.size > 250:
            return self.lit(t)
        vs = self.names(env, t)
        fs = [x for x, ty in env.items() if isinstance(ty, tuple) and ty[0] == "func" and ty[1]["ret"] == t]
        if n > 0 and fs and d.bool(0.45):
            f = d.choice(fs)
            return self.call(env, ("var", f), env[f][1], n - 1)
        ff = [x for x, ty in env.items() if isinstance(ty, tuple) and ty[0] == "func" and ty[1]["ret"] == ("func", "int1")]
        if n > 0 and t == "int" and ff and d.bool(0.3):
            f = d.choice(ff)
            self.d.label("call of a returned function")
            return ("call", self.call(env, ("var", f), env[f][1], n - 1), [self.ex(env, "int", n - 1)], [])
        if n <= 0 or d.bool(0.25):
            ms = self.names(env, ("maybe", t))
            if ms and d.bool(0.5):
                m = d.choice(ms)
                return ("tern", ("isvoid", ("var", m)), self.lit(t), ("var", m))
            return ("var", d.choice(vs)) if vs and d.bool(0.75) else self.lit(t)
        e = lambda ty: self.ex(env, ty, n - 1)
        if d.bool(0.12):
            return ("tern", e("bool"), e(t), e(t))
        if d.bool(0.06):
            nm = d.choice(vs) if vs and d.bool() else "no_such_name"
            return ("getvar", nm, e(t))
        if t == "int":
            k = d.int(0, 4)
            if k == 0:
                return ("len", e("list"))
            if k == 1:
                x = self.lit("list")
                x[1].append(3)
                return ("idx", ("list", [("lit", y) for y in x[1]] + [e("int")]), ("lit", d.int(-1, 0)))
            if k == 2:
                one = self.sig1(env)
                if one:
                    self.d.label("call through a container")
                    f = d.choice([("idx", ("dict", [("f", one)]), ("lit", "f")), ("idx", ("list", [one]), ("lit", 0))])
                    return ("call", f, [e("int")], [])
            return ("bin", d.choice(["+", "*"]), e("int"), e("int"))
        if t == "str":
            if d.bool(0.2):
                return ("typeof", self.ex(env, d.choice(BASE), n - 1))
            return ("bin", "+", e("str"), e("str"))
        if t == "bool":
            k = d.int(0, 4)
            if k == 0:
                return ("not", e("bool"))
            if k == 1:
                ty = d.choice(BASE)
                return ("eq", e(ty), e(ty))
            if k == 2:
                return ("lt", e("int"), e("int"))
            if k == 3:
                return ("isvar", d.choice(list(env) + ["no_such_name", "i0", "s0"]))
            return (d.choice(["and", "or"]), e("bool"), e("bool"))
        if t == "list":
            if d.bool():
                return ("list", [e("int") for _ in range(d.int(0, 3))])
            return ("bin", "+", e("list"), e(d.choice(["list", "int"])))
        if d.bool():
            return ("dict", [(k, e("int")) for k in d.sublist(["a", "b", "c"], 0.5)])
        return ("bin", "+", e("dict"), e("dict"))

    def sig1(self, env):
        """an expression for a function (int) -> int"""
        xs = [n for n, ty in env.items() if ty == ("func", SIG1) or (isinstance(ty, tuple) and ty[0] == "func" and ty[1].get("id") == "int1")]
        return ("var", self.d.choice(xs)) if xs else None

    def call(self, env, f, sig, n, fault=None):
        d = self.d
        self.size += 1
        pos, kws = [], []
        for (name, t, iskw, dflt), base in zip(sig["params"], sig["types"]):
            if base == "self":
                pos.append(f if d.bool(0.5) else ("var", f[1]))
                continue
            if base == "sig1":
                x = self.sig1(env)
                if x is None:
                    raise Reject
                pos.append(x)
                continue
            if isinstance(t, tuple) and t[0] == "glob":
                for _ in range(d.int(0, 3)):
                    if base == "int" and d.bool(0.3):
                        pos.append(d.choice([self.ex(env, "list", n), ("list", [("list", [self.ex(env, "int", 0)]), self.ex(env, "int", n)])]))
                    else:
                        pos.append(self.ex(env, base, n))
                continue
            if isinstance(t, tuple) and t[0] == "listify" and d.bool():
                v = d.choice([("list", []), ("list", [self.ex(env, base, n)]), ("list", [self.ex(env, base, n), ("list", [self.ex(env, base, 0)])])])
            else:
                v = self.ex(env, base, n)
            if not iskw:
                pos.append(v)
            elif d.bool(0.6):
                kws.append((name, v))
        kws = d.shuffle(kws)
        if kws and d.bool(0.15):
            i = d.int(0, len(kws) - 1)
            kws[i] = ("kwargs", ("dict", [kws[i]]))
            d.label("kwargs:")
        elif d.bool(0.03):
            kws.append(("kwargs", ("dict", [])))
        if fault:
            kind = d.choice(["drop", "extra", "type", "type", "type", "kw", "twice", "kwbad"])
            d.label("mistake " + kind)
            if kind == "drop" and pos:
                pos.pop(d.int(0, len(pos) - 1))
            elif kind == "extra":
                pos.insert(d.int(0, len(pos)), self.lit("int"))
            elif kind == "kw":
                kws.insert(d.int(0, len(kws)), ("zz", self.lit("int")))
            elif kind == "twice" and kws:
                kws.append(d.choice(kws))
            elif kind == "kwbad" and kws:
                i = d.int(0, len(kws) - 1)
                kws[i] = (kws[i][0], self.lit(d.choice(BASE)))
            elif pos:
                i = d.int(0, len(pos) - 1)
                pos[i] = d.choice([self.lit(d.choice(BASE)), ("list", [pos[i]]), ("lit", ["a", 1]), ("lit", {"a": "b"})])
        return ("call", f, pos, kws)

    def block(self, env, depth, fn, loop, lo=1, hi=4):
        """fn: the enclosing function's return type as a base type, None or 0 outside of functions"""
        out = []
        for _ in range(self.d.int(lo, hi)):
            s = self.st(env, depth, fn, loop)
            if s:
                out.extend(s)
        return out or [("msg", "#%d#" % self.fresh(), [])]

    def st(self, env, depth, fn, loop):
        d = self.d
        if self.size > 250:
            return []
        k = d.weighted([(6, "msg"), (6, "assign"), (4, "plus"), (3 if depth else 0, "if"), (2 if depth else 0, "loop"), (6 if depth else 0, "func"),
                        (2, "callst"), (1 if fn != 0 and depth < 3 else 0, "ret"), (1 if loop else 0, "ctl"), (1, "setvar"), (1, "unset"), (1, "delete"), (1 if depth else 0, "twin")])
        if k == "msg":
            return [("msg", "#%d#" % self.fresh(), [self.ex(env, d.choice(BASE)) for _ in range(d.int(1, 2))])]
        if k in ("assign", "setvar"):
            t = d.choice(BASE)
            e = self.ex(env, t)
            n = "%s%d" % (PRE[t], d.int(0, 1))
            env[n] = t
            return [("assign" if k == "assign" else "setvar", n, e)]
        if k == "plus":
            vs = [n for n, t in env.items() if t in ("int", "str", "list", "dict")]
            if not vs:
                return []
            n = d.choice(vs)
            t = env[n]
            return [("plus", n, self.ex(env, "int" if t == "list" and d.bool(0.3) else t))]
        if k == "delete":
            vs = [n for n, t in env.items() if t == "dict"]
            if not vs:
                return []
            n = d.choice(vs)
            d.label("delete")
            return [("delete", n, d.choice(["a", "b", "c", "k1", "k7", "k9"])), ("msg", "#%d#" % self.fresh(), [("var", n)])]
        if k == "unset":
            if self.filler and d.bool():
                d.label("unset of one of many")
                ns = d.sublist(self.filler, 0.3)
                for n in ns:
                    self.filler.remove(n)
                    env.pop(n, None)
                return [("unset", n) for n in ns] + [("msg", "#%d#" % self.fresh(), [("list", [("isvar", n) for n in ns])])]
            vs = [n for n, t in env.items() if t in BASE]
            if not vs or loop or depth < 3 or d.bool(0.5):
                return []
            n = d.choice(vs)
            # what the name means afterwards depends on the scopes: only ask whether it is there
            del env[n]
            return [("unset", n), ("msg", "#%d#" % self.fresh(), [("isvar", n)])]
        if k == "if":
            cl = []
            for _ in range(d.int(1, 2)):
                c = self.ex(env, "bool")
                cl.append((c, self.block(dict(env), depth - 1, fn, loop)))
            el = self.block(dict(env), depth - 1, fn, loop) if d.bool() else None
            return [("if", cl, el)]
        if k == "loop":
            f = d.int(0, 2)
            inner = dict(env)
            if f == 0:
                it = ("list", [self.ex(env, "int", 1) for _ in range(d.int(0, 3))])
                inner["i1"] = "int"
                return [("foreach", "i1", it, self.block(inner, depth - 1, fn, True))]
            if f == 1:
                inner["i1"] = "int"
                return [("range", "i1", d.choice([(3,), (1, 4), (0, 5, 2)]), self.block(inner, depth - 1, fn, True))]
            inner["s1"] = "str"
            inner["i0"] = "int"
            return [("foreachd", "s1", "i0", ("dict", [(x, self.ex(env, "int", 1)) for x in d.sublist(["a", "b", "c"], 0.6)]), self.block(inner, depth - 1, fn, True))]
        if k == "ctl":
            return [("if", [(self.ex(env, "bool", 1), [(d.choice(["break", "continue"]),)])], None)]
        if k == "ret":
            return [("if", [(self.ex(env, "bool", 1), [self.ret(env, fn)])], None)]
        if k == "callst":
            fs = [n for n, t in env.items() if isinstance(t, tuple) and t[0] == "func"]
            if not fs:
                return []
            f = d.choice(fs)
            sig = env[f][1]
            bad = d.bool(0.06)
            c = self.call(env, ("var", f), sig, 2, bad)
            if sig["ret"] in BASE:
                return [("msg", "#%d#" % self.fresh(), [c])]
            if sig["ret"] == ("func", "int1"):
                n = "g%d" % d.int(0, 1)
                env[n] = ("func", SIG1)
                return [("assign", n, c)]
            return [("expr", c)]
        if k == "twin":
            return self.twin(env, depth)
        return self.func(env, depth)

    def ret(self, env, fn):
        if fn is None:
            return ("return", None)
        if fn == ("func", "int1"):
            x = self.sig1(env)
            return ("return", x if x else self.lit("int"))
        return ("return", self.ex(env, fn, 2))

    def twin(self, env, depth):
        """a function that calls itself through its argument"""
        d = self.d
        d.label("recursion")
        n = "r%d" % d.int(0, 1)
        inner = {k: v for k, v in env.items() if k != n}
        inner["x"] = "int"
        body = self.block(dict(inner), depth - 1, "int", False, 0, 2)
        before = self.block(inner, 1, "int", False, 0, 2)
        rec = ("call", ("var", "self"), [("bin", "+", ("var", "x"), ("lit", -1)), ("var", "self")], [])
        inner2 = dict(inner)
        step = [("assign", "i0", rec)]
        inner2["i0"] = "int"
        after = self.block(inner2, 1, "int", False, 0, 2)
        e = ("bin", "+", ("var", "i0"), self.ex(inner2, "int", 2))
        if d.bool():
            e = ("bin", "+", rec, ("var", "x"))
            step, after = [], []
        fbody = [("if", [(("lt", ("var", "x"), ("lit", 1)), body + [("return", self.ex(inner, "int", 1))])], None)] + before + step + after + [("return", e)]
        sig = dict(params=[("x", "int", False, None), ("self", d.choice(["func", "any"]), False, None)], types=["int", "self"], ret="int", id=None)
        self_call = ("call", ("var", n), [("lit", d.int(0, 4)), ("var", n)], [])
        return [("func", n, sig["params"], "int", fbody), ("msg", "#%d#" % self.fresh(), [self_call])]

    def func(self, env, depth):
        d = self.d
        params, types = [], []
        ret = d.weighted([(6, "base"), (2, "func"), (2, None)])
        one = d.bool(0.25)
        used = []

        def pname():
            n = d.choice(["a", "b", "c", "i0", "s0", "l0", "i1", "x"])
            while n in used:
                n += "_"
            used.append(n)
            return n
        if one:
            params, types, retb = list(SIG1["params"]), ["int"], "int"
        else:
            retb = d.choice(BASE) if ret == "base" else ("func", "int1") if ret == "func" else None
            for _ in d.many(0, 3, 0.6):
                t = d.choice(BASE + (["sig1"] if self.sig1(env) else []))
                if t == "sig1":
                    params.append((pname(), d.choice(["func", "any"]), False, None))
                    types.append("sig1")
                    continue
                spec = d.choice(SPEC[t])
                if t in ("int", "str", "bool") and d.bool(0.12):
                    spec = ("listify", d.choice([t, "any", ("or", ["int", "str", "bool"])]))
                params.append((pname(), spec, False, None))
                types.append(t)
            if d.bool(0.15):
                t = d.choice(["int", "str"])
                params.append((pname(), ("glob", d.choice([t, ("or", ["int", "str"])] + (["any"] if t == "str" else []))), False, None))
                types.append(t)
            for _ in d.many(0, 3, 0.5):
                t = d.choice(BASE)
                spec = d.choice(SPEC[t])
                if t in ("int", "str") and d.bool(0.15):
                    spec = ("listify", t)
                dflt = None
                if d.bool(0.7):
                    dflt = self.ex(env, t, 1)
                    if d.bool(0.01):
                        dflt = self.lit(d.choice(BASE))
                params.append((pname(), spec, True, dflt))
                types.append(t)
        if params and d.bool(0.01):
            d.label("mistake in the declaration")
            i = d.int(0, len(params) - 1)
            j = d.int(0, len(params))
            params.insert(j, d.choice([params[i], ("zq", ("glob", "int"), d.bool(), None), ("zq", "int", d.bool(), None)]))
            types.insert(j, "int")
        name = "f%d" % d.int(0, 5)
        inner = {k: v for k, v in env.items()}
        for (n, t, iskw, dflt), base in zip(params, types):
            lst = isinstance(t, tuple) and t[0] in ("listify", "glob")
            if base == "sig1":
                inner[n] = ("func", SIG1)
            elif lst:
                # a list of int when it can be
                inner[n] = "list" if base == "int" and t[1] == "int" else "opaque"
            elif base == "self":
                inner[n] = "opaque"
            else:
                inner[n] = base
            if iskw and dflt is None:
                inner[n] = ("maybe", inner[n]) if inner[n] in BASE else "opaque"
        d.label("returns %s" % ("function" if isinstance(retb, tuple) else retb))
        body = self.block(inner, depth - 1, retb, False, 0, 4)
        op = [n for n, t in inner.items() if t == "opaque"]
        if op and d.bool(0.7):
            body.insert(0, ("msg", "#%d#" % self.fresh(), [("isvoid", ("var", op[-1]))] if any(p[0] == op[-1] and p[2] and p[3] is None for p in params) else [("var", op[-1])]))
        mb = [n for n, t in inner.items() if isinstance(t, tuple) and t[0] == "maybe"]
        if mb and d.bool(0.7):
            body.insert(0, ("msg", "#%d#" % self.fresh(), [("isvoid", ("var", mb[-1]))]))
        rt = None
        if retb == ("func", "int1"):
            rt = "func"
            if self.sig1(inner) is None or d.bool(0.5):
                gi = dict(inner)
                gi["x"] = "int"
                gn = "g2"
                gb = self.block(gi, 1, "int", False, 0, 2) if d.bool() else []
                body.append(("func", gn, SIG1["params"], "int", gb + [("return", self.ex(gi, "int", 2))]))
                inner[gn] = ("func", SIG1)
                body.append(("return", ("var", gn)))
            else:
                body.append(self.ret(inner, retb))
        elif retb is not None:
            rt = d.choice([x for x in SPEC[retb]])
            if d.bool(0.012):
                d.label("mistake in the return type")
                rt = d.choice(["int", "str", ("dict", "str"), ("list", "str")])
            if d.bool(0.985):
                body.append(self.ret(inner, retb))
            else:
                d.label("no return")
        elif d.bool(0.3):
            body.append(("return", None))
        sig = dict(params=params, types=types, ret=retb, id="int1" if one else None)
        env[name] = ("func", SIG1 if one else sig)
        if not body:
            body = [("msg", "#%d#" % self.fresh(), [])]
        return [("func", name, params, rt, body)]


def case(d, ctx):
    w = ctx.fresh()
    g = Gen(d)
    env = {}
    prog = []
    if d.bool(0.3):
        # many variables, and a dict of many keys
        for i in range(d.int(5, 30)):
            prog.append(("assign", "v%d" % i, ("lit", i)))
            g.filler.append("v%d" % i)
        prog.append(("assign", "d0", ("lit", {"k%d" % i: i for i in range(d.int(8, 24))})))
        env["d0"] = "dict"
    for _ in d.many(3, 14, 0.92):
        prog += g.st(env, 3, 0, False) or []
    fs = [n for n, t in env.items() if isinstance(t, tuple) and t[0] == "func"]
    for f in fs:
        if g.size < 400:
            c = g.call(env, ("var", f), env[f][1], 1)
            prog.append(("msg", "#%d#" % g.fresh(), [c]) if env[f][1]["ret"] in BASE else ("expr", c))
    prog.append(("msg", "#end#", []))
    lines = []
    btext(prog, 0, lines)
    text = "\n".join(lines) + "\n"
    m = Machine()
    err = None
    try:
        m.block(prog)
    except Err as e:
        err = str(e)
    except Ret:
        pass
    write(w + "/f.meson", text)
    d.key = d.sample = text
    for l in m.labels:
        d.label(l)
    d.label("refused: %s" % err if err else "accepted")
    r = ctx.run([ctx.muon, "internal", "eval", "-s", "f.meson"], cwd=w, merge=True)
    out = r.out.decode("utf-8", "replace")
    d.note("f.meson:\n%s\n\noutput:\n%s\n\nexpected:\n%s\n%s" % (text, out[-3000:], "\n".join(m.out), "error: " + err if err else ""))
    if r.crashed:
        raise Fail("eval: %s\n%s" % (r.why(), out[-1500:]))
    lines = out.splitlines()
    e = next((i for i, l in enumerate(lines) if re.match(r"^f\.meson:\d+:\d+: error |^err ", l)), len(lines))
    got = re.sub(r"\s", "", "\n".join(lines[:e]))
    want = re.sub(r"\s", "", "\n".join(m.out))
    if got != want:
        a = got.split("message:")
        b = want.split("message:")
        i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
        raise Fail("message %d is %r, not %r" % (i, a[i:i + 1], b[i:i + 1]))
    if err and (r.rc == 0 or e == len(lines)):
        raise Fail("a program that should be refused (%s) is accepted" % err)
    if not err and r.rc != 0:
        raise Fail("refused: %s" % lines[e:e + 1])
    d.nontrivial = m.calls >= 2


pbt.main(pbt.Spec("C21", case, quick=12000, thorough=250000, builds=("fast", "asan"),
                  rule="at least two script functions are called",
                  assumptions=["`+=` on a list or dict a function has captured changes what the closures sharing it see; on any other captured value it changes only that function's copy",
                               "recursion is at most a few calls deep"]))
