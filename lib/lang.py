"""The core of the build language: syntax trees, a random generator of typed
expressions, a printer with random (meaning preserving) layout, and a reference
evaluator written from the reference manual."""
import re
import pbt

I64 = 1 << 63


class LangError(Exception):
    """the program is in error"""


class Undecided(Exception):
    """outside of what the manual defines (overflow, too many steps)"""


# -- reference semantics ------------------------------------------------------


def ty(v):
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, int):
        return "int"
    if isinstance(v, str):
        return "str"
    if isinstance(v, list):
        return "list"
    if isinstance(v, dict):
        return "dict"
    if isinstance(v, tuple):
        return v[0]
    raise TypeError(v)


def equal(a, b):
    if ty(a) != ty(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(equal(a[k], b[k]) for k in a)
    return a == b


def contains(l, x):
    for e in l:
        if isinstance(e, list) and contains(e, x):
            return True
        if equal(e, x):
            return True
    return False


def num(v):
    if not -I64 < v < I64:
        raise Undecided("overflow")
    return v


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def want(v, *ts):
    if ty(v) not in ts:
        raise LangError("type")
    return v


def arith(op, l, r):
    if isinstance(l, bool):
        raise LangError("type")
    if isinstance(l, int):
        if ty(r) != "int":
            raise LangError("type")
        if op == "+":
            return num(l + r)
        if op == "-":
            return num(l - r)
        if op == "*":
            return num(l * r)
        if r == 0:
            raise LangError("zero")
        if op == "/":
            return tdiv(l, r)
        return l - tdiv(l, r) * r
    if isinstance(l, str):
        if ty(r) != "str":
            raise LangError("type")
        if op == "+":
            return l + r
        if op == "/":
            return path_join(l, r)
        raise LangError("op")
    if isinstance(l, list):
        if op != "+":
            raise LangError("op")
        return l + (r if isinstance(r, list) else [r])
    if isinstance(l, dict):
        if op != "+" or not isinstance(r, dict):
            raise LangError("op")
        m = dict(l)
        m.update(r)
        return m
    raise LangError("type")


def path_join(a, b):
    # only used on simple relative names here; C07 has the general case
    if b.startswith("/"):
        return b
    if a == "" or a.endswith("/"):
        return a + b
    return a + "/" + b


def index(o, i):
    if isinstance(o, (list, str)):
        want(i, "int")
        if not -len(o) <= i < len(o):
            raise LangError("index")
        return o[i]
    if isinstance(o, dict):
        want(i, "str")
        if i not in o:
            raise LangError("key")
        return o[i]
    raise LangError("type")


def is_in(l, r):
    if isinstance(r, list):
        return any(equal(e, l) for e in r)
    if isinstance(r, dict):
        want(l, "str")
        return l in r
    if isinstance(r, str):
        want(l, "str")
        return l in r
    raise LangError("type")


def weigh(v, left=4000):
    """refuse values that get very large when printed"""
    left -= 1
    if isinstance(v, str):
        left -= len(v) // 4
    elif isinstance(v, list):
        for x in v:
            left = weigh(x, left)
            if left < 0:
                break
    elif isinstance(v, dict):
        for x in v.values():
            left = weigh(x, left)
            if left < 0:
                break
    if left < 0:
        raise Undecided("too large")
    return left


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Interp:
    def __init__(self, steps=3000):
        self.vars = {}
        self.out = []
        self.steps = steps

    def tick(self):
        self.steps -= 1
        if self.steps < 0:
            raise Undecided("too long")

    # expressions
    def ev(self, e):
        self.tick()
        return getattr(self, "x_" + e[0])(e)

    def x_lit(self, e):
        return e[1]

    x_int = x_str = x_bool = x_lit

    def x_id(self, e):
        if e[1] not in self.vars:
            raise LangError("undefined")
        return self.vars[e[1]]

    def x_list(self, e):
        return [self.ev(x) for x in e[1]]

    def x_dict(self, e):
        r = {}
        for k, v in e[1]:
            kk = want(self.ev(k), "str")
            vv = self.ev(v)
            if kk in r:
                raise LangError("duplicate key")
            r[kk] = vv
        return r

    def x_bin(self, e):
        l = self.ev(e[2])
        r = self.ev(e[3])
        return arith(e[1], l, r)

    def x_cmp(self, e):
        l = self.ev(e[2])
        r = self.ev(e[3])
        op = e[1]
        if op == "==":
            return equal(l, r)
        if op == "!=":
            return not equal(l, r)
        if op == "in":
            return is_in(l, r)
        if op == "not in":
            return not is_in(l, r)
        want(l, "int")
        want(r, "int")
        return {"<": l < r, "<=": l <= r, ">": l > r, ">=": l >= r}[op]

    def x_and(self, e):
        return bool(want(self.ev(e[1]), "bool") and want(self.ev(e[2]), "bool"))

    def x_or(self, e):
        return bool(want(self.ev(e[1]), "bool") or want(self.ev(e[2]), "bool"))

    def x_not(self, e):
        return not want(self.ev(e[1]), "bool")

    def x_neg(self, e):
        return num(-want(self.ev(e[1]), "int"))

    def x_tern(self, e):
        return self.ev(e[2]) if want(self.ev(e[1]), "bool") else self.ev(e[3])

    def x_idx(self, e):
        o = self.ev(e[1])
        return index(o, self.ev(e[2]))

    def x_paren(self, e):
        return self.ev(e[1])

    def x_call(self, e):
        args = [self.ev(a) for a in e[2]]
        return self.call(e[1], args)

    def call(self, name, args):
        def n(lo, hi):
            if not lo <= len(args) <= hi:
                raise LangError("arguments")

        if name == "get_variable":
            n(1, 2)
            want(args[0], "str")
            if args[0] in self.vars:
                return self.vars[args[0]]
            if len(args) == 2:
                return args[1]
            raise LangError("undefined")
        if name == "is_variable":
            n(1, 1)
            return want(args[0], "str") in self.vars
        if name == "set_variable":
            n(2, 2)
            self.vars[want(args[0], "str")] = args[1]
            return None
        if name == "unset_variable":
            n(1, 1)
            if want(args[0], "str") not in self.vars:
                raise LangError("undefined")
            del self.vars[args[0]]
            return None
        if name == "range":
            n(1, 3)
            for a in args:
                want(a, "int")
            start, stop, step = (0, args[0], 1) if len(args) == 1 else (args + [1])[:3]
            if start < 0 or stop < start or step < 1:
                raise LangError("range")
            r = range(start, stop, step)
            if len(r) > 500:
                raise Undecided("too long")
            return list(r)
        raise LangError("no function " + name)

    def x_meth(self, e):
        o = self.ev(e[1])
        args = [self.ev(a) for a in e[3]]
        return self.method(o, e[2], args)

    def method(self, o, m, args):
        def n(lo, hi):
            if not lo <= len(args) <= hi:
                raise LangError("arguments")

        t = ty(o)
        if t == "int":
            if m == "is_even":
                n(0, 0)
                return o % 2 == 0
            if m == "is_odd":
                n(0, 0)
                return o % 2 == 1
            if m == "to_string":
                n(0, 0)
                return str(o)
        elif t == "bool":
            if m == "to_int":
                n(0, 0)
                return int(o)
            if m == "to_string":
                n(0, 2)
                if len(args) == 1:
                    raise Undecided("one argument")
                for a in args:
                    want(a, "str")
                return (args or ["true", "false"])[0 if o else 1]
        elif t == "list":
            if m == "length":
                n(0, 0)
                return len(o)
            if m == "contains":
                n(1, 1)
                return contains(o, args[0])
            if m == "get":
                n(1, 2)
                want(args[0], "int")
                if -len(o) <= args[0] < len(o):
                    return o[args[0]]
                if len(args) == 2:
                    return args[1]
                raise LangError("index")
        elif t == "dict":
            if m == "has_key":
                n(1, 1)
                return want(args[0], "str") in o
            if m == "keys":
                n(0, 0)
                return list(o)
            if m == "get":
                n(1, 2)
                want(args[0], "str")
                if args[0] in o:
                    return o[args[0]]
                if len(args) == 2:
                    return args[1]
                raise LangError("key")
        elif t == "str":
            import strmodel

            return strmodel.method(o, m, args)
        raise LangError("no method")

    # statements
    def run(self, block):
        for s in block:
            self.st(s)

    def st(self, s):
        self.tick()
        k = s[0]
        if k == "assign":
            v = self.ev(s[2])
            if v is None:
                raise LangError("void")
            weigh(v)
            self.vars[s[1]] = v
        elif k == "plus":
            if s[1] not in self.vars:
                raise LangError("undefined")
            l = self.vars[s[1]]
            v = arith("+", l, self.ev(s[2]))
            weigh(v)
            self.vars[s[1]] = v
        elif k == "msg":
            self.out.append((s[1], self.ev(s[2])))
        elif k == "assert":
            if not want(self.ev(s[1]), "bool"):
                raise LangError("assert")
        elif k == "if":
            for c, b in s[1]:
                if want(self.ev(c), "bool"):
                    self.run(b)
                    return
            if s[2] is not None:
                self.run(s[2])
        elif k == "foreach":
            it = self.ev(s[2])
            if len(s[1]) == 1:
                want(it, "list")
                items = [(x,) for x in it]
            else:
                want(it, "dict")
                items = list(it.items())
            for x in items:
                for n, v in zip(s[1], x):
                    self.vars[n] = v
                try:
                    self.run(s[3])
                except Continue:
                    continue
                except Break:
                    break
        elif k == "break":
            raise Break
        elif k == "continue":
            raise Continue
        elif k == "expr":
            self.ev(s[1])
        elif k == "return":
            raise Return(self.ev(s[1]) if s[1] is not None else None)
        else:
            raise AssertionError(k)


# -- printing -----------------------------------------------------------------

KINDS = {"int", "str", "bool", "id", "list", "dict", "bin", "cmp", "and", "or", "not", "neg", "tern", "idx", "paren", "call", "meth"}
PREC = dict(tern=0, bin=None, cmp=3, neg=6, idx=7, meth=7)
PREC.update({"or": 1, "and": 2, "not": 6})


def prec(e):
    if e[0] == "bin":
        return 4 if e[1] in "+-" else 5
    return PREC.get(e[0], 8)


class Printer:
    """prints a tree; d=None gives the canonical layout"""

    def __init__(self, d=None, noise=0.0, mstr=pbt.mstr, wild=True):
        self.d, self.noise, self.mstr = d, noise, mstr
        self.wild = wild
        self.ncomment = 0

    def sp(self, need, inside):
        """white space; inside brackets also newlines and comments"""
        d = self.d
        if d is None or not d.bool(self.noise):
            return need
        opts = ["  ", need, "\t", " "]
        if inside:
            opts += ["\n", " \n\t", " # c\n", "\n#(['\n\n  "]
        else:
            opts += [" \\\n "]
        return d.choice(opts) or need

    def expr(self, e, level=0, inside=False):
        s = self._expr(e, inside)
        if prec(e) < level:
            s = "(" + self.sp("", True) + self._expr(e, True) + self.sp("", True) + ")"
        elif self.d is not None and self.noise and self.d.bool(self.noise / 6):
            s = "(" + self._expr(e, True) + ")"
        return s

    def args(self, items):
        out = []
        for i, x in enumerate(items):
            out.append(self.sp("", True) + self.expr(x, 0, True))
        s = (self.sp("", True) + ",").join(out) if not self.d else (",".join(out))
        if not self.d:
            s = ", ".join(self.expr(x, 0, True) for x in items)
        if items and self.d is not None and self.d.bool(self.noise / 2):
            s += "," + self.sp("", True)
        return s

    def _expr(self, e, ins):
        k = e[0]
        sp = self.sp
        if k == "int":
            v = e[1]
            form = e[2] if len(e) > 2 else 0
            if v < 0:
                raise AssertionError("negative literal")
            return [str(v), "0x%x" % v, "0o%o" % v, "0b" + bin(v)[2:], "0X%X" % v][form]
        if k == "str":
            return self.mstr(e[1])
        if k == "bool":
            return "true" if e[1] else "false"
        if k == "id":
            return e[1]
        if k == "list":
            return "[" + self.args(e[1]) + "]"
        if k == "dict":
            items = [self.expr(a, 0, True) + sp("", True) + ":" + sp(" ", True) + self.expr(b, 0, True) for a, b in e[1]]
            s = (", ").join(items)
            if items and self.d is not None and self.d.bool(self.noise / 2):
                s += ","
            return "{" + sp("", True) + s + sp("", True) + "}"
        if k == "bin":
            l = prec(e)
            return self.expr(e[2], l, ins) + sp(" ", ins) + e[1] + sp(" ", ins) + self.expr(e[3], l + 1, ins)
        if k == "cmp":
            return self.expr(e[2], 4, ins) + sp(" ", ins) + e[1] + sp(" ", ins) + self.expr(e[3], 4, ins)
        if k in ("and", "or"):
            l = prec(e)
            return self.expr(e[1], l, ins) + sp(" ", ins) + k + sp(" ", ins) + self.expr(e[2], l + 1, ins)
        if k == "not":
            return "not" + sp(" ", ins) + self.expr(e[1], 7, ins)
        if k == "neg":
            return "-" + self.expr(e[1], 7, ins)
        if k == "tern":
            return self.expr(e[1], 1, ins) + sp(" ", ins) + "?" + sp(" ", ins) + self.expr(e[2], 0 if e[2][0] != "tern" else 1, ins) + sp(" ", ins) + ":" + sp(" ", ins) + self.expr(e[3], 0 if e[3][0] != "tern" else 1, ins)
        if k == "idx":
            return self.expr(e[1], 7, ins) + "[" + self.expr(e[2], 0, True) + "]"
        if k == "meth":
            b = self.expr(e[1], 7, ins)
            return b + "." + e[2] + "(" + self.args(e[3]) + ")"
        if k == "call":
            return e[1] + "(" + self.args(e[2]) + ")"
        if k == "paren":
            return "(" + self.expr(e[1], 0, True) + ")"
        if k == "raw":
            return e[1]
        raise AssertionError(k)

    def block(self, b, ind=0):
        out = []
        for s in b:
            out += self.stmt(s, ind)
        return out

    def stmt(self, s, ind):
        p = "    " * ind
        d = self.d
        out = []
        if d is not None and self.noise:
            if d.bool(self.noise / 3):
                out.append(d.choice(["", "# comment", "    # 'x", "\t"]))
            if d.bool(self.noise / 4):
                p = d.choice(["", "  ", "\t", p + "      "])
        k = s[0]
        tail = ""
        if d is not None and self.noise and d.bool(self.noise / 4):
            tail = d.choice(["  # c", " ", "#'", "\t"])
        if k == "assign":
            out.append(p + s[1] + self.sp(" ", False) + "=" + self.sp(" ", False) + self.expr(s[2]) + tail)
        elif k == "plus":
            out.append(p + s[1] + self.sp(" ", False) + "+=" + self.sp(" ", False) + self.expr(s[2]) + tail)
        elif k == "msg":
            out.append(p + "message('<<%s:', " % s[1] + self.expr(s[2], 0, True) + ", ':%s>>')" % s[1] + tail)
        elif k == "assert":
            out.append(p + "assert(" + self.expr(s[1], 0, True) + ")" + tail)
        elif k == "expr":
            out.append(p + self.expr(s[1]) + tail)
        elif k == "if":
            for i, (c, b) in enumerate(s[1]):
                out.append(p + ("if " if i == 0 else "elif ") + self.expr(c) + tail)
                out += self.block(b, ind + 1)
            if s[2] is not None:
                out.append(p + "else")
                out += self.block(s[2], ind + 1)
            out.append(p + "endif")
        elif k == "foreach":
            out.append(p + "foreach " + ", ".join(s[1]) + " : " + self.expr(s[2]) + tail)
            out += self.block(s[3], ind + 1)
            out.append(p + "endforeach")
        elif k in ("break", "continue"):
            out.append(p + k + tail)
        elif k == "return":
            out.append(p + "return" + ("" if s[1] is None else " " + self.expr(s[1])) + tail)
        else:
            raise AssertionError(k)
        return out


# -- values as muon prints them -----------------------------------------------


def show(v, top=True):
    """the text message() prints, without its white space"""
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return v if top else "'" + v + "'"
    if isinstance(v, list):
        return "[" + ",".join(show(x, False) for x in v) + "]"
    if isinstance(v, dict):
        return "{" + ",".join("'" + k + "':" + show(x, False) for k, x in v.items()) + "}"
    raise TypeError(v)


def squeeze(s):
    return re.sub(r"\s+", "", s)


def parse_output(text):
    """[(tag, text)] of the messages printed by ('msg', tag, e)"""
    return [(m.group(1), m.group(2)) for m in re.finditer(r"<<(\w+): (.*?) :\1>>", text, re.S)]


def compare(model_out, text):
    """None or a description of the difference"""
    got = parse_output(text)
    for i, (tag, v) in enumerate(model_out):
        if i >= len(got):
            return "output %r missing (%r expected)" % (tag, v)
        gt, gv = got[i]
        if gt != str(tag):
            return "output %d has tag %s instead of %s" % (i, gt, tag)
        if isinstance(v, str):
            ok = gv == v
        else:
            ok = squeeze(gv) == squeeze(show(v))
        if not ok:
            return "output %s is %r, expected %r" % (tag, gv, v)
    if len(got) > len(model_out):
        return "unexpected output %r" % (got[len(model_out)],)
    return None


# -- generation -----------------------------------------------------------------

WORDS = ["a", "b", "ab", "abc", "foo", "bar", "x1", "", "A", "foo bar", "a-b", "1", "-3", "true"]
KEYS = ["a", "b", "c", "k1", "k2", "foo", "", "x y", "zz"]


class Gen:
    """well-typed expressions, evaluated as they are generated so that ill
    defined ones can be avoided or put in on purpose"""

    mixed = True  # values of different types are compared too

    def __init__(self, d, interp, words=WORDS):
        self.d, self.it, self.words = d, interp, words

    def try_eval(self, e):
        """the value, or None"""
        saved = self.it.steps
        try:
            return self.it.ev(e)
        except (LangError, Undecided):
            return None
        finally:
            self.it.steps = saved

    def vars_of(self, t):
        return sorted(n for n, v in self.it.vars.items() if t == "any" or ty(v) == t)

    def small_int(self):
        d = self.d
        return d.weighted([(8, lambda: d.int(0, 9)), (2, lambda: d.int(0, 300)), (1, lambda: 2 ** d.choice([7, 8, 15, 16, 31, 32, 33, 40]) + d.int(-1, 1)), (1, lambda: d.int(0, 10 ** 9))])()

    def leaf(self, t):
        d = self.d
        vs = self.vars_of(t)
        if vs and d.bool(0.45):
            return ("id", d.choice(vs))
        if t == "int":
            e = ("int", self.small_int(), d.weighted([(12, 0), (1, 1), (1, 2), (1, 3), (1, 4)]))
            return ("neg", e) if d.bool(0.2) else e
        if t == "bool":
            return ("bool", d.bool())
        if t == "str":
            return ("str", d.choice(self.words))
        if t == "list":
            return ("list", [])
        if t == "dict":
            return ("dict", [])
        raise AssertionError(t)

    def anytype(self):
        return self.d.weighted([(4, "int"), (3, "str"), (3, "bool"), (2, "list"), (2, "dict")])

    def expr(self, t, depth):
        """an expression of type t that evaluates"""
        if t == "any":
            t = self.anytype()
        e = self._expr(t, depth)
        v = self.try_eval(e)
        if v is None or ty(v) != t:
            return self.leaf(t)
        return e

    def _expr(self, t, depth):
        d = self.d
        if t == "any":
            t = self.anytype()
        if depth <= 0 or d.bool(0.12):
            return self.leaf(t)
        D = depth - 1
        ex = self.expr
        # an element of a container
        if d.bool(0.12):
            e = self.element(t, D)
            if e is not None:
                return e
        if d.bool(0.08):
            return ("tern", ex("bool", D), ex(t, D), ex(t, D))
        if t == "int":
            k = d.int(0, 8)
            if k <= 4:
                op = d.choice(["+", "-", "*", "/", "%"])
                return ("bin", op, ex("int", D), ex("int", D))
            if k == 5:
                return ("neg", ex("int", D))
            if k == 6:
                return ("meth", ex("list", D), "length", [])
            if k == 7:
                return ("meth", ex("bool", D), "to_int", [])
            return ("bin", d.choice(["*", "/", "%"]), ("bin", d.choice(["*", "/", "%"]), ex("int", D), ex("int", D)), ex("int", 0))
        if t == "bool":
            k = d.int(0, 10)
            if k == 0:
                return ("not", ex("bool", D))
            if k in (1, 2):
                return (d.choice(["and", "or"]), ex("bool", D), ex("bool", D))
            if k in (3, 4):
                return ("cmp", d.choice(["<", "<=", ">", ">=", "==", "!="]), ex("int", D), ex("int", D))
            if k in (5, 6):
                t2 = self.anytype()
                l = ex(t2, D)
                r = l if d.bool(0.3) else self.expr(t2 if d.bool(0.85) or not self.mixed else self.anytype(), D)
                return ("cmp", d.choice(["==", "!="]), l, r)
            if k == 7:
                r = ex("list", D)
                rv = self.try_eval(r)
                x = self.literal(d.choice(rv)) if rv and d.bool(0.6) else ex(self.anytype(), D)
                return ("cmp", d.choice(["in", "not in"]), x, r)
            if k == 8:
                r = ex(d.choice(["dict", "str"]), D)
                return ("cmp", d.choice(["in", "not in"]), ex("str", D), r)
            if k == 9:
                c = d.choice(["contains", "has_key", "is_even", "is_odd"])
                if c == "contains":
                    l = ex("list", D)
                    lv = self.try_eval(l)
                    x = self.literal(d.choice(lv)) if lv and d.bool(0.5) else ex(self.anytype(), D)
                    return ("meth", l, c, [x])
                if c == "has_key":
                    return ("meth", ex("dict", D), c, [ex("str", D)])
                return ("meth", ex("int", D), c, [])
            return ("paren", ex("bool", D))
        if t == "str":
            k = d.int(0, 4)
            if k in (0, 1):
                return ("bin", "+", ex("str", D), ex("str", D))
            if k == 2:
                s = ex("str", D)
                n = len(self.try_eval(s) or "")
                return ("idx", s, self.index_for(n)) if n else s
            if k == 3:
                return ("meth", ex("int", D), "to_string", [])
            return ("meth", ex("bool", D), "to_string", [ex("str", D), ex("str", D)] if d.bool() else [])
        if t == "list":
            k = d.int(0, 5)
            if k <= 2:
                return ("list", [ex(self.anytype(), D) for _ in d.many(0, 5)])
            if k == 3:
                return ("bin", "+", ex("list", D), ex("list", D))
            if k == 4:
                return ("bin", "+", ex("list", D), ex(self.anytype(), D))
            return ("meth", ex("dict", D), "keys", [])
        if t == "dict":
            k = d.int(0, 4)
            if k <= 2:
                keys = []
                items = []
                big = d.bool(0.05)
                for i in d.many(15 if big else 0, 60 if big else 5):
                    ke = ("str", d.choice(KEYS)) if not big else ("str", "key%d" % i)
                    if d.bool(0.15):
                        ke = ex("str", D)
                    kv = self.try_eval(ke)
                    if kv is None or kv in keys:
                        continue
                    keys.append(kv)
                    items.append((ke, ex(self.anytype(), D - 1) if not big else ("int", i)))
                return ("dict", items)
            return ("bin", "+", ex("dict", D), ex("dict", D))
        raise AssertionError(t)

    def index_for(self, n):
        """an index expression within [-n, n)"""
        d = self.d
        i = d.int(0, n - 1)
        if d.bool(0.4):
            return ("neg", ("int", n - i))
        return ("int", i)

    def element(self, t, D):
        d = self.d
        c = self.expr(d.choice(["list", "dict"]), D)
        v = self.try_eval(c)
        if isinstance(v, list):
            idx = [i for i, x in enumerate(v) if ty(x) == t]
            if idx:
                i = d.choice(idx)
                ie = ("neg", ("int", len(v) - i)) if d.bool(0.4) else ("int", i)
                return ("idx", c, ie) if d.bool(0.7) else ("meth", c, "get", [ie] + ([self.leaf(t)] if d.bool() else []))
            return ("meth", c, "get", [("int", len(v) + d.int(0, 2)) if d.bool() else ("neg", ("int", len(v) + d.int(1, 3))), self.expr(t, D)])
        if isinstance(v, dict):
            ks = [k for k, x in v.items() if ty(x) == t]
            if ks:
                ke = ("str", d.choice(ks))
                return ("idx", c, ke) if d.bool(0.7) else ("meth", c, "get", [ke] + ([self.leaf(t)] if d.bool() else []))
            return ("meth", c, "get", [("str", "missing"), self.expr(t, D)])
        return None

    def literal(self, v):
        if isinstance(v, bool):
            return ("bool", v)
        if isinstance(v, int):
            return ("neg", ("int", -v)) if v < 0 else ("int", v)
        if isinstance(v, str):
            return ("str", v)
        if isinstance(v, list):
            return ("list", [self.literal(x) for x in v])
        return ("dict", [(("str", k), self.literal(x)) for k, x in v.items()])

    def bad(self, depth):
        """an expression that is in error"""
        d = self.d
        D = depth
        ex = self.expr
        not_int = lambda: ex(d.choice(["str", "bool", "list", "dict"]), D)
        other = lambda *ts: ex(d.choice([t for t in ["int", "str", "bool", "list", "dict"] if t not in ts]), D)
        k = d.int(0, 17)
        if k == 0:
            return ("bin", d.choice(["+", "-", "*", "/", "%"]), ex("int", D), not_int())
        if k == 1:
            return ("bin", d.choice(["-", "*", "%"]), ex("str", D), ex(self.anytype(), D))
        if k == 2:
            return ("bin", d.choice(["-", "*", "%", "/"]), ex("list", D), ex(self.anytype(), D))
        if k == 3:
            return ("bin", "+", ex("dict", D), other("dict"))
        if k == 4:
            return ("bin", d.choice(["/", "%"]), ex("int", D), ("int", 0))
        if k == 5:
            return (d.choice(["and", "or"]), other("bool"), ex("bool", D))
        if k == 6:
            return ("and", ("bool", True), other("bool")) if d.bool() else ("or", ("bool", False), other("bool"))
        if k == 7:
            return ("not", other("bool")) if d.bool() else ("neg", not_int())
        if k == 8:
            return ("tern", other("bool"), ex("int", D), ex("int", D))
        if k == 9:
            l = ex(d.choice(["list", "str"]), D)
            n = len(self.try_eval(l) or "")
            i = n + d.choice([0, 0, 1, 2, 100, 2 ** 31, 2 ** 32, 2 ** 33])
            return ("idx", l, ("int", i)) if d.bool() else ("idx", l, ("neg", ("int", i + 1)))
        if k == 10:
            return ("idx", ex("dict", D), ("str", "no such key"))
        if k == 11:
            return ("idx", ex("list", D), other("int")) if d.bool() else ("idx", ex("dict", D), other("str"))
        if k == 12:
            return ("idx", ex(d.choice(["int", "bool"]), D), ("int", 0))
        if k == 13:
            return ("cmp", d.choice(["<", "<=", ">", ">="]), ex("int", D), not_int())
        if k == 14:
            return ("cmp", d.choice(["in", "not in"]), ex("int", D), ex(d.choice(["int", "bool", "dict", "str"]), D))
        if k == 15:
            l = ex("list", D)
            n = len(self.try_eval(l) or [])
            return ("meth", l, "get", [("int", n) if d.bool() else ("neg", ("int", n + 1))])
        if k == 16:
            t = self.anytype()
            return ("meth", ex(t, D), d.choice(["no_such_method", "length" if t != "list" else "keys"]), [])
        return d.choice([
            ("meth", ex("list", D), "length", [("int", 1)]),
            ("meth", ex("list", D), "contains", []),
            ("meth", ex("dict", D), "has_key", [("int", 1)]),
            ("meth", ex("dict", D), "get", [("str", "nope")]),
            ("meth", ex("int", D), "is_even", [("int", 1)]),
            ("meth", ex("bool", D), "to_int", [("int", 1)]),
            ("id", "undefined_variable"),
            ("call", "undefined_function", []),
            ("dict", [(("str", "a"), ("int", 1)), (("str", "a"), ("int", 2))]),
            ("dict", [(("int", 1), ("int", 1))]),
        ])
