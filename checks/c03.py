#!/usr/bin/env python3
"""C03: string literals, f-strings and string methods against a reference
model."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt, lang, strmodel
from pbt import Fail, write

THEMES = ["ab", "ab", "abA ", "a.,", "aaaab", "@01a", "@@0123 ab", " \t\n", "aA1_-", "xyz'\\", "0123456789+- ", "%{}$#\"`~", "a\u00e9\u20ac\U0001f600", "\x07\x08\x0b\x0c\r\x7fa", "foo/bar.c"]
ESC = {"\\": "\\\\", "'": "\\'", "\x07": "\\a", "\x08": "\\b", "\x0c": "\\f", "\n": "\\n", "\r": "\\r", "\t": "\\t", "\x0b": "\\v"}


def isascii(s):
    return all(ord(c) < 128 for c in s)


def display(s):
    """message() writes control characters other than white space escaped"""
    return "".join(c if ord(c) >= 32 or c in "\t\n\r" else ("\\" + "abtnvfr"[ord(c) - 7] if 7 <= ord(c) <= 13 else "\\%d" % ord(c)) for c in s)


def spell(d, s, fstring=False):
    """a literal that denotes s"""
    if "'''" not in s and not s.endswith("'") and "\r" not in s and "\0" not in s and not s.startswith("'") and d.bool(0.2):
        return "'''" + s + "'''"
    out = []
    wild = d.bool(0.3)
    for i, c in enumerate(s):
        nxt = s[i + 1] if i + 1 < len(s) else ""
        o = ord(c)
        if wild and d.bool(0.4) and not (fstring and (c == "@" or c.isalnum() or c == "_")):
            opts = ["\\u%04x" % o] if o < 0x10000 else []
            opts.append("\\U%08x" % o)
            if o < 256:
                opts.append("\\x%02X" % o)
            if o < 128:
                opts.append("\\%03o" % o)
                if not nxt.isdigit():
                    opts.append("\\%o" % o)
            out.append(d.choice(opts))
        elif c in ESC:
            out.append(ESC[c])
        elif o < 32 or o == 127:
            out.append("\\x%02x" % o)
        else:
            out.append(c)
    return "'" + "".join(out) + "'"


class G:
    def __init__(self, d):
        self.d = d
        self.vars = {}
        self.feats = set()
        self.theme = d.choice(THEMES)

    def raw(self):
        d = self.d
        th = self.theme if d.bool(0.7) else d.choice(THEMES)
        if d.bool(0.02):
            # long ones
            return d.text(th, 0, 3, 0.5) * d.int(500, 2100)
        return d.text(th, 0, 12, 0.8)

    def lit(self, s):
        return spell(self.d, s), s

    def near(self, s):
        """something likely to occur in s"""
        d = self.d
        if s and d.bool(0.75):
            i = d.int(0, len(s) - 1)
            r = s[i:i + d.int(1, 3)]
            if d.bool(0.15):
                r += d.choice(self.theme)
            return r
        return d.text(self.theme, 0, 2, 0.5)

    def pos(self, n):
        d = self.d
        v = d.weighted([(8, lambda: d.int(-n - 2, n + 2)), (1, lambda: d.choice([-1, 1]) * d.choice([1000, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 62]))])()
        return v

    def s(self, depth):
        """a string expression: (source, value)"""
        d = self.d
        names = [n for n, v in self.vars.items() if isinstance(v, str)]
        if depth <= 0:
            if names and d.bool(0.4):
                n = d.choice(names)
                return n, self.vars[n]
            return self.lit(self.raw())
        k = d.choice(["cat", "fstr", "format", "join", "replace", "strip", "substring", "case", "under", "index", "paren"])
        self.feats.add(k)
        if k == "cat":
            a, b = self.s(depth - 1), self.s(depth - 1)
            return "%s + %s" % (a[0], b[0]), a[1] + b[1]
        if k == "paren":
            a = self.s(depth - 1)
            return "(%s)" % a[0], a[1]
        if k == "fstr":
            src, val = [], []
            multi = d.bool(0.2)
            for _ in d.many(0, 5, 0.8):
                if self.vars and d.bool(0.6):
                    n = d.choice(sorted(self.vars))
                    src.append("@" + n + "@")
                    val.append(strmodel.to_str(self.vars[n]))
                else:
                    t = d.choice(["x", "@", "@@", " ", "a.b", "@ v0@", "@1@", "@-1@", "m@x", "\\", "'", "\n", "v0"])
                    if multi and "'" in t:
                        t = "x"
                    if not multi:
                        src.append("".join(ESC.get(c, c) for c in t))
                    else:
                        src.append(t)
                    val.append(None)
                    val[-1] = t
            text = "".join(src)
            # what the pieces denote when read together
            v = fstring_value("".join(src), self.vars, multi)
            if v is None:
                return self.lit("".join(val))
            if multi:
                return "f'''" + text + "'''", v
            return "f'" + text + "'", v
        if k == "format":
            pieces = d.list(lambda: d.choice(["@0@", "@1@", "@2@", "@", "@@", "a", "@a@", "@0", "1@", " ", "@10@", "@01@", "@-1@", "@ 0@", "@0 @", "@+1@"]), 0, 6, 0.8)
            f = "".join(pieces)
            args, vals = [], []
            for _ in d.many(1, 4, 0.7):
                a, v = self.any(depth - 1)
                args.append(a)
                vals.append(v)
            try:
                r = strmodel.fmt(f, vals)
            except lang.LangError:
                f = re.sub(r"@[0-9]+@", "@0@", f)
                r = strmodel.fmt(f, vals)
            fs, _ = self.lit(f)
            return "%s.format(%s)" % (fs, ", ".join(args)), r
        o, v = self.operand(depth - 1)
        if k == "join":
            items = [self.s(depth - 1) for _ in d.many(0, 4, 0.7)]
            if d.bool():
                a = "[" + ", ".join(x for x, _ in items) + "]"
            elif len(items) > 1 and d.bool():
                a = "[%s], %s" % (items[0][0], ", ".join(x for x, _ in items[1:]))
            else:
                a = ", ".join(x for x, _ in items)
                if not items:
                    a = "[]"
            return "%s.join(%s)" % (o, a), v.join(x for _, x in items)
        if k == "replace":
            f, r = self.near(v), self.near(v)
            if f == "" and not isascii(v):
                f = v[:1]
            return "%s.replace(%s, %s)" % (o, self.lit(f)[0], self.lit(r)[0]), v.replace(f, r) if f or v else v.replace(f, r)
        if k == "strip":
            if d.bool() or not isascii(v):
                if v.strip(" \n\t") != v.strip(" \n\t\r\x0b\x0c"):
                    return o, v
                return o + ".strip()", v.strip(" \n\t")
            c = self.near(v)
            if not isascii(c):
                c = "a"
            return "%s.strip(%s)" % (o, self.lit(c)[0]), v.strip(c) if c else v
        if not isascii(v):
            return "(%s)" % o, v
        if k == "substring":
            n = d.int(0, 2)
            p = [self.pos(len(v)) for _ in range(n)]
            return "%s.substring(%s)" % (o, ", ".join(map(str, p))), strmodel.method(v, "substring", p)
        if k == "case":
            m = d.choice(["to_upper", "to_lower"])
            return "%s.%s()" % (o, m), strmodel.method(v, m, [])
        if k == "under":
            return o + ".underscorify()", strmodel.method(v, "underscorify", [])
        if k == "index":
            if not v:
                return "(%s)" % o, v
            i = d.int(-len(v), len(v) - 1)
            return "%s[%d]" % (o, i), v[i]
        raise AssertionError(k)

    def operand(self, depth):
        """something a method can be called on"""
        a, v = self.s(depth)
        if re.match(r"^f?'", a) and " + " not in a or re.match(r"^\w+$", a):
            return a, v
        return "(" + a + ")", v

    def any(self, depth):
        d = self.d
        k = d.int(0, 4)
        if k == 0:
            n = d.int(-20, 300)
            return str(n), n
        if k == 1:
            b = d.bool()
            return ("true" if b else "false"), b
        return self.s(depth)

    def other(self):
        """(kind, source, value) of another type"""
        d = self.d
        o, v = self.operand(d.int(0, 2))
        k = d.choice(["contains", "startswith", "endswith", "split", "to_int", "eq", "in", "trip", "err"])
        self.feats.add(k)
        if k in ("contains", "startswith", "endswith"):
            x = self.near(v)
            if k != "contains" and v and d.bool():
                x = v[: d.int(0, len(v))] if k == "startswith" else v[d.int(0, len(v)):]
            return "v", "%s.%s(%s)" % (o, k, self.lit(x)[0]), strmodel.method(v, k, [x])
        if k == "in":
            x = self.near(v)
            return "v", "%s in %s" % (self.lit(x)[0], o), x in v
        if k == "eq":
            x = v if d.bool() else v + d.choice(self.theme)
            return "v", "%s == %s" % (o, self.lit(x)[0]), v == x
        if k == "split":
            if d.bool(0.3) and not re.search("[\x0b\x0c\x1c-\x1f\x85\xa0]", v):
                return "l", o + ".split()", v.split()
            x = self.near(v) or "a"
            return "l", "%s.split(%s)" % (o, self.lit(x)[0]), v.split(x)
        if k == "trip":
            # metamorphic: split and join are inverse, format of a placeholder is the value
            x = self.near(v) or "a"
            xs = self.lit(x)[0]
            return "v", "%s.join((%s).split(%s)) == %s and '@0@'.format(%s) == %s" % (xs, o, xs, o, o, o), True
        if k == "to_int":
            n = d.weighted([(5, lambda: d.int(-300, 300)), (1, lambda: d.int(-2 ** 63, 2 ** 63 - 1))])()
            s = ("%d" % n) if d.bool(0.7) else (" " * d.int(0, 2) + "%+d" % n + d.choice(["", " ", "\n", "\t"]))
            if n >= 0 and d.bool(0.2):
                s = "00" + str(n)
            # the smallest number has no literal
            return "v", self.lit(s)[0] + ".to_int()" if abs(n) < 2 ** 63 - 1 else "'1'.to_int()", n if abs(n) < 2 ** 63 - 1 else 1
        bad = d.choice([
            lambda: "'%s'.to_int()" % d.choice(["", " ", "a", "1a", "0x1", "1.5", "--1", "9223372036854775808", "-9223372036854775809", "1 2", "+", "99999999999999999999"]),
            lambda: "'@%d@'.format(%s)" % (d.int(2, 5), ", ".join(["1"] * d.int(1, 2))),
            lambda: "%s.split('')" % o,
            lambda: "%s[%d]" % (o, len(v.encode()) + d.int(0, 3)),
            lambda: "%s[%d]" % (o, -len(v.encode()) - d.int(1, 3)),
            lambda: "%s.join(%s)" % (o, d.choice(["1", "['a', 1]", "true", "[['a'], {}]"])),
            lambda: "%s.replace('a')" % o,
            lambda: "%s.contains(1)" % o,
            lambda: "%s.strip(1)" % o,
            lambda: "%s.substring('1')" % o,
            lambda: "%s + %s" % (o, d.choice(["1", "[]", "true", "{}"])),
            lambda: "f'@undefined_one@'",
            lambda: "%s - 'a'" % o,
            lambda: d.choice(["'\\x1'", "'\\u12'", "'\\xzz'", "'abc", "'\\U0011000'", "'\\Uffffffff'", "'''abc"]),
            lambda: "%s.%s('a', 'b', 'c')" % (o, d.choice(["contains", "to_int", "to_upper", "replace", "startswith", "split", "strip", "underscorify"])),
        ])()
        return "err", bad, None


def fstring_value(text, vars, multi):
    """independent reading of the text between the quotes; None if it is in error"""
    out = []
    i = 0
    while i < len(text):
        c = text[i]
        if c == "\\" and not multi:
            m = {v[1]: k for k, v in ESC.items()}
            if i + 1 >= len(text) or text[i + 1] not in m:
                return None
            out.append(m[text[i + 1]])
            i += 2
            continue
        m = re.compile(r"@([A-Za-z_][A-Za-z0-9_]*)@").match(text, i)
        if m:
            if m.group(1) not in vars:
                return None
            out.append(strmodel.to_str(vars[m.group(1)]))
            i = m.end()
            continue
        out.append(c)
        i += 1
    return "".join(out)


def case(d, ctx):
    g = G(d)
    lines, exp = [], []
    err = False
    for i in d.many(1, 12, 0.9):
        if d.bool(0.3):
            n = "v%d" % d.int(0, 3)
            e, v = g.any(2)
            if len(str(v)) > 9000:
                continue
            lines.append("%s = %s" % (n, e))
            g.vars[n] = v
            continue
        if d.bool(0.55):
            e, v = g.s(d.int(0, 3))
            kind = "v"
        else:
            kind, e, v = g.other()
        if kind == "err":
            lines.append("message(%s)" % e)
            err = True
            break
        if kind == "l":
            lines.append("message('<<%d:', (%s).length(), '\\x01'.join(%s), ':%d>>')" % (i, e, e, i))
            exp.append((i, "%d %s" % (len(v), display("\x01".join(v)))))
        else:
            lines.append("message('<<%d:', %s, ':%d>>')" % (i, e, i))
            exp.append((i, display(strmodel.to_str(v))))
    src = "\n".join(lines) + "\n"
    d.note(src)
    d.key = src
    d.nontrivial = len(g.feats) >= 2
    d.label(*g.feats)
    d.sample = dict(program=src[:600], ends_in_error=err)
    w = ctx.fresh()
    write(w + "/t.meson", src)
    r = ctx.run([ctx.muon, "internal", "eval", "t.meson"])
    text = (r.out + r.err).decode("utf8", "surrogateescape")
    if r.crashed:
        raise Fail("muon crashed: " + r.why())
    if not err:
        diff = lang.compare(exp, text)
        if diff:
            raise Fail(diff + "\n" + r.why())
    if err and r.rc == 0:
        raise Fail("the last line is in error, but was accepted\n" + r.why())
    if err and "unterminated" not in text and "escape" not in text and lines[-1].find("'''") < 0:
        diff = lang.compare(exp, text)
        if diff and not re.search(r"'abc|'\\+[xuU]", lines[-1]):
            raise Fail(diff + "\n" + r.why())
    if not err and r.rc != 0:
        raise Fail("a correct program was refused\n" + r.why())


if __name__ == "__main__":
    sys.exit(pbt.main(pbt.Spec(
        "C03", case, quick=24000, thorough=300000,
        rule="a case is a program of 1..12 string expressions (literals in all spellings, f-strings, every string method, nested) with the exact bytes of every result compared; a quarter end in an error; non-trivial: at least two different operations occur",
        assumptions=["positions, case and underscorify on ASCII strings only", "octal escapes below \\200"],
    )))
