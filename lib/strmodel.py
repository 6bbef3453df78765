"""reference model of the string methods"""
import re


def lower(s):
    return "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in s)


def upper(s):
    return "".join(chr(ord(c) - 32) if "a" <= c <= "z" else c for c in s)


def to_str(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    return str(v)


def fmt(s, args):
    import lang

    def sub(m):
        i = int(m.group(1))
        if i >= len(args):
            raise lang.LangError("format index")
        return to_str(args[i])

    return re.sub(r"@([0-9]+)@", sub, s)


def flatten(args):
    out = []
    for a in args:
        if isinstance(a, list):
            out += flatten(a)
        else:
            out.append(a)
    return out


def method(o, m, args):
    import lang

    E = lang.LangError

    def n(lo, hi):
        if not lo <= len(args) <= hi:
            raise E("arguments")

    def t(*ts):
        for a, x in zip(args, ts):
            lang.want(a, x)

    if m in ("contains", "startswith", "endswith"):
        n(1, 1)
        t("str")
        return {"contains": o.__contains__, "startswith": o.startswith, "endswith": o.endswith}[m](args[0])
    if m == "format":
        args = flatten(args)
        for a in args:
            lang.want(a, "int", "bool", "str")
        return fmt(o, args)
    if m == "join":
        args = flatten(args)
        for a in args:
            lang.want(a, "str")
        return o.join(args)
    if m == "replace":
        n(2, 2)
        t("str", "str")
        return o.replace(args[0], args[1])
    if m == "split":
        n(0, 1)
        t("str")
        if not args:
            return o.split()
        if args[0] == "":
            raise E("separator")
        return o.split(args[0])
    if m == "strip":
        n(0, 1)
        t("str")
        if not args:
            return o.strip(" \n\t")
        return o.strip(args[0]) if args[0] else o
    if m == "substring":
        n(0, 2)
        t("int", "int")
        a = list(args)
        return o[slice(a[0] if a else 0, a[1] if len(a) > 1 else None)]
    if m == "to_int":
        n(0, 0)
        s = o.strip(" \n\t")
        if not re.fullmatch(r"[+-]?[0-9]+", s) or not -2 ** 63 <= int(s) < 2 ** 63:
            raise E("to_int")
        return int(s)
    if m == "to_upper":
        n(0, 0)
        return upper(o)
    if m == "to_lower":
        n(0, 0)
        return lower(o)
    if m == "underscorify":
        n(0, 0)
        return re.sub(r"[^a-zA-Z0-9]", "_", o)
    raise E("no method " + m)
