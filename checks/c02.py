#!/usr/bin/env python3
"""C02: statements, control flow and value semantics against a reference
interpreter."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt, lang
from pbt import Fail, write

VARS = dict(int=["i0", "i1", "i2"], bool=["b0", "b1"], str=["s0", "s1"], list=["l0", "l1", "l2"], dict=["d0", "d1", "d2"])
ALL = [v for t in VARS for v in VARS[t]]
TYPE = {v: t for t in VARS for v in VARS[t]}


class SubdirDone(Exception):
    pass


class Interp2(lang.Interp):
    files = {}

    def st(self, s):
        if s[0] == "subdir_done":
            raise SubdirDone
        if s[0] == "subdir":
            try:
                self.run(s[2])
            except SubdirDone:
                pass
            return
        super().st(s)

    def top(self, block):
        try:
            self.run(block)
        except SubdirDone:
            pass


class Printer2(lang.Printer):
    def stmt(self, s, ind=0):
        p = "  " * ind
        if s[0] == "subdir_done":
            return [p + "subdir_done()"]
        if s[0] == "subdir":
            self.path.append(s[1])
            where = "/".join(self.path)
            self.files[where] = "\n".join(self.block(s[2])) + "\n"
            self.path.pop()
            return [p + "subdir('%s')" % s[1]]
        return super().stmt(s, ind)


class G:
    def __init__(self, d, it, subdirs):
        self.d, self.it = d, it
        self.g = lang.Gen(d, it)
        self.n = 0
        self.left = 60
        self.subdirs = subdirs
        self.nsub = 0
        self.feats = set()

    def ex(self, t, depth=2):
        return self.g.expr(t, self.d.int(0, depth))

    def run1(self, s):
        """execute as generated; what fails ends the program"""
        try:
            self.it.st(s)
            return True
        except (lang.LangError, lang.Undecided):
            return False
        except (lang.Break, lang.Continue, SubdirDone):
            return True

    def block(self, depth, loop, top=False):
        d = self.d
        out = []
        for _ in d.many(0 if not top else 2, 6 if not top else 14, 0.75 if not top else 0.9):
            if self.left <= 0:
                break
            self.left -= 1
            s = self.stmt(depth, loop, top)
            out += s
            for x in s:
                if x[0] not in ("if", "foreach", "subdir"):
                    self.run1(x)
        return out

    def msg(self, e):
        self.n += 1
        return ("msg", "m%d" % self.n, e)

    def stmt(self, depth, loop, top):
        d = self.d
        k = d.weighted([(10, "assign"), (6, "msg"), (9, "plus"), (6, "if"), (6, "foreach"), (2, "set"), (2, "unset"),
                        (2, "get"), (3 if loop else 0, "ctl"), (1, "assert"), (3, "alias"), (2 if self.subdirs else 0, "subdir"), (1 if self.subdirs else 0, "sdone")])
        if depth <= 0 and k in ("if", "foreach", "subdir"):
            k = "plus"
        if k == "assign":
            v = d.choice(ALL)
            return [("assign", v, self.ex(TYPE[v], 3))]
        if k == "alias":
            # the same value reachable under several names
            t = d.choice(["list", "dict"])
            v = d.choice(VARS[t])
            if d.bool():
                return [("assign", v, ("id", d.choice(VARS[t])))]
            src = ("id", d.choice(VARS["list"] + VARS["dict"]))
            if t == "list":
                return [("assign", v, ("list", [src, src][: d.int(1, 2)] + ([self.ex("int", 1)] if d.bool() else [])))]
            return [("assign", v, ("dict", [(("str", "a"), src), (("str", "b"), self.ex("any", 1))]))]
        if k == "msg":
            return [self.msg(self.ex("any", 3))]
        if k == "plus":
            v = d.choice([x for x in ALL if TYPE[x] != "bool"])
            t = TYPE[v]
            e = ("id", d.choice(ALL)) if t == "list" and d.bool(0.4) else self.ex(t if t != "list" else "any", 2)
            self.feats.add("+=" + t)
            return [("plus", v, e)]
        if k == "set":
            v = d.choice(ALL)
            return [("expr", ("call", "set_variable", [("str", v), self.ex(TYPE[v], 2)]))]
        if k == "unset":
            v = d.choice(ALL)
            out = [("expr", ("call", "unset_variable", [("str", v)])),
                   self.msg(("call", "is_variable", [("str", v)])),
                   self.msg(("call", "get_variable", [("str", v), self.ex(TYPE[v], 1)]))]
            if d.bool(0.9):
                # restore, so that later uses are well defined
                out.append(("assign", v, self.ex(TYPE[v], 1)) if not d.bool(0.5) else ("expr", ("call", "set_variable", [("str", v), self.ex(TYPE[v], 1)])))
            self.feats.add("unset")
            return out
        if k == "get":
            v = d.choice(ALL + ["nope"])
            if v == "nope":
                return [self.msg(("call", "get_variable", [("str", v), self.ex("any", 1)])), self.msg(("call", "is_variable", [("str", v)]))]
            return [self.msg(("call", "get_variable", [("str", v)]))]
        if k == "ctl":
            self.feats.add("ctl")
            s = (d.choice(["break", "continue"]),)
            if d.bool(0.8):
                s = ("if", [(self.ex("bool", 2), [s])], None)
            return [s]
        if k == "sdone":
            self.feats.add("sdone")
            s = ("subdir_done",)
            if d.bool(0.8):
                s = ("if", [(self.ex("bool", 2), [s])], None)
            return [s]
        if k == "assert":
            e = self.ex("bool", 2)
            try:
                if self.g.try_eval(e) is False and d.bool(0.97):
                    e = ("not", ("paren", e))
            except Exception:
                pass
            return [("assert", e)]
        if k == "if":
            self.feats.add("if")
            conds = []
            for _ in d.many(1, 4, 0.4):
                c = self.ex("bool", 2)
                conds.append((c, self.block(depth - 1, loop)))
            els = self.block(depth - 1, loop) if d.bool() else None
            if not els and not any(b for _, b in conds):
                # an if without any statement is refused by design
                conds[0] = (conds[0][0], [self.msg(("int", 1))])
            return [("if", conds, els)]
        if k == "foreach":
            self.feats.add("foreach")
            if d.bool(0.35):
                e = ("id", d.choice(VARS["dict"])) if d.bool() else self.ex("dict", 3)
                names = ["k%d" % d.int(0, 1), "e%d" % d.int(0, 1)]
                v = self.g.try_eval(e)
                if v:
                    kk = next(iter(v))
                    self.it.vars[names[0]] = kk
                    self.it.vars[names[1]] = v[kk]
                body = self.block(depth - 1, True)
            else:
                r = d.int(0, 3)
                if r == 0:
                    a = d.int(0, 4)
                    args = [("int", a + d.int(0, 5))] if d.bool() else [("int", a), ("int", a + d.int(0, 7))] + ([("int", d.int(1, 3))] if d.bool() else [])
                    e = ("call", "range", args)
                elif r == 1:
                    e = ("id", d.choice(VARS["list"]))
                else:
                    e = self.ex("list", 3)
                nm = d.choice(["e0", "e1", "i0"]) if r == 0 else d.choice(["e0", "e1"])
                names = [nm]
                v = self.g.try_eval(e)
                if v:
                    self.it.vars[nm] = v[0]
                body = self.block(depth - 1, True)
            if not body or d.bool(0.6):
                body = [self.msg(("id", names[0]))] + body
            return [("foreach", names, e, body)]
        if k == "subdir":
            self.nsub += 1
            name = "sub%d" % self.nsub
            # a directory is entered once
            body = self.block(depth - 1, False)
            self.feats.add("subdir")
            return [("subdir", name, body)] if not loop else [self.msg(("int", 0))]
        raise AssertionError(k)


def case(d, ctx):
    it = Interp2(100000)
    subdirs = d.bool(0.25)
    g = G(d, it, subdirs)
    block = []
    for v in ALL:
        s = ("assign", v, g.g.expr(TYPE[v], 1) if d.bool(0.7) else g.g.leaf(TYPE[v]))
        it.st(s)
        block.append(s)
    it.vars.update(e0=0, e1=0, k0="k", k1="k")
    for v in ("e0", "e1"):
        block.append(("assign", v, ("int", 0)))
    for v in ("k0", "k1"):
        block.append(("assign", v, ("str", "k")))
    block += g.block(3, False, True)
    # everything still reachable at the end
    for v in ALL + ["e0", "e1", "k0", "k1"]:
        block.append(g.msg(("call", "get_variable", [("str", v), ("str", "unset")])))
    pr = Printer2(d, 0.04 if d.bool(0.3) else 0.0)
    pr.files = {}
    pr.path = []
    src = "\n".join(pr.block(block)) + "\n"
    m = Interp2(4000)
    err = False
    try:
        m.top(block)
    except lang.LangError:
        err = True
    except lang.Undecided:
        raise pbt.Reject
    d.note(src)
    for f, t in pr.files.items():
        d.note("--- %s/meson.build\n%s" % (f, t))
    d.key = src
    d.nontrivial = "foreach" in g.feats and len(g.feats) >= 3
    d.label(*["f:" + f for f in g.feats], "error" if err else "ok")
    d.sample = dict(program=src[-700:], ends_in_error=err, features=sorted(g.feats))
    w = ctx.fresh()
    if subdirs:
        write(w + "/meson.build", "project('p')\n" + src)
        for f, t in pr.files.items():
            write(w + "/" + f + "/meson.build", t)
        r = ctx.run([ctx.muon, "setup", "b"])
    else:
        write(w + "/t.meson", src)
        r = ctx.run([ctx.muon, "internal", "eval", "t.meson"])
    text = (r.out + r.err).decode("utf8", "replace")
    if r.crashed:
        raise Fail("muon crashed: " + r.why())
    diff = lang.compare(m.out, text)
    if diff:
        raise Fail(diff + "\n" + r.why())
    if (r.rc != 0) != err:
        raise Fail("the program %s, but the exit status is %d\n%s" % ("is in error" if err else "is correct", r.rc, r.why()))


if __name__ == "__main__":
    sys.exit(pbt.main(pbt.Spec(
        "C02", case, quick=20000, thorough=300000,
        rule="a case is a program of assignments, +=, set/get/unset_variable, nested if and foreach with break/continue, aliased containers, and in a quarter of the cases subdirectories with subdir_done; every variable is printed at the end; non-trivial: it loops and uses at least two further kinds of statement",
        assumptions=["programs that stop within 4000 evaluation steps"],
    )))
