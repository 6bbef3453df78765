#!/usr/bin/env python3
"""C01: expressions against a reference evaluator."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt, lang
from pbt import Fail, write


def ops(e, acc):
    if isinstance(e, tuple) and e:
        if isinstance(e[0], str) and e[0] in lang.KINDS:
            acc.add(e[0] if e[0] not in ("bin", "cmp", "meth") else "%s:%s" % (e[0], e[1] if e[0] != "meth" else e[2]))
        for x in e[1:]:
            ops(x, acc)
    elif isinstance(e, list):
        for x in e:
            ops(x, acc)
    return acc


def case(d, ctx):
    it = lang.Interp(20000)
    g = lang.Gen(d, it)
    block = []
    used = set()
    for i in d.many(1, 14, 0.9):
        t = g.anytype()
        e = g.expr(t, d.int(1, 4))
        ops(e, used)
        if d.bool(0.25):
            n = "v%d" % d.int(0, 4)
            s = ("assign", n, e)
        else:
            s = ("msg", i, e)
        block.append(s)
        try:
            it.st(s)
        except lang.Undecided:
            raise pbt.Reject
    err = d.bool(0.35)
    if err:
        e = g.bad(d.int(0, 2))
        if d.bool(0.3):
            e = d.choice([("list", [e]), ("paren", e), ("bin", "+", e, ("int", 1)), ("tern", ("bool", True), e, ("int", 1)), ("dict", [(("str", "k"), e)])])
        try:
            it.ev(e)
            err = False
        except lang.LangError:
            block.append(("msg", "E", e))
        except lang.Undecided:
            err = False
    pr = lang.Printer(d, 0.08 if d.bool(0.5) else 0.0)
    src = "\n".join(pr.block(block)) + "\n"
    d.note(src)
    d.key = src
    ks = {u.split(":")[0] for u in used}
    d.nontrivial = len(ks & {"bin", "cmp", "meth", "idx", "tern", "and", "or", "not"}) >= 2
    d.label(*used)
    if err:
        d.label("error-case")
    d.sample = dict(program=src[:600], ends_in_error=err)
    w = ctx.fresh()
    write(w + "/t.meson", src)
    r = ctx.run([ctx.muon, "internal", "eval", "t.meson"])
    text = (r.out + r.err).decode("utf8", "replace")
    if r.crashed:
        raise Fail("muon crashed: " + r.why())
    diff = lang.compare(it.out, text)
    if diff:
        raise Fail(diff + "\n" + r.why())
    if err and r.rc == 0:
        raise Fail("the last expression is in error, but was accepted\n" + r.why())
    if not err and r.rc != 0:
        raise Fail("a correct program was refused\n" + r.why())


if __name__ == "__main__":
    sys.exit(pbt.main(pbt.Spec(
        "C01", case, quick=24000, thorough=300000,
        rule="a case is a program of 1..14 typed expressions over literals and earlier variables, a third of them ending in an expression that is in error; non-trivial: at least two different kinds of operator, index, method or conditional occur",
        assumptions=["results within 64-bit range; division and remainder of negative numbers truncate (the manual leaves it open)"],
    )))
