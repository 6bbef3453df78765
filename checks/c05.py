#!/usr/bin/env python3
"""C05: muon fmt keeps the program and is idempotent."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt, syntax
from pbt import Fail, write


def config(d):
    c = {}
    if d.bool(0.4):
        c["max_line_len"] = str(d.choice([0, 1, 10, 20, 40, 60, 80, 100, 1000]))
    if d.bool(0.4):
        c["indent_by"] = "'" + d.choice(["  ", "\t", "    ", " ", "        ", ""]) + "'"
    for k in ("space_array", "kwargs_force_multiline", "wide_colon", "no_single_comma_function"):
        if d.bool(0.3):
            c[k] = d.choice(["true", "false"])
    return c


def indent_ok(starts, unit):
    depth = 0
    for t, ind in starts:
        if t in ("endif", "endforeach", "else", "elif"):
            depth -= 1
        if ind != unit * depth:
            return "statement starting with %r is indented by %r at depth %d" % (t, ind, depth)
        if t in ("if", "foreach", "else", "elif"):
            depth += 1
    return None


def case(d, ctx):
    g = syntax.Gen(d)
    comments = d.bool(0.7)
    stmts = g.block(3, False, 1, 10)
    wild = d.choice([0, 0.05, 0.2, 0.5])
    cfg = config(d)
    if cfg.get("no_single_comma_function") == "true":
        # a trailing comma asks for one argument per line, and this removes it
        stmts = [(a, syntax.no_trailing(t), b) for a, t, b in stmts]
    src = syntax.layout(d, stmts, wild, comments)
    d.note(src)
    d.note("configuration: %r" % cfg)
    d.key = (src, tuple(sorted(cfg.items())))
    try:
        t0, c0, _ = syntax.tokenize(src)
    except ValueError as e:
        raise Fail("harness: " + str(e))
    d.nontrivial = len(t0) >= 12
    d.label("wild:%s" % wild, *(["comments"] if c0 else []), *["f:" + f for f in g.feats], *["cfg:" + k for k in cfg])
    d.sample = dict(program=src[:500], config=cfg)
    w = ctx.fresh()
    write(w + "/t.meson", src)
    args = []
    how = d.int(0, 2) if cfg else 0
    if cfg:
        write(w + "/fmt.ini", "".join("%s = %s\n" % kv for kv in cfg.items()))
        args = ["-c", "fmt.ini"]
    r = ctx.run([ctx.muon, "fmt"] + args + ["t.meson"])
    if r.crashed:
        raise Fail("muon crashed: " + r.why())
    if r.rc != 0:
        raise Fail("muon fmt refuses the program\n" + r.why())
    out = r.out.decode("utf8", "surrogateescape")
    d.note("formatted:\n" + out)
    try:
        t1, c1, starts = syntax.tokenize(out)
    except ValueError as e:
        raise Fail("the formatted program is broken: %s\n%s" % (e, out))
    t0, t1 = syntax.strip_outer(t0), syntax.strip_outer(t1)
    if t0 != t1:
        i = next((i for i, (a, b) in enumerate(zip(t0, t1)) if a != b), min(len(t0), len(t1)))
        raise Fail("the program changed at token %d: %r became %r" % (i, t0[max(0, i - 3):i + 4], t1[max(0, i - 3):i + 4]))
    if c0 != c1:
        raise Fail("the comments changed: %r became %r" % (c0, c1))
    unit = cfg.get("indent_by", "'    '")[1:-1]
    bad = indent_ok(starts, unit)
    if bad:
        raise Fail(bad)
    # again
    write(w + "/o.meson", out)
    r2 = ctx.run([ctx.muon, "fmt"] + args + ["o.meson"])
    if r2.crashed or r2.rc != 0:
        raise Fail("the formatted program is refused\n" + r2.why())
    if r2.out != r.out:
        raise Fail("formatting again gives something else:\n" + r2.out.decode("utf8", "surrogateescape"))
    q = ctx.run([ctx.muon, "fmt", "-q"] + args + ["o.meson"])
    if q.rc != 0:
        raise Fail("fmt -q on a formatted file: " + q.why())
    q = ctx.run([ctx.muon, "fmt", "-q"] + args + ["t.meson"])
    if (q.rc != 0) != (src != out):
        raise Fail("fmt -q says %d, but formatting %s the file\n%s" % (q.rc, "changes" if src != out else "does not change", q.why()))
    if open(w + "/t.meson").read() != src:
        raise Fail("fmt without -i wrote to the file")
    if d.bool(0.3):
        i = ctx.run([ctx.muon, "fmt", "-i"] + args + ["t.meson"])
        if i.rc != 0 or open(w + "/t.meson", newline="").read() != out:
            raise Fail("fmt -i wrote something else than fmt prints\n" + i.why())


def loses(text, want):
    def fn(ctx):
        w = ctx.fresh()
        write(w + "/t.meson", text)
        r = ctx.run([ctx.muon, "fmt", "t.meson"])
        try:
            return r.crashed or r.rc != 0 or syntax.tokenize(r.out.decode())[:2] != syntax.tokenize(text)[:2]
        except ValueError:
            return True
    return want, fn


KNOWN = [
    loses("a = (a)[ #c1\na]\n", "a comment after the bracket of an index: the rest of the expression becomes part of the comment"),
    loses("a( #c1\na, #c2\nb: c)\n", "a comment after the opening parenthesis of a call is moved behind the call"),
    loses("a = [a, b + c[1] #c1\n]\n", "a comment after a last element that ends in an index, without a comma: the comma that is added becomes part of the comment"),
    loses("a = [b() + (a), { #c1\n'a': a()}]\n", "a comment after a brace that is not the first in the statement is written twice, swallowing a parenthesis"),
]


if __name__ == "__main__":
    sys.exit(pbt.main(pbt.Spec(
        "C05", case, quick=8000, thorough=150000,
        shrink_budget=2000, known=KNOWN, rule="a case is a random program (all constructs, nesting up to 4) in a random layout, with comments on lines of their own, at the ends of statements and between the elements of lists that are whole elements, and a random configuration; compared by an independent tokenizer; non-trivial: at least 12 tokens",
        assumptions=["trailing commas, line breaks inside brackets and parentheses around a whole right-hand side or condition are layout",
                     "no comments inside of operands (index brackets, parentheses, argument lists that are operands): see known_findings.txt",
                     "files() is not generated: fmt sorts its arguments and removes the list around them on purpose"],
    )))
