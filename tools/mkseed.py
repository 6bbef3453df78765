"""helper to write seeded/<id>: edits are applied to a copy of the files and diffed"""
import difflib, json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def seed(i, prop, edits, needs, breaks, demo, files=None):
    d = "%s/seeded/%s" % (V, i)
    os.makedirs(d, exist_ok=True)
    patch = ""
    by = {}
    for f, old, new in edits:
        by.setdefault(f, []).append((old, new))
    for f, l in by.items():
        s = t = open("/repo/" + f).read()
        for old, new in l:
            if t.count(old) != 1:
                raise SystemExit("%s: %s: %d matches of %r" % (i, f, t.count(old), old))
            t = t.replace(old, new)
        patch += "".join(difflib.unified_diff(s.splitlines(1), t.splitlines(1), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(patch)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.sh", "w").write(demo)
    os.chmod(d + "/demo.sh", 0o755)
    for n, c in (files or {}).items():
        open(d + "/" + n, "w").write(c)


PRE = """#!/bin/bash
# run in the repository, after the build
muon=$PWD/_build/muon
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cd "$t"
"""
