#!/usr/bin/env python3
"""plant.py ID... : confirms seeded/ID in a scratch copy of /repo, bind-mounted
over /repo in a mount namespace of its own: the patch applies, builds and
passes the tests, the demonstration fails with it and passes without, and says
whether the property's check finds it.  --fast: without the test suite."""
import json, os, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def one(i, fast, seed):
    d = "%s/seeded/%s" % (V, i)
    meta = json.load(open(d + "/meta.json"))
    copy = "/tmp/plant/" + i
    shutil.rmtree(copy, ignore_errors=True)
    os.makedirs("/tmp/plant", exist_ok=True)
    sh("cp -a /repo " + copy)
    shutil.rmtree("/tmp/plant/demo-" + i, ignore_errors=True)
    shutil.copytree(d, "/tmp/plant/demo-" + i, ignore=shutil.ignore_patterns("patch.diff", "meta.json"))
    ns = "unshare -m bash -c 'mount --bind %s /repo && cd /repo && %%s'" % copy
    demo = "bash /tmp/plant/demo-%s/demo.sh" % i
    res = {}
    try:
        sh(ns % "git checkout -q -- . ; bash /opt/vp/build.sh")
        r = sh(ns % demo)
        res["demo clean"] = r.returncode
        if r.returncode:
            print(r.stdout[-2000:])
        r = sh(ns % ("git apply %s/patch.diff" % d))
        if r.returncode:
            print(i, "does not apply", r.stdout)
            return
        r = sh(ns % "bash /opt/vp/build.sh")
        if r.returncode:
            print(i, "does not build", r.stdout[-3000:])
            return
        if not fast:
            r = sh(ns % "bash /opt/vp/test.sh /tmp/plant/%s.json" % i)
            res["tests"] = r.stdout.strip().splitlines()[-1:]
            try:
                p = set(json.load(open("/tmp/plant/%s.json" % i))["passed"])
                b = json.load(open("/opt/vp/BASELINE.json"))
                b = b["stable"]
                res["broken tests"] = sorted(set(b) - p)[:5]
            except Exception as e:
                res["broken tests"] = repr(e)
        r = sh(ns % demo)
        res["demo patched"] = r.returncode
        import time
        t = time.time()
        c = "%s/checks/%s.py" % (V, meta["property"].lower())
        if os.path.exists(c):
            r = sh(ns % ("VERIF_SEED=%d VERIF_TIER=quick python3 %s" % (seed, c)))
            res["check"] = r.returncode
            res["wall"] = round(time.time() - t, 1)
            caught = r.returncode == 1 and "VIOLATION property=" + meta["property"] in r.stdout
            tail = r.stdout[-700:] if "-v" in sys.argv else ""
        else:
            caught, tail = None, ""
        print(i, meta["property"], "CAUGHT" if caught else "MISSED", res, tail, flush=True)
    finally:
        shutil.rmtree(copy, ignore_errors=True)
        shutil.rmtree("/tmp/plant/demo-" + i, ignore_errors=True)


ids = [a for a in sys.argv[1:] if a[0] != "-"]
for i in ids or sorted(os.listdir(V + "/seeded")):
    one(i, "--fast" in sys.argv, 1)
