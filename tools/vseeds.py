#!/usr/bin/env python3
"""Verifies planted bugs without touching /repo: vseeds.py [-j N] [--nocheck] [--notest] id...
Each one is applied to a copy of /repo, which is mounted over /repo in a private namespace for the build,
the tests and the demonstration; the check of its property runs with HJ_REPO set to the copy."""
import json, os, shutil, subprocess, sys, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "db88ec0"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def ns(copy, cmd): return subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (copy, cmd)], capture_output=True, text=True)
def original(i):
    """do the removed lines belong to the original repository?"""
    own = []
    f = None
    n = 0
    for l in open("%s/seeded/%s/patch.diff" % (V, i)):
        m = re.match(r"--- a/(.*)", l)
        if m: f = m.group(1); continue
        m = re.match(r"@@ -(\d+)", l)
        if m: n = int(m.group(1)); continue
        if l.startswith("-") and not l.startswith("---"):
            b = sh("git -C /repo blame -s %s..HEAD -L %d,%d -- %s" % (BASE, n, n, f)).stdout
            own.append(not b.startswith("^"))
            n += 1
        elif l.startswith(" "): n += 1
    return "removed lines: %d original, %d own" % (own.count(False), own.count(True))
def one(i, check, test):
    o = "%s/seeded/%s" % (V, i); d = "/tmp/vs/%s" % i
    out = [original(i)]
    shutil.rmtree(d, ignore_errors=True); os.makedirs("/tmp/vs", exist_ok=True)
    sh("cp -a /repo %s" % d)
    try:
        if test:
            r = ns(d, o + "/demo.sh"); out.append("clean demo %d %s" % (r.returncode, (r.stdout + r.stderr)[-300:] if r.returncode else ""))
        a = sh("git -C %s apply %s/patch.diff" % (d, o))
        if a.returncode: return out + ["APPLY FAILED " + a.stderr]
        if test:
            b = ns(d, "bash /opt/vp/build.sh")
            if b.returncode: out.append("BUILD FAILED " + "\n".join(l for l in (b.stdout + b.stderr).splitlines() if "error" in l)[:800])
            t = ns(d, "bash /opt/vp/test.sh %s/_build/res.json" % d)
            try:
                res = json.load(open(d + "/_build/res.json")); base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
                passed = set(res.get("passed", res.get("pass", [])))
                bad = [x for x in base if x not in passed]
                out.append("tests: %d failing %s" % (len(bad), bad[:5]))
            except Exception as e: out.append("tests: %r %s" % (e, t.stderr[-300:]))
            r = ns(d, o + "/demo.sh"); out.append("patched demo %d %s" % (r.returncode, (r.stdout + r.stderr).strip()[-150:]))
        if check:
            p = json.load(open(o + "/meta.json"))["property"]
            c = sh(V + "/check " + p, cwd=V, env=dict(os.environ, HJ_REPO=d))
            ls = c.stdout.splitlines()
            out.append("check %s rc %d %s" % (p, c.returncode, [l for l in ls if "violation:" in l][:2] or ls[-1:]))
    finally: shutil.rmtree(d, ignore_errors=True)
    return out
if __name__ == "__main__":
    a = sys.argv[1:]; j = 2
    if "-j" in a: k = a.index("-j"); j = int(a[k + 1]); del a[k:k + 2]
    check = "--nocheck" not in a; test = "--notest" not in a
    a = [x for x in a if not x.startswith("--")] or sorted(os.listdir(V + "/seeded"))
    with ThreadPoolExecutor(j) as ex:
        for i, out in zip(a, ex.map(lambda i: one(i, check, test), a)): print(i, *["\n   " + l for l in out], flush=True)
