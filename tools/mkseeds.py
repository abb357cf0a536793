#!/usr/bin/env python3
"""Regenerates /verif/seeded/<id>/ from tools/seeds/*.py against /repo's HEAD (mkseeds.py [id ...]).
--verify applies each one to /repo, rebuilds, runs the tests, the demonstration and the check of its property, and undoes it."""
import glob, json, os, shutil, stat, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
H = "include/hyperjet/hyperjet.h"
CPP = """#!/bin/bash
# run in /repo: builds the demonstration against include/ and runs it
d=$(dirname "$(realpath "$0")"); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
%s -std=c++17 %s -Iinclude -I/usr/include/eigen3 "$d/demo.cpp" -o "$t/demo" %s && "$t/demo"
"""
PYD = """#!/bin/bash
# run in /repo after the build: uses the extension module built there
d=$(dirname "$(realpath "$0")")
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=_build/python /opt/vp/venv/bin/python "$d/demo.py"
"""
def load():
    seeds = {}
    for p in sorted(glob.glob(V + "/tools/seeds/*.py")):
        g = dict(H=H, seeds=seeds)
        exec(compile(open(p).read(), p, "exec"), g)
    return seeds
def apply(root, edits):
    for e in edits:
        f, old, new = e[0], e[1], e[2]
        n = e[3] if len(e) > 3 else 1
        p = os.path.join(root, f); s = open(p).read(); parts = s.split(old)
        if len(parts) <= n: raise SystemExit("pattern not found: %r" % old)
        open(p, "w").write(old.join(parts[:n]) + new + old.join(parts[n:]))
def make(i, s):
    d = tempfile.mkdtemp(prefix="hjseed-")
    try:
        subprocess.check_call("git -C %s archive HEAD | tar x -C %s && cd %s && git init -q . && git add -A && git -c user.email=a -c user.name=a commit -qm x" % (R, d, d), shell=True)
        apply(d, s["edits"])
        diff = subprocess.check_output(["git", "-C", d, "diff"], text=True)
    finally:
        shutil.rmtree(d)
    o = os.path.join(V, "seeded", i); os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(diff)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["what"]), open(o + "/meta.json", "w"), indent=1)
    if "cpp" in s:
        open(o + "/demo.cpp", "w").write(s["cpp"])
        sh = CPP % (s.get("cxx", "g++"), s.get("flags", "-O1"), s.get("libs", ""))
    elif "py" in s:
        open(o + "/demo.py", "w").write(s["py"]); sh = PYD
    else: sh = s["sh"]
    if "sh" in s: sh = s["sh"]
    open(o + "/demo.sh", "w").write(sh); os.chmod(o + "/demo.sh", 0o755)
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def verify(i, s, checks=True):
    o = os.path.join(V, "seeded", i)
    py = "py" in s or any("python/" in e[0] for e in s["edits"])
    r0 = sh(o + "/demo.sh", cwd=R)
    out = ["clean demo %d" % r0.returncode]
    if r0.returncode: out.append((r0.stdout + r0.stderr)[-400:])
    try:
        a = sh("git -C %s apply %s/patch.diff" % (R, o))
        if a.returncode: return out + ["apply failed " + a.stderr]
        if not os.environ.get("HJ_NOTEST"):
            b = sh("bash /opt/vp/build.sh"); 
            if b.returncode: out.append("BUILD FAILED " + (b.stdout + b.stderr)[-600:])
            t = sh("bash /opt/vp/test.sh /tmp/hjseed.json")
            try:
                res = json.load(open("/tmp/hjseed.json")); base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
                passed = set(res.get("passed", res.get("pass", [])))
                bad = [x for x in base if x not in passed]
                out.append("tests: %d failing %s" % (len(bad), bad[:5]))
            except Exception as e: out.append("tests: %r" % e)
        r1 = sh(o + "/demo.sh", cwd=R)
        out.append("patched demo %d" % r1.returncode)
        if checks:
            c = sh(V + "/check " + s["property"], cwd=V)
            ls = [l for l in c.stdout.splitlines()]
            out.append("check %s rc %d %s" % (s["property"], c.returncode, [l for l in ls if "violation" in l.lower()][:2] or ls[-1:]))
    finally:
        sh("git -C %s checkout -- ." % R)
    return out
if __name__ == "__main__":
    a = sys.argv[1:]; v = "--verify" in a; a = [x for x in a if x != "--verify"]
    S = load()
    if not a:
        for x in os.listdir(V + "/seeded"):
            if x not in S: print("stale", x)
    for i in (a or S):
        make(i, S[i])
        if v: print(i, *["\n   " + l for l in verify(i, S[i])], flush=True)
    if v: sh("bash /opt/vp/build.sh")
