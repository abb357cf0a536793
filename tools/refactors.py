#!/usr/bin/env python3
"""Behaviour-preserving edits of /repo, on which the checks have to stay quiet: refactors.py [-j N] [--build] [name...] [--checks C01,C02]
Each one is applied to a copy of /repo; the checks run with HJ_REPO set to the copy. --build also builds and tests it."""
import glob, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = "include/hyperjet/hyperjet.h"
def load():
    r = {}
    for p in sorted(glob.glob(V + "/tools/refactors/*.py")): exec(compile(open(p).read(), p, "exec"), dict(H=H, refactors=r, re=re))
    return r
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def apply(root, edits):
    for e in edits:
        f, old, new = e[0], e[1], e[2]
        p = os.path.join(root, f); s = open(p).read()
        if callable(old): t = old(s)
        else:
            if old not in s: raise SystemExit("pattern not found: %r" % old)
            t = s.replace(old, new) if len(e) > 3 else s.replace(old, new, 1)
        open(p, "w").write(t)
if __name__ == "__main__":
    a = sys.argv[1:]; checks = None; build = "--build" in a
    if "--checks" in a: k = a.index("--checks"); checks = a[k + 1].split(","); del a[k:k + 2]
    a = [x for x in a if not x.startswith("--")]
    R = load(); allc = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
    for name in a or R:
        d = "/tmp/rf/" + name; shutil.rmtree(d, ignore_errors=True); os.makedirs("/tmp/rf", exist_ok=True); sh("cp -a /repo " + d)
        try:
            apply(d, R[name]["edits"])
            if build:
                ns = lambda cmd: subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (d, cmd)], capture_output=True, text=True)
                b = ns("bash /opt/vp/build.sh")
                if b.returncode: print(name, "BUILD FAILED", "\n".join(l for l in (b.stdout + b.stderr).splitlines() if "error" in l)[:1500]); continue
                ns("bash /opt/vp/test.sh %s/_build/res.json" % d)
                res = json.load(open(d + "/_build/res.json")); passed = set(res.get("passed", res.get("pass", [])))
                print(name, "tests failing:", [x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x not in passed][:5], flush=True)
            for c in checks or R[name].get("checks") or allc:
                t = time.time(); p = sh(V + "/check " + c, cwd=V, env=dict(os.environ, HJ_REPO=d)); ls = p.stdout.splitlines()
                u = [l for l in ls if "undecided:" in l]
                s = next((l for l in ls if l.startswith(c + ":")), "")
                if p.returncode or u or "--all" in sys.argv: print("  %s %s rc %d (%.0f s) %s" % (name, c, p.returncode, time.time() - t, s), *["\n      " + l[:400] for l in ([l for l in ls if not l.startswith(c + ":")][:8] if p.returncode else u[:3])], p.stderr[-400:], flush=True)
            print(name, "done", flush=True)
        finally: shutil.rmtree(d, ignore_errors=True)
