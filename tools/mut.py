#!/usr/bin/env python3
"""Try a textual change in a scratch copy of /repo: mut.py 'old' 'new' C01 C02 ... [-n occurrence] [-f file]
Runs the named checks against the copy and prints their verdicts (development aid)."""
import os, shutil, subprocess, sys, tempfile
a = sys.argv[1:]
n, f = 1, "include/hyperjet/hyperjet.h"
if "-n" in a:
    i = a.index("-n"); n = int(a[i + 1]); del a[i:i + 2]
if "-f" in a:
    i = a.index("-f"); f = a[i + 1]; del a[i:i + 2]
old, new, ids = a[0], a[1], a[2:]
d = tempfile.mkdtemp(prefix="hjmut-")
try:
    subprocess.check_call(["cp", "-a", "/repo/include", "/repo/python", d + "/"]) if os.path.isdir("/repo/python") else None
    p = os.path.join(d, f)
    s = open(p).read()
    parts = s.split(old)
    if len(parts) <= n: sys.exit("not found (%d occurrences)" % (len(parts) - 1))
    s = old.join(parts[:n]) + new + old.join(parts[n:])
    open(p, "w").write(s)
    for c in ids:
        r = subprocess.run([os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/check", c], env=dict(os.environ, HJ_REPO=d), capture_output=True, text=True)
        ls = r.stdout.splitlines()
        print(c, "rc", r.returncode, ls[0] if ls else r.stderr[-300:])
        for l in ls[1:12]:
            if "violation" in l or "instance" in l or "undecided" in l or "component" in l: print("    ", l[:220])
finally:
    shutil.rmtree(d)
