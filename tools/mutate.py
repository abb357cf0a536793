#!/usr/bin/env python3
"""Single-token mutants of the sources, to find blind spots: mutate.py FILE N SEED [-j J] [--lines A-B]
Prints for each mutant the check that reports it, or SURVIVED."""
import json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]; J = 2; lo, hi = 1, 10**9
if "-j" in a: k = a.index("-j"); J = int(a[k + 1]); del a[k:k + 2]
if "--lines" in a: k = a.index("--lines"); lo, hi = map(int, a[k + 1].split("-")); del a[k:k + 2]
F, N, SEED = a[0], int(a[1]), int(a[2])
rnd = random.Random(SEED)
text = open("/repo/" + F).read()
OPS = [(r"(?<![+\w])\+(?![+=])", ["-"]), (r"(?<=[\w\)\]] )-(?= )", ["+"]), (r"(?<=[\w\)\]] )\*(?= )", ["/", "+"]), (r"(?<=[\w\)\]] )/(?= )", ["*"]), (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"(?<= )<(?= )", ["<=", ">"]), (r"(?<= )>(?= )", [">=", "<"]), (r"(?<= )<=(?= )", ["<"]), (r"(?<= )>=(?= )", [">"]),
       (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"(?<![\w.])0(?![\w.x])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]), (r"(?<![\w.])2(?![\w.])", ["1", "3"]), (r"(?<![\w.])3(?![\w.])", ["2"]), (r"\bi\b", ["j", "i + 1", "0"]), (r"\bj\b", ["i", "j - 1"]), (r"\bda\b", ["db"]), (r"\bdb\b", ["da"]),
       (r"\bdaa\b", ["dab"]), (r"\bdbb\b", ["daa"]), (r"\bdab\b", ["daa"]), (r"\bdbc\b", ["dac"]), (r"\bdac\b", ["dab"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bsize\(\)", ["(size() - 1)", "data_length()"]), (r"\bdata_length\(\)", ["size()"]), (r"\bsin\b", ["cos"]), (r"\bcos\b", ["sin"]), (r"\btan\b", ["tanh"]), (r"\bsqrt\b", ["cbrt"]), (r"\blog\b", ["log2"]), (r"\basin\b", ["acos"]),
       (r"\bcosh\b", ["sinh"]), (r"\ba\b(?=[.\[])", ["b"]), (r"\bb\b(?=[.\[])", ["a"]), (r"\bthis->f\(\)", ["b.f()"]), (r"\bunary<false>", ["unary<true>"]), (r"^( +)([\w.\[\]()+ *-]+ (=|\+=|-=) [^;{}]*;)$", [r"\1;"]), (r"^( +)([\w.>-]+\([^;{}]*\);)$", [r"\1;"]), (r"\bmin\b", ["max"]), (r"\bbegin\(\)", ["end()"]), (r"!(?=\w)", [""]), (r"(?<![\w])-(?=\w)", [""]),
       (r'"(\w)(\w*)"(?=,)', [r'"\1_\2"', r'"\g<1>"']), (r"\bconst (?=\w+ &\w)", [""]), (r"\breturn \w+;", ["return {};"]), (r"\bsin\b", ["sinh"]), (r"\bexp\b", ["exp2"]), (r"\bround\b", ["floor"]), (r"\bcopy\w*\b", [""])]
cand = []
lines = text.split("\n"); comment = False
for n, l in enumerate(lines, 1):
    s = l.strip()
    if not (lo <= n <= hi) or not s or s.startswith(("//", "#", "*", "/*", "template", "using", "static_assert")): continue
    for p, rs in OPS:
        for m in re.finditer(p, l):
            for r in rs:
                t = l[:m.start()] + m.expand(r) + l[m.end():]
                if t != l: cand.append((n, l, t))
rnd.shuffle(cand)
seen, pick = {}, []
for c in cand:
    if seen.get(c[0], 0) >= 1 and N < len(lines): continue
    seen[c[0]] = 1; pick.append(c)
    if len(pick) >= N * 2: break
NOTPY = ["C03", "C02", "C01", "C17", "C18", "C10", "C12", "C04", "C19", "C08", "C14", "C11", "C09", "C06", "C05", "C13", "C15", "C16", "C07", "C33", "C34", "C31", "C32", "C20", "C29", "C28", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C30"]
PY = ["C21", "C22", "C24", "C25", "C26", "C27", "C28", "C23", "C30"]
ALL = PY if F.startswith("python") else NOTPY
def one(k):
    n, old, new = pick[k]
    d = "/tmp/mut/%d_%d" % (os.getpid(), k); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    try:
        subprocess.run("cp -a /repo/include /repo/python /repo/*.* %s/ 2>/dev/null; cp -a /repo/. %s/ " % (d, d) if False else "cd /repo && git archive HEAD | tar x -C %s" % d, shell=True)
        L = list(lines); L[n - 1] = new; open(d + "/" + F, "w").write("\n".join(L))
        tu = d + "/" + F if F.endswith(".cpp") else V + "/tools/mutate_tu.cpp"
        c = subprocess.run("clang++ -std=c++17 -fsyntax-only -w -I%s/include -isystem /usr/include/eigen3 %s %s" % (d, "$(python3 -m pybind11 --includes 2>/dev/null) -I/opt/vp/cache/pybind11/include" if F.startswith("python") else "", tu), shell=True, capture_output=True)
        if c.returncode and not F.startswith("python"): return "%d nocompile" % n, 0
        und = []; t0 = time.time()
        for c in ALL:
            p = subprocess.run([V + "/check", c], cwd=V, env=dict(os.environ, HJ_REPO=d), capture_output=True, text=True)
            if p.returncode == 1: return "%d caught %s (%.0f s)%s\n      - %s\n      + %s" % (n, c, time.time() - t0, " after " + ",".join(und) if und else "", old.strip(), new.strip()), 1
            if p.returncode: und.append("%s:rc%d" % (c, p.returncode))
            m = re.search(r"(\d+) undecided", p.stdout)
            if m and int(m.group(1)): und.append("%s:%s" % (c, m.group(1)))
        return "%d SURVIVED (%.0f s) %s\n      - %s\n      + %s" % (n, time.time() - t0, ",".join(und), old.strip(), new.strip()), 1
    finally: shutil.rmtree(d, ignore_errors=True)
done = 0
with ThreadPoolExecutor(J) as ex:
    it = iter(range(len(pick))); fs = set()
    import concurrent.futures as cf
    while True:
        while len(fs) < J and done + len(fs) < N:
            k = next(it, None)
            if k is None: break
            fs.add(ex.submit(one, k))
        if not fs: break
        ok, fs = cf.wait(fs, return_when=cf.FIRST_COMPLETED)
        for f in ok:
            s, c = f.result(); done += c
            print(s, flush=True)
