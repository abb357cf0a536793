"""Building: the analysis engine, and LLVM IR of probe entry points compiled
against the current sources of /repo."""
import hashlib, os, re, shutil, subprocess, sys, tempfile, threading, fcntl, atexit
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("HJ_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")


class Broken(Exception):
    """The analysis itself cannot run (vanished anchor, engine failure)."""


class CompileError(Exception):
    def __init__(self, what, text):
        Exception.__init__(self, what)
        self.text = text


_work = None


def work():
    global _work
    if _work is None:
        _work = tempfile.mkdtemp(prefix="hjv-")
        atexit.register(lambda: shutil.rmtree(_work, ignore_errors=True))
    return _work


def cleanup():
    if _work: shutil.rmtree(_work, ignore_errors=True)


def engine():
    src = os.path.join(VERIF, "engine", "hjai.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, "hjai-" + h)
    if os.path.exists(exe):
        return exe
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        cfg = subprocess.check_output(["llvm-config", "--cxxflags"], text=True).replace("-fno-exceptions", "").split()
        ld = subprocess.check_output(["llvm-config", "--ldflags", "--libs"], text=True).split()
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run(["clang++", "-O1", "-w", *cfg, "-fexceptions", src, "-o", tmp, *ld], capture_output=True, text=True)
        if r.returncode:
            raise Broken("engine does not build:\n" + r.stderr[-3000:])
        os.rename(tmp, exe)
    return exe


CXX = ["clang++", "-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-ffp-contract=off", "-w", "-fno-vectorize"]
INC = ["-I" + os.path.join(VERIF, "probes"), "-I" + os.path.join(REPO, "include")]
EIGEN = ["-isystem", "/usr/include/eigen3", "-DHJ_EIGEN", "-DEIGEN_DONT_VECTORIZE"]


def compile_ir(src, name, flags=(), pre=()):
    """src: C++ text.  Returns the path of the bitcode file.  pre: include
    flags that come before the default ones."""
    d = work()
    cpp = os.path.join(d, name + ".cpp")
    with open(cpp, "w") as f:
        f.write(src)
    bc = os.path.join(d, name + ".bc")
    r = subprocess.run([*CXX, *pre, *INC, *flags, "-emit-llvm", "-c", cpp, "-o", bc + ".0"], capture_output=True, text=True)
    if r.returncode:
        raise CompileError(name, r.stderr)
    return opt_ir(bc)


def opt_ir(bc):
    r = subprocess.run(["opt", "-passes=function(lowerswitch,sroa)", bc + ".0", "-o", bc], capture_output=True, text=True)
    if r.returncode:
        raise Broken("opt failed: " + r.stderr[-2000:])
    os.unlink(bc + ".0")
    return bc


def compile_many(jobs, workers=8):
    """jobs: list of (src, name, flags[, pre]).  Returns {name: bc path or CompileError}."""
    def one(j):
        try:
            return j[1], compile_ir(*j)
        except CompileError as e:
            return j[1], e
    with ThreadPoolExecutor(workers) as ex:
        return dict(ex.map(one, jobs))


def compiles(src, name, flags=(), compiler="clang++", std="-std=c++17", pre=()):
    """Does the witness program type-check?  -> (ok, diagnostics)"""
    cpp = os.path.join(work(), name + ".cpp")
    with open(cpp, "w") as f:
        f.write(src)
    r = subprocess.run([compiler, std, "-w", "-fsyntax-only", *pre, *INC, *flags, cpp], capture_output=True, text=True)
    return r.returncode == 0, r.stderr


def diagnostic(text):
    """The error, with the first position in the repository it mentions."""
    ls = text.splitlines()
    e = next((l for l in ls if "error:" in l), text[:300])
    if REPO not in e:
        p = next((re.match(r"[^ ]*:\d+:\d+", l[l.index(REPO):]) for l in ls if REPO in l), None)
        if p: e = p.group(0) + ": " + e
    return e


def witnesses(head, items, name, flags=(), compiler="clang++", std="-std=c++17", pre=()):
    """items: list of (key, line of code).  Type-checks them together and
    returns {key: diagnostic} of those that are rejected.  A failure that
    belongs to no item raises CompileError."""
    top = [head.rstrip("\n")]
    start = top[0].count("\n") + 2
    src = "\n".join(top + [c.replace("\n", " ") for _, c in items]) + "\n"
    lim = ["-ferror-limit=0"] if "clang" in compiler else ["-fmax-errors=0"]
    ok, text = compiles(src, name, [*flags, *lim], compiler, std, pre)
    if ok: return {}
    bad, cur, err = {}, None, ""
    for line in text.splitlines():
        m = re.search(r"[^\s:]*/%s\.cpp:(\d+)" % re.escape(name), line)
        if re.search(r"\b(fatal )?error:", line): err = line
        if m and int(m.group(1)) >= start:
            i = int(m.group(1)) - start
            if i < len(items): bad.setdefault(items[i][0], "")
    # every suspect on its own: a note may mention an innocent line
    res = {}

    def one(k, c):
        o, t = compiles(top[0] + "\n" + c + "\n", "%s_%d" % (name, abs(hash(k)) % 10**9), flags, compiler, std, pre)
        return None if o else (k, diagnostic(t))
    code = dict(items)
    suspects = list(bad) or list(code)
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(lambda k: one(k, code[k]), suspects[:64]):
            if r: res[r[0]] = r[1]
    if not res: raise CompileError(name, text)
    return res
