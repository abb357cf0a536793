"""Frame of one property check: obligations, violations, evidence."""
import json, math, os, re, signal, sys, time, traceback, multiprocessing as mp
from . import build, interp, decide as D, terms as TM

ROOT = build.VERIF


class Check:
    def __init__(self, pid, tier=None):
        self.pid = pid
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"): self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.obligations = 0
        self.discharged = 0
        self.undecided = []
        self.violations = []  # dict(key, where, rule, instance, detail)
        self.functions = set()
        self.entries = 0
        self.steps = 0
        self.callsites = 0
        self.joins = 0
        self.partitioned = 0
        self.units = []
        self.rules = []
        self.samples = []
        self.expected_min = None
        self.extra = {}
        self._vk = set()

    @property
    def thorough(self): return self.tier == "thorough"

    # -- bookkeeping
    def saw(self, run):
        self.entries += 1
        self.steps += run.steps
        self.callsites += run.calls
        self.joins += run.joins
        self.functions.update(run.fns)

    def ok(self, n=1):
        self.obligations += n
        self.discharged += n

    def fail(self, rule, instance, where, detail):
        self.obligations += 1
        key = "%s|%s" % (rule, instance)
        if key in self._vk: return
        self._vk.add(key)
        self.violations.append(dict(rule=rule, instance=instance, where=where, detail=detail))

    def undec(self, instance, why):
        self.obligations += 1
        self.undecided.append((instance, why))

    def need(self, cond, what):
        """An anchor of the analysis; without it nothing can be concluded."""
        if not cond: raise build.Broken(what)

    # -- finishing
    def finish(self, level="other", explanation="", assumptions=()):
        known = load_known(self.pid)
        shown, vio = [], []
        for v in self.violations:
            k = [x for x in known if x in "%s %s %s" % (v["rule"], v["instance"], v["where"])]
            (shown if k else vio).append((v, k[0] if k else None))
        done = set()
        for v, k in shown:
            if k in done: continue
            done.add(k)
            print("KNOWN-FINDING: property=%s %s" % (self.pid, known[k]))
        cov = dict(obligations=self.obligations, discharged=self.discharged, undecided=len(self.undecided),
                   entry_points=self.entries, ir_instructions_interpreted=self.steps, call_sites=self.callsites, joins=self.joins, partitioned_entries=self.partitioned,
                   repository_functions_analysed=len(self.functions),
                   functions=sorted({re.sub(r"<.*", "", f) for f in self.functions})[:400],
                   translation_units=sorted(set(self.units)), rules=self.rules, samples=self.samples[:6],
                   undecided_list=["%s: %s" % u for u in self.undecided[:20]], explanation=explanation)
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov, assumptions=list(assumptions),
                  wall_s=round(time.time() - self.t0, 2), violations=len(vio))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d obligations, %d discharged, %d undecided; %d entry points, %d repository functions, %.1f s" %
              (self.pid, self.obligations, self.discharged, len(self.undecided), self.entries, len(self.functions), time.time() - self.t0))
        for u in self.undecided[:10]: print("  undecided: %s: %s" % u)
        if vio:
            rep = os.path.join(build.BUILD, "replay")
            os.makedirs(rep, exist_ok=True)
            path = os.path.join(rep, self.pid + ".json")
            with open(path, "w") as f:
                json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed, rerun="./check %s" % self.pid, violations=[v for v, _ in vio]), f, indent=1)
            for v, _ in vio[:6]:
                print("violation: %s\n  rule: %s\n  instance: %s\n  %s" % (v["where"] or "(no source position)", v["rule"], v["instance"], v["detail"]))
            if len(vio) > 6: print("... and %d more" % (len(vio) - 6))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        if self.expected_min is not None and self.discharged + len(shown) < self.expected_min:
            print("analysis broken: only %d of at least %d expected obligations were discharged" % (self.discharged, self.expected_min))
            return 2
        return 0


def load_known(pid):
    """known_findings.txt: 'finding: property=C28 key=<text> :: <what fails>' suppresses; 'fixed: ...' suppresses nothing."""
    p = os.path.join(ROOT, "known_findings.txt")
    r = {}
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(.*?) :: (.*)", line.strip())
            if m and m.group(1) == pid: r[m.group(2)] = m.group(3)
    return r


# ---------------------------------------------------------------- deciding runs in parallel

def _work(args):
    mk, run, meta, opts = args
    try:
        pb = mk(run, meta)
        bad = D.decide(pb)
        return bad
    except TM.Undecidable as e:
        return "undecidable: %s" % e


MEMORY = {"bounds", "dead", "null", "uninit-pointer", "uninit-branch", "double-free", "bad-free", "ptr-diff", "const-write", "div0"}
PURITY = {"operand-write", "global-write", "static-from-operand", "const-write"}
ALLOC = {"alloc"}


PLAIN = re.compile(r":(~?\w*Scalar|data|ptr|size|order|length|data_length|is_dynamic|static_size|create|raise_error|throw_exceptions|check_\w+)$")


def where_of(r, loc, default="include/hyperjet/hyperjet.h"):
    """Source position; when an output is produced by the probe itself, the
    repository functions it went through."""
    if loc and not loc.startswith("(outside"): return loc
    f = sorted({re.sub(r"<.*", "", x) for x in r.fns})
    g = [x for x in f if not PLAIN.search(x)] or f
    return "in " + ", ".join(g[:6]) + (" ..." if len(g) > 6 else "") if g else default


def judge(chk, rule, runs, metas, mk, kinds=(), exits=True, nproc=8, leaks=False, init=()):
    """Every run must return normally, raise no reachable exit and none of the
    findings named in kinds, and its outputs must denote what
    mk(run, meta).want says.  init: output tags that must be initialised."""
    # a static that remembers the operands of the first call makes every later result wrong
    kinds = set(kinds) | {"static-from-operand"}
    todo = []
    flat = []
    for r, m in zip(runs, metas):
        chk.saw(r)
        if r.status == "undecided" and r.parts:
            chk.partitioned += 1
            flat += [(q, m) for q in r.parts]
        else: flat.append((r, m))
    for r, m in flat:
        inst = m["name"]
        if r.status == "missing": raise build.Broken("entry %s vanished" % r.entry)
        if r.status == "undecided":
            chk.undec(inst, "%s at %s" % (r.msg, r.at))
            continue
        if r.status != "return" and r.guard:
            # a partition that does not return: an exit under its guard
            if r.status == "throw": r.exits.append(["throw", r.msg, r.atloc, r.guard])
            elif not r.exits: r.exits.append([r.status, r.msg, r.atloc, r.guard])
            r.status = "exit"
            todo.append((r, m))
            r.findings = [f for f in r.findings if f[0] in kinds]
            if not exits: r.exits = []
            continue
        if r.status != "return":
            loc = r.loc(r.exits[-1][2]) if r.exits else ""
            chk.fail(rule, inst, where_of(r, loc), "a valid call does not return: %s %s %s" % (r.status, r.msg, "; ".join(e[0] + " " + e[1] for e in r.exits[:2])))
            continue
        r.findings = [f for f in r.findings if f[0] in kinds]
        if not exits: r.exits = []
        bad_i = False
        for tag, val in (m["ints_of"](r, m) if "ints_of" in m else m.get("ints", {})).items():
            o = r.out(tag)
            got = o[0][3] if o and o[0][2] == "i" else (o[0][2] if o else None)
            if got != val and r.guard:
                r.findings.append(["value", "%s is %s instead of %s" % (m.get("intnames", {}).get(tag, "integer output %d" % tag), got, val), o[0][4] if o else None, r.guard])
            elif got != val:
                bad_i = True
                chk.fail(rule, inst, where_of(r, r.loc(o[0][4]) if o else ""), "%s is %s instead of %s" % (m.get("intnames", {}).get(tag, "integer output %d" % tag), got, val))
        if leaks and r.leaks and r.guard: r.findings.append(["leak", "%d heap block(s) are still allocated at the end" % r.leaks, None, r.guard])
        elif leaks and r.leaks:
            bad_i = True
            chk.fail(rule, inst, where_of(r, ""), "%d heap block(s) are still allocated at the end" % r.leaks)
        for tag in init:
            for o in r.out(tag):
                if o[2] == "u" and r.guard:
                    r.findings.append(["value", "%s component %d is not initialised" % (m.get("label", {}).get(tag, "output %d" % tag), o[1]), o[4], r.guard])
                    break
                if o[2] == "u":
                    bad_i = True
                    chk.fail(rule, inst, where_of(r, r.loc(o[4])), "%s component %d is not initialised" % (m.get("label", {}).get(tag, "output %d" % tag), o[1]))
                    break
        if not bad_i: todo.append((r, m))
    if not todo: return
    # parallel decision
    global _JOBS, _MK
    _JOBS, _MK = todo, mk
    pool = mp.get_context("fork").Pool(nproc) if len(todo) > 40 and nproc > 1 else None
    try: weigh(chk, rule, todo, pool.imap(_go, range(len(todo)), chunksize=max(1, min(16, len(todo) // (nproc * 4)))) if pool else map(_go, range(len(todo))))
    finally:
        if pool: pool.terminate()


def weigh(chk, rule, todo, res):
    for (r, m), bad in zip(todo, res):
        if isinstance(bad, str):
            if bad.startswith("crash:"): raise build.Broken("%s: %s" % (m["name"], bad))
            chk.undec(m["name"], bad)
            continue
        nobl = max(1, len(r.outs))
        if not bad:
            chk.ok(nobl)
            if len(chk.samples) < 6 and r.outs and r.terms:
                o = r.outs[-1]
                if o[2] in "tb": chk.samples.append("%s component %d = %s [%s]" % (r.entry, o[1], TM.show(r.terms, o[3], 5), r.loc(o[4])))
            continue
        for b in bad[:3]:
            if isinstance(b, tuple):
                nm, kind, what, loc, cond = b
                chk.fail(rule, m["name"], where_of(r, loc), "%s: %s %s%s" % (nm, kind, what, cond))
            else:
                lab = m.get("label", {}).get(b.tag, "output %d" % b.tag)
                chk.fail(rule, m["name"], where_of(r, b.loc), "%s component %d is %s, the rule requires %s (%s); derived term %s" % (lab, b.idx, b.got, b.want, b.where, b.term[:300]))
            break


_JOBS = _MK = None


def _go(i):
    r, m = _JOBS[i]
    try:
        return _work((_MK, r, m, None))
    except build.Broken:
        raise
    except Exception:
        return "crash: " + traceback.format_exc()[-1500:]


# ---------------------------------------------------------------- number types

class Ty:
    def __init__(self, order, size, scalar="double"):
        self.order, self.size, self.scalar = order, size, scalar
        self.dyn = size is None
        self.cpp = "DDScalar<%d,%s,%d>" % (order, scalar, -1 if self.dyn else size)
        self.tag = "%s%s_%s" % ("" if scalar == "double" else scalar[0], order, "x" if self.dyn else size)

    def ns(self, dyn_sizes):
        if not self.dyn: return [self.size]
        if not dyn_sizes: return []
        x = [n for n in extra_sizes() if n <= (130 if self.order == 2 else 1025)]
        return sorted(set(dyn_sizes) | set(x))

    def nexpr(self, k=0):
        return "hj_arg(%d)" % k if self.dyn else "(long)%d" % self.size

    def entry(self, name, *args):
        e = "P_%s_%s" % (name, self.tag)
        return " ".join([e] + [str(a) for a in args])


_extra = None


def extra_sizes():
    """Numbers of variables at which a branch of the current sources on a
    size, a component count or a byte count can change side: taken from the
    integer literals of the header that are not literals of plain formulas."""
    global _extra
    if _extra is None:
        text = open(os.path.join(build.REPO, "include/hyperjet/hyperjet.h")).read()
        text = re.sub(r"//[^\n]*|/\*.*?\*/|\"[^\"\n]*\"|^\s*#\s*(include|error|pragma)[^\n]*", " ", text, flags=re.S | re.M)
        lits = {int(x, 0) for x in re.findall(r"(?<![\w.])(0[xX][0-9a-fA-F]+|[1-9]\d*)(?=[uUlLzZ]*(?![\w.]))", text)}
        lits |= {int(a) << int(b) for a, b in re.findall(r"(?<![\w.])(\d+)[uUlL]*\s*<<\s*(\d+)(?![\w.])", text) if int(b) < 14}
        lits |= {int(a) * int(b) for a, b in re.findall(r"(?<![\w.])(\d+)\s*\*\s*(\d+)(?![\w.])", text)}
        r = set()
        for c in lits:
            if c < 3: continue
            r |= {c - 1, c, c + 1}
            for k in {c, c // 8}:
                n = int((math.sqrt(8 * k + 1) - 3) / 2)
                r |= {n, n + 1, n + 2} if c > 10 else set()
        r = sorted(n for n in r if 0 <= n <= 1025)
        _extra = [n for n in r if n <= 48] + [n for n in r if 48 < n <= 130][:6] + [n for n in r if n > 130][:3]
    return _extra


DYN_QUICK = (0, 1, 2, 3, 5, 8, 16, 17, 33)
DYN_MORE = (4, 6, 7, 9, 10, 11, 12, 13, 14, 15, 18, 20, 24, 31, 32, 40, 64)


def all_types(static=range(17), orders=(1, 2), dyn=True):
    static = sorted(set(static) | set([n for n in extra_sizes() if 16 < n <= 64][:6]))
    r = [Ty(o, n) for o in orders for n in static]
    if dyn: r += [Ty(o, None) for o in orders]
    return r


def limit():
    """Seconds a check may take: it reports what it found until then."""
    return int(os.environ.get("HJ_LIMIT", "0") or 0) or (800 if os.environ.get("VERIF_TIER") != "thorough" else 6000)


def late(chk):
    """What was decided when the time was up: violations count, the rest is undecided."""
    chk.undec("(the rest of the check)", "the time limit of %d s was reached" % limit())
    chk.expected_min = None
    chk.rules = chk.rules or ["see properties.jsonl"]
    signal.signal(signal.SIGALRM, signal.SIG_IGN)
    rc = chk.finish(explanation="Stopped at the time limit; only the obligations counted here were looked at.")
    sys.stdout.flush()
    sys.stderr.flush()
    build.cleanup()
    # processes of this check that are still at work
    me = {os.getpid()}
    for _ in range(4):
        for p in os.listdir("/proc"):
            if p.isdigit():
                try: pp = int(open("/proc/%s/stat" % p).read().rsplit(")", 1)[1].split()[1])
                except OSError: continue
                if pp in me: me.add(int(p))
    for p in me - {os.getpid()}:
        try: os.kill(p, signal.SIGKILL)
        except OSError: pass
    os._exit(rc if rc or chk.discharged else 2)


def main(pid, fn):
    chk = Check(pid)

    signal.signal(signal.SIGALRM, lambda *a: late(chk))
    signal.alarm(limit())
    try:
        rc = fn(chk)
    except build.CompileError as e:
        # the probes use the public interface only
        print("analysis broken: probe %s does not compile against the current sources:\n%s" % (e, e.text[:3000]))
        rc = 2
    except build.Broken as e:
        print("analysis broken: %s" % e)
        rc = 2
    sys.exit(rc)
