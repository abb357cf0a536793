"""Deciding that the derived terms of one entry denote the specified function.

The samples are points of the term algebra, not inputs of a program run."""
import math
import numpy as np
import mpmath
from . import terms as TM

LD = np.longdouble
np.seterr(all="ignore")
mpmath.mp.dps = 50
TOL = 3e-15      # relative, generic points (double-rounded constants in the code are allowed)
TOL_MP = 1e-13   # relative, confirmation in 50 digits
FLOOR = 1e-17    # relative to the largest component at the point


class Points:
    """A set of points: symbol id -> array."""

    def __init__(self, n, seed, values, isym=None):
        self.n = n
        self.shape = (n,)
        self.seed = seed
        self.values = dict(values)  # id -> array (LD)
        self.isym = isym or {}
        self.cache = {}

    def sym(self, i):
        v = self.values.get(i)
        if v is None:
            v = self.cache.get(i)
            if v is None:
                r = np.random.default_rng([self.seed, i & 0xffffffff])
                u = r.uniform(0.3, 2.0, self.n) * np.where(r.random(self.n) < 0.5, -1, 1)
                v = self.cache[i] = np.asarray(u, LD)
        return v

    def symi(self, i):
        if i not in self.isym: raise TM.Undecidable("integer symbol")
        return self.isym[i]

    def block(self, base, L):
        return np.stack([self.sym(base + k) for k in range(L)])

    def at(self, k):
        return lambda i: self.sym(i)[k]


class Problem:
    """values: {symbol id: Dom} constrained symbols;  want: tag -> fn(P) -> (L,S) array or a list;
    special: list of dicts {id: number} evaluated as exact special points;  valid: optional joint predicate fn(P)->mask"""

    def __init__(self, run, want, values, special=(), valid=None, seed=1, f32ok=False, npts=4, zeros=None, tol=TOL, want_mp=None, wantb=None, search=True):
        self.run, self.want, self.values, self.special, self.valid_fn = run, want, values, list(special), valid
        self.seed, self.f32ok, self.npts, self.zeros, self.tol = seed, f32ok, npts, zeros, tol
        self.want_mp = want_mp
        self.wantb = wantb or {}
        self.search = search
        self.total = {}     # tag -> fn(P): the first component, at every point, non-finite ones included
        self.notes = []


def valid_mask(pb, P):
    m = np.ones(P.shape, bool)
    with np.errstate(all="ignore"):
        for i, d in pb.values.items():
            m &= d.valid(P.sym(i))
        if pb.valid_fn is not None:
            m &= pb.valid_fn(P)
    return m


def gen_points(pb, seed, n):
    rng = np.random.default_rng([seed, 77])
    vals = {i: np.asarray(d.gen(rng, n), LD) for i, d in pb.values.items()}
    return Points(n, seed, vals)


def point_sets(pb):
    """Generic points, then special points (zeros among the derivatives, exact
    special operand values)."""
    yield "generic", gen_points(pb, pb.seed, pb.npts)
    if pb.zeros or pb.special:
        sp = pb.special or [{}]
        zs = [None] + list(pb.zeros or [])
        cols = []
        for s in sp:
            for z in zs:
                if not s and z is None: continue
                cols.append((s, z))
        if not cols: return
        n = len(cols)
        P = gen_points(pb, pb.seed + 5, n)
        ids = set()
        for s, z in cols:
            ids |= set(s)
            if z is not None: ids |= set(z)
        for i in ids:
            P.values[i] = P.sym(i).copy()
        for k, (s, z) in enumerate(cols):
            if z is not None:
                for i in z: P.values[i][k] = 0
            for i, v in s.items(): P.values[i][k] = v
        yield "special", P


class Mismatch:
    def __init__(self, tag, idx, loc, got, want, where, term):
        self.tag, self.idx, self.loc, self.got, self.want, self.where, self.term = tag, idx, loc, got, want, where, term


def _roots(run, pb):
    rs = []
    for o in run.outs:
        if ((o[0] in pb.want or o[0] in pb.total) and o[2] == "t") or (o[0] in pb.wantb and o[2] in "b"):
            rs.append(o[3])
    return rs


def decide(pb):
    """-> list of Mismatch / ('exit'|'finding', ...) tuples; raises TM.Undecidable."""
    run = pb.run
    bad = []
    roots = _roots(run, pb)
    gl = []
    for e in run.exits: gl += e[3]
    for f in run.findings: gl += f[3]
    gl += run.guard
    allroots = roots + gl
    need = TM.cone(run.terms, allroots)
    # unguarded findings and exits hold at every point
    for f in run.findings:
        if not f[3]: bad.append(("finding", f[0], f[1], run.loc(f[2]), ""))
    for e in run.exits:
        if not e[3] and run.status == "return": bad.append(("exit", e[0], e[1], run.loc(e[2]), ""))
    at = sorted(TM.atoms(run.terms, roots) | _guard_atoms(run.terms, gl)) if pb.search else []
    sets = list(point_sets(pb))
    base = sets[0][1]
    if at:
        extra = search_points(pb, at, base)
        if extra is not None:
            sets.append(("branch", extra))
    seen_bad = set()
    for kind, P in sets:
        ok = valid_mask(pb, P)
        if not ok.any(): continue
        vals = TM.eval_np(run.terms, P.sym, P.symi, P.shape, LD, not pb.f32ok, need)
        for g in run.guard: ok &= vals[g]
        if not ok.any(): continue
        # conditional exits and findings reachable at a valid point
        for lst, nm in ((run.exits, "exit"), (run.findings, "finding")):
            for ix, e in enumerate(lst):
                if not e[3] or (nm, ix) in seen_bad: continue
                m = ok.copy()
                for g in e[3]: m &= vals[g]
                if m.any():
                    seen_bad.add((nm, ix))
                    bad.append((nm, e[0], e[1], run.loc(e[2]), " when " + " and ".join(TM.show(run.terms, g, 3) for g in e[3][:3])))
        for tag, w in pb.total.items() if run.status == "return" else ():
            outs, e = run.out(tag), np.broadcast_to(np.asarray(w(P), LD), P.shape)
            o = outs[0] if outs else None
            if o is None or o[2] not in "ti": raise TM.Undecidable("no value to compare")
            v = vals[o[3]] if o[2] == "t" else np.full(P.shape, LD(o[3]))
            with np.errstate(all="ignore"): same = (np.isnan(v) & np.isnan(e)) | (v == e) | (np.isfinite(v) & np.isfinite(e) & (np.abs(v - e) <= pb.tol * np.abs(e) + FLOOR))
            w_ = ok & ~same
            if w_.any() and (tag, "total") not in seen_bad:
                seen_bad.add((tag, "total"))
                k = int(np.argmax(w_))
                bad.append(Mismatch(tag, o[1], run.loc(o[4]), fmt(v[k]), fmt(e[k]), kind + " point " + where(pb, P, k), TM.show(run.terms, o[3]) if o[2] == "t" else ""))
        for tag, w in list(pb.want.items()) + list(pb.wantb.items()) if run.status == "return" else ():
            outs = run.out(tag)
            exp = w(P)
            isb = tag in pb.wantb
            if exp is None: continue
            if len(outs) != len(exp):
                if ("len", tag) not in seen_bad:
                    seen_bad.add(("len", tag))
                    bad.append(("shape", "%d components instead of %d" % (len(outs), len(exp)), "", run.loc(outs[0][4]) if outs else "", ""))
                continue
            if isb:
                for o, e in zip(outs, exp):
                    if o[2] == "b": v = vals[o[3]]
                    elif o[2] == "i": v = np.full(P.shape, bool(o[3] & 1))
                    else: v = None
                    if v is None or (ok & (v != e)).any():
                        if (tag, o[1]) in seen_bad: continue
                        seen_bad.add((tag, o[1]))
                        k = int(np.argmax(ok & (v != e))) if v is not None else 0
                        bad.append(Mismatch(tag, o[1], run.loc(o[4]), str(v[k]) if v is not None else "uninitialised", str(e[k]), kind + " point", TM.show(run.terms, o[3]) if o[2] == "b" else o[2]))
                continue
            if not len(exp): continue
            E = np.asarray(exp)
            with np.errstate(all="ignore"):
                mx = np.max(np.where(np.isfinite(E), np.abs(E), 0), axis=0)
            regular = ok & np.isfinite(E.astype(LD)).all(axis=0)
            if not regular.any(): continue
            for o, e in zip(outs, E):
                key = (tag, o[1])
                if key in seen_bad: continue
                if o[2] == "u":
                    seen_bad.add(key)
                    bad.append(Mismatch(tag, o[1], run.loc(o[4]), "uninitialised", fmt(e[0]), kind, ""))
                    continue
                if o[2] != "t":
                    if o[2] == "i":
                        v = np.full(P.shape, LD(o[3]))
                        # an all-zero bit pattern read as a number
                    else:
                        raise TM.Undecidable("output kind " + o[2])
                else:
                    v = vals[o[3]]
                with np.errstate(all="ignore"):
                    err = np.abs(v - e)
                    lim = pb.tol * np.abs(e) + FLOOR * mx
                    w_ = regular & ~(err <= lim)
                if not w_.any(): continue
                for k in np.nonzero(w_)[0][:3]:
                    if confirm(pb, o, P, int(k), tag):
                        seen_bad.add(key)
                        bad.append(Mismatch(tag, o[1], run.loc(o[4]), fmt(v[k]), fmt(e[k]), kind + " point " + where(pb, P, int(k)), TM.show(run.terms, o[3]) if o[2] == "t" else ""))
                        break
    return bad


def where(pb, P, k):
    return ", ".join("s%d=%s" % (i, fmt(P.sym(i)[k])) for i in sorted(pb.values)[:4])


def fmt(x):
    try: return "%.12g" % float(x)
    except Exception: return str(x)


def confirm(pb, o, P, k, tag):
    """Re-evaluates one component in 50 digits (when the oracle offers it)."""
    if pb.want_mp is None or tag not in pb.want_mp or o[2] != "t":
        return True
    run = pb.run
    cache = P.__dict__.setdefault("mp", {})
    c = cache.get((k, tag))
    if c is None:
        if len(cache) > 400: return True
        sym = lambda i: to_mp(P.sym(i)[k])
        roots = [x[3] for x in run.out(tag) if x[2] == "t"]
        try:
            want = pb.want_mp[tag](sym)
            vals = dict(zip(roots, TM.eval_mp(run.terms, roots, sym, lambda i: P.symi(i)[k])))
            mx = max([abs(x) for x in want if not mpmath.isnan(x)] + [mpmath.mpf(0)])
            c = (want, vals, mx)
        except ZeroDivisionError:
            c = ()
        cache[k, tag] = c
    if not c: return False
    want, vals, mx = c
    v, e = vals[o[3]], want[o[1]]
    if isinstance(v, bool): return True
    if mpmath.isnan(v) or mpmath.isinf(v):
        # not a number in exact arithmetic as well, or a removable 0/0
        return True
    return abs(v - e) > TOL_MP * abs(e) + mpmath.mpf(10) ** -17 * mx


def to_mp(x):
    x = LD(x)
    if not np.isfinite(x): return mpmath.nan
    m, e = np.frexp(x)
    i = int(m * LD(2) ** 64)
    return mpmath.ldexp(mpmath.mpf(i), int(e) - 64)


def _guard_atoms(terms, gl):
    res, st, seen = set(), list(gl), set()
    while st:
        t = st.pop()
        if t in seen: continue
        seen.add(t)
        n = terms[t]
        if n[0] in ("not", "and", "or", "xor", "iteb"): st.extend(n[1:])
        elif n[0] not in ("true", "false"): res.add(t)
    return res


MAXATOMS = 48


def search_points(pb, atoms, base):
    """Points at which the data-dependent branches change side: for every
    comparison atom, every symbol it depends on is moved over a grid (special
    values, constants of the code, other operands' values, all magnitudes) and
    roots of the compared difference are bracketed by bisection."""
    run = pb.run
    terms = run.terms
    if len(atoms) > MAXATOMS:
        step = len(atoms) / MAXATOMS
        atoms = [atoms[int(i * step)] for i in range(MAXATOMS)]
    found = []  # list of dict id->value overrides on base point 0/1
    consts = sorted({abs(float(n[1])) for n in terms if n[0] == "const" and not isinstance(n[1], str) and n[1] != 0})[:40]
    grid0 = [0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0]
    for k in range(-40, 41): grid0 += [1.7 * 10.0 ** k, -1.7 * 10.0 ** k]
    for k in (-300, -200, -150, -120, -100, -80, -60, 60, 80, 100, 150): grid0 += [10.0 ** k, -10.0 ** k]
    grid0 += list(np.linspace(-6, 6, 61))
    for c in consts:
        grid0 += [c, -c, c * (1 - 1e-6), -c * (1 - 1e-6), c * (1 + 1e-6), -c * (1 + 1e-6), c * 0.3, -c * 0.3, c * 3, -c * 3]
    flips = {}
    for t in atoms:
        n = terms[t]
        ss, si = TM.symbols(terms, [t])
        if si: continue
        ss = sorted(ss)
        # prefer operand values
        ss = [s for s in ss if s in pb.values] + [s for s in ss if s not in pb.values]
        need = TM.cone(terms, [t])
        for s in ss[:6]:
            for b in (0, 1):
                others = [float(base.sym(o)[b]) for o in ss if o != s][:6]
                g = np.unique(np.asarray(grid0 + others + [-o for o in others], LD))
                P = Points(len(g), base.seed, {o: np.full(len(g), base.sym(o)[b], LD) for o in set(list(pb.values) + ss)})
                P.values[s] = g
                ok = valid_mask(pb, P)
                if not ok.any(): continue
                vals = TM.eval_np(terms, P.sym, P.symi, P.shape, LD, not pb.f32ok, need)
                truth = vals[t]
                cand = []
                idx = np.nonzero(ok)[0]
                tv = truth[idx]
                for val in (True, False):
                    w = idx[tv == val]
                    if len(w):
                        # near zero, in the middle, far away
                        w = w[np.argsort(np.abs(g[w].astype(float)))]
                        for q in {0, 1, len(w) // 2, len(w) - 1}:
                            if q < len(w): cand.append(g[w[q]])
                # boundaries
                ch = [(idx[k], idx[k + 1]) for k in range(len(idx) - 1) if tv[k] != tv[k + 1]]
                for lo, hi in ch[:8]:
                    a, c = g[lo], g[hi]
                    ta = truth[lo]
                    for _ in range(70):
                        m = (a + c) / 2
                        if m == a or m == c: break
                        if _truth(pb, terms, need, t, base, b, ss, s, m) == ta: a = m
                        else: c = m
                    w = (c - a) if c != a else abs(a) * LD(1e-18)
                    d1 = max(abs(a) * LD(1e-3), w)
                    cand += [a, c, a - (g[hi] - g[lo]) * 0 - d1, c + d1]
                for v in cand:
                    found.append((b, {s: v}))
                if len(ch) or len(cand): flips.setdefault(t, {}).setdefault(s, []).extend(cand[:4])
                if len(found) > 4000: break
    # combinations: several conditions at once
    if len(flips) > 1:
        comb = {}
        for t, d in flips.items():
            for s, c in d.items():
                if c: comb.setdefault(s, c)
        if len(comb) > 1:
            for k in range(4):
                found.append((0, {s: c[min(k, len(c) - 1)] for s, c in comb.items()}))
    if not found: return None
    # unique, bounded
    if len(found) > 1200:
        step = len(found) / 1200
        found = [found[int(i * step)] for i in range(1200)]
    n = len(found)
    ids = set(pb.values)
    for b, d in found: ids |= set(d)
    need_ids = set()
    for t in terms:
        if t[0] == "sym": need_ids.add(t[1])
    P = Points(n, base.seed, {})
    bs = np.array([b for b, _ in found])
    for i in need_ids | ids:
        P.values[i] = base.sym(i)[bs].copy()
    for k, (b, d) in enumerate(found):
        for i, v in d.items(): P.values[i][k] = v
    return _Pt(P, base, bs)


def _Pt(P, base, bs):
    orig = P.sym

    class Q(Points):
        def sym(self, i):
            v = self.values.get(i)
            if v is None:
                v = self.values[i] = base.sym(i)[bs]
            return v
    q = Q(P.n, P.seed, P.values)
    return q


def _truth(pb, terms, need, t, base, b, ss, s, v):
    P = Points(1, base.seed, {o: np.full(1, base.sym(o)[b], LD) for o in set(list(pb.values) + ss)})
    P.values[s] = np.full(1, v, LD)
    return bool(TM.eval_np(terms, P.sym, P.symi, (1,), LD, not pb.f32ok, need)[t][0])
