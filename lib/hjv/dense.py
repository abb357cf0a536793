"""Shared parts of the checks on dense numbers."""
from . import build, interp, spec
from .check import *
from .check import judge, where_of, Ty, all_types, DYN_QUICK, DYN_MORE, MEMORY, PURITY, ALLOC
from .decide import Problem
import re
import numpy as np
from . import terms as TM
import mpmath

STEP = 100000   # symbol blocks of the operands: 0, STEP, 2*STEP
PARAM = 900000

HEAD = '#include "hjprobe.h"\nusing namespace hjp;\n'


def zero_patterns(order, n, bases):
    """Patterns of vanishing derivative components."""
    if n == 0: return []
    L = spec.comps(order, n)
    z = []
    g = lambda b: set(range(b + 1, b + 1 + n))
    h = lambda b: set(range(b + 1 + n, b + L))
    for b in bases:
        z.append(g(b) | h(b))
        z.append(g(b))
        if n > 1:
            z.append(g(b) - {b + 1})
            z.append({b + 1})
            z.append({b + n})
        if order == 2: z.append(h(b))
    if len(bases) > 1:
        allz = set()
        for b in bases: allz |= g(b) | h(b)
        z.append(allz)
        # disjoint supports
        if n > 1: z.append({bases[0] + 1 + i for i in range(0, n, 2)} | {bases[1] + 1 + i for i in range(1, n, 2)})
    return z


def packed(P, base, order, n):
    return P.block(base, spec.comps(order, n))


# operands: ("j", base) a number, ("s", id) a scalar symbol, ("c", value) a literal

def opnd(P, o):
    if o[0] == "c": return np.full(P.shape, np.longdouble(o[1]))
    return P.sym(o[1])


def mp_chain(fun, order, n, operands):
    L = spec.comps(order, n)

    def f(sym):
        val, jets = [], []
        for o in operands:
            if o[0] == "j":
                j = np.array([sym(o[1] + k) for k in range(L)], object)
                jets.append(j)
                val.append(j[0])
            else:
                jets.append(None)
                val.append(mpmath.mpf(o[1]) if o[0] == "c" else sym(o[1]))
        part = fun.partials(val, "mpmath")
        return list(spec.chain(order, n, jets[:fun.k], part))
    return f


def want_chain(fun, order, n, operands):
    def want(P):
        jets = [packed(P, o[1], order, n) if o[0] == "j" else None for o in operands]
        val = [j[0] if j is not None else opnd(P, o) for j, o in zip(jets, operands)]
        return spec.chain(order, n, jets[:fun.k], fun.partials(val))
    return want


def domain(fun, operands):
    """{symbol: Dom} and a joint predicate."""
    doms = list(fun.dom) if isinstance(fun.dom, list) else [fun.dom]
    doms += [fun.pdom] * fun.nparam
    values = {}
    for o, d in zip(operands, doms):
        if o[0] == "c": continue
        i = o[1]
        values[i] = d if i not in values else spec.both(values[i], d)
    vf = None
    if fun.name in ("atan2", "hypot2", "hypot3"):
        def vf(P):
            v = [opnd(P, o) for o in operands]
            r = np.sqrt(sum(x * x for x in v))
            ok = (r > 1e-6) & (r < 1e6)
            if fun.name == "atan2": ok &= ~((v[0] == 0) & (v[1] <= 0))
            return ok
    return values, vf


def specials(fun, operands):
    sp = []
    if fun.k == 1 and operands[0][0] != "c":
        a = operands[0][1]
        for s in fun.special or ():
            if fun.nparam and operands[1][0] != "c":
                for q in fun.pspecial: sp.append({a: s, operands[1][1]: q})
            else: sp.append({a: s})
        if fun.nparam and operands[1][0] != "c":
            for q in fun.pspecial: sp.append({operands[1][1]: q})
    elif fun.name in ("add", "sub", "mul", "div"):
        ids = [o[1] for o in operands if o[0] != "c"]
        for i in ids:
            for v in (0, 1, -1, 2):
                if v == 0 and fun.name == "div" and o_is(operands[1], i): continue
                sp.append({i: v})
        if len(set(ids)) == 2:
            for u in (0, 1, -1):
                for v in (1, -1): sp.append({ids[0]: u, ids[1]: v})
    elif fun.name in ("atan2", "hypot2", "hypot3"):
        ids = sorted({o[1] for o in operands if o[0] != "c"})
        for i in ids:
            if len(ids) > 1: sp.append({i: 0})
        if fun.name == "hypot3" and len(ids) == 3:
            for i in ids: sp.append({j: 0 for j in ids if j != i})
    return sp


def o_is(o, i):
    return o[0] != "c" and o[1] == i


def fun_problem(run, meta):
    """Problem: the output blocks meta['tags'] are fun applied to
    meta['operands']; the blocks of meta['keep'] {tag: base} still hold the
    symbols base, base+1, ..."""
    fun, order, n, operands = meta["fun"], meta["order"], meta["n"], meta["operands"]
    tags = meta.get("tags", (0,))
    values, vf = domain(fun, operands)
    f32 = meta.get("scalar", "double") != "double"
    want = {t: want_chain(fun, order, n, operands) for t in tags}
    wmp = {} if f32 else {t: mp_chain(fun, order, n, operands) for t in tags}
    for t, b in meta.get("keep", {}).items():
        want[t] = (lambda b: lambda P: packed(P, b, order, n))(b)
    if meta.get("nowant"): want, wmp = {}, {}
    bases = sorted({o[1] for o in operands if o[0] == "j"})
    return Problem(run, want, values, special=specials(fun, operands) + meta.get("special", []), valid=vf, zeros=zero_patterns(order, n, bases), f32ok=f32,
                   tol=1e-5 if f32 else 3e-15, want_mp=wmp, npts=meta.get("npts", 4))


def keep_problem(run, meta):
    """Only: the blocks of meta['keep'] still hold their symbols; packed with
    the sizes meta['keepn'] {tag: n}."""
    want = {}
    for t, b in meta.get("keep", {}).items():
        L = spec.comps(meta["order"], meta["keepn"][t])
        want[t] = (lambda b, L: lambda P: P.block(b, L))(b, L)
    f32 = meta.get("scalar", "double") != "double"
    return Problem(run, want, meta.get("values", {}), f32ok=f32, tol=1e-6 if f32 else 3e-15)


def jet_meta(name, fun, ty, n, operands, **kw):
    m = dict(name=name, fun=fun, order=ty.order, n=n, operands=operands, scalar=ty.scalar,
             ints={1: n, 2: spec.comps(ty.order, n)}, intnames={1: "size of the result", 2: "number of components of the result"}, label={0: "result"})
    m.update(kw)
    return m


class Suite:
    """Probe entries over number types, compiled in parallel and interpreted."""

    def __init__(self, chk, head=HEAD, flags=(), tag="", pre=()):
        self.chk, self.head, self.flags, self.tag, self.pre = chk, head, tuple(flags), tag, tuple(pre)
        self.src, self.ents, self.metas, self.done, self.made = {}, {}, {}, {}, {}

    def add(self, ty, name, code, meta, n=None, args=(), unit=None):
        """code: body; sees T, S, n.  args: further configuration arguments
        (hj_arg(1)... with run-time size, hj_arg(0)... without)."""
        u = unit or ("%s%d%s" % (ty.scalar[0], ty.order, "x" if ty.dyn else ("a" if ty.size < 9 else "b" if ty.size < 14 else "c")))
        f = "P_%s_%s" % (re.sub(r"\W", "_", name), ty.tag)
        if self.done.setdefault((u, f), code) != code: raise AssertionError("two bodies for entry " + f)
        if f not in self.made.setdefault(u, set()):
            self.made[u].add(f)
            self.src.setdefault(u, [self.head]).append('extern "C" void %s() { using T = %s; using S = T::Scalar; const long n = %s; %s }\n' % (f, ty.cpp, ty.nexpr(), code))
        e = " ".join([f] + ([str(n)] if ty.dyn else []) + [str(x) for x in args])
        self.ents.setdefault(u, []).append(e)
        self.metas.setdefault(u, []).append(meta)

    def add_raw(self, unit, fname, code, meta, args=()):
        if self.done.setdefault((unit, fname), code) != code: raise AssertionError("two bodies for entry " + fname)
        if fname not in self.made.setdefault(unit, set()):
            self.made[unit].add(fname)
            self.src.setdefault(unit, [self.head]).append('extern "C" void P_%s() { %s }\n' % (fname, code))
        self.ents.setdefault(unit, []).append(" ".join(["P_" + fname] + [str(x) for x in args]))
        self.metas.setdefault(unit, []).append(meta)

    def runs(self):
        """-> list of (run, meta)"""
        bcs = build.compile_many([("".join(s), self.tag + u, self.flags, self.pre) for u, s in self.src.items()])
        res = []
        for u in self.src:
            bc = bcs[self.tag + u]
            gone = {}
            if isinstance(bc, Exception): bc, gone = self.salvage(u, bc)
            self.chk.units.append("hyperjet.h via probe unit %s %s" % (self.tag + u, " ".join(self.flags)))
            keep = [(e, m) for e, m in zip(self.ents[u], self.metas[u]) if e.split()[0] not in gone]
            for e, m in zip(self.ents[u], self.metas[u]):
                d = gone.pop(e.split()[0], None)
                if d is not None: self.chk.fail("the use of the public interface compiles", m["name"], position(d), "%s is rejected by the compiler: %s" % (e.split()[0], d[-400:]))
            if bc is not None: res += list(zip(interp.run(bc, [e for e, _ in keep]), [m for _, m in keep]))
        return res

    def salvage(self, u, error):
        """A unit does not compile: the probes that are rejected on their own
        are violations, the others are analysed without them."""
        head, fns = self.src[u][0], list(self.src[u][1:])
        gone = {}
        for _ in range(4):
            items = [(re.search(r"void (P_\w+)\(", f).group(1), f) for f in fns]
            bad = build.witnesses(head, items, self.tag + u + "w", self.flags, pre=self.pre)
            gone.update(bad)
            fns = [f for k, f in items if k not in bad]
            if not fns and build.compiles(head, self.tag + u + "h", self.flags, pre=self.pre)[0]: return None, gone
            if not bad or len(bad) < 64:
                try: return build.compile_ir(head + "".join(fns), self.tag + u, self.flags, self.pre), gone
                except build.CompileError:
                    if not bad: break
        raise error

    def judge(self, rule, mk, **kw):
        rs = self.runs()
        judge(self.chk, rule, [r for r, _ in rs], [m for _, m in rs], mk, **kw)
        return rs


def position(diag):
    m = re.search(r"(include/hyperjet/hyperjet\.h:\d+)", diag)
    return m.group(1) if m else "include/hyperjet/hyperjet.h"


def sizes(chk, ty, quick=DYN_QUICK, more=DYN_MORE):
    return ty.ns(quick + (more if chk.thorough else ()))


def same_problem(run, meta):
    """meta['pairs'] {tag: reference tag}: both blocks denote the same; the
    blocks of meta['exact'] {tag: fn(P) -> list}; meta['values'] domains."""
    want = dict(meta.get("exact", {}))
    for t, ref in meta.get("pairs", {}).items():
        outs = run.out(ref)
        if any(o[2] not in "ti" for o in outs): raise TM.Undecidable("reference component without a value")
        need = TM.cone(run.terms, [o[3] for o in outs if o[2] == "t"])

        def w(P, outs=outs, need=need):
            v = TM.eval_np(run.terms, P.sym, P.symi, P.shape, np.longdouble, meta.get("scalar", "double") == "double", need)
            return np.stack([v[o[3]] if o[2] == "t" else np.full(P.shape, np.longdouble(o[3])) for o in outs]) if outs else []
        want[t] = w
    f32 = meta.get("scalar", "double") != "double"
    return Problem(run, want, meta.get("values", {}), valid=meta.get("valid"), special=meta.get("special", []), zeros=meta.get("zeros"), f32ok=f32,
                   tol=meta.get("tol", 1e-5 if f32 else 3e-14), wantb=meta.get("wantb"))


def lst(items):
    """fn(P) -> list from entries: ("s", id), ("-s", id) or a number."""
    def w(P):
        r = []
        for x in items:
            if isinstance(x, tuple): r.append(P.sym(x[1]) if x[0] == "s" else -P.sym(x[1]))
            else: r.append(np.full(P.shape, np.longdouble(x)))
        return np.stack(r) if r else []
    return w


def hpos(n, i, j):
    """Packed position of the Hessian entry (i, j)."""
    if i > j: i, j = j, i
    return 1 + n + i * n - i * (i - 1) // 2 + (j - i)
