"""Meaning of value-number terms: evaluation at points, in three arithmetics.

A term is a hash-consed expression over symbols; two terms denote the same
function iff they agree at (random) points - random interpretation in the
sense of Gulwani and Necula.  No code of the repository is run here."""
import numpy as np
import mpmath

LD = np.longdouble

_NP1 = dict(sin=np.sin, cos=np.cos, tan=np.tan, asin=np.arcsin, acos=np.arccos, atan=np.arctan, sinh=np.sinh, cosh=np.cosh, tanh=np.tanh,
            asinh=np.arcsinh, acosh=np.arccosh, atanh=np.arctanh, exp=np.exp, exp2=np.exp2, expm1=np.expm1, log=np.log, log2=np.log2, log10=np.log10,
            log1p=np.log1p, sqrt=np.sqrt, cbrt=np.cbrt, fabs=np.abs, floor=np.floor, ceil=np.ceil, trunc=np.trunc, rint=np.rint, nearbyint=np.rint,
            round=lambda x: np.where(x < 0, np.ceil(x - LD(0.5)), np.floor(x + LD(0.5))))
_NP2 = dict(pow=np.power, atan2=np.arctan2, hypot=np.hypot, fmod=np.fmod, fmin=np.fmin, fmax=np.fmax, copysign=np.copysign,
            fdim=lambda a, b: np.where(a > b, a - b, a * 0), remainder=np.remainder)
_CMP = {
    "cmp_oeq": lambda a, b: a == b,
    "cmp_one": lambda a, b: (a < b) | (a > b),
    "cmp_ord": lambda a, b: ~(np.isnan(a) | np.isnan(b)),
    "cmp_olt": lambda a, b: a < b,
    "cmp_ole": lambda a, b: a <= b,
}


class Undecidable(Exception):
    pass


def fpclass(x, m):
    r = np.zeros(np.shape(x), bool)
    nan, inf, neg = np.isnan(x), np.isinf(x), np.signbit(x)
    z = x == 0
    if m & 3: r |= nan
    if m & 4: r |= inf & neg
    if m & 8: r |= ~nan & ~inf & ~z & neg
    if m & 32: r |= z & neg
    if m & 64: r |= z & ~neg
    if m & 256: r |= ~nan & ~inf & ~z & ~neg
    if m & 512: r |= inf & ~neg
    return r


def eval_np(terms, sym, symi, shape, dtype=LD, f32=True, need=None):
    """Evaluates every term (or those in `need`).  sym(id)/symi(id) -> array.  Returns list of arrays."""
    vals = [None] * len(terms)
    one = np.ones(shape, dtype)
    with np.errstate(all="ignore"):
        for t, n in enumerate(terms):
            if need is not None and not need[t]:
                continue
            op = n[0]
            if op == "mul": v = vals[n[1]] * vals[n[2]]
            elif op == "add": v = vals[n[1]] + vals[n[2]]
            elif op == "sub": v = vals[n[1]] - vals[n[2]]
            elif op == "div": v = vals[n[1]] / vals[n[2]]
            elif op == "neg": v = -vals[n[1]]
            elif op == "sym": v = sym(n[1])
            elif op == "symi": v = symi(n[1])
            elif op == "const":
                c = n[1]
                v = one * (dtype(c) if not isinstance(c, str) else dtype(dict(nan=np.nan, inf=np.inf)[c.lstrip("-")] * (-1 if c[0] == "-" else 1)))
            elif op == "ite" or op == "iteb": v = np.where(vals[n[1]], vals[n[2]], vals[n[3]])
            elif op == "not": v = ~vals[n[1]]
            elif op == "and": v = vals[n[1]] & vals[n[2]]
            elif op == "or": v = vals[n[1]] | vals[n[2]]
            elif op == "xor": v = vals[n[1]] ^ vals[n[2]]
            elif op == "true": v = np.ones(shape, bool)
            elif op == "false": v = np.zeros(shape, bool)
            elif op in _CMP: v = _CMP[op](vals[n[1]], vals[n[2]])
            elif op in _NP1: v = _NP1[op](vals[n[1]])
            elif op == "exp10": v = np.power(one * 10, vals[n[1]])
            elif op in _NP2: v = _NP2[op](vals[n[1]], vals[n[2]])
            elif op == "f32": v = vals[n[1]].astype(np.float32).astype(dtype) if f32 else vals[n[1]]
            elif op == "fpclass": v = fpclass(vals[n[1]], n[2])
            elif op == "undef": v = one * dtype(np.nan)
            else: raise Undecidable("term operator " + op)
            vals[t] = v
    return vals


_MP1 = {k: getattr(mpmath, k) for k in "sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh exp expm1 log sqrt floor ceil".split()}
_MP1["fabs"] = abs
_MP1["log2"] = lambda x: mpmath.log(x) / mpmath.log(2)
_MP1["log10"] = lambda x: mpmath.log(x) / mpmath.log(10)
_MP1["log1p"] = lambda x: mpmath.log(1 + x)
_MP1["exp2"] = lambda x: mpmath.mpf(2) ** x
_MP1["exp10"] = lambda x: mpmath.mpf(10) ** x
_MP1["cbrt"] = lambda x: mpmath.sign(x) * mpmath.cbrt(abs(x))
_MP1["trunc"] = lambda x: mpmath.floor(x) if x >= 0 else mpmath.ceil(x)
_MP1["rint"] = _MP1["nearbyint"] = mpmath.nint
_MP1["round"] = lambda x: mpmath.sign(x) * mpmath.floor(abs(x) + mpmath.mpf(1) / 2)
_MP2 = dict(pow=lambda a, b: mpmath.mpf(a) ** b, atan2=mpmath.atan2, hypot=mpmath.hypot, fmin=min, fmax=max,
            copysign=lambda a, b: abs(a) if b >= 0 else -abs(a), fmod=lambda a, b: a - b * _MP1["trunc"](a / b))


def eval_mp(terms, roots, sym, symi):
    """High-precision evaluation of a few roots.  sym(id) -> mpf."""
    vals = {}
    need = cone(terms, roots)

    def go(t):
        n = terms[t]
        op = n[0]
        if op == "sym": return sym(n[1])
        if op == "symi": return mpmath.mpf(symi(n[1]))
        if op == "const": return mpmath.mpf(n[1])
        if op == "true": return True
        if op == "false": return False
        if op == "ite" or op == "iteb":
            return vals[n[2]] if vals[n[1]] else vals[n[3]]
        if op == "undef": return mpmath.nan
        x = [vals[k] for k in n[1:]]
        if op == "add": return x[0] + x[1]
        if op == "sub": return x[0] - x[1]
        if op == "mul": return x[0] * x[1]
        if op == "div": return x[0] / x[1] if x[1] != 0 else mpmath.nan
        if op == "neg": return -x[0]
        if op == "not": return not x[0]
        if op == "and": return x[0] and x[1]
        if op == "or": return x[0] or x[1]
        if op == "xor": return x[0] != x[1]
        if op == "cmp_oeq": return x[0] == x[1]
        if op == "cmp_one": return x[0] != x[1]
        if op == "cmp_olt": return x[0] < x[1]
        if op == "cmp_ole": return x[0] <= x[1]
        if op == "cmp_ord": return not (mpmath.isnan(x[0]) or mpmath.isnan(x[1]))
        if op == "f32": return mpmath.mpf(float(np.float32(float(x[0]))))
        if op in _MP1: return _MP1[op](x[0])
        if op in _MP2: return _MP2[op](x[0], x[1])
        if op == "fpclass": return bool(fpclass(np.float64(float(x[0])), n[2]))
        raise Undecidable("term operator " + op)
    for t in range(len(terms)):
        if need[t]:
            try:
                vals[t] = go(t)
                if isinstance(vals[t], mpmath.mpc): vals[t] = mpmath.nan
            except (ZeroDivisionError, ValueError, OverflowError):
                vals[t] = mpmath.nan
    return [vals[r] for r in roots]


_LEAF = ("sym", "symi", "const", "true", "false", "undef")


def kids(n):
    if n[0] in _LEAF: return ()
    if n[0] == "fpclass": return (n[1],)
    return n[1:]


def cone(terms, roots):
    need = bytearray(len(terms))
    st = list(roots)
    while st:
        t = st.pop()
        if need[t]: continue
        need[t] = 1
        st.extend(kids(terms[t]))
    return need


def atoms(terms, roots):
    """Comparison atoms deciding an if-then-else under the roots."""
    need = cone(terms, roots)
    conds = set()
    for t, n in enumerate(terms):
        if need[t] and n[0] in ("ite", "iteb"):
            conds.add(n[1])
    res = set()
    st = list(conds)
    seen = set()
    while st:
        t = st.pop()
        if t in seen: continue
        seen.add(t)
        n = terms[t]
        if n[0] in ("not", "and", "or", "xor"): st.extend(n[1:])
        elif n[0] == "iteb": st.extend(n[1:])
        elif n[0] in ("true", "false"): pass
        else: res.add(t)
    return res


def symbols(terms, roots):
    need = cone(terms, roots)
    return {n[1] for t, n in enumerate(terms) if need[t] and n[0] == "sym"}, {n[1] for t, n in enumerate(terms) if need[t] and n[0] == "symi"}


def show(terms, t, depth=6):
    n = terms[t]
    if n[0] == "sym": return "s%d" % n[1]
    if n[0] == "symi": return "k%d" % n[1]
    if n[0] == "const": return str(n[1])
    if depth == 0: return "..."
    a = [show(terms, k, depth - 1) for k in kids(n)]
    inf = dict(add="+", sub="-", mul="*", div="/", cmp_olt="<", cmp_ole="<=", cmp_oeq="==", cmp_one="!=")
    inf["and"], inf["or"] = "&&", "||"
    if n[0] in inf and len(a) == 2: return "(%s %s %s)" % (a[0], inf[n[0]], a[1])
    if n[0] == "neg": return "-" + a[0]
    if n[0] == "not": return "!" + a[0]
    return "%s(%s)" % (n[0], ", ".join(a))
